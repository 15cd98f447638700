"""Combining and summarising observations keeps every observation and its errors."""

import contextlib
import datetime
import io
import json
import os
import sys

import numpy

import obsdata
import py2open  # noqa: F401 (replaces the translation's open)
import stand
from eustace.analysis import diagnostic_combine, inspectinput, obscount, obscountsources
from eustace.analysis.diagnosticgrid import DiagnosticGridBins, DiagnosticGridObservationConnector
from eustace.analysis.fileio.observationsource_rawbinary import (LocalCorrelationRangeRawBinaryWriter, LocationLookupRawBinaryWriter, LocationLookupWithID,
                                                                 ObservationRawBinaryWriter, ObservationSourceBinaryFilenameGenerator)
from eustace.analysis.observationsource import Observations, ObservationSource
from eustace.outputformats import iriscubesaver
from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis

NEEDS = {'extension': True}
RULE = """Random observation sets are appended and averaged; a monitor builds the expected set record by record. Random observations on random
grids and on the global grid are accumulated in one and in several parts and compared, cell by cell, with lists of the observations falling
there. Daily binary files with days missing are counted and inspected through the command line programs. Non-trivial: sets with partial
overlap, or cells with several observations next to empty ones."""
REQUIRED = {'appended': 3000, 'averaged': 1500, 'left unpaired': 500, 'refusals': 200, 'cells with several': 500, 'empty cells': 500, 'parts': 500, 'gridded': 5000,
            'global grids': 8, 'days counted': 500, 'days missing': 100, 'inspected': 300}
ASSUMPTIONS = ['The mean of a diagnostic cell is weighted by the reciprocal of the uncertainty, as the code defines it',
               'Cubes are handed to a recorder in place of the NetCDF saver, which the installed netCDF4 version cannot run']


def a_set(rng, day, ranges, locations, n=None, sort=True):
    fields = obsdata.some_fields(rng, day, locations, ranges, size=n, other_days=False, unique=True)
    if sort:
        order = numpy.argsort(fields.location)
        fields.location = fields.location[order]
    fields.measurement = rng.normal(280, 10, len(fields.mask))
    fields.time = day
    return fields


def columns(o):
    return [numpy.asarray(o.mask, bool), numpy.asarray(o.location).astype(float), numpy.asarray(o.measurement), numpy.asarray(o.uncorrelatederror)] + \
        [numpy.asarray(c) for c in o.locallycorrelatederror]


def appending(rng, mon):
    for _ in range(5):
        day, ranges = int(rng.randint(0, 60000)), rng.randint(0, 3)
        parts = [a_set(rng, day, ranges, 40, sort=bool(rng.randint(2))) for _ in range(rng.randint(1, 5))]
        total = parts[0].observations(Observations)
        expected = [c.copy() for c in columns(total)]
        for part in parts[1:]:
            other = part.observations(Observations)
            before = [c.copy() for c in columns(other)]
            offset = int(rng.choice([0, 7, 40, 100000]))
            total.append(other, offset)
            shifted = [c.copy() for c in before]
            shifted[1] = shifted[1] + offset
            expected = [numpy.hstack([a, b]) for a, b in zip(expected, shifted)]
            for got, e in zip(columns(total), expected):
                mon.same(got, e, 'appended observations')
            mon.equal(total.number_of_observations(), len(expected[0]), 'number of observations after appending')
            mon.equal(total.time, day, 'time after appending')
            for got, e in zip(columns(other), before):
                mon.same(got, e, 'the set that was appended')
            mon.count('appended', len(part.mask))
        wrong = a_set(rng, day + 1, ranges, 40).observations(Observations)
        mon.raises(lambda: total.append(wrong, 0), 'appending observations of another day')
        wrong.time = day + 0.5
        mon.raises(lambda: total.append(wrong, 0), 'appending observations of another time')
        wrong = a_set(rng, day, ranges + 1, 40).observations(Observations)
        fresh = parts[0].observations(Observations)
        mon.raises(lambda: fresh.append(wrong, 0), 'appending observations with other correlation ranges')
        mon.case(('append', [len(p.mask) for p in parts], ranges), nontrivial=len(parts) > 2 and all(len(p.mask) for p in parts))


def averaging(rng, mon):
    for _ in range(6):
        day, ranges = int(rng.randint(0, 60000)), rng.randint(0, 3)
        locations = int(rng.choice([1, 5, 30, 80]))
        a, b = a_set(rng, day, ranges, locations), a_set(rng, day, ranges, locations)
        before = [[c.copy() for c in columns(x.observations(Observations))] for x in (a, b)]
        result = Observations.mean(a.observations(Observations), b.observations(Observations))
        for x, was in zip((a, b), before):
            for got, e in zip(columns(x.observations(Observations)), was):
                mon.same(got, e, 'the sets that were averaged')
        where = {int(l): i for i, l in enumerate(b.location)}
        pairs = [(i, where[int(l)]) for i, l in enumerate(a.location) if int(l) in where]
        mon.same(numpy.asarray(result.location).astype(int), [int(a.location[i]) for i, _ in pairs], 'locations of the mean')
        missing = numpy.array([bool(a.mask[i] or b.mask[j]) for i, j in pairs], dtype=bool)
        mon.same(numpy.asarray(result.mask, bool), missing, 'mask of the mean')
        mon.equal(result.time, day, 'time of the mean')
        use = ~missing
        pick = lambda x, y: (numpy.array([x[i] for i, _ in pairs])[use], numpy.array([y[j] for _, j in pairs])[use])
        if pairs:
            x, y = pick(a.measurement, b.measurement)
            mon.close(numpy.asarray(result.measurement)[use], (x + y) / 2, 'mean measurement')
            x, y = pick(a.uncorrelated, b.uncorrelated)
            mon.close(numpy.asarray(result.uncorrelatederror)[use], numpy.sqrt((x * x + y * y) / 2), 'uncertainty of the mean')
            for k in range(ranges):
                x, y = pick(a.correlated[k], b.correlated[k])
                mon.close(numpy.asarray(result.locallycorrelatederror[k])[use], numpy.sqrt((x * x + y * y) / 2), 'correlated uncertainty of the mean')
        mon.equal(len(result.locallycorrelatederror), ranges, 'correlated uncertainties of the mean')
        mon.count('averaged', len(pairs))
        mon.count('left unpaired', len(a.mask) + len(b.mask) - 2 * len(pairs))
        mon.case(('mean', len(a.mask), len(b.mask), len(pairs), int(missing.sum()), ranges), nontrivial=0 < len(pairs) < max(len(a.mask), len(b.mask)))
        wrong = a_set(rng, day + 1, ranges, locations).observations(Observations)
        mon.raises(lambda: Observations.mean(a.observations(Observations), wrong), 'mean of two days')
        wrong = a_set(rng, day, ranges + 1, locations).observations(Observations)
        mon.raises(lambda: Observations.mean(a.observations(Observations), wrong), 'mean of sets with other correlation ranges')
        if len(pairs) > 1:
            other = b.observations(Observations)
            order = numpy.arange(len(b.mask))[::-1]
            other.mask, other.location, other.measurement, other.uncorrelatederror = b.mask[order], b.location[order], b.measurement[order], b.uncorrelated[order]
            other.locallycorrelatederror = [c[order] for c in b.correlated]
            mon.raises(lambda: Observations.mean(a.observations(Observations), other), 'mean of sets in different order')


class Source(ObservationSource):
    def __init__(self, table, sets):
        self.table, self.sets = table, sets

    def observation_location_lookup(self):
        return self.table

    def observations(self, observable):
        return self.sets[observable].observations(Observations)


def cells(table, lat, lon):
    """Cell of each place: (start, step, count) of the axes."""
    index = lambda v, axis: int(numpy.floor((v - axis[0]) / axis[1])) % axis[2]
    return [(index(p[0], lat), index(p[1], lon)) for p in table.T]


def judge_grid(mon, grid, name, observable, values, shape, mean, what, key=None):
    """values: list of ((row, column), observation, uncertainty)."""
    lists = {}
    for where, o, u in values:
        lists.setdefault(where, []).append((o, u))
    empty = numpy.ones(shape, bool)
    for where in lists:
        empty[where] = False
    summaries = {'count': lambda l: len(l), 'observation_min': lambda l: min(o for o, _ in l), 'observation_max': lambda l: max(o for o, _ in l),
                 'uncertainty_min': lambda l: min(u for _, u in l), 'uncertainty_max': lambda l: max(u for _, u in l),
                 'observation_weightedsum': lambda l: sum(o / u for o, u in l), 'precision_sum': lambda l: sum(1.0 / u for _, u in l)}
    if mean:
        summaries['observation_weightedmean'] = lambda l: sum(o / u for o, u in l) / sum(1.0 / u for _, u in l)
    for diagnostic, summary in summaries.items():
        field = grid.get_field('%s_%s_%s' % (name, observable, diagnostic))
        mon.check(field is not None, '%s: no field %s' % (what, diagnostic))
        expected = numpy.zeros(shape)
        for where, l in lists.items():
            expected[where] = summary(l)
        got = numpy.ma.masked_array(numpy.ma.getdata(field.data).reshape(shape), numpy.ma.getmaskarray(field.data).reshape(shape))
        mon.masked_close(got, numpy.ma.masked_array(expected, empty), '%s: %s' % (what, diagnostic), rtol=1e-9, atol=0.0, key=key)
    mon.count('cells with several', sum(len(l) > 1 for l in lists.values()))
    mon.count('empty cells', min(1000, empty.sum()))
    return lists


def gridding(rng, mon):
    # longitude steps in whole degrees, so that edges are exact
    lat, lon = (-90.0, 180.0 / rng.randint(2, 8), 0), (-180.0, 360.0 / rng.choice([2, 3, 4, 5, 6, 8, 9, 10, 12, 20]), 0)
    lat, lon = lat[:2] + (int(round(180.0 / lat[1])),), lon[:2] + (int(round(360.0 / lon[1])),)
    axes = [GridFieldAxis(a[0] - 0.5 * a[1], a[1], a[2], name, circular) for a, name, circular in ((lat, 'latitude', False), (lon, 'longitude', True))]
    if rng.randint(2):
        axes.insert(0, GridFieldAxis(6.0, 1.0, 1, 'time', False))
    shape = (lat[2], lon[2])
    n = int(rng.choice([1, 4, 30]))
    table = numpy.vstack([rng.uniform(-90, 89.99, n), rng.uniform(-180, 180, n)])
    snap = rng.uniform(size=n) < 0.2      # on cell edges, the date line included
    table[1, snap] = lon[0] + lon[1] * rng.randint(0, lon[2] + 1, snap.sum())
    where = cells(table, lat, lon)
    grid = DiagnosticGridBins(axes)
    sources = ['a', 'b'][:rng.randint(1, 3)]
    day = int(rng.randint(0, 60000))
    for name in sources:
        values = []
        parts = rng.randint(1, 4)
        for _ in range(parts):
            fields = obsdata.some_fields(rng, day, n, 0)
            fields.measurement = rng.normal(rng.choice([280, 0, -40]), 10, len(fields.mask))
            fields.uncorrelated = fields.uncorrelated * rng.choice([1.0, 1e-6, 1e6])
            connector = DiagnosticGridObservationConnector(axes, Source(table, {'Tmean': fields}))
            part = connector.get_day('Tmean', day)
            valid = fields.of_day(day)
            mon.equal(len(part.observation), len(valid), 'observations of the day')
            grid.create_fields_from_sparse_observations(name, part)
            values += [(where[int(fields.location[i])], float(fields.measurement[i]), float(fields.uncorrelated[i])) for i in valid]
            mon.count('parts')
        mon.count('gridded', len(values))
        grid.compute_weighted_mean(name, 'Tmean')
        lists = judge_grid(mon, grid, name, 'Tmean', values, shape, True, 'source %s' % name)
        mon.case(('grid', shape, 'parts', parts, 'observations', len(values), 'cells', len(lists)), nontrivial=len(values) > len(lists) and len(lists) < shape[0] * shape[1])


def a_base(rng, base, source, observable, days, n=30, present=1.0, pole=False, table=None):
    """Binary files of a source: records by day (None without file), ranges, table by day."""
    build = ObservationSourceBinaryFilenameGenerator(source, base)
    ranges = rng.randint(0, 3)
    LocalCorrelationRangeRawBinaryWriter().write(build.filename_local_correlation_ranges(observable), [1.0] * ranges)
    fixed = {'insitu_land': 'insitu_land', 'insitu_ocean': None}.get(source, 'satellite')
    def new_table():
        table = numpy.vstack([rng.uniform(-90, 89.99, n), rng.uniform(-180, 179.99, n)])
        if pole:
            table[0, rng.randint(n)] = 90.0
        return LocationLookupWithID(obsdata.a_uuid(rng), table)
    lookup = table or new_table()
    names, records, tables = {}, {}, {}
    for day in days:
        records[day] = None
        if rng.uniform() < present:
            fields = obsdata.some_fields(rng, day, n, ranges)
            fields.measurement = rng.normal(280, 10, len(fields.mask))
            if not fixed:
                lookup = new_table()
            location = os.path.join(base, 'locationlookup_%s.bin' % fixed) if fixed else build.filename_mobile_locations(observable, day)
            LocationLookupRawBinaryWriter().write(location, lookup)
            ObservationRawBinaryWriter().write_day(build.filename_observations(observable, day), lookup.uuid, fields.observations(Observations), day)
            records[day], tables[day] = fields.records(day), lookup.lookuptable
            names[day] = (build.filename_local_correlation_ranges(observable), location, build.filename_observations(observable, day))
    return ranges, records, tables, names


def combining(rng, mon):
    """Diagnostics of all sources of a day on the global grid."""
    with mon.scratch() as path:
        day = int(rng.randint(0, 60000))
        pole = rng.randint(3) == 0
        chosen = [str(s) for s in rng.permutation(['surfaceairmodel_land', 'surfaceairmodel_ice', 'insitu_land', 'insitu_ocean'])[:rng.randint(1, 4)]]
        inputs, expected = [], []
        for i, source in enumerate(chosen):
            shared = LocationLookupWithID(obsdata.a_uuid(rng), numpy.vstack([rng.uniform(-90, 89.99, 30), rng.uniform(-180, 179.99, 30)]))
            if pole:
                shared.lookuptable[0, rng.randint(30)] = 90.0
            for observable in [str(o) for o in rng.permutation(['Tmean', 'Tmin', 'Tmax'])[:rng.randint(1, 3)]]:
                ranges, records, tables, names = a_base(rng, os.path.join(path, str(i)), source, observable, [day], pole=pole,
                                                        table=None if source == 'insitu_ocean' else shared)
                inputs.append(diagnostic_combine.DiagnosticInput(source, observable, *names[day]))
                table = tables[day]
                where = cells(table, (-90.0, 0.25, 720), (-180.0, 0.25, 1440))
                where = [(719, w[1]) if table[0, k] == 90.0 else w for k, w in enumerate(where)]
                expected.append((source, observable, [(where[r[0]], r[1], r[2]) for r in records[day]]))
        order = rng.permutation(len(inputs))
        inputs = [inputs[k] for k in order]
        recorded = []

        class Recorder(object):
            def __init__(self, filename):
                recorded.append(filename)

            def write_cubes(self, cubes):
                recorded.append(cubes)

        output = os.path.join(path, 'out', 'diagnostic.nc')
        undo = stand.swap(iriscubesaver.NetCDFSaverEUSTACE, Recorder)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                diagnostic_combine.run(output, inputs, datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day))
        finally:
            undo()
        mon.equal(recorded[0], output, 'output file')
        for source, observable, values in expected:
            judge_grid(mon, recorded[1], source, observable, values, (720, 1440), True, 'global grid of %s %s' % (source, observable))
        mon.count('global grids')
        mon.case(('combine', chosen, pole), nontrivial=len(chosen) > 1)


def output_of(main, arguments):
    old, text = sys.argv, io.StringIO()
    sys.argv = ['program'] + arguments
    try:
        with contextlib.redirect_stdout(text):
            main()
    finally:
        sys.argv = old
    return json.loads(text.getvalue())


def statistics(records, days):
    counts = [None if records[d] is None else len(records[d]) for d in days]
    known = [c for c in counts if c is not None]
    return counts, {'number_of_days': len(days), 'total_observations': sum(known), 'missing_days': len(days) - len(known),
                    'mean_observations_per_day': sum(known) / float(len(known)) if known else None}


def counting(rng, mon):
    with mon.scratch() as path:
        first = int(rng.choice([0, 59, 364, 50000, rng.randint(0, 60000)]))
        days = list(range(first, first + rng.randint(1, 15)))
        sources, expected = [], {}
        for source in ['insitu_land', 'surfaceairmodel_ice'][:rng.randint(1, 3)]:
            ranges, records, tables, names = a_base(rng, path, source, 'Tmax', days, present=rng.choice([0.0, 0.5, 0.9, 1.0]))
            a, b = sorted(rng.randint(0, len(days), 2))
            use = days[a:b + 1]
            counts, summary = statistics(records, use)
            dates = [obsdata.a_date(use[0]), obsdata.a_date(use[-1])]
            counter = obscount.ObsCounter(path, source, 'Tmax', *dates)
            got = [None if c is None else int(c) for c in counter.count_all_days()]
            mon.equal(got, counts, 'counts of %s' % source)
            got = output_of(obscount.main, ['--path', path, '--source', source, '--observable', 'Tmax', '--startdate', dates[0], '--enddate', dates[1]])
            mon.equal(got, summary, 'summary of %s' % source)
            sources.append({'source': source, 'observables': ['Tmax', 'Tmin'], 'startdate': dates[0], 'enddate': dates[1]})
            expected[source] = summary
            mon.count('days counted', len(use))
            mon.count('days missing', summary['missing_days'])
            mon.case(('counts', source, counts), nontrivial=summary['missing_days'] > 0 and summary['total_observations'] > 0)
        name = os.path.join(path, 'sources.json')
        with open(name, 'w') as stream:
            json.dump(sources, stream)
        got = output_of(obscountsources.main, ['--datapath', path, '--sourcelist', name])
        mon.equal(sorted(got), sorted(expected), 'sources counted')
        for source in expected:
            mon.equal(got[source]['Tmax'], expected[source], 'summary of %s among all' % source)
            mon.equal(list(got[source]['Tmin']), ['error'], 'summary of an observable without files')


def inspecting(rng, mon):
    with mon.scratch() as path:
        day = int(rng.randint(0, 60000))
        source = str(rng.choice(['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_lake', 'surfaceairmodel_ice', 'insitu_land', 'insitu_ocean']))
        ranges, records, tables, names = a_base(rng, path, source, 'Tmean', [day])
        got = output_of(inspectinput.main, ['--path', path, '--source', source, '--observable', 'Tmean', '--date', obsdata.a_date(day)])
        table = tables[day]
        expected = [{'m': r[1], 'u': r[2], 'c': list(r[3:]), 'lat': float(table[0, r[0]]), 'lon': float(table[1, r[0]])} for r in records[day]]
        mon.equal(got, expected, 'observations of %s inspected' % source)
        mon.count('inspected', len(expected))
        mon.case(('inspect', source, len(expected), ranges), nontrivial=len(expected) > 1)


SCENARIOS = [(appending, 80, 2000), (averaging, 250, 3000), (gridding, 800, 8000), (combining, 32, 200), (counting, 250, 1500), (inspecting, 150, 1000)]
