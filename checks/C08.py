"""Observations written to daily binary files are read back exactly."""

import datetime
import os

import numpy

import obsdata
import py2open  # noqa: F401 (replaces the translation's open)
from eustace.analysis import preparecorrelationranges, preparedailyfixed, preparedailymobile, preparelocationlookup
from eustace.analysis.advanced_standard.examples.inputloader_rawbinary import (AnalysisSystemInputLoaderRawBinary_OneDay,
                                                                               AnalysisSystemInputLoaderRawBinary_Sources)
from eustace.analysis.fileio.observationsource_missing import ObservationSourceMissing, ObservationsMissing
from eustace.analysis.fileio.observationsource_rawbinary import (LocalCorrelationRangeRawBinaryReader, LocalCorrelationRangeRawBinaryWriter,
                                                                 LocationLookupRawBinaryReader, LocationLookupRawBinaryWriter, LocationLookupWithID,
                                                                 ObservableFileSpec, ObservationRawBinaryReader, ObservationRawBinaryWriter,
                                                                 ObservationSourceBinaryFilenameGenerator, ObservationSourceSingleDayRawBinary)
from eustace.analysis.observationsource import Observations, ObservationSource
from monitor import Violation

NEEDS = {'extension': True}
RULE = """Random observation sets (none, all masked, repeated locations, several days, 0 to 3 correlation ranges, special values) are written
by the binary writers and by the daily preparation of every source, over files that already exist; the bytes are parsed by an independent
reader and the readers' and input loaders' answers compared bit by bit with the valid observations of the day. Files of another kind, cut
or extended at every kind of position, or of another location table have to be refused. Non-trivial: a set with valid and left-out observations."""
REQUIRED = {'files written': 400, 'records': 10000, 'left out': 2000, 'empty files': 60, 'refusals': 1500, 'prepared days': 300, 'loaded': 300, 'computed means': 40,
            'mismatched locations': 40, 'tables': 300, 'names': 1000, 'missing': 50, 'records together': 600}
ASSUMPTIONS = ['Reads of binary files return bytes that compare equal to text, as they do under Python 2 (lib/py2open.py)']

SOURCES = ['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice', 'surfaceairmodel_lake', 'insitu_land']
OBSERVABLES = [ObservationSource.TMIN, ObservationSource.TMAX, ObservationSource.TMEAN]


def a_day(rng):
    return int(rng.choice([0, 1, 58, 59, 364, 365, 36524, 57373, 60000, rng.randint(0, 70000)]))


def a_table(rng, n, wrapped=False):
    lat = rng.uniform(-90, 90, n)
    lon = rng.uniform(-180, 360 if wrapped else 180, n)
    if n:
        lat[rng.randint(n)] = rng.choice([90.0, -90.0, 0.0])
        lon[rng.randint(n)] = rng.choice([180.0, -180.0, 0.0, 179.75] + ([359.75] if wrapped else []))
    return numpy.vstack([lat, lon])


def described(mon, fields, day, what):
    valid = len(fields.of_day(day))
    mon.count('left out', len(fields.mask) - valid)
    mon.count('files written')
    if not valid:
        mon.count('empty files')
    mon.case((what, 'day', day, 'observations', len(fields.mask), 'valid', valid, 'ranges', len(fields.correlated), str(fields.measurement.dtype)),
             nontrivial=0 < valid < len(fields.mask))


def records_of(obs):
    return [tuple([int(obs.location[i]), float(obs.measurement[i]), float(obs.uncorrelatederror[i])] + [float(c[i]) for c in obs.locallycorrelatederror])
            for i in range(len(obs.measurement))]


def compare_read(mon, path, identifier, expected, ranges, day, what):
    got_id, got = obsdata.parse_observations(obsdata.content(path), ranges)
    mon.equal(got_id, identifier, what + ': identifier in file')
    obsdata.same_records(mon, got, expected, what + ': file')
    reader = ObservationRawBinaryReader(ranges)
    obs = reader.read_day(path, identifier, day)
    mon.equal(obs.number_of_observations(), len(expected), what + ': number_of_observations')
    obsdata.same_records(mon, records_of(obs), expected, what + ': read_day')
    mon.check(obs.mask.shape == (len(expected),) and not obs.mask.any(), what + ': observations read are masked')
    mon.check(numpy.all(obs.time == day), what + ': time of the observations read')
    mon.equal(len(obs.locallycorrelatederror), ranges, what + ': locally correlated uncertainties')
    mon.same(numpy.asarray(reader.read_location_ids(path, identifier)).astype(int), [r[0] for r in expected], what + ': read_location_ids')
    mon.equal(int(reader.read_observation_count(path)), len(expected), what + ': read_observation_count')


def daily_files(rng, mon):
    with mon.scratch() as path:
        for _ in range(4):
            day, ranges = a_day(rng), rng.randint(0, 4)
            precision = rng.choice([numpy.float64, numpy.float32])
            locations = int(rng.choice([1, 3, 40, 2 ** 40]))
            fields = obsdata.some_fields(rng, day, locations, ranges, precision=precision, special_uncertainty=rng.randint(2) == 0)
            name = os.path.join(path, *rng.choice(['a.bin', 'b/c/d.bin', 'x.bin']).split('/'))
            if rng.randint(2) and os.path.isdir(os.path.dirname(name)):
                obsdata.write_bytes(name, rng.bytes(rng.randint(3000)))   # an older file
            identifier = obsdata.a_uuid(rng)
            before = [fields.location.copy(), fields.measurement.copy(), fields.mask.copy()]
            ObservationRawBinaryWriter().write_day(name, identifier, fields.observations(Observations), day)
            mon.check(all(numpy.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(before, [fields.location, fields.measurement, fields.mask])),
                      'writing changed the observations')
            compare_read(mon, name, identifier, fields.records(day), ranges, day, 'day %d' % day)
            described(mon, fields, day, 'daily')


def tables(rng, mon):
    with mon.scratch() as path:
        for _ in range(5):
            n = int(rng.choice([0, 1, 2, 30, 200]))
            table = a_table(rng, n, wrapped=True)
            identifier = obsdata.a_uuid(rng)
            name = os.path.join(path, 'tables', 'location.bin')
            LocationLookupRawBinaryWriter().write(name, LocationLookupWithID(identifier, table))
            got_id, got = obsdata.parse_locations(obsdata.content(name))
            mon.equal(got_id, identifier, 'identifier in location file')
            mon.same(got, table, 'location file')
            again = LocationLookupRawBinaryReader().read(name)
            mon.equal(again.uuid, identifier, 'identifier of the table read')
            mon.same(again.lookuptable, table, 'location table read')
            mon.equal([str(x) for x in LocationLookupRawBinaryReader().read_uuid_and_count(name)], [str(identifier), str(n)], 'identifier and count')
            ranges = rng.uniform(0.1, 5000.0, rng.randint(0, 6)).astype(rng.choice([numpy.float32, numpy.float64]))
            ranges = ranges if rng.randint(2) else [float(x) for x in ranges]
            name = os.path.join(path, 'tables', 'ranges.bin')
            LocalCorrelationRangeRawBinaryWriter().write(name, ranges)
            expected = numpy.array(ranges, dtype=numpy.float64)
            mon.same(obsdata.parse_ranges(obsdata.content(name)), expected, 'range file')
            mon.same(LocalCorrelationRangeRawBinaryReader().read(name), expected, 'ranges read')
            mon.count('tables', 2)
            mon.case(('tables', n, len(ranges)), nontrivial=n > 1)


def damaged(rng, mon):
    with mon.scratch() as path:
        day, ranges = a_day(rng), rng.randint(0, 4)
        fields = obsdata.some_fields(rng, day, 30, ranges, size=rng.randint(1, 20), other_days=False)
        fields.mask[:] = False
        identifier = obsdata.a_uuid(rng)
        other = obsdata.another_uuid(rng, identifier)
        obs = os.path.join(path, 'obs.bin')
        loc = os.path.join(path, 'loc.bin')
        cor = os.path.join(path, 'cor.bin')
        ObservationRawBinaryWriter().write_day(obs, identifier, fields.observations(Observations), day)
        LocationLookupRawBinaryWriter().write(loc, LocationLookupWithID(identifier, a_table(rng, 30)))
        LocalCorrelationRangeRawBinaryWriter().write(cor, rng.uniform(1, 2, ranges + 1))
        observations = lambda name, i=identifier: ObservationRawBinaryReader(ranges).read_day(name, i, day)
        ids = lambda name, i=identifier: ObservationRawBinaryReader(ranges).read_location_ids(name, i)
        count = lambda name: ObservationRawBinaryReader(ranges).read_observation_count(name)
        locations = lambda name: LocationLookupRawBinaryReader().read(name)
        correlation = lambda name: LocalCorrelationRangeRawBinaryReader().read(name)
        number = lambda name: LocationLookupRawBinaryReader().read_uuid_and_count(name)
        readers = [('observations', observations, obs), ('location ids', ids, obs), ('locations', locations, loc), ('ranges', correlation, cor)]
        # other location table
        mon.raises(lambda: observations(obs, other), 'observations of another location table')
        mon.raises(lambda: ids(obs, other), 'location ids of another location table')
        for _ in range(8):
            mon.raises(lambda i=obsdata.another_uuid(rng, identifier): observations(obs, i), 'observations of another location table')
        filespecs = {'Tmin': ObservableFileSpec(obs, [1.0] * ranges)}
        single = ObservationSourceSingleDayRawBinary(LocationLookupWithID(other, a_table(rng, 30)), filespecs, day)
        mon.raises(lambda: single.observations('Tmin'), 'observations of another location table through the source')
        # another kind of file
        for what, reader, good in readers + [('count', count, obs), ('location count', number, loc)]:
            reader(good)
            for bad in (obs, loc, cor):
                if bad != good:
                    mon.raises(lambda: reader(bad), '%s from %s' % (what, os.path.basename(bad)))
            mon.raises(lambda: reader(os.path.join(path, 'absent.bin')), '%s of no file' % what)
            data = bytearray(obsdata.content(good))
            data[rng.randint(16)] ^= 1 << rng.randint(8)
            bad = os.path.join(path, 'damaged.bin')
            obsdata.write_bytes(bad, bytes(data))
            mon.raises(lambda: reader(bad), '%s with a damaged format identifier' % what)
        # of unexpected size
        for what, reader, good in readers:
            data = obsdata.content(good)
            header = 32 if good == cor else 48
            record = {obs: 8 * (3 + ranges), loc: 16, cor: 8}[good]
            cuts = [0, 1, 15, 17 if good != cor else 3, header - 1 if good != cor else 5]
            cuts += [header + int(k) for k in rng.randint(1, len(data) - header, 4) if k % record]
            bad = os.path.join(path, 'cut.bin')
            for cut in cuts:
                obsdata.write_bytes(bad, data[:cut])
                mon.raises(lambda: reader(bad), '%s cut at %d of %d' % (what, cut, len(data)))
            extra = int(rng.randint(1, record)) if record > 1 else 1
            obsdata.write_bytes(bad, data + rng.bytes(extra))
            mon.raises(lambda: reader(bad), '%s with %d more bytes' % (what, extra))
            # whole records less are another, valid file
            whole = rng.randint(0, (len(data) - header) // record + 1)
            obsdata.write_bytes(bad, data[:header + whole * record])
            reader(bad)
        mon.case(('damaged', ranges, len(fields.mask)))


def together(rng, mon):
    """Several observables in one source, each with its own ranges, asked in any order and again."""
    with mon.scratch() as path:
        day, n = a_day(rng), int(rng.choice([1, 5, 40]))
        lookup = LocationLookupWithID(obsdata.a_uuid(rng), a_table(rng, n))
        specs, written = {}, {}
        for observable in OBSERVABLES[:rng.randint(2, 4)]:
            ranges = [float(x) for x in rng.uniform(1, 500, rng.randint(0, 4))]
            fields = obsdata.some_fields(rng, day, n, len(ranges), special_uncertainty=rng.randint(2) == 0)
            name = os.path.join(path, observable + '.bin')
            ObservationRawBinaryWriter().write_day(name, lookup.uuid, fields.observations(Observations), day)
            specs[observable] = ObservableFileSpec(name, ranges)
            written[observable] = ranges, fields.records(day)
        source = ObservationSourceSingleDayRawBinary(lookup, specs, day)
        mon.equal(sorted(source.observables()), sorted(written), 'observables of the day')
        held = []
        for observable in list(rng.permutation(sorted(written))) * 2:
            ranges, records = written[observable]
            obs = source.observations(observable)
            mon.equal([float(x) for x in source.local_correlation_length_scale(observable)], ranges, 'ranges of %s' % observable)
            mon.equal(len(obs.locallycorrelatederror), len(ranges), 'correlated uncertainties of %s' % observable)
            obsdata.same_records(mon, records_of(obs), records, '%s of several observables' % observable)
            mon.equal(int(obs.time), day, 'day of %s' % observable)
            held.append((observable, obs))
            mon.count('records together', len(records))
        mon.same(source.observation_location_lookup(), lookup.lookuptable, 'locations of the day')
        for observable, obs in held:
            obsdata.same_records(mon, records_of(obs), written[observable][1], '%s after reading others' % observable)
        mon.case(('together', n, [len(x[0]) for x in written.values()]), nontrivial=len(set(len(x[0]) for x in written.values())) > 1)


def names(rng, mon):
    for _ in range(30):
        source, observable, day = str(rng.choice(SOURCES + ['insitu_ocean'])), str(rng.choice(OBSERVABLES)), a_day(rng)
        base = str(rng.choice(['/base', 'relative/dir', '/']))
        date = obsdata.a_date(day)
        build = ObservationSourceBinaryFilenameGenerator(source, base)
        mon.equal(build.filename_observations(observable, day),
                  os.path.join(base, source, date[:4], '%s_%s_%s.bin' % (source, observable, date)), 'name of observations', event='names')
        mon.equal(build.filename_mobile_locations(observable, day),
                  os.path.join(base, source, date[:4], '%s_%s_mobilelocations_%s.bin' % (source, observable, date)), 'name of mobile locations', event='names')
        mon.equal(build.filename_local_correlation_ranges(observable),
                  os.path.join(base, '%s_%s_localcorrelationranges.bin' % (source, observable)), 'name of correlation ranges', event='names')
    mon.case(('names', source, observable, day))


class Stub(ObservationSource):
    """What a source gives, and how it was asked."""
    current = None

    def observables(self):
        return OBSERVABLES

    def observation_location_lookup(self):
        return self.current['table'].copy()

    def observations(self, observable, qc_mask=None):
        self.current['asked'].append((observable, bool(qc_mask)) + self.opened)
        return self.current['fields'].observations(Observations)

    def local_correlation_length_scale(self, observable):
        return self.current['ranges']


class GridStub(Stub):
    def __init__(self, observables, filename):
        self.opened = (filename, list(observables))


class LandStub(Stub):
    def __init__(self, filename, daynumber=None, hold_out_filename=None, altitude_adjustment=None):
        self.opened = (filename, daynumber, hold_out_filename, altitude_adjustment)


class FileStub(Stub):
    def __init__(self, filename):
        self.opened = (filename,)


def stubbed(classes):
    preparedailyfixed.SOURCECLASS.update({name: GridStub for name in SOURCES})
    preparedailyfixed.SOURCECLASS['insitu_land'] = LandStub
    preparedailymobile.SOURCECLASS['insitu_ocean'] = FileStub


def prepared(rng, mon):
    stubbed(None)
    with mon.scratch() as path:
        for _ in range(4):
            day, ranges = a_day(rng), rng.randint(0, 4)
            when = datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day)
            n = int(rng.choice([1, 4, 40]))
            table = a_table(rng, n)
            fields = obsdata.some_fields(rng, day, n, ranges, precision=rng.choice([numpy.float64, numpy.float32]), special_uncertainty=rng.randint(2) == 0)
            Stub.current = {'table': table, 'fields': fields, 'ranges': [float(i + 1) for i in range(ranges)], 'asked': []}
            source, observable = str(rng.choice(SOURCES)), str(rng.choice(OBSERVABLES))
            locname, outname, corname = [os.path.join(path, 'out', x) for x in ('loc.bin', 'daily/day.bin', 'cor.bin')]
            preparelocationlookup.run(locname, 'in.nc', source)
            identifier, got = obsdata.parse_locations(obsdata.content(locname))
            mon.same(got, table, 'prepared location table')
            preparecorrelationranges.run(corname, 'in.nc', source, observable)
            mon.same(obsdata.parse_ranges(obsdata.content(corname)), Stub.current['ranges'], 'prepared ranges')
            kwargs = {}
            adjustment = object()
            if source == 'insitu_land':
                kwargs = [{}, {'hold_out_list': 'held.nc'}, {'qc_mask': True}, {'altitude_adjustment': adjustment},
                          {'hold_out_list': 'held.nc', 'qc_mask': True, 'altitude_adjustment': adjustment}][rng.randint(5)]
            Stub.current['asked'] = []
            # the same places up to rounding, or elsewhere
            moved = rng.randint(3) == 0 and len(fields.mask) > 0
            used = [int(i) for i in set(fields.location.tolist())]
            shift = numpy.zeros(table.shape)
            if moved:
                shift[rng.randint(2), used[rng.randint(len(used))]] = rng.choice([0.001, -0.5, 10.0, -0.00025])
            else:
                shift[:] = rng.choice([0.0, 0.00005, -0.00005])
                for i in range(n):
                    if i not in used:
                        shift[:, i] = 50.0                      # a place without observations does not matter
            Stub.current['table'] = table + shift
            act = lambda: preparedailyfixed.run_day(outname, locname, 'day.nc', when, source, observable, **kwargs)
            if moved:
                mon.raises(act, 'locations %s differ by up to %g' % (source, numpy.abs(shift).max()), event='mismatched locations')
            else:
                act()
                compare_read(mon, outname, identifier, fields.records(day), ranges, day, 'prepared %s' % source)
                described(mon, fields, day, ('prepared', source, observable, sorted(kwargs)))
                mon.count('prepared days')
            expected = (observable, False, 'day.nc', [observable])
            if source == 'insitu_land':
                expected = (observable, 'qc_mask' in kwargs, 'day.nc', day, kwargs.get('hold_out_list'), kwargs.get('altitude_adjustment'))
            mon.equal(set(map(repr, Stub.current['asked'])), {repr(expected)}, 'how the source was asked')
            # ships: locations of the day itself
            Stub.current['table'] = table
            seen = set()
            for k in range(2):
                obsname, movname = os.path.join(path, 'mobile', 'obs.bin'), os.path.join(path, 'mobile', 'loc.bin')
                preparedailymobile.run_day(obsname, movname, 'ships.txt', when, 'insitu_ocean', observable)
                mobile, got = obsdata.parse_locations(obsdata.content(movname))
                mon.same(got, table, 'mobile locations')
                compare_read(mon, obsname, mobile, fields.records(day), ranges, day, 'prepared ships')
                mon.count('prepared days')
                seen.add(mobile)
            mon.equal(len(seen), 2, 'identifiers of two location tables')


def expected_structure(mon, structure, day, table, records, what, means=False):
    mon.equal(structure.number_of_observations(), len(records), what + ': number of observations')
    mon.equal(structure.time_index(), day, what + ': time index')
    mon.equal(structure.time_datetime(), datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day), what + ': date')
    if not records:
        mon.equal(len(structure.observation_vector()), 0, what + ': observations of none')
        return
    rtol = 1e-6 if means else 0.0
    mon.close(structure.observation_vector(), [r[1] for r in records], what + ': measurements', rtol=rtol, atol=0.0)
    precision = structure.observation_precision()
    mon.equal(tuple(precision.shape), (len(records), len(records)), what + ': precision shape')
    mon.close(precision.toarray(), numpy.diag([r[2] ** -2 for r in records]), what + ': precision', rtol=1e-6, atol=0.0)
    expected = table[:, [r[0] for r in records]].T.copy()
    expected[expected[:, 1] >= 180.0, 1] -= 360.0
    mon.same(structure.location_polar_coordinates(), expected, what + ': coordinates')


LOADED = {'surfaceairmodel_land': (['Tmin', 'Tmax'], 'locationlookup_satellite.bin'), 'surfaceairmodel_ocean': (['Tmean'], 'locationlookup_satellite.bin'),
          'surfaceairmodel_ice': (['Tmean'], 'locationlookup_satellite.bin'), 'insitu_land': (['Tmin', 'Tmax'], 'locationlookup_insitu_land.bin'),
          'insitu_ocean': (['Tmean'], None)}


def write_source(rng, base, source, days, n, finite=True):
    """Files of a source with the real writers: ranges and records by day and observable, table by day."""
    observables, fixed = LOADED[source]
    build = ObservationSourceBinaryFilenameGenerator(source, base)
    ranges = rng.randint(0, 3)
    for observable in observables:
        LocalCorrelationRangeRawBinaryWriter().write(build.filename_local_correlation_ranges(observable), [float(i + 1) for i in range(ranges)])
    written, tables_by_day = {}, {}
    lookup = LocationLookupWithID(obsdata.a_uuid(rng), a_table(rng, n, True))
    if fixed:
        LocationLookupRawBinaryWriter().write(os.path.join(base, fixed), lookup)
    for day in days:
        if not fixed:
            lookup = LocationLookupWithID(obsdata.a_uuid(rng), a_table(rng, n, True))
            LocationLookupRawBinaryWriter().write(build.filename_mobile_locations(observables[0], day), lookup)
        tables_by_day[day] = lookup.lookuptable
        for observable in observables:
            fields = obsdata.some_fields(rng, day, n, ranges, unique=True)
            order = numpy.argsort(fields.location)
            for name in ('mask', 'time', 'location', 'measurement', 'uncorrelated'):
                setattr(fields, name, getattr(fields, name)[order])
            fields.correlated = [c[order] for c in fields.correlated]
            fields.measurement = rng.normal(280.0, 20.0, len(fields.mask))
            ObservationRawBinaryWriter().write_day(build.filename_observations(observable, day), lookup.uuid, fields.observations(Observations), day)
            written[day, observable] = fields.records(day)
    return ranges, written, tables_by_day, lookup


def mean_of(a, b):
    second = {r[0]: r for r in b}
    rms = lambda x, y: float(numpy.sqrt((x * x + y * y) / 2.0))
    return [tuple([r[0], (r[1] + second[r[0]][1]) / 2.0] + [rms(x, y) for x, y in zip(r[2:], second[r[0]][2:])]) for r in a if r[0] in second]


def loaded(rng, mon):
    with mon.scratch() as path:
        base = os.path.join(path, 'base')
        source = str(rng.choice(sorted(LOADED)))
        days = sorted(set(a_day(rng) for _ in range(3)))
        n = int(rng.choice([1, 5, 30]))
        ranges, written, tables_by_day, lookup = write_source(rng, base, source, days, n)
        loader = AnalysisSystemInputLoaderRawBinary_Sources(base, source, days)
        observables, fixed = LOADED[source]
        for i in rng.permutation(len(days)).tolist() + [0]:
            day = days[i]
            for observable in observables + ['Tmean']:
                what = '%s %s on day %d' % (source, observable, day)
                computed = (day, observable) not in written
                records = written[day, observable] if not computed else mean_of(written[day, 'Tmin'], written[day, 'Tmax'])
                structure = loader.load_observation_structure(observable, day)
                expected_structure(mon, structure, day, tables_by_day[day], records, what, means=computed)
                mon.equal(len(structure.observations.locallycorrelatederror), ranges, what + ': correlated')
                for k in range(ranges):
                    mon.close(structure.observations.locallycorrelatederror[k], [r[3 + k] for r in records], what + ': correlated %d' % k, rtol=1e-6, atol=0.0)
                mon.count('loaded')
                if computed:
                    mon.count('computed means')
                mon.case((source, observable, day, len(records), ranges), nontrivial=len(records) > 0)
        # one day, with files that may be absent
        build = ObservationSourceBinaryFilenameGenerator(source, base)
        day = days[rng.randint(len(days))]
        observable = observables[0]
        absent = rng.randint(2)
        one = AnalysisSystemInputLoaderRawBinary_OneDay(
            {o: build.filename_local_correlation_ranges(o) for o in observables}, day,
            {o: None if absent else build.filename_observations(o, day) for o in observables},
            os.path.join(base, fixed) if fixed else None,
            None if fixed else {'locations': build.filename_mobile_locations(observable, day)})
        structure = one.load_observation_structure(observable, day)
        expected_structure(mon, structure, day, tables_by_day[day], [] if absent else written[day, observable], 'one day of %s' % source)
        if absent:
            mon.count('missing')


def missing(rng, mon):
    day, ranges = a_day(rng), rng.randint(0, 4)
    obs = ObservationRawBinaryReader(ranges).read_day(None, obsdata.a_uuid(rng), day)
    mon.equal(int((~numpy.asarray(obs.mask, bool)).sum()), 0, 'valid observations of a day without file', event='missing')
    none = ObservationsMissing(day)
    mon.equal(none.number_of_observations(), 0, 'number of missing observations')
    mon.equal(none.time, day, 'time of missing observations')
    mon.equal(len(none.mask), 0, 'mask of missing observations')
    source = ObservationSourceMissing(['Tmin', 'Tmean'])
    mon.equal(list(source.observables()), ['Tmin', 'Tmean'], 'missing observables')
    mon.equal(source.observations('Tmean').number_of_observations(), 0, 'observations of missing source')
    for unknown in ('Tmax', 'T', 'Tme', 'min', ''):
        mon.raises(lambda: source.observations(unknown), 'observable %r unknown to the missing source' % unknown)
    single = ObservationSourceSingleDayRawBinary(None, {'Tmin': ObservableFileSpec('a.bin', [])}, day)
    mon.equal(single.observations('Tmin').number_of_observations(), 0, 'observations without location table')
    mon.equal(single.observation_location_lookup(), None, 'no location table')
    table = LocationLookupWithID(obsdata.a_uuid(rng), a_table(rng, 4))
    single = ObservationSourceSingleDayRawBinary(table, {'Tmin': ObservableFileSpec(None, [2.0, 3.0])}, day)
    mon.equal(single.observations('Tmin').number_of_observations(), 0, 'observations without file')
    mon.equal(list(single.local_correlation_length_scale('Tmin')), [2.0, 3.0], 'ranges')
    mon.equal(list(single.observables()), ['Tmin'], 'observables')
    mon.case(('missing', day, ranges))


SCENARIOS = [(daily_files, 150, 6000), (tables, 40, 1000), (damaged, 50, 2000), (together, 60, 2000), (names, 20, 200), (prepared, 80, 3000), (loaded, 60, 2500), (missing, 50, 200)]
