"""Station break points are attributed to the right station and period."""

import datetime
import os

import netCDF4
import numpy

import cpp
from eustace.analysis.advanced_standard.elements.bias import BiasElement
from eustace.analysis.advanced_standard.elements.bias_insitu_land import InsituLandBiasElement
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
from eustace.analysis.advanced_standard.elements.spatial_bias import SpatialBiasElement
from eustace.analysis.advanced_standard.fileio.observation_source_surface_effects import insitu_land_covariate_effect
from eustace.analysis.advanced_standard.fileio.observation_structure_source_connector import ObservationStructureSourceConnector
from eustace.analysis.observationsource import Observations, ObservationsBreakPoints, ObservationSource
from eustace.preprocess.fileio.insitu_land_breakpoints import ObservationBreakPointSourceInsituLand

NEEDS = {'extension': True, 'cpp_harness': ['harness.cpp'], 'sanitize': True}
RULE = """Random station files (any order, repeated times, stations without breaks, missing likelihoods, none at all) are read by Python and by
the C++ library (with sanitizers) and filtered by station and by both policies; a monitor keeps the list of (time, station, likelihood)
and filters it by the definitions. Observation sets at times before, at, between and after breaks are given to the bias elements through
the observation structure, and the monitor searches each station's next break itself. Non-trivial: some station has a later break and another not."""
REQUIRED = {'breaks read': 5000, 'filtered': 2000, 'C++ files': 100, 'observations assigned': 1200, 'observations not assigned': 1500, 'at a break': 150,
            'designs': 300, 'missing likelihoods': 150, 'wrong policies': 20, 'satellite designs': 100, 'spatial designs': 10}
ASSUMPTIONS = ['Thresholds are not within 1e-9 of a kernel value, but for one', 'Two breaks of a station at the same time are interchangeable']

EPOCH = datetime.datetime(1850, 1, 1)


class Breaks(object):
    def __init__(self, rng, stations=None, orderly=None):
        self.stations = int(rng.choice([1, 2, 5, 12, 30])) if stations is None else stations
        n = int(rng.choice([0, 1, 2, 8, 30, 60, 60]))
        self.station = rng.randint(1, self.stations + 1, n)
        if n and rng.randint(3) == 0:
            self.station[rng.uniform(size=n) < 0.7] = self.station[0]
        if n and self.stations > 65600:      # the same numbers in the lowest bits
            self.station = rng.choice([1, 2, 255, 256], n) + rng.choice([0, 256, 32768, 65536], n)
        self.time = rng.choice(rng.randint(0, 60000, 6), n) if rng.randint(2) and n else rng.randint(0, 60000, n)
        self.likelihood = rng.randint(0, 128, n)
        if n and rng.randint(3) == 0:
            self.likelihood = rng.choice([0, 1, 64, 126, 127], n)
        self.missing = rng.uniform(size=n) < rng.choice([0.0, 0.0, 0.3, 0.3])
        if rng.randint(2) if orderly is None else orderly:
            order = numpy.lexsort((self.time, self.station))
            self.station, self.time, self.likelihood, self.missing = self.station[order], self.time[order], self.likelihood[order], self.missing[order]
        self.feasibility = rng.randint(0, 2, self.stations)
        self.lat = rng.uniform(-90, 90, self.stations).astype(numpy.float32)
        self.lon = rng.choice([rng.uniform(-180, 360), 180.0, 179.75, 359.75], self.stations).astype(numpy.float32)

    def entries(self):
        return [(int(t), int(s), int(l)) for t, s, l, m in zip(self.time, self.station, self.likelihood, self.missing) if not m]

    def write(self, path, with_missing=True):
        dataset = netCDF4.Dataset(path, 'w', format='NETCDF4')
        dataset.createDimension('merged_break', len(self.time))
        dataset.createDimension('station', self.stations)
        for name, values, kind, dim in [('merged_break_time', self.time, 'i4', 'merged_break'), ('merged_break_station', self.station, 'i4', 'merged_break'),
                                        ('detection_feasibility', self.feasibility, 'i1', 'station'), ('latitude', self.lat, 'f4', 'station'),
                                        ('longitude', self.lon, 'f4', 'station')]:
            dataset.createVariable(name, kind, (dim,))[:] = values
        variable = dataset.createVariable('merged_break_likelihood', 'i1', ('merged_break',), fill_value=-127 if with_missing else None)
        variable[:] = numpy.ma.masked_array(self.likelihood, mask=self.missing) if with_missing else self.likelihood
        dataset.close()


def entries_of(b):
    return list(zip([int(x) for x in b.break_time], [int(x) for x in b.break_station], [int(x) for x in b.break_likelihood]))


def kernel(l, decay):
    return float(numpy.exp(-decay * abs(l - 127)))


def a_policy(rng, entries):
    """(code, threshold, decay, entries kept); thresholds at likelihoods, never at a kernel value."""
    likelihoods = [e[2] for e in entries] or [50]
    if rng.randint(2):
        threshold = float(rng.choice([0.0, 127.0, 128.0, float(rng.choice(likelihoods)), float(rng.choice(likelihoods)) + 0.5]))
        return 'HARD_CUTOFF', threshold, 0.0, [e for e in entries if e[2] >= threshold]
    decay = float(rng.choice([0.01, 0.05, 0.3, 1.7]))
    at = int(rng.choice(likelihoods))
    if rng.randint(6) == 0:
        # where the kernel is one exactly
        decay = float(rng.choice([decay, 0.0]))
        return 'LAPLACE_KERNEL', 1.0, decay, [e for e in entries if decay == 0 or e[2] == 127]
    threshold = float((kernel(at, decay) + kernel(at + rng.choice([-1, 1]), decay)) / 2.0) if rng.randint(2) else kernel(at, decay) * float(rng.choice([0.9999, 1.0001]))
    return 'LAPLACE_KERNEL', threshold, decay, [e for e in entries if kernel(e[2], decay) >= threshold]


def judge_python(mon, b, entries, what):
    mon.equal(entries_of(b), entries, what, event='breaks read')
    mon.count('breaks read', len(entries))
    for name in ('break_time', 'break_station', 'break_likelihood'):
        mon.equal(numpy.asarray(getattr(b, name)).shape, (len(entries),), '%s: shape of %s' % (what, name))
    stations = sorted(set(e[1] for e in entries))
    mon.equal(b.number_of_observations(), len(entries), what + ': number')
    mon.equal(b.total_number_of_stations(), len(stations), what + ': number of stations')
    mon.equal([int(x) for x in b.stations_collection()], stations, what + ': stations')
    mon.equal([int(x) for x in b.stations_count()], [sum(e[1] == s for e in entries) for s in stations], what + ': breaks by station')
    for s in stations[:6] + [max(stations + [0]) + 1]:
        mon.equal([int(t) for t in b.filtered_break_points(s)], [e[0] for e in entries if e[1] == s], '%s: breaks of station %d' % (what, s), event='filtered')
        mon.equal([int(i) for i in b.stations_break_point_indices(s)], [i for i, e in enumerate(entries) if e[1] == s], '%s: indices of station %d' % (what, s))


def reading(rng, mon):
    with mon.scratch() as path:
        breaks = Breaks(rng, stations=70000 if rng.randint(8) == 0 else None)
        name = os.path.join(path, 'status.nc')
        breaks.write(name)
        entries = breaks.entries()
        mon.count('missing likelihoods', breaks.missing.sum())
        source = ObservationBreakPointSourceInsituLand(name)
        mon.equal(source.number_of_observations('merged_break'), len(breaks.time), 'number of breaks in the file')
        b = source.observations('merged_break')
        judge_python(mon, b, entries, 'breaks')
        mon.same(numpy.asarray(b.detection_feasibility), breaks.feasibility, 'feasibility')
        lon = numpy.where(breaks.lon >= 180, breaks.lon - 360, breaks.lon)
        mon.close(numpy.ma.getdata(source.observation_location_lookup()), numpy.vstack([breaks.lat, lon]), 'stations', rtol=1e-6)
        dates = [(EPOCH + datetime.timedelta(days=e[0])).strftime('%Y-%m-%d') for e in entries]
        mon.equal([str(x) for x in b.break_points_timestamp(EPOCH)], dates, 'dates of breaks')
        later = EPOCH + datetime.timedelta(days=int(rng.randint(0, 20000)))
        given = numpy.array([e[0] for e in entries[:20]], numpy.int64) - int(rng.randint(0, 40000))
        numbered = ObservationsBreakPoints(given, numpy.arange(len(given)), numpy.full(len(given), 3), break_type=given + 1, detection_feasibility=given + 2, detection_score=given + 3)
        mon.equal([str(x) for x in numbered.break_points_timestamp(later)], [(later + datetime.timedelta(days=int(d))).strftime('%Y-%m-%d') for d in given], 'dates from another epoch')
        for shift, part in enumerate((numbered.break_type, numbered.detection_feasibility, numbered.detection_score)):
            mon.same(part, given + 1 + shift, 'what is known of breaks')
        for s in set(rng.randint(1, breaks.stations, 3).tolist()) if breaks.stations > 1 else []:
            one = ObservationBreakPointSourceInsituLand(name, s)
            mon.equal(one.number_of_observations('merged_break'), int((breaks.station == s).sum()), 'number of breaks of station %d' % s)
            judge_python(mon, one.observations('merged_break'), [e for e in entries if e[1] == s], 'breaks read of station %d' % s)
        for _ in range(3):
            code, threshold, decay, kept = a_policy(rng, entries)
            b = source.observations('merged_break')
            b.apply_policy(code, threshold=threshold, decay_constant=decay)
            judge_python(mon, b, kept, '%s %r %r' % (code, threshold, decay))
            code, threshold, decay, again = a_policy(rng, kept)
            b.apply_policy(code, threshold=threshold, decay_constant=decay)
            judge_python(mon, b, again, 'then %s %r %r' % (code, threshold, decay))
            mon.case((code, threshold, decay, len(entries), len(kept), len(again)), nontrivial=0 < len(kept) < len(entries))
        mon.raises(lambda: b.apply_policy('SOFT', 0.0), 'unknown policy', event='wrong policies')


def reading_cpp(rng, mon):
    with mon.scratch() as path:
        breaks = Breaks(rng, stations=70000 if rng.randint(8) == 0 else None)
        breaks.missing[:] = False
        name = os.path.join(path, 'status.nc')
        breaks.write(name, with_missing=bool(rng.randint(2)))
        entries = breaks.entries()
        policies = [a_policy(rng, entries) for _ in range(3)]
        codes = {'HARD_CUTOFF': 0, 'LAPLACE_KERNEL': 1}
        commands = ['breaks ' + name] + ['breaks %s %d %.17g %.17g' % (name, codes[p[0]], p[1], p[2]) for p in policies] + ['stations ' + name, 'breaks %s 7 0 0' % name]
        answers = cpp.run(commands)
        for answer, kept in zip(answers, [entries] + [p[3] for p in policies]):
            lines = answer[answer.index('--') + 1:]
            stations = sorted(set(e[1] for e in kept))
            column = lambda i: [e[i] for e in kept]
            expected = [['time'] + column(0), ['station'] + column(1), ['likelihood'] + column(2), ['number', len(kept), len(stations)],
                        ['stations'] + stations, ['counts'] + [column(1).count(s) for s in stations]]
            expected += [['filtered'] + [e[0] for e in kept if e[1] == s] for s in stations]
            mon.equal(lines, [' '.join(map(str, e)) for e in expected], 'breaks read by C++', event='C++ files')
            mon.count('filtered', len(stations))
        lon = numpy.where(breaks.lon >= 180, breaks.lon - numpy.float32(360), breaks.lon)
        mon.close(cpp.numbers(answers[-2][0], 1), breaks.lat, 'latitudes read by C++', rtol=1e-6)
        mon.close(cpp.numbers(answers[-2][1], 1), lon, 'longitudes read by C++', rtol=1e-6)
        mon.check(cpp.refused(answers[-1]), 'unknown policy accepted by C++', event='wrong policies')
        mon.case(('C++', len(entries), breaks.stations), nontrivial=len(entries) > 1)


class Source(ObservationSource):
    """Gives observations of one day, as a file of the given name would."""

    class Spec(object):
        def __init__(self, filename):
            self.filename = filename

    def __init__(self, table, obs, names):
        self.table, self.obs = table, obs
        self.filespecs = {i: Source.Spec(name) for i, name in enumerate(names)}

    def observation_location_lookup(self):
        return self.table

    def observations(self, observable):
        return self.obs


def assigned(entries, station, time):
    """Indices of the next break of a (zero based) station after the time; more than one if at the same time."""
    later = [(e[0], i) for i, e in enumerate(entries) if e[1] - 1 == station and e[0] > time]
    return [i for t, i in later if t == min(later)[0]]


def observed(rng, day, stations, prefix, ordered=True):
    n = stations if rng.randint(2) else rng.randint(0, stations + 1)
    location = rng.permutation(stations)[:n]
    if ordered or rng.randint(2):
        location = numpy.sort(location)
    mask = rng.uniform(size=n) < rng.choice([0.0, 0.0, 0.3, 0.9])
    obs = Observations(mask, day, location.astype(numpy.uint64), rng.normal(280, 10, n), rng.uniform(0.1, 1.0, n), [])
    table = numpy.vstack([rng.uniform(-90, 90, stations), rng.uniform(-180, 180, stations)])
    table[0, rng.uniform(size=stations) < 0.15] = rng.choice([0.0, -90.0, 90.0, 0.125, -0.125, -1e-9])
    date = (EPOCH + datetime.timedelta(days=int(day))).strftime('%Y%m%d')
    names = ['/data/%s_%s_%s.bin' % (prefix, o, date) for o in (('Tmin', 'Tmax') if rng.randint(2) else ('Tmean',))]
    source = Source(table, obs, names)
    valid = [int(location[i]) for i in range(n) if not mask[i]]
    return ObservationStructureSourceConnector(source, 'Tmean', EPOCH + datetime.timedelta(days=int(day))), valid, table


def a_time(rng, entries):
    if entries and rng.randint(2):
        return sorted(entries)[rng.randint(0, 1 + len(entries) // 3)][0]
    if entries and rng.randint(4):
        return max(0, entries[rng.randint(len(entries))][0] + int(rng.choice([0, 0, 1, -1])))
    return int(rng.randint(0, 61000))


def assignment(rng, mon):
    with mon.scratch() as path:
        breaks = Breaks(rng)
        name = os.path.join(path, 'status.nc')
        breaks.write(name)
        entries = breaks.entries()
        if rng.randint(2):
            element = InsituLandBiasElement(name)
        else:
            cut = int(rng.choice([0, 30, 64, 127]))
            element = InsituLandBiasElement(name, apply_policy=True, cut_value=cut)
            entries = [e for e in entries if e[2] >= cut]
        mon.equal(element.number_of_biases, len(entries), 'number of bias terms')
        prior = element.element_prior(CovariateHyperparameters(numpy.log(0.7)))
        mon.equal(prior.prior_number_of_state_parameters(), len(entries), 'bias terms of the prior')
        if entries:
            mon.close(prior.prior_precision().toarray(), numpy.eye(len(entries)) / 0.49, 'prior of bias terms')
        for _ in range(6):
            day = a_time(rng, entries)
            prefix = 'insitu_land' if rng.randint(5) else str(rng.choice(['insitu_ocean', 'surfaceairmodel_land']))
            structure, valid, table = observed(rng, day, breaks.stations, prefix, ordered=False)
            design = element.element_design(structure)
            mon.equal(design.design_number_of_state_parameters(), len(entries), 'bias terms of the design')
            if not entries:
                continue
            A = design.design_matrix().toarray()
            mon.equal(A.shape, (len(valid), len(entries)), 'shape of the design', event='designs')
            with_bias = without = 0
            for row, station in enumerate(valid):
                expected = assigned(entries, station, day) if prefix == 'insitu_land' else []
                got = numpy.nonzero(A[row])[0].tolist()
                mon.check(len(got) == (1 if expected else 0) and all(g in expected for g in got) and all(A[row, g] == 1.0 for g in got),
                          lambda: 'station %d on day %d: bias terms %s, expected %s' % (station, day, got, expected))
                with_bias += bool(expected)
                without += not expected
                mon.count('at a break', any(e[0] == day and e[1] - 1 == station for e in entries))
            mon.count('observations assigned', with_bias)
            mon.count('observations not assigned', without)
            mon.case(('assigned', prefix, 'breaks', len(entries), 'stations', breaks.stations, 'with', with_bias, 'without', without),
                     nontrivial=with_bias > 0 and without > 0)
            # the function itself, with a time array
            b = ObservationsBreakPoints(numpy.array([e[0] for e in entries]), numpy.array([e[1] for e in entries]), numpy.array([e[2] for e in entries]))
            effect = insitu_land_covariate_effect(numpy.array([day, day]), numpy.array(valid, dtype=numpy.int64), b)
            rows = {} if effect is None else {int(r): int(c) for r, c in effect}
            mon.equal(len(rows), 0 if effect is None else len(effect), 'repeated rows in the effect')
            for row, station in enumerate(valid):
                expected = assigned(entries, station, day)
                mon.check(rows.get(row) in expected if expected else row not in rows, lambda: 'effect on station %d on day %d: %s, expected %s' % (station, day, rows.get(row), expected))


def satellite(rng, mon):
    """Biases of satellite sources apply to their own observations only."""
    groups = {'surfaceairmodel_land_global': 'surfaceairmodel_land', 'surfaceairmodel_ocean_global': 'surfaceairmodel_ocean', 'surfaceairmodel_ice_global': 'surfaceairmodel_ice'}
    for _ in range(4):
        group = str(rng.choice(sorted(groups)))
        prefix = groups[group] if rng.randint(4) else str(rng.choice(sorted(groups.values()) + ['insitu_land', 'insitu_ocean']))
        n = 2 if group == 'surfaceairmodel_ice_global' else 1
        structure, valid, table = observed(rng, int(rng.randint(0, 60000)), int(rng.choice([1, 3, 20])), prefix)
        design = BiasElement(group, n).element_design(structure)
        A = design.design_matrix().toarray()
        expected = numpy.zeros((len(valid), n))
        if prefix == groups[group]:
            for row, location in enumerate(valid):
                expected[row, 1 if n == 2 and table[0, location] < 0 else 0] = 1.0
        mon.same(A, expected, 'design of %s for %s' % (group, prefix), event='satellite designs')
        mon.case((group, prefix, len(valid)), nontrivial=len(valid) > 1)
    mon.raises(lambda: structure.covariate_effect('other'), 'unknown bias group')
    if rng.randint(4) == 0:
        element = SpatialBiasElement(group, 1)
        A = element.element_design(structure).design_matrix().toarray()
        mon.equal(A.shape, (len(valid), element.number_of_biases), 'shape of spatial bias design', event='spatial designs')
        mon.close(A.sum(axis=1), numpy.full(len(valid), 1.0 if prefix == groups[group] else 0.0), 'weights of spatial bias', atol=1e-9)


SCENARIOS = [(reading, 120, 4000), (reading_cpp, 60, 1500), (assignment, 500, 8000), (satellite, 80, 1500)]
