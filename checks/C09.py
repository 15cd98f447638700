"""The C++ library reads the same observations by day and by location."""

import os
import struct

import numpy

import cpp
import obsdata
import py2open  # noqa: F401 (replaces the translation's open)
from eustace.analysis import preparelocationpointers
from eustace.analysis.fileio.locationpointers import LocationPointersRawBinaryReader
from eustace.analysis.fileio.observationsource_rawbinary import (LocalCorrelationRangeRawBinaryWriter, LocationLookupRawBinaryWriter, LocationLookupWithID,
                                                                 ObservationRawBinaryWriter, ObservationSourceBinaryFilenameGenerator)
from eustace.analysis.observationsource import Observations

NEEDS = {'extension': True, 'cpp_harness': ['harness.cpp'], 'sanitize': True}
RULE = """Random collections of sources, observables, days and locations are written by the Python writers and the pointer preparation; a
driver linked with the C++ library (compiled with address and undefined-behaviour sanitizers) retrieves days, time series of location
subsets and totals in random orders with repetitions from one manager, and the monitor compares every value, bit for bit, with what was
written. Non-trivial: a location observed on several days but not on all."""
REQUIRED = {'records': 15000, 'day retrievals': 500, 'series': 1500, 'empty series': 100, 'empty days': 50, 'mobile days': 60, 'totals': 200, 'pointer files': 50,
            'repeated requests': 200, 'refusals': 200, 'python series': 300, 'held retrievals': 200,
            'damaged files refused': 40, 'large collections': 1}
ASSUMPTIONS = ['The harness prints doubles with 17 digits, which identify them', 'A location identifier occurs in the location table']

NAMES = ['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice', 'surfaceairmodel_lake', 'insitu_land', 'insitu_ocean']
TABLES = {0: 'satellite', 1: 'satellite', 2: 'satellite', 3: 'lake', 4: 'insitu_land'}
OBSERVABLES = ['Tmin', 'Tmax', 'Tmean']


class Collection(object):
    """Files of some sources, and what is in them."""

    def __init__(self, rng, base, chosen, days):
        self.base, self.days = base, days
        self.ranges, self.records, self.tables, self.order = {}, {}, {}, {}
        fixed = {}
        for name in sorted(set(TABLES.values())):
            n = int(rng.choice([1, 2, 9, 50]))
            fixed[name] = LocationLookupWithID(obsdata.a_uuid(rng), numpy.vstack([rng.uniform(-90, 90, n), rng.uniform(-180, 180, n)]))
            LocationLookupRawBinaryWriter().write(os.path.join(base, 'locationlookup_%s.bin' % name), fixed[name])
        for s, o in chosen:
            build = ObservationSourceBinaryFilenameGenerator(NAMES[s], base)
            self.ranges[s, o] = [float(x) for x in rng.uniform(0.1, 1000.0, rng.randint(0, 4))]
            LocalCorrelationRangeRawBinaryWriter().write(build.filename_local_correlation_ranges(OBSERVABLES[o]), self.ranges[s, o])
            for day in days:
                if s == 5:
                    n = int(rng.choice([0, 1, 30]))
                    table = LocationLookupWithID(obsdata.a_uuid(rng), numpy.vstack([rng.uniform(-90, 90, n), rng.uniform(-180, 180, n)]))
                    LocationLookupRawBinaryWriter().write(build.filename_mobile_locations(OBSERVABLES[o], day), table)
                else:
                    table = fixed[TABLES[s]]
                self.tables[s, o, day] = table.lookuptable
                fields = obsdata.some_fields(rng, day, table.lookuptable.shape[1], len(self.ranges[s, o]), unique=rng.randint(4) > 0)
                ObservationRawBinaryWriter().write_day(build.filename_observations(OBSERVABLES[o], day), table.uuid, fields.observations(Observations), day)
                self.records[s, o, day] = fields.records(day)
            if s != 5:
                self.uuid = table.uuid
                order = [days[i] for i in rng.permutation(len(days))] if rng.randint(3) == 0 else list(days)
                self.order[s, o] = order
                preparelocationpointers.run(self.pointers(s, o), os.path.join(base, 'locationlookup_%s.bin' % TABLES[s]),
                                            build.filename_local_correlation_ranges(OBSERVABLES[o]),
                                            [build.filename_observations(OBSERVABLES[o], day) for day in order])
        self.fixed = fixed

    def pointers(self, s, o):
        return os.path.join(self.base, '%s_%s_locationpointers.bin' % (NAMES[s], OBSERVABLES[o]))

    def observations(self, s, o, day):
        return ObservationSourceBinaryFilenameGenerator(NAMES[s], self.base).filename_observations(OBSERVABLES[o], day)

    def series(self, s, o, location):
        """What was observed at the location, in the order the days were given: (day, values...)."""
        return [(day,) + r[1:] for day in self.order[s, o] for r in self.records[s, o, day] if r[0] == location]


def values(line):
    return struct.pack('<%dd' % len(line), *[float(x) for x in line])


def same_values(mon, got, expected, what):
    """NaN is printed without its payload."""
    g, e = [float(x) for x in got], [float(x) for x in expected]
    ok = len(g) == len(e) and all((a != a and b != b) or struct.pack('<d', a) == struct.pack('<d', b) for a, b in zip(g, e))
    mon.check(ok, lambda: '%s: got %s, expected %s' % (what, got, expected), event='records')


def take_retrieval(mon, lines, ranges, expected, table, what, location=None):
    """Compares one retrieval printed in the lines with expected records; returns the lines after it."""
    words = lines[0].split()
    mon.equal(words[0], 'ranges', what)
    same_values(mon, words[1:], ranges, what + ': ranges')
    mon.equal(lines[1], 'count %d' % len(expected), what)
    lines = lines[2:]
    if location is not None:
        same_values(mon, lines[0].split()[1:], table[:, location], what + ': place')
        lines = lines[1:]
    mon.check(len(lines) >= len(expected), what + ': fewer observations than counted')
    for i, record in enumerate(expected):
        words = lines[i].split()
        mon.equal(words[0], str(record[0]), '%s: identifier of observation %d' % (what, i), event='records')
        if location is None:
            at = words.index('@')
            same_values(mon, words[at + 1:], table[:, record[0]], '%s: place of observation %d' % (what, i))
            words = words[:at]
        same_values(mon, words[1:], record[1:], '%s: observation %d' % (what, i))
    return lines[len(expected):]


def requests(rng, mon, base):
    """Commands on a manager of a collection made in the folder base, and the judge of each answer."""
    first = int(rng.choice([0, 58, 362, 36520, 60000, rng.randint(0, 70000)]))
    days = list(range(first, first + rng.randint(1, 8)))
    pairs = [(s, o) for s in range(6) for o in range(3)]
    chosen = [pairs[i] for i in rng.permutation(len(pairs))[:rng.randint(1, 9)]]
    c = Collection(rng, base, chosen, days)
    commands, judges = ['manager ' + base], [lambda a: mon.equal(a, [base], 'base path')]

    def ask(command, judge):
        commands.append(command)
        judges.append(judge)

    inputs = []
    for s, o in chosen + chosen[:rng.randint(2)]:
        a = days[rng.randint(len(days))]
        b = days[rng.randint(len(days))] if rng.randint(3) else a - 1    # possibly no days
        inputs.append((s, o, a, b))
        ask('specify %d %d %d %d' % inputs[-1], lambda a, e='%d %d %d %d' % inputs[-1]: mon.equal(a, [e], 'input specified'))

    def judge_day(lines, s, o, chosen_days):
        for day in chosen_days:
            expected = c.records[s, o, day]
            lines = take_retrieval(mon, lines, c.ranges[s, o], expected, c.tables[s, o, day], '%s %s on day %d' % (NAMES[s], OBSERVABLES[o], day))
            mon.count('day retrievals')
            if not expected:
                mon.count('empty days')
            if s == 5:
                mon.count('mobile days')
        mon.equal(lines, [], 'lines after the observations')

    def judge_series(lines, s, o, ids):
        mon.equal(lines[0], 'series %d' % len(ids), 'number of series')
        lines = lines[1:]
        for location in ids:
            expected = c.series(s, o, location)
            table = c.fixed[TABLES[s]].lookuptable
            lines = take_retrieval(mon, lines, c.ranges[s, o], expected, table, 'series of %s %s at %d' % (NAMES[s], OBSERVABLES[o], location), location)
            mon.count('series')
            if not expected:
                mon.count('empty series')
            mon.case(('series', NAMES[s], OBSERVABLES[o], 'days', len(days), 'observed', len(expected), 'ranges', len(c.ranges[s, o])),
                     nontrivial=1 < len(expected) < len(days))
        mon.equal(lines, [], 'lines after the series')

    def judge_totals(lines, s, o, day):
        count = lambda d: len(c.records[s, o, d])
        expected = ['locations %d' % (0 if s == 5 else c.fixed[TABLES[s]].lookuptable.shape[1])]
        if s == 5:
            expected.append('mobile %d' % c.tables[s, o, day].shape[1])
        expected.append('daily %d' % count(day))
        expected.append('total %d' % sum(count(d) for i in inputs if i[:2] == (s, o) for d in range(i[2], i[3] + 1)))
        mon.equal(lines, expected, 'totals of %s %s' % (NAMES[s], OBSERVABLES[o]), event='totals')

    held = []
    for _ in range(rng.randint(0, 10)):      # retrievals that stay in use while the others are made
        s, o = chosen[rng.randint(len(chosen))]
        if s != 5 and rng.randint(2):
            ids = [int(i) for i in rng.randint(0, c.fixed[TABLES[s]].lookuptable.shape[1], rng.randint(0, 8))]
            ask('holdseries %d %d %s' % (s, o, ' '.join(map(str, ids))), lambda a: mon.equal(a, [], 'answer'))
            held.append(lambda a, s=s, o=o, ids=ids: judge_series(a, s, o, ids))
        else:
            day = days[rng.randint(len(days))]
            ask('hold %d %d %d' % (s, o, day), lambda a: mon.equal(a, [], 'answer'))
            held.append(lambda a, s=s, o=o, day=day: judge_day(a, s, o, [day]))
    fixed = len(commands)

    asked = set()
    for _ in range(rng.randint(6, 16)):
        s, o = chosen[rng.randint(len(chosen))]
        kind = rng.randint(4)
        if kind == 0:
            day = days[rng.randint(len(days))]
            ask('day %d %d %d' % (s, o, day), lambda a, s=s, o=o, day=day: judge_day(a, s, o, [day]))
        elif kind == 1:
            several = [days[i] for i in rng.randint(0, len(days), rng.randint(1, 6))]
            ask('days %d %d %s' % (s, o, ' '.join(map(str, several))), lambda a, s=s, o=o, d=several: judge_day(a, s, o, d))
        elif kind == 2 and s != 5:
            n = c.fixed[TABLES[s]].lookuptable.shape[1]
            ids = [int(i) for i in rng.randint(0, n, rng.randint(0, 8))]
            if rng.randint(4) == 0:
                ids = list(range(n))
            ask('series %d %d %s' % (s, o, ' '.join(map(str, ids))), lambda a, s=s, o=o, ids=ids: judge_series(a, s, o, ids))
        else:
            day = days[rng.randint(len(days))]
            ask('totals %d %d %d' % (s, o, day), lambda a, s=s, o=o, day=day: judge_totals(a, s, o, day))
        if commands[-1] in asked or commands.count(commands[-1]) > 1:
            mon.count('repeated requests')
        asked.add(commands[-1])
    again = rng.randint(1, len(commands))
    for i in rng.randint(fixed, len(commands), 3).tolist():
        ask(commands[i], judges[i])
        mon.count('repeated requests')
    # requests for what is not there are refused, and do not disturb what follows
    s, o = chosen[0]
    refused = lambda what: (lambda a: mon.check(cpp.refused(a), lambda: '%s: %s' % (what, a[:3]), event='refusals'))
    ask('day %d %d %d' % (s, o, days[-1] + 1), refused('day without file'))
    absent = [p for p in pairs if p not in chosen][0]
    ask('day %d %d %d' % (absent + (days[0],)), refused('source without files'))
    if s != 5:
        n = c.fixed[TABLES[s]].lookuptable.shape[1]
        ask('series %d %d %d' % (s, o, n + rng.randint(3)), refused('location not in the table'))
    ask(commands[fixed], judges[fixed])
    for which in rng.permutation(len(held)):
        ask('held %d' % which, held[which])
        mon.count('held retrievals')
    return commands, judges


def retrieval(rng, mon):
    """One manager after another in one process, each with its own files of the same names."""
    with mon.scratch() as path:
        commands, judges = [], []
        for number in range(1 + int(rng.randint(3) == 0)):
            more = requests(rng, mon, os.path.join(path, 'base%d' % number))
            commands += more[0]
            judges += more[1]
        for answer, judge in zip(cpp.run(commands), judges):
            judge(answer)


def pointer_files(rng, mon):
    with mon.scratch() as path:
        base = os.path.join(path, 'base')
        first = int(rng.randint(0, 70000))
        days = sorted(set(first + rng.randint(0, 400, rng.randint(1, 6))))
        days = [int(d) for d in days]
        s, o = int(rng.randint(5)), int(rng.randint(3))
        c = Collection(rng, base, [(s, o)], days)
        n = c.fixed[TABLES[s]].lookuptable.shape[1]
        size = 8 * (3 + len(c.ranges[s, o]))
        body, identifier = obsdata.parse(obsdata.content(c.pointers(s, o)), 'ptr')
        mon.equal(identifier, c.uuid, 'identifier in pointer file', event='pointer files')
        mon.equal(struct.unpack_from('<Q', body)[0], n, 'locations in pointer file')
        reader = LocationPointersRawBinaryReader()
        positions = {}
        for day in days:
            for i, r in enumerate(c.records[s, o, day]):
                positions.setdefault(r[0], {}).setdefault(day, []).append(48 + 8 + i * size)
        for location in range(n):
            expected = [(day, p) for day in c.order[s, o] for p in positions.get(location, {}).get(day, [])]
            got = [(int(d), int(p)) for d, p in reader.read_pointer_records(c.pointers(s, o), c.uuid, location)]
            mon.equal(got, expected, 'pointers of location %d' % location, event='python series')
            for day, p in got:
                data = obsdata.content(c.observations(s, o, day))
                mon.equal(struct.unpack_from('<Q', data, p - 8)[0], location, 'location of the record pointed to', event='records')
        mon.raises(lambda: reader.read_pointer_records(c.pointers(s, o), c.uuid, n + int(rng.randint(3))), 'pointers of a location not in the table')
        mon.raises(lambda: reader.read_pointer_records(c.pointers(s, o), c.uuid, -1), 'pointers of location -1')
        mon.raises(lambda: reader.read_pointer_records(c.pointers(s, o), obsdata.a_uuid(rng), 0), 'pointers of another table')
        mon.raises(lambda: reader.read_pointer_records(os.path.join(base, 'locationlookup_%s.bin' % TABLES[s]), c.uuid, 0), 'pointers from a location file')
        other = os.path.join(base, 'other.bin')
        LocationLookupRawBinaryWriter().write(other, LocationLookupWithID(obsdata.a_uuid(rng), c.fixed[TABLES[s]].lookuptable))
        build = ObservationSourceBinaryFilenameGenerator(NAMES[s], base)
        run = lambda table, names: preparelocationpointers.run(os.path.join(base, 'p.bin'), table, build.filename_local_correlation_ranges(OBSERVABLES[o]), names)
        table = os.path.join(base, 'locationlookup_%s.bin' % TABLES[s])
        mon.raises(lambda: run(other, [c.observations(s, o, days[0])]), 'pointers to observations of another table')
        mon.raises(lambda: run(table, [c.observations(s, o, days[0])[:-4] + '.dat']), 'observations named .dat')
        mon.equal(int(preparelocationpointers.extractdaynumber(['x_%s.bin', 'x%s.bin', '%s.bin', 'a_b.%s.bin'][rng.randint(4)] % obsdata.a_date(days[0]))), days[0], 'day number of file name')
        ids = list(range(n))
        answer, = cpp.run(['pointers %s %s' % (c.pointers(s, o), ' '.join(map(str, ids)))])
        mon.equal(answer, [' '.join([str(i)] + ['%d:%d' % (day, p) for day in c.order[s, o] for p in positions.get(i, {}).get(day, [])]) for i in ids],
                  'pointers read by C++')
        beyond = [n, n + 1, n + int(rng.randint(2, 40)), 2 ** 40]
        for i, answer in zip(beyond, cpp.run(['pointers %s 0 %d' % (c.pointers(s, o), i) for i in beyond])):
            mon.check(cpp.refused(answer), lambda: 'pointers of location %d of %d read by C++: %s' % (i, n, answer[:3]), event='refusals')
        mon.case(('pointers', n, len(days), len(positions)), nontrivial=len(positions) > 1)


def single_files(rng, mon):
    """The readers of each kind of file."""
    with mon.scratch() as path:
        base = os.path.join(path, 'base')
        day = int(rng.randint(0, 70000))
        s, o = int(rng.randint(5)), int(rng.randint(3))
        c = Collection(rng, base, [(s, o)], [day])
        table = c.fixed[TABLES[s]].lookuptable
        ranges = len(c.ranges[s, o])
        build = ObservationSourceBinaryFilenameGenerator(NAMES[s], base)
        obs, loc, cor = c.observations(s, o, day), os.path.join(base, 'locationlookup_%s.bin' % TABLES[s]), build.filename_local_correlation_ranges(OBSERVABLES[o])
        kinds = [('observations %%s %d' % ranges, obs), ('locations %s', loc), ('ranges %s', cor), ('pointers %s 0', c.pointers(s, o))]
        good = cpp.run([k % p for k, p in kinds])
        records = c.records[s, o, day]
        mon.equal(good[0][:2], [c.uuid.hex, '%d %d %d' % (len(records), ranges, len(records) * 8 * (3 + ranges))], 'observation file read by C++')
        mon.equal(len(good[0]), 2 + len(records), 'number of observations read by C++')
        for line, r in zip(good[0][2:], records):
            mon.equal(line.split()[0], str(r[0]), 'location read by C++')
            same_values(mon, line.split()[1:], r[1:], 'observation read by C++')
        mon.equal(good[1][0], c.uuid.hex, 'identifier of locations read by C++')
        mon.equal(len(good[1]) - 1, table.shape[1], 'number of locations read by C++')
        for i, line in enumerate(good[1][1:]):
            same_values(mon, line.split()[1:], table[:, i], 'location read by C++')
        same_values(mon, good[2][0].split()[1:], c.ranges[s, o], 'ranges read by C++')
        wrong = []
        for k, p in kinds:
            wrong += [k % q for _, q in kinds if q != p] + [k % os.path.join(base, 'absent.bin')]
            data = obsdata.content(p)
            if len(data) > 48 and 'pointers' not in k:
                cut = os.path.join(path, 'cut-%s.bin' % k[:3])
                header = 32 if p == cor else 48
                record = {obs: 8 * (3 + ranges), loc: 16, cor: 8}[p]
                obsdata.write_bytes(cut, data[:header + max(1, (len(data) - header) // record * record - rng.randint(1, record))])
                wrong.append(k % cut)
            other = bytearray(data)                  # another kind or version of file
            place = int(rng.randint(16)) if rng.randint(2) else 15
            other[place] ^= 1 << rng.randint(7) if rng.randint(2) else other[place]
            obsdata.write_bytes(os.path.join(path, 'kind-%s.bin' % k[:3]), bytes(other))
            wrong.append(k % os.path.join(path, 'kind-%s.bin' % k[:3]))
        for command, answer in zip(wrong, cpp.run(wrong)):
            mon.check(cpp.refused(answer), lambda: '%s accepted: %s' % (command, answer[:3]), event='refusals')
        mon.case(('files', table.shape[1], len(records), ranges), nontrivial=len(records) > 1)


def damaged(rng, mon):
    """Series and days whose file of observations ends within a record or before it are refused."""
    with mon.scratch() as path:
        base = os.path.join(path, 'base')
        first = int(rng.randint(0, 70000))
        days = list(range(first, first + rng.randint(1, 5)))
        s, o = int(rng.randint(5)), int(rng.randint(3))
        c = Collection(rng, base, [(s, o)], days)
        filled = [day for day in days if c.records[s, o, day]]
        if not filled:
            return
        day = filled[rng.randint(len(filled))]
        size = 8 * (3 + len(c.ranges[s, o]))
        data = obsdata.content(c.observations(s, o, day))
        which = int(rng.randint(len(c.records[s, o, day])))
        keep = int(rng.choice([0, 1, 8, size // 2, size - 1, size - 8, size - 9]))
        obsdata.write_bytes(c.observations(s, o, day), data[:48 + which * size + keep])
        touched = sorted(set(r[0] for r in c.records[s, o, day][which:]))
        fine = [i for i in range(c.fixed[TABLES[s]].lookuptable.shape[1]) if i not in touched][:6]
        commands = ['manager ' + base, 'specify %d %d %d %d' % (s, o, days[0], days[-1])]
        commands += ['series %d %d %d' % (s, o, i) for i in fine + touched[:6]]
        if keep:
            commands.append('day %d %d %d' % (s, o, day))
        answers = cpp.run(commands)
        for i, lines in zip(fine, answers[2:]):
            expected = c.series(s, o, i)
            what = 'series at %d beside damaged records' % i
            mon.equal(lines[0], 'series 1', what)
            take_retrieval(mon, lines[1:], c.ranges[s, o], expected, c.fixed[TABLES[s]].lookuptable, what, i)
        for command, answer in list(zip(commands, answers))[2 + len(fine):]:
            mon.check(cpp.refused(answer), lambda: '%s with a file ending %d bytes into a record of %d: accepted: %s' % (command, keep, size, answer[:3]), event='damaged files refused')
        mon.case(('damaged', which, keep, size, len(touched)))


def large(rng, mon):
    """More locations and observations than sixteen bits count."""
    with mon.scratch() as path:
        base = os.path.join(path, 'base')
        n, day, ranges = int(rng.randint(66000, 72000)), int(rng.randint(0, 70000)), [100.0]
        s, o = int(rng.randint(5)), int(rng.randint(3))
        table = LocationLookupWithID(obsdata.a_uuid(rng), numpy.vstack([rng.uniform(-90, 90, n), rng.uniform(-180, 180, n)]))
        name = os.path.join(base, 'locationlookup_%s.bin' % TABLES[s])
        LocationLookupRawBinaryWriter().write(name, table)
        build = ObservationSourceBinaryFilenameGenerator(NAMES[s], base)
        LocalCorrelationRangeRawBinaryWriter().write(build.filename_local_correlation_ranges(OBSERVABLES[o]), ranges)
        records = {}
        for d in (day, day + 1):
            fields = obsdata.Fields(numpy.zeros(n, bool), numpy.full(n, float(d)), rng.permutation(n).astype(numpy.uint64),
                                    rng.normal(280.0, 20.0, n), rng.uniform(0.1, 1.0, n), [rng.uniform(0.1, 1.0, n)])
            ObservationRawBinaryWriter().write_day(build.filename_observations(OBSERVABLES[o], d), table.uuid, fields.observations(Observations), d)
            records[d] = fields.records(d)
        preparelocationpointers.run(os.path.join(base, '%s_%s_locationpointers.bin' % (NAMES[s], OBSERVABLES[o])), name,
                                    build.filename_local_correlation_ranges(OBSERVABLES[o]),
                                    [build.filename_observations(OBSERVABLES[o], d) for d in (day, day + 1)])
        ids = [0, 1, 32767, 32768, 65535, 65536, n - 1] + [int(i) for i in rng.randint(0, n, 30)]
        answers = cpp.run(['manager ' + base, 'specify %d %d %d %d' % (s, o, day, day + 1), 'series %d %d %s' % (s, o, ' '.join(map(str, ids))),
                           'totals %d %d %d' % (s, o, day), 'day %d %d %d' % (s, o, day)])
        where = [{r[0]: r for r in records[d]} for d in (day, day + 1)]
        lines = answers[2][1:]
        for i in ids:
            lines = take_retrieval(mon, lines, ranges, [(d,) + w[i][1:] for d, w in zip((day, day + 1), where)], table.lookuptable, 'series at %d of %d' % (i, n), i)
        mon.equal(answers[3], ['locations %d' % n, 'daily %d' % n, 'total %d' % (2 * n)], 'totals of many', event='totals')
        take_retrieval(mon, answers[4], ranges, records[day], table.lookuptable, 'day of %d observations' % n)
        mon.count('large collections')
        mon.case(('large', n))


SCENARIOS = [(large, 2, 24), (damaged, 40, 800), (retrieval, 200, 6000), (pointer_files, 120, 3000), (single_files, 60, 1500)]
