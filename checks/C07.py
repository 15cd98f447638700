"""The compiled code stays inside its buffers."""

import ctypes
import importlib.util
import os
import struct
import sys

import netCDF4
import numpy
import scipy.sparse

import cpp
import obsdata
import py2open  # noqa: F401 (replaces the translation's open)
from eustace.analysis.advanced_standard.linalg import qinv
from eustace.analysis.diagnosticgrid_aggregate import diagnosticgrid_aggregate
from eustace.analysis.mesh.locator_search_planes import locator_search_planes_exhaustive
from eustace.satgrid import aggregate_grid
from eustace.satgrid_iris.gridbin.operation.count import GridBinOperationCount
from eustace.satgrid_iris.gridbin.operation.sumcountmaxmin import GridBinOperationSumCountMaxMin
from eustace.satgrid_iris.gridbin.operation.sumsq import GridBinOperationSumConstSq, GridBinOperationSumSq
from eustace.satgrid_iris.gridbin.operation.sumsqdev import GridBinOperationSumSqDev
from monitor import Monitor, Violation

NEEDS = {'extension': True, 'sanitize_extension': True, 'cpp_harness': ['harness.cpp'], 'sanitize': True}
RULE = """The C and Cython modules and the C++ library are compiled with AddressSanitizer and UndefinedBehaviorSanitizer (the C++ library with
checked containers and leak detection as well). Every native function is called on arrays allocated to the byte and on views surrounded by
guard values, from empty up, with indices up to both ends; the monitor compares results and guards and measures the bytes still allocated
after repeated calls. Gridding, diagnostics, mesh and solver workloads of the other checks are run again in this build. All kinds of input
files are cut, extended, exchanged and corrupted and given to the C++ readers and the input manager. Non-trivial: at least two elements, or
a damaged file."""
REQUIRED = {'native calls': 2800, 'guarded arrays': 7000, 'empty calls': 280, 'leak measurements': 150, 'reruns': 80, 'rerun observations': 100000,
            'damaged files': 2400, 'refused files': 2500, 'damaged files read': 600, 'damaged collections': 150, 'collection requests': 2500,
            'netcdf files': 400, 'strided arrays': 2500, 'inverses': 100, 'long records': 60, 'files closed': 700}
ASSUMPTIONS = ['Arrays have the types and lengths, and indices the range, that the functions document',
               'NetCDF files are damaged by cutting and by writing other contents, not by changing bytes inside: that would exercise libhdf5']

aggregate = sys.modules[aggregate_grid.aggregate.__name__]
allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
allocated.restype = ctypes.c_size_t

GUARD = {'f': numpy.nan, 'i': 0x40000000}


class Arrays(object):
    """Arrays for one call, allocated to the byte or lying between guard values."""

    def __init__(self, rng, mon, strided=False):
        self.rng, self.mon, self.strided = rng, mon, strided
        self.held = []

    def __call__(self, values, dtype):
        values = numpy.asarray(values, dtype=dtype)
        kind = self.rng.randint(3 if self.strided else 2)
        if kind == 0 or values.size == 0:
            return numpy.array(values, dtype=dtype)
        rows = values.shape[0]
        margin, step = int(self.rng.randint(1, 5)), 1 if kind == 1 else int(self.rng.randint(2, 4))
        whole = numpy.full((margin * 2 + rows * step,) + values.shape[1:], GUARD[values.dtype.kind], dtype=dtype)
        inside = slice(margin, margin + rows * step, step)
        view = whole[inside]
        if kind == 2 and self.rng.randint(2):
            view = view[::-1]
        view[...] = values
        outside = numpy.ones(len(whole), bool)
        outside[inside] = False
        self.held.append((whole, outside))
        self.mon.count('guarded arrays')
        if step > 1:
            self.mon.count('strided arrays')
        return view

    def judge(self, what):
        for whole, outside in self.held:
            guards = whole[outside]
            intact = numpy.isnan(guards) if whole.dtype.kind == 'f' else guards == GUARD['i']
            self.mon.check(intact.all(), what + ': values beside an array were changed')


def sizes(rng):
    return int(rng.choice([0, 1, 2, 3, 7, 8, 31, 128, 1000])), int(rng.choice([1, 2, 3, 8, 33, 500]))


def some_indices(rng, n, bins):
    indices = rng.randint(0, bins, n)
    if n:
        indices[rng.randint(n)] = bins - 1
        indices[rng.randint(n)] = 0
        if rng.randint(4) == 0:
            indices[:] = rng.choice([0, bins - 1])
    return indices


def halves(rng, n):
    """Values whose squares and sums are exact in single precision."""
    return rng.randint(-64, 65, n) * 0.5


def called(mon, name, n, bins):
    mon.count('native calls')
    if n == 0:
        mon.count('empty calls')
    mon.case((name, 'values', n, 'bins', bins), nontrivial=n > 1)


def no_leak(rng, mon, what, action, arguments=()):
    """Nothing stays allocated and no argument stays referenced, per call."""
    for _ in range(3):
        action()
    references = [sys.getrefcount(a) for a in arguments]
    calls, growth = 20, []
    for _ in range(3):
        before = allocated()
        for _ in range(calls):
            action()
        growth.append(allocated() - before)
    mon.check(min(growth) < 8 * calls, lambda: '%s: %s bytes more allocated after %d calls' % (what, growth, calls), event='leak measurements')
    after = [sys.getrefcount(a) for a in arguments]
    mon.check(all(abs(a - b) < calls for a, b in zip(references, after)), lambda: '%s: reference counts of arguments %s before, %s after' % (what, references, after))


def summed(start, indices, values):
    result = numpy.array(start, dtype=float)
    numpy.add.at(result, indices, values)
    return result


def accumulation(rng, mon):
    """The functions of aggregate.c."""
    f, i = numpy.float32, numpy.int32
    for _ in range(8):
        n, bins = sizes(rng)
        indices, values, start = some_indices(rng, n, bins), halves(rng, n), halves(rng, bins)
        for name in ('sum', 'constant', 'count', 'dev', 'statistics'):
            a = Arrays(rng, mon)
            index, out = a(indices, i), a(start, f)
            if name == 'sum':
                value = a(values, f)
                aggregate.aggregate_sum(out, value, index)
                mon.same(out.astype(float), summed(start, indices, values), 'aggregate_sum')
                arguments = (out, value, index)
                repeat = lambda: aggregate.aggregate_sum(out, value, index)
            elif name == 'constant':
                k = float(rng.randint(-10, 10)) / 2
                aggregate.aggregate_constant(out, k, index)
                mon.same(out.astype(float), summed(start, indices, k), 'aggregate_constant')
                arguments = (out, index)
                repeat = lambda: aggregate.aggregate_constant(out, k, index)
            elif name == 'count':
                counts = a(rng.randint(0, 9, bins), i)
                before = counts.copy()
                aggregate.aggregate_count(counts, index)
                mon.same(counts, before + numpy.bincount(indices, minlength=bins), 'aggregate_count')
                arguments = (counts, index)
                repeat = lambda: aggregate.aggregate_count(counts, index)
            elif name == 'dev':
                mean, value = a(halves(rng, bins), f), a(values, f)
                aggregate.aggregate_sum_dev_sq(out, mean, value, index)
                mon.same(out.astype(float), summed(start, indices, (values - mean.astype(float)[indices]) ** 2), 'aggregate_sum_dev_sq')
                arguments = (out, mean, value, index)
                repeat = lambda: aggregate.aggregate_sum_dev_sq(out, mean, value, index)
            else:
                counts, low, high, value = a(numpy.zeros(bins), i), a(numpy.full(bins, 1e30), f), a(numpy.full(bins, -1e30), f), a(values, f)
                aggregate.aggregate_count_sum_min_max(counts, out, low, high, value, index)
                mon.same(counts, numpy.bincount(indices, minlength=bins), 'counts')
                mon.same(out.astype(float), summed(start, indices, values), 'sums')
                for b in numpy.unique(indices):
                    mon.equal((float(low[b]), float(high[b])), (values[indices == b].min(), values[indices == b].max()), 'range')
                arguments = (counts, out, low, high, value, index)
                repeat = lambda: aggregate.aggregate_count_sum_min_max(counts, out, low, high, value, index)
            a.judge('aggregate ' + name)
            called(mon, 'aggregate ' + name, n, bins)
            if n < 100 and rng.randint(12) == 0:
                no_leak(rng, mon, 'aggregate ' + name, repeat, arguments)
                a.judge('aggregate ' + name)
    for bad in ((), (1, 2), ([1.0], [0], [0])):
        for function in (aggregate.aggregate_sum, aggregate.aggregate_count, aggregate.aggregate_constant, aggregate.aggregate_sum_dev_sq, aggregate.aggregate_count_sum_min_max):
            mon.raises(lambda: function(*bad), 'arguments that are not arrays')


def binning(rng, mon):
    """The operations of gridbin."""
    f, i = numpy.float32, numpy.int32
    for _ in range(8):
        n, bins = sizes(rng)
        inputs = n + int(rng.randint(0, 5)) if rng.randint(3) else max(1, n)
        to, source = some_indices(rng, n, bins), some_indices(rng, n, max(1, inputs))
        values, start = halves(rng, max(1, inputs)), halves(rng, bins)
        for name in ('count', 'sumcountmaxmin', 'sumsq', 'constsq', 'sumsqdev'):
            a = Arrays(rng, mon, strided=True)
            mapfrom, mapto, value, out = a(source, i), a(to, i), a(values, f), a(start, f)
            if name == 'count':
                counts = a(numpy.zeros(bins), i)
                arguments = (mapfrom, mapto, counts, value)
                operation = GridBinOperationCount()
                operation.operate(*arguments)
                mon.same(counts, numpy.bincount(to, minlength=bins), 'count')
            elif name == 'sumcountmaxmin':
                counts, high, low = a(numpy.zeros(bins), i), a(numpy.full(bins, -1e30), f), a(numpy.full(bins, 1e30), f)
                arguments = (mapfrom, mapto, out, counts, high, low, value)
                operation = GridBinOperationSumCountMaxMin()
                operation.operate(*arguments)
                mon.same(counts, numpy.bincount(to, minlength=bins), 'count')
                mon.same(out.astype(float), summed(start, to, values[source]), 'total')
                for b in numpy.unique(to):
                    mon.equal((float(low[b]), float(high[b])), (values[source][to == b].min(), values[source][to == b].max()), 'range')
            elif name == 'sumsq':
                arguments = (mapfrom, mapto, out, value)
                operation = GridBinOperationSumSq()
                operation.operate(*arguments)
                mon.same(out.astype(float), summed(start, to, values[source] ** 2), 'sum of squares')
            elif name == 'constsq':
                single = a(values[:1], f)
                arguments = (mapfrom, mapto, out, single)
                operation = GridBinOperationSumConstSq()
                operation.operate(*arguments)
                mon.same(out.astype(float), summed(start, to, values[0] ** 2), 'sum of the squared constant')
            else:
                mean = a(halves(rng, bins), f)
                arguments = (mapfrom, mapto, out, mean, value)
                operation = GridBinOperationSumSqDev()
                operation.operate(*arguments)
                mon.same(out.astype(float), summed(start, to, (values[source] - mean.astype(float)[to]) ** 2), 'sum of squared deviations')
            a.judge('operation ' + name)
            called(mon, 'operation ' + name, n, bins)
            if n < 100 and rng.randint(12) == 0:
                no_leak(rng, mon, 'operation ' + name, lambda: operation.operate(*arguments), arguments)
                a.judge('operation ' + name)
            wrong = list(arguments)
            wrong[rng.randint(2)] = numpy.zeros(n, numpy.float64)
            mon.raises(lambda: operation.operate(*wrong), 'indices of another type', (ValueError, TypeError))


def diagnostics(rng, mon):
    d = numpy.float64
    for _ in range(10):
        n, bins = sizes(rng)
        indices, obs, unc = some_indices(rng, n, bins), halves(rng, n), rng.choice([0.5, 1.0, 2.0, 4.0], n)
        a = Arrays(rng, mon, strided=True)
        big = numpy.full(bins, 1e30)
        arguments = [a(indices, numpy.int32), a(obs, d), a(unc, d), a(numpy.zeros(bins), numpy.int64), a(big, d), a(-big, d), a(big, d), a(-big, d),
                     a(numpy.zeros(bins), d), a(numpy.zeros(bins), d)]
        diagnosticgrid_aggregate(*arguments)
        count, lo, hi, ulo, uhi, weighted, precision = arguments[3:]
        mon.same(count, numpy.bincount(indices, minlength=bins), 'count')
        mon.same(weighted, summed(numpy.zeros(bins), indices, obs / unc), 'weighted sum')
        mon.same(precision, summed(numpy.zeros(bins), indices, 1.0 / unc), 'precision')
        for b in numpy.unique(indices):
            use = indices == b
            mon.equal((lo[b], hi[b], ulo[b], uhi[b]), (obs[use].min(), obs[use].max(), unc[use].min(), unc[use].max()), 'ranges')
        a.judge('diagnostics grid')
        called(mon, 'diagnostics', n, bins)
        if n < 100 and rng.randint(4) == 0:
            no_leak(rng, mon, 'diagnostics grid', lambda: diagnosticgrid_aggregate(*arguments), arguments)


def searching(rng, mon):
    d = numpy.float64
    for _ in range(6):
        n, m = int(rng.choice([0, 1, 2, 9, 40])), int(rng.choice([0, 1, 2, 20, 80]))
        a = Arrays(rng, mon, strided=True)
        normals = [rng.normal(size=(m, 3)) for _ in range(3)]
        points = rng.normal(size=(n, 3))
        indices = a(numpy.full(n, -1), numpy.int64)
        arguments = [indices] + [a(x, d) for x in normals] + [a(points, d)]
        locator_search_planes_exhaustive(*arguments)
        inside = numpy.all([points.dot(x.T) <= 0.0 for x in normals], axis=0) if m else numpy.zeros((n, 1), bool)
        mon.same(indices, numpy.where(inside.any(axis=1), inside.argmax(axis=1), -1), 'triangles found')
        a.judge('mesh search')
        called(mon, 'search', n, m)
        if rng.randint(6) == 0:
            no_leak(rng, mon, 'mesh search', lambda: locator_search_planes_exhaustive(*arguments), arguments)


def inverting(rng, mon):
    n = int(rng.choice([1, 2, 3, 5, 12, 40]))
    kind = ['diagonal', 'chain', 'random', 'dense', 'arrow'][rng.randint(5)]
    if kind == 'diagonal':
        matrix = scipy.sparse.diags(rng.uniform(0.5, 3.0, n))
    elif kind == 'chain':
        matrix = scipy.sparse.diags([numpy.full(max(0, n - 1), -1.0), numpy.full(n, 3.0), numpy.full(max(0, n - 1), -1.0)], [-1, 0, 1], shape=(n, n))
    elif kind == 'arrow':
        dense = numpy.eye(n) * (n + 2.0)
        dense[0, :] = dense[:, 0] = 1.0
        dense[0, 0] = n + 2.0
        order = rng.permutation(n)
        matrix = scipy.sparse.csc_matrix(dense[order][:, order])
    else:
        dense = rng.normal(size=(n, n)) * ((rng.uniform(size=(n, n)) < 0.2) if kind == 'random' else 1.0)
        matrix = scipy.sparse.csc_matrix(dense.dot(dense.T) + numpy.eye(n))
    matrix = scipy.sparse.csc_matrix(matrix)
    got = qinv.Q_inv(matrix)
    mon.equal(got.shape, (n, n), 'shape of the partial inverse', event='inverses')
    mon.close(got.diagonal(), numpy.diag(numpy.linalg.inv(matrix.toarray())), 'variances', rtol=1e-6)
    called(mon, 'inverse ' + kind, n, matrix.nnz)
    if rng.randint(6) == 0:
        no_leak(rng, mon, 'partial inverse', lambda: qinv.Q_inv(matrix))


SIBLINGS = {}


def sibling(name):
    if name not in SIBLINGS:
        spec = importlib.util.spec_from_file_location('workload_' + name, os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py'))
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        SIBLINGS[name] = module
    return SIBLINGS[name]


WORKLOADS = [('C05', 'accumulators'), ('C05', 'aggregator'), ('C05', 'program'), ('C05', 'outside'), ('C05', 'poles'), ('C06', 'operations'), ('C06', 'pipeline'),
             ('C06', 'refusals'), ('C06', 'filters'), ('C06', 'poles'), ('C11', 'averaging'), ('C11', 'gridding'), ('C12', 'locating'), ('C12', 'designing'),
             ('C13', 'inverting'), ('C13', 'systems')]
for name in sorted(set(w[0] for w in WORKLOADS)):
    sibling(name)


def workloads(rng, mon):
    """What another check does, in this build. Its answers are judged there: here only what the sanitizers see counts."""
    name, scenario = WORKLOADS[mon.index % len(WORKLOADS)]
    inner = Monitor((), mon.scratch_root)
    inner.index, inner.tier = mon.index // len(WORKLOADS), 'quick'
    try:
        getattr(sibling(name), scenario)(rng, inner)
    except Violation as problem:
        if problem.key == 'cpp-crash':
            raise
    except Exception:
        mon.count('reruns with errors')
    mon.count('reruns')
    mon.count('rerun observations', sum(inner.events.values()))
    mon.case((name, scenario, sorted(inner.events.items())), nontrivial=sum(inner.events.values()) > 1)


# Files

def damaged(rng, data, others=()):
    """(what was done, bytes)."""
    kind = rng.randint(9)
    if kind == 0:
        return 'cut', data[:rng.randint(0, len(data) + 1)]
    if kind == 1:
        return 'cut in the header', data[:rng.randint(0, min(len(data), 64) + 1)]
    if kind == 2:
        return 'extended', data + rng.bytes(rng.randint(1, 70))
    if kind in (3, 4) and data:
        changed = bytearray(data)
        for _ in range(rng.randint(1, 5)):
            changed[rng.randint(len(changed))] = rng.choice([0, 1, 127, 128, 255, rng.randint(256)])
        return 'changed', bytes(changed)
    if kind == 5 and len(data) >= 56:
        changed = bytearray(data)
        at = 8 * rng.randint(len(data) // 8)
        if len(changed) >= 64 and rng.randint(2):
            at = 48 + 8 * rng.randint((len(data) - 48) // 8)
        changed[at:at + 8] = struct.pack('<Q', int(rng.choice([0, 1, 2 ** 31, 2 ** 32 + 1, 2 ** 61, 2 ** 62, len(data), len(data) - 1, 2 ** 60 + 1])))
        return 'changed number', bytes(changed[:len(data)])
    if kind == 6:
        return 'empty', b''
    if kind == 7:
        return 'noise', rng.bytes(rng.randint(0, 200))
    if others:
        return 'other file', others[rng.randint(len(others))]
    return 'cut', data[:rng.randint(0, len(data) + 1)]


MAGIC = {'observations': b'EUSTACEOBSN00001', 'locations': b'EUSTACELOCN00001', 'ranges': b'EUSTACECORN00001', 'pointers': b'EUSTACELOCP00001'}


def same_number(got, data):
    expected = struct.unpack('<d', data)[0]
    value = float(got)
    return (value != value and expected != expected) or value == expected


def judge_answer(mon, kind, ranges, data, answer, what):
    """A file is refused, or read as what is in it."""
    header, size = (32, 8) if kind == 'ranges' else (48, 16 if kind == 'locations' else 8 * (3 + ranges))
    body = data[header:]
    fits = data[:16] == MAGIC[kind] and len(data) >= header and len(body) % size == 0
    if cpp.refused(answer):
        mon.count('refused files')
        mon.check(not fits, lambda: '%s: a good file of %d bytes is refused: %s' % (what, len(data), answer[:2]))
        return
    mon.count('damaged files read')
    mon.check(fits, lambda: '%s: %d bytes beginning %r were accepted' % (what, len(data), data[:16]))
    numbers = len(body) // size
    if kind == 'ranges':
        words = answer[0].split()[1:]
        mon.check(len(words) == numbers and all(same_number(w, body[8 * j:8 * j + 8]) for j, w in enumerate(words)), what + ': ranges')
        return
    rows = answer[2:] if kind == 'observations' else answer[1:]
    mon.equal(answer[0], data[32:48].hex(), what + ': identifier')
    mon.equal(len(rows), numbers, what + ': number of records')
    for r, row in enumerate(rows):
        words = row.split()
        mon.check(all(same_number(w, body[r * size + 8 * j:r * size + 8 * j + 8]) for j, w in enumerate(words[1:], 1 if kind == 'observations' else 0)),
                  lambda: '%s: record %d reads %s' % (what, r, row))


def binary_files(rng, mon):
    with mon.scratch() as path:
        ranges, n, m = int(rng.choice([0, 1, 2, 5])), int(rng.choice([0, 1, 3, 20])), int(rng.choice([0, 1, 4, 25]))
        if rng.randint(8) == 0:
            ranges = 40
        good = {'locations': MAGIC['locations'] + rng.bytes(32) + rng.uniform(-90, 90, 2 * n).tobytes(),
                'ranges': MAGIC['ranges'] + rng.bytes(16) + rng.uniform(0, 9, ranges).tobytes(),
                'observations': MAGIC['observations'] + rng.bytes(32) +
                b''.join(struct.pack('<Q', int(rng.randint(0, max(1, n)))) + rng.normal(280, 9, 2 + ranges).tobytes() for _ in range(m))}
        table, records, offset = b'', b'', 56 + 16 * n
        for location in range(n):
            count = int(rng.randint(0, 4))
            table += struct.pack('<QQ', offset + len(records), count)
            records += b''.join(struct.pack('<qQ', int(rng.randint(0, 70000)), int(rng.randint(0, 5000))) for _ in range(count))
        good['pointers'] = MAGIC['pointers'] + rng.bytes(32) + struct.pack('<Q', n) + table + records
        commands, judged = [], []
        for number in range(24):
            kind = ['observations', 'locations', 'ranges', 'pointers'][rng.randint(4)]
            what, data = damaged(rng, good[kind], [good[k] for k in good if k != kind]) if number > 3 else ('whole', good[kind])
            name = os.path.join(path, '%d.bin' % number)
            obsdata.write_bytes(name, data)
            command = {'observations': 'observations %s %d' % (name, ranges), 'pointers': 'pointers %s %s' % (
                name, ' '.join(str(int(x)) for x in rng.randint(0, max(1, n), rng.randint(1, 6))))}.get(kind, '%s %s' % (kind, name))
            commands.append(command)
            judged.append((kind, what, data))
        for kind, command in (('locations', 'locations %s'), ('ranges', 'ranges %s'), ('pointers', 'pointers %s 0'), ('observations', 'observations %s 1')):
            commands += [command % path, command % os.path.join(path, 'absent')]
        answers = cpp.run(commands)
        for (kind, what, data), answer in zip(judged, answers):
            mon.count('damaged files')
            mon.case((kind, what, len(data), 'ranges', ranges, cpp.refused(answer)), nontrivial=what != 'whole')
            if kind == 'pointers':
                mon.count('refused files' if cpp.refused(answer) else 'damaged files read')
                mon.check(what != 'whole' or not cpp.refused(answer) or n == 0, 'a good pointer file is refused')
            else:
                judge_answer(mon, kind, ranges, data, answer, '%s file (%s)' % (kind, what))
            if ranges == 40 and kind == 'observations':
                mon.count('long records')
        for command, answer in list(zip(commands, answers))[len(judged):]:
            mon.check(cpp.refused(answer), lambda: '%s answers %s' % (command, answer[:2]), event='refused files')


def collections(rng, mon):
    """The input manager on files of which some are damaged, lacking or of another table."""
    nine = sibling('C09')
    with mon.scratch() as path:
        base = os.path.join(path, 'base')
        first = int(rng.randint(0, 70000))
        days = list(range(first, first + rng.randint(1, 5)))
        pairs = [(s, o) for s in range(6) for o in range(3)]
        chosen = [pairs[i] for i in rng.permutation(len(pairs))[:rng.randint(1, 9)]]
        c = nine.Collection(rng, base, chosen, days)
        names = sorted(os.path.join(d, f) for d, _, files in os.walk(base) for f in files)
        done = []
        for _ in range(rng.randint(0, 4)):
            name = names[rng.randint(len(names))]
            action = rng.randint(6)
            if not os.path.isfile(name):
                continue
            if action == 0:
                os.remove(name)
                done.append('removed')
                if rng.randint(2):
                    os.makedirs(name)
            elif action == 1 and 'locationlookup' in os.path.basename(name):
                data = obsdata.content(name)
                obsdata.write_bytes(name, data[:48 + 16 * rng.randint(0, max(1, (len(data) - 48) // 16))])
                done.append('smaller table')
            else:
                what, data = damaged(rng, obsdata.content(name), [obsdata.content(x) for x in names if os.path.isfile(x)][:8])
                obsdata.write_bytes(name, data)
                done.append(what)
        commands = ['manager ' + base]
        for s, o in chosen:
            commands.append('specify %d %d %d %d' % (s, o, days[0], days[-1]))
        for _ in range(rng.randint(8, 20)):
            s, o = chosen[rng.randint(len(chosen))]
            day = days[rng.randint(len(days))] + (0 if rng.randint(8) else 1)
            kind = rng.randint(6)
            if kind == 4:
                commands.append('hold %d %d %d' % (s, o, day))
            elif kind == 5:
                commands.append('holdseries %d %d %s' % (s, o, ' '.join(str(int(x)) for x in rng.randint(0, 52, rng.randint(0, 5)))))
            elif kind == 0:
                commands.append('day %d %d %d' % (s, o, day))
            elif kind == 1:
                commands.append('days %d %d %s' % (s, o, ' '.join(str(days[i]) for i in rng.randint(0, len(days), 3))))
            elif kind == 2:
                commands.append('series %d %d %s' % (s, o, ' '.join(str(int(x)) for x in rng.randint(0, 52, rng.randint(0, 5)))))
            else:
                commands.append('totals %d %d %d' % (s, o, day))
        held = sum(c.startswith('hold') for c in commands)
        commands += ['held %d' % i for i in range(held)]
        answers = cpp.run(commands + ['files'])
        mon.equal(answers.pop(), ['0'], 'files left open after the requests', event='files closed')
        mon.count('held retrievals', held)
        mon.count('damaged collections')
        mon.count('collection requests', len(answers))
        mon.count('refused requests', sum(cpp.refused(a) for a in answers))
        mon.case(('collection', done, 'refused', sum(cpp.refused(a) for a in answers), 'of', len(answers)), nontrivial=bool(done))


def netcdf_file(rng, name, kind):
    """A mesh or break point file, with something unusual about it: (what, is it usable)."""
    form = rng.choice(['NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET'])
    n, m, stations = int(rng.choice([0, 1, 3, 30])), int(rng.choice([0, 1, 5, 40])), int(rng.choice([0, 1, 6]))
    if kind == 'mesh':
        variables = [['Mesh2_node_x', 'f8', (n,)], ['Mesh2_node_y', 'f8', (n,)], ['Mesh2_face_nodes', 'i4', (m, 3)]]
    else:
        variables = [['merged_break_time', 'i4', (n,)], ['merged_break_station', 'i4', (n,)], ['merged_break_likelihood', 'i1', (n,)],
                     ['latitude', 'f4', (stations,)], ['longitude', 'f4', (stations,)], ['detection_feasibility', 'i1', (stations,)]]
    change, v = rng.randint(7), variables[rng.randint(len(variables))]
    what = 'nothing'
    if change == 1:
        variables.remove(v)
        what = 'lacks ' + v[0]
    elif change == 2:
        v[2] = tuple(max(0, x + int(rng.choice([-1, 1, 2, 50]))) for x in v[2])
        what = 'size of ' + v[0]
    elif change == 3:
        v[2] = [(), v[2] + (2,), v[2] + (1, 1), v[2][:1], (3, 0), v[2][::-1]][rng.randint(6)]
        what = 'dimensions of ' + v[0]
    elif change == 4:
        v[1] = rng.choice(['f8', 'i2', 'f4', 'i4', 'S1', 'i1'])
        what = 'type of ' + v[0]
    elif change == 5:
        for w in variables:
            w[2] = tuple(x + 1000 for x in w[2][:1]) + w[2][1:]
        what = 'bigger'
    if any(0 in w[2][1:] for w in variables):
        form = 'NETCDF4'
    dataset = netCDF4.Dataset(name, 'w', format=form)
    lengths = {}
    for title, code, shape in variables:
        for x in shape:
            if x not in lengths:
                lengths[x] = dataset.createDimension('d%d' % x, x if x else None)
        made = dataset.createVariable(title, code, tuple('d%d' % x for x in shape))
        if all(shape):
            if code == 'S1':
                made[:] = numpy.full(shape, b'x')
            else:
                made[...] = rng.randint(0, 100, shape) if shape else 5
    dataset.close()
    if change == 6:
        data = obsdata.content(name)
        obsdata.write_bytes(name, [data[:rng.randint(0, len(data))], b'', rng.bytes(400), MAGIC['locations'] + data, data + b'x'][rng.randint(5)])
        what = 'cut or other contents'
    return '%s: %s' % (form, what)


def netcdf_files(rng, mon):
    with mon.scratch() as path:
        commands, judged = [], []
        for number in range(12):
            kind = 'mesh' if rng.randint(2) else 'breaks'
            name = os.path.join(path, '%d.nc' % number)
            what = netcdf_file(rng, name, kind)
            judged.append((kind, what))
            if kind == 'mesh':
                commands.append('mesh ' + name)
            else:
                commands.append(rng.choice(['breaks %s' % name, 'stations %s' % name, 'breaks %s %d %g %g' % (name, rng.randint(0, 3), rng.choice([0.0, 0.3, 60.0]), 0.1)]))
        for command in ('mesh %s', 'breaks %s', 'stations %s'):
            commands += [command % path, command % os.path.join(path, 'absent.nc')]
        paired = cpp.run([c for command in commands for c in (command, 'files')])
        answers = paired[::2]
        for command, answer, left in zip(commands, answers, paired[1::2]):
            mon.equal(left, ['0'], 'files left open after %s%s' % (command.split()[0], ' was refused' if cpp.refused(answer) else ''), event='files closed')
        for (kind, what), answer in zip(judged, answers):
            mon.count('netcdf files')
            if cpp.refused(answer):
                mon.count('refused files')
            mon.case((kind, what, cpp.refused(answer)), nontrivial='nothing' not in what)
        for answer in answers[len(judged):]:
            mon.check(cpp.refused(answer), 'a file that is not there is read', event='refused files')


SCENARIOS = [(accumulation, 60, 2000), (binning, 60, 2000), (diagnostics, 40, 1000), (searching, 30, 600), (inverting, 200, 4000), (workloads, 160, 3200),
             (binary_files, 200, 8000), (collections, 200, 6000), (netcdf_files, 70, 2000)]
