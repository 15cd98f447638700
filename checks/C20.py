"""Merging the products of several sources for a day."""

import copy
import datetime
import os

import netCDF4
import numpy

from eustace.outputformats import definitions
from eustace.outputformats.filesmerger import FilesMerger, clean_list_of_outputs_to_merge
from eustace.outputformats.merge_multiple_outputs import merge_multiple_days_outputs, merge_single_day_outputs, return_daily_outputs
from eustace.outputformats.outputvariable import OutputVariable
from eustace.surfaceairmodel.correlation_ranges import CorrelationRanges

NEEDS = {'extension': True}
RULE = """Files of one to five sources with random fields, masks (none, some, all) and error correlations are merged, both the arrays of small files
and whole global products from the list of inputs with absent files; the monitor recomputes in each cell the mean over valid sources and the
combined uncertainty from the correlation matrix, and looks for the values of each source under its own name, the names and comments of the
files, the removal of inputs only after success, and refusal of files of different days. Non-trivial: two or more sources with different masks."""
REQUIRED = {'cells merged': 4000, 'cells missing': 200, 'sources kept': 200, 'complete fields': 60, 'correlations': 300, 'lists cleaned': 60, 'products': 8, 'single sources': 3, 'refused': 30, 'days of one merger': 10, 'interrupted': 1}
ASSUMPTIONS = ['Correlations form a positive definite matrix', 'File names have the label of the source as fifth part']
EPOCH = datetime.datetime(1850, 1, 1)


def correlation(rng, n):
    """A correlation matrix and its upper triangle in the order of the package."""
    kind = rng.randint(4)
    if kind == 0:
        R = numpy.eye(n)
    elif kind == 1:
        R = numpy.ones((n, n))
    else:
        X = rng.normal(0, 1, (n, n + 1))
        R = X.dot(X.T)
        R /= numpy.sqrt(numpy.outer(numpy.diag(R), numpy.diag(R)))
    return R, [float(R[i, j]) for i in range(n) for j in range(i + 1, n)]


def a_mask(rng, shape):
    kind = rng.randint(6)
    if kind == 0:
        return numpy.zeros(shape, bool)
    if kind == 1:
        return numpy.ones(shape, bool)
    return rng.uniform(size=shape) < rng.uniform(0.1, 0.9)


def combined(values, masks, R):
    """Mean and uncertainty of the sources valid in each cell."""
    valid = ~numpy.array(masks)
    count = valid.sum(axis=0)
    v = numpy.where(valid, numpy.array(values), 0.0)
    with numpy.errstate(all='ignore'):
        mean = v.sum(axis=0) / count
        spread = numpy.sqrt(numpy.maximum(numpy.einsum('i...,ij,j...->...', v, R, v), 0.0)) / count
    return mean, spread, count == 0


def judge(mon, got, expected, mask, step, what):
    mon.same(numpy.ma.getmaskarray(got), mask, 'missing cells of ' + what)
    if (~mask).any():
        mon.close(numpy.ma.getdata(got)[~mask], expected[~mask], what, rtol=1e-5, atol=0.5 * step * (1 + 1e-6) + 1e-6)
    mon.count('cells merged', int((~mask).sum()))
    mon.count('cells missing', int(mask.sum()))


def write_small(path, day, shape, fields, fill):
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('time', 1)
    nc.createDimension('latitude', shape[1])
    nc.createDimension('longitude', shape[2])
    nc.createVariable('time', 'f4', ('time',))[:] = [day]
    for name, (values, mask, dtype) in fields.items():
        v = nc.createVariable(name, dtype, ('time', 'latitude', 'longitude'), fill_value=fill)
        if dtype == 'i2':
            v.scale_factor, v.add_offset = 0.005, 273.15
        v[:] = numpy.ma.masked_array(values, mask)
    nc.close()


def merged(rng, mon):
    """The arrays that the merging computes, from small files."""
    with mon.scratch() as folder:
        n = int(rng.randint(2, 6))
        shape = (1, int(rng.randint(1, 6)), int(rng.randint(1, 6)))
        labels = [str(s) for s in rng.permutation(['AATSR', 'ATSR2', 'ATSR1', 'SLSTR', 'A'])[:n]]
        day = int(rng.randint(10000, 60000))
        made = dict((k, [OutputVariable('%s%d' % (k, i), numpy.float32, -3200, long_name='n') for i in range(int(rng.randint(1, 3)))]) for k in ('field', 'total', 'part'))
        primary, ancillary, held = [], [], []
        for label in labels:
            fields = {}
            for k in made:
                for variable in made[k]:
                    packed = k == 'field' and rng.randint(2)
                    values = rng.uniform(250, 300, shape) if packed else rng.uniform(0.1, 9, shape)
                    if not packed and rng.randint(2):
                        values[rng.uniform(size=shape) < 0.3] = 0.0
                    values = numpy.round((values - 273.15) / 0.005) * 0.005 + 273.15 if packed else values.astype('f4').astype(float)
                    fields[variable.name] = (values, a_mask(rng, shape), 'i2' if packed else 'f4')
            held.append(fields)
            paths = [os.path.join(folder, '%s_ocean_eustace_0_%s_20020101.nc' % (k, label)) for k in ('tas', 'ancillary')]
            write_small(paths[0], day, shape, dict((k, v) for k, v in fields.items() if not k.startswith('part')), -32768)
            write_small(paths[1], day, shape, dict((k, v) for k, v in fields.items() if k.startswith('part')), -32768)
            primary.append(paths[0])
            ancillary.append(paths[1])
        matrices = [correlation(rng, n) for _ in made['part']]
        merger = FilesMerger(primary, ancillary, numpy.array([n], numpy.int64), made['field'], made['total'], made['part'], [c[1] for c in matrices])
        for wrong in ((primary[1:], ancillary, [n]), (primary, ancillary[1:], [n]), (primary, ancillary, [n + 1]), (primary, ancillary, [n - 1]), (primary, ancillary, [n, 1]), (primary[1:], ancillary[1:], [n]),
                      (tuple(primary), ancillary, [n]), ([1] + primary[1:], ancillary, [n]), (primary, ancillary[1:] + [None], [n])):
            mon.raises(lambda: FilesMerger(wrong[0], wrong[1], numpy.array(wrong[2], numpy.int64), made['field'], made['total'], made['part'], [c[1] for c in matrices]), 'files and numbers of sources', ValueError)
        for fields in ((['tas'], made['total'], made['part']), (made['field'], [None], made['part']), (made['field'], made['total'], ['x'] * len(made['part'])), (made['field'], made['total'], made['part'] + made['part'])):
            mon.raises(lambda: FilesMerger(primary, ancillary, numpy.array([n], numpy.int64), *(fields + ([c[1] for c in matrices],))), 'fields', ValueError)
        for table in ([c[1] for c in matrices] + [matrices[0][1]], [c[1] for c in matrices[1:]], [c[1] for c in matrices[:-1]] + [1.0], [c[1] for c in matrices[:-1]] + [[1] * (n * (n - 1) // 2)]):
            mon.raises(lambda: FilesMerger(primary, ancillary, numpy.array([n], numpy.int64), made['field'], made['total'], made['part'], table), 'correlations', ValueError)
        mon.count('refused', 17)
        results = merger.merge_multiple_files(primary, ancillary)
        mon.equal(float(results['daynumber']), float(day), 'day')
        names = set(['daynumber'])
        for k in made:
            for i, variable in enumerate(made[k]):
                values, masks = [h[variable.name][0] for h in held], [h[variable.name][1] for h in held]
                R = matrices[i][0] if k == 'part' else numpy.eye(n)
                mean, spread, missing = combined(values, masks, R)
                judge(mon, results[variable.name], mean if k == 'field' else spread, missing, 0.0, 'merged ' + variable.name)
                names.add(variable.name)
                for label, v, m in zip(labels, values, masks):
                    names.add(variable.name + '_' + label)
                    kept = results[variable.name + '_' + label]
                    mon.same(numpy.ma.getmaskarray(kept), m, 'missing cells kept')
                    mon.close(numpy.ma.getdata(kept)[~m], v[~m], 'values kept', rtol=1e-6, atol=1e-5)
                    mon.count('sources kept')
                    mon.count('complete fields', int(not m.any()))
        mon.equal(set(results), names, 'names of results')
        mon.count('correlations', sum(len(c[1]) for c in matrices))
        # one file of another day
        where = [primary, ancillary][rng.randint(2)]
        nc = netCDF4.Dataset(where[rng.randint(n)], 'r+')
        nc.variables['time'][:] = [day + int(rng.choice([-1, 1, 365]))]
        nc.close()
        mon.raises(lambda: merger.merge_multiple_files(primary, ancillary), 'files of different days', ValueError)
        mon.raises(lambda: merger.merge_outputs_from_multiple_daily_sources('m', 'i', 'c'), 'product of different days', ValueError)
        mon.check(all(os.path.isfile(p) for p in primary + ancillary), 'inputs remain when they are refused')
        mon.count('refused')
        mon.raises(lambda: FilesMerger.build_triangular_correlation_matrix(n, [0.0] * (n * (n - 1) // 2 + 1)), 'number of correlations', ValueError)
    mon.case(('merged', n, shape, tuple(len(made[k]) for k in sorted(made))), nontrivial=True)


def lists(rng, mon):
    """Absent files leave the list together with their correlations."""
    with mon.scratch() as folder:
        n = int(rng.randint(1, 7))
        there = rng.uniform(size=n) < 0.6
        main, ancillary = [], []
        for k in range(n):
            for names, prefix in ((main, 'm'), (ancillary, 'a')):
                path = os.path.join(folder, '%s%d' % (prefix, k))
                if there[k]:
                    open(path, 'w').close()
                elif rng.randint(4) == 0:
                    os.makedirs(path)
                names.append(path if there[k] or rng.randint(2) else None)
        tables = [[float(100 * t + 10 * i + j) for i in range(n) for j in range(i + 1, n)] for t in range(int(rng.randint(1, 4)))]
        count = numpy.zeros(1, numpy.int64)
        a, b, c = list(main), list(ancillary), copy.deepcopy(tables)
        clean_list_of_outputs_to_merge(a, b, count, c)
        mon.equal(a, [m for m, t in zip(main, there) if t], 'primary files left')
        mon.equal(b, [m for m, t in zip(ancillary, there) if t], 'ancillary files left')
        mon.equal(int(count[0]), int(there.sum()), 'number of sources')
        mon.equal(c, [[float(100 * t + 10 * i + j) for i in range(n) for j in range(i + 1, n) if there[i] and there[j]] for t in range(len(tables))], 'correlations left')
        mon.count('lists cleaned')
        # a source of which one file is absent
        if there.any():
            odd = [int(i) for i in rng.choice(n, int(rng.randint(1, min(n, 2) + 1)), replace=False)]
            a, b, c = list(main), list(ancillary), copy.deepcopy(tables)
            for k, names in zip(odd, rng.permutation([0, 1])):
                there_now = (a, b)[names]
                other = (a, b)[1 - names]
                there_now[k] = None
                other[k] = os.path.join(folder, 'x%d' % k)
                open(other[k], 'w').close()
            mon.raises(lambda: clean_list_of_outputs_to_merge(a, b, numpy.zeros(1, numpy.int64), c), 'source with one file', ValueError)
            mon.count('refused')
        mon.raises(lambda: clean_list_of_outputs_to_merge(main + [None], list(ancillary), numpy.zeros(1, numpy.int64), copy.deepcopy(tables)), 'lists of different lengths', ValueError)
    mon.case(('lists', n, tuple(there.tolist()), len(tables)), nontrivial=n > 1 and not there.all() and there.any())


SHAPE = (1, 720, 1440)


def write_global(path, day, fields):
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('time', None)
    nc.createDimension('latitude', 720)
    nc.createDimension('longitude', 1440)
    nc.createVariable('time', 'f4', ('time',))[0:1] = [day]
    nc.comment = 'as made'
    for name, (raw, mask, scale, offset) in fields.items():
        v = nc.createVariable(name, 'i2', ('time', 'latitude', 'longitude'), fill_value=-32768)
        v.set_auto_maskandscale(False)
        v.scale_factor, v.add_offset = scale, offset
        v[:] = numpy.where(mask, -32768, raw).astype('i2')
    nc.close()


def read(path, name):
    nc = netCDF4.Dataset(path)
    try:
        return nc.variables[name][:]
    finally:
        nc.close()


def products(rng, mon):
    """Global products of one or two days from lists of inputs."""
    with mon.scratch() as folder:
        n = int(rng.choice([1, 2, 2, 3]))
        labels = [str(s) for s in rng.permutation(['AATSR', 'ATSR2', 'ATSR1'])[:n]]
        holder = folder if rng.randint(2) else os.path.join(folder, 'work_' + labels[0])
        if not os.path.isdir(holder):
            os.makedirs(holder)
        parts = ['SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM', 'SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_LOCALLYCORRELATED'][:2 if rng.randint(4) else 1]
        variables = [definitions.TAS, definitions.TASUNCERTAINTY] + [getattr(definitions, p) for p in parts]
        before = [(v.length_scale, v.time_scale) for v in variables]
        daily, expected = [], []
        for d in range(int(rng.randint(1, 3))):
            R, flat = zip(*[correlation(rng, n) for _ in parts])
            ident, prefix, scales = 'ID%d' % rng.randint(1000), str(rng.choice(['From ', 'A long text which says that data were made from '])), (int(rng.randint(1, 3000)), int(rng.randint(1, 90)))
            day = int(rng.randint(50000, 60000))
            when = (EPOCH + datetime.timedelta(days=day)).strftime('%Y%m%d')
            there = rng.uniform(size=n) < 0.85
            if d == 0:
                there[rng.randint(n)] = True
            names = [[os.path.join(holder, '%s_ocean_eustace_0_%s_%s.nc' % (k, label, when)) for label in labels] for k in ('tas', 'ancillary')]
            held = []
            for k, label in enumerate(labels):
                fields = {}
                for variable in variables:
                    scale, offset = (0.005, 273.15) if variable is definitions.TAS else (0.001, 0.0)
                    raw = rng.randint(-5000, 5000, SHAPE) if variable is definitions.TAS else rng.randint(0, 5000, SHAPE) * rng.randint(0, 2, SHAPE)
                    fields[variable.name] = (raw, a_mask(rng, SHAPE), scale, offset)
                held.append(fields)
                if there[k]:
                    write_global(names[0][k], day, dict((v.name, fields[v.name]) for v in variables[:2]))
                    write_global(names[1][k], day, dict((v.name, fields[v.name]) for v in variables[2:]))
            out = [os.path.join(holder, '%s_ocean_eustace_0_%s.nc' % (k, when)) for k in ('tas', 'ancillary')]
            inputs = [[p if there[k] or rng.randint(2) else None for k, p in enumerate(row)] for row in names]
            ranges = CorrelationRanges([definitions.SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_LOCALLYCORRELATED.name], ['km', 'day'], [scales[0]], [scales[1]])
            daily.append(return_daily_outputs(ident, 'MO', [out[0]], [out[1]], repr([list(f) for f in flat]), prefix, 'eustace.outputformats.definitions',
                                              ['TAS'], ['TASUNCERTAINTY'], parts, ranges, inputs[0], inputs[1]))
            expected.append((day, there, names, held, out, R, ident, prefix, scales))
        try:
            if len(daily) == 1 and rng.randint(2):
                merge_single_day_outputs(**daily[0])
            else:
                merge_multiple_days_outputs(daily)
        finally:
            for v, scales in zip(variables, before):
                v.length_scale, v.time_scale = scales
                if scales[0] is None:
                    v.length_scale_units = v.time_scale_units = None
        for day, there, names, held, out, R, ident, prefix, scales in expected:
            if not there.any():
                mon.check(not any(os.path.exists(p) for p in out), 'no product without inputs')
                continue
            mon.check(all(os.path.isfile(p) for p in out), 'product files')
            mon.check(not any(os.path.exists(p) for row in names for p in row), 'inputs are gone after merging')
            used = [k for k in range(n) if there[k]]
            for path, own in ((out[0], variables[:2]), (out[1], variables[2:])):
                nc = netCDF4.Dataset(path)
                try:
                    mon.equal(float(nc.variables['time'][0]), float(day), 'day of the product')
                    mon.equal(nc.comment, prefix + ', '.join(labels[k] for k in used) + ' retrievals.', 'comment')
                    if len(used) > 1:
                        mon.equal(nc.source, 'EUSTACE Catalogue ' + ident, 'source')
                        mon.equal(nc.institution, 'MO', 'institution')
                        if len(parts) > 1 and path == out[1]:
                            mon.equal((int(nc.variables[variables[3].name].length_scale), nc.variables[variables[3].name].length_scale_units, int(nc.variables[variables[3].name].time_scale), nc.variables[variables[3].name].time_scale_units),
                                      (scales[0], 'km', scales[1], 'day'), 'correlation range')
                    expect = set(v.name for v in own)
                    if len(used) > 1 and path == out[1]:
                        expect |= set('%s_%s' % (v.name, labels[k]) for v in variables for k in used)
                        for v in variables:
                            for k in used:
                                mon.equal(nc.variables['%s_%s' % (v.name, labels[k])].long_name, '%s from %s satellite.' % (v.long_name, labels[k]), 'long name of a field of one source')
                    mon.equal(set(nc.variables) - set(['time', 'timebounds', 'timeoffset', 'latitude', 'longitude']), expect, 'variables of the product')
                finally:
                    nc.close()
            for i, variable in enumerate(variables):
                raws = [held[k][variable.name] for k in used]
                step = raws[0][2]
                values, masks = [r[0] * r[2] + r[3] for r in raws], [r[1] for r in raws]
                M = numpy.eye(len(used)) if i < 2 else R[i - 2][numpy.ix_(used, used)]
                mean, spread, missing = combined(values, masks, M)
                judge(mon, read(out[0 if i < 2 else 1], variable.name), mean if i == 0 else spread, missing, step if len(used) > 1 else 1e-6, 'product ' + variable.name)
                if len(used) > 1:
                    for k, v, m in zip(used, values, masks):
                        kept = read(out[1], '%s_%s' % (variable.name, labels[k]))
                        mon.same(numpy.ma.getmaskarray(kept), m, 'missing cells kept')
                        mon.close(numpy.ma.getdata(kept)[~m], v[~m], 'values kept', rtol=1e-6, atol=1e-5)
                        mon.count('sources kept')
            mon.count('products')
            mon.count('single sources', int(len(used) == 1))
    mon.case(('products', n, len(daily), tuple(tuple(e[1].tolist()) for e in expected)), nontrivial=n > 1)


def several(rng, mon):
    """One merger for several days, each of one source or of the same number of sources."""
    with mon.scratch() as folder:
        n = int(rng.randint(2, 4))
        sizes = [int(k) for k in rng.choice([1, 1, n], int(rng.randint(2, 5)))]
        if n not in sizes:
            sizes[rng.randint(len(sizes))] = n
        variables = [definitions.TAS, definitions.TASUNCERTAINTY, definitions.SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM]
        names = [v.name for v in variables]
        R, flat = correlation(rng, n)
        first = int(rng.randint(50000, 60000))
        labels = ['AATSR', 'ATSR2', 'ATSR1']
        primary, ancillary, days = [], [], []
        for d, size in enumerate(sizes):
            when = (EPOCH + datetime.timedelta(days=first + d)).strftime('%Y%m%d')
            chosen = [labels[i] for i in rng.permutation(3)[:size]]
            files = [[os.path.join(folder, '%s_ocean_eustace_0_%s_%s.nc' % (k, label, when)) for label in chosen] for k in ('tas', 'ancillary')]
            values = []
            for k in range(size):
                fields = {}
                for variable in variables:
                    level, mask = int(rng.randint(0, 4000)), numpy.zeros(SHAPE, bool)
                    row = int(rng.randint(720))
                    mask[:, row:row + 3] = True
                    fields[variable.name] = (numpy.full(SHAPE, level), mask) + ((0.005, 273.15) if variable is definitions.TAS else (0.001, 0.0))
                values.append(fields)
                write_global(files[0][k], first + d, dict((v.name, fields[v.name]) for v in variables[:2]))
                write_global(files[1][k], first + d, dict((v.name, fields[v.name]) for v in variables[2:]))
            primary.extend(files[0])
            ancillary.extend(files[1])
            days.append((first + d, when, chosen, values, files, [os.path.join(folder, '%s_ocean_eustace_0_%s.nc' % (k, when)) for k in ('tas', 'ancillary')]))
        merger = FilesMerger(list(primary), list(ancillary), numpy.array(sizes, numpy.int64), variables[:1], variables[1:2], variables[2:], [list(flat)])
        blocked = rng.randint(3) == 0
        if blocked:
            # the ancillary product of a day of several sources cannot be written
            at = [d for d in range(len(sizes)) if sizes[d] > 1][0]
            os.makedirs(days[at][5][1])
            try:
                merger.merge_outputs_from_multiple_daily_sources('m', 'i', 'c')
                mon.check(False, 'product that cannot be written')
            except Exception:
                pass
            for day, when, chosen, values, files, out in days[at:]:
                mon.check(all(os.path.isfile(p) for row in files for p in row), 'inputs remain where the product was not written')
            os.rmdir(days[at][5][1])
            mon.count('interrupted')
            days = days[:at]
        else:
            merger.merge_outputs_from_multiple_daily_sources('m', 'i', 'c')
            outs = [[d[5][k] for d in days] for k in (0, 1)]
            merger.check_produced_output(*outs)
            for k in (0, 1):
                wrong = [list(o) for o in outs]
                wrong[k][rng.randint(len(days))] = os.path.join(folder, 'other.nc')
                mon.raises(lambda: merger.check_produced_output(*wrong), 'other names of products', ValueError)
                wrong[1 - k] = outs[0] + outs[1]
                mon.raises(lambda: merger.check_produced_output(*wrong), 'other names of products', ValueError)
            mon.count('refused', 4)
        mon.equal([v.name for v in variables], names, 'definitions are left alone')
        for day, when, chosen, values, files, out in days:
            mon.check(not any(os.path.exists(p) for row in files for p in row), 'inputs are gone after merging')
            for i, variable in enumerate(variables):
                raws = [v[variable.name] for v in values]
                mean, spread, missing = combined([q[0] * q[2] + q[3] for q in raws], [q[1] for q in raws], R if i == 2 and len(chosen) > 1 else numpy.eye(len(chosen)))
                judge(mon, read(out[0 if i < 2 else 1], variable.name), mean if i == 0 else spread, missing, raws[0][2], 'product ' + variable.name)
                for label, q in zip(chosen, raws):
                    if len(chosen) > 1:
                        kept = read(out[1], '%s_%s' % (variable.name, label))
                        mon.same(numpy.ma.getmaskarray(kept), q[1], 'missing cells kept')
                        mon.close(numpy.ma.getdata(kept)[~q[1]], (q[0] * q[2] + q[3])[~q[1]], 'values kept', rtol=1e-6, atol=1e-5)
            for path in out:
                mon.equal(float(read(path, 'time')[0]), float(day), 'day of the product')
            mon.count('days of one merger')
    mon.case(('several', tuple(sizes), bool(blocked)), nontrivial=True)


SCENARIOS = [(merged, 80, 2500), (lists, 120, 3000), (products, 16, 200), (several, 16, 160)]
