"""Quality flags of daily analyses and the masks that follow from them."""

import argparse
import calendar
import datetime
import os
import re
import shutil
import subprocess
import sys

import dateutil.parser
import iris
import netCDF4
import numpy

import stand
from eumopps.version.svn import set_allow_unversioned_code
from eustace.postprocess import apply_mask, calendar_check, cell_percentile_calculation, cell_percentile_threshold
from eustace.postprocess import flags, merge_flag_files, operation_count, outlier_check, outlier_window_check, threshold_check, window_check

NEEDS = {'extension': True}
RULE = """Daily flag files and analysis files on the full grid, with flags drawn independently per cell, absent neighbouring days and years, fields
next to and on the thresholds, and month operations are passed through every check of the post-processing package and through the masking of
products; the monitor recomputes each flag per cell from the definition of its condition with its own windows, requires that all other bits are
as before, and compares every variable of the masked files cell by cell. Non-trivial: fields where some cells are flagged and others not."""
REQUIRED = {'cells judged': 3e7, 'flags set': 1e6, 'flags kept': 1e6, 'days absent': 8, 'files masked': 12, 'cells masked': 1e6, 'cells unmasked': 1e6,
            'masks combined': 1200, 'windows': 20, 'areal': 4, 'months': 500, 'bits named': 45, 'days of programs': 400, 'programs window': 1, 'programs masking': 1, 'programs outlier': 1, 'months submitted': 90}
ASSUMPTIONS = ['No cell has all sixteen flags set (that value marks missing data in flag files)', 'Uncertainty and influence fields of the analysis are complete',
               'Operations start on the first day of a month']

set_allow_unversioned_code(True)

SHAPE = (720, 1440)
BIT = dict(day=0, prior_window=1, post_window=2, prior_calendar=3, post_calendar=4, climatology=5, large_scale=6, areal_low=7, areal_high=8,
           extreme_low=9, extreme_high=10, persistent=11, marine=12, location_low=13, location_high=14, missing=15)
NAMED = {0: 'day_constraint', 1: 'prior_window_constraint', 2: 'post_window_constraint', 3: 'prior_calendar_constraint', 4: 'post_calendar_constraint',
         5: 'climatology_uncertainty_qc', 6: 'large_scale_uncertainty_qc', 7: 'areal_low_value_qc', 8: 'areal_high_value_qc', 9: 'extreme_low_value_qc',
         10: 'extreme_high_value_qc', 12: 'marine_location_flag', 13: 'location_low_value_qc', 14: 'location_high_value_qc', 15: 'unconstrained_calendar_day_qc'}
LATITUDES = -89.875 + 0.25 * numpy.arange(720)
LONGITUDES = -179.875 + 0.25 * numpy.arange(1440)


def value(name):
    return 1 << BIT[name]


def some_flags(rng, shape=SHAPE, often=()):
    """Flags of cells, each bit with a probability of its own, none of them all set."""
    f = numpy.zeros(shape, numpy.uint16)
    for b in range(16):
        p = 0.5 if b in often else rng.choice([0.0, 0.02, 0.2, 0.5, 0.9])
        if p:
            f |= numpy.where(rng.uniform(size=shape) < p, 1 << b, 0).astype(numpy.uint16)
    f[f == 65535] = 0x7fff
    return f


def flag_name(directory, iteration, date):
    return os.path.join(directory, '%04d' % date.year, 'eustace_analysis_%d_qc_flags_%04d%02d%02d.nc' % (iteration, date.year, date.month, date.day))


def write_flags(directory, iteration, date, f):
    apply_mask.save_flag_file(f.copy(), date, flag_name(directory, iteration, date))


def read_flags(path):
    with netCDF4.Dataset(path) as nc:
        v = nc.variables['tas_qc']
        v.set_auto_mask(False)
        return v[:].reshape(v.shape[-2:])


def judge_flags(mon, got, expected, what, sure=None):
    got = numpy.squeeze(numpy.ma.getdata(got)).astype(numpy.int64)
    expected = expected.astype(numpy.int64)
    mon.equal(got.shape, expected.shape, 'shape of ' + what)
    wrong = got != expected
    if sure is not None:
        wrong &= sure
    if wrong.any():
        at = tuple(int(k[0]) for k in numpy.nonzero(wrong))
        mon.fail('%s: %d cells have other flags, first at %s: %s instead of %s' % (what, wrong.sum(), at, bin(got[at]), bin(expected[at])))
    mon.count('cells judged', got.size)
    mon.count('values')


def a_month(rng, lo=1880, hi=2015):
    return datetime.datetime(int(rng.randint(lo, hi)), int(rng.randint(1, 13)), 1)


def a_date(rng):
    kind = rng.randint(5)
    year = int(rng.randint(1881, 2014))
    if kind == 4:
        return a_month(rng, 1881, 2014)
    if kind == 0:
        return datetime.datetime(year - year % 4 + 4 if year < 1999 and (year - year % 4 + 4) != 1900 else 2004, 2, 29)
    if kind == 1:
        return datetime.datetime(year, 1, 1) + datetime.timedelta(days=int(rng.randint(-2, 3)))
    return datetime.datetime(year, 1, 1) + datetime.timedelta(days=int(rng.randint(365)))


def quiet_operation(action):
    """Run an operation of a month of which only the first day has inputs."""
    try:
        action()
    except Exception as error:                  # the later days have no inputs
        return error


def stub_covariates(mon, coast=None, dem=None):
    """Stand in for the covariate files, which have fixed places."""
    original = iris.load_cube

    def load_cube(uris, constraint=None, **options):
        name = str(uris)
        if 'coastal_influence' in name:
            return iris.cube.Cube(coast.copy(), var_name='coastal_influence')
        if 'DEM' in name or 'dem' in name:
            return iris.cube.Cube(dem.copy(), var_name='dem')
        return original(uris, constraint, **options)

    return stand.swap(original, load_cube)


NAMES = dict(tas=('air_temperature', 'Average daily surface air temperature', 'K'),
             tasuncertainty=(None, 'Total uncertainty in average daily surface air temperature', 'K'),
             tasobservationinfluence=(None, 'Observation influence for average daily surface air temperature', None))


def write_fields(path, date, fields, latitudes=LATITUDES, longitudes=LONGITUDES, order=None):
    """An analysis file; fields by variable name."""
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('time', 1)
    nc.createDimension('latitude', len(latitudes))
    nc.createDimension('longitude', len(longitudes))
    t = nc.createVariable('time', 'f4', ('time',))
    t.units, t.standard_name, t.calendar = 'days since 1850-01-01T00:00:00Z', 'time', 'gregorian'
    t[:] = [(date - datetime.datetime(1850, 1, 1)).days]
    for name, values in (('latitude', latitudes), ('longitude', longitudes)):
        v = nc.createVariable(name, 'f4', (name,))
        v.units, v.standard_name = {'latitude': 'degrees_north', 'longitude': 'degrees_east'}[name], name
        v[:] = values
    for name in (order or list(fields)):
        values = fields[name]
        standard, longname, units = NAMES.get(name, (None, 'Average daily surface air temperature ensemble', 'K'))
        v = nc.createVariable(name, values.dtype, ('time', 'latitude', 'longitude'), fill_value=values.dtype.type(-9999.0))
        if standard:
            v.standard_name = standard
        v.long_name = longname
        if units:
            v.units = units
        v[:] = numpy.ma.masked_array(values)[None]
    nc.close()


def analysis_name(directory, iteration, date, kind='analysis'):
    name = 'eustace_%s_%d' % (kind, iteration)
    return os.path.join(directory, name, '%04d' % date.year, '%s_%04d%02d%02d.nc' % (name, date.year, date.month, date.day))


def dyadic(rng, shape, levels=64):
    """Patchy fields of multiples of 1/levels, whose sums are exact."""
    coarse = rng.randint(0, levels, (shape[0] // 20, shape[1] // 20))
    f = numpy.repeat(numpy.repeat(coarse, 20, axis=0), 20, axis=1)
    f = numpy.where(rng.uniform(size=shape) < rng.choice([0.0, 0.3]), rng.randint(0, levels + 1, shape), f)
    rows = rng.randint(0, shape[0] - 60)
    f[rows:rows + 60, :] = levels // 2
    if rng.randint(2):
        f[:25, :] = levels // 2
    return (f / float(levels)).astype(rng.choice(['f4', 'f8']))


def padded(field, h):
    """Windows reach across the date line and are mirrored at the poles."""
    n, m = field.shape
    rows = numpy.arange(-h, n + h)
    rows = numpy.where(rows < 0, -rows, rows)
    rows = numpy.where(rows >= n, 2 * (n - 1) - rows, rows)
    return field[rows][:, numpy.arange(-h, m + h) % m]


def window_sum(field, width):
    h = width // 2
    p = padded(field.astype(numpy.float64), h)
    c = numpy.zeros((p.shape[0] + 1, p.shape[1] + 1))
    c[1:, 1:] = p.cumsum(axis=0).cumsum(axis=1)
    return c[width:, width:] - c[:-width, width:] - c[width:, :-width] + c[:-width, :-width]


def spread(condition, width=5):
    return window_sum(condition, width) > 0.5


# scenarios


def saving(rng, mon):
    """Flags survive saving and loading, and the file names every bit."""
    with mon.scratch() as folder:
        date, iteration = a_date(rng), int(rng.randint(10))
        f = some_flags(rng)
        path = flag_name(folder, iteration, date)
        apply_mask.save_flag_file(f.copy() if rng.randint(2) else f.reshape((1,) + SHAPE).copy(), date, path)
        with netCDF4.Dataset(path) as nc:
            v = nc.variables['tas_qc']
            masks, meanings = [int(m) for m in numpy.atleast_1d(v.flag_masks)], v.flag_meanings.split()
            mon.equal(nc.variables['time'][0], (date - datetime.datetime(1850, 1, 1)).days, 'day of the flag file')
        mon.equal(len(masks), len(meanings), 'number of flag masks and of their meanings')
        for bit, name in NAMED.items():
            mon.check(name in meanings, lambda: 'the file of flags does not name ' + name)
            mon.equal(masks[meanings.index(name)], 1 << bit, 'bit named ' + name, event='bits named')
        mon.equal(len(set(masks)), len(masks), 'distinct bits')
        judge_flags(mon, read_flags(path), f, 'saved flags')
        judge_flags(mon, apply_mask.load_flags(folder, iteration, '%04d%02d%02d' % (date.year, date.month, date.day)).data, f, 'loaded flags')
        mon.count('flags kept', int((f != 0).sum()))
        mon.case(('saving', iteration, int(f.sum()) % 97))


def mask_arithmetic(rng, mon):
    """A cell is masked when for some pair all of the first flags and none of the second are set."""
    shape = tuple(rng.randint(1, 7, rng.randint(1, 4)))
    f = some_flags(rng, shape)
    pairs = []
    for _ in range(rng.randint(1, 6)):
        bits = rng.permutation(16)
        n, m = rng.randint(1, 4), rng.randint(0, 3)
        pairs.append([numpy.uint16(sum(1 << int(b) for b in bits[:n])), numpy.uint16(sum(1 << int(b) for b in bits[n:n + m]))])
    got = apply_mask.compute_mask(f.copy(), pairs)
    expected = numpy.zeros(shape, bool)
    for at in numpy.ndindex(*shape):
        x = int(f[at])
        expected[at] = any((x & int(a)) == int(a) and not (x & int(b)) for a, b in pairs)
    mon.same(numpy.asarray(got), expected, 'mask from flags')
    mon.count('masks combined', expected.size)
    mon.case(('arithmetic', shape, len(pairs)), expected.any() and not expected.all())


def standard_mask(f, year):
    """Cells masked in the product."""
    f = f.astype(numpy.int64)
    has = lambda name: (f & value(name)) != 0
    mask = has('missing') & ~has('marine')
    for name in ('large_scale', 'climatology', 'areal_low', 'areal_high', 'extreme_low', 'extreme_high', 'location_low', 'location_high'):
        mask |= has(name)
    if year > 2012:
        mask |= has('marine')
    return mask


def coast_field(rng):
    coast = rng.choice([0.0, 50.0, 94.9, 95.0, 95.1, 99.0, 100.0], size=SHAPE)
    coarse = numpy.repeat(numpy.repeat(rng.choice([0.0, 100.0, numpy.nan], size=(36, 72)), 20, axis=0), 20, axis=1)
    coast = numpy.where(numpy.isnan(coarse), coast, coarse)
    edged = coast.copy()
    edged[0], edged[-1] = 0.0, 100.0
    edged[:, 0], edged[:, -1] = edged[:, 1], edged[:, -2]
    return coast, edged


def masking(rng, mon):
    """Masks of the products of a day."""
    coast, edged = coast_field(rng)
    iteration = int(rng.choice([4, 9]))
    year = int(rng.choice([2012, 2013, 2014, rng.randint(1880, 2016)]))
    month = int(rng.randint(1, 13))
    date = datetime.datetime(year, month, 1)
    start_year = year - int(rng.randint(0, 3))
    reference, index = '%04d-01-01' % start_year, 12 * (year - start_year) + month - 1
    with mon.scratch() as folder:
        inputs = {k: os.path.join(folder, k) for k in ('analysis', 'flags', 'flags2', 'out')}
        # few flags, so that cells are masked and unmasked
        f = numpy.zeros(SHAPE, numpy.uint16)
        f2 = f.copy()
        for b in range(16):
            f |= numpy.where(rng.uniform(size=SHAPE) < rng.choice([0.0, 0.03, 0.3], p=[0.3, 0.5, 0.2]), 1 << b, 0).astype(numpy.uint16)
            f2 |= numpy.where(rng.uniform(size=SHAPE) < rng.choice([0.0, 0.03]), 1 << b, 0).astype(numpy.uint16)
        f[f == 65535] = 0
        f2[f2 == 65535] = 0
        two = bool(rng.randint(2))
        write_flags(inputs['flags'], iteration, date, f)
        both = f
        if two:
            write_flags(inputs['flags2'], iteration, date, f2)
            both = f | f2
        both = (both & ~numpy.uint16(value('marine'))) | numpy.where(edged > 95.0, value('marine'), 0).astype(numpy.uint16)
        mask = standard_mask(both, year)

        members = int(rng.choice([0, 1, 3, 11, 12]))
        missing = rng.uniform(size=SHAPE) < 0.01 if rng.randint(2) else numpy.zeros(SHAPE, bool)
        contents = {}
        for kind in ('analysis', 'climatology_component', 'large_scale_component', 'local_component'):
            base = {'analysis': 280.0, 'climatology_component': 285.0}.get(kind, 0.0)
            tas = base + rng.uniform(-30, 30, SHAPE)
            fields = dict(tas=numpy.ma.masked_array(tas, missing), tasuncertainty=numpy.ma.masked_array(rng.uniform(0, 5, SHAPE)),
                          tasobservationinfluence=numpy.ma.masked_array(rng.uniform(0, 0.99, SHAPE)))
            if kind == 'analysis':
                for m in range(members):
                    fields['tasensemble_%d' % m] = numpy.ma.masked_array(tas + m * 0.5 + 1.0)
            names = list(fields)
            write_fields(analysis_name(inputs['analysis'], iteration, date, kind), date, fields, order=[names[k] for k in rng.permutation(len(names))])
            contents[kind] = fields
        restore = stub_covariates(mon, coast=coast)
        try:
            error = quiet_operation(lambda: apply_mask.masking_operation(reference, index, inputs['analysis'], iteration, inputs['flags'],
                                                                         inputs['flags2'] if two else None, inputs['out']))
        finally:
            restore()
        stamp = '%04d%02d%02d' % (year, month, 1)
        version, run = {4: ('R001400', '20190326'), 9: ('R001413', '20190405')}[iteration]
        paths = {'analysis': os.path.join(inputs['out'], version, run, 'global', '%04d' % year, 'tas_global_eustace_0_%s.nc' % stamp)}
        for kind in list(contents)[1:]:
            name = 'eustace_%s_%d' % (kind, iteration)
            paths[kind] = os.path.join(inputs['out'], name, '%04d' % year, '%s_masked_%s.nc' % (name, stamp))
        for kind, path in paths.items():
            mon.check(os.path.exists(path), lambda: 'no masked %s file for %s (%r)' % (kind, stamp, error))
            with netCDF4.Dataset(path) as nc:
                mon.equal(int(nc.variables['time'][0]), (date - datetime.datetime(1850, 1, 1)).days, 'day of the masked file')
                for name, field in contents[kind].items():
                    out = 'tas_perturbation' if name == 'tas' and kind in ('large_scale_component', 'local_component') else name
                    mon.check(out in nc.variables, lambda: 'no %s in the masked %s' % (out, kind))
                    got = numpy.ma.squeeze(nc.variables[out][:])
                    expected = mask | numpy.ma.getmaskarray(field)
                    mon.same(numpy.ma.getmaskarray(got), expected, 'masked cells of %s in the %s' % (out, kind))
                    step = float(getattr(nc.variables[out], 'scale_factor', 0.0))
                    d = numpy.abs(numpy.ma.getdata(got) - numpy.ma.getdata(field))[~expected]
                    mon.check(d.size == 0 or d.max() <= 0.5001 * step + 2e-5, lambda: 'unmasked values of %s in the %s differ by %g' % (out, kind, d.max()))
                    mon.count('cells judged', got.size)
                got_members = [n for n in nc.variables if n.startswith('tasensemble')]
                mon.equal(len(got_members), sum(n.startswith('tasensemble') for n in contents[kind]), 'ensemble members in the masked %s' % kind)
            mon.count('files masked')
        found = sorted(os.path.join(d, n) for d, _, names in os.walk(inputs['out']) for n in names)
        mon.check(set(paths.values()) <= set(found), 'masked files')
        mon.count('cells masked', int(mask.sum()))
        mon.count('cells unmasked', int((~mask).sum()))
        mon.case(('masking', iteration, year > 2012, two, members, bool(missing.any())))


def window(rng, mon):
    """Constraint counts before and after a day."""
    date, iteration = a_date(rng), int(rng.randint(10))
    window_at(rng, mon, date, iteration)
    if mon.index % 4 == 0:  # the same day and iteration of other flags
        mon.count('other flags of the same day')
        window_at(rng, mon, date, iteration)


def window_at(rng, mon, date, iteration):
    reach, threshold = int(rng.randint(0, 5)), int(rng.randint(1, 4))
    target = int(rng.choice([value('day'), value('day'), value('day') | value('prior_window')]))
    with mon.scratch() as folder:
        prior, post = numpy.zeros(SHAPE, int), numpy.zeros(SHAPE, int)
        absent = rng.choice([0.0, 0.3, 1.0])
        for shift in range(-reach - 1, reach + 2):
            f = some_flags(rng, often=[b for b in range(16) if target >> b & 1])
            if shift and rng.uniform() < absent and abs(shift) <= reach:
                mon.count('days absent')
                continue
            write_flags(folder, iteration, date + datetime.timedelta(days=shift), f)
            free = (f & target) != target
            if shift == 0:
                centre = f
            elif 0 < shift <= reach:
                post += free
            elif -reach <= shift < 0:
                prior += free
        expected = centre.astype(int) | numpy.where(prior < threshold, value('prior_window'), 0) | numpy.where(post < threshold, value('post_window'), 0)
        sure = numpy.ones(SHAPE, bool)
        if date.day == 1:
            # results may replace the inputs
            out = folder if rng.randint(2) else os.path.join(folder, 'out')
            error = quiet_operation(lambda: window_check.flagging_operation(date.strftime('%Y-%m-%d'), 0, folder, iteration, out, reach, threshold, numpy.uint16(target)))
            mon.check(os.path.exists(flag_name(out, iteration, date)), lambda: 'no window flags saved: %r' % error)
            got = read_flags(flag_name(out, iteration, date))
            sure = expected != 65535
        else:
            got = window_check.local_window_constraint_checks(folder, os.path.join(folder, 'out'), iteration, date, reach, threshold, numpy.uint16(target))
            judge_flags(mon, read_flags(flag_name(folder, iteration, date)), centre, 'input flags')
        judge_flags(mon, got, expected, 'window flags', sure=sure)
        mon.count('flags set', int((expected != centre).sum()))
        mon.count('flags kept', int((centre != 0).sum()))
        mon.case(('window', reach, threshold, absent, date.month == 1), len(set(expected.ravel()[:500])) > 2)


def years(rng, mon):
    """Constraint counts on a calendar day in other years."""
    date, iteration = a_date(rng), int(rng.randint(10))
    years_at(rng, mon, date, iteration)
    if mon.index % 4 == 0:  # the same day and iteration of other flags
        mon.count('other flags of the same day')
        years_at(rng, mon, date, iteration)


def years_at(rng, mon, date, iteration):
    before, after = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    target = value('day') | value('prior_window') | value('post_window')
    with mon.scratch() as folder:
        prior, post, total = (numpy.zeros(SHAPE, int) for _ in range(3))
        absent = rng.choice([0.0, 0.3, 1.0])
        for year in range(date.year - before - 1, date.year + after + 2):
            try:
                other = date.replace(year=year)
            except ValueError:
                other = datetime.datetime(year, 2, 28)
            f = some_flags(rng)
            f = numpy.where(rng.uniform(size=SHAPE) < 0.6, f | target, f).astype(numpy.uint16)
            f[f == 65535] = 0x7fff
            if year != date.year and rng.uniform() < absent:
                mon.count('days absent')
                continue
            write_flags(folder, iteration, other, f)
            free = (f & target) != target
            if not date.year - before <= year <= date.year + after:
                continue
            total += free
            if year == date.year:
                centre = f
            elif year > date.year:
                post += free
            else:
                prior += free
        expected = centre.astype(int) | numpy.where(prior < 1, value('prior_calendar'), 0) | numpy.where(post < 1, value('post_calendar'), 0) | numpy.where(total < 3, value('missing'), 0)
        unwritable = expected == 65535
        out = os.path.join(folder, 'out')
        if date.day == 1:
            quiet_operation(lambda: calendar_check.flagging_operation(date.strftime('%Y-%m-%d'), 0, folder, iteration, out, date.year - before, date.year + after))
            path = flag_name(out, iteration, date)
            mon.check(os.path.exists(path), 'no calendar flags saved')
            got = read_flags(path)
        else:
            got = calendar_check.calendar_constraint_checks(folder, out, iteration, date, date.year - before, date.year + after, numpy.uint16(target))
        judge_flags(mon, got, expected, 'calendar flags', sure=~unwritable)
        mon.count('flags set', int((expected != centre).sum()))
        mon.count('flags kept', int((centre != 0).sum()))
        mon.case(('years', before, after, absent, date.month == 2 and date.day == 29))


def persistence(rng, mon):
    """Days with outliers around a day."""
    date, iteration = a_date(rng), int(rng.randint(10))
    persistence_at(rng, mon, date, iteration)
    if mon.index % 4 == 0:  # the same day and iteration of other flags
        mon.count('other flags of the same day')
        persistence_at(rng, mon, date, iteration)


def persistence_at(rng, mon, date, iteration):
    reach, threshold = int(rng.randint(0, 4)), int(rng.randint(1, 5))
    kinds = ('areal_low', 'areal_high', 'extreme_low', 'extreme_high')
    with mon.scratch() as folder:
        bad = numpy.zeros(SHAPE, int)
        for shift in range(-reach - 1, reach + 2):
            f = numpy.zeros(SHAPE, numpy.uint16)
            for b in range(16):
                f |= numpy.where(rng.uniform(size=SHAPE) < (rng.choice([0.05, 0.2]) if 7 <= b <= 10 else 0.2), 1 << b, 0).astype(numpy.uint16)
            f[f == 65535] = 0
            if shift and rng.uniform() < 0.2 and abs(shift) <= reach:
                mon.count('days absent')
                continue
            write_flags(folder, iteration, date + datetime.timedelta(days=shift), f)
            if abs(shift) <= reach:
                bad += (f & sum(value(k) for k in kinds)) != 0
            if shift == 0:
                centre = f
        expected = centre.astype(int) | numpy.where(bad >= threshold, value('persistent'), 0)
        if date.day == 1:
            out = folder if rng.randint(2) else os.path.join(folder, 'out')
            error = quiet_operation(lambda: outlier_window_check.flagging_operation(date.strftime('%Y-%m-%d'), 0, folder, iteration, out, reach, threshold))
            mon.check(os.path.exists(flag_name(out, iteration, date)), lambda: 'no persistent outlier flags saved: %r' % error)
            got = read_flags(flag_name(out, iteration, date))
        else:
            got = outlier_window_check.persistant_outlier_check(folder, os.path.join(folder, 'out'), iteration, date, reach, threshold)
        judge_flags(mon, got, expected, 'persistent outlier flags', sure=expected != 65535)
        mon.count('flags set', int((expected != centre).sum()))
        mon.case(('persistence', reach, threshold))


def merging(rng, mon):
    """Two flag files joined; a low areal flag of the second stands for marine."""
    date, iteration = a_month(rng), int(rng.randint(10))
    with mon.scratch() as folder:
        a, b = some_flags(rng), some_flags(rng, often=[7, 12])
        one, two, out = (os.path.join(folder, n) for n in ('one', 'two', 'out'))
        write_flags(one, iteration, date, a)
        write_flags(two, iteration, date, b)
        moved = numpy.where(b & value('areal_low'), (b | value('marine')) & ~numpy.uint16(value('areal_low')), b)
        expected = a.astype(int) | moved.astype(int)
        sure = expected != 65535
        judge_flags(mon, merge_flag_files.merged_flags(one, two, out, iteration, date), expected, 'merged flags', sure=sure)
        quiet_operation(lambda: merge_flag_files.merging_operation(date.strftime('%Y-%m-%d'), 0, iteration, one, two, out))
        mon.check(os.path.exists(flag_name(out, iteration, date)), 'no merged flags saved')
        judge_flags(mon, read_flags(flag_name(out, iteration, date)), expected, 'saved merged flags', sure=sure)
        mon.count('flags kept', int((a != 0).sum()))
        mon.case(('merging', int(a.sum()) % 31))


def thresholds(rng, mon):
    """Smoothed uncertainties and influence against limits, and places of sea."""
    date, iteration = a_month(rng), int(rng.randint(10))
    limits = [float(rng.choice([0.5, 0.25, 0.6, 0.52])) for _ in range(3)]
    coast, edged = coast_field(rng)
    with mon.scratch() as folder:
        fields = {k: dyadic(rng, SHAPE) for k in ('climatology_component', 'large_scale_component', 'analysis')}
        for kind in fields:
            zero = numpy.full(SHAPE, 1.0 if kind == 'analysis' else 0.3, 'f4')
            other = dict(tas=zero + 280, tasuncertainty=zero, tasobservationinfluence=zero)
            other['tasobservationinfluence' if kind == 'analysis' else 'tasuncertainty'] = fields[kind]
            write_fields(analysis_name(folder, iteration, date, kind), date, other)
        out = os.path.join(folder, 'out')
        expected = numpy.where(edged == 100.0, value('marine'), 0)
        sure = numpy.ones(SHAPE, bool)
        for kind, width, limit, flag, sign in (('climatology_component', 13, limits[0], 'climatology', 1), ('large_scale_component', 17, limits[1], 'large_scale', 1), ('analysis', 5, limits[2], 'day', -1)):
            mean = window_sum(fields[kind], width) / width ** 2
            raised = sign * (mean - limit) > 0
            expected |= numpy.where(raised, value(flag), 0)
            p = padded(fields[kind].astype('f8'), width // 2)
            # a mean on the limit is judged only where all of the window has that value
            flat = window_sum(fields[kind] == limit, width) == width ** 2
            sure &= (numpy.abs(mean - limit) > 1e-6) | flat
            mon.count('flags set', int(raised.sum()))
        restore = stub_covariates(mon, coast=coast)
        try:
            error = quiet_operation(lambda: threshold_check.flagging_operation(date.strftime('%Y-%m-%d'), 0, folder, iteration, out, limits[0], limits[1], limits[2]))
        finally:
            restore()
        path = flag_name(out, iteration, date)
        mon.check(os.path.exists(path), lambda: 'no threshold flags saved: %r' % error)
        judge_flags(mon, read_flags(path), expected, 'threshold flags', sure=sure)
        mon.check(sure.mean() > 0.5, 'most cells judged')
        mon.case(('thresholds', tuple(limits)))


def extremes(rng, mon):
    """Temperatures beyond the limits and the cells around."""
    date, iteration = a_date(rng), int(rng.randint(10))
    lower, upper = float(rng.choice([193.15, 200.0])), float(rng.choice([333.15, 320.0]))
    with mon.scratch() as folder:
        tas = rng.uniform(210, 310, SHAPE)
        for limit, sign in ((lower, -1), (upper, 1)):
            rows, columns = rng.randint(0, 720, 300), rng.randint(0, 1440, 300)
            edge = rng.uniform(size=300) < 0.2
            rows = numpy.where(edge, rng.choice([0, 1, 2, 717, 718, 719], 300), rows)
            columns = numpy.where(rng.uniform(size=300) < 0.2, rng.choice([0, 1, 2, 1437, 1438, 1439], 300), columns)
            tas[rows, columns] = limit + sign * rng.choice([0.0, 1e-6, 0.5, 40.0, -0.5], 300)
        write_fields(analysis_name(folder, iteration, date), date, dict(tas=tas, tasuncertainty=tas * 0, tasobservationinfluence=tas * 0))
        expected = numpy.where(spread(tas < lower), value('extreme_low'), 0) | numpy.where(spread(tas > upper), value('extreme_high'), 0)
        got = outlier_check.extremes_checks(folder, os.path.join(folder, 'out'), iteration, date, lower, upper)
        judge_flags(mon, got, expected, 'extreme value flags')
        mon.count('flags set', int((expected != 0).sum()))
        mon.case(('extremes', lower, upper))


def quartiles(image, rows, columns):
    """Quartiles in windows of the given half widths (per row in longitude)."""
    n, m = image.shape
    result = numpy.zeros((3, n, m))
    for i in range(n):
        r = numpy.arange(i - rows, i + rows + 1)
        r = numpy.abs(r)
        r = numpy.where(r >= n, 2 * (n - 1) - r, r)
        band = image[r]
        for j in range(m):
            c = numpy.arange(j - columns[i], j + columns[i] + 1) % m
            result[:, i, j] = numpy.percentile(band[:, c], [25, 50, 75])
    return result


def statistics(rng, mon):
    """Running means and quartiles over windows."""
    shape = (int(rng.randint(6, 40)), int(rng.randint(6, 40)))
    image = rng.normal(0, 1, shape)
    height, width = (2 * int(rng.randint(0, 3)) + 1 for _ in range(2))
    got = outlier_check.compute_window_mean(image.copy(), height, width)
    p = image[numpy.array([abs(r) if r < shape[0] else 2 * (shape[0] - 1) - r for r in range(-(height // 2), shape[0] + height // 2)])]
    p = p[:, numpy.arange(-(width // 2), shape[1] + width // 2) % shape[1]]
    expected = numpy.array([[p[i:i + height, j:j + width].mean() for j in range(shape[1])] for i in range(shape[0])])
    mon.close(got, expected, 'running mean', rtol=1e-9, atol=1e-9)
    got = outlier_check.compute_window_median_quartiles(image.copy(), height, width)
    for k, q in enumerate((25, 50, 75)):
        expected = numpy.array([[numpy.percentile(p[i:i + height, j:j + width], q) for j in range(shape[1])] for i in range(shape[0])])
        mon.close(got[k], expected, 'running percentile %d' % q, rtol=1e-9, atol=1e-9)
    mon.count('windows')
    mon.case(('statistics', shape[0] % 10 == 0, shape[1] % 10 == 0, shape[0] < 10, height, width))


def block_windows(latitudes, longitudes, reach, most_rows, most_columns, block):
    """Half widths of windows: the reach in cells, at the middle of each block of rows."""
    rows = min(int(numpy.ceil(numpy.rad2deg(reach / 6371.0) / (latitudes[1] - latitudes[0]))), most_rows)
    columns = []
    for start in range(0, len(latitudes), block):
        part = latitudes[start:start + block]
        c = int(numpy.ceil(numpy.rad2deg(reach / (6371.0 * numpy.cos(numpy.deg2rad(part.mean())))) / (longitudes[1] - longitudes[0])))
        columns += [min(c, most_columns)] * len(part)
    return rows, columns


def regional(rng, mon):
    """Quartiles within a distance."""
    n = int(rng.randint(20, 50))
    m = int(rng.choice([36, 40, 72]))
    latitudes = -90 + (numpy.arange(n) + 0.5) * 180.0 / n
    longitudes = -180 + (numpy.arange(m) + 0.5) * 360.0 / m
    data = rng.normal(0, 1, (n, m))
    block = int(rng.choice([5, 10, 20, 7]))
    reach, most = float(rng.uniform(300, 2000)), int(rng.randint(2, 5))
    most_columns = int(rng.randint(2, 8))
    rows, columns = block_windows(latitudes, longitudes, reach, most, most_columns, block)
    got = outlier_check.block_iqr_by_range(latitudes, longitudes, data.copy(), reach, max_latitude_cell_range=most, max_longitude_cell_range=most_columns, latitude_block_size=block)
    expected = quartiles(data, rows, columns)
    for k, q in enumerate((25, 50, 75)):
        mon.close(got[k], expected[k], 'regional percentile %d' % q, rtol=1e-9, atol=1e-9)
    mon.count('windows')
    mon.case(('regional', n % block == 0, rows, max(columns), block))


def areal(rng, mon):
    """Outliers with respect to their region, after removal of altitude."""
    n, m = 40, 80
    latitudes = (-90 + (numpy.arange(n) + 0.5) * 4.5).astype('f4')
    longitudes = (-180 + (numpy.arange(m) + 0.5) * 4.5).astype('f4')
    date, iteration, limit = a_date(rng), int(rng.randint(10)), float(rng.choice([2.0, 4.0]))
    dem = numpy.where(rng.uniform(size=(n, m)) < 0.5, 0.0, rng.uniform(0, 5000, (n, m)))
    base = 300 - 60 * numpy.abs(latitudes[:, None].astype('f8')) / 90 + rng.normal(0, 1, (n, m))
    tas = base - 4.5 * dem * 0.001
    rows, columns = rng.randint(0, n, 60), rng.randint(0, m, 60)
    tas[rows, columns] += rng.choice([-40.0, 40.0, -5.0, 8.0], 60)
    with mon.scratch() as folder:
        write_fields(analysis_name(folder, iteration, date), date, dict(tas=tas, tasuncertainty=tas * 0, tasobservationinfluence=tas * 0), latitudes, longitudes)
        level = tas + 4.5 * dem * 0.001
        reach_rows, reach_columns = block_windows(latitudes.astype('f8'), longitudes.astype('f8'), 750.0, 50, 50, 20)
        low, middle, high = quartiles(level, reach_rows, reach_columns)
        floor, ceiling = low - limit * (middle - low), high + limit * (high - middle)
        expected = numpy.where(spread(level < floor), value('areal_low'), 0) | numpy.where(spread(level > ceiling), value('areal_high'), 0)
        doubt = spread((numpy.abs(level - floor) < 1e-8) | (numpy.abs(level - ceiling) < 1e-8))
        restore = [stub_covariates(mon, dem=dem), stand.swap_shape((n, m))]
        try:
            got = outlier_check.areal_checks(folder, os.path.join(folder, 'out'), iteration, date, limit)
        finally:
            for undo in restore:
                undo()
        judge_flags(mon, got, expected, 'areal flags', sure=~doubt)
        mon.count('flags set', int((expected != 0).sum()))
        mon.count('areal')
        mon.case(('areal', limit), expected.any())


def percentiles(rng, mon):
    """Quartiles of a calendar day over years, and departures from them."""
    iteration = int(rng.randint(10))
    start = int(rng.randint(1880, 2010))
    number = int(rng.choice([1, 3, 4]))
    day = int(rng.choice([59, 0, 365, rng.randint(366)]))           # within a leap year
    reference = datetime.datetime(2000, 1, 1) + datetime.timedelta(days=day)
    spreads = rng.choice([0.0, 1.0, 2.0], size=SHAPE)
    with mon.scratch() as folder:
        values = []
        for year in range(start, start + number):
            try:
                date = reference.replace(year=year)
            except ValueError:
                date = datetime.datetime(year, 2, 28)
            tas = 280.0 + spreads * rng.randint(-32, 33, SHAPE) / 32.0
            if rng.uniform() < 0.5 and year == start:
                tas += numpy.where(rng.uniform(size=SHAPE) < 0.1, 1.0, 0.0)
            values.append(tas)
            write_fields(analysis_name(folder, iteration, date), date, dict(tas=tas, tasuncertainty=tas * 0, tasobservationinfluence=tas * 0))
        out = os.path.join(folder, 'percentiles')
        cell_percentile_calculation.cell_percentile_calculation(folder, out, iteration, start, start + number - 1, day)
        path = os.path.join(out, 'eustace_analysis_%d_percentiles_%02d%02d.npz' % (iteration, reference.month, reference.day))
        mon.check(os.path.exists(path), 'no percentiles for the calendar day')
        quartile = numpy.percentile(numpy.array(values), [25, 50, 75], axis=0)
        saved = numpy.load(path)
        for k, name in enumerate(('lower_quartile_block', 'median_block', 'upper_quartile_block')):
            mon.close(saved[name], quartile[k], name, rtol=1e-12)
        # another year of that day
        year = int(rng.choice([1896, 1996, 2000, 2004]))
        date = reference.replace(year=year)
        low, middle, high = quartile
        tas = middle + rng.choice([0.0, 1.0, -1.0, 7.9, 8.0, 8.1, -7.9, -8.0, -8.1], size=SHAPE) * numpy.where(rng.uniform(size=SHAPE) < 0.5, middle - low, high - middle)
        write_fields(analysis_name(os.path.join(folder, 'other'), iteration, date), date, dict(tas=tas, tasuncertainty=tas * 0, tasobservationinfluence=tas * 0))
        got = cell_percentile_threshold.location_threshold_checks(os.path.join(folder, 'other'), out, os.path.join(folder, 'out'), iteration, date)
        floor, ceiling = middle - 8.0 * (middle - low), middle + 8.0 * (high - middle)
        expected = numpy.where(tas < floor, value('location_low'), 0) | numpy.where(tas > ceiling, value('location_high'), 0)
        exact = (tas == middle) & ((floor == middle) | (ceiling == middle))
        doubt = ((numpy.abs(tas - floor) < 1e-9) | (numpy.abs(tas - ceiling) < 1e-9)) & ~exact
        judge_flags(mon, got, expected, 'location flags', sure=~doubt)
        mon.count('flags set', int((expected != 0).sum()))
        mon.case(('percentiles', number, day == 59, year))


def percentile_months(rng, mon):
    """Percentiles of every calendar day of a month."""
    iteration, month = int(rng.randint(10)), int(rng.choice([2, 12, rng.randint(1, 13)]))
    start = int(rng.randint(1880, 2010))
    number = int(rng.randint(1, 4))
    latitudes, longitudes = numpy.array([-45.0, 0.0, 45.0]), numpy.array([-90.0, 0.0, 90.0, 179.0])
    with mon.scratch() as folder:
        days = calendar.monthrange(2000, month)[1]
        values = {}
        for year in range(start, start + number):
            for day in range(1, calendar.monthrange(year, month)[1] + 1):
                date = datetime.datetime(year, month, day)
                values[year, day] = 280 + rng.normal(0, 5, (3, 4))
                tas = values[year, day]
                write_fields(analysis_name(folder, iteration, date), date, dict(tas=tas, tasuncertainty=tas * 0, tasobservationinfluence=tas * 0), latitudes, longitudes)
            values.setdefault((year, days), values[year, calendar.monthrange(year, month)[1]])
        out = os.path.join(folder, 'percentiles')
        cell_percentile_calculation.cell_percentile_calculation_month(folder, out, iteration, start, start + number - 1, month)
        mon.equal(sorted(os.listdir(out)), sorted('eustace_analysis_%d_percentiles_%02d%02d.npz' % (iteration, month, d) for d in range(1, days + 1)), 'files of percentiles')
        for day in range(1, days + 1):
            saved = numpy.load(os.path.join(out, 'eustace_analysis_%d_percentiles_%02d%02d.npz' % (iteration, month, day)))
            quartile = numpy.percentile(numpy.array([values[y, day] for y in range(start, start + number)]), [25, 50, 75], axis=0)
            for k, name in enumerate(('lower_quartile_block', 'median_block', 'upper_quartile_block')):
                mon.close(saved[name], quartile[k], '%s of day %d' % (name, day), rtol=1e-12)
        mon.case(('percentile months', month, number))


def months(rng, mon):
    """Operations cover every day of their month, once."""
    start = int(rng.randint(1850, 2015))
    end = start + int(rng.randint(0, 4))
    mon.equal(operation_count.operation_count(start, end), 12 * (end - start + 1), 'number of monthly operations')
    seen = []
    for index in range(12 * (end - start + 1)):
        dates = operation_count.operation_dates(datetime.datetime(start, 1, 1), index)
        year, month = start + index // 12, index % 12 + 1
        expected = [datetime.datetime(year, month, d + 1) for d in range(calendar.monthrange(year, month)[1])]
        mon.equal(list(dates), expected, 'days of operation %d from %d' % (index, start), event='months')
        seen += dates
    total = (datetime.datetime(end + 1, 1, 1) - datetime.datetime(start, 1, 1)).days
    mon.equal(len(set(seen)), total, 'days of all operations')
    mon.case(('months', start % 4 == 0, end - start))


SMALL = (24, 48)


def run_program(module, arguments):
    """Run a program of the package with these arguments."""
    kept = sys.argv
    sys.argv = ['program'] + [str(part) for name in arguments for part in ('--' + name, arguments[name])]
    try:
        module.main()
    finally:
        sys.argv = kept


def small_field(rng, limit):
    f = rng.randint(0, 65, SMALL) / 64.0
    f[:, :SMALL[1] // 2] = f[:, :SMALL[1] // 2] * 0.25 + limit * 0.75
    if rng.randint(2):
        f = f[::-1, ::-1].copy()
    return f


def program(rng, mon):
    """A program over all days of a month on a small grid, with given or default options, from flags and analyses of its own directories."""
    kind = ('window', 'calendar', 'persistence', 'merging', 'threshold', 'location', 'outlier', 'masking')[mon.index % 8]
    iteration = int(rng.choice([4, 9])) if kind == 'masking' else int(rng.randint(12))
    year, month = int(rng.choice([2012, 2013, rng.randint(1881, 2014)])), int(rng.choice([1, 2, 12, rng.randint(1, 13)]))
    if kind == 'masking' and mon.index % 16 == 7:
        year = int(rng.choice([2012, rng.randint(1881, 2012)]))
    back = int(rng.randint(0, 30))
    reference = datetime.datetime(year, month, 1)
    for _ in range(back):
        reference = (reference - datetime.timedelta(days=1)).replace(day=1)
    days = [datetime.datetime(year, month, d + 1) for d in range(calendar.monthrange(year, month)[1])]
    options = {'reference_time_string': reference.strftime('%Y-%m-%d'), 'operation_index': back, 'iteration': iteration}
    if iteration == 9 and rng.randint(2):
        del options['iteration']
    latitudes = (-90 + (numpy.arange(SMALL[0]) + 0.5) * 180.0 / SMALL[0]).astype('f4')
    longitudes = (-180 + (numpy.arange(SMALL[1]) + 0.5) * 360.0 / SMALL[1]).astype('f4')
    restore = [stand.swap_shape(SMALL)]
    expected, sure = {}, {}
    coast = rng.choice([0.0, 50.0, 95.0, 95.1, 100.0], size=SMALL)
    edged = coast.copy()
    edged[0], edged[-1] = 0.0, 100.0
    edged[:, 0], edged[:, -1] = edged[:, 1], edged[:, -2]
    dem = numpy.where(rng.uniform(size=SMALL) < 0.5, 0.0, rng.uniform(0, 5000, SMALL))
    try:
        with mon.scratch() as folder:
            source, other, out = (os.path.join(folder, n) for n in ('Source', 'other', 'out'))
            held = {}

            def hold(directory, date, often=()):
                f = some_flags(rng, SMALL, often)
                write_flags(directory, iteration, date, f)
                return f

            def hold_fields(date, fields, kind='analysis'):
                full = dict(tas=numpy.full(SMALL, 280.0), tasuncertainty=numpy.full(SMALL, 0.3), tasobservationinfluence=numpy.full(SMALL, 0.7))
                full.update(fields)
                write_fields(analysis_name(source, iteration, date, kind), date, full, latitudes, longitudes)
                return full

            restore.append(stub_covariates(mon, coast=coast, dem=dem))
            if kind in ('window', 'persistence'):
                module = {'window': window_check, 'persistence': outlier_window_check}[kind]
                reach, threshold = {'window': (15, 5), 'persistence': (10, 7)}[kind]
                options.update(input_directory=source, output_directory=source if rng.randint(2) else out)
                if rng.randint(4):
                    reach, threshold = int(rng.randint(0, 5)), int(rng.randint(0, 4))
                    options.update(window_range=reach, count_threshold=threshold)
                for shift in range(-reach - 1, len(days) + reach + 1):
                    date = days[0] + datetime.timedelta(days=shift)
                    if 0 <= shift < len(days) or rng.uniform() < 0.8:
                        held[date] = hold(source, date, often=[0] if kind == 'window' else [])
                for date in days:
                    near = [(k, held.get(date + datetime.timedelta(days=k))) for k in range(-reach, reach + 1)]
                    if kind == 'window':
                        before, after = (sum(((f & 1) == 0).astype(int) for k, f in near if f is not None and k * sign > 0) + numpy.zeros(SMALL, int) for sign in (-1, 1))
                        expected[date] = held[date].astype(int) | numpy.where(before < threshold, value('prior_window'), 0) | numpy.where(after < threshold, value('post_window'), 0)
                    else:
                        bad = sum(((f & 0x780) != 0).astype(int) for k, f in near if f is not None)
                        expected[date] = held[date].astype(int) | numpy.where(bad >= threshold, value('persistent'), 0)
            elif kind == 'calendar':
                module = calendar_check
                start, end = year - int(rng.randint(0, 4)), year + int(rng.randint(0, 4))
                options.update(input_directory=source, output_directory=source if rng.randint(2) else out, start_year=start, end_year=end)
                for y in range(start - 1, end + 2):
                    for d in range(calendar.monthrange(y, month)[1]):
                        if y == year or rng.uniform() < 0.8:
                            held[y, d + 1] = hold(source, datetime.datetime(y, month, d + 1), often=[0, 1, 2])
                for date in days:
                    free = [(y, held.get((y, min(date.day, calendar.monthrange(y, month)[1])))) for y in range(start, end + 1)]
                    free = [(y, ((f & 7) != 7).astype(int)) for y, f in free if f is not None]
                    prior, post, total = (sum([c for y, c in free if test(y)], numpy.zeros(SMALL, int)) for test in (lambda y: y < year, lambda y: y > year, lambda y: True))
                    expected[date] = held[year, date.day].astype(int) | numpy.where(prior < 1, value('prior_calendar'), 0) | numpy.where(post < 1, value('post_calendar'), 0) | numpy.where(total < 3, value('missing'), 0)
            elif kind == 'merging':
                module = merge_flag_files
                options.update(input_directory_1=source, input_directory_2=other, output_directory=[out, source][rng.randint(2)])
                for date in days:
                    a, b = hold(source, date), hold(other, date, often=[7, 12])
                    expected[date] = a.astype(int) | numpy.where(b & value('areal_low'), (b | value('marine')) & ~numpy.uint16(value('areal_low')), b).astype(int)
            elif kind == 'threshold':
                module = threshold_check
                limits = [0.5, 0.5, 0.6]
                options.update(analysis_directory=source, output_directory=out)
                if rng.randint(2):
                    limits = [float(rng.choice([0.25, 0.375, 0.75])) for _ in range(3)]
                    options.update(climatology_limit=limits[0], largescale_limit=limits[1], constraint_threshold=limits[2])
                for date in days:
                    expected[date], sure[date] = numpy.where(edged == 100.0, value('marine'), 0), numpy.ones(SMALL, bool)
                    for part, width, limit, flag, sign in (('climatology_component', 13, limits[0], 'climatology', 1), ('large_scale_component', 17, limits[1], 'large_scale', 1), ('analysis', 5, limits[2], 'day', -1)):
                        f = small_field(rng, limit)
                        hold_fields(date, {'tasobservationinfluence' if part == 'analysis' else 'tasuncertainty': f}, part)
                        mean = window_sum(f, width) / width ** 2
                        expected[date] |= numpy.where(sign * (mean - limit) > 0, value(flag), 0)
                        sure[date] &= numpy.abs(mean - limit) > 1e-6
            elif kind == 'location':
                module = cell_percentile_threshold
                options.update(analysis_directory=source, output_directory=out, percentile_directory=other)
                os.makedirs(other)
                for date in days:
                    low, high = rng.uniform(0.1, 3, SMALL), rng.uniform(0.1, 3, SMALL)
                    middle = rng.uniform(250, 300, SMALL)
                    numpy.savez(os.path.join(other, 'eustace_analysis_%d_percentiles_%02d%02d' % (iteration, date.month, date.day)), lower_quartile_block=middle - low, median_block=middle, upper_quartile_block=middle + high)
                    t = middle + rng.choice([0.0, 1.0, 4.0, 7.8, 8.2, 30.0], size=SMALL) * numpy.where(rng.uniform(size=SMALL) < 0.5, -low, high)
                    hold_fields(date, {'tas': t})
                    expected[date] = numpy.where(t < middle - 8 * low, value('location_low'), 0) | numpy.where(t > middle + 8 * high, value('location_high'), 0)
            elif kind == 'outlier':
                module = outlier_check
                options.update(analysis_directory=source, output_directory=out)
                rows, columns = block_windows(latitudes.astype('f8'), longitudes.astype('f8'), 750.0, 50, 50, 20)
                for date in days:
                    t = 300 - 60 * numpy.abs(latitudes[:, None].astype('f8')) / 90 + rng.normal(0, 1, SMALL) - 4.5 * dem * 0.001
                    n = int(rng.randint(0, 12))
                    t[rng.randint(0, SMALL[0], n), rng.randint(0, SMALL[1], n)] += rng.choice([-40.0, 40.0, -120.0, 120.0, 8.0], n)
                    hold_fields(date, {'tas': t})
                    level = t + 4.5 * dem * 0.001
                    low, middle, high = quartiles(level, rows, columns)
                    floor, ceiling = low - 4.0 * (middle - low), high + 4.0 * (high - middle)
                    expected[date] = numpy.zeros(SMALL, int)
                    for condition, flag in ((level < floor, 'areal_low'), (level > ceiling, 'areal_high'), (t < 193.15, 'extreme_low'), (t > 333.15, 'extreme_high')):
                        expected[date] |= numpy.where(spread(condition), value(flag), 0)
                    sure[date] = ~spread((numpy.abs(level - floor) < 1e-8) | (numpy.abs(level - ceiling) < 1e-8))
            else:
                module = apply_mask
                options.update(analysis_directory=source, flag_directory=other, flag_directory2=os.path.join(folder, 'more'), output_directory=out)
                for date in days:
                    both = numpy.zeros(SMALL, numpy.uint16)
                    for directory in (other, options['flag_directory2']):
                        f = numpy.where(rng.uniform(size=SMALL) < 0.6, 0, 1 << rng.randint(0, 16, SMALL)).astype(numpy.uint16)
                        write_flags(directory, iteration, date, f)
                        both |= f
                    both = (both & ~numpy.uint16(value('marine'))) | numpy.where(edged > 95.0, value('marine'), 0).astype(numpy.uint16)
                    expected[date] = standard_mask(both, year)
                    for part in ('analysis', 'climatology_component', 'large_scale_component', 'local_component'):
                        base = {'analysis': 280.0, 'climatology_component': 285.0}.get(part, 0.0)
                        fields = dict(tas=base + rng.uniform(-30, 30, SMALL), tasuncertainty=rng.uniform(0, 5, SMALL), tasobservationinfluence=rng.uniform(0, 0.99, SMALL))
                        if part == 'analysis':
                            fields['tasensemble_0'], fields['tasensemble_1'] = fields['tas'] + 1, fields['tas'] - 1
                        held[date, part] = hold_fields(date, fields, part)
                try:  # a month after 2012 whose files are absent, first
                    run_program(module, dict(options, reference_time_string='2014-02-01', operation_index=0, output_directory=os.path.join(folder, 'absent')))
                except Exception:
                    pass
            run_program(module, options)
            if kind == 'masking':
                version, run = {4: ('R001400', '20190326'), 9: ('R001413', '20190405')}[iteration]
                for (date, part), fields in held.items():
                    stamp, name = date.strftime('%Y%m%d'), 'eustace_%s_%d' % (part, iteration)
                    path = os.path.join(out, name, '%04d' % year, '%s_masked_%s.nc' % (name, stamp))
                    if part == 'analysis':
                        path = os.path.join(out, version, run, 'global', '%04d' % year, 'tas_global_eustace_0_%s.nc' % stamp)
                    mon.check(os.path.exists(path), lambda: 'no masked %s for %s' % (part, stamp))
                    with netCDF4.Dataset(path) as nc:
                        mon.equal(int(nc.variables['time'][0]), (date - datetime.datetime(1850, 1, 1)).days, 'day of the masked file')
                        for field, values in fields.items():
                            got = numpy.ma.squeeze(nc.variables['tas_perturbation' if field == 'tas' and part in ('large_scale_component', 'local_component') else field][:])
                            mon.same(numpy.ma.getmaskarray(got), expected[date], 'masked cells of %s of %s on %s' % (field, part, stamp))
                            mon.close(numpy.ma.getdata(got)[~expected[date]], values[~expected[date]], 'values of %s of %s on %s' % (field, part, stamp), rtol=0, atol=0.0026)
            else:
                where = options['output_directory']
                for date in days:
                    path = flag_name(where, iteration, date)
                    mon.check(os.path.exists(path), lambda: 'no flags for %s' % date)
                    with netCDF4.Dataset(path) as nc:
                        mon.equal(int(nc.variables['time'][0]), (date - datetime.datetime(1850, 1, 1)).days, 'day of the flag file')
                    judge_flags(mon, read_flags(path), expected[date], '%s flags of %s' % (kind, date.strftime('%Y%m%d')), sure=sure.get(date, expected[date] != 65535))
                if where == out:
                    mon.equal(sorted(n for d, _, names in os.walk(out) for n in names), sorted(os.path.basename(flag_name(out, iteration, d)) for d in days), 'files of the month')
                if kind in ('window', 'persistence') and where != source:
                    for date in held:
                        judge_flags(mon, read_flags(flag_name(source, iteration, date)), held[date], 'flags read by the program')
            mon.count('days of programs', len(days))
    finally:
        for undo in reversed(restore):
            undo()
    mon.count('programs ' + kind)
    mon.case(('program', kind, month, back > 0, len(options)))


PYTHON = """#!/bin/bash
case "$2" in
  *operation_count) exec %(python)s "$@" ;;
  *) printf '%%s\\0' "$@" > "$VERIF_COMMAND" ;;
esac
"""
BSUB = """#!/bin/bash
printf '%%s\\0' "$@" > %(folder)s/arguments
env -0 > %(folder)s/environment
cat > %(folder)s/script
echo "Job <%(id)d> is submitted to queue <short-serial>."
"""
SUBMISSIONS = {'submit_cell_percentile_calculation.sh': cell_percentile_calculation, 'submit_location_flags.sh': cell_percentile_threshold, 'submit_mask_apply.sh': apply_mask,
               'submit_masking_calendar.sh': calendar_check, 'submit_masking_window.sh': window_check, 'submit_merge_flag_files.sh': merge_flag_files,
               'submit_outlier_flagging.sh': outlier_check, 'submit_outlier_window.sh': outlier_window_check, 'submit_threshold_flags.sh': threshold_check}


class Understood(Exception):
    pass


def understood(module, arguments):
    """What a program makes of its arguments."""
    kept, parse = sys.argv, argparse.ArgumentParser.parse_args

    def stop(self, *args, **kwargs):
        raise Understood(vars(parse(self, *args, **kwargs)))

    sys.argv = ['program'] + arguments
    argparse.ArgumentParser.parse_args = stop
    try:
        module.main()
    except Understood as found:
        return found.args[0]
    except SystemExit:
        return None
    finally:
        sys.argv, argparse.ArgumentParser.parse_args = kept, parse


def submitted(rng, mon):
    """The jobs submitted for a range of years carry out every month of it, once, with arguments the programs know."""
    name = sorted(SUBMISSIONS)[mon.index % len(SUBMISSIONS)]
    module = SUBMISSIONS[name]
    package = os.path.dirname(os.path.abspath(flags.__file__))
    start = int(rng.randint(1850, 2013))
    end = start + int(rng.randint(0, 3))
    waits = str(rng.choice(['', 'done(12) && done(13)']))
    with mon.scratch() as folder:
        number = int(rng.randint(1, 10 ** 7))
        for tool, text in (('python', PYTHON % dict(python=sys.executable)), ('bsub', BSUB % dict(folder=folder, id=number))):
            with open(os.path.join(folder, tool), 'w') as stream:
                stream.write(text)
            os.chmod(os.path.join(folder, tool), 0o755)
        environment = dict(os.environ, PATH=folder + ':' + os.environ['PATH'], VERIF_COMMAND=os.path.join(folder, 'command'))
        environment['PYTHONPATH'] = package + ':' + os.pathsep.join(p for p in sys.path if p)
        ran = subprocess.run(['bash', os.path.join(package, 'lsf', name), str(start), str(end), waits], cwd=package, env=environment, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        mon.check(os.path.exists(os.path.join(folder, 'script')), '%s submits nothing: %s' % (name, ran.stderr[-300:]))
        if not os.path.exists(os.path.join(folder, 'script')):
            return
        mon.check('done(%d)' % number in ran.stdout, '%s does not say what ends when it has ended' % name)
        read = lambda kind: open(os.path.join(folder, kind), 'rb').read().decode().split('\0')[:-1]
        arguments, environment = read('arguments'), dict(e.split('=', 1) for e in read('environment') if '=' in e)
        mon.equal(arguments[arguments.index('-w') + 1] if '-w' in arguments else '', waits, 'what the jobs of %s wait for' % name)
        first, last = (int(k) for k in re.match(r'.*\[(\d+)-(\d+)\]$', arguments[arguments.index('-J') + 1]).groups())
        environment['LOGDIR'] = os.path.join(folder, 'logs')
        months = []
        for job in range(first, last + 1):
            environment['LSB_JOBINDEX'] = str(job)
            if os.path.exists(environment['VERIF_COMMAND']):
                os.remove(environment['VERIF_COMMAND'])
            subprocess.run(['bash', os.path.join(folder, 'script')], cwd=folder, env=environment, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            known = os.path.exists(environment['VERIF_COMMAND'])
            command = read('command') if known else []
            mon.equal(command[:2], ['-m', module.__name__], 'program of a job of ' + name)
            options = understood(module, command[2:]) if known else None
            mon.check(options is not None, '%s does not know the arguments %s' % (module.__name__, command[2:]))
            if options is None:
                return
            for key in sorted(options):
                for variable in (('SEARCH_' + key.upper(), key.upper()) if key != 'output_directory' else ('OUTPUT_DIRECTORY',)):
                    if variable in environment and key not in ('operation_index', 'month_number'):
                        mon.equal(type(options[key])(environment[variable]), options[key], '%s of a job of %s' % (key, name))
                        break
            if 'month_number' in options:
                months.append(options['month_number'])
            else:
                months += sorted(set((d.year, d.month) for d in operation_count.operation_dates(dateutil.parser.parse(options['reference_time_string']), options['operation_index'])))
        expected = range(1, 13) if module is cell_percentile_calculation else [(y, m) for y in range(start, end + 1) for m in range(1, 13)]
        mon.equal(sorted(months), list(expected), 'months of the jobs of ' + name)
        mon.count('months submitted', len(months))
        mon.case(('submitted', name, end - start))


SCENARIOS = [(saving, 4, 24), (mask_arithmetic, 120, 600), (masking, 6, 48), (window, 16, 112), (years, 16, 112), (persistence, 12, 96), (merging, 4, 24),
             (thresholds, 6, 48), (extremes, 6, 48), (statistics, 16, 96), (regional, 16, 96), (areal, 8, 48), (percentiles, 6, 48), (percentile_months, 4, 24), (months, 24, 96), (program, 24, 240), (submitted, 9, 54)]
