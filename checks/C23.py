"""Air temperatures over ice."""

import datetime
import os
import sys
import warnings

import netCDF4
import numpy
import scipy.io

from eustace.surfaceairmodel import run_ice
from eustace.surfaceairmodel.fileio.ice import IceSurfaceTemperatureQualityControlNetCDF
from eustace.surfaceairmodel.model_ice import ModelIce
from eustace.surfaceairmodel.model_ice_input_processing import IceSurfaceTemperatureQualityControl

warnings.filterwarnings('ignore')

NEEDS = {'extension': True}
RULE = """Fields of satellite ice temperatures with any pattern of missing values, counts, ice fractions and land types, values on either side of (and on) each
threshold, and cold outliers next to any number of valid neighbours go through quality control and the model for either hemisphere, the two hemispheres
together, and from NetCDF and parameter files to the product files. Every cell of the 21 fields is compared with the regression and the tests written anew:
present or not, and value. Fields that do not fit together must be refused. Non-trivial: cells present, and cells removed by different tests."""
REQUIRED = {'cells present': 8000, 'compared': 100000, 'land ice': 3000, 'sea ice': 3000, 'removed: spread': 500, 'removed: warm': 500, 'removed: not observed': 3000,
            'removed: bins': 500, 'removed: cloud': 300, 'no uncertainty': 300, 'global fields': 30, 'refused': 100, 'files': 1, 'parameter files': 20,
            'on threshold': 300, 'kept: border': 20, 'unmasked fields': 20, 'several inputs': 20}
ASSUMPTIONS = ['Fields have at least five rows and columns', 'The land type is known everywhere', 'Latitudes are equally spaced in double precision',
               'A minimum far from the night time mean is kept, as the published logic does']
FIELDS = ['surface_temperature', 'surface_temperature_min', 'surface_temperature_max', 'surface_temperature_std', 'surface_temperature_3d', 'Nobs3d',
          'land_mask', 'sea_ice_fraction', 'uncorrelated_uncertainty', 'synoptically_correlated_uncertainty', 'large_scale_correlated_uncertainty']
NIGHT, DAY = [0, 1, 6, 7], [2, 3, 4, 5]
SAMPLING = {('nh', 'LandIce'): (1.6, 2.2, 2.1), ('nh', 'SeaIce'): (0.0, 2.9, 2.0), ('sh', 'LandIce'): (1.6, 1.5, 3.8), ('sh', 'SeaIce'): (1.7, 5.7, 2.9)}
RELATION = {'LandIce': (1.5, 1.8, 2.0), 'SeaIce': (1.7, 1.8, 2.1)}
NAMES = ['tas', 'tasmin', 'tasmax']


class Missing(object):
    """Values with a table of what is known."""

    def __init__(self, values, missing):
        self.values, self.known = numpy.asarray(values), ~missing

    def array(self, rng, mon):
        hidden = numpy.where(self.known, self.values, self.values.dtype.type(rng.choice([-9999, 0, 300, 5])))
        if self.known.all() and rng.randint(2):
            mon.count('unmasked fields')
            return numpy.ma.masked_array(hidden)
        return numpy.ma.masked_array(hidden, mask=~self.known)


def pattern(rng, shape, kind=None):
    kind = rng.randint(6) if kind is None else kind
    if kind == 0:
        return numpy.zeros(shape, bool)
    if kind == 1 and rng.randint(4) == 0:
        return numpy.ones(shape, bool)
    if kind == 2:
        rows = rng.uniform(size=shape[-2:]) < 0.3
        return numpy.broadcast_to(rows, shape).copy()
    return rng.uniform(size=shape) < rng.choice([0.02, 0.1, 0.3])


def some_fields(rng, rows, columns, mon):
    shape = (rows, columns)
    table = {}
    base = rng.uniform(230, 272) + rng.normal(0, rng.choice([0.5, 3.0, 6.0]), shape)
    cold = rng.uniform(size=shape) < rng.choice([0.0, 0.05, 0.2])
    base -= cold * rng.uniform(5, 30, shape)
    warm = rng.uniform(size=shape) < 0.05
    base[warm] = rng.choice([278.15, 278.1500001, 278.1499, 285.0], int(warm.sum()))
    mon.count('on threshold', int((base == 278.15).sum()))
    table['surface_temperature'] = Missing(base, pattern(rng, shape))
    table['surface_temperature_min'] = Missing(base - rng.uniform(0, 15, shape), pattern(rng, shape))
    table['surface_temperature_max'] = Missing(base + rng.uniform(0, 15, shape), pattern(rng, shape))
    spread = rng.uniform(0, 7, shape)
    wide = rng.uniform(size=shape) < 0.08
    spread[wide] = rng.choice([7.07, 7.0700001, 7.069, 9.0], int(wide.sum()))
    mon.count('on threshold', int((spread == 7.07).sum()))
    table['surface_temperature_std'] = Missing(spread, pattern(rng, shape))
    bins = base + rng.normal(0, rng.choice([1.0, 5.0, 10.0]), (8,) + shape) + numpy.where(rng.uniform(size=shape) < 0.05, 1, 0) * rng.choice([-1, 1]) * rng.uniform(5, 50, shape)
    table['surface_temperature_3d'] = Missing(bins, pattern(rng, (8,) + shape))
    counts = (rng.poisson(rng.choice([0.3, 1.0, 5.0, 5.0]), (8,) + shape) * rng.choice([1, 1, 1, 64, 128, 256, 300])).astype(rng.choice(['i4', 'i2', 'i8']))
    table['Nobs3d'] = Missing(counts, pattern(rng, (8,) + shape))
    blocks = rng.choice([0, 1, 2, 3, 4, 8], size=((rows + 3) // 4, (columns + 3) // 4), p=rng.dirichlet(numpy.ones(6)))
    land = numpy.kron(blocks, numpy.ones((4, 4), int))[:rows, :columns] if rng.randint(2) else rng.choice([0, 1, 2, 3, 4, 8], size=shape)
    table['land_mask'] = Missing(land.astype(rng.choice(['i4', 'i1'])), numpy.zeros(shape, bool))
    ice = rng.uniform(0, 1, shape)
    edge = rng.uniform(size=shape) < 0.1
    ice[edge] = rng.choice([0.3, 0.2999999, 0.0, 1.0, 0.85], int(edge.sum()))
    mon.count('on threshold', int((ice == 0.3).sum()))
    table['sea_ice_fraction'] = Missing(ice, pattern(rng, shape))
    for name in FIELDS[8:]:
        table[name] = Missing(rng.uniform(0.01, 3, shape), pattern(rng, shape, int(rng.choice([0, 0, 2, 4]))))
    return table


def known_mean(values, known):
    count = known.sum(0)
    return numpy.where(known, values, 0.0).sum(0) / numpy.maximum(count, 1), count > 0


def cloudy(values, valid):
    """Valid cells more than ten below the mean of two or more valid others at most two rows and columns away, in windows within the field."""
    rows, columns = values.shape
    total, count = numpy.zeros((rows, columns)), numpy.zeros((rows, columns), int)
    shown = numpy.where(valid, values, 0.0)
    for dy in range(-2, 3):
        for dx in range(-2, 3):
            if dy or dx:
                total[2:-2, 2:-2] += shown[2 + dy:rows - 2 + dy, 2 + dx:columns - 2 + dx]
                count[2:-2, 2:-2] += valid[2 + dy:rows - 2 + dy, 2 + dx:columns - 2 + dx]
    mean = total / numpy.maximum(count, 1)
    inside = numpy.zeros((rows, columns), bool)
    inside[2:-2, 2:-2] = True
    below = valid & (count >= 2) & (mean - values > 10)
    return below & inside


def expected(table, hemisphere, day, parameters, mon):
    """Cells present, and their values, of all fields for one hemisphere."""
    def part(name):
        return table[name].values, table[name].known
    surface, surface_known = part('surface_temperature')
    land = numpy.isin(table['land_mask'].values, (1, 4))
    fraction, fraction_known = part('sea_ice_fraction')
    sea = fraction_known & (fraction >= 0.3)
    spread, spread_known = part('surface_temperature_std')
    wide, warm = spread_known & (spread > 7.07), surface_known & (surface > 278.15)
    counts, counts_known = part('Nobs3d')
    seen = {name: (numpy.where(counts_known, counts, 0)[rows].sum(0) > 0) for name, rows in (('day', DAY), ('night', NIGHT))}
    bins, bins_known = part('surface_temperature_3d')
    errors = [table[name] for name in FIELDS[8:]]
    error_known = errors[0].known & errors[1].known & errors[2].known
    angle = 2 * numpy.pi * (day - 18262.0) / 365.2425
    result = {}
    for index, name in enumerate(NAMES):
        values, known = part(['surface_temperature', 'surface_temperature_min', 'surface_temperature_max'][index])
        if index == 0:
            observed = seen['day'] & seen['night']
            mean, mean_known = known_mean(bins, bins_known)
            far = known & mean_known & (numpy.abs(values - mean) > 10)
        elif index == 1:
            observed = seen['night']
            far = numpy.zeros(values.shape, bool)
        else:
            observed = seen['day']
            mean, mean_known = known_mean(bins[DAY], bins_known[DAY])
            far = known & mean_known & (numpy.abs(values - mean) > 20)
        good = known & ~wide & ~warm & observed & ~far
        cloud = cloudy(values, good & sea) | cloudy(values, good & land)
        kept = good & ~cloud & (land | sea)
        mon.count('removed: spread', int((known & wide).sum()))
        mon.count('removed: warm', int((known & warm).sum()))
        mon.count('removed: not observed', int((known & ~observed).sum()))
        mon.count('removed: bins', int(far.sum()))
        mon.count('removed: cloud', int(cloud.sum()))
        mon.count('no uncertainty', int((kept & ~error_known).sum()))
        border = numpy.ones(values.shape, bool)
        border[2:-2, 2:-2] = False
        mon.count('kept: border', int((kept & border & error_known).sum()))
        kept = kept & error_known
        fields = {suffix: numpy.zeros(values.shape) for suffix in ('', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud')}
        for surface_type, where in (('LandIce', kept & land), ('SeaIce', kept & ~land)):
            c = parameters[hemisphere][surface_type][index]
            mon.count('land ice' if surface_type == 'LandIce' else 'sea ice', int(where.sum()))
            fields[''][where] = (c[1] * (values - 273.15) + c[0] + c[2] * numpy.cos(angle) + c[3] * numpy.sin(angle) + 273.15)[where]
            fields['_unc_rand'][where] = (c[1] * numpy.hypot(errors[0].values, SAMPLING[(hemisphere, surface_type)][index]))[where]
            fields['_unc_corr_local'][where] = numpy.hypot(c[1] * errors[1].values, RELATION[surface_type][index])[where]
            fields['_unc_sys'][where] = 0.2 * c[1]
            fields['_unc_cloud'][where] = (c[1] * (errors[2].values - 0.2 + (2.0 if index == 1 else 0.0)))[where]
        squares = fields['_unc_rand'] ** 2 + fields['_unc_corr_local'] ** 2 + fields['_unc_sys'] ** 2
        fields['_unc_no_cloud'] = numpy.sqrt(squares)
        fields['uncertainty'] = numpy.sqrt(squares + fields['_unc_cloud'] ** 2)
        mon.count('cells present', int(kept.sum()))
        for suffix, table_of in fields.items():
            result[name + suffix] = (kept, table_of)
    return result


def some_parameters(rng):
    return {hemisphere: {surface: [numpy.array([rng.uniform(-5, 5), rng.uniform(0.5, 1.2), rng.uniform(-3, 3), rng.uniform(-3, 3)]) for _ in NAMES]
                         for surface in ('LandIce', 'SeaIce')} for hemisphere in ('nh', 'sh')}


def model_with(parameters):
    model = ModelIce()
    model.components = {hemisphere: {surface: dict(zip(NAMES, vectors)) for surface, vectors in part.items()} for hemisphere, part in parameters.items()}
    return model


def compare(mon, result, wanted, offset=0, rows=None, what='', rtol=1e-9, atol=1e-9):
    for name, (kept, values) in sorted(wanted.items()):
        mon.check(name in result, '%s: no field %s' % (what, name))
        found = result[name]
        part = found[offset:offset + kept.shape[0]] if rows is not None else found
        mon.equal(part.shape, kept.shape, '%s: shape of %s' % (what, name))
        present = ~numpy.ma.getmaskarray(part)
        wrong = numpy.argwhere(present != kept)
        if len(wrong):
            y, x = wrong[0]
            mon.fail('%s: %s at row %d column %d is %s (%d such cells)' % (what, name, y, x, 'present but must not be' if present[y, x] else 'missing', len(wrong)))
        both = present & kept
        mon.count('compared', int(both.sum()))
        mon.close(numpy.asarray(part.data)[both], values[both], '%s: %s' % (what, name), rtol=rtol, atol=atol)


def latitudes(rng, rows, hemisphere, spacing=None):
    spacing = float(rng.choice([0.25, 0.5, 1.0, 0.1, 0.05])) if spacing is None else spacing
    start = float(rng.randint(1, 40)) if hemisphere == 'nh' else -float(rng.randint(60, 90))
    return start + spacing * (numpy.arange(rows) + 0.5)


def arrays(rng, table, mon):
    return {name: field.array(rng, mon) for name, field in table.items()}


def size(rng):
    if rng.randint(8) == 0:
        return int(rng.randint(40, 90)), int(rng.randint(60, 200))
    return int(rng.randint(5, 24)), int(rng.randint(5, 24))


def one_hemisphere(rng, mon):
    rows, columns = size(rng)
    hemisphere = str(rng.choice(['nh', 'sh']))
    table = some_fields(rng, rows, columns, mon)
    parameters = some_parameters(rng)
    day = int(rng.randint(0, 70000))
    data = arrays(rng, table, mon)
    before = {name: (field.data.copy(), numpy.ma.getmaskarray(field).copy()) for name, field in data.items()}
    inputs = IceSurfaceTemperatureQualityControl(day, latitudes(rng, rows, hemisphere), numpy.arange(columns) * 0.25, **data)
    mon.equal(inputs.hemisphere(), hemisphere, 'hemisphere')
    wanted = expected(table, hemisphere, day, parameters, mon)
    kept = numpy.any([present for present, _ in wanted.values()], 0)
    mon.case(('hemisphere', hemisphere, rows > 30, tuple(sorted((n, f.known.all(), f.known.any()) for n, f in table.items()))), kept.any() and not kept.all())
    model = model_with(parameters)
    compare(mon, model.process_hemisphere(inputs), wanted, what='hemisphere ' + hemisphere)
    if rng.randint(4) == 0:  # again, and the fields given are as they were
        compare(mon, model.process_hemisphere(inputs), wanted, what='hemisphere again')
        for name, (values, hidden) in before.items():
            mon.check(numpy.array_equal(data[name].data, values) and numpy.array_equal(numpy.ma.getmaskarray(data[name]), hidden), 'input %s was changed' % name)
    if rng.randint(3) == 0:  # another hemisphere and day with the same model, then the first once more
        other, later = str(rng.choice(['nh', 'sh'])), int(day + rng.choice([1, 30, 180, 365]))
        more = some_fields(rng, rows, columns, mon)
        second = IceSurfaceTemperatureQualityControl(later, latitudes(rng, rows, other), numpy.arange(columns) * 0.25, **arrays(rng, more, mon))
        compare(mon, model.process_hemisphere(second), expected(more, other, later, parameters, mon), what='second input')
        compare(mon, model.process_hemisphere(inputs), wanted, what='first input once more')
        mon.count('several inputs')
    miz = numpy.ma.getmaskarray(inputs.marginal_ice_zone_mask()) | numpy.ma.filled(inputs.marginal_ice_zone_mask(), True)
    fraction, known = table['sea_ice_fraction'].values, table['sea_ice_fraction'].known
    zone = known & (fraction >= 0.3) & (fraction < 0.85) & ~numpy.isin(table['land_mask'].values, (1, 4))
    mon.check(numpy.array_equal(~miz, zone), 'marginal ice zone')


def both_hemispheres(rng, mon):
    columns = int(rng.randint(5, 16))
    spacing = float(rng.choice([0.25, 0.5, 1.0, 0.1, 0.05]))
    rows = {h: int(rng.randint(5, 16)) for h in ('sh', 'nh')}
    lats = {h: latitudes(rng, rows[h], h, spacing) for h in rows}
    if rng.randint(4) == 0:  # next to each other at the equator
        lats['sh'] = spacing * (numpy.arange(-rows['sh'], 0) + 0.5)
        lats['nh'] = spacing * (numpy.arange(rows['nh']) + 0.5)
    day = int(rng.randint(0, 70000))
    tables = {h: some_fields(rng, rows[h], columns, mon) for h in rows}
    parameters = some_parameters(rng)
    model = model_with(parameters)
    lons = numpy.arange(columns) * spacing
    data = {h: arrays(rng, tables[h], mon) for h in rows}
    inputs = {h: IceSurfaceTemperatureQualityControl(day, lats[h], lons, **data[h]) for h in rows}
    results = model.process_global(inputs['sh'], inputs['nh'])
    mon.equal(results['daynumber'], day, 'day of the global field')
    offset = int(round((lats['nh'][0] - lats['sh'][0]) / spacing))
    total = offset + rows['nh']
    wanted = {h: expected(tables[h], h, day, parameters, mon) for h in rows}
    mon.count('global fields')
    mon.case(('global', spacing, offset - rows['sh']), True)
    for name in wanted['sh']:
        mon.equal(results[name].shape, (total, columns), 'shape of global field ' + name)
        between = numpy.ma.getmaskarray(results[name])[rows['sh']:offset]
        mon.check(between.all(), '%s has values between the hemispheres' % name)
    compare(mon, results, wanted['sh'], 0, rows['sh'], 'southern part')
    compare(mon, results, wanted['nh'], offset, rows['nh'], 'northern part')

    # what does not fit together
    def again(h, lat=None, lon=None, number=day, fields=None):
        return IceSurfaceTemperatureQualityControl(number, lats[h] if lat is None else lat, lons if lon is None else lon, **(fields or data[h]))
    faults = {
        'hemispheres exchanged': lambda: (inputs['nh'], inputs['sh']),
        'south twice': lambda: (inputs['sh'], inputs['sh']),
        'another day': lambda: (inputs['sh'], again('nh', number=day + int(rng.choice([-1, 1, 365])))),
        'another spacing': lambda: (inputs['sh'], again('nh', lat=lats['nh'][0] + spacing * 2 * numpy.arange(rows['nh']))),
        'spacing not constant': lambda: (again('sh', lat=lats['sh'] + numpy.where(numpy.arange(rows['sh']) == 2, spacing * 0.01, 0)), inputs['nh']),
        'northern spacing not constant': lambda: (inputs['sh'], again('nh', lat=lats['nh'] + numpy.where(numpy.arange(rows['nh']) == 3, spacing * 0.01, 0))),
        'south to the north': lambda: (again('sh', lat=lats['sh'][::-1]), inputs['nh']),
        'columns': lambda: (inputs['sh'], again('nh', lon=lons[:-1], fields={n: f[..., :-1] for n, f in data['nh'].items()})),
        'south beyond the north': lambda: (again('sh', lat=-spacing + spacing * numpy.arange(rows['sh'])), again('nh', lat=spacing * (0.5 + numpy.arange(rows['nh'])))),
    }
    for fault in rng.choice(sorted(faults), 2, replace=False):
        pair = faults[fault]()
        mon.count('refused')
        mon.raises(lambda: model.process_global(*pair), 'global field of ' + fault, ValueError)


def unfit_fields(rng, mon):
    """Fields of one hemisphere with different shapes."""
    rows, columns = int(rng.randint(5, 12)), int(rng.randint(5, 12))
    data = arrays(rng, some_fields(rng, rows, columns, mon), mon)
    lat, lon = latitudes(rng, rows, 'nh'), numpy.arange(columns) * 0.25
    IceSurfaceTemperatureQualityControl(100, lat, lon, **data)
    name = str(rng.choice(FIELDS))
    kind = int(rng.randint(4))
    mon.case(('unfit', name, kind), True)
    changed = dict(data)
    if kind == 0:
        changed[name] = data[name][..., :-1]
    elif kind == 1:
        changed[name] = data[name][..., 1:, :]
    elif kind == 2:
        changed[name] = data[name][..., :1, :]
    else:
        changed[name] = data[name][0]
    mon.count('refused')
    mon.raises(lambda: IceSurfaceTemperatureQualityControl(100, lat, lon, **changed), 'field %s of shape %s with others of %s' % (name, changed[name].shape, (rows, columns)), ValueError)
    mon.raises(lambda: IceSurfaceTemperatureQualityControl(100, lat[:-1], lon, **data), 'latitudes of another number', ValueError)
    mon.raises(lambda: IceSurfaceTemperatureQualityControl(100, lat, lon[None, :], **data), 'longitudes of two dimensions', ValueError)


def write_parameters(path, parameters, order, components=3):
    names = numpy.empty((1, len(order)), dtype=object)
    table = numpy.empty((len(order), components), dtype=object)
    for i, surface in enumerate(order):
        names[0, i] = surface
        for j in range(components):
            table[i, j] = parameters[surface][j % 3].reshape(-1, 1)
    scipy.io.savemat(path, {'sf_name': names, 'M': table})


def parameter_files(rng, mon):
    with mon.scratch() as folder:
        parameters = some_parameters(rng)
        filenames = {}
        for hemisphere in ('nh', 'sh'):
            filenames[hemisphere] = os.path.join(folder, hemisphere + '.mat')
            more = dict(parameters[hemisphere], Water=[numpy.zeros(4)] * 3)
            order = list(rng.permutation(['LandIce', 'SeaIce'] + (['Water'] if rng.randint(2) else [])))
            write_parameters(filenames[hemisphere], more, [str(o) for o in order])
        model = ModelIce(filenames)
        mon.count('parameter files', 2)
        mon.case(('parameters',), True)
        for hemisphere in ('nh', 'sh'):
            for surface in ('LandIce', 'SeaIce'):
                for index, name in enumerate(NAMES):
                    mon.close(model.components[hemisphere][surface][name], parameters[hemisphere][surface][index], 'parameters %s %s %s' % (hemisphere, surface, name), rtol=1e-14, atol=0)
        broken = os.path.join(folder, 'broken.mat')
        for order, components in ((['LandIce'], 3), (['SeaIce'], 3), (['SeaIce', 'LandIce'], 2), (['LandIce', 'SeaIce'], 4)):
            write_parameters(broken, parameters['nh'], order, components)
            mon.count('refused')
            mon.raises(lambda: ModelIce({'nh': broken}), 'parameters %s with %d components' % (order, components), ValueError)


def write_fields(path, table, lat, lon, day, rng):
    rows, columns = len(lat), len(lon)
    units, since = [('days since 1850-01-01 00:00:00', datetime.datetime(1850, 1, 1)), ('seconds since 1981-01-01 00:00:00', datetime.datetime(1981, 1, 1)),
                    ('hours since 1970-01-01', datetime.datetime(1970, 1, 1))][rng.randint(3)]
    when = datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day) + datetime.timedelta(hours=int(rng.choice([0, 12, 23])))
    step = {'d': 86400.0, 's': 1.0, 'h': 3600.0}[units[0]]
    with netCDF4.Dataset(path, 'w') as nc:
        for name, length in (('time', 1), ('bins', 8), ('lat', rows), ('lon', columns)):
            nc.createDimension(name, length)
        time = nc.createVariable('time', 'f8', ('time',))
        time.units = units
        time[:] = [(when - since).total_seconds() / step]
        nc.createVariable('lat', 'f8', ('lat',))[:] = lat
        nc.createVariable('lon', 'f8', ('lon',))[:] = lon
        for name, field in table.items():
            values = numpy.ma.masked_array(field.values, ~field.known)
            kind = values.dtype.str[1:]
            dimensions = ('bins', 'lat', 'lon') if values.ndim == 3 else ('time', 'lat', 'lon')
            variable = nc.createVariable(name, kind, dimensions, fill_value=-99 if kind[0] == 'i' else -9999.0)
            variable[:] = values if values.ndim == 3 else values[None]


def from_file(rng, mon):
    """One hemisphere read from a file."""
    rows, columns = int(rng.randint(5, 12)), int(rng.randint(5, 12))
    table = some_fields(rng, rows, columns, mon)
    hemisphere = str(rng.choice(['nh', 'sh']))
    day = int(rng.randint(40000, 62000))
    parameters = some_parameters(rng)
    with mon.scratch() as folder:
        path = os.path.join(folder, 'in.nc')
        write_fields(path, table, latitudes(rng, rows, hemisphere), numpy.arange(columns) * 0.25, day, rng)
        inputs = IceSurfaceTemperatureQualityControlNetCDF(path)
        mon.equal(inputs.daynumber, day, 'day read from file')
        wanted = expected(table, hemisphere, day, parameters, mon)
        mon.count('unmasked fields', sum(f.known.all() for f in table.values()))
        mon.case(('file', tuple(sorted((n, f.known.all(), f.known.any()) for n, f in table.items()))), True)
        compare(mon, model_with(parameters).process_hemisphere(inputs), wanted, what='from file')


def product_files(rng, mon):
    """From files of both hemispheres to the product."""
    day = int(rng.randint(50000, 60000))
    rows, lats = {}, {}
    lats['sh'] = -90 + 0.25 * (numpy.arange(int(rng.randint(5, 80))) + 0.5)
    lats['nh'] = 90 - 0.25 * (numpy.arange(int(rng.randint(5, 80)))[::-1] + 0.5)
    lons = -180 + 0.25 * (numpy.arange(1440) + 0.5)
    parameters = some_parameters(rng)
    with mon.scratch() as folder:
        paths = {}
        tables = {}
        for h in ('sh', 'nh'):
            tables[h] = some_fields(rng, len(lats[h]), 1440, mon)
            paths[h] = os.path.join(folder, h + '.nc')
            write_fields(paths[h], tables[h], lats[h], lons, day, rng)
            write_parameters(os.path.join(folder, h + '.mat'), parameters[h], ['LandIce', 'SeaIce'])
        main, ancillary = os.path.join(folder, 'out', 'main.nc'), os.path.join(folder, 'out', 'ancillary.nc')
        arguments = dict(institution='here', output_main=main, output_ancillary=ancillary, input_model_sh=os.path.join(folder, 'sh.mat'),
                         input_model_nh=os.path.join(folder, 'nh.mat'), input_satellite_sh=paths['sh'], input_satellite_nh=paths['nh'])
        if rng.randint(2):
            run_ice.run_day(catalogue_id='none', **arguments)
        else:
            stored = sys.argv
            sys.argv = ['run_ice'] + [text for name, value in sorted(arguments.items()) for text in ('--' + name, value)]
            try:
                run_ice.main()
            finally:
                sys.argv = stored
        mon.count('files')
        mon.case(('product', len(lats['sh']), len(lats['nh'])), True)
        wanted = {h: expected(tables[h], h, day, parameters, mon) for h in ('sh', 'nh')}
        seen = set()
        for path in (main, ancillary):
            with netCDF4.Dataset(path) as nc:
                mon.equal(float(nc.variables['time'][0]), float(day), 'day in the product')
                for name in sorted(wanted['sh']):
                    if name in nc.variables:
                        seen.add(name)
                        variable = nc.variables[name]
                        step = float(variable.scale_factor)
                        low, high = variable.add_offset - 32767 * step, variable.add_offset + 32767 * step
                        field = variable[0]
                        empty = numpy.ma.getmaskarray(field)[len(lats['sh']):720 - len(lats['nh'])]
                        mon.check(empty.all(), '%s has values between the hemispheres' % name)
                        for h, begin in (('sh', 0), ('nh', 720 - len(lats['nh']))):
                            kept, values = wanted[h][name]
                            mon.check((values[kept] > low).all() and (values[kept] < high).all(), 'values beyond the packed range: monitor')
                            compare(mon, {name: field}, {name: (kept, values)}, begin, len(lats[h]), 'product', rtol=0, atol=0.5001 * step)
        mon.equal(sorted(seen), sorted(wanted['sh']), 'fields in the product')
        for taken in (main, ancillary):
            stored = open(taken, 'rb').read()
            other = ancillary if taken == main else main
            os.remove(other)
            mon.count('refused')
            mon.raises(lambda: run_ice.run_day(catalogue_id='none', **arguments), 'product file that exists', ValueError)
            mon.check(open(taken, 'rb').read() == stored and not os.path.exists(other), 'a product that exists was touched')
            open(other, 'wb').write(b'x')


SCENARIOS = [(one_hemisphere, 150, 3000), (both_hemispheres, 80, 1500), (unfit_fields, 80, 800), (parameter_files, 20, 300), (from_file, 40, 800), (product_files, 3, 40)]
