"""Surface-air products of land and ocean, and what reads them back."""

import datetime
import gc
import json
import os
import sys
import tempfile
import warnings

import netCDF4
import numpy

from eustace.analysis.observationsource import ObservationSource
from eustace.surfaceairmodel import run_land, run_ocean
from eustace.surfaceairmodel.fileio.consistent import ConsistentModelOutputNetCDF, DatasetAttributesConsistentModelOutput, ObservationSourceSatstace
from eustace.surfaceairmodel.fileio.ice import ObservationSourceIceDMI, ObservationSourceIceDMICombined
from eustace.surfaceairmodel.fileio.land import ObservationSourceLandMetOfficeWP1, RemapNetCDFLandWP1
from eustace.surfaceairmodel.fileio.ocean import ObservationSourceOceanMetOfficeWP1, RemapNetCDFOceanWP1
from eustace.surfaceairmodel.fileio.post_processing import apply_land_post_processing
from eustace.surfaceairmodel.model_land import ModelLand

warnings.filterwarnings('ignore')

NEEDS = {'extension': True}
RULE = """Outputs of the land and ocean models with fields of any values and missing cells (each field with its own) are converted for one or more days, also
from the command line, with a stand-in for the IDL program that records what it was asked and leaves prepared files; every cell of every field of the products
is compared with the prepared one (kelvin, packed to half a step), totals with the root of the sum of squares, and cells whose minimum exceeds the maximum must
be gone. Land, ocean, ice and product files are read as observations, the two ice hemispheres together, and each cell compared with the file: place, value,
errors, masked. Non-trivial: some cells missing and others not."""
REQUIRED = {'cells converted': 1000000, 'missing': 100000, 'removed': 1000, 'one component missing': 10000, 'days': 4, 'program runs': 4, 'program failed': 2, 'cells read': 10000,
            'hemispheres': 20, 'refused': 60, 'fields without missing': 10, 'products read': 2, 'ranges': 8, 'post-processed': 20}
ASSUMPTIONS = ['Errors are known wherever the temperature read as an observation is', 'The IDL program is replaced by a stand-in']
LAND = ['unc_rand_{0}', 'unc_corr_atm_{0}', 'unc_corr_sfc_{0}', 'unc_sys_{0}']
LAND_NEW = ['{0}_unc_rand', '{0}_unc_corr_atm', '{0}_unc_corr_sfc', '{0}_unc_sys']
OCEAN = [('unc_rand_tas', 'tas_unc_rand'), ('unc_corr_tas', 'tas_unc_corr_sat'), ('unc_syst_tas', 'tas_unc_sys'), ('unc_corr2_tas', 'tas_unc_corr_mod'), ('unc_syst2_tas', 'tas_unc_sys_mod')] + \
    [('unc_parameter_%d_tas' % i, 'tas_unc_parameter_%d' % i) for i in range(5)]
ROWS, COLUMNS = 720, 1440
RANGES = {'tas_unc_corr_sat': (100.0, 1.0), 'tas_unc_corr_mod': (1000.0, 3.0)}
RANGES.update({name + '_unc_corr_sfc': ('unknown', 30.0) for name in ('tasmin', 'tasmax')})
RANGES.update({name + '_unc_corr_atm': ('unknown', 'unknown') for name in ('tasmin', 'tasmax')})
PROGRAM = """#!%s -S
import json, os, shutil, sys
assert sys.argv[1:3] == ['-e', '.run %%s' %% sys.argv[2][5:]] and sys.argv[3] == '-args', sys.argv
config = json.load(open(sys.argv[4]))
record = os.environ['STANDIN_RECORD']
json.dump({'module': sys.argv[2][5:], 'present': os.path.isfile(sys.argv[2][5:]), 'config': config}, open(record, 'w'))
if os.environ.get('STANDIN_FAIL'):
    sys.exit(3)
for day in config['data']:
    if 'filename_input' in day:
        shutil.copyfile(day['filename_input'] + '.result', day['filename_output'])
    else:
        shutil.copyfile(day['filename_input_lst'][0] + '.result', day['dir_output'] + day['filename_output_id'])
"""


def missing(rng, shape):
    kind = int(rng.randint(5))
    if kind == 0:
        return numpy.zeros(shape, bool)
    if kind == 1:
        table = numpy.ones(shape, bool)
        table[int(rng.randint(shape[0]))] = False
        return table
    return rng.uniform(size=shape) < rng.uniform(0.05, 0.8)


class Field(object):
    """Packed numbers, what they stand for, and which are missing."""

    def __init__(self, rng, shape, low, high, scale, offset, kind, hidden):
        self.scale, self.offset, self.kind, self.hidden = scale, offset, kind, hidden
        self.packed = rng.randint(int(round((low - offset) / scale)), int(round((high - offset) / scale)) + 1, shape)
        self.values = self.packed * scale + offset

    def write(self, nc, name, dimensions, time_last=False):
        variable = nc.createVariable(name, self.kind, dimensions, fill_value=-32768)
        variable.set_auto_maskandscale(False)
        if self.kind != 'i2' or self.scale != 1:
            variable.scale_factor = self.scale
            variable.add_offset = self.offset
        table = numpy.where(self.hidden, -32768, self.packed)
        variable[:] = table[..., None] if time_last else table


def land_fields(rng, mon, shape=(ROWS, COLUMNS)):
    fields = {}
    everywhere = bool(rng.randint(4) == 0)
    common = numpy.zeros(shape, bool) if everywhere else missing(rng, shape)
    for name, low, high in (('tasmin', 230, 290), ('tasmax', 245, 320)):
        fields[name] = Field(rng, shape, low, high, 0.005, 273.15, 'i2', common | (numpy.zeros(shape, bool) if everywhere else rng.uniform(size=shape) < 0.1))
        for template in LAND:
            own = numpy.zeros(shape, bool) if everywhere or rng.randint(3) else rng.uniform(size=shape) < 0.05
            fields[template.format(name)] = Field(rng, shape, 0.01, 8, 0.001, 32.767, 'i2', fields[name].hidden | own)
        fields[name + '_model_number'] = Field(rng, shape, 1, 3, 1, 0, 'i2', fields[name].hidden)
    equal = rng.uniform(size=shape) < 0.02
    fields['tasmax'].packed[equal] = fields['tasmin'].packed[equal]
    fields['tasmax'].values = fields['tasmax'].packed * 0.005 + 273.15
    mon.count('fields without missing', sum(not f.hidden.any() for f in fields.values()))
    return fields


def write_land(path, fields, day, reverse=False):
    with netCDF4.Dataset(path, 'w') as nc:
        shape = fields['tasmin'].packed.shape
        nc.createDimension('lat', shape[0])
        nc.createDimension('lon', shape[1])
        nc.createDimension('time', None)
        time = nc.createVariable('time', 'i4', ('time',))
        time.units = 'days since 1850-1-1 0:0:0'
        time[:] = [day]
        for name, field in fields.items():
            field.write(nc, name, ('lat', 'lon', 'time'), True)


def expected_land(fields, mon):
    """name -> (present, values) of the product, and the number of cells removed."""
    low, high = fields['tasmin'], fields['tasmax']
    removed = ~low.hidden & ~high.hidden & (low.packed > high.packed)
    result = {}
    for name in ('tasmin', 'tasmax'):
        result[name] = (~fields[name].hidden & ~removed, fields[name].values)
        squares, present = 0.0, ~removed
        for old, new in zip(LAND, LAND_NEW):
            field = fields[old.format(name)]
            result[new.format(name)] = (~field.hidden & ~removed, field.values)
            squares = squares + field.values ** 2
            present = present & ~field.hidden
        mon.count('one component missing', int((~fields[name].hidden & ~removed & ~present).sum()))
        result[name + 'uncertainty'] = (present, numpy.sqrt(squares))
        number = fields[name + '_model_number']
        result[name + '_model_number'] = (~number.hidden & ~removed, number.packed)
    mon.count('removed', int(removed.sum()))
    return result, int(removed.sum())


def ocean_fields(rng, mon):
    shape = (ROWS, COLUMNS)
    everywhere = bool(rng.randint(4) == 0)
    fields = {'tas': Field(rng, shape, -10, 38, 0.001, 0.0, 'i4', numpy.zeros(shape, bool) if everywhere else missing(rng, shape))}
    for old, _ in OCEAN:
        own = numpy.zeros(shape, bool) if everywhere or rng.randint(3) else rng.uniform(size=shape) < 0.05
        fields[old] = Field(rng, shape, 0, 8, 0.001, 0.0, 'i4', fields['tas'].hidden | own)
    mon.count('fields without missing', sum(not f.hidden.any() for f in fields.values()))
    return fields


def write_ocean(path, fields, day, rng, hours=0):
    rows, columns = fields['tas'].packed.shape
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('x', columns)
        nc.createDimension('y', rows)
        nc.createDimension('a', 1)
        time = nc.createVariable('time', 'f4', ('a',))
        time.units = 'days since 1850-1-1 0:0:0'
        time.standard_name = 'time'
        time[:] = [day + hours / 24.0]
        lat, lon = axes(rows, columns)
        for name, dimension, points, unit in (('latitude', 'y', lat, 'degrees_north'), ('longitude', 'x', lon, 'degrees_east')):
            variable = nc.createVariable(name, 'f4', (dimension,), fill_value=-1e30)
            variable.standard_name, variable.units = name, unit
            variable[:] = points
        for name, field in fields.items():
            field.write(nc, name, ('y', 'x'))
            nc.variables[name].coordinates = 'lat lon'
            nc.variables[name].standard_name = 'air_temperature'
            nc.variables[name].units = 'K'


def expected_ocean(fields, mon):
    result = {'tas': (~fields['tas'].hidden, fields['tas'].values + 273.15)}
    squares, present = 0.0, True
    for old, new in OCEAN:
        result[new] = (~fields[old].hidden, fields[old].values)
        squares = squares + fields[old].values ** 2
        present = present & ~fields[old].hidden
    mon.count('one component missing', int((~fields['tas'].hidden & ~present).sum()))
    result['tasuncertainty'] = (present, numpy.sqrt(squares))
    return result


def axes(rows, columns):
    return -90 + 180.0 / rows * (numpy.arange(rows) + 0.5), -180 + 360.0 / columns * (numpy.arange(columns) + 0.5)


def product(mon, paths, wanted, day, institution, primary, surface, catalogue):
    """Compare product files with the fields wanted."""
    seen = {}
    for position, path in enumerate(paths):
        with netCDF4.Dataset(path) as nc:
            mon.equal(nc.institution, institution, 'institution')
            mon.equal(nc.source, 'EUSTACE Catalogue ' + catalogue, 'source')
            mon.check(nc.history.endswith(' eustace.surfaceairmodel.run_' + surface), 'history "%s" of %s' % (nc.history, surface))
            mon.equal([float(t) for t in nc.variables['time'][:]], [float(day)], 'day of the product')
            mon.equal([float(t) for t in nc.variables['timebounds' if 'timebounds' in nc.variables else 'time_bounds'][:].ravel()] if any('bounds' in n for n in nc.variables) else None,
                      [float(day), day + 1.0], 'time bounds of the product')
            for name, variable in nc.variables.items():
                if variable.ndim != 3:
                    continue
                mon.check(name not in seen, 'field %s twice' % name)
                seen[name] = position
                mon.check(name in wanted, 'unexpected field ' + name)
                present, values = wanted[name]
                step = float(getattr(variable, 'scale_factor', 0.0)) if variable.dtype.kind == 'i' else 1e-3
                ranges = RANGES.get(name)
                mon.equal(tuple(getattr(variable, word, None) for word in ('length_scale', 'length_scale_units', 'time_scale', 'time_scale_units')),
                          (ranges[0], 'km', ranges[1], 'day') if ranges else (None,) * 4, 'correlation ranges of ' + name)
                mon.count('ranges', int(ranges is not None))
                if not name.endswith('number'):
                    mon.equal(variable.units, 'K', 'units of ' + name)
                field = variable[0]
                compare(mon, name, field, present, values, 0.5001 * step if not name.endswith('number') else 0)
    mon.equal(sorted(seen), sorted(wanted), 'fields of the product')
    for name in seen:
        mon.equal(seen[name], 0 if name in primary else 1, 'file of field ' + name)


def compare(mon, name, field, present, values, atol):
    found = ~numpy.ma.getmaskarray(field)
    mon.count('cells converted', int(present.sum()))
    mon.count('missing', int((~present).sum()))
    mon.equal(found.shape, present.shape, 'shape of ' + name)
    wrong = numpy.argwhere(found != present)
    if len(wrong):
        y, x = wrong[0]
        mon.fail('%s at row %d column %d is %s (%d such cells)' % (name, y, x, 'present but must not be' if found[y, x] else 'missing', len(wrong)))
    both = found & present
    mon.close(numpy.asarray(numpy.ma.getdata(field), float)[both], numpy.asarray(values, float)[both], name, rtol=0, atol=atol + 1e-9)


def intermediates():
    return sorted(name for name in os.listdir(tempfile.gettempdir()) if name.startswith('eustace.surfaceairmodel.'))


class StandIn(object):
    """The program that takes the place of IDL."""

    def __init__(self, folder, fail=False):
        self.folder, self.fail = folder, fail
        self.record = os.path.join(folder, 'record.json')

    def __enter__(self):
        path = os.path.join(self.folder, 'bin')
        os.makedirs(path)
        program = os.path.join(path, 'idl')
        open(program, 'w').write(PROGRAM % sys.executable)
        os.chmod(program, 0o755)
        self.stored = dict(os.environ)
        os.environ['PATH'] = path + ':' + os.environ['PATH']
        os.environ['STANDIN_RECORD'] = self.record
        self.own = os.path.join(self.folder, 'temporary')
        os.makedirs(self.own)
        tempfile.tempdir = self.own
        if self.fail:
            os.environ['STANDIN_FAIL'] = '1'
        return self

    def __exit__(self, *unused):
        tempfile.tempdir = None
        os.environ.clear()
        os.environ.update(self.stored)

    def request(self):
        return json.load(open(self.record))


def command(main, arguments):
    stored = sys.argv
    sys.argv = ['program'] + [text for pair in arguments for text in pair]
    try:
        main()
    finally:
        sys.argv = stored


def some_days(rng, count):
    return [int(d) for d in rng.choice(numpy.arange(45000, 62000), count, replace=False)]


def date(day):
    when = datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day)
    return {'year': when.year, 'month': when.month, 'day': when.day}


def convert_land(rng, mon):
    with mon.scratch() as folder:
        way = ('days', 'day', 'command')[mon.index % 3]
        days = some_days(rng, int(rng.randint(2, 4)) + int(mon.index == 0) if way == 'days' else 1)
        tables, requests = [], []
        for day in days:
            when = date(day)
            stamp = '%04d%02d%02d' % (when['year'], when['month'], when['day'])
            inner = os.path.join(folder, str(rng.choice(['20010203', 'in', '1999', 'v20160304nc'])))
            os.makedirs(inner, exist_ok=True)
            lst = [os.path.join(inner, 'satgrid%s.%s.%s.nc' % (str(rng.choice(['', '_12345678', '.20000101'])), part, stamp)) for part in ('day', 'night')]
            fields = land_fields(rng, mon)
            write_land(lst[0] + '.result', fields, day)
            tables.append(fields)
            requests.append(dict(catalogue_id='cat', institution='here', output_main=os.path.join(folder, 'main%d.nc' % day), output_ancillary=os.path.join(folder, 'anc%d.nc' % day),
                                 input_model_1='m1', input_model_2='m2', input_model_3='m3', input_satellite_land_day=lst[0], input_satellite_land_night=lst[1],
                                 input_satellite_land_snow='snow' + stamp if way != 'days' or len(tables) % 2 == 1 - mon.index % 2 else None, input_satellite_land_mask_north='north',
                                 input_satellite_land_mask_south='south', input_satellite_land_DEM='dem', input_satellite_land_fvc='fvc',
                                 frac_sat_obs_threshold=0.2 if way != 'command' else '0.2', sampling_threshold=3.0 if way != 'command' else '3.0'))
        with StandIn(folder) as program:
            if way == 'day':
                run_land.run_day(**requests[0])
            elif way == 'days':
                run_land.run_multiple_days([run_land.return_daily_inputs(**request) for request in requests])
            else:
                r = requests[0]
                command(run_land.main, [('--institution', 'here'), ('--output_main', r['output_main']), ('--output_ancillary', r['output_ancillary']), ('--input_model1_parameters', 'm1'),
                                        ('--input_model2_parameters', 'm2'), ('--input_model3_parameters', 'm3'), ('--inputfvc', 'fvc'), ('--inputDEM', 'dem'), ('--inputmasknord', 'north'),
                                        ('--inputmasksouth', 'south'), ('--inputsnow', r['input_satellite_land_snow']), ('--inputday', r['input_satellite_land_day']),
                                        ('--inputnight', r['input_satellite_land_night']), ('--frac_sat_obs_threshold', '0.2'), ('--sampling_threshold', '3.0')])
            asked = program.request()
            gc.collect()
            mon.equal(intermediates(), [], 'intermediate files left behind')
        mon.count('program runs')
        mon.check(asked['present'], 'the program was not started where its module is')
        mon.equal(asked['config']['model'], {'filename_model_clim_parameters': ['m1', 'm2', 'm3'], 'frac_sat_obs_threshold': requests[0]['frac_sat_obs_threshold'],
                                             'sampling_threshold': requests[0]['sampling_threshold']}, 'model in the request')
        mon.equal(len(asked['config']['data']), len(days), 'days in the request')
        for day, fields, request, entry in zip(days, tables, requests, asked['config']['data']):
            mon.count('days')
            mon.equal({k: v for k, v in entry.items() if not k.endswith(('output', 'output_id'))},
                      {'date': date(day), 'dir_input_fvc': 'fvc', 'filename_input_dem': 'dem', 'filename_input_mask': ['north', 'south'],
                       'filename_input_snow': request['input_satellite_land_snow'] or 'MISSING',
                       'filename_input_lst': [request['input_satellite_land_day'], request['input_satellite_land_night']]}, 'request of the day')
            wanted, removed = expected_land(fields, mon)
            product(mon, [request['output_main'], request['output_ancillary']], wanted, day, 'here', ('tasmin', 'tasmax', 'tasminuncertainty', 'tasmaxuncertainty'), 'land', 'cat' if way != 'command' else '(NO CATALOGUE IN USE)')
            with netCDF4.Dataset(request['output_main']) as nc:
                mon.check(str(removed) in nc.comment.replace('%', ' ').split(), 'number of cells removed in comment "%s", expected %d' % (nc.comment, removed))
        mon.case(('land', way, len(days)), True)
        satstace(mon, requests[0]['output_main'], days[0], {ObservationSource.TMIN: 'tasmin', ObservationSource.TMAX: 'tasmax'})


def convert_ocean(rng, mon):
    with mon.scratch() as folder:
        way = ('days', 'day', 'command')[mon.index % 3]
        days = some_days(rng, int(rng.randint(2, 4)) + int(mon.index == 0) if way == 'days' else 1)
        tables, requests = [], []
        for day in days:
            source = os.path.join(folder, 'sst%d.nc' % day)
            with netCDF4.Dataset(source, 'w') as nc:
                nc.createDimension('time', 1)
                time = nc.createVariable('time', 'i4', ('time',))
                time.units = 'seconds since 1981-01-01 00:00:00'
                time[:] = [int((day - (datetime.datetime(1981, 1, 1) - datetime.datetime(1850, 1, 1)).days) * 86400 + 43200)]
            fields = ocean_fields(rng, mon)
            write_ocean(source + '.result', fields, day, rng, int(rng.choice([0, 0, 12, 18])))
            tables.append(fields)
            requests.append(dict(catalogue_id='cat', institution='there', output_main=os.path.join(folder, 'main%d.nc' % day), output_ancillary=os.path.join(folder, 'anc%d.nc' % day),
                                 input_model_parameters='p', input_model_uncertainty='u', input_model_stdev='s', input_satellite_ocean=source))
        with StandIn(folder) as program:
            if way == 'day':
                run_ocean.run_day(**requests[0])
            elif way == 'days':
                run_ocean.run_multiple_days([run_ocean.return_daily_inputs(**request) for request in requests])
            else:
                command(run_ocean.main, [('--' + name, value) for name, value in sorted(requests[0].items()) if name != 'catalogue_id'])
            asked = program.request()
            gc.collect()
            mon.equal(intermediates(), [], 'intermediate files left behind')
        mon.count('program runs')
        mon.check(asked['present'], 'the program was not started where its module is')
        mon.equal(asked['config']['model'], {'filename_parameters': 'p', 'filename_uncertainty': 'u', 'filename_stdev': 's'}, 'model in the request')
        mon.equal([(entry['date'], entry['filename_input']) for entry in asked['config']['data']], [(date(day), request['input_satellite_ocean']) for day, request in zip(days, requests)], 'days in the request')
        for day, fields, request in zip(days, tables, requests):
            mon.count('days')
            product(mon, [request['output_main'], request['output_ancillary']], expected_ocean(fields, mon), day, 'there', ('tas', 'tasuncertainty'), 'ocean', 'cat' if way != 'command' else '(NO CATALOGUE IN USE)')
        mon.case(('ocean', way, len(days)), True)
        satstace(mon, requests[0]['output_main'], days[0], {ObservationSource.TMEAN: 'tas'})
        if rng.randint(2):
            small = {n: Field(rng, (6, 12), 0.0, 8, 0.001, 0.0, 'i4', missing(rng, (6, 12))) for n in ('tas', 'unc_rand_tas', 'unc_corr_tas')}
            read_ocean(mon, folder, small, days[0], rng)


def satstace(mon, path, day, names):
    """The product as observations."""
    source = ObservationSourceSatstace(list(names), path)
    mon.count('products read')
    mon.equal(source.number_of_observations(), ROWS * COLUMNS, 'number of observations')
    lat, lon = axes(ROWS, COLUMNS)
    with netCDF4.Dataset(path) as nc:
        for observable, name in names.items():
            known = nc.variables[name][0], nc.variables[name + 'uncertainty'][0]
            observations(mon, source, observable, known[0], known[1], [], day, lat, lon, 'product')


def observations(mon, source, observable, values, error, local, day, lat, lon, what, scales=()):
    found = source.observations(observable)
    total = values.size
    hidden = numpy.ma.getmaskarray(values).ravel()
    places = source.observation_location_lookup()
    count = len(found.mask)
    mon.equal(count, total, what + ': number of observations')
    mon.check(numpy.array_equal(numpy.asarray(found.location), numpy.arange(total)), what + ': locations')
    mon.check(numpy.array_equal(found.mask, hidden), lambda: '%s: %d cells differ in being masked' % (what, (found.mask != hidden).sum()))
    mon.check(numpy.all(numpy.asarray(found.time) == day), '%s: time %s, expected %s' % (what, found.time, day))
    mesh = numpy.meshgrid(lat, lon, indexing='ij')
    mon.close(places[:, numpy.asarray(found.location, int)], numpy.vstack([mesh[0].ravel(), mesh[1].ravel()]), what + ': places', rtol=0, atol=1e-4)
    keep = ~hidden
    for label, part, wanted in [('values', found.measurement, values), ('errors', found.uncorrelatederror, error)] + [('local errors %d' % i, found.locallycorrelatederror[i], local[i]) for i in range(len(local))]:
        wanted = numpy.ma.masked_array(numpy.ma.getdata(wanted).ravel(), hidden | numpy.ma.getmaskarray(wanted).ravel())
        shown = ~wanted.mask
        mon.close(numpy.asarray(part, float)[shown], numpy.asarray(wanted.data, float)[shown], '%s: %s' % (what, label), rtol=1e-5, atol=1e-4)
    mon.equal(len(found.locallycorrelatederror), len(local), what + ': number of local errors')
    mon.equal([float(s) for s in source.local_correlation_length_scale(observable)], [float(s) for s in scales], what + ': correlation length scales')
    again = source.observations(observable)
    mon.check(numpy.array_equal(again.mask, found.mask) and numpy.array_equal(numpy.asarray(again.location), numpy.asarray(found.location)) and
              numpy.array_equal(again.measurement[keep], found.measurement[keep]) and numpy.array_equal(again.uncorrelatederror[keep], found.uncorrelatederror[keep]), what + ': other observations the second time')
    mon.count('cells read', int(keep.sum()))


def failing_program(rng, mon):
    """No product when the program fails or dates do not fit."""
    with mon.scratch() as folder:
        day = some_days(rng, 1)[0]
        outputs = [os.path.join(folder, 'main.nc'), os.path.join(folder, 'anc.nc')]
        source = os.path.join(folder, 'sst.nc')
        with netCDF4.Dataset(source, 'w') as nc:
            nc.createDimension('time', 1)
            time = nc.createVariable('time', 'i4', ('time',))
            time.units = 'days since 1850-01-01 00:00:00'
            time[:] = [day]
        with StandIn(folder, fail=True):
            mon.count('program failed')
            mon.raises(lambda: run_ocean.run_day('cat', 'there', outputs[0], outputs[1], 'p', 'u', 's', source), 'failing program of the ocean model', ValueError)
            when = date(day)
            names = [os.path.join(folder, 'satgrid.%s.%04d%02d%02d.nc' % (part, when['year'], when['month'], when['day'])) for part in ('day', 'night')]
            mon.count('program failed')
            mon.raises(lambda: run_land.run_day('cat', 'here', outputs[0], outputs[1], 'm', 'm', 'm', names[0], names[1], 's', 'n', 's', 'd', 'f', 0.2, 3.0), 'failing program of the land model', ValueError)
        stored = os.environ['PATH']
        os.environ['PATH'] = folder
        try:
            mon.count('program failed', 2)
            mon.raises(lambda: run_ocean.run_day('cat', 'there', outputs[0], outputs[1], 'p', 'u', 's', source), 'ocean model without its program', OSError)
            mon.raises(lambda: run_land.run_day('cat', 'here', outputs[0], outputs[1], 'm', 'm', 'm', names[0], names[1], 's', 'n', 's', 'd', 'f', 0.2, 3.0), 'land model without its program', OSError)
        finally:
            os.environ['PATH'] = stored
        mon.check(not any(os.path.exists(o) for o in outputs), 'product written although the program failed')
        mon.count('refused')
        mon.raises(lambda: ModelLand.read_input_file_time('satgrid.day.%s.nc' % rng.choice(['20011301', '20010230', '2001010', 'x'])), 'name without a date', (ValueError, AttributeError))
        other = date(day + int(rng.choice([-1, 1, 31, 365])))
        names[1] = os.path.join(folder, 'satgrid.night.%04d%02d%02d.nc' % (other['year'], other['month'], other['day']))
        mon.count('refused')
        mon.raises(lambda: ModelLand(['m'], 0.2, 3.0).build_config_dictionary([['a/', 'b']], [['f', 'd', 'm', 's', names]]), 'day and night of different dates', ValueError)
        mon.case(('failing',), True)


def post_process(rng, mon):
    """Cells with minimum above maximum, in fields of any size."""
    shape = (int(rng.randint(1, 12)), int(rng.randint(1, 12)))
    fields = land_fields(rng, mon, shape)
    names = {'tasmin': 'tasmin', 'tasmax': 'tasmax', 'tasmin_model_number': 'tasmin_model_number', 'tasmax_model_number': 'tasmax_model_number'}
    for name in ('tasmin', 'tasmax'):
        names.update({old.format(name): new.format(name) for old, new in zip(LAND, LAND_NEW)})
    wanted, removed = expected_land(fields, mon)
    results = {'daynumber': 1}
    hide = rng.choice([-32768.0, 1e20, 250.0, 1000.0])
    for old, new in names.items():
        field = fields[old]
        data = numpy.where(field.hidden, hide if not old.endswith('number') else -1, field.values)
        results[new] = numpy.ma.masked_array(data) if not field.hidden.any() and rng.randint(2) else numpy.ma.masked_array(data, field.hidden, fill_value=-32768)
    for name in ('tasmin', 'tasmax'):
        present = numpy.all([~fields[t.format(name)].hidden for t in LAND], 0)
        results[name + 'uncertainty'] = numpy.ma.masked_array(wanted[name + 'uncertainty'][1], ~present)
    writer = ConsistentModelOutputNetCDF(DatasetAttributesConsistentModelOutput('m', 'i', 'c'), RemapNetCDFLandWP1.VARIABLES_ANCILLARY)
    if rng.randint(2):
        apply_land_post_processing(results, RemapNetCDFLandWP1.VARIABLES_ANCILLARY)
    else:
        writer.post_process(results, 'LAND')
    mon.count('post-processed')
    mon.case(('post', shape), removed > 0)
    mon.equal(int(results['problematic_pixels_count']), removed, 'number of cells removed')
    for name, (present, values) in wanted.items():
        compare(mon, name, results[name], present, values, 1e-9)
    mon.count('refused')
    mon.raises(lambda: writer.post_process(results, str(rng.choice(['SEA', 'land', '']))), 'unknown surface', ValueError)


def write_grid(path, variables, lat, lon, day, rng, time_last=False, precision='f4'):
    with netCDF4.Dataset(path, 'w') as nc:
        for name, points, unit in (('lat', lat, 'degrees_north'), ('lon', lon, 'degrees_east')):
            nc.createDimension(name, len(points))
            variable = nc.createVariable(name, precision, (name,))
            variable.standard_name, variable.units = {'lat': 'latitude', 'lon': 'longitude'}[name], unit
            variable[:] = points
        nc.createDimension('time', 1)
        time = nc.createVariable('time', 'i4', ('time',))
        time.units, time.standard_name = 'days since 1850-1-1 0:0:0', 'time'
        time[:] = [day]
        for name, values in variables.items():
            variable = nc.createVariable(name, 'f4', ('lat', 'lon', 'time') if time_last else ('time', 'lat', 'lon'), fill_value=-9999.0)
            variable.units = 'K'
            variable[:] = values[..., None] if time_last else values[None]


def grid_values(rng, shape, mon, names, low, high):
    """A temperature and its errors, missing in the same cells."""
    hidden = missing(rng, shape)
    mon.count('fields without missing', int(not hidden.any()))
    table = {names[0]: numpy.ma.masked_array(rng.uniform(low, high, shape).astype('f4'), hidden)}
    for name in names[1:]:
        table[name] = numpy.ma.masked_array(rng.uniform(0.1, 4, shape).astype('f4'), hidden)
    return table


def read_ocean(mon, folder, fields, day, rng):
    for name in fields:
        fields[name].hidden = fields['tas'].hidden
    path = os.path.join(folder, 'wp1.nc')
    write_ocean(path, fields, day, rng)
    source = ObservationSourceOceanMetOfficeWP1(path)
    shape = fields['tas'].packed.shape
    lat, lon = axes(*shape)
    hidden = fields['tas'].hidden
    mon.equal(list(source.observables()), [ObservationSource.TMEAN], 'observables of the ocean')
    mon.equal(source.number_of_observations(), shape[0] * shape[1], 'ocean: number')
    observations(mon, source, ObservationSource.TMEAN, numpy.ma.masked_array(fields['tas'].values + 273.15, hidden), fields['unc_rand_tas'].values, [fields['unc_corr_tas'].values], day, lat, lon, 'ocean', [100000.0])


def read_ocean_file(rng, mon):
    shape = (int(rng.randint(2, 12)), int(rng.randint(2, 12)))
    with mon.scratch() as folder:
        fields = {n: Field(rng, shape, 0.0, 8, 0.001, 0.0, 'i4', missing(rng, shape)) for n in ('tas', 'unc_rand_tas', 'unc_corr_tas')}
        mon.case(('ocean file', shape), fields['tas'].hidden.any() and not fields['tas'].hidden.all())
        read_ocean(mon, folder, fields, some_days(rng, 1)[0], rng)


def read_land_file(rng, mon):
    shape = (int(rng.randint(2, 12)), int(rng.randint(2, 12)))
    lat, lon = axes(*shape)
    day = some_days(rng, 1)[0]
    with mon.scratch() as folder:
        path = os.path.join(folder, 'land.nc')
        table = {}
        for name in ('tasmin', 'tasmax'):
            table.update(grid_values(rng, shape, mon, [name, 'unc_rand_' + name, 'unc_corr_' + name], 230, 320))
        write_grid(path, table, lat, lon, day, rng, time_last=True)
        source = ObservationSourceLandMetOfficeWP1(path)
        mon.equal(sorted(source.observables()), ['Tmax', 'Tmean', 'Tmin'], 'observables of the land')
        for observable, name in ((ObservationSource.TMIN, 'tasmin'), (ObservationSource.TMAX, 'tasmax')):
            observations(mon, source, observable, table[name], table['unc_rand_' + name], [table['unc_corr_' + name]], day, lat, lon, 'land', [1.0])
        hidden = table['tasmin'].mask | table['tasmax'].mask

        def rms(stem):
            return numpy.sqrt(0.5 * (table[stem + 'tasmin'].data.astype(float) ** 2 + table[stem + 'tasmax'].data.astype(float) ** 2))
        mean = numpy.ma.masked_array(0.5 * (table['tasmin'].data + table['tasmax'].data), hidden)
        observations(mon, source, ObservationSource.TMEAN, mean, rms('unc_rand_'), [rms('unc_corr_')], day, lat, lon, 'land mean', [1.0])
        mon.case(('land file', shape), hidden.any() and not hidden.all())


ICE = {ObservationSource.TMEAN: ('tas', 'RU', 'SSU'), ObservationSource.TMIN: ('tasmin', 'RUmin', 'SSUmin'), ObservationSource.TMAX: ('tasmax', 'RUmax', 'SSUmax')}


def read_ice_files(rng, mon):
    columns = int(rng.randint(2, 10))
    spacing, precision = [(0.25, 'f4'), (0.5, 'f4'), (1.0, 'f8'), (0.1, 'f8')][rng.randint(4)]
    rows = [int(rng.randint(2, 8)) for _ in range(2)]
    lats = [-90 + spacing * (numpy.arange(rows[0]) + 0.5 + int(rng.randint(0, 20))), None]
    gap = int(rng.choice([1, 2, 3, 30, 100]))
    lats[1] = lats[0][-1] + spacing * (gap + numpy.arange(rows[1]))
    lon = -180 + 360.0 / columns * numpy.arange(columns)
    day = some_days(rng, 1)[0]
    with mon.scratch() as folder:
        paths, tables = [os.path.join(folder, 'sh.nc'), os.path.join(folder, 'nh.nc')], []
        for part in range(2):
            table = {}
            for names in ICE.values():
                table.update(grid_values(rng, (rows[part], columns), mon, names, 220, 290))
            write_grid(paths[part], table, lats[part], lon, day, rng, precision=precision)
            tables.append(table)
            source = ObservationSourceIceDMI(paths[part])
            mon.equal(sorted(source.observables()), sorted(ICE), 'observables of ice')
            for observable, (a, b, c) in ICE.items():
                observations(mon, source, observable, table[a], table[b], [table[c]], day, lats[part], lon, 'ice', [500000.0])
        source = ObservationSourceIceDMICombined(paths)
        mon.count('hemispheres')
        mon.equal(source.number_of_observations(), sum(rows) * columns, 'number of observations of both hemispheres')
        places = source.observation_location_lookup()
        mon.equal(places.shape, (2, (rows[0] + rows[1] + gap - 1) * columns), 'places of both hemispheres')
        mesh = [numpy.meshgrid(l, lon, indexing='ij') for l in lats]
        mon.equal(sorted(source.observables()), sorted(ICE), 'observables of both hemispheres')
        for observable, (a, b, c) in list(ICE.items()) + list(ICE.items())[:1]:  # the first also a second time
            found = source.observations(observable)
            mon.equal([float(s) for s in source.local_correlation_length_scale(observable)], [500000.0], 'correlation length scales of both hemispheres')
            mon.check(numpy.all(numpy.asarray(found.time) == day), 'time of both hemispheres')
            mon.equal(len(found.mask), sum(rows) * columns, 'cells of both hemispheres')
            where = numpy.asarray(found.location, int)
            mon.check(len(set(where)) == len(where), 'a cell of both hemispheres twice')
            for axis in range(2):
                mon.close(places[axis, where], numpy.concatenate([m[axis].ravel() for m in mesh]), 'place of cells of both hemispheres', rtol=0, atol=1e-4)
            joined = [numpy.ma.concatenate([t[name].ravel() for t in tables]) for name in (a, b, c)]
            hidden = numpy.ma.getmaskarray(joined[0])
            mon.check(numpy.array_equal(found.mask, hidden), 'masked cells of both hemispheres')
            for label, values, wanted in zip(('value', 'error', 'local error'), (found.measurement, found.uncorrelatederror, found.locallycorrelatederror[0]), joined):
                mon.close(values[~hidden], wanted.data[~hidden], label + ' of both hemispheres', rtol=1e-6, atol=1e-6)
        mon.case(('ice', spacing, gap, tuple(rows)), True)

        def other(name, lat, lon_points, part):
            path = os.path.join(folder, name + '.nc')
            table = {n: v[:, :len(lon_points)] for n, v in tables[part].items()}
            write_grid(path, table, lat, lon_points, day, rng, precision='f8')
            return path
        write_grid(os.path.join(folder, 'south8.nc'), tables[0], lats[0], lon, day, rng, precision='f8')
        south, north = os.path.join(folder, 'south8.nc'), other('north8', lats[1], lon, 1)
        faults = {'files exchanged': [north, south], 'one file': [south], 'three files': [south, north, north], 'the same file twice': [south, south],
                  'longitudes moved': [south, other('a', lats[1], lon + 0.01, 1)],
                  'another spacing': [south, other('b', lats[1][0] + spacing * 1.5 * numpy.arange(rows[1]), lon, 1)],
                  'decreasing latitudes': [other('c', lats[0][::-1], lon, 0), north]}
        if rows[0] > 2:
            faults['changing spacing'] = [other('d', lats[0] + numpy.where(numpy.arange(rows[0]) == 1, 0.01 * spacing, 0), lon, 0), north]
        for fault in rng.choice(sorted(faults), 3, replace=False):
            mon.count('refused')
            mon.raises(lambda: ObservationSourceIceDMICombined(faults[fault]), fault, ValueError)


SCENARIOS = [(convert_land, 5, 60), (convert_ocean, 5, 60), (failing_program, 3, 20), (post_process, 60, 1500), (read_ocean_file, 30, 300), (read_land_file, 30, 300), (read_ice_files, 40, 400)]
