"""Product files: packed values, masks, axes, station series and the verification of the format."""

import argparse
import datetime
import io
import os

import netCDF4
import numpy

from eustace.outputformats import definitions
from eustace.outputformats.ensuredirectory import ensuredirectory
from eustace.outputformats.filebuilder import FileBuilder
from eustace.outputformats.globalfield import GlobalFieldAxes2DWithTime
from eustace.outputformats.globalfield_filebuilder import DatasetAttributesGlobalField, FileBuilderGlobalField
from eustace.outputformats.outputvariable import OutputVariable, OutputVariableTemplate
from eustace.outputformats.stationdata import StationBreak, StationBreakDetectionQuality, StationData, StationDescription
from eustace.outputformats.stationdata import StationDescriptionArray, StationTemperatureSample
from eustace.outputformats.stations import FileBuilderStationData
from eustace.outputformats.verify.verify_globalfield import VerifyGlobalField
from eustace.outputformats.verify.verify_stations import VerifyStationData

NEEDS = {'extension': True}
RULE = """Random fields up to the limits of packing, random masks and days are written to global files, and random samples, detection periods and
breaks to station files; the files are read by the netCDF library and every value, mask, axis, bound and attribute judged against what
was given. Every file must pass the verification of the package, and files in which one required thing was removed or altered must not.
Non-trivial: some values are missing and some are not, or a deviation."""
REQUIRED = {'global files': 12, 'packed values': 1000000, 'missing values': 100000, 'station files': 30, 'samples': 500, 'breaks': 40, 'verified': 60, 'rejected': 100, 'variables': 60, 'series': 5000}
ASSUMPTIONS = ['Files are read by the netCDF library of the environment', 'Values are finite and within the range of the packed type']
EPOCH = datetime.datetime(1850, 1, 1)

VARIABLES = [definitions.TAS, definitions.TASMIN, definitions.TASMAX, definitions.TASUNCERTAINTY, definitions.TASMINUNCERTAINTY, definitions.TASMAXUNCERTAINTY,
             definitions.TAS_CLIMATOLOGY_FRACTION, definitions.TASMIN_CLIMATOLOGY_FRACTION, definitions.TAS_OBSERVATION_INFLUENCE,
             definitions.TASMAX_OBSERVATION_INFLUENCE, definitions.TASENSEMBLE, definitions.TASMINENSEMBLE, definitions.TASMAXENSEMBLE,
             definitions.TASPERTURBATION, definitions.TASMINPERTURBATION, definitions.TASMAXPERTURBATION]
PACKING = {'air_temperature': (0.005, 273.15), 'uncertainty': (0.001, 0.0), 'fraction': (1.5625e-05, 0.5), 'influence': (1.5625e-05, 0.5), 'ensemble': (0.005, 273.15), 'perturbation': (0.005, 0.0)}


def packing(name):
    for part in ('uncertainty', 'fraction', 'influence', 'ensemble', 'perturbation'):
        if part in name:
            return PACKING[part]
    return PACKING['air_temperature']


def field(rng, shape, scale, offset):
    """Values of any size that fits, some of them exactly at steps, halves and limits; a mask."""
    low, high = offset - 32766.4 * scale, offset + 32766.4 * scale
    style = rng.randint(4)
    if style == 0:
        values = rng.uniform(low, high, shape)
    elif style == 1:
        values = offset + scale * rng.randint(-32767, 32768, shape)
    elif style == 2:
        values = rng.normal(offset, 20 * scale, shape)
    else:
        values = numpy.full(shape, [low, high, offset, -95 + 273.15 if offset > 200 else offset][rng.randint(4)])
    values = numpy.clip(values, low, high)
    spread = rng.randint(4)
    if spread == 0:
        mask = numpy.zeros(shape, bool)
    elif spread == 1:
        mask = numpy.ones(shape, bool)
    else:
        mask = rng.uniform(size=shape) < rng.uniform(0.05, 0.95)
    if spread == 0 and rng.randint(2):
        return values, mask, values
    hidden = values.copy()
    hidden[mask] = [0.0, 1e20, -9999.0, definitions.TEMPERATURE_FILL_VALUE][rng.randint(4)]
    return values, mask, numpy.ma.masked_array(hidden, mask)


def judge(mon, ncvar, values, mask, scale, offset):
    ncvar.set_auto_maskandscale(False)
    raw = ncvar[:]
    mon.equal(raw.dtype, numpy.dtype('int16'), 'packed type of ' + ncvar.name)
    mon.same(raw == -32768, mask, 'missing values of ' + ncvar.name)
    ncvar.set_auto_maskandscale(True)
    back = ncvar[:]
    mon.same(numpy.ma.getmaskarray(back), mask, 'mask of ' + ncvar.name)
    error = numpy.abs(back.data[~mask] - values[~mask])
    mon.check(not len(error) or error.max() <= 0.5 * scale * (1 + 1e-6), lambda: 'values of %s differ by %g' % (ncvar.name, error.max()))
    mon.close(ncvar.scale_factor, scale, 'scale of ' + ncvar.name, rtol=1e-12, atol=0)
    mon.close(ncvar.add_offset, offset, 'offset of ' + ncvar.name, rtol=1e-12, atol=0)
    mon.count('packed values', int((~mask).sum()))
    mon.count('missing values', int(mask.sum()))


def a_day(rng):
    kind = rng.randint(4)
    if kind == 0:
        return int(rng.randint(-20000, 0))
    if kind == 1:
        return (datetime.datetime(int(rng.randint(1851, 2100)), 1, 1) - EPOCH).days + int(rng.randint(-1, 1))
    return int(rng.randint(0, 90000))


def made_global(rng, folder, day, count):
    folder = os.path.join(folder, *['Sub%d' % k for k in range(rng.randint(3))])
    attributes = DatasetAttributesGlobalField(dataset='Set%d' % rng.randint(100), version='1', mainvariable=str(rng.choice(['tas', 'tasmin', 'tasmax', 'Other'])), institution='I%d' % rng.randint(9), comment='c',
                                              history='h%d' % rng.randint(9), source='s')
    pathname = attributes.build_pathname(folder, day)
    when = EPOCH + datetime.timedelta(days=day)
    return folder, attributes, pathname, FileBuilderGlobalField(pathname, day, **attributes.__dict__), when


def global_file(rng, mon):
    with mon.scratch() as folder:
        day = a_day(rng)
        folder, attributes, pathname, builder, when = made_global(rng, folder, day, 3)
        expected = os.path.join(folder, '%04d' % when.year, '%s_set%s_eustace_0_%04d%02d%02d.nc' % (attributes.mainvariable, attributes.dataset[3:], when.year, when.month, when.day))
        mon.equal(pathname, expected, 'name of the file')
        chosen = [VARIABLES[i] for i in rng.choice(len(VARIABLES), int(rng.randint(1, 4)), replace=False)]
        if not set(v.name for v in chosen) & set(['tas', 'tasmin', 'tasmax']):
            chosen[0] = definitions.TAS
        fields = {}
        for variable in chosen:
            scale, offset = packing(variable.name)
            fields[variable.name] = field(rng, (1, 720, 1440), scale, offset)
            builder.add_global_field(variable, fields[variable.name][2])
        extra = field(rng, (1, 720, 1440), 0.001, 0.0)
        builder.add_uncertainty_parameter('more', 'More uncertainty', extra[2])
        builder.save_and_close()
        mon.check(not builder.nc.isopen(), 'file is closed')
        out = io.StringIO()
        passed = VerifyGlobalField().run(argparse.Namespace(pathname=pathname), out)
        mon.check(passed, lambda: 'file of the package does not pass its verification\n' + out.getvalue())
        mon.count('verified')
        nc = netCDF4.Dataset(pathname)
        try:
            for name in fields:
                judge(mon, nc.variables[name], fields[name][0], fields[name][1], *packing(name))
            judge(mon, nc.variables['more'], extra[0], extra[1], 0.001, 0.0)
            mon.equal((nc.variables['more'].units, nc.variables['more'].long_name), ('K', 'More uncertainty'), 'uncertainty parameter')
            mon.close(nc.variables['latitude'][:], -89.875 + 0.25 * numpy.arange(720), 'latitudes', rtol=0, atol=1e-5)
            mon.close(nc.variables['longitude'][:], -179.875 + 0.25 * numpy.arange(1440), 'longitudes', rtol=0, atol=2e-5)
            mon.close(nc.variables['timeoffset'][:], (-179.875 + 0.25 * numpy.arange(1440)) / 360.0, 'offset of local time', rtol=0, atol=1e-6)
            mon.equal(nc.variables['time'][:].tolist(), [float(day)], 'time')
            mon.equal(nc.variables['timebounds'][:].tolist(), [[float(day), float(day + 1)]], 'bounds of time')
            mon.equal(nc.variables['time'].units, 'days since 1850-01-01T00:00:00Z', 'units of time')
            mon.equal(netCDF4.num2date(float(day), nc.variables['time'].units, nc.variables['time'].calendar).strftime('%Y-%m-%d') if day >= 0 else '', when.strftime('%Y-%m-%d') if day >= 0 else '', 'day')
            mon.equal((nc.title, nc.institution, nc.comment, nc.history, nc.source, nc.Conventions),
                      ('EUSTACE Surface Air Temperature Estimates ' + attributes.dataset, attributes.institution, attributes.comment, attributes.history, attributes.source, 'CF-1.6'), 'attributes')
            mon.equal(nc.variables[chosen[0].name].dimensions, ('time', 'latitude', 'longitude'), 'dimensions of a field')
        finally:
            nc.close()
        fraction = float(rng.choice([0.0, 0.5, 0.25]))
        axes = GlobalFieldAxes2DWithTime(day + fraction).aslist()
        for axis, first, step, count in zip(axes, [day + fraction, -89.875, -179.875], [1.0, 0.25, 0.25], [1, 720, 1440]):
            coordinate = numpy.asarray(axis.axis_coordinates().points)
            mon.close(coordinate, first + step * numpy.arange(count), 'axis ' + str(axis.var_name), rtol=0, atol=1e-9)
        where = numpy.concatenate([rng.uniform(-90, 90, 50), -90 + 0.25 * rng.randint(0, 720, 10)])
        mon.same(axes[1].compute_indices(where).astype(int), numpy.floor((where + 90) / 0.25).astype(int), 'rows of latitudes')
        where = numpy.concatenate([rng.uniform(-180, 180, 50), -180 + 0.25 * rng.randint(0, 1440, 10), [180.0]])
        mon.same(axes[2].compute_indices(where).astype(int), numpy.floor((where + 180) / 0.25).astype(int) % 1440, 'columns of longitudes')
        mon.equal(int(axes[1].compute_indices(numpy.array([90.0]))[0]), 719, 'row of the north pole')
    mon.count('global files')
    mon.case(('global', tuple(sorted(fields)), day < 0, tuple(int(m.any()) + 2 * int((~m).any()) for v, m, g in fields.values())),
             nontrivial=any(m.any() and not m.all() for v, m, g in fields.values()))


def variables(rng, mon):
    """Descriptions of variables: templates, extension, names; small files of any kind."""
    base = OutputVariableTemplate(numpy.int16, -32768, template_long_name='{component} of {quantity_2} T', scale_factor=0.01, units='K')
    part, quantity = str(rng.choice(['random', 'local', 'x'])), str(rng.choice(['mean', 'minimum']))
    wider = OutputVariableTemplate.extend(base, units='C', valid_range=[0, 1])
    mon.equal((base.units, base.valid_range, wider.units, wider.valid_range, wider.scale_factor), ('K', None, 'C', [0, 1], 0.01), 'extended template')
    named = OutputVariable.from_template(wider, 'name', component=part, quantity_2=quantity, cell_methods='time: mean', valid_range=[3, 4])
    mon.equal((named.name, named.long_name, named.units, named.cell_methods, named.dtype, named.fill_value, named.scale_factor),
              ('name', part[0].upper() + part[1:] + ' of ' + quantity + ' T', 'C', 'time: mean', numpy.int16, -32768, 0.01), 'variable from a template')
    mon.equal(set(named.get_metadata()), set(['long_name', 'units', 'cell_methods', 'scale_factor', 'valid_range']), 'metadata')
    mon.equal((named.valid_range, wider.valid_range), ([3, 4], [0, 1]), 'metadata given in place of that of the template')
    mon.equal(OutputVariable.from_template(base, 'a', long_name='Given').long_name, 'Given', 'given name')
    with mon.scratch() as folder:
        path = os.path.join(*([folder] + ['D%d' % k for k in range(rng.randint(4))] + ['f.nc']))
        ensuredirectory(path)
        ensuredirectory(path)
        mon.check(os.path.isdir(os.path.dirname(path)) and not os.path.exists(path), 'directory of a file')
        with open(os.path.join(folder, 'taken'), 'w') as stream:
            stream.write('x')
        mon.raises(lambda: ensuredirectory(os.path.join(folder, 'taken', 'f.nc')), 'directory in place of a file', OSError)
        builder = FileBuilder()
        builder.create(path, 't', 'i', 'c', 'h', 's')
        shape = tuple(int(n) for n in rng.randint(1, 9, int(rng.randint(1, 4))))
        for k, n in enumerate(shape):
            builder.add_dimension_and_variable('d%d' % k, OutputVariable('d%d' % k, numpy.float32, None, units='m'), numpy.arange(n) * 1.5, unlimited=bool(k == 0 and rng.randint(2)))
        dtype = [numpy.float32, numpy.float64, numpy.int32, numpy.int16, numpy.uint8][rng.randint(5)]
        fill = None if rng.randint(3) == 0 else (-99 if dtype != numpy.uint8 else 250)
        values = rng.randint(0, 200, shape).astype(dtype)
        if numpy.dtype(dtype).kind == 'f':
            values = rng.normal(0, 10.0 ** rng.uniform(-6, 4), shape).astype(dtype)
            values[rng.uniform(size=shape) < 0.1] = 0
        mask = rng.uniform(size=shape) < 0.3
        builder.add_variable(OutputVariable('v', dtype, fill, standard_name='sn', flag_values=[1, 2]), ['d%d' % k for k in range(len(shape))],
                             numpy.ma.masked_array(values, mask), complevel=int(rng.randint(0, 5)))
        builder.save_and_close()
        mon.check(not builder.nc.isopen(), 'file is closed')
        nc = netCDF4.Dataset(path)
        try:
            back = nc.variables['v'][:]
            if fill is None:
                back = numpy.ma.masked_array(back, mask) if dtype == numpy.uint8 else back
            mon.same(numpy.ma.getmaskarray(back), mask, 'mask of a small file')
            mon.same(back.data[~mask], values[~mask], 'values of a small file')
            mon.equal((nc.variables['v'].standard_name, nc.variables['v'].dtype, list(nc.variables['v'].flag_values)), ('sn', numpy.dtype(dtype), [1, 2]), 'description of a small file')
            mon.equal(nc.variables['v'].dimensions, tuple('d%d' % k for k in range(len(shape))), 'dimensions of a small file')
            for k, n in enumerate(shape):
                mon.same(numpy.asarray(nc.variables['d%d' % k][:], float), numpy.arange(n) * 1.5, 'axis of a small file')
        finally:
            nc.close()
    mon.count('variables')
    mon.case(('small', shape, numpy.dtype(dtype).name, fill), nontrivial=bool(mask.any()) and not mask.all())


def made_stations(rng, mon, folder):
    """A pair of station files from random samples, and what they should hold."""
    letters = 'abcdefghijklmnopqrstuvwxyzABC -_0123'
    names = []
    while len(names) < rng.randint(1, 7):
        name = ([' ', '', '', ''][rng.randint(4)] + 'S%d' % len(names) + ''.join(letters[i] for i in rng.randint(0, len(letters), int(rng.randint(0, 32)))) + '.' * int(rng.randint(2)))[:32]
        name = name.ljust(32, '#') if rng.randint(6) == 0 else name
        if name not in names:
            names.append(name)
    where = [(float(rng.uniform(-90, 90)), float(rng.uniform(-180, 180)), float(rng.uniform(-400, 5000))) for n in names]
    descriptions = StationDescriptionArray([StationDescription(n, *w) for n, w in zip(names, where)])
    mon.equal([(d.name, d.latitude, d.longitude, d.elevation) for d in descriptions.stations], [(n,) + w for n, w in zip(names, where)], 'descriptions of stations')
    mon.equal((descriptions.get_station_names(), descriptions.get_number_of_stations(), [descriptions.get_station_index(n) for n in names], descriptions.get_station_index('?')),
              (names, len(names), list(range(len(names))), None), 'table of stations')
    data = StationData(descriptions)
    first = int(rng.randint(20000, 60000))
    days = sorted(set((first + rng.randint(0, 60, int(rng.randint(1, 20)))).tolist()))
    half = 0.5 if rng.randint(2) else 0.0
    expected = {'tasmin': {}, 'tasmax': {}, 'tasmin_qc': {}, 'tasmax_qc': {}}
    order = [(d, n) for d in days for n in names if rng.uniform() < 0.7]
    again = [int(i) for i in rng.randint(0, len(order), int(rng.randint(0, 4)))] if order else []
    for i in rng.permutation(len(order)).tolist() + again:
        d, n = order[i]
        lo, hi = float(rng.uniform(200, 290)), float(rng.uniform(290, 330))
        a, b = int(rng.randint(0, 255)), int(rng.randint(0, 255))
        jitter = float(rng.choice([0.0, 0.0, 1e-4, -1e-4, 2e-4, -2e-4]))
        data.add_temperature_sample(StationTemperatureSample(station_name=n, time=d + half + jitter, tasmin=lo, tasmax=hi, tasmin_qc=a, tasmax_qc=b))
        for key, value in (('tasmin', lo), ('tasmax', hi), ('tasmin_qc', a), ('tasmax_qc', b)):
            expected[key][(d, n)] = value
    used = sorted(set(d for d, n in order))
    axis = data.get_unique_temperature_sample_times()
    mon.close(numpy.array(axis), numpy.array(used, float) + half, 'times of samples', rtol=0, atol=2.5e-4)
    if rng.randint(2) and used:
        axis = [float(d) + half for d in used]
    axis = [float(t) for t in axis]
    periods = [(float(first + 10 * k), int(rng.randint(3)), int(rng.randint(3))) for k in range(int(rng.randint(0, 4)))]
    for p in periods:
        data.add_break_detection_period(StationBreakDetectionQuality(*p))
    breaks = {'tasmin': [], 'tasmax': []}
    for variable in (definitions.TASMIN, definitions.TASMAX):
        for k in range(int(rng.randint(0, 4))):
            t = float(rng.randint(20000, 60000))
            one = (names[rng.randint(len(names))], float(numpy.float32(rng.normal(0, 3))) * int(rng.randint(5) > 0), [t, t + 30], [t - 100, t + 100])
            breaks[variable.name].append(one)
            data.add_break(variable, StationBreak(*one))
    region, version = str(rng.choice(['Some', 'South Africa', 'EU_2'])), str(rng.choice(['2', '12', '1.0a']))
    builder = FileBuilderStationData(folder, region=region, version=version, institution='i', comment='c', history='h', source='s')
    builder.set_temperature_dimensions(descriptions, numpy.array(axis, numpy.float32))
    for variable in (definitions.TASMIN, definitions.TASMIN_QC, definitions.TASMAX, definitions.TASMAX_QC):
        builder.add_temperature_variable(variable, data.get_temperature_samples(axis, variable))
    for name in (definitions.DIMENSION_NAME_DETECTION_TIME, definitions.DIMENSION_NAME_TASMIN_BREAK, definitions.DIMENSION_NAME_TASMAX_BREAK):
        builder.add_status_dimension(name)
    for variable in (definitions.DETECTION_TIME, definitions.TASMIN_DETECTION_QC, definitions.TASMAX_DETECTION_QC):
        builder.add_status_variable(definitions.DIMENSION_NAME_DETECTION_TIME, variable, data.get_break_detection_quality_variable(variable))
    for name, parts in (('tasmin', [definitions.TASMIN_BREAK_STATION, definitions.TASMIN_BREAK_AMPLITUDE, definitions.TASMIN_BREAK_TIME_BOUNDS, definitions.TASMIN_BREAK_TIME_AFFECTED_BOUNDS]),
                        ('tasmax', [definitions.TASMAX_BREAK_STATION, definitions.TASMAX_BREAK_AMPLITUDE, definitions.TASMAX_BREAK_TIME_BOUNDS, definitions.TASMAX_BREAK_TIME_AFFECTED_BOUNDS])):
        for k, variable in enumerate(parts):
            builder.add_status_variable(name + '_break', variable, data.get_break_variable(variable), bounds=k >= 2)
    builder.save_and_close()
    mon.check(not builder.temperature.nc.isopen() and not builder.status.nc.isopen(), 'both station files are closed')
    return builder, os.path.join(folder, 'eustace_stations_%s_%s' % (region.lower(), version)), names, used, axis, half, expected, periods, breaks


def stations(rng, mon):
    with mon.scratch() as folder:
        builder, prefix, names, used, axis, half, expected, periods, breaks = made_stations(rng, mon, folder)
        out = io.StringIO()
        mon.check(VerifyStationData().run(argparse.Namespace(pathnameprefix=prefix), out), lambda: 'station files do not pass their verification\n' + out.getvalue())
        mon.count('verified')
        nc = netCDF4.Dataset(prefix + '_temperature.nc')
        try:
            got = [b''.join(c for c in row if c is not numpy.ma.masked).decode().rstrip('\0') for row in numpy.ma.filled(nc.variables['station_name'][:], b'')]
            mon.equal(got, names, 'names of stations')
            mon.close(numpy.asarray(nc.variables['time'][:], float), numpy.array(axis), 'times of the file', rtol=1e-7, atol=0)
            mon.close(numpy.asarray(nc.variables['timebounds'][:], float), numpy.array([[t, t + 1] for t in axis]).reshape((-1, 2)), 'bounds of times', rtol=1.3e-7, atol=0)
            for key in expected:
                nc.variables[key].set_auto_mask(False)
                nc.variables[key].set_auto_scale(False)
                raw = nc.variables[key][:]
                missing = -32768 if raw.dtype == numpy.int16 else 255
                for i, d in enumerate(used):
                    for j, n in enumerate(names):
                        if (d, n) in expected[key]:
                            value = raw[i, j] * 0.005 + 273.15 if raw.dtype == numpy.int16 else raw[i, j]
                            mon.check(raw[i, j] != missing and abs(value - expected[key][(d, n)]) < 0.00257, lambda: '%s of %s on %d is %r, given %r' % (key, n, d, value, expected[key][(d, n)]))
                            mon.count('samples')
                        else:
                            mon.equal(raw[i, j], missing, 'no %s of %s on %d' % (key, n, d))
            mon.equal(nc.featureType, 'timeSeries', 'kind of file')
        finally:
            nc.close()
        nc = netCDF4.Dataset(prefix + '_status.nc')
        try:
            mon.equal([float(v) for v in nc.variables['detection_time'][:]], [p[0] for p in periods], 'detection times')
            mon.equal([int(v) for v in nc.variables['tasmin_detection_qc'][:]], [p[1] for p in periods], 'detection of minimum')
            mon.equal([int(v) for v in nc.variables['tasmax_detection_qc'][:]], [p[2] for p in periods], 'detection of maximum')
            for key in breaks:
                mon.equal([names[v] for v in nc.variables[key + '_break_station'][:]], [b[0] for b in breaks[key]], 'stations of breaks')
                mon.equal([float(v) for v in nc.variables[key + '_break_amplitude'][:]], [b[1] for b in breaks[key]], 'amplitudes of breaks')
                mon.equal([list(map(float, v)) for v in nc.variables[key + '_break_time_bounds'][:]], [b[2] for b in breaks[key]], 'bounds of breaks')
                mon.equal([list(map(float, v)) for v in nc.variables[key + '_break_time_affected_bounds'][:]], [b[3] for b in breaks[key]], 'bounds of periods affected')
                mon.count('breaks', len(breaks[key]))
        finally:
            nc.close()
        data = StationData(StationDescriptionArray([StationDescription(n, 0.0, 1.0, 2.0) for n in names]))
        data.add_temperature_sample(StationTemperatureSample('no such station', 3.0, 280.0, 0, 290.0, 0))
        mon.raises(lambda: data.get_temperature_samples([3.0], definitions.TASMIN), 'sample of a station that is not described', Exception)
    mon.count('station files')
    mon.case(('stations', len(names), len(used), len(periods), len(breaks['tasmin']), len(breaks['tasmax'])), nontrivial=len(expected['tasmin']) < len(names) * len(used))


def series(rng, mon):
    """Samples of stations on axes of time in any order, of times close together and of any value."""
    names = ['S%d' % k for k in range(int(rng.randint(1, 6)))]
    data = StationData(StationDescriptionArray([StationDescription(n, 0.0, 1.0, 2.0) for n in names]))
    apart = float(rng.choice([0.00062, 0.001, 0.004, 0.05, 0.25, 1.0]))
    start = float(rng.choice([0.0, 7.0, 50000.0, -3000.0])) + float(rng.choice([0.0, 0.5, 0.9995]))
    times = [start + apart * k for k in range(int(rng.randint(1, 12)))]
    near = 0.00005 if apart < 0.001 else 0.0002
    expected = {}
    used = set()
    for i in range(int(rng.randint(0, 40))):
        k, n = int(rng.randint(len(times))), names[rng.randint(len(names))]
        given = {'tasmin': float(rng.choice([0.0, -1.0, 273.15, rng.uniform(150, 330)])), 'tasmax': float(rng.choice([0.0, rng.uniform(150, 330)])),
                 'tasmin_qc': int(rng.choice([0, 1, rng.randint(256)])), 'tasmax_qc': int(rng.choice([0, 1, rng.randint(256)]))}
        data.add_temperature_sample(StationTemperatureSample(station_name=n, time=times[k] + near * float(rng.uniform(-1, 1)) * int(rng.randint(2)), **given))
        expected[(k, n)] = given
        used.add(k)
    found = data.get_unique_temperature_sample_times()
    mon.close(numpy.array(found, float), numpy.array([times[k] for k in sorted(used)], float), 'different times', rtol=0, atol=0.0003)
    order = [int(k) for k in rng.permutation(len(times))]
    if rng.randint(3) == 0:
        order = sorted(order)
    axis = [times[k] for k in order]
    axis = numpy.array(axis) if rng.randint(2) else axis
    before = list(axis)
    for variable in (definitions.TASMIN, definitions.TASMIN_QC, definitions.TASMAX, definitions.TASMAX_QC):
        got = data.get_temperature_samples(axis, variable)
        mon.equal((got.shape, got.dtype), ((len(times), len(names)), numpy.dtype('float32')), 'series of samples')
        mask = numpy.ma.getmaskarray(got)
        for i, k in enumerate(order):
            for j, n in enumerate(names):
                if (k, n) in expected:
                    mon.check(not mask[i, j] and got.data[i, j] == numpy.float32(expected[(k, n)][variable.name]), lambda: '%s of %s at %r: %r, given %r' % (variable.name, n, times[k], got[i, j], expected[(k, n)]))
                    mon.count('series')
                else:
                    mon.check(bool(mask[i, j]), 'no sample')
    mon.equal(list(axis), before, 'axis is left alone')
    if used:
        mon.raises(lambda: data.get_temperature_samples([t for i, t in enumerate(times) if i != min(used)], definitions.TASMIN), 'sample outside the axis', ValueError)
    mon.case(('series', apart, len(times), len(expected)), nontrivial=bool(used) and len(expected) < len(times) * len(names))


GLOBAL = ({'latitude': 720, 'longitude': 1440, 'time': None, 'bounds': 2},
          {'time': ('f4', ['standard_name', 'long_name', 'units', 'calendar', 'axis', 'bounds', 'ancillary_variables']), 'timebounds': ('f4', []), 'timeoffset': ('f4', ['long_name', 'units']),
           'latitude': ('f4', ['standard_name', 'long_name', 'units', 'axis']), 'longitude': ('f4', ['standard_name', 'long_name', 'units', 'axis']),
           'tas': ('i2', ['standard_name', 'long_name', 'units', 'cell_methods']), 'tasmin': ('i2', ['standard_name', 'long_name', 'units', 'cell_methods']),
           'tasmax': ('i2', ['standard_name', 'long_name', 'units', 'cell_methods'])})
PLACES = {'latitude': {'standard_name': 'latitude', 'long_name': 'Latitude (deg)', 'units': 'degrees_north'},
          'longitude': {'standard_name': 'longitude', 'long_name': 'Longitude (deg)', 'units': 'degrees_east'},
          'elevation': {'long_name': 'Height above the geoid (m)', 'standard_name': 'surface_altitude', 'units': 'm'}}
DEVIATIONS = 9
TEMPERATURE = ({'time': None},
               {'time': ('f4', ['standard_name', 'long_name', 'units', 'calendar']), 'tasmin': ('i2', ['standard_name', 'long_name', 'units', 'cell_methods']),
                'tasmax': ('i2', ['standard_name', 'long_name', 'units', 'cell_methods']), 'station_name': ('S1', ['long_name', 'cf_role']), 'latitude': ('f4', sorted(PLACES['latitude'])), 'longitude': ('f4', sorted(PLACES['longitude'])),
                'elevation': ('f4', sorted(PLACES['elevation'])),
                'tasmin_qc': ('u1', ['long_name', 'standard_name', 'valid_range*', 'flag_masks*', 'flag_meanings*']),
                'tasmax_qc': ('u1', ['long_name', 'standard_name', 'valid_range*', 'flag_masks*', 'flag_meanings*'])})
STATUS = ({'detection_time': None, 'tasmin_break': None, 'tasmax_break': None, 'bounds': 2},
          dict([('detection_time', ('f4', ['standard_name', 'long_name', 'units']))] +
               [(q + '_detection_qc', ('u1', ['long_name', 'standard_name', 'valid_range', 'flag_values', 'flag_meanings'])) for q in ('tasmin', 'tasmax')] +
               [(q + '_break_station', ('i4', ['long_name'])) for q in ('tasmin', 'tasmax')] +
               [(q + part, ('f4', ['long_name', 'units'])) for q in ('tasmin', 'tasmax') for part in ('_break_amplitude', '_break_time_bounds', '_break_time_affected_bounds')]))


def altered(source, target, change):
    """Copy a file with one change, which is (what, name, ...)."""
    a, b = netCDF4.Dataset(source), netCDF4.Dataset(target, 'w')
    a.set_auto_maskandscale(False)
    what = change[0]
    try:
        for key in a.ncattrs():
            if change[:2] == ('no attribute', key):
                continue
            b.setncattr(key, 'other' if change[:2] == ('attribute', key) else a.getncattr(key))
        size = {}
        for key, dim in a.dimensions.items():
            n = None if dim.isunlimited() else len(dim)
            if what == 'dimension' and change[1] == key:
                n = (len(dim) or 1) if n is None else (None if change[2] else n + 1)
            size[key] = 'other_' + key if what == 'no dimension' and change[1] == key else key
            b.createDimension(size[key], n)
        for key, var in a.variables.items():
            if what == 'only' and key in change[1]:
                continue
            dtype = change[2] if what == 'type' and change[1] == key else var.dtype
            made = b.createVariable(key, dtype, [size[d] for d in var.dimensions])
            for name in var.ncattrs():
                if name == '_FillValue' or (what == 'no metadata' and change[1:3] == (key, name)):
                    continue
                made.setncattr(name, change[3] if what == 'metadata' and change[1:3] == (key, name) else var.getncattr(name))
            if what == 'dimension' and change[1] in var.dimensions and len(var.dimensions) < 3 and change[2] and 0 not in var.shape:
                made[:] = numpy.zeros(var.shape, dtype) if numpy.dtype(dtype).kind != 'S' else b'x'
            if what == 'metadata' and change[1] == key and change[2] not in var.ncattrs():
                made.setncattr(change[2], change[3])
    finally:
        a.close()
        b.close()


def deviations(table):
    """All departures of a file from its specification, as (what, name, ...)."""
    dimensions, known = table
    found = [('no attribute', name) for name in ('title', 'institution', 'source', 'history', 'Conventions')]
    found += [('attribute', 'Conventions'), ('only', tuple(known))]
    found += [('dimension', name, growing) for name in sorted(dimensions) for growing in (False, True)] + [('no dimension', name) for name in sorted(dimensions)]
    for name in sorted(known):
        found.append(('type', name))
        found += [('no metadata', name, part.rstrip('*')) for part in known[name][1]] + [('metadata', name, part) for part in known[name][1] if not part.endswith('*')]
    return found


def deviation(rng, table, change):
    if change[0] == 'type':
        return change + ([t for t in ('f8', 'i8', 'u2') if t != table[1][change[1]][0]][rng.randint(3)],)
    if change[0] == 'metadata':
        return change + (['other', '', numpy.array([1, 2], 'i4'), numpy.array([0, 1, 2, 3], 'u1'), numpy.array([3, 4, 5], 'u1'), 1.5][rng.randint(6)],)
    return change


def verification(rng, mon):
    with mon.scratch() as folder:
        if mon.index % 2:
            prefix = made_stations(rng, mon, folder)[1]
            with netCDF4.Dataset(prefix + '_temperature.nc', 'a') as nc:
                for name in sorted(PLACES):
                    if name not in nc.variables:
                        nc.createVariable(name, 'f4', ('station',)).setncatts(PLACES[name])
            files = {'_temperature.nc': TEMPERATURE, '_status.nc': STATUS}

            def verify(p):
                return VerifyStationData().run(argparse.Namespace(pathnameprefix=p), io.StringIO())
        else:
            inside, attributes, prefix, builder, when = made_global(rng, folder, a_day(rng), 0)
            for variable in (definitions.TAS, definitions.TASMIN, definitions.TASMAX):
                builder.nc.createVariable(variable.name, variable.dtype, ('time', 'latitude', 'longitude'), fill_value=variable.fill_value)
                for key, value in variable.get_metadata().items():
                    builder.nc.variables[variable.name].setncattr(key, value)
            builder.save_and_close()
            files = {'': GLOBAL}

            def verify(p):
                return VerifyGlobalField().run(argparse.Namespace(pathname=p), io.StringIO())
        mon.check(verify(prefix), 'file as written')
        mon.count('verified')
        possible = [(name, change) for name in sorted(files) for change in deviations(files[name])]
        for k in range(DEVIATIONS):
            name, change = possible[(mon.index // 2 * DEVIATIONS + k) % len(possible)]
            change = deviation(rng, files[name], change)
            target = os.path.join(folder, 'other%d' % k)
            for each in files:
                altered(prefix + each, target + each, change if each == name else ('none',))
            mon.check(not verify(target), lambda: 'a file with deviation %r passes' % (change,))
            mon.count('rejected')
            mon.case(('deviation', name, change[0], str(change[1]), str(change[2:])[:40]))
        target = os.path.join(folder, 'same')
        for each in files:
            altered(prefix + each, target + each, ('none',))
        mon.check(verify(target), 'copy without deviation passes')
        name = sorted(files)[rng.randint(len(files))]
        target = os.path.join(folder, 'damaged')
        for each in files:
            altered(prefix + each, target + each, ('none',))
        if rng.randint(2):
            os.remove(target + name)
        else:
            size = os.path.getsize(target + name)
            with open(target + name, 'r+b') as stream:
                stream.truncate(int(rng.randint(0, min(size, 300))))
        mon.check(not verify(target), 'an absent or truncated file passes')
        mon.count('rejected')


SCENARIOS = [(global_file, 24, 300), (variables, 120, 2000), (stations, 60, 1500), (series, 400, 8000), (verification, 40, 800)]
