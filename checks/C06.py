"""Bin operations on grids agree with per-cell statistics of their inputs."""

import argparse
import io
import json
import os
import sys

import netCDF4
import numpy
from iris.coords import AuxCoord
from iris.cube import Cube

import satdata
import stand
from eustace.satgrid_iris import command, saver
from eustace.satgrid_iris.gridbin.gridbin import GridBins
from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis, GridFieldDescriptor
from eustace.satgrid_iris.gridbin.operation.count import GridBinOperationCount
from eustace.satgrid_iris.gridbin.operation.sumcountmaxmin import GridBinOperationSumCountMaxMin
from eustace.satgrid_iris.gridbin.operation.sumsq import GridBinOperationSumConstSq, GridBinOperationSumSq
from eustace.satgrid_iris.gridbin.operation.sumsqdev import GridBinOperationSumSqDev
from eustace.satgrid_iris.modis import SatelliteFieldNamesMODIS
from eustace.satgrid_iris.satellite import SatelliteCollection, SatelliteFilenames

NEEDS = {'extension': True}
RULE = """Sequences of randomly masked input cubes go through the bin operations on one grid; after each, the monitor compares
every field and its mask with statistics of the list of inputs mapped to each cell. Whole pipelines run on generated satellite
files (missing files and damaged ones among them) and their output fields are compared cell by cell.
Non-trivial: some cell received two or more inputs and another none."""
REQUIRED = {'inputs': 10000, 'cells': 2000, 'masked inputs': 2000, 'edge inputs': 300, 'wrapped inputs': 30, 'operations': 500, 'refusals': 100,
            'outputs': 25, 'damaged coordinates': 30, 'empty cells': 500, 'command lines': 5, 'without systematic uncertainty': 6, 'pixels on fine grids': 8000}
ASSUMPTIONS = ['Values are chosen such that single precision sums are exact', 'Iris reads and writes NetCDF files correctly']

stand_in = stand.StandIn(saver.write_cubes)     # Iris of this environment cannot be made to pack


def real_axis(axis, name):
    return GridFieldAxis(axis.start - 0.5 * axis.step, axis.step, axis.count, name, axis.wrap, units='degrees')


def axes(rng):
    lat = satdata.an_axis(rng)
    lon = satdata.Axis(-180.0, 30.0, 12, True) if rng.randint(2) else satdata.an_axis(rng, wrap=bool(rng.randint(2)), limit=180.0)
    return lat, lon


def a_cube(rng, lat, lon, number, names, unmasked=False):
    """A cube of float32 measurements with coordinates and another field, in a random two-dimensional shape."""
    shape = satdata.a_shape(rng, number)
    pixels = satdata.Pixels.random(rng, lat, lon, number)
    values = numpy.array(pixels.columns['LST']) - numpy.float32(rng.choice([0, 273.125, 1000]))
    mask = numpy.zeros(number, bool) if unmasked else rng.rand(number) < rng.choice([0.0, 0.3, 1.0], p=[0.2, 0.7, 0.1])
    data = numpy.where(mask & (rng.rand(number) < 0.5), numpy.float32(-32768.0), values).astype(numpy.float32)
    contents = numpy.ma.masked_array(data.reshape(shape), mask=mask.reshape(shape))
    if not mask.any():
        contents = [contents, numpy.ma.masked_array(data.reshape(shape)), data.reshape(shape)][rng.randint(3)]
    cube = Cube(contents, var_name='thing')
    lat_v, lon_v = pixels.columns['lat'].copy(), pixels.columns['lon'].copy()
    if rng.randint(2):    # coordinates under the mask do not matter
        lat_v[mask] = 1000.0
    other = pixels.columns['LST_unc_ran'].data.copy()
    cube.add_aux_coord(AuxCoord(lat_v.reshape(shape), var_name=names[0]), (0, 1))
    cube.add_aux_coord(AuxCoord(lon_v.reshape(shape), var_name=names[1]), (0, 1))
    cube.add_aux_coord(AuxCoord(other.reshape(shape), var_name='other'), (0, 1))
    single = numpy.float32(rng.randint(0, 64) / 64.)
    cube.add_aux_coord(AuxCoord(numpy.array([single], numpy.float32), var_name='single'))
    return cube, lat_v, lon_v, values, other, float(single), mask


class Expected(object):
    """What was mapped to each cell so far."""

    def __init__(self, shape):
        self.shape = shape
        self.inputs = {}

    def add(self, cell, value):
        self.inputs.setdefault(cell, []).append(value)

    def field(self, statistic, initial, start=None):
        data, mask = numpy.empty(self.shape), numpy.ones(self.shape, bool)
        data.fill(initial)
        for cell, values in self.inputs.items():
            data[cell] = statistic(values)
            mask[cell] = False
        return data, mask


def judge(mon, bins, name, expected, what, usemask, rtol=1e-6):
    data, mask = expected
    field = bins.get_field(name).data
    mon.equal(isinstance(field, numpy.ma.MaskedArray), usemask, '%s: whether %s has a mask' % (what, name))
    got = numpy.ma.getdata(field).reshape(mask.shape)
    if usemask:
        mon.same(numpy.ma.getmaskarray(field).reshape(mask.shape), mask, '%s: missing cells of %s' % (what, name))
        mon.close(got[~mask], data[~mask], '%s: %s' % (what, name), rtol=rtol)
        mon.close(got[mask], data[mask], '%s: cells of %s that received nothing' % (what, name), rtol=rtol)
    else:
        mon.close(got, data, '%s: %s' % (what, name), rtol=rtol)


def operations(rng, mon):
    for _ in range(3):
        lat, lon = axes(rng)
        three = bool(rng.randint(3) == 0)
        real = [real_axis(lat, 'latitude'), real_axis(lon, 'longitude')]
        alternative = bool(rng.randint(2))
        names = ['phi', 'lambda_'] if alternative else ['latitude', 'longitude']
        if three:
            real = [GridFieldAxis(-0.5, 1.0, 1, 'time', False)] + real
            names = ['time'] + names
        bins = GridBins(real)
        shape = (lat.count, lon.count)
        use = [bool(rng.randint(2)) for _ in range(6)]
        start = float(rng.choice([0, 0, 8, -16]))
        count = GridBinOperationCount().set_input_descriptor('inputvalue', GridFieldDescriptor('thing')) \
            .set_output_descriptor('count', GridFieldDescriptor('n_all', dtype=numpy.int32, usemask=use[0]), initialvalue=int(start))
        four = GridBinOperationSumCountMaxMin().set_input_descriptor('inputvalue', GridFieldDescriptor('thing')) \
            .set_output_descriptor('total', GridFieldDescriptor('total', dtype=numpy.float32, usemask=use[1]), initialvalue=start) \
            .set_output_descriptor('count', GridFieldDescriptor('n', dtype=numpy.int32, usemask=use[2])) \
            .set_output_descriptor('maximum', GridFieldDescriptor('most', dtype=numpy.float32, usemask=use[3]), initialvalue=-1.0E20) \
            .set_output_descriptor('minimum', GridFieldDescriptor('least', dtype=numpy.float32, usemask=use[4]), initialvalue=1.0E20)
        squares = GridBinOperationSumSq().set_input_descriptor('inputvalue', GridFieldDescriptor('other')) \
            .set_output_descriptor('sumsq', GridFieldDescriptor('squares', dtype=numpy.float32, usemask=use[5]))
        constant = GridBinOperationSumConstSq().set_input_descriptor('singlevalue', GridFieldDescriptor('single')) \
            .set_output_descriptor('sumsq', GridFieldDescriptor('constants', dtype=numpy.float32))
        deviation = GridBinOperationSumSqDev().set_input_descriptor('inputvalue', GridFieldDescriptor('thing')) \
            .set_output_descriptor('existingmean', GridFieldDescriptor('reference', dtype=numpy.float32)) \
            .set_output_descriptor('sumsqdev', GridFieldDescriptor('deviations', dtype=numpy.float32))
        reference = rng.randint(-80, 80, shape).astype(numpy.float32) / 8
        stored = reference.reshape((1,) + shape) if three else reference
        bins.create_field(GridFieldDescriptor('reference', dtype=numpy.float32), numpy.ma.masked_array(stored.copy(), mask=numpy.ones(stored.shape, bool)))
        valid, every, const = Expected(shape), Expected(shape), Expected(shape)
        inputs = 0
        for call in range(int(rng.randint(1, 4))):
            number = int(rng.choice([1, 6, 30, 120])) if call or mon.index % 12 else 6000
            cube, lat_v, lon_v, values, other, single, mask = a_cube(rng, lat, lon, number, names[-2:])
            if three:
                cube.add_aux_coord(AuxCoord(numpy.full(cube.shape, 0.5, numpy.float32), var_name='time'), (0, 1))
            alternative_mask = mask | (rng.rand(number) < 0.5)
            before = {f.var_name: (numpy.array(numpy.ma.getdata(f.data)), numpy.array(numpy.ma.getmaskarray(f.data))) for f in bins}
            data_before, mask_before = numpy.array(numpy.ma.getdata(cube.data)), numpy.array(numpy.ma.getmaskarray(cube.data))
            main = bins.compute_input_map(cube, input_coordinate_names=names if alternative else None)
            part = bins.compute_input_map(cube, alternative_mask=alternative_mask.reshape(cube.shape), input_coordinate_names=names if alternative else None)
            mon.same(main.mapfrom, numpy.nonzero(~mask)[0], 'inputs mapped', event='inputs')
            where = [lat.cell(float(lat_v[i])) * lon.count + lon.cell(float(lon_v[i])) for i in range(number) if not mask[i]]
            mon.same(main.mapto, numpy.array(where, int).reshape(len(where)), 'cells mapped to')
            for f in bins:
                mon.same(numpy.ma.getdata(f.data), before[f.var_name][0], 'field %s after making a map' % f.var_name)
            order = rng.permutation(5)
            for op in [[count, four, squares, constant, deviation][k] for k in order]:
                op.run(part if op is count else main)
                mon.count('operations')
            for i in range(number):
                if not mask[i]:
                    cell = (lat.cell(float(lat_v[i])), lon.cell(float(lon_v[i])))
                    valid.add(cell, (float(values[i]), float(other[i]), float(reference[cell])))
                    const.add(cell, single)
                    if not alternative_mask[i]:
                        every.add(cell, 1)
            what, slack = 'after call %d' % call, max(1e-6, 1.2e-7 * (inputs + number))     # of sums in single precision
            judge(mon, bins, 'n_all', every.field(lambda v: len(v) + start, start), what, use[0])
            judge(mon, bins, 'total', valid.field(lambda v: sum(x[0] for x in v) + start, start), what, use[1], slack)
            judge(mon, bins, 'n', valid.field(len, 0), what, use[2])
            judge(mon, bins, 'most', valid.field(lambda v: max(x[0] for x in v), -1e20), what, use[3])
            judge(mon, bins, 'least', valid.field(lambda v: min(x[0] for x in v), 1e20), what, use[4])
            judge(mon, bins, 'squares', valid.field(lambda v: sum(x[1] ** 2 for x in v), 0), what, use[5], slack)
            judge(mon, bins, 'constants', const.field(lambda v: sum(x ** 2 for x in v), 0), what, True, slack)
            judge(mon, bins, 'deviations', valid.field(lambda v: sum((x[0] - x[2]) ** 2 for x in v), 0), what, True, max(2e-5, slack))
            mon.same(numpy.ma.getdata(bins.get_field('reference').data).reshape(shape), reference, what + ': existing mean')
            mon.same(numpy.ma.getdata(cube.data), data_before, 'input values after the operations')
            mon.same(numpy.ma.getmaskarray(cube.data), mask_before, 'input mask after the operations')
            mon.count('masked inputs', mask.sum())
            mon.count('edge inputs', (((lat_v - lat.start) % lat.step == 0) | ((lon_v - lon.start) % lon.step == 0))[~mask].sum())
            mon.count('wrapped inputs', (lon_v[~mask] == lon.end).sum())
            inputs += number
        n = valid.field(len, 0)[0]
        mon.count('cells', n.size)
        mon.count('empty cells', (n == 0).sum())
        mon.case(('operations', shape, inputs, int(n.max()), use, start), nontrivial=bool((n > 1).any() and (n == 0).any()))


def refusals(rng, mon):
    """Coordinates outside the grid, unknown inputs and incomplete operations are refused, and change nothing."""
    lat, lon = axes(rng)
    bins = GridBins([real_axis(lat, 'latitude'), real_axis(lon, 'longitude')])
    op = GridBinOperationCount().set_input_descriptor('inputvalue', GridFieldDescriptor('thing')) \
        .set_output_descriptor('count', GridFieldDescriptor('n', dtype=numpy.int32, usemask=False))
    cube = a_cube(rng, lat, lon, 6, ['latitude', 'longitude'], unmasked=True)[0]
    op.run(bins.compute_input_map(cube))
    before = numpy.array(bins.get_field('n').data)
    for axis, name in ((lat, 'latitude'), (lon, 'longitude')):
        for value in (axis.start - 1 / 1024., axis.start - axis.step, axis.start - axis.step / 2, axis.end + axis.step, axis.end + 7.5 * axis.step,
                      axis.start - 2.5 * axis.step, axis.end if not axis.wrap else axis.end + axis.step, numpy.nan, 1e30, -1e30, -32768.0):
            cube = a_cube(rng, lat, lon, 6, ['latitude', 'longitude'], unmasked=True)[0]
            points = numpy.array(cube.coord(name).points)
            points.flat[rng.randint(6)] = value
            cube.coord(name).points = points
            mon.raises(lambda: bins.compute_input_map(cube), 'input with %s %g on cells %s' % (name, value, vars(axis)))
    binmap = bins.compute_input_map(a_cube(rng, lat, lon, 6, ['latitude', 'longitude'], unmasked=True)[0])
    unknown = GridBinOperationCount().set_input_descriptor('inputvalue', GridFieldDescriptor('nothing')) \
        .set_output_descriptor('count', GridFieldDescriptor('n', dtype=numpy.int32, usemask=False))
    mon.raises(lambda: unknown.run(binmap), 'input that does not exist')
    mon.raises(lambda: GridBinOperationCount().run(binmap), 'operation without descriptors')
    four = {'total': 'f4', 'count': 'i4', 'maximum': 'f4', 'minimum': 'f4'}
    for lacking in list(four) + ['inputvalue']:
        partial = GridBinOperationSumCountMaxMin()
        for name, kind in four.items():
            if name != lacking:
                partial.set_output_descriptor(name, GridFieldDescriptor('partial_' + name, dtype=numpy.dtype(kind).type))
        if lacking != 'inputvalue':
            partial.set_input_descriptor('inputvalue', GridFieldDescriptor('thing'))
        mon.raises(lambda: partial.run(binmap), 'operation without ' + lacking)
    for n in (2, 3, 365):
        mon.raises(lambda: GridBins([GridFieldAxis(-0.5, 1.0, n, 'time', False), real_axis(lat, 'latitude'), real_axis(lon, 'longitude')]), 'grid of %d times' % n)
    mon.raises(lambda: op.set_input_descriptor('count', GridFieldDescriptor('n')), 'unknown input identifier')
    mon.raises(lambda: op.set_output_descriptor('inputvalue', GridFieldDescriptor('n')), 'unknown output identifier')
    mon.same(bins.get_field('n').data, before, 'field after refused inputs')
    mon.raises(lambda: GridBins([real_axis(lat, 'latitude')]), 'grid with one axis')
    mon.case(('refusals', vars(lat), vars(lon)))


def make_files(rng, folder, lat, lon, names, mon):
    missing = bool(rng.randint(3))
    pixels = satdata.Pixels.random(rng, satdata.Axis(lat.start, lat.step, lat.count, False), lon, int(rng.choice([1, 12, 60, 200])),
                                   kelvin=('cold' if mon.index % 3 == 0 else True), missing=0.2 if missing else 0.0)
    sys = float(rng.randint(0, 64)) / 64
    stored = satdata.Pixels(dict(pixels.columns))
    if rng.randint(3) == 0:   # coordinates that were not determined
        stored.columns = dict(pixels.columns)
        bad = numpy.zeros(len(pixels), bool)
        together = rng.rand(len(pixels)) < 0.2
        apart = bool(rng.randint(3))
        for name in [('lat', 'lon'), ('lat', 'lon'), ('lat',), ('lon',)][rng.randint(4)]:
            these = rng.rand(len(pixels)) < 0.15 if apart else together
            stored.columns[name] = numpy.where(these, numpy.float32(-32768.0), pixels.columns[name]).astype(numpy.float32)
            bad |= these
        mon.count('damaged coordinates', bad.sum())
        pixels = pixels.part(~bad)
    satdata.write_pair(folder, names, stored, sys, satdata.a_shape(rng, len(stored)), 'latitude', 'longitude')
    return pixels, sys


def compare(mon, fields, expected, what):
    for name in ('ts_number_of_observations', 'total_number_of_observations'):
        mon.same(numpy.ma.getdata(fields[name]).astype(int), expected[name], '%s: %s' % (what, name))
    for name, e in expected.items():
        if 'number' not in name:
            mon.masked_close(fields[name], e, '%s: %s' % (what, name), rtol=3e-5 if name in ('tsvariance', 'tsmean_unc_spl') else 3e-6, atol=1e-6)


def pipeline(rng, mon):
    with mon.scratch() as folder:
        lat, lon = axes(rng)
        lat.wrap = lon.wrap
        select = satdata.a_selection(rng)
        whole_day = bool(rng.randint(3))
        date = satdata.a_day(rng)
        times = ['%02d%02d' % (h, m) for h in range(24) for m in range(0, 60, 5)]
        chosen = sorted(str(t) for t in rng.choice(times, int(rng.randint(1, 4)) if whole_day else 1, replace=False))
        pattern = '%Y/%m/' + 'pix_{0}_%Y%m%d_%H%M.nc'
        files, broken = [], []
        for t in chosen:
            names = [os.path.join(date[:4], date[4:6], 'pix_%s_%s_%s.nc' % (k, date, t)) for k in ('LST', 'AUX')]
            made = make_files(rng, folder, lat, lon, names, mon)
            if whole_day and rng.randint(5) == 0:
                # no systematic uncertainty: of no use, unless there is nothing it would apply to
                every = bool(rng.randint(2))
                with netCDF4.Dataset(os.path.join(folder, names[1]), 'a') as data:
                    data.variables['LST_unc_sys'][:] = numpy.ma.masked_all(1, 'f4')
                with netCDF4.Dataset(os.path.join(folder, names[0]), 'a') as data:
                    values = data.variables['LST'][:]
                    some = made[0].columns['LST']
                    if every:
                        data.variables['LST'][:] = numpy.ma.masked_all(values.shape, 'f4')
                        made[0].columns['LST'] = numpy.ma.masked_array(numpy.ma.getdata(some), mask=numpy.ones(len(some), bool))
                    else:       # one that all is known of but that
                        values = numpy.ma.array(values)
                        values.flat[0] = 300.0
                        data.variables['LST'][:] = values
                        with netCDF4.Dataset(os.path.join(folder, names[1]), 'a') as more:
                            for name in satdata.UNCERTAINTIES:
                                values = numpy.ma.array(more.variables[name][:])
                                values.flat[0] = 0.5
                                more.variables[name][:] = values
                        broken.append((t, 'error'))
                mon.count('without systematic uncertainty')
                if every:
                    files.append((made[0], 0.0))
                continue
            if whole_day and rng.randint(6) == 0:
                if rng.randint(2):
                    with open(os.path.join(folder, names[rng.randint(2)]), 'wb') as stream:
                        stream.write(b'no data')
                    broken.append((t, 'error'))
                else:
                    os.unlink(os.path.join(folder, names[rng.randint(2)]))
                    broken.append((t, 'missing'))
                continue
            files.append(made)
        written = []
        stand_in.to(lambda filename, source, cubes: written.append((filename, source, cubes)))
        result = command.run(argparse.Namespace(
            x0=lon.start, xs=lon.step, xn=lon.count, y0=lat.start, ys=lat.step, yn=lat.count, wrapcoords=lon.wrap, obsname='LST', maxbinobs=512,
            qc_mask_obs=select.mask_obs, qc_filter_obs=select.filter_obs, qc_mask_valid=select.mask_valid, qc_filter_valid=select.filter_valid,
            source='made here', complevel=4, o=os.path.join(folder, 'out.nc'), path=folder,
            pattern_lst=pattern.format('LST'), pattern_aux=pattern.format('AUX'), date=date if whole_day else date + chosen[0]))
        mon.equal(result.time_mode, 'day' if whole_day else 'single', 'time mode')
        states = {os.path.basename(r.filename[0])[-7:-3]: r.status for r in result.run_result.load}
        wanted = {t: 'missing' for t in (times if whole_day else chosen)}
        wanted.update({t: 'ok' for t in chosen})
        wanted.update(dict(broken))
        mon.equal(states, wanted, 'reported state of files %s' % [r.message for r in result.run_result.load if r.message])
        if not files:
            mon.equal(result.output_status, 'no_data', 'state without files')
            mon.equal(written, [], 'files written without data')
            return
        mon.equal(result.output_status, 'ok', 'state')
        expected = satdata.statistics(files, lat, lon, select)
        mon.equal([w[:2] for w in written], [(os.path.join(folder, 'out.nc'), 'made here')], 'files written')
        fields = {cube.var_name: cube for cube in written[0][2]}
        mon.equal(sorted(fields), sorted(expected), 'fields written')
        mon.equal(len(written[0][2]), len(expected), 'number of fields written')
        compare(mon, {name: cube.data for name, cube in fields.items()}, expected, 'output')
        for name, cube in fields.items():
            mon.close(cube.coord('latitude').points, [lat.start + (i + 0.5) * lat.step for i in range(lat.count)], 'latitudes of ' + name, rtol=1e-6)
            mon.close(cube.coord('longitude').points, [lon.start + (i + 0.5) * lon.step for i in range(lon.count)], 'longitudes of ' + name, rtol=1e-6)
            mon.equal(str(cube.units), '1' if 'number' in name else 'K2' if name == 'tsvariance' else 'K', 'units of ' + name)
        mon.count('outputs')
        n = expected['ts_number_of_observations']
        mon.count('inputs', sum(len(p) for p, _ in files))
        mon.case(('pipeline', n.shape, [len(p) for p, _ in files], int(n.max())), nontrivial=bool((n > 1).any() and (n == 0).any()))


def from_the_command_line(rng, mon):
    """The options and what is assumed where they are not given."""
    with mon.scratch() as folder:
        lat, lon = satdata.Fine(-90.0, 0.25, 720, False), satdata.Fine(-180.0, 0.25, 1440, True)
        date = satdata.a_day(rng)
        times = ['%02d%02d' % (rng.randint(24), 5 * rng.randint(12)) for _ in range(3)]
        single = bool(rng.randint(2))
        arguments = ['satgrid', '-path', folder, '-o', os.path.join(folder, 'o.nc')]
        select, name = satdata.Select(1, 0, 7, 0), 'GT_MYG_2P/GT_SSD-L2-MYGSV_%s_2-%s_%s00-CUOL-0.01X0.01-V2.0.nc'
        source = ''
        if rng.randint(2):
            source = 'some source'
            select = satdata.a_selection(rng)
            for option, value in zip(('qc_mask_obs', 'qc_filter_obs', 'qc_mask_valid', 'qc_filter_valid'), select):
                arguments += ['-' + option, str(value)]
            lat, lon = satdata.Fine(-10.0, 0.5, 40, False), satdata.Fine(20.0, 2.0, 30, True)
            arguments += ['-x0', '20', '-xs', '2', '-xn', '30', '-y0', '-10', '-ys', '0.5', '-yn', '40', '-source', source, '-complevel', '1', '-maxbinobs', '99']
        files = []
        for t in sorted(set(times[:1] if single else times)):
            pixels = satdata.Pixels.random(rng, lat, lon, int(rng.choice([12, 60, 200])), missing=0.1)
            names = [os.path.join(date[:4], date[4:6], date[6:8], name % (k, date, t)) for k in ('LST', 'AUX')]
            sys_unc = float(rng.randint(0, 64)) / 64
            satdata.write_pair(folder, names, pixels, sys_unc, satdata.a_shape(rng, len(pixels)), 'latitude', 'longitude')
            files.append((pixels, sys_unc))
        arguments.append(date + times[0] if single else date)
        kept, stream = (sys.argv, sys.stdout), io.StringIO()
        sys.argv, sys.stdout = arguments, stream
        written = []
        stand_in.to(lambda filename, source, cubes: written.append((filename, source, cubes)))
        try:
            command.main()
        finally:
            sys.argv, sys.stdout = kept
        report = json.loads(stream.getvalue())
        mon.equal((report['output_status'], report['time_mode'], len(report['run_result']['load'])), ('ok', 'single' if single else 'day', 1 if single else 288), 'report of the program')
        mon.equal(sum(entry['status'] == 'ok' for entry in report['run_result']['load']), len(files), 'files read')
        expected = satdata.statistics(files, lat, lon, select)
        mon.equal([w[:2] for w in written], [(os.path.join(folder, 'o.nc'), source)], 'files written')
        fields = {cube.var_name: cube for cube in written[0][2]}
        compare(mon, {key: cube.data for key, cube in fields.items()}, expected, 'output of the program')
        mon.close(fields['tsmean'].coord('latitude').points, lat.start + (numpy.arange(lat.count) + 0.5) * lat.step, 'latitudes', rtol=1e-6)
        mon.close(fields['tsmean'].coord('longitude').points, lon.start + (numpy.arange(lon.count) + 0.5) * lon.step, 'longitudes', rtol=1e-6)
        mon.count('outputs')
        mon.count('command lines')
        mon.case(('command line', single, source, len(files), int(expected['ts_number_of_observations'].sum())))


def fine(rng, mon):
    """Cells of a grid with many millions of cells."""
    part = int(rng.choice([8, 16, 32]))
    rows, columns = 180 * part, 360 * part
    bins = GridBins([GridFieldAxis(-90.0 - 0.5 / part, 1.0 / part, rows, 'latitude', False, units='degrees'),
                     GridFieldAxis(-180.0 - 0.5 / part, 1.0 / part, columns, 'longitude', True, units='degrees')])
    n = 2000
    row, column = rng.randint(0, rows, n), rng.randint(0, columns, n)
    row[:4], column[:4] = [0, 0, rows - 1, rows - 1], [0, columns - 1, 0, columns - 1]
    inside = rng.choice([0.0, 0.25, 0.5, 0.75], size=(2, n))
    cube = Cube(numpy.ma.masked_array(numpy.ones(n, 'f4'), numpy.arange(n) % 7 == 0), var_name='v')
    for name, first, index, part_of in (('latitude', -90.0, row, inside[0]), ('longitude', -180.0, column, inside[1])):
        cube.add_aux_coord(AuxCoord((first + (index + part_of) / part).astype('f4'), var_name=name, units='degrees'), 0)
    kept = numpy.arange(n) % 7 != 0
    mon.same(numpy.asarray(bins.compute_input_map(cube).mapto).astype(int), (row * columns + column)[kept], 'cells of a grid of %d by %d' % (rows, columns))
    mon.count('pixels on fine grids', n)
    mon.case(('fine', part))


def poles(rng, mon):
    """Pixels at the poles belong to the polar rows."""
    with mon.scratch() as folder:
        lat, lon = satdata.Axis(-90.0, 30.0, 6, False), satdata.Axis(-180.0, 60.0, 6, True)
        pixels = satdata.Pixels.random(rng, lat, lon, 6)
        for south in (True, False):
            pixels.columns['QC'][:] = 0
            pixels.columns['lat'][:] = -90.0 if south else 90.0
            satdata.write_pair(folder, ('a%d.nc' % south, 'b%d.nc' % south), pixels, 0.25, (2, 3), 'latitude', 'longitude')
            written = []
            stand_in.to(lambda filename, source, cubes: written.append(cubes))
            command.run(argparse.Namespace(
                x0=-180.0, xs=60.0, xn=6, y0=-90.0, ys=30.0, yn=6, wrapcoords=True, qc_mask_obs=1, qc_filter_obs=0, qc_mask_valid=7, qc_filter_valid=0,
                source='', o='', path=folder, pattern_lst='a%d.nc' % south, pattern_aux='b%d.nc' % south, date='201001010000'))
            rows = list(written[0].get_field('ts_number_of_observations').data.sum(axis=1))
            mon.equal(rows, [6, 0, 0, 0, 0, 0] if south else [0, 0, 0, 0, 0, 6], 'number of pixels at %s degrees in each row' % (-90 if south else 90),
                      key='north-pole-in-south-row' if not south and rows == [6, 0, 0, 0, 0, 0] else None)
        mon.case('poles')


def filters(rng, mon):
    """Quality flag filters hold exactly the pixels whose masked flags differ from the pattern."""
    with mon.scratch() as folder:
        lat, lon = axes(rng)
        pixels, _ = make_files(rng, folder, lat, lon, ('a.nc', 'b.nc'), mon)
        fields = SatelliteFieldNamesMODIS()
        both = SatelliteFilenames([os.path.join(folder, 'a.nc'), os.path.join(folder, 'b.nc')])
        mon.check(both.check_readable(), 'files are readable')
        collection = SatelliteCollection.load(fields, both)
        collection.generate_safety_mask()
        flags = numpy.array(collection.cube.coords('QC')[0].points)
        undetermined = (collection.cube.coord('latitude').points == -32768.0) | (collection.cube.coord('longitude').points == -32768.0)
        mask = numpy.array(numpy.ma.getmaskarray(collection.cube.data))
        for _ in range(4):
            bits = int(rng.randint(8)) | (1 << int(rng.choice(satdata.HIGH_BITS)) if rng.randint(4) == 0 else 0)
            pattern = int(rng.randint(1 << 31)) & (bits if rng.randint(3) else 7)
            got = collection.get_filter_from_qc_flags(bits, pattern)
            mon.same(got, ((flags & bits) != pattern) | undetermined, 'filter %d of flags %d' % (pattern, bits))
            collection.apply_filter(got)
            mask |= ((flags & bits) != pattern) | undetermined
            mon.same(numpy.ma.getmaskarray(collection.cube.data), mask, 'mask after filters')
        mon.case(('filters', flags.shape))


SCENARIOS = [(operations, 120, 2500), (refusals, 20, 200), (pipeline, 80, 1000), (filters, 40, 200), (poles, 2, 4), (fine, 8, 40), (from_the_command_line, 12, 150)]
