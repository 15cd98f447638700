"""Satellite gridding puts every accepted pixel in its cell exactly once."""

import argparse
import io
import json
import os
import sys

import netCDF4
import numpy

import satdata
from eustace.satgrid import command
from eustace.satgrid.aggregate_grid import (AggregateGridArray, AggregateGridCount, AggregateGridCountSumMinMax, AggregateGridSum,
                                            AggregateGridSumDevSq)
from eustace.satgrid.file_aggregate_grid import FLAG_INVALID, SatelliteFileAggregator
from eustace.satgrid.grid import GridAxis, GridLatLon
from eustace.satgrid.satellite_file import SatelliteFile, SatelliteFilename

NEEDS = {'extension': True}
RULE = """Random pixel sets (on cell edges, crowded in one cell, flagged, missing, none at all) on random grids are gridded in
several orders and divisions into files, by the accumulators, the file aggregator and the command; the monitor recomputes each
cell's count, mean, range, variance and uncertainties from a list of the pixels in it, and reads the output file back.
Non-trivial: some cell holds two or more accepted pixels and another none."""
REQUIRED = {'pixels': 20000, 'cells': 2000, 'edge pixels': 500, 'wrapped pixels': 50, 'missing pixels': 200, 'files': 300, 'output files': 30,
            'refusals': 100, 'empty cells': 500, 'absent files': 20, 'rejected pixels': 2000, 'crowded pixels': 300000, 'extremes of crowds': 100, 'command lines': 6, 'pixels on fine grids': 12000, 'nearly alike': 300, 'pixels without flags': 400, 'counts beyond a byte': 6,
            'long lists of files': 8}
ASSUMPTIONS = ['Values are chosen such that single precision sums are exact; fewer pixels per cell than the array accumulator is made for',
               'The pixels selected as valid are among those selected as observed, as the options are documented']


def real_axis(axis):
    return GridAxis(axis.start, axis.step, axis.count, axis.wrap)


def axes(rng):
    lat = satdata.an_axis(rng)
    lon = satdata.Axis(-180.0, 30.0, 12, True) if rng.randint(2) else satdata.an_axis(rng, wrap=bool(rng.randint(2)), limit=180.0)
    return lat, lon


def describe(mon, expected, pixels, lat, lon, files):
    n = expected['ts_number_of_observations']
    mon.count('pixels', len(pixels))
    mon.count('cells', n.size)
    mon.count('empty cells', (n == 0).sum())
    mon.count('edge pixels', (((pixels.columns['lat'] - lat.start) % lat.step == 0) | ((pixels.columns['lon'] - lon.start) % lon.step == 0)).sum())
    mon.count('wrapped pixels', (pixels.columns['lon'] == lon.end).sum())
    mon.count('missing pixels', numpy.ma.getmaskarray(pixels.columns['LST']).sum())
    mon.count('rejected pixels', len(pixels) - n.sum())
    mon.count('files', files)
    mon.case(('grid', n.shape, 'pixels', len(pixels), 'files', files, 'accepted', int(n.sum()), 'most', int(n.max()) if n.size else 0),
             nontrivial=bool((n > 1).any() and (n == 0).any()))


def compare(mon, fields, expected, what, packed=False):
    for name in ('ts_number_of_observations', 'total_number_of_observations'):
        mon.same(numpy.asarray(fields[name]).astype(int), expected[name], '%s: %s' % (what, name))
    for name, e in expected.items():
        if 'number' in name:
            continue
        got = fields[name]
        got = numpy.ma.masked_array(got, mask=numpy.ma.getmaskarray(got) if packed else numpy.equal(got, FLAG_INVALID))
        atol = 0.0
        if packed:
            atol = 0.00255 if name in ('tsmean', 'tsmin', 'tsmax') else 3e-6 if name == 'tsvariance' else 0.00051
        elif name in ('tsmin', 'tsmax'):
            mon.same(numpy.ma.filled(got.astype(float), FLAG_INVALID), numpy.ma.filled(e, FLAG_INVALID), '%s: %s' % (what, name))
            continue
        mon.masked_close(got, e, '%s: %s' % (what, name), rtol=6e-5 if name in ('tsvariance', 'tsmean_unc_spl') else 3e-6, atol=atol + 1e-6)


def nearly_alike(rng, pixels):
    """Temperatures that differ by thousandths, of so few pixels that sums are still exact."""
    mask = numpy.ma.getmaskarray(pixels.columns['LST'])
    base = numpy.float32(pixels.columns['LST'].data[0])
    pixels.columns['LST'] = numpy.ma.masked_array(base + rng.randint(0, 9, len(pixels)).astype(numpy.float32) / 1024, mask=mask)


def lose_flags(rng, mon, pixels):
    """Pixels without quality flags are of no use."""
    pixels.columns['QC'] = numpy.ma.masked_array(pixels.columns['QC'], mask=rng.rand(len(pixels)) < 0.2)
    mon.count('pixels without flags', pixels.columns['QC'].mask.sum())


def accumulators(rng, mon):
    """The accumulators on their own, in one call and in several."""
    for _ in range(4):
        lat, lon = axes(rng)
        number = int(rng.choice([0, 1, 5, 40, 150]))
        pixels = satdata.Pixels.random(rng, lat, lon, number, kelvin=bool(rng.randint(2)))
        if 1 < number < 12 and rng.randint(2):
            pixels.columns['lat'][:] = pixels.columns['lat'][0]
            pixels.columns['lon'][:] = pixels.columns['lon'][0]
            nearly_alike(rng, pixels)
            mon.count('nearly alike', number)
        everything = satdata.Select(0, 0, 0, 0)
        grid = GridLatLon(real_axis(lat), real_axis(lon))
        mon.equal(tuple(grid.dimensions), (lat.count, lon.count), 'dimensions')
        for axis, real in ((lat, grid.axis_lat), (lon, grid.axis_lon)):
            mon.close(real.get_points(), [axis.start + i * axis.step for i in range(axis.count)], 'edges of cells')
            mon.close(real.get_centres(), [axis.start + (i + 0.5) * axis.step for i in range(axis.count)], 'centres of cells')
        parts = int(rng.randint(1, 4))
        count, plain = AggregateGridCount(grid.dimensions), AggregateGridSum(grid.dimensions)
        array, both = AggregateGridArray(grid.dimensions, 160), AggregateGridCountSumMinMax(grid.dimensions)
        deviation = AggregateGridSumDevSq(grid.dimensions)
        pieces = satdata.split(rng, pixels, parts)
        systematic = [float(rng.randint(0, 64)) / 64 for _ in pieces]
        expected = satdata.statistics(list(zip(pieces, systematic)), lat, lon, everything)
        zeros = satdata.statistics([(satdata.Pixels({k: v[pixels.columns['LST'] == 0] for k, v in pixels.columns.items()}), 0.0)], lat, lon, everything)
        without = zeros['total_number_of_observations'] == 0
        places = []
        for piece, sys in zip(pieces, systematic):
            c = {k: numpy.array(v) for k, v in piece.columns.items()}
            index = grid.compute_indices(c['lat'], c['lon'])
            wanted = [lat.cell(float(a)) * lon.count + lon.cell(float(b)) for a, b in zip(c['lat'], c['lon'])]
            mon.same(index, numpy.array(wanted, int).reshape(len(wanted)), 'cell of each pixel', event='placed')
            places.append((index, c['LST']))
            count.aggregate_at_indices(index)
            if len(index):
                plain.aggregate_at_indices(index, c['LST'])
            for grids in ([array] if len(index) else []) + [both]:
                grids.aggregate_at_indices(index, c['LST'], c['LST_unc_ran'], c['LST_unc_loc_atm'], c['LST_unc_loc_sfc'], numpy.array([sys], numpy.float32)[0])
        mon.same(count.count, expected['total_number_of_observations'], 'count')
        mon.same(plain.count, expected['total_number_of_observations'], 'count of sum')
        mean = numpy.ma.filled(expected['tsmean'], -77.0)
        mon.close(plain.get_mean(-77.0), mean, 'mean of sum', rtol=2e-7)
        for grids, what in ((array, 'array'), (both, 'count, sum, minimum and maximum')):
            fields = grids.compute_fields(-77.0)
            for name, got in fields.items():
                wanted = numpy.ma.filled(expected[name], -77.0) if 'number' not in name else expected[name]
                if name in ('tsmin', 'tsmax'):      # the array accumulator takes zero for no value (temperatures are in kelvin)
                    some = without if grids is array else numpy.ones(without.shape, bool)
                    mon.same(got[some].astype(float), wanted[some].astype(float), '%s: %s' % (what, name))
                    continue
                mon.close(got, wanted, '%s: %s' % (what, name), rtol=1e-6)
        for index, values in places:
            deviation.aggregate_at_indices(mean.astype(numpy.float32), index, values)
        n = expected['ts_number_of_observations']
        squares = numpy.where(n > 1, numpy.ma.filled(expected['tsvariance'], 0) * (n - 1), 0)
        single = n == 1
        mon.close(deviation.sum_devsq[~single], squares[~single], 'sum of squared deviations', rtol=1.5e-5, atol=1e-6)
        describe(mon, expected, pixels, lat, lon, parts)


def crowds(rng, mon):
    """Many pixels in few cells."""
    number = int(rng.randint(60000, 140000)) if mon.index % 3 == 0 else int(rng.randint(100, 1500) if rng.randint(2) else rng.randint(1500, 60000))
    shape = (2, 3)
    index = rng.randint(0, int(rng.choice([1, 2, 6])), number).astype(numpy.int32)
    values = rng.randint(0, 17, number).astype(numpy.float32) / 8
    for cell in range(6):
        here = numpy.flatnonzero(index == cell)
        if len(here):
            values[here[rng.randint(len(here))]] = 4.0 + cell / 8.
            values[here[rng.randint(len(here))]] = -1.0 - cell / 8.
    half = number // 2
    count, both, deviation = AggregateGridCount(shape), AggregateGridCountSumMinMax(shape), AggregateGridSumDevSq(shape)
    for part in (slice(0, half), slice(half, None)):
        count.aggregate_at_indices(index[part])
        both.aggregate_at_indices(index[part], values[part], values[part], values[part] / 2, values[part] * 2, numpy.float32(0.5))
        deviation.aggregate_at_indices(numpy.ones(shape, numpy.float32), index[part], values[part])
    n = numpy.bincount(index, minlength=6).reshape(shape)
    total = numpy.bincount(index, values.astype(float), minlength=6).reshape(shape)
    squares = numpy.bincount(index, values.astype(float) ** 2, minlength=6).reshape(shape)
    mon.same(count.count, n, 'count of %d pixels' % number)
    mon.same(both.count, n, 'count of %d pixels' % number)
    mon.close(both.values_sum, total, 'sum of %d pixels' % number, rtol=1e-6)
    mon.close(deviation.sum_devsq, squares - 2 * total + n, 'squared deviations of %d pixels' % number, rtol=1e-5)
    fields = both.compute_fields(-77.0)
    for name, function in (('tsmin', min), ('tsmax', max)):
        mon.same(fields[name], numpy.array([function(values[index == cell]) if (index == cell).any() else -77.0 for cell in range(6)]).reshape(shape),
                 '%s of %d pixels' % (name, number), event='extremes of crowds')
    safe = numpy.maximum(n, 1)
    for name, value in (('tsmean', total / safe), ('tsmean_unc_ran', numpy.sqrt(squares) / safe), ('tsmean_unc_loc_atm', numpy.sqrt(squares / safe) / 2),
                        ('tsmean_unc_loc_sfc', numpy.sqrt(squares / safe) * 2), ('tsmean_unc_sys', 0.5 * numpy.ones(shape))):
        mon.close(fields[name], numpy.where(n > 0, value, -77.0), '%s of %d pixels' % (name, number), rtol=1e-5)
    mon.count('crowded pixels', number)
    mon.case(('crowd', n.tolist()))


def outside(rng, mon):
    """Pixels outside the grid are refused and change nothing."""
    for _ in range(5):
        lat, lon = axes(rng)
        grid = GridLatLon(real_axis(lat), real_axis(lon))
        good = satdata.Pixels.random(rng, lat, lon, 5).columns
        for axis, name in ((lat, 'lat'), (lon, 'lon')):
            for value in (axis.start - 1 / 1024., axis.start - axis.step, axis.start - axis.step / 2, axis.end + axis.step, axis.end + 7.5 * axis.step,
                          axis.start - 2.5 * axis.step, axis.end if not axis.wrap else axis.end + axis.step, numpy.nan, 1e30, -1e30):
                c = {k: numpy.array(v) for k, v in good.items()}
                c[name][rng.randint(5)] = value
                mon.raises(lambda: grid.compute_indices(c['lat'], c['lon']), 'pixel with %s %g on cells %s' % (name, value, vars(axis)))
        mon.case(('outside', vars(lat), vars(lon)))


def fine(rng, mon):
    """Cells of grids with many millions of cells."""
    part = int(rng.choice([4, 8, 16, 32, 64]))
    rows, columns = 180 * part, 360 * part
    grid = GridLatLon(GridAxis(-90.0, 1.0 / part, rows, False), GridAxis(-180.0, 1.0 / part, columns, bool(rng.randint(2))))
    n = 2000
    row, column = rng.randint(0, rows, n), rng.randint(0, columns, n)
    row[:4], column[:4] = [0, 0, rows - 1, rows - 1], [0, columns - 1, 0, columns - 1]
    inside = rng.choice([0.0, 0.25, 0.5, 0.75], size=(2, n))
    for kind in ('f4', 'f8'):
        lat, lon = (-90.0 + (row + inside[0]) / part).astype(kind), (-180.0 + (column + inside[1]) / part).astype(kind)
        mon.same(numpy.asarray(grid.compute_indices(lat, lon)).astype(int), row * columns + column, 'cells of a grid of %d by %d' % (rows, columns))
    mon.count('pixels on fine grids', n)
    mon.case(('fine', part))


def make_files(rng, folder, lat, lon, parts, select=None, missing=None):
    pixels = satdata.Pixels.random(rng, lat, lon, int(rng.choice([1, 12, 60, 200])), missing=0.2 if rng.randint(2) else 0.0)
    files = []
    for piece in satdata.split(rng, pixels, parts):
        files.append((piece, float(rng.randint(0, 64)) / 64))
    return pixels, files


def aggregator(rng, mon):
    """The file aggregator on several files, whatever the order of files and pixels."""
    with mon.scratch() as folder:
        lat, lon = axes(rng)
        select = satdata.a_selection(rng)
        sys = float(rng.randint(0, 64)) / 64
        pixels = satdata.Pixels.random(rng, lat, lon, int(rng.choice([2, 12, 60, 200])), kelvin='cold' if mon.index % 3 == 0 else True, missing=0.2 if rng.randint(2) else 0.0)
        if len(pixels) < 13 and rng.randint(2):
            nearly_alike(rng, pixels)
        if rng.randint(4) == 0:
            lose_flags(rng, mon, pixels)
        expected = satdata.statistics([(pixels, sys)], lat, lon, select)
        total = 0
        for trial in range(3):
            files = [p for p in satdata.split(rng, pixels, int(rng.randint(1, 4))) if len(p)]
            names = []
            for i, piece in enumerate(files):
                pair = ('%d_%d.lst' % (trial, i), '%d_%d.aux' % (trial, i))
                satdata.write_pair(folder, pair, piece, sys, satdata.a_shape(rng, len(piece)))
                names.append(SatelliteFilename(*[os.path.join(folder, p) for p in pair]))
            if rng.randint(3) == 0:
                names.insert(int(rng.randint(len(names) + 1)), SatelliteFilename(os.path.join(folder, 'none.lst'), names[0].filename_aux))
                mon.count('absent files')
            if rng.randint(15) == 0:
                for i in range(300):
                    names.insert(int(rng.randint(len(names) + 1)), SatelliteFilename(os.path.join(folder, 'none%d.lst' % i), os.path.join(folder, 'none%d.aux' % i)))
                mon.count('long lists of files')
            ag = SatelliteFileAggregator(axis_lat=real_axis(lat), axis_lon=real_axis(lon), observation_name='LST', max_bin_obs=25, **{
                'qc_mask_obs': select.mask_obs, 'qc_filter_obs': select.filter_obs, 'qc_mask_valid': select.mask_valid, 'qc_filter_valid': select.filter_valid})
            result = ag.run(names)
            mon.equal([r.status for r in result.load], ['missing' if 'none' in n.filename_lst else 'ok' for n in names], 'reported state of files')
            compare(mon, result.fields, expected, 'aggregated over %d files' % len(files))
            mon.close(result.fields['latitude'], [lat.start + (i + 0.5) * lat.step for i in range(lat.count)], 'latitudes')
            mon.close(result.fields['longitude'], [lon.start + (i + 0.5) * lon.step for i in range(lon.count)], 'longitudes')
            total += len(files)
        describe(mon, expected, pixels, lat, lon, total)
        # outside the grid
        bad = satdata.Pixels({k: v.copy() for k, v in pixels.columns.items()})
        at = int(rng.randint(len(bad)))
        bad.columns['lat'][at] = lat.start - float(rng.choice([1, 512, 1024])) / 1024 * lat.step
        bad.columns['QC'][at] = select.filter_valid
        satdata.write_pair(folder, ('bad.lst', 'bad.aux'), bad, sys, (1, len(bad)))
        ag = SatelliteFileAggregator(real_axis(lat), real_axis(lon), 'LST', *select, max_bin_obs=25)
        mon.raises(lambda: ag.run([SatelliteFilename(os.path.join(folder, 'bad.lst'), os.path.join(folder, 'bad.aux'))]), 'pixel south of the grid')


def run_command(folder, **options):
    values = dict(x0=-180.0, xs=0.25, xn=1440, y0=-90.0, ys=0.25, yn=720, wrapcoords=True, obsname='LST', maxbinobs=512, source='made here', complevel=4,
                  o=os.path.join(folder, 'out.nc'), path=folder)
    values.update(options)
    return command.run(argparse.Namespace(**values))


def program(rng, mon):
    """The command: a day of five-minute files or a single one, and the file it writes."""
    with mon.scratch() as folder:
        lat, lon = axes(rng)
        lat.wrap = lon.wrap     # one option for both
        select = satdata.a_selection(rng)
        whole_day = bool(rng.randint(3))
        date = satdata.a_day(rng)
        times = ['%02d%02d' % (h, m) for h in range(24) for m in range(0, 60, 5)]
        many = whole_day and rng.randint(12) == 0
        chosen = sorted(str(t) for t in rng.choice(times, 60 if many else int(rng.randint(1, 5)) if whole_day else 1, replace=False))
        if whole_day and rng.randint(2):
            chosen = sorted(set(chosen + ['0000', '2355']))
        pattern = '%Y/%m/' + 'pix_{0}_%Y%m%d_%H%M.nc'
        files, broken = [], []
        for t in chosen:
            names = [os.path.join(date[:4], date[4:6], 'pix_%s_%s_%s.nc' % (k, date, t)) for k in ('LST', 'AUX')]
            plain = satdata.Axis(lat.start, lat.step, lat.count, False)
            pixels = satdata.Pixels.random(rng, plain, lon, int(rng.choice([1, 3] if many else [1, 12, 60, 200])), kelvin='cold' if mon.index % 3 == 0 else True, missing=0.2 if rng.randint(2) else 0.0)
            if rng.randint(4) == 0:
                lose_flags(rng, mon, pixels)
            if not many and rng.randint(4) == 0:      # more pixels in a cell than a byte counts
                for name in ('lat', 'lon'):
                    pixels.columns[name][:] = pixels.columns[name][0]
                repeat = numpy.arange(len(pixels) * (600 // len(pixels) + 1)) % len(pixels)
                pixels = satdata.Pixels({k: v[repeat] for k, v in pixels.columns.items()})
            sys = float(rng.randint(0, 64)) / 64
            satdata.write_pair(folder, names, pixels, sys, satdata.a_shape(rng, len(pixels)))
            if whole_day and rng.randint(6) == 0:
                if rng.randint(2):
                    with open(os.path.join(folder, names[rng.randint(2)]), 'wb') as stream:
                        stream.write(b'no data')
                    broken.append((t, 'error'))
                else:
                    lost = os.path.join(folder, names[rng.randint(2)])
                    os.unlink(lost)
                    if rng.randint(3) == 0:
                        os.mkdir(lost)
                    broken.append((t, 'missing'))
                continue
            files.append((pixels, sys))
        result = run_command(folder, x0=lon.start, xs=lon.step, xn=lon.count, y0=lat.start, ys=lat.step, yn=lat.count, wrapcoords=lon.wrap,
                             qc_mask_obs=select.mask_obs, qc_filter_obs=select.filter_obs, qc_mask_valid=select.mask_valid, qc_filter_valid=select.filter_valid,
                             pattern_lst=pattern.format('LST'), pattern_aux=pattern.format('AUX'), date=date if whole_day else date + chosen[0])
        mon.equal(result.time_mode, 'day' if whole_day else 'single', 'time mode')
        states = {os.path.basename(r.filename.filename_lst)[-7:-3]: r.status for r in result.load}
        mon.equal(len(result.load), 288 if whole_day else 1, 'files looked for')
        wanted = {t: 'missing' for t in (times if whole_day else chosen)}
        wanted.update({t: 'ok' for t in chosen})
        wanted.update(dict(broken))
        mon.equal(states, wanted, 'reported state of files')
        mon.count('absent files', sum(v == 'missing' for v in states.values()))
        if not files:
            mon.equal(result.output_status, 'no_data', 'state without files')
            mon.check(not os.path.exists(os.path.join(folder, 'out.nc')), 'a file was written without data')
            return
        mon.equal(result.output_status, 'ok', 'state')
        expected = satdata.statistics(files, lat, lon, select)
        with netCDF4.Dataset(os.path.join(folder, 'out.nc')) as data:
            fields = {name: variable[:] for name, variable in data.variables.items()}
            mon.equal(data.source, 'made here', 'source attribute')
        compare(mon, fields, expected, 'output file', packed=True)
        mon.close(fields['latitude'], [lat.start + (i + 0.5) * lat.step for i in range(lat.count)], 'latitudes')
        mon.close(fields['longitude'], [lon.start + (i + 0.5) * lon.step for i in range(lon.count)], 'longitudes')
        mon.count('output files')
        mon.count('counts beyond a byte', (expected['total_number_of_observations'] > 255).sum())
        everything = satdata.Pixels({k: numpy.ma.concatenate([p.columns[k] for p, _ in files]) for k in satdata.Pixels.NAMES})
        describe(mon, expected, everything, lat, lon, len(files))


def from_the_command_line(rng, mon):
    """The options and what is assumed where they are not given."""
    with mon.scratch() as folder:
        lat, lon = satdata.Fine(-90.0, 0.25, 720, False), satdata.Fine(-180.0, 0.25, 1440, True)
        date = satdata.a_day(rng)
        times = ['%02d%02d' % (rng.randint(24), 5 * rng.randint(12)) for _ in range(3)]
        single = bool(rng.randint(2))
        arguments = ['satgrid', '-path', folder, '-o', os.path.join(folder, 'o.nc')]
        select, name = satdata.Select(1, 0, 7, 0), 'GT_MYG_2P/GT_SSD-L2-MYGSV_%s_2-%s_%s00-CUOL-0.01X0.01-V2.0.nc'
        source = ''
        if rng.randint(2):
            source = 'some source'
            select = satdata.a_selection(rng)
            for option, value in zip(('qc_mask_obs', 'qc_filter_obs', 'qc_mask_valid', 'qc_filter_valid'), select):
                arguments += ['-' + option, str(value)]
            lat, lon = satdata.Fine(-10.0, 0.5, 40, False), satdata.Fine(20.0, 2.0, 30, True)
            arguments += ['-x0', '20', '-xs', '2', '-xn', '30', '-y0', '-10', '-ys', '0.5', '-yn', '40', '-source', source, '-complevel', '1', '-maxbinobs', '99']
        files = []
        for t in sorted(set(times[:1] if single else times)):
            pixels = satdata.Pixels.random(rng, lat, lon, int(rng.choice([12, 60, 200])), missing=0.1)
            names = [os.path.join(date[:4], date[4:6], date[6:8], name % (k, date, t)) for k in ('LST', 'AUX')]
            sys_unc = float(rng.randint(0, 64)) / 64
            satdata.write_pair(folder, names, pixels, sys_unc, satdata.a_shape(rng, len(pixels)))
            files.append((pixels, sys_unc))
        arguments.append(date + times[0] if single else date)
        kept, stream = (sys.argv, sys.stdout), io.StringIO()
        sys.argv, sys.stdout = arguments, stream
        try:
            command.main()
        finally:
            sys.argv, sys.stdout = kept
        report = json.loads(stream.getvalue())
        mon.equal((report['output_status'], report['time_mode'], len(report['load'])), ('ok', 'single' if single else 'day', 1 if single else 288), 'report of the program')
        mon.equal(sum(entry['status'] == 'ok' for entry in report['load']), len(files), 'files read')
        expected = satdata.statistics(files, lat, lon, select)
        with netCDF4.Dataset(os.path.join(folder, 'o.nc')) as data:
            fields = {key: variable[:] for key, variable in data.variables.items()}
            mon.equal(data.source, source, 'source attribute')
        compare(mon, fields, expected, 'output file of the program', packed=True)
        mon.close(fields['latitude'], lat.start + (numpy.arange(lat.count) + 0.5) * lat.step, 'latitudes')
        mon.close(fields['longitude'], lon.start + (numpy.arange(lon.count) + 0.5) * lon.step, 'longitudes')
        mon.count('output files')
        mon.count('command lines')
        mon.case(('command line', single, source, len(files), int(expected['ts_number_of_observations'].sum())))


def poles(rng, mon):
    """Pixels at the poles belong to the polar rows."""
    with mon.scratch() as folder:
        lat, lon = satdata.Axis(-90.0, 30.0, 6, False), satdata.Axis(-180.0, 60.0, 6, True)
        pixels = satdata.Pixels.random(rng, lat, lon, 6)
        for south in (True, False):
            pixels.columns['QC'][:] = 0
            pixels.columns['lat'][:] = -90.0 if south else 90.0
            satdata.write_pair(folder, ('a%d.nc' % south, 'b%d.nc' % south), pixels, 0.25, (2, 3))
            run_command(folder, xs=60.0, xn=6, ys=30.0, yn=6, o=os.path.join(folder, 'out%d.nc' % south), qc_mask_obs=1, qc_filter_obs=0, qc_mask_valid=7, qc_filter_valid=0,
                        pattern_lst='a%d.nc' % south, pattern_aux='b%d.nc' % south, date='201001010000')
            with netCDF4.Dataset(os.path.join(folder, 'out%d.nc' % south)) as data:
                rows = data.variables['ts_number_of_observations'][:].sum(axis=1)
            mon.equal(list(rows), [6, 0, 0, 0, 0, 0] if south else [0, 0, 0, 0, 0, 6], 'number of pixels at %s degrees in each row' % (-90 if south else 90),
                      key='north-pole-in-south-row' if not south and list(rows) == [6, 0, 0, 0, 0, 0] else None)
        mon.case('poles')


SCENARIOS = [(accumulators, 400, 3000), (crowds, 30, 300), (outside, 20, 300), (fine, 12, 60), (aggregator, 120, 2500), (program, 120, 2500), (poles, 2, 4), (from_the_command_line, 16, 200)]
