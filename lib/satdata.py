"""Generated satellite pixels and the statistics of each cell, for C05 and C06.

Coordinates are multiples of 1/1024 degree, temperatures of 1/8 K and uncertainties of 1/64 K, so that single precision sums of
some hundred of them are exact in any order."""

import collections
import datetime
import os

import netCDF4
import numpy

HIGH_BITS = (3, 7, 8, 15, 16, 30)
UNCERTAINTIES = ('LST_unc_ran', 'LST_unc_loc_atm', 'LST_unc_loc_sfc')


class Axis(object):
    """Cells of the reference: [start + i step, start + (i+1) step), the end of a wrapping axis counted in the first cell."""

    def __init__(self, start, step, count, wrap):
        self.start, self.step, self.count, self.wrap = start, step, count, wrap

    @property
    def end(self):
        return self.start + self.step * self.count

    def cell(self, value):
        for index in range(self.count):
            if self.start + index * self.step <= value < self.start + (index + 1) * self.step:
                return index
        return 0 if self.wrap and self.end <= value < self.end + self.step else None

    def value(self, rng):
        kind = rng.randint(4)
        if kind == 0:     # on an edge
            v = self.start + self.step * rng.randint(0, self.count)
        elif kind == 1:   # just within
            v = self.start + self.step * rng.randint(1, self.count + 1) - 1.0 / 1024
        else:
            v = self.start + rng.randint(0, int(self.step * self.count * 1024)) / 1024.0
        if self.wrap and rng.randint(12) == 0:
            v = self.end
        return v


class Fine(Axis):
    """Quarter degrees around the globe."""

    def cell(self, value):
        index = int(numpy.floor((value - self.start) / self.step))
        return 0 if self.wrap and index == self.count else index


def an_axis(rng, wrap=False, limit=90.0):
    step = float(rng.choice([0.25, 0.5, 1.0, 2.0, 5.0]))
    count = int(rng.randint(1, 8))
    start = float(rng.randint(int(-limit / step), int(limit / step) - count + 1)) * step
    return Axis(start, step, count, wrap)


class Pixels(object):
    """Flat arrays of pixels."""

    NAMES = ('lat', 'lon', 'LST', 'QC') + UNCERTAINTIES

    def __init__(self, columns, sys=None):
        self.columns = columns
        self.sys = sys

    def __len__(self):
        return len(self.columns['lat'])

    def part(self, select):
        return Pixels({k: v[select] for k, v in self.columns.items()})

    @staticmethod
    def random(rng, lat, lon, number, qc_bits=7, missing=0.0, kelvin=True):
        columns = {
            'lat': numpy.array([lat.value(rng) for _ in range(number)], numpy.float32),
            'lon': numpy.array([lon.value(rng) for _ in range(number)], numpy.float32),
            'LST': numpy.ma.masked_array(((1360 if kelvin == 'cold' else 2000 if kelvin else -400) + rng.randint(0, 800, number)).astype(numpy.float32) / 8, mask=numpy.zeros(number, bool)),
            'QC': rng.choice(numpy.arange(qc_bits + 1), number).astype(numpy.int32)}
        if qc_bits == 7 and rng.randint(3) == 0:
            for bit in HIGH_BITS:
                columns['QC'][rng.rand(number) < 0.3] |= 1 << bit
        if rng.randint(2):
            columns['QC'][rng.rand(number) < 0.7] = 0
        if rng.randint(4) == 0 and number:   # crowded cell
            columns['lat'][:] = columns['lat'][0]
            columns['lon'][:] = columns['lon'][0]
        for name in UNCERTAINTIES:
            columns[name] = numpy.ma.masked_array(rng.randint(0, 128, number).astype(numpy.float32) / 64, mask=numpy.zeros(number, bool))
        if missing:
            for name in ('LST',) + UNCERTAINTIES:
                columns[name].mask = rng.rand(number) < (missing if name == 'LST' else missing / 4)
        return Pixels(columns)


FILL = -999.0


def write_pair(folder, names, pixels, sys, shape, latname='lat', lonname='lon'):
    """LST and AUX files holding the pixels as a two-dimensional field."""
    for path in names:
        os.makedirs(os.path.dirname(os.path.join(folder, path)), exist_ok=True)
    lst = netCDF4.Dataset(os.path.join(folder, names[0]), 'w')
    aux = netCDF4.Dataset(os.path.join(folder, names[1]), 'w')
    for data in (lst, aux):
        data.createDimension('nj', shape[0])
        data.createDimension('ni', shape[1])

    def put(data, name, dtype, fill=None, stored=None, **attributes):
        variable = data.createVariable(stored or name, dtype, ('nj', 'ni'), fill_value=fill)
        for key, value in attributes.items():
            setattr(variable, key, value)
        variable[:] = pixels.columns[name].reshape(shape)
    put(lst, 'lat', 'f4', stored=latname)
    put(lst, 'lon', 'f4', stored=lonname)
    put(lst, 'LST', 'f4', FILL)
    put(lst, 'QC', 'i4')
    aux.createDimension('ns', 1)
    aux.createVariable('LST_unc_sys', 'f4', ('ns',))[:] = numpy.float32(sys)
    for name in UNCERTAINTIES:
        put(aux, name, 'f4', FILL)
    lst.close()
    aux.close()


Select = collections.namedtuple('Select', 'mask_obs filter_obs mask_valid filter_valid')


def statistics(files, lat, lon, select, missing_excluded=True):
    """The fields expected from [(pixels, sys)], as masked double precision arrays, and the counts."""
    shape = (lat.count, lon.count)
    valid, total = collections.defaultdict(list), collections.Counter()
    for pixels, sys in files:
        c = pixels.columns
        for i in range(len(pixels)):
            row, column = lat.cell(float(c['lat'][i])), lon.cell(float(c['lon'][i]))
            if numpy.ma.getmaskarray(c['QC'])[i]:
                continue
            flags = int(c['QC'][i])
            assert row is not None and column is not None
            if flags & select.mask_obs == select.filter_obs:
                total[row, column] += 1
            gone = any(numpy.ma.getmaskarray(c[n])[i] for n in ('LST',) + UNCERTAINTIES)
            if flags & select.mask_valid == select.filter_valid and not gone:
                valid[row, column].append((float(c['LST'][i]),) + tuple(float(c[n][i]) for n in UNCERTAINTIES) + (float(numpy.float32(sys)),))
    names = ['tsmean', 'tsmin', 'tsmax', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys', 'tsvariance', 'tsmean_unc_spl']
    fields = {n: numpy.ma.masked_all(shape, float) for n in names}
    fields['ts_number_of_observations'] = numpy.zeros(shape, int)
    fields['total_number_of_observations'] = numpy.zeros(shape, int)
    for cell, n in total.items():
        fields['total_number_of_observations'][cell] = n
    for cell, rows in valid.items():
        t, ran, atm, sfc, sys = (numpy.array(v) for v in zip(*rows))
        n = len(t)
        fields['ts_number_of_observations'][cell] = n
        fields['tsmean'][cell] = sum(t) / n
        fields['tsmin'][cell], fields['tsmax'][cell] = min(t), max(t)
        fields['tsmean_unc_ran'][cell] = numpy.sqrt(sum(ran ** 2)) / n
        for name, values in (('loc_atm', atm), ('loc_sfc', sfc), ('sys', sys)):
            fields['tsmean_unc_' + name][cell] = numpy.sqrt(sum(values ** 2) / n)
        if n > 1:
            variance = sum((t - numpy.float64(numpy.float32(sum(t) / n))) ** 2) / (n - 1)
            fields['tsvariance'][cell] = variance
            fields['tsmean_unc_spl'][cell] = (total[cell] - n) * numpy.sqrt(variance) / (total[cell] - 1)
    return fields


def a_day(rng):
    """A date, often at the end of a month, as text."""
    first = datetime.date(int(rng.randint(2000, 2999)), int(rng.randint(1, 13)), 1) if rng.randint(8) else datetime.date(int(rng.choice([2000, 2004, 2012, 2400])), 3, 1)
    return (first - datetime.timedelta(int(rng.choice([1, 1, 2, 3, rng.randint(1, 366)])))).strftime('%Y%m%d')


def a_selection(rng):
    """Flag patterns in which the valid pixels are among those of interest, as the command's options have them."""
    mask_obs = int(rng.choice([0, 1, 2, 4, 3]))
    filter_obs = int(rng.randint(8)) & mask_obs
    more = int(rng.randint(8)) & ~mask_obs
    if rng.randint(3) == 0:
        more |= 1 << int(rng.choice(HIGH_BITS))
    return Select(mask_obs, filter_obs, mask_obs | more, filter_obs | (int(rng.randint(1 << 31)) & more if rng.randint(2) else 0))


def split(rng, pixels, parts):
    """The pixels in random order, divided among some files."""
    order = rng.permutation(len(pixels))
    owner = rng.randint(0, parts, len(pixels))
    return [pixels.part(order[owner == p]) for p in range(parts)]


def a_shape(rng, number):
    divisors = [d for d in range(1, number + 1) if number % d == 0] or [1]
    rows = int(rng.choice(divisors))
    return (rows, number // rows)
