"""Reports of stations, ships and lakes as the analysis gets them."""

import datetime
import gzip
import os

import netCDF4
import numpy

import obsdata
import py2open  # noqa: F401 (replaces the translation's open)
import stand
from eustace.analysis import preparedailyfixed, preparedailymobile, preparelocationlookup
from eustace.preprocess.fileio.height_adjustment import AltitudeAdjustment
from eustace.preprocess.fileio.insitu_land import ObservationSourceInsituLand
from eustace.preprocess.fileio.insitu_ocean import HadNMAT2Format, ObservationSourceInsituOceanHadNMAT2, ObservationSourceInsituOceanHadNMAT2Default
from eustace.surfaceairmodel.fileio.lake import ObservationSourceLakeReading

NEEDS = {'extension': True}
RULE = """Station files with any number of stations and days, missing values, quality flags, hold-out lists, elevations and longitude conventions are
read for one day or all, with and without quality control, hold-out and altitude adjustment, also through to the binary files of the analysis;
ship and lake reports are written as text and read back. Each report is compared with what was written: place, time, kelvin, uncertainty, masked or not,
and altitude adjustments with an interpolation of the reference surface of the monitor's own. Non-trivial: some reports masked and others not."""
REQUIRED = {'reports': 2000, 'masked': 4000, 'failed quality': 1500, 'held out': 200, 'adjusted': 500, 'no such day': 10, 'ships': 200, 'lakes': 150, 'prepared days': 20, 'single reports': 4, 'elevations missing': 30}
ASSUMPTIONS = ['Elevation grids are regular and cover the globe', 'Lake reports at one place have the same coordinates', 'Text is read as in Python 2']
EPOCH = datetime.datetime(1850, 1, 1)


def bilinear(values, first_lat, first_lon, spacing, lat, lon):
    """Value between the four nodes around a place; beyond the last parallel towards the mean of its (extended) row."""
    rows, columns = values.shape

    def node(i, j):
        if not 0 <= i < rows:
            row = values[0 if i < 0 else -1]
            return (row.sum() + row[0] + row[-1]) / (columns + 2)
        return values[i, j % columns]
    u, v = (lat - first_lat) / spacing, (lon - first_lon) / spacing
    i, j = int(numpy.floor(u)), int(numpy.floor(v))
    a, b = u - i, v - j
    return (1 - a) * ((1 - b) * node(i, j) + b * node(i, j + 1)) + a * ((1 - b) * node(i + 1, j) + b * node(i + 1, j + 1))


class Surface(object):
    """A reference surface on file."""

    def __init__(self, rng, folder):
        self.spacing = float(rng.choice([10.0, 5.0, 30.0]))
        rows = int(180 / self.spacing)
        self.lats = -90 + self.spacing * (numpy.arange(rows) + 0.5)
        self.lons = -180 + self.spacing * (numpy.arange(2 * rows) + 0.5)
        self.values = numpy.where(rng.uniform(size=(rows, 2 * rows)) < 0.3, 0.0, rng.uniform(-100, 4000, (rows, 2 * rows)))
        self.path = os.path.join(folder, 'surface.nc')
        order = slice(None, None, -1) if rng.randint(2) else slice(None)
        lat, lon = numpy.meshgrid(self.lats, self.lons, indexing='ij')
        with netCDF4.Dataset(self.path, 'w') as nc:
            nc.createDimension('y', rows)
            nc.createDimension('x', 2 * rows)
            for name, table in (('lat', lat), ('lon', lon), ('dem', self.values)):
                nc.createVariable(name, 'f8', ('y', 'x'))[:] = table[order]
        self.factor = float(rng.choice([0.001, 0.001, 0.002]))
        self.adjustment = AltitudeAdjustment(self.path, 'lat', 'lon', 'dem', self.factor)

    def height(self, lat, lon):
        return self.factor * bilinear(self.values, self.lats[0], self.lons[0], self.spacing, lat, lon)


def missing(rng, shape):
    kind = rng.randint(5)
    if kind == 0:
        return numpy.zeros(shape, bool)
    if kind == 1:
        return numpy.ones(shape, bool)
    return rng.uniform(size=shape) < rng.uniform(0.05, 0.7)


def some_codes(rng, n):
    length = int(rng.randint(4, 12))
    codes = set()
    while len(codes) < n:
        code = ''.join(rng.choice(list('ABab01-_'), int(rng.randint(2, length + 1))))
        codes.add(code)
    return sorted(codes, key=lambda c: rng.uniform()), length


def write_codes(nc, codes, length):
    nc.createDimension('strlen', length)
    v = nc.createVariable('station_code', 'S1', ('station', 'strlen'))
    v[:] = numpy.array([list(c.ljust(length, '\0')) for c in codes], 'S1').reshape(len(codes), length)


class Stations(object):
    """A file of stations and what it holds."""

    def __init__(self, rng, folder, most=80):
        self.n = int(rng.choice([1, 2, rng.randint(3, most)]))
        days = int(rng.choice([1, 2, rng.randint(3, 9)]))
        self.days = numpy.sort(rng.permutation(40)[:days]) + int(rng.randint(0, 60000))
        if rng.randint(5) == 0:
            self.days -= self.days[0]           # from the first day of all
        self.lat = rng.uniform(-90, 90, self.n).astype('f4')
        self.given = rng.uniform(-180, 360, self.n).astype('f4') if rng.randint(2) else rng.uniform(-180, 180, self.n).astype('f4')
        self.given[rng.uniform(size=self.n) < 0.1] = rng.choice([180.0, 0.0, -180.0, 179.75, 359.75, -179.99609375, 179.99609375, 359.99609375, -0.00390625])
        self.lon = numpy.where(self.given >= 180, self.given - 360, self.given)
        self.elevation = rng.uniform(-50, 4500, self.n).astype('f4')
        self.lost = missing(rng, self.n) & (rng.uniform(size=self.n) < 0.5) if rng.randint(2) else numpy.zeros(self.n, bool)
        if rng.randint(12) == 0:
            self.lost[:] = True
        self.codes, length = some_codes(rng, self.n)
        self.values, self.mask, self.quality = {}, {}, {}
        self.lat[rng.uniform(size=self.n) < 0.05] = rng.choice([0.0, 90.0, -90.0])
        self.path = os.path.join(folder, 'stations.nc')
        with netCDF4.Dataset(self.path, 'w') as nc:
            nc.createDimension('station', self.n)
            nc.createDimension('time', None if rng.randint(2) else days)
            write_codes(nc, self.codes, length)
            for name, table in (('latitude', self.lat), ('longitude', self.given)):
                nc.createVariable(name, 'f4', ('station',))[:] = table
            nc.createVariable('elevation', 'f4', ('station',), fill_value=-999.9)[:] = numpy.ma.masked_array(self.elevation, self.lost)
            nc.createVariable('time', 'f4', ('time',))[:] = self.days
            for observable, name in (('Tmin', 'tasmin'), ('Tmax', 'tasmax')):
                stored = rng.randint(-12000, 12000, (days, self.n))
                self.mask[observable] = missing(rng, stored.shape)
                self.values[observable] = (stored * 0.005 + 273.15)
                v = nc.createVariable(name, 'i2', ('time', 'station'), fill_value=-32768)
                v.set_auto_maskandscale(False)
                v.scale_factor, v.add_offset = 0.005, 273.15
                v[:] = numpy.where(self.mask[observable], -32768, stored).astype('i2')
                q = rng.choice([0, 0, 0, 0, 1, 2, 4, 1 << rng.randint(3, 8), 255 if rng.randint(2) else 3], size=stored.shape).astype('u1')
                if rng.randint(4) == 0:
                    q[:] = rng.choice([0, 1])
                self.quality[observable] = q
                w = nc.createVariable(name + '_qc', 'u1', ('time', 'station'), fill_value=255)
                if rng.randint(2):
                    w.valid_range = numpy.array([0, 0], 'u1')
                w.set_auto_maskandscale(False)
                w[:] = q
        self.held = numpy.zeros(self.n, bool)
        self.heldpath = None

    def hold_out(self, rng, folder):
        self.held = rng.uniform(size=self.n) < rng.choice([0.0, 0.4, 1.0])
        others = [c + 'Z' for c in self.codes[:3]] + [c[:-1] for c in self.codes[:3] if c[:-1] not in self.codes]
        listed = [c for c, h in zip(self.codes, self.held) if h] + others
        listed = [listed[k] for k in rng.permutation(len(listed))]
        self.heldpath = os.path.join(folder, 'held.nc')
        with netCDF4.Dataset(self.heldpath, 'w') as nc:
            nc.createDimension('station', len(listed))
            write_codes(nc, listed, max(len(c) for c in listed) + int(rng.randint(0, 4)))

    def expected(self, observable, rows, quality, surface):
        """(mask, values, errors) of the rows of the table."""
        mask = self.mask[observable][rows] | self.held[None, :]
        if quality:
            mask = mask | (self.quality[observable][rows] != 0)
        values = self.values[observable][rows].copy()
        errors = numpy.full(values.shape, 0.3)
        if surface is not None:
            mask = mask | self.lost[None, :]
            for k in range(self.n):
                rise = float(self.elevation[k]) * 0.001 - surface.height(float(self.lat[k]), float(self.lon[k]))
                values[:, k] += 6.5 * rise
                errors[:, k] = numpy.sqrt(0.3 ** 2 + (1.1 * rise) ** 2)
        return mask, values, errors


def land(rng, mon):
    """Reports of a station file."""
    with mon.scratch() as folder:
        s = Stations(rng, folder)
        surface = Surface(rng, folder) if rng.randint(2) else None
        if rng.randint(2):
            s.hold_out(rng, folder)
        kind = rng.randint(4)
        day = None if kind == 0 else int(rng.choice(s.days))
        if kind == 1:
            day = int(s.days[0]) + int(rng.choice([45, 1000]))
        options = {}
        if day is not None:
            options['daynumber'] = numpy.int64(day)
        if s.heldpath:
            options['hold_out_filename'] = s.heldpath
        if surface:
            options['altitude_adjustment'] = surface.adjustment
        source = ObservationSourceInsituLand(s.path, **options)
        mon.equal(sorted(source.observables()), ['Tmax', 'Tmin'], 'observables')
        mon.equal((source.number_of_stations(), source.number_of_days(), source.number_of_observations()),
                  (s.n, 1 if day is not None else len(s.days), s.n * (1 if day is not None else len(s.days))), 'numbers of stations, days and reports')
        table = source.observation_location_lookup()
        mon.close(numpy.asarray(table), numpy.vstack([s.lat, s.lon]), 'places of stations', rtol=0, atol=1e-5)
        for observable in ['Tmin', 'Tmax', 'Tmin'][:int(rng.randint(1, 4))]:
            quality = bool(rng.randint(2))
            obs = source.observations(observable, quality)
            if day is not None and day not in s.days:
                mon.check(obs is None, 'reports of a day that the file does not have', event='no such day')
                continue
            rows = numpy.arange(len(s.days)) if day is None else numpy.nonzero(s.days == day)[0]
            mask, values, errors = s.expected(observable, rows, quality, surface)
            what = '%s of %d stations, %s' % (observable, s.n, 'all days' if day is None else 'one day')
            mon.same(numpy.asarray(obs.mask), mask.ravel(), 'reports masked: ' + what)
            good = ~mask.ravel()
            mon.same(numpy.asarray(obs.time).astype(int), numpy.repeat(s.days[rows], s.n), 'days of reports: ' + what)
            mon.same(numpy.asarray(obs.location).astype(int), numpy.tile(numpy.arange(s.n), len(rows)), 'stations of reports: ' + what)
            mon.equal(obs.measurement.shape, mask.ravel().shape, 'number of reports')
            mon.close(obs.measurement[good], values.ravel()[good], 'temperatures: ' + what, rtol=2e-7, atol=1e-3)
            mon.close(obs.uncorrelatederror[good], errors.ravel()[good], 'uncertainties: ' + what, rtol=1e-5, atol=1e-4)
            mon.equal(len(obs.locallycorrelatederror), 0, 'correlated uncertainties')
            mon.count('reports', int(good.sum()))
            mon.count('masked', int(mask.sum()))
            mon.count('failed quality', int((s.quality[observable][rows] != 0).sum()) if quality else 0)
            mon.count('held out', int(s.held.sum()))
            if surface:
                mon.count('adjusted', int(good.sum()))
                mon.count('elevations missing', int(s.lost.sum()))
            mon.case(('land', quality, surface is not None, bool(s.heldpath), day is None, bool(s.lost.any())), mask.any() and not mask.all())
        mon.equal(len(source.local_correlation_length_scale('Tmin')), 0, 'correlation ranges')
        source.dataset.close()


def prepared(rng, mon):
    """From the station file to the binary file of a day."""
    with mon.scratch() as folder:
        s = Stations(rng, folder)
        surface = Surface(rng, folder) if rng.randint(2) else None
        if rng.randint(2):
            s.hold_out(rng, folder)
        quality, observable = bool(rng.randint(2)), str(rng.choice(['Tmin', 'Tmax']))
        places, output = os.path.join(folder, 'places.bin'), os.path.join(folder, 'day.bin')
        preparelocationlookup.run(places, s.path, 'insitu_land')
        identifier, table = obsdata.parse_locations(obsdata.content(places))
        mon.close(table, numpy.vstack([s.lat, s.lon]), 'places of stations', rtol=0, atol=1e-5)
        for row in range(len(s.days)):
            when = EPOCH + datetime.timedelta(days=int(s.days[row]))
            preparedailyfixed.run_day(output, places, s.path, when, 'insitu_land', observable, hold_out_list=s.heldpath, qc_mask=quality, altitude_adjustment=surface.adjustment if surface else None)
            got_id, got = obsdata.parse_observations(obsdata.content(output), 0)
            mon.equal(got_id, identifier, 'identifier of the places')
            mask, values, errors = s.expected(observable, [row], quality, surface)
            expected = [k for k in range(s.n) if not mask[0, k]]
            mon.same([int(r[0]) for r in got], expected, 'stations of the day')
            if expected:
                mon.close([r[1] for r in got], values[0, expected], 'temperatures of the day', rtol=2e-7, atol=1e-3)
                mon.close([r[2] for r in got], errors[0, expected], 'uncertainties of the day', rtol=1e-5, atol=1e-4)
            mon.count('prepared days')
            mon.count('reports', len(expected))
        mon.case(('prepared', quality, surface is not None, bool(s.heldpath)))


def heights(rng, mon):
    """Adjustment to the reference surface."""
    with mon.scratch() as folder:
        surface = Surface(rng, folder)
        n = int(rng.choice([1, 5, 30]))
        lat = rng.uniform(-90, 90, n)
        lon = rng.uniform(-180, 180, n)
        at = rng.uniform(size=n) < 0.3
        lat[at], lon[at] = rng.choice(surface.lats, int(at.sum())), rng.choice(surface.lons, int(at.sum()))
        altitude = rng.uniform(-0.1, 5.0, n)
        a = surface.adjustment
        a.load_reference_map()
        places = numpy.vstack([lat, lon]).T
        reference = numpy.array([surface.height(p, q) for p, q in places])
        mon.close(a.reference_altitudes(places), reference, 'reference altitudes', rtol=1e-7, atol=1e-7)
        mon.close(a.adjustment(altitude, places), 6.5 * (altitude - reference), 'adjustment to the reference altitude', rtol=1e-7, atol=1e-6)
        mon.close(a.adjustment_uncertainty(altitude, places), 1.1 * numpy.abs(altitude - reference), 'uncertainty of the adjustment', rtol=1e-7, atol=1e-6)
        mon.count('adjusted', n)
        mon.case(('heights', n, surface.spacing, surface.factor))


COLUMNS = ['ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour', 'Air']


def write_format(rng, path):
    """Titles of the columns, with others between; those of the file in their order."""
    titles = list(COLUMNS)
    for k in range(int(rng.randint(0, 4))):
        titles.insert(int(rng.randint(0, len(titles))), 'X%d' % k)
    with open(path, 'w') as f:
        f.write('Format of reports\n\n' + ' '.join(titles) + ' T\nmore text\n')
    return titles


def write_ships(rng, path, titles, start, n):
    reports, text = [], ''
    for k in range(n):
        when = start + datetime.timedelta(days=int(rng.randint(0, 4)))
        r = dict(ID=str(rng.choice(['SHIP', 'A#B', '#1', 'X Y', 'ABCDEFGH', '12345'])), Lat=int(rng.randint(-900, 901)), Lon=int(rng.choice([rng.randint(-1800, 1801), -1800, 1799])),
                 year=when.year, month=when.month, day=when.day, hour=int(rng.randint(0, 24)), Air=int(rng.randint(-6000, 5000)))
        if rng.uniform() < 0.1:
            r.update(Lat=0, Lon=0)
        if rng.uniform() < 0.05:
            r.update(Air=0)
        reports.append((r, (when - EPOCH).days))
        text += ''.join(('%8s' % r[t]) if t in r else '%8d' % int(rng.randint(-99, 99)) for t in titles) + '\n'
    with gzip.open(path, 'wb') as f:
        f.write(text.encode())
    return reports


def ships(rng, mon):
    """Ship reports in columns of eight."""
    with mon.scratch() as folder:
        titles = write_format(rng, os.path.join(folder, 'format.txt'))
        start = EPOCH + datetime.timedelta(days=int(rng.choice([rng.randint(0, 60000), 0])))
        n = int(rng.choice([0, 1, 2, 3, rng.randint(5, 40), rng.randint(5, 40), rng.randint(270, 600)]))
        path = os.path.join(folder, 'ships.txt.gz')
        reports = write_ships(rng, path, titles, start, n)
        layout = HadNMAT2Format(os.path.join(folder, 'format.txt'))
        mon.equal(list(layout.usecols), [titles.index(c) for c in COLUMNS], 'columns of the format')
        source = ObservationSourceInsituOceanHadNMAT2(layout, path)
        mon.equal(list(source.observables()), ['Tmean'], 'observables of ships')
        mon.equal(source.number_of_observations(), n, 'number of ship reports')
        obs, table = source.observations('Tmean'), numpy.asarray(source.observation_location_lookup())
        mon.equal((table.shape, len(obs.mask)), ((2, n), n), 'places and reports')
        mon.check(not numpy.any(obs.mask), 'masked ship reports')
        for k, (r, day) in enumerate(reports):
            at = int(obs.location[k])
            mon.close([table[0, at], table[1, at], obs.measurement[k], obs.uncorrelatederror[k]], [r['Lat'] * 0.1, r['Lon'] * 0.1, r['Air'] * 0.01 + 273.15, 1.1], 'ship report %d' % k, rtol=1e-6, atol=1e-5)
            mon.equal(float(obs.time[k]), float(day), 'day of ship report %d' % k)
        mon.equal((len(obs.locallycorrelatederror), len(source.local_correlation_length_scale('Tmean'))), (0, 0), 'correlated uncertainty of ships')
        mon.count('ships', n)
        mon.count('single reports', int(n == 1))
        # on to the files of a day
        ObservationSourceInsituOceanHadNMAT2Default.FORMAT = os.path.join(folder, 'format.txt')
        output, places = os.path.join(folder, 'obs.bin'), os.path.join(folder, 'loc.bin')
        day = (start - EPOCH).days + int(rng.randint(0, 4))
        if n:
            preparedailymobile.run_day(output, places, path, EPOCH + datetime.timedelta(days=day), 'insitu_ocean', 'Tmean')
            identifier, table = obsdata.parse_locations(obsdata.content(places))
            got_id, got = obsdata.parse_observations(obsdata.content(output), 0)
            mon.equal(got_id, identifier, 'identifier of the places of ships')
            expected = [(r['Lat'] * 0.1, r['Lon'] * 0.1, r['Air'] * 0.01 + 273.15, 1.1) for r, d in reports if d == day]
            mon.equal(len(got), len(expected), 'ship reports of the day')
            for k, e in enumerate(expected):
                at = int(got[k][0])
                mon.close([table[0, at], table[1, at], got[k][1], got[k][2]], e, 'ship report of the day', rtol=1e-6, atol=1e-5)
            mon.count('prepared days')
        mon.case(('ships', min(n, 3), len(titles)), n > 1)


def lakes(rng, mon):
    """Lake reports in named columns."""
    with mon.scratch() as folder:
        n = int(rng.choice([1, 2, rng.randint(3, 40)]))
        spots = [(round(float(rng.uniform(-80, 80)), int(rng.randint(0, 4))), round(float(rng.uniform(-180, 180)), int(rng.randint(0, 4)))) for _ in range(int(rng.randint(1, 6)))]
        lat, lon = spots[0]
        # places whose latitudes and longitudes could be confused
        spots += [(round(lat + 0.5, 3), lon - 180.0 if lon > 0 else lon + 180.0), (lat, -lon), (-lat, lon), (round(lat + 0.25, 3), lon), (round(lat + 0.03, 5), lon), (round(lat + 0.0006, 5), lon), (lat, round(lon + 0.0006, 5)), (lat, round(lon - 0.03, 5)), (0.0, 0.0)]
        names = ['DateTime', 'lat', 'lon', 'fTa'] + ['more%d' % k for k in range(int(rng.randint(0, 3)))]
        order = [names[k] for k in rng.permutation(len(names))]
        reports = []
        path = os.path.join(folder, 'lakes.txt')
        with open(path, 'w') as f:
            f.write('\t'.join(order) + '\n')
            for k in range(n):
                spot = spots[rng.randint(len(spots))]
                day = int(rng.randint(-3000, 65000))
                t = round(float(rng.uniform(-30, 30)), 4)
                reports.append((spot, day, t))
                row = dict(DateTime=(EPOCH + datetime.timedelta(days=day)).strftime('%Y-%m-%d'), lat=repr(spot[0]), lon=repr(spot[1]), fTa=repr(t))
                f.write('\t'.join(row.get(c, '1.5') for c in order) + '\n')
        original = numpy.genfromtxt
        undo = stand.swap(original, lambda *a, **k: original(*a, **dict(dict(encoding='utf-8'), **k)))       # text as in Python 2
        try:
            source = ObservationSourceLakeReading(path)
        finally:
            undo()
        mon.equal((list(source.observables()), source.number_of_observations()), (['Tmean'], n), 'lake observables and reports')
        obs, table = source.observations('Tmean'), numpy.asarray(source.observation_location_lookup())
        mon.equal(table.shape[1], len(set(r[0] for r in reports)), 'number of lakes')
        mon.equal((len(obs.mask), bool(numpy.any(obs.mask))), (n, False), 'masked lake reports')
        for k, (spot, day, t) in enumerate(reports):
            at = int(obs.location[k])
            mon.close([table[0, at], table[1, at], obs.measurement[k], obs.uncorrelatederror[k]], [spot[0], spot[1], t + 273.15, 5.0], 'lake report %d' % k, rtol=1e-6, atol=1e-5)
            mon.equal(float(obs.time[k]), float(day), 'day of lake report %d' % k)
        mon.count('lakes', n)
        mon.count('single reports', int(n == 1))
        mon.case(('lakes', min(n, 3), table.shape[1], tuple(order)), n > 1)


SCENARIOS = [(land, 320, 3000), (prepared, 48, 600), (heights, 48, 600), (ships, 80, 800), (lakes, 64, 800)]
