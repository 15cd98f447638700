"""Generated observations, and an independent reading of the binary files they are written to."""

import os
import struct
import uuid

import numpy

EPOCH = numpy.datetime64('1850-01-01')
SPECIAL = [0.0, -0.0, 1e-310, 1e300, -1e300, numpy.inf, -numpy.inf, numpy.nan, 273.15, -999.0, numpy.nextafter(1.0, 2.0)]


def bits(values):
    """The bits of doubles, for exact comparison."""
    return numpy.ascontiguousarray(values, dtype=numpy.float64).view(numpy.uint64)


def a_uuid(rng):
    """Identifiers, some with zero bytes, newlines and bytes above 127."""
    data = bytearray(rng.bytes(16))
    if rng.randint(3) == 0:
        data[rng.randint(16)] = [0, 10, 13, 26, 255][rng.randint(5)]
    return uuid.UUID(bytes=bytes(data))


def another_uuid(rng, identifier):
    """Another identifier: any, or one that differs in a single bit."""
    if rng.randint(4) == 0:
        return a_uuid(rng)
    data = bytearray(identifier.bytes)
    data[rng.randint(16)] ^= 1 << rng.randint(8)
    return uuid.UUID(bytes=bytes(data))


def doubles(rng, n, positive=False):
    values = rng.uniform(0.05, 5.0, n) if positive else rng.normal(280.0, 20.0, n)
    if not positive:
        special = rng.uniform(size=n) < 0.15
        values[special] = numpy.array(SPECIAL)[rng.randint(len(SPECIAL), size=special.sum())]
    return values


def a_date(daynumber):
    text = str(EPOCH + numpy.timedelta64(int(daynumber), 'D'))
    return text.replace('-', '')


class Fields(object):
    """Columns of observations."""

    def __init__(self, mask, time, location, measurement, uncorrelated, correlated):
        self.mask, self.time, self.location = mask, time, location
        self.measurement, self.uncorrelated, self.correlated = measurement, uncorrelated, correlated

    def observations(self, cls):
        return cls(self.mask, self.time, self.location, self.measurement, self.uncorrelated, list(self.correlated))

    def of_day(self, day):
        return [i for i in range(len(self.mask)) if not self.mask[i] and int(numpy.trunc(self.time[i])) == day]

    def records(self, day):
        """(location, measurement, uncorrelated, correlated...) of each valid observation of the day."""
        return [tuple([int(self.location[i]), float(self.measurement[i]), float(self.uncorrelated[i])] + [float(c[i]) for c in self.correlated])
                for i in self.of_day(day)]


def some_fields(rng, day, locations, ranges, size=None, other_days=True, precision=numpy.float64, unique=False, special_uncertainty=False):
    n = int(rng.choice([0, 1, 2, 5, 17, 60])) if size is None else size
    if unique:
        n = min(n, locations)
    if locations == 0:
        n = 0
    mask = rng.uniform(size=n) < rng.choice([0.0, 0.0, 0.3, 0.9, 1.0])
    time = numpy.full(n, float(day))
    if other_days:
        time = time + rng.choice([0.0, 0.0, 0.0, 0.5, 0.999, 1.0, -1.0, 365.0], size=n)
        if day == 0:
            time = numpy.abs(time)
    if rng.randint(2) == 0 and numpy.all(time == numpy.trunc(time)):
        time = time.astype(rng.choice([numpy.int32, numpy.int64]))
    if unique:
        location = rng.permutation(locations)[:n]
        if rng.randint(2):
            location = numpy.sort(location)
    else:
        location = rng.randint(0, max(1, locations), n)
    location = location.astype(numpy.uint64)
    cast = lambda x: numpy.asarray(x, dtype=precision)
    with numpy.errstate(over='ignore'):
        fields = Fields(mask, time, location, cast(doubles(rng, n)), cast(doubles(rng, n, True)), [cast(doubles(rng, n, True)) for _ in range(ranges)])
    if special_uncertainty:
        for values in [fields.uncorrelated] + fields.correlated:
            which = rng.uniform(size=n) < 0.2
            values[which] = numpy.array([0.0, 1e-300, 1e-30, 1e30, numpy.inf, numpy.nan, 4000.0])[rng.randint(7, size=which.sum())]
    return fields


def parse(data, kind):
    """Header of a binary file: (rest of data, uuid or None)."""
    expected = {'obs': b'EUSTACEOBSN00001', 'loc': b'EUSTACELOCN00001', 'cor': b'EUSTACECORN00001', 'ptr': b'EUSTACELOCP00001'}[kind]
    if data[:16] != expected or len(data) < 32:
        raise ValueError('header %r' % data[:32])
    if kind == 'cor':
        return data[32:], None
    return data[48:], uuid.UUID(bytes=data[32:48])


def parse_observations(data, ranges):
    body, identifier = parse(data, 'obs')
    size = 8 * (3 + ranges)
    if len(body) % size:
        raise ValueError('%d bytes of records of %d' % (len(body), size))
    form = '<Qdd' + 'd' * ranges
    return identifier, [struct.unpack_from(form, body, i * size) for i in range(len(body) // size)]


def parse_locations(data):
    body, identifier = parse(data, 'loc')
    if len(body) % 16:
        raise ValueError('%d bytes of locations' % len(body))
    return identifier, numpy.frombuffer(body, '<f8').reshape(-1, 2).T


def parse_ranges(data):
    body, _ = parse(data, 'cor')
    if len(body) % 8:
        raise ValueError('%d bytes of ranges' % len(body))
    return numpy.frombuffer(body, '<f8')


def content(path):
    with open(path, 'rb') as stream:
        return stream.read()


def same_records(mon, got, expected, what):
    """Records are the same, in order, with the same bits."""
    mon.equal(len(got), len(expected), what + ': number of observations')
    for i, (g, e) in enumerate(zip(got, expected)):
        mon.equal(g[0], e[0], '%s: location of observation %d' % (what, i), event='records')
        mon.check(bits(g[1:]).tolist() == bits(e[1:]).tolist(), lambda: '%s: values of observation %d: got %r, expected %r' % (what, i, g, e), event='records')


def write_bytes(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as stream:
        stream.write(data)
