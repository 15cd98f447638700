"""What scenarios use: the monitor that counts observations and raises on a broken property."""

import contextlib
import os
import shutil
import tempfile

import numpy


class Violation(Exception):
    """The property is broken; key names the mechanism (see known_findings.json)."""

    def __init__(self, what, key=None):
        Exception.__init__(self, what)
        self.what = what
        self.key = key


class Inconclusive(Exception):
    """The monitor could not judge."""


def brief(value, limit=300):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + '...'


class Monitor(object):
    """One per case."""

    def __init__(self, known=(), scratch=None):
        self.known = set(known)
        self.events = {}
        self.cases = []
        self.found = {}
        self.scratch_root = scratch

    # What was observed
    def count(self, event, number=1):
        self.events[event] = self.events.get(event, 0) + int(number)

    def case(self, signature, nontrivial=True):
        """Describes the case (or sub-case) just judged: a short, printable signature."""
        self.cases.append((brief(signature, 400), bool(nontrivial)))

    # Oracles
    def fail(self, what, key=None):
        if key is not None and key in self.known:
            self.found.setdefault(key, what)
            return
        raise Violation(what, key)

    def check(self, condition, what, event='checks', key=None):
        self.count(event)
        if not condition:
            self.fail(what() if callable(what) else what, key)

    def equal(self, got, expected, what, event='checks', key=None):
        self.count(event)
        if not got == expected:
            self.fail('%s: got %s, expected %s' % (what, brief(got), brief(expected)), key)

    def same(self, got, expected, what, event='values', key=None, dtype=None):
        """Exact equality of arrays, in shape and values (NaN equal to NaN)."""
        g, e = numpy.asarray(got), numpy.asarray(expected)
        self.count(event, max(1, e.size))
        if g.shape != e.shape:
            return self.fail('%s: shape %s, expected %s' % (what, g.shape, e.shape), key)
        if dtype is not None and g.dtype != numpy.dtype(dtype):
            return self.fail('%s: type %s, expected %s' % (what, g.dtype, dtype), key)
        with numpy.errstate(invalid='ignore'):
            bad = ~(g == e)
        if g.dtype.kind == 'f' and e.dtype.kind == 'f':
            bad &= ~(numpy.isnan(g) & numpy.isnan(e))
        if numpy.any(bad):
            where = tuple(int(i[0]) for i in numpy.nonzero(numpy.atleast_1d(bad)))
            self.fail('%s: %d of %d differ, first at %s: got %s, expected %s' % (
                what, bad.sum(), e.size, where, brief(numpy.atleast_1d(g)[where]), brief(numpy.atleast_1d(e)[where])), key)

    def close(self, got, expected, what, rtol=1e-9, atol=1e-12, event='values', key=None):
        """Equality up to rounding. The tolerance is relative to the largest expected magnitude as well."""
        g, e = numpy.asarray(got, dtype=float), numpy.asarray(expected, dtype=float)
        self.count(event, max(1, e.size))
        if g.shape != e.shape:
            return self.fail('%s: shape %s, expected %s' % (what, g.shape, e.shape), key)
        with numpy.errstate(invalid='ignore'):
            bad = ~(numpy.abs(g - e) <= atol + rtol * numpy.abs(e))
            bad &= ~(g == e) & ~(numpy.isnan(g) & numpy.isnan(e))
        if numpy.any(bad):
            where = tuple(int(i[0]) for i in numpy.nonzero(numpy.atleast_1d(bad)))
            self.fail('%s: %d of %d differ, first at %s: got %s, expected %s' % (
                what, bad.sum(), e.size, where, brief(numpy.atleast_1d(g)[where]), brief(numpy.atleast_1d(e)[where])), key)

    def masked_close(self, got, expected, what, rtol=1e-9, atol=1e-12, event='values', key=None):
        """As close, for masked arrays: same mask, same values where not masked."""
        gm, em = numpy.ma.getmaskarray(got), numpy.ma.getmaskarray(expected)
        self.same(gm, em, what + ' (missing)', event=event, key=key)
        if gm.shape == em.shape:
            use = ~em
            self.close(numpy.ma.getdata(got)[use], numpy.ma.getdata(expected)[use], what, rtol, atol, event, key)

    def raises(self, action, what, exceptions=Exception, event='refusals', key=None):
        """The action has to be refused with an exception."""
        self.count(event)
        try:
            result = action()
        except exceptions as problem:
            return problem
        self.fail('%s: accepted, result %s' % (what, brief(result)), key)

    # Scratch files
    @contextlib.contextmanager
    def scratch(self):
        path = tempfile.mkdtemp(dir=self.scratch_root)
        here = os.getcwd()
        try:
            yield path
        finally:
            os.chdir(here)
            shutil.rmtree(path, ignore_errors=True)
