"""Observations with errors and the dense Gaussian posterior they define."""

import numpy
import scipy.linalg
import scipy.sparse

from fields import dense
from models import Structure, structure


class Observed(Structure):
    def __init__(self, when, places, effects, values, precision):
        super(Observed, self).__init__(when, places, effects)
        self.values, self.precision = values, precision

    def observation_vector(self):
        return self.values

    def observation_precision(self):
        return self.precision

    def rows(self, rows):
        base = self.part(rows)
        return Observed(base.when, base.places, base.effects, self.values[rows], self.precision[rows][:, rows])


def observed(rng, when, groups, independent=True):
    base = structure(rng, when, groups)
    n = len(base.places)
    if independent:
        precision = scipy.sparse.diags(rng.uniform(0.2, 5, n), 0, format='csr')
    else:
        root = rng.normal(0, 0.4, (n, n)) * (rng.uniform(size=(n, n)) < 0.2) + numpy.diag(rng.uniform(0.5, 2, n))
        precision = scipy.sparse.csr_matrix(root.dot(root.T))
    return Observed(base.when, base.places, base.effects, rng.normal(0, 5, n), precision)


class Posterior(object):
    def __init__(self, element, hyperparameters, steps, start=None):
        self.A = dense(element.element_prior(hyperparameters).prior_precision())
        self.b = numpy.zeros(len(self.A))
        self.noise = numpy.zeros(len(self.A))      # of the right-hand side, by rounding of the differences
        self.count = 0
        for o, offset in steps:
            design = element.element_design(o)
            J = dense(design.design_jacobian(start))
            y = o.values - offset
            if start is not None:
                y = y - numpy.asarray(design.design_function(start)).ravel()
            R = dense(o.precision)
            self.A = self.A + J.T.dot(R).dot(J)
            self.b = self.b + J.T.dot(R.dot(y))
            self.noise = self.noise + numpy.abs(J).T.dot(numpy.abs(R).dot(numpy.abs(o.values) + numpy.abs(offset)))
            self.count += len(y)
        self.inverse = numpy.linalg.inv(self.A)
        self.std = numpy.sqrt(numpy.diag(self.inverse))
        self.tolerance = max(1e-8, 1e-13 * numpy.linalg.cond(self.A))

    def judge_state(self, mon, state, what, rounding=0.0):
        """The state solves the normal equations, up to given errors in its values."""
        state = numpy.asarray(state)
        mon.equal(state.size, len(self.b), what + ': size')
        x = state.ravel()
        scale = numpy.abs(self.A).dot(numpy.abs(x)) + numpy.abs(self.b)
        wrong = numpy.abs(self.A.dot(x) - self.b) > 1e-7 * (scale + 1e-12 * scale.max() + 1e-300) + 1e-13 * self.noise + numpy.abs(self.A).dot(numpy.zeros(len(x)) + rounding)
        mon.check(not wrong.any(), lambda: '%s %s' % (what + ': residual of the normal equations', {'wrong': int(wrong.sum()), 'state': x[:5].tolist(), 'expected': self.inverse.dot(self.b)[:5].tolist()}))

    def judge_std(self, mon, std, what):
        mon.equal(numpy.asarray(std).size, len(self.b), what + ': size')
        mon.close(numpy.asarray(std).ravel(), self.std, what, rtol=self.tolerance, atol=0)
        mon.count('deviations', len(self.std))

    def judge_sample(self, mon, sample, size, what):
        sample = numpy.asarray(sample)
        mon.equal(sample.shape, (len(self.b), size), what + ': shape')
        judge_white(mon, scipy.linalg.cholesky(self.A, lower=True).T.dot(sample), what)

    def judge_rough(self, mon, std, what, draws=100):
        """Deviations of a number of samples: each roughly, and their mean square by its known spread."""
        mon.equal(numpy.asarray(std).size, len(self.std), what + ': size')
        ratio = numpy.asarray(std).ravel() / self.std
        mon.check(bool(numpy.all((ratio > 0.5) & (ratio < 1.6))), lambda: '%s %s' % (what, {'ratios': [float(ratio.min()), float(ratio.max())]}))
        spread = numpy.sqrt(2.0 * ((self.inverse / numpy.outer(self.std, self.std)) ** 2).mean() / draws)
        mean = (ratio ** 2).mean()
        mon.check(abs(mean - 1) < 8 * spread + 1.5 / draws, lambda: '%s %s' % (what + ': mean square', {'got': float(mean), 'spread': float(spread)}))
        mon.count('approximate deviations')


def judge_white(mon, white, what):
    n, size = white.shape
    mean = white.mean(axis=1)
    mon.check(bool(numpy.all(numpy.abs(mean) < 7 / numpy.sqrt(size))), lambda: '%s %s' % (what + ': mean', {'worst': float(numpy.abs(mean).max())}))
    cov = white.dot(white.T) / size - numpy.eye(n)
    mon.check(bool(numpy.all(numpy.abs(cov) < 7 * numpy.sqrt(2.0 / size))), lambda: '%s %s' % (what + ': covariance', {'worst': float(numpy.abs(cov).max()), 'size': n}))
    mon.count('samples')
