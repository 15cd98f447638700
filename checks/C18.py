"""Hyperparameter optimisation: cost, gradient, optimiser and the passage of hyperparameters and inputs."""

import collections
import copy
import datetime
import io
import os
import uuid

import numpy
import scipy.linalg
import scipy.optimize
import scipy.sparse
from sksparse.cholmod import CholmodNotPositiveDefiniteError, cholesky

import py2open  # noqa: F401 (replaces the translation's open)
import stand
from fields import dense
from models import EPOCH, LINEAR, Structure, grandmean, harmonics, local, nonstationary, spacetime, spline, structure
from posterior import observed
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.components.storage_inmemory import SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
from eustace.analysis.advanced_standard.elements.grandmean import GrandMeanElement
from eustace.analysis.advanced_standard.elements.local import LocalElement, LocalHyperparameters
from eustace.analysis.advanced_standard.elements.local_view import ExpandedLocalHyperparameters, ExtendedCombinationHyperparameters, GeneralHyperparameters
from eustace.analysis.advanced_standard.elements.seasonal import SeasonalHyperparameters
from eustace.analysis.advanced_standard.elements.spacetimespde import SpaceTimeSPDEHyperparameters
from eustace.analysis.advanced_standard.fileio import optimization_inputs
from eustace.analysis.advanced_standard.linalg.costfunction import MarginalGaussianCF, MarginalGaussianReplicateCF_InMemory
from eustace.analysis.advanced_standard.linalg.optimize import Optimizer
from eustace.analysis.advanced_standard.optimizationsystem import OptimizationSystem
from eustace.analysis.fileio.observationsource_rawbinary import LocalCorrelationRangeRawBinaryWriter, LocationLookupRawBinaryWriter, LocationLookupWithID, ObservationRawBinaryWriter
from eustace.analysis.observationsource import Observations

NEEDS = {'extension': True}
RULE = """For random models, hyperparameters and observations the monitor computes the negative log marginal likelihood from dense covariance matrices
and requires that differences of the cost between hyperparameter values equal differences of the likelihood whatever the set point, for single
and replicated costs, and that the gradient equals the numerical derivative of the likelihood. Optimisations are run to the end and their result
judged by the same likelihood. Hyperparameters travel through arrays, files and combinations; inputs through descriptors and binary files.
Non-trivial: more than one hyperparameter or replicate."""
REQUIRED = {'cost differences': 80, 'gradients': 150, 'replicates': 60, 'optimisations': 10, 'improved': 6, 'searches converged': 4, 'searches failed': 3, 'round trips': 60, 'files': 10, 'descriptors': 10, 'days loaded': 12}
ASSUMPTIONS = ['Costs are compared to 1e-6 of the sum of their terms', 'Minimisation is that of scipy with the options of the package']


class Problem(object):
    """A model with observations; the likelihood by dense matrices."""

    def __init__(self, rng, case, replicates, centred=False):
        self.case = case
        self.n = len(case.prior(self.theta()))
        self.sets = []
        for _ in range(replicates):
            o = observed(rng, case.when(rng) if case.when else None, case.groups, bool(rng.randint(2)))
            J = dense(case.element.element_design(o).design_jacobian(None))
            mean = numpy.zeros(self.n) if centred or rng.randint(2) else rng.normal(0, 1, self.n)
            self.sets.append((J, dense(o.precision), o.values, mean))

    def theta(self):
        return numpy.array(self.case.hyperparameters.get_array(), float)

    def likelihood(self, theta, terms=False):
        Q = self.case.prior(numpy.asarray(theta, float))
        total, size = 0.0, 0.0
        logprior = numpy.linalg.slogdet(Q)[1]
        for J, R, y, mean in self.sets:
            # the density of y with covariance S = R^-1 + J Q^-1 J', less the terms without Q, by the matrix determinant lemma and Woodbury's identity
            r = y - J.dot(mean)
            A, c = Q + J.T.dot(R).dot(J), J.T.dot(R.dot(r))
            logdet, quadratic = numpy.linalg.slogdet(A)[1] - logprior, c.dot(numpy.linalg.solve(A, c))
            total += 0.5 * logdet - 0.5 * quadratic
            size += abs(logdet) + r.dot(R.dot(r)) + self.n
        return (total, size) if terms else total

    def increments(self, kind):
        make = scipy.sparse.csr_matrix if kind == 'csr' else scipy.sparse.csc_matrix
        return [J.T.dot(R.dot(y)) for J, R, y, m in self.sets], [make(J.T.dot(R).dot(J)) for J, R, y, m in self.sets]

    def functions(self, kind):
        def Q(values):
            self.case.hyperparameters.set_array(numpy.array(values, float))
            return self.case.element.element_prior(self.case.hyperparameters).prior_precision().asformat(kind)

        def dQ(values, index):
            self.case.hyperparameters.set_array(numpy.array(values, float))
            return self.case.element.element_prior(self.case.hyperparameters).prior_precision_derivative(index).asformat(kind)
        return Q, dQ


def model(rng):
    makers = [grandmean, harmonics, local, nonstationary, lambda r: spacetime(r, 'kronecker')]
    while True:
        case = makers[rng.randint(len(makers))](rng)
        theta = numpy.array(case.hyperparameters.get_array(), float)
        # the dense reference inverts covariances, which a prior much wider or narrower than the observations leaves without digits
        if numpy.linalg.cond(case.prior(theta)) < 1e7 and (case.name != 'grand mean' or abs(theta[0]) < 5):
            return case


def fourth(function, theta, k, step=2e-3):
    def at(m):
        shifted = numpy.array(theta, float)
        shifted[k] += m * step
        return function(shifted)
    return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * step)


def costs(rng, mon):
    problem = Problem(rng, model(rng), int(rng.choice([1, 2, 3, 4, 2, 3, 4, 9])) if mon.index % 2 else 1)
    kind = 'csc' if rng.randint(2) else 'csr'
    Q, dQ = problem.functions(kind)
    vectors, matrices = problem.increments(kind)
    means = [s[3] for s in problem.sets]
    points = [rng.normal(0, 1, problem.n) for _ in problem.sets]
    other = [rng.normal(0, 3, problem.n) for _ in problem.sets]
    theta = problem.theta()
    single = len(problem.sets) == 1 and rng.randint(2)

    def evaluate(values, at):
        if single:
            return MarginalGaussianCF(at[0], Q, dQ).cost_function(values, means[0], vectors[0], matrices[0], ())
        return MarginalGaussianReplicateCF_InMemory(Q, dQ).cost_function(values, at, means, vectors, matrices, ())

    def gradient(values, at):
        if single:
            return MarginalGaussianCF(at[0], Q, dQ).cost_derivative(values, means[0], vectors[0], matrices[0], ())
        return MarginalGaussianReplicateCF_InMemory(Q, dQ).cost_derivative(values, at, means, vectors, matrices, ())
    for at in (points, other):
        base, reference = evaluate(theta, at), problem.likelihood(theta, True)
        for _ in range(2):
            moved = theta + rng.normal(0, 0.3, len(theta))
            there = problem.likelihood(moved, True)
            got, expected = evaluate(moved, at) - base, there[0] - reference[0]
            quad = sum(float(p.dot(problem.case.prior(theta)).dot(p)) + float(p.dot(dense(m)).dot(p)) for p, m in zip(at, matrices))
            mon.close(got, expected, 'difference of costs', rtol=0, atol=1e-8 * (reference[1] + there[1] + quad + 1))
            mon.count('cost differences')
    slope = numpy.asarray(gradient(theta, points)).ravel()
    mon.equal(len(slope), len(theta), 'size of the gradient')
    for k in rng.choice(len(theta), min(len(theta), 5), replace=False):
        expected = fourth(problem.likelihood, theta, k)
        mon.close(slope[k], expected, 'gradient %d of %s' % (k, problem.case.name), rtol=1e-5, atol=1e-8 * (reference[1] + quad + 1))
        mon.count('gradients')
    # The Gaussian density itself
    matrix = problem.case.prior(theta)
    value = MarginalGaussianCF.gaussian_loglikelihood(theta, points[0], Q(theta).asformat('csc'), cholesky(Q(theta).asformat('csc')))
    expected = 0.5 * numpy.linalg.slogdet(matrix)[1] - 0.5 * problem.n * numpy.log(2 * numpy.pi) - 0.5 * points[0].dot(matrix).dot(points[0])
    mon.close(float(numpy.asarray(value)), expected, 'density', rtol=1e-8, atol=1e-8 * (quad + problem.n))
    mon.count('replicates', len(problem.sets))
    mon.case(('cost', problem.case.name, problem.n, len(problem.sets), len(theta)), nontrivial=len(theta) > 1 or len(problem.sets) > 1)


class Bowl(object):
    """A cost whose minimum is known."""

    def __init__(self, rng, n):
        root = rng.normal(0, 1, (n, n))
        self.A, self.centre, self.calls = root.dot(root.T) + numpy.eye(n), rng.normal(0, 2, n), []

    def cost_function(self, parameters, scale):
        self.calls.append(numpy.array(parameters))
        d = parameters - self.centre
        return scale * d.dot(self.A).dot(d)

    def cost_derivative(self, parameters, scale):
        return 2 * scale * self.A.dot(parameters - self.centre)


def optimiser(rng, mon):
    n = int(rng.randint(1, 5))
    bowl = Bowl(rng, n)
    start = rng.normal(0, 2, n)
    first = start.copy()
    scale = float(rng.uniform(0.5, 3))
    made = Optimizer(start, bowl, cost_function_args=(scale,))
    made.fit()
    mon.same(numpy.asarray(made.optim_path[0]), first, 'path begins at the starting values')
    cost = [bowl.cost_function(numpy.asarray(p), scale) for p in made.optim_path]
    mon.check(all(b <= a + 1e-12 * (1 + abs(a)) for a, b in zip(cost, cost[1:])), lambda: 'cost along the path %r' % cost)
    mon.check(bowl.cost_function(made.result.x, scale) <= cost[0], 'result is no worse than the start')
    if made.result.success:
        mon.close(made.result.x, bowl.centre, 'minimum', rtol=0, atol=1e-4)
    mon.count('bowls')
    mon.case(('bowl', n))


def optimise(rng, mon):
    """A delayed component fits its hyperparameters to observations of several days."""
    level = 1
    element = LocalElement(level)
    parameters = LocalHyperparameters(float(rng.choice([rng.normal(0.5, 0.7), rng.normal(0.5, 0.7), 3.5, -3.0])), float(numpy.log(rng.uniform(0.3, 1.5))))
    case = local(rng)
    while case.name != 'local' or case.element.spde.triangulation.level != level:
        case = local(rng)
    case.element, case.hyperparameters = element, parameters
    truth = numpy.array([rng.normal(0.3, 0.4), numpy.log(rng.uniform(0.4, 1.2))])
    Q = case.prior(truth)
    root = scipy.linalg.cholesky(Q, lower=True)
    store = SpatialComponentSolutionStorage_InMemory()
    component = DelayedSpatialComponent(ComponentStorage_InMemory(element, parameters), store)
    solution = component.component_solution()
    problem = Problem(rng, case, 0)
    for day in rng.choice(1000, int(rng.choice([2, 3, 5, 8, 14, 40], p=[0.25, 0.25, 0.2, 0.15, 0.1, 0.05])), replace=False):
        when = EPOCH + datetime.timedelta(days=int(day))
        o = observed(rng, when, None)
        n = int(rng.randint(20, 60))
        o.places = numpy.vstack([numpy.degrees(numpy.arcsin(rng.uniform(-1, 1, n))), rng.uniform(-180, 180, n)]).T
        J = dense(element.element_design(o).design_jacobian(None))
        o.precision = scipy.sparse.diags(rng.uniform(1, 9, n), 0, format='csr')
        o.values = J.dot(scipy.linalg.solve_triangular(root.T, rng.normal(0, 1, len(Q)))) + rng.normal(0, 1, n) / numpy.sqrt(o.precision.diagonal())
        solution.process_observations(o, numpy.zeros(n))
        solution.update_time_step()
        problem.sets.append((J, dense(o.precision), o.values, numpy.zeros(len(Q))))
    solution.update()
    start = numpy.array(parameters.get_array(), float)
    before = problem.likelihood(start)
    with mon.scratch() as folder:
        path = None
        if mon.index % 2:
            component.storage.hyperparameters = parameters = ExtendedCombinationHyperparameters([parameters])
            component.storage.element = CombinationElement([element])
            path = os.path.join(folder, 'h.npy')
        visited = []
        original = LocalHyperparameters.set_array

        def recorded(this, values):
            visited.append(numpy.array(values, float))
            original(this, values)
        LocalHyperparameters.set_array = recorded
        minimise, results = scipy.optimize.minimize, []
        short = bool(rng.randint(3) == 0)

        def watched(fun, x0, args=(), **options):
            if short:
                options['options'] = dict(options.get('options') or {}, maxiter=1)
            result = minimise(fun, x0, args, **options)
            results.append((bool(result.success), numpy.array(result.x, float)))
            fun(numpy.array(result.x) + 0.05, *args)        # the function evaluated elsewhere leaves no trace
            return result
        undo = stand.swap(minimise, watched)
        try:
            OptimizationSystem([component], 'Tmean', log=io.StringIO()).optimize_component(0, path)
        except CholmodNotPositiveDefiniteError:
            last = visited[-1] if visited else start
            mon.check(not numpy.isfinite(last).all() or numpy.abs(last).max() > 15 or numpy.linalg.cond(case.prior(last)) > 1e9, lambda: 'no factors at %r' % last)
            mon.count('searches that left the region where the prior can be factored')
            return
        finally:
            LocalHyperparameters.set_array = original
            undo()
        end = numpy.array(parameters.get_array(), float)
        if path:
            again = ExtendedCombinationHyperparameters([LocalHyperparameters(0.0, 0.0)])
            again.values_from_npy_savefile(path)
            mon.same(numpy.asarray(again.get_array()), end, 'hyperparameters saved')
            mon.count('files')
    mon.equal(end.shape, start.shape, 'size of the result')
    if len(results) == 1:
        mon.same(end, results[0][1] if results[0][0] else start, 'hyperparameters after a search which %s' % ('converged' if results[0][0] else 'failed'))
        mon.count('searches converged' if results[0][0] else 'searches failed')
    mon.check(bool(numpy.isfinite(end).all()), 'finite hyperparameters')
    after = problem.likelihood(end)
    mon.check(after <= before + 1e-7 * (1 + abs(before)), lambda: 'likelihood at the end %r, at the start %r' % (after, before))
    if not numpy.array_equal(start, end):
        size = problem.likelihood(end, True)[1]
        for k in range(2):
            slope = fourth(problem.likelihood, end, k)
            mon.check(abs(slope) < 1e-2 + 1e-6 * size, lambda: 'slope %g at the end' % slope)
        mon.count('improved')
    mon.count('optimisations')
    mon.case(('optimise', len(problem.sets), bool(path)))


def some_parameters(rng, depth=0):
    """Hyperparameters and the values expected in their array."""
    kind = rng.randint(6 if depth < 2 else 4)
    if kind == 0:
        v = float(rng.normal())
        return CovariateHyperparameters(v), [v]
    if kind == 1:
        a, b = float(rng.normal()), float(rng.normal())
        return LocalHyperparameters(log_sigma=a, log_rho=b), [a, b]
    if kind == 2:
        a, b, c = [float(v) for v in rng.normal(0, 1, 3)]
        return SpaceTimeSPDEHyperparameters(space_log_sigma=a, space_log_rho=b, time_log_rho=c), [a, b, c]
    if kind == 3:
        n, a, b = int(rng.randint(1, 4)), float(rng.normal()), float(rng.normal())
        return SeasonalHyperparameters(n, a, b), [a, b] * n
    parts = [some_parameters(rng, depth + 1) for _ in range(int(rng.randint(1, 4)))]
    cls = CombinationHyperparameters if kind == 4 else ExtendedCombinationHyperparameters
    return cls([p for p, v in parts]), [x for p, v in parts for x in v]


def parameters(rng, mon):
    made, values = some_parameters(rng)
    mon.same(numpy.asarray(made.get_array(), float), numpy.array(values), 'array of hyperparameters')
    fresh = rng.normal(0, 1, len(values))
    made.set_array(fresh.copy())
    mon.same(numpy.asarray(made.get_array(), float), fresh, 'array set and read')
    if isinstance(made, ExtendedCombinationHyperparameters):
        with mon.scratch() as folder:
            path = os.path.join(folder, 'p.npy')
            made.values_to_npy_savefile(path)
            made.set_array(rng.normal(0, 1, len(values)))
            made.values_from_npy_savefile(path)
            mon.same(numpy.asarray(made.get_array(), float), fresh, 'array written and read')
            mon.count('files')
    n = int(rng.randint(1, 30))
    wide = ExpandedLocalHyperparameters(rng.normal(0, 1, n), rng.normal(0, 1, n))
    expected = numpy.hstack([wide.log_sigma, wide.log_rho])
    mon.same(wide.get_array(), expected, 'expanded hyperparameters')
    names = sorted(set(str(k) for k in rng.choice(['log_sigma', 'log_rho', 'alpha', 'H', 'zeta', 'B'], int(rng.randint(1, 6)))))
    table = dict((k, rng.normal(0, 1, int(rng.randint(1, 6)))) for k in [names[i] for i in rng.permutation(len(names))])
    general = GeneralHyperparameters(**table)
    flat = numpy.hstack([table[k] for k in sorted(table)])
    mon.same(general.get_array(), flat, 'general hyperparameters in order of name')
    with mon.scratch() as folder:
        path = os.path.join(folder, 'e.npy')
        wide.values_to_npy_savefile(path)
        other = ExpandedLocalHyperparameters(numpy.zeros(n), numpy.zeros(n))
        other.values_from_npy_savefile(path)
        mon.same(other.get_array(), expected, 'expanded hyperparameters from a file')
        mon.same(other.get_dictionary()['log_rho'], wide.log_rho, 'expanded ranges from a file')
        path = os.path.join(folder, 'g.npy')
        general.values_to_npy_savefile(path)
        back = GeneralHyperparameters.init_from_npy_savefile(path)
        mon.equal(sorted(back.get_dictionary()), sorted(table), 'names from a file')
        for k in table:
            mon.same(back.get_dictionary()[k], table[k], 'values of %s from a file' % k)
    moved = rng.normal(0, 1, len(flat))
    general.set_array(moved)
    mon.same(general.get_array(), moved, 'general hyperparameters set and read')
    begin = 0
    for k in sorted(table):
        mon.same(general.get_dictionary()[k], moved[begin:begin + len(table[k])], 'general hyperparameter ' + k)
        begin += len(table[k])
    mon.count('round trips')
    mon.case(('parameters', type(made).__name__, len(values)), nontrivial=len(values) > 1)


def pipeline(rng, mon):
    """Descriptors of daily input files, loaded into the system."""
    with mon.scratch() as folder:
        days = sorted(int(d) for d in rng.choice(numpy.arange(50000, 50400), int(rng.randint(1, 4)), replace=False))
        lookup = numpy.vstack([rng.uniform(-89, 89, 30), rng.uniform(-180, 180, 30)])
        identifier = uuid.UUID(bytes=rng.bytes(16))
        place = os.path.join(folder, 'places.bin')
        LocationLookupRawBinaryWriter().write(place, LocationLookupWithID(identifier, lookup))
        LocalCorrelationRangeRawBinaryWriter().write(os.path.join(folder, 'ranges.bin'), [1.0])
        expected, summaries = {}, []
        for day in days:
            when = EPOCH + datetime.timedelta(days=day, seconds=int(rng.choice([0, 0, 43200, 75600])))
            sources, rows = [], []
            for source in range(int(rng.choice([1, 2, 2, 5]))):
                n = int(rng.randint(1, 12))
                mask = rng.uniform(size=n) < 0.2
                where = rng.randint(0, 30, n).astype(numpy.uint64)
                values, error = rng.normal(280, 5, n), rng.uniform(0.3, 2, n)
                name = os.path.join(folder, 'obs_%d_%d.bin' % (day, source))
                ObservationRawBinaryWriter().write_day(name, identifier, Observations(mask, numpy.full(n, float(day)), where, values, error, [numpy.full(n, 0.1)]), day)
                entry = {'local_correlation_ranges_filenames': {'Tmean': os.path.join(folder, 'ranges.bin')}, 'observable_filenames': {'Tmean': name}}
                if source % 2:
                    entry['mobile_location_lookup_filenames'] = {'Tmean': place}
                else:
                    entry['fixed_location_lookup_filename'] = place
                sources.append(entry)
                rows.append((lookup[:, where[~mask].astype(int)].T, values[~mask], error[~mask]))
            summary = os.path.join(folder, 'summaries', '%d.json' % day)
            optimization_inputs.input_summary(when, summary, sources)
            summaries.append((when.isoformat(), summary))
            expected[when.isoformat()] = (day, sources, rows)
        if rng.randint(3) == 0:
            # a day for which there are no sources
            when = EPOCH + datetime.timedelta(days=days[-1] + 7)
            summaries.append((when.isoformat(), os.path.join(folder, 'summaries', 'empty.json')))
            optimization_inputs.input_summary(when, summaries[-1][1], [])
            expected[when.isoformat()] = (days[-1] + 7, [], [])
        order = [summaries[i] for i in rng.permutation(len(summaries))]
        merged = os.path.join(folder, 'merged', 'all.json')
        optimization_inputs.merge_input_summaries([s for t, s in order], merged)
        descriptor = optimization_inputs.generate_input_descriptor(merged)
        mon.equal(list(descriptor.keys()), [t for t, s in order], 'days of the descriptor')
        for key in descriptor:
            mon.equal(descriptor[key], expected[key][1], 'sources of a day')
        mon.count('descriptors')
        mean = SpaceTimeComponent(ComponentStorage_InMemory(GrandMeanElement(), CovariateHyperparameters(float(numpy.log(30.0)))), SpaceTimeComponentSolutionStorage_InMemory())
        store = SpatialComponentSolutionStorage_InMemory()
        element, values = LocalElement(0), LocalHyperparameters(0.3, -0.2)
        daily = DelayedSpatialComponent(ComponentStorage_InMemory(element, values), store)
        system = OptimizationSystem([mean, daily], 'Tmean', log=io.StringIO())
        some = [t for t, s in order if expected[t][1]]
        if len(some) > 2 and rng.randint(2):
            some = some[:-1]                # days not asked for are not used
        system.update_component(descriptor, 0, some)
        level = float(numpy.asarray(mean.solutionstorage.state_read()).ravel()[0])
        weight = sum((e ** -2.0).sum() for t in some for p, v, e in expected[t][2])
        total = sum((v * e ** -2.0).sum() for t in some for p, v, e in expected[t][2])
        mon.close(level, total / (weight + 1 / 900.0), 'mean of all observations', rtol=1e-9, atol=0)
        system.update_component(descriptor, 1, some)
        Q = dense(element.element_prior(values).prior_precision())
        for t in some:
            day, sources, rows = expected[t]
            A, b = Q.copy(), numpy.zeros(len(Q))
            for p, v, e in rows:
                if len(v):
                    J = dense(element.element_design(Structure(EPOCH + datetime.timedelta(days=day), p)).design_matrix())
                    A += (J.T * e ** -2.0).dot(J)
                    b += (J.T * e ** -2.0).dot(v - level)
            state = store.partial_state_read(day)
            if any(len(v) for p, v, e in rows):
                mon.close(numpy.asarray(state).ravel(), numpy.linalg.solve(A, b), 'state of a day loaded from files', rtol=1e-7, atol=1e-8)
            else:
                mon.check(state is None, 'no state without observations')
            mon.count('days loaded')
    mon.case(('pipeline', len(days)), nontrivial=len(days) > 1)


SCENARIOS = [(costs, 80, 1500), (optimiser, 30, 300), (optimise, 24, 300), (parameters, 90, 1000), (pipeline, 24, 300)]
