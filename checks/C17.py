"""The analysis system: additive components, joint solution, grid cell averages and projections."""

import datetime
import io
import os

import numpy
import scipy.linalg
import scipy.sparse

from fields import dense
from models import EPOCH, Structure, bias, grandmean, harmonics, local, seasonal, spacetime, structure
from posterior import Observed, Posterior, observed
from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.components.storage_inmemory import SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.components.storage_files_batch import SpaceTimeComponentSolutionStorageBatched_Files, SpatialComponentSolutionStorageIndexed_Files
from eustace.analysis.advanced_standard.fileio.output_projector import Projector
from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import OutputRectilinearGridStructure

NEEDS = {'extension': True}
RULE = """Analysis systems of one to four random components (coupled over days, independent per day, or delayed) are updated several times with
several sources per day, some days or sources empty. After every component update the monitor compares its state with the dense posterior of the
observations less the current estimates of the others, and requires that the joint misfit never grows; after many sweeps the states must reach
the joint solution. Estimates, uncertainties and samples are evaluated at points and as grid cell averages with any sampling, block size and
direction of the axes, by the system and by the projector, and compared with the sum over the individual sub-cell points.
Non-trivial: two or more components."""
REQUIRED = {'component updates': 100, 'misfit steps': 100, 'joint solutions': 6, 'grid values': 2000, 'point values': 1000, 'sub-cell averages': 30, 'blockings': 30,
            'fractions': 300, 'undefined fractions': 5, 'projections': 30, 'projected deviations': 20, 'days projected': 10, 'projected spreads': 15, 'refusals': 30, 'several days': 15, 'sums of samples': 15}
ASSUMPTIONS = ['Cell spacings are multiples of 0.001 degrees and grids have at least two rows and columns', 'The prior deviations used for the climatology fraction are sampled by the system and judged to 25 per cent']


class Quiet(io.StringIO):
    def write(self, text):
        return len(text)


class Loader(object):
    def __init__(self, table):
        self.table = table

    def datetime_at_time_index(self, index):
        return EPOCH + datetime.timedelta(days=int(index))

    def load_observation_structure(self, observable, index, log=None):
        assert observable == 'Tmean'
        return self.table[index]


class Part(object):
    """One component with the states expected."""

    def __init__(self, rng, kind, case, size=1, method='EXACT', definition=None):
        self.kind, self.case, self.element, self.parameters = kind, case, case.element, case.hyperparameters
        self.daily = kind != 'coupled'
        self.store = SpatialComponentSolutionStorage_InMemory() if self.daily else SpaceTimeComponentSolutionStorage_InMemory()
        maker = {'coupled': SpaceTimeComponent, 'daily': SpatialComponent, 'delayed': DelayedSpatialComponent}[kind]
        self.definition = definition or ComponentStorage_InMemory(self.element, self.parameters)
        self.component = maker(self.definition, self.store, compute_uncertainties=True, compute_sample=True, sample_size=size)

    def read(self, what, index):
        value = getattr(self.store, 'partial_%s_read' % what)(index) if self.daily else getattr(self.store, '%s_read' % what)()
        return None if value is None else numpy.asarray(value)

    def matrix(self, o):
        return dense(self.element.element_design(o).design_jacobian(None))

    def value(self, o):
        state = self.read('state', o.time_index())
        return numpy.zeros(len(o.places)) if state is None else self.matrix(o).dot(state.ravel())

    def spread(self, o):
        std = self.read('state_marginal_std', o.time_index())
        return numpy.zeros(len(o.places)) if std is None else numpy.abs(self.matrix(o)).dot(std.ravel())


def days_for(rng, cases, n):
    chosen = [c.when for c in cases if c.when]
    result = {}
    for _ in range(60):
        when = chosen[0](rng) if chosen else EPOCH + datetime.timedelta(days=int(rng.randint(0, 62000)))
        when = datetime.datetime(when.year, when.month, when.day)
        result[(when - EPOCH).days] = when
        if len(result) == n:
            break
    return result


def build(rng, sizes=None, daily_only=False, size=1):
    """Components and a system of them."""
    n = int(rng.randint(1, 5)) if sizes is None else sizes
    parts, cases = [], []
    used = False
    for _ in range(n):
        kind = ['coupled', 'coupled', 'daily', 'delayed'][rng.randint(4)]
        if kind == 'coupled':
            makers = [grandmean, harmonics, local, seasonal, bias] + ([] if used else [lambda r: spacetime(r, 'kronecker')])
        else:
            makers = [local, harmonics]
        case, definition = makers[rng.randint(len(makers))](rng), None
        if parts and rng.randint(4) == 0:
            # the same definition once more, with a state of its own
            kind, case, definition = parts[-1].kind, parts[-1].case, parts[-1].definition
        used = used or case.when is not None
        cases.append(case)
        parts.append(Part(rng, kind, case, size, definition=definition))
    system = AnalysisSystem([p.component for p in parts], 'Tmean', log=Quiet())
    return parts, cases, system


def inputs(rng, cases, n=None):
    groups = {}
    for c in cases:
        for name, size in (c.groups or {}).items():
            groups[name] = min(size, groups.get(name, size))
    when = days_for(rng, cases, int(rng.randint(1, 4)) if n is None else n)
    loaders = []
    level, scale = float(rng.choice([0, 0, 281.5])), float(rng.choice([1, 1, 1, 1e-5, 1e3]))
    for _ in range(int(rng.randint(1, 4))):
        table = {}
        for index, day in when.items():
            o = observed(rng, day, groups, bool(rng.randint(3)))
            o.values += level
            o.precision = o.precision * scale
            if rng.randint(5) == 0:
                o = o.rows(numpy.arange(0))
            table[index] = o
        loaders.append(Loader(table))
    return groups, sorted(when), loaders


def offsets(parts, skip, o):
    return numpy.sum([numpy.zeros(len(o.places))] + [p.value(o) for k, p in enumerate(parts) if k != skip], axis=0)


def misfit(parts, indices, loaders):
    total = 0.0
    for index in indices:
        for loader in loaders:
            o = loader.table[index]
            r = o.values - offsets(parts, None, o)
            total += r.dot(dense(o.precision).dot(r))
        for p in parts:
            if p.daily and p.read('state', index) is not None:
                x = p.read('state', index).ravel()
                total += x.dot(dense(p.element.element_prior(p.parameters).prior_precision()).dot(x))
    for p in parts:
        if not p.daily and p.read('state', None) is not None:
            x = p.read('state', None).ravel()
            total += x.dot(dense(p.element.element_prior(p.parameters).prior_precision()).dot(x))
    return total


def judge_update(mon, parts, k, indices, loaders, before):
    part = parts[k]
    steps = lambda index: [(l.table[index], before[id(l.table[index])]) for l in loaders if len(l.table[index].places)]
    if part.daily:
        for index in indices:
            if steps(index):
                expected = Posterior(part.element, part.parameters, steps(index))
                expected.judge_state(mon, part.read('state', index), 'daily component')
                expected.judge_std(mon, part.read('state_marginal_std', index), 'deviations of a daily component')
            else:
                mon.check(part.read('state', index) is None, 'no state for a day without observations')
    else:
        expected = Posterior(part.element, part.parameters, [s for index in indices for s in steps(index)])
        expected.judge_state(mon, part.read('state', None), 'coupled component')
        expected.judge_std(mon, part.read('state_marginal_std', None), 'deviations of a coupled component')
    mon.count('component updates')


def updates(rng, mon):
    parts, cases, system = build(rng)
    groups, indices, loaders = inputs(rng, cases)
    last = None
    for sweep in range(int(rng.randint(1, 4))):
        order = range(len(parts)) if sweep == 0 and rng.randint(2) else rng.permutation(len(parts))
        for k in [int(i) for i in order]:
            before = dict((id(l.table[i]), offsets(parts, k, l.table[i])) for l in loaders for i in indices)
            keep = [l.table[i].values.copy() for l in loaders for i in indices]
            times = [indices[i] for i in rng.permutation(len(indices))]
            if rng.randint(2):
                system.update_component(loaders, k, times)
            else:
                for index in times:
                    system.update_component_time(loaders, k, index)
                system.update_component_solution(k)
            for got, values in zip([l.table[i].values for l in loaders for i in indices], keep):
                mon.same(got, values, 'observations after an update')
            judge_update(mon, parts, k, indices, loaders, before)
            now = misfit(parts, indices, loaders)
            if last is not None:
                mon.check(now <= last * (1 + 1e-9) + 1e-9, lambda: 'joint misfit grew from %r to %r' % (last, now))
                mon.count('misfit steps')
            last = now
    for index in indices:
        o = structure(rng, EPOCH + datetime.timedelta(days=index), groups)
        values = numpy.asarray(system.evaluate_expected_value('MAP', o, 'POINTWISE'))
        mon.close(values, numpy.sum([p.value(o) for p in parts], axis=0), 'sum of the components', rtol=1e-9, atol=1e-8)
        spread = numpy.asarray(system.evaluate_expected_value('post_STD', o, 'POINTWISE'))
        mon.close(spread, numpy.sqrt(numpy.sum([p.spread(o) ** 2 for p in parts], axis=0)), 'uncertainties in quadrature', rtol=1e-9, atol=1e-9)
        mon.count('point values', len(o.places))
    mon.raises(lambda: system.evaluate_expected_value('prior_STD', o, 'POINTWISE'), 'prior deviations at points', ValueError)
    mon.raises(lambda: system.evaluate_expected_value('MEAN', o, 'POINTWISE'), 'unknown field', ValueError)
    mon.raises(lambda: system.evaluate_expected_value('MAP', o, 'AVERAGE'), 'unknown output', ValueError)
    mon.case(('updates', tuple(p.kind for p in parts), len(indices), len(loaders)), nontrivial=len(parts) > 1)


def joint(rng, mon):
    """Repeated updates reach the solution of all components together."""
    while True:
        parts, cases, system = build(rng, sizes=2)
        if sum(p.element.element_prior(p.parameters).prior_number_of_state_parameters() for p in parts) < 300:
            break
    groups, indices, loaders = inputs(rng, cases)
    blocks, priors = [], []         # columns: component by component, daily ones once per day
    for p in parts:
        prior = dense(p.element.element_prior(p.parameters).prior_precision())
        for index in (indices if p.daily else [None]):
            blocks.append((p, index))
            priors.append(prior)
    rows, values, weights = [], [], []
    for index in indices:
        for l in loaders:
            o = l.table[index]
            if len(o.places) == 0:
                continue
            rows.append(numpy.hstack([p.matrix(o) if i in (None, index) else numpy.zeros((len(o.places), len(q))) for (p, i), q in zip(blocks, priors)]))
            values.append(o.values)
            weights.append(dense(o.precision))
    if not rows:
        return
    J, R, Q = numpy.vstack(rows), scipy.linalg.block_diag(*weights), scipy.linalg.block_diag(*priors)
    A, b = Q + J.T.dot(R).dot(J), J.T.dot(R.dot(numpy.hstack(values)))
    x = numpy.linalg.solve(A, b)
    least = x.dot(Q).dot(x) + (numpy.hstack(values) - J.dot(x)).dot(R).dot(numpy.hstack(values) - J.dot(x))
    cut = len(priors[0]) * (len(indices) if parts[0].daily else 1)
    # Expected rate of approach of alternate updates
    L = numpy.linalg.solve(A[:cut, :cut], A[:cut, cut:]).dot(numpy.linalg.solve(A[cut:, cut:], A[cut:, :cut]))
    rate = float(numpy.abs(numpy.linalg.eigvals(L)).max())
    sweeps = int(numpy.ceil(numpy.log(1e-5) / numpy.log(max(rate, 1e-3))))
    if sweeps > 25:
        sweeps = 25
    gaps = []
    for sweep in range(sweeps):
        system.update(loaders, indices)
        gaps.append(misfit(parts, indices, loaders) - least)
    gaps = numpy.array(gaps)
    mon.check(bool(numpy.all(gaps > -1e-7 * least - 1e-9)), lambda: 'misfit below the joint minimum %r' % gaps.min())
    mon.check(bool(numpy.all(numpy.diff(gaps) <= 1e-8 * (least + 1))), 'misfit approaches the joint minimum')
    if rate ** sweeps < 1e-4:
        for index in indices:
            o = structure(rng, EPOCH + datetime.timedelta(days=index), groups)
            row = numpy.hstack([p.matrix(o) if i in (None, index) else numpy.zeros((len(o.places), len(q))) for (p, i), q in zip(blocks, priors)])
            missing = any(p.read('state', index) is None for p in parts)
            if not missing:
                mon.close(system.evaluate_expected_value('MAP', o, 'POINTWISE'), row.dot(x), 'joint solution', rtol=0, atol=5e-3 * numpy.abs(x).max() * numpy.abs(row).sum(axis=1).max() + 1e-9)
        mon.count('joint solutions')
    mon.case(('joint', tuple(p.kind for p in parts), len(indices), len(x)))


def grid(rng):
    """Latitudes and longitudes of cell centres with their spacing (which may be negative)."""
    dlat, dlon = [(5.0, 5.0), (2.5, 5.0), (0.25, 0.25), (10.0, 20.0), (0.125, 0.5), (0.5, 0.125), (0.375, 0.375)][rng.randint(7)]
    rows, columns = int(rng.randint(2, 9)), int(rng.randint(2, 9))
    if rng.randint(4) == 0 and dlat <= 5:
        rows, columns = [(30, 3), (12, 11), (3, 19)][rng.randint(3)]
    south = -90 + dlat * int(rng.choice([rng.randint(0, int(180 / dlat) - rows + 1), rng.randint(0, int(180 / dlat) - rows + 1), 0, int(180 / dlat) - rows]))
    west = -180 + dlon * rng.randint(0, int(360 / dlon) - columns + 1)
    lat, lon = south + dlat * (numpy.arange(rows) + 0.5), west + dlon * (numpy.arange(columns) + 0.5)
    if rng.randint(4) == 0:
        lat, dlat = lat[::-1].copy(), -dlat
    if rng.randint(6) == 0:
        lon, dlon = lon[::-1].copy(), -dlon
    return lat, lon, dlat, dlon


def cell_points(lat, lon, dlat, dlon, m, n, when):
    """For each cell its points, as one structure, with weights (cells, points)."""
    y = (numpy.arange(m) + 0.5) / m - 0.5
    x = (numpy.arange(n) + 0.5) / n - 0.5
    places = [(a + dlat * s, b + dlon * t) for a in lat for b in lon for s in y for t in x]
    places = numpy.array(places)
    weight = numpy.cos(numpy.radians(places[:, 0])).reshape(-1, m * n)
    return Structure(when, places), weight / weight.sum(axis=1, keepdims=True)


def solved(rng, mon, sizes=None, size=1, force=None):
    while True:
        parts, cases, system = build(rng, sizes, size=size)
        if any(c.name in ('bias', 'spatial bias') for c in cases):
            continue
        if force is None or force(parts):
            break
    groups, indices, loaders = inputs(rng, cases)
    system.update(loaders, indices)
    return parts, system, indices


def gridded(rng, mon):
    parts, system, indices = solved(rng, mon)
    index = indices[rng.randint(len(indices))]
    when = EPOCH + datetime.timedelta(days=index)
    lat, lon, dlat, dlon = grid(rng)
    output = OutputRectilinearGridStructure(index, when, lat, lon)
    places = numpy.array([(a, b) for a in lat for b in lon])
    mon.close(output.location_polar_coordinates(), places, 'places of a grid', rtol=0, atol=1e-9)
    mon.equal(output.number_of_observations(), len(places), 'number of cells')
    point = Structure(when, places)
    mon.close(system.evaluate_expected_value('MAP', output, 'POINTWISE'), numpy.sum([p.value(point) for p in parts], axis=0), 'values on a grid', rtol=1e-8, atol=1e-8)
    m, n = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    fine, weight = cell_points(lat, lon, dlat, dlon, m, n, when)
    average = lambda v: (weight * v.reshape(weight.shape)).sum(axis=1)
    mean = numpy.sum([average(p.value(fine)) for p in parts], axis=0)
    spread = numpy.sqrt(numpy.sum([average(p.spread(fine)) ** 2 for p in parts], axis=0))
    scale = max(1.0, numpy.abs(mean).max())
    for blocking in set([1, len(lat), 100, int(rng.randint(1, len(lat) + 2))]):
        mon.close(system.evaluate_expected_value('MAP', output, 'GRID_CELL_AREA_AVERAGE', [m, n], blocking), mean, 'cell averages with blocks of %d' % blocking, rtol=1e-7, atol=1e-7 * scale)
        mon.close(system.evaluate_expected_value('post_STD', output, 'GRID_CELL_AREA_AVERAGE', [m, n], blocking), spread, 'cell uncertainties with blocks of %d' % blocking, rtol=1e-7, atol=1e-8)
        mon.count('blockings')
        mon.count('grid values', len(places))
    mon.raises(lambda: system.evaluate_expected_value('prior_STD', output, 'GRID_CELL_AREA_AVERAGE', [m, n], 10), 'prior deviations of all components', (ValueError, AttributeError))
    if m * n > 1:
        mon.count('sub-cell averages')
    mon.case(('gridded', tuple(p.kind for p in parts), m, n, len(lat), dlat > 0), nontrivial=len(parts) > 1 and m * n > 1)


def fraction(rng, mon):
    unique = lambda parts: [p.case.name.startswith('local') for p in parts if p.kind == 'daily'] == [True]
    parts, system, indices = solved(rng, mon, force=unique if mon.index % 3 else None)
    daily = [p for p in parts if p.kind == 'daily']
    index = indices[rng.randint(len(indices))]
    when = EPOCH + datetime.timedelta(days=index)
    lat, lon, dlat, dlon = grid(rng)
    output = OutputRectilinearGridStructure(index, when, lat, lon)
    m, n = int(rng.randint(1, 3)), int(rng.randint(1, 3))
    got = numpy.asarray(system.evaluate_climatology_fraction(output, [m, n], int(rng.choice([1, 3, 100]))))
    mon.equal(got.shape, (len(lat) * len(lon),), 'number of fractions')
    if len(daily) != 1:
        mon.check(bool(numpy.all(got == -32768)), 'missing fraction without a unique spatial component')
        mon.count('undefined fractions')
    elif daily[0].case.name.startswith('local'):
        part = daily[0]
        fine, weight = cell_points(lat, lon, dlat, dlon, m, n, when)
        A = part.matrix(fine)
        post = (weight * part.spread(fine).reshape(weight.shape)).sum(axis=1)
        std = numpy.sqrt(numpy.diag(numpy.linalg.inv(dense(part.element.element_prior(part.parameters).prior_precision()))))
        prior = (weight * A.dot(std).reshape(weight.shape)).sum(axis=1)
        covered = numpy.all((numpy.abs(A).sum(axis=1) > 0.5).reshape(weight.shape), axis=1)     # outside a regional view nothing is defined
        ratio = post[covered] ** 2 / prior[covered] ** 2
        off = numpy.abs(got[covered] - ratio) > 0.25 * ratio + 1e-12
        mon.check(not off.any(), lambda: 'climatology fraction: %r expected %r' % (got[covered][off][:3].tolist(), ratio[off][:3].tolist()))
        mon.count('fractions', int(covered.sum()))
    mon.case(('fraction', len(daily), m, n, len(lat)), nontrivial=len(daily) == 1)


def samples(rng, mon):
    size = int(rng.randint(1, 5))
    parts, system, indices = solved(rng, mon, size=size)
    index = indices[rng.randint(len(indices))]
    o = structure(rng, EPOCH + datetime.timedelta(days=index))
    total = numpy.zeros((len(o.places), size))
    for p in parts:
        draw = p.read('state_sample', index)
        if draw is not None:
            total += p.matrix(o).dot(draw.reshape(-1, size))
    mon.close(system.evaluate_projected_sample(o), total, 'sum of samples', rtol=1e-9, atol=1e-8)
    mon.count('sums of samples')
    if len(parts) > 1:
        parts[-1].component.sample_size = size + 1
        mon.raises(lambda: system.evaluate_projected_sample(o), 'samples of different size', ValueError)
    mon.case(('samples', size, tuple(p.kind for p in parts)), nontrivial=len(parts) > 1)


def several(rng, mon):
    """Several days given at once are as one after another."""
    parts, cases, system = build(rng)
    groups, indices, loaders = inputs(rng, cases, int(rng.choice([2, 3, 7])))
    k = int(rng.randint(len(parts)))
    for other in range(len(parts)):
        if other != k:
            system.update_component(loaders, other, indices)
    before = dict((id(l.table[i]), offsets(parts, k, l.table[i])) for l in loaders for i in indices)
    order = [indices[i] for i in rng.permutation(len(indices))]
    system.update_component_times([loaders for _ in order], k, order)
    system.update_component_solution(k)
    judge_update(mon, parts, k, indices, loaders, before)
    mon.count('several days')
    mon.case(('several', parts[k].kind, len(parts), len(indices)), nontrivial=len(indices) > 1)


def projector(rng, mon):
    size = int(rng.choice([2, 5, 30]))
    part, system, indices = solved(rng, mon, sizes=1, size=size, force=lambda parts: parts[0].kind in ('coupled', 'daily'))
    part = part[0]
    index = indices[rng.randint(len(indices))]
    when = EPOCH + datetime.timedelta(days=index)
    if part.read('state', index) is None:
        return
    lat, lon, dlat, dlon = grid(rng)
    m, n = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    fine, weight = cell_points(lat, lon, abs(dlat), abs(dlon), m, n, when)
    A = (part.matrix(fine).reshape(weight.shape + (-1,)) * weight[:, :, None]).sum(axis=1)
    blocking = int(rng.choice([1, 2, 3, 7, 23, 30, 100]))
    state, sample, prior = part.read('state', index).ravel(), part.read('state_sample', index), rng.normal(0, 2, (A.shape[1], size))
    if part.daily:
        part.store.partial_state_prior_sample_write(prior, index)
    else:
        part.store.state_prior_sample_write(prior)
    made = Projector(lat, lon, [abs(dlat), abs(dlon)], index, [m, n], blocking)
    made.set_component(part.component)
    made.evaluate_design_matrix()
    mon.close(dense(made.design_matrix), A, 'projection', rtol=1e-8, atol=1e-9)
    if rng.randint(2):
        with mon.scratch() as folder:
            made.save_projection(os.path.join(folder, 'p'))
            made = Projector.load_projection(os.path.join(folder, 'p'))
        made.set_component(part.component, keep_design=True)
        if rng.randint(2):
            # the description is kept as well
            made.evaluate_design_matrix()
            mon.close(dense(made.design_matrix), A, 'projection made again', rtol=1e-8, atol=1e-9)
    size_of = 1 + numpy.abs(A).sum(axis=1).max()
    mon.close(numpy.asarray(made.project_expected_value()).ravel(), A.dot(state), 'projected values', rtol=1e-8, atol=1e-8 * numpy.abs(state).max() * size_of + 1e-12)
    tight = 1e-9 * numpy.abs(sample).max() * size_of
    mon.close(made.project_sample_values(), A.dot(sample), 'projected samples', rtol=1e-8, atol=tight)
    mon.close(made.project_sample_values(None), A.dot(sample), 'all projected samples', rtol=1e-8, atol=tight)
    mon.close(made.project_sample_values(slice(1, None)), A.dot(sample[:, 1:]), 'a range of projected samples', rtol=1e-8, atol=tight)
    mon.close(numpy.asarray(made.project_sample_values(size - 1)).ravel(), A.dot(sample[:, -1]), 'one projected sample', rtol=1e-8, atol=tight)
    some = [int(i) for i in rng.choice(size, int(rng.randint(1, size + 1)), replace=False)]
    mon.close(made.project_sample_values(some), A.dot(sample[:, some]), 'some projected samples', rtol=1e-8, atol=tight)
    for which, draws in ((False, sample), (True, prior)):
        got = made.project_sample_deviation(prior=which)
        mon.equal(got.shape, (len(A), 1), 'deviations of a projection')
        mon.close(got.ravel(), numpy.sqrt((A.dot(draws) ** 2).mean(axis=1)), 'deviation of projected samples in %d blocks' % blocking, rtol=1e-8, atol=1e-9 * numpy.abs(draws).max() * size_of)
        mon.count('projected deviations')
        if numpy.ndim(made.state_solution) == 2:
            mon.close(made.project_sample_std(prior=which).ravel(), A.dot(draws).std(axis=1), 'spread of projected samples', rtol=1e-7, atol=1e-8 * numpy.abs(draws).max() * size_of)
            mon.count('projected spreads')
    # The projection of one day used for the states of other days
    for other in indices:
        if part.daily and part.read('state', other) is not None:
            made.update_time_index(other, keep_design=True)
            mon.equal(made.corresponding_datetime, EPOCH + datetime.timedelta(days=other), 'time of a projection kept')
            made.set_component(part.component, keep_design=True)
            there = part.read('state', other).ravel()
            mon.close(numpy.asarray(made.project_expected_value()).ravel(), A.dot(there), 'values of another day by the same projection', rtol=1e-8, atol=1e-8 * numpy.abs(there).max() * size_of + 1e-12)
            mon.close(made.project_sample_values(), A.dot(part.read('state_sample', other)), 'samples of another day by the same projection', rtol=1e-8, atol=1e-9 * size_of * numpy.abs(part.read('state_sample', other)).max())
            mon.count('days projected')
    made.update_time_index(index + 1)
    mon.check(made.design_matrix is None, 'no projection is kept for another day')
    mon.equal(made.corresponding_datetime, when + datetime.timedelta(days=1), 'time of the projection')
    # A component without a state
    bare = Part(rng, part.kind, part.case, size)
    made.set_component(bare.component)
    mon.check(made.design_matrix is None, 'no projection is kept for another component')
    made.evaluate_design_matrix()
    later = Structure(when + datetime.timedelta(days=1), fine.places)
    B = (part.matrix(later).reshape(weight.shape + (-1,)) * weight[:, :, None]).sum(axis=1)
    mon.close(dense(made.design_matrix), B, 'projection of the next day', rtol=1e-8, atol=1e-9)
    mon.check(made.project_expected_value() is None and made.project_sample_values() is None, 'nothing without a state')
    mon.count('projections')
    mon.case(('projector', part.kind, part.case.name, m, n, blocking), nontrivial=m * n > 1)


SCENARIOS = [(updates, 70, 1200), (joint, 24, 400), (gridded, 60, 900), (fraction, 60, 700), (samples, 30, 400), (several, 30, 500), (projector, 60, 800)]
