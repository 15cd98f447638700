"""Component solutions: posterior mean, deviations and samples for every history and storage."""

import datetime
import functools
import os
import pickle

import numpy
import scipy.sparse

from fields import dense
from models import EPOCH, LINEAR, grandmean, harmonics, local, spacetime, structure
from posterior import Posterior, observed
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_files import DelayedSpatialComponentSolutionStorageFlexible_Files
from eustace.analysis.advanced_standard.components.storage_files import DelayedSpatialComponentSolutionStorage_Files
from eustace.analysis.advanced_standard.components.storage_files import SpaceTimeComponentSolutionStorage_Files, SpatialComponentSolutionStorage_Files
from eustace.analysis.advanced_standard.components.storage_files_batch import SpaceTimeComponentSolutionStorageBatched_Files
from eustace.analysis.advanced_standard.components.storage_files_batch import SpatialComponentSolutionStorageIndexed_Files
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.components.storage_inmemory import SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.linalg.linearsystem import LinearSystem, LinearSystemSolution_Cholesky, MeasurementUpdate

NEEDS = {'extension': True}
RULE = """Random elements and combinations are given observations of several days from several sources with diagonal or full error covariances and
random offsets. Each history is processed in different orders and divisions into sources, days and batches, in memory and through every kind of
file storage with fresh objects for each step, as separate processes would. The monitor builds the posterior as dense matrices from the designs
and prior and judges the state (residual of the normal equations), the deviations (diagonal of the inverse), the samples (covariance after
whitening) and all values evaluated at new places. Nonlinear elements are updated repeatedly and each step compared with the linearisation.
Non-trivial: more than one day, source or parameter."""
REQUIRED = {'space-time solutions': 60, 'spatial solutions': 100, 'delayed solutions': 60, 'nonlinear steps': 40, 'deviations': 2000, 'samples': 40,
            'approximate deviations': 40, 'orders': 30, 'merged batches': 20, 'values at new places': 1000, 'stored and read': 200, 'refused': 30, 'empty days': 15,
            'prior samples': 10, 'linear systems': 25}
ASSUMPTIONS = ['Samples are judged by their covariance and mean at seven standard errors', 'Nonlinear updates are those of the linearised system around the current state']
SAMPLES = 3000


def with_folder(scenario):
    @functools.wraps(scenario)
    def run(rng, mon):
        with mon.scratch() as mon.folder:
            scenario(rng, mon)
    return run


def choose(rng, extra=()):
    """An element (perhaps a combination) with hyperparameters, days and groups."""
    makers = [LINEAR[i] for i in (0, 1, 3, 5, 6, 8)]
    cases = [makers[i](rng) for i in rng.choice(len(makers), int(rng.choice([1, 1, 2])), replace=False)]
    groups, days = {}, None
    for case in cases:
        groups.update(case.groups or {})
        days = case.when or days
    if len(cases) == 1:
        return cases[0].element, cases[0].hyperparameters, groups, days
    return CombinationElement([c.element for c in cases]), CombinationHyperparameters([c.hyperparameters for c in cases]), groups, days


def timetable(rng, days, n):
    """Distinct days."""
    result = {}
    for _ in range(50):
        when = days(rng) if days else EPOCH + datetime.timedelta(days=int(rng.choice([rng.randint(0, 62000), rng.randint(0, 62000), rng.randint(0, 3)])))
        result[(when - EPOCH).days] = when
        if len(result) == n:
            break
    return [result[k] for k in sorted(result)]


def history(rng, element, hyperparameters, groups, days, independent=True):
    """Days, each a list of (observations, offset)."""
    result = []
    for when in timetable(rng, days, int(rng.choice([1, 2, 3, 4, 5, 2, 3, 12]))):
        sources = []
        for _ in range(int(rng.randint(1, 4))):
            o = observed(rng, when, groups, independent)
            sources.append((o, rng.normal(0, 3, len(o.places)) if rng.randint(4) else numpy.zeros(len(o.places))))
        result.append(sources)
    return result


def judge_values(rng, mon, solution, element, groups, when, state, std, sample, size, what):
    """Evaluation at new places."""
    o = structure(rng, when, groups)
    J = dense(element.element_design(o).design_jacobian(None))
    value = numpy.asarray(solution.solution_observation_expected_value(o))
    spread = numpy.asarray(solution.solution_observation_expected_uncertainties(o))
    draws = numpy.asarray(solution.solution_observation_projected_sample(o))
    n = len(o.places)
    mon.equal((value.size, spread.size, draws.size), (n, n, n * size), what + ': sizes')
    mon.close(value.ravel(), numpy.zeros(n) if state is None else J.dot(numpy.asarray(state).ravel()), what + ': values', rtol=1e-9, atol=1e-9)
    mon.close(spread.ravel(), numpy.zeros(n) if std is None else numpy.abs(J).dot(numpy.asarray(std).ravel()), what + ': uncertainties', rtol=1e-9, atol=1e-9)
    mon.close(draws.reshape(n, size), numpy.zeros((n, size)) if sample is None else J.dot(numpy.asarray(sample).reshape(J.shape[1], size)), what + ': samples', rtol=1e-9, atol=1e-9)
    mon.count('values at new places', n)


def shuffle(rng, steps):
    """The same observations of a day in another order and division."""
    parts = []
    for o, offset in steps:
        rows = rng.permutation(len(o.places))
        diagonal = len(o.places) > 1 and (o.precision - scipy.sparse.diags(o.precision.diagonal())).count_nonzero() == 0
        pieces = numpy.array_split(rows, int(rng.randint(1, 4))) if diagonal else [rows]
        parts += [(o.rows(p), offset[p]) for p in pieces if len(p)]
    return [parts[i] for i in rng.permutation(len(parts))]


def feed(mon, solution, days):
    for steps in days:
        for o, offset in steps:
            values, subtracted = o.values.copy(), offset.copy()
            solution.process_observations(o, offset)
            mon.same(o.values, values, 'observations after processing')
            mon.same(offset, subtracted, 'offset after processing')
        solution.update_time_step()


def independent_days(mon, samples, what):
    a, b = [numpy.asarray(x) for x in samples]
    worst = numpy.abs(a.dot(b.T) / a.shape[1] / numpy.outer(a.std(axis=1), b.std(axis=1))).max()
    mon.check(worst < 7 / numpy.sqrt(a.shape[1]), lambda: '%s correlated by %s' % (what, worst))


def whole(days):
    return [s for steps in days for s in steps]


def in_memory(rng, mon):
    element, parameters, groups, when = choose(rng)
    days = history(rng, element, parameters, groups, when, bool(rng.randint(3)))
    expected = Posterior(element, parameters, whole(days))
    size = SAMPLES if len(expected.b) <= 60 and mon.index % 2 == 0 else int(rng.choice([1, 3]))
    method = ['EXACT', 'APPROXIMATED'][rng.randint(2)]
    store = SpaceTimeComponentSolutionStorage_InMemory()
    component = SpaceTimeComponent(ComponentStorage_InMemory(element, parameters), store, compute_uncertainties=True, method=method, compute_sample=True, sample_size=size)
    solution = component.component_solution()
    other = structure(rng, days[0][0][0].when, groups)
    mon.check(not numpy.any(solution.solution_observation_expected_value(other)), 'no value before a solution')
    feed(mon, solution, days)
    if rng.randint(2):
        solution.update_time_step()     # a day without observations
        mon.count('empty days')
    solution.update()
    expected.judge_state(mon, store.state_read(), 'space-time state')
    if method == 'EXACT':
        expected.judge_std(mon, store.state_marginal_std_read(), 'space-time deviations')
    else:
        expected.judge_rough(mon, store.state_marginal_std_read(), 'approximate space-time deviations')
    if size == SAMPLES:
        expected.judge_sample(mon, store.state_sample_read(), size, 'space-time sample')
    for steps in days[:2]:
        judge_values(rng, mon, component.component_solution(), element, groups, steps[0][0].when, store.state_read(), store.state_marginal_std_read(), store.state_sample_read(), size, 'space-time')
    # Measurements stay as they are when merged, and updating again gives the same
    merged = component.component_solution().merge_updates()
    J = dense(element.element_prior(parameters).prior_precision())
    mon.close(J + dense(merged.information_precision), expected.A, 'merged precision', rtol=1e-9, atol=1e-9 * numpy.abs(expected.A).max())
    mon.close(dense(merged.information_vector).ravel(), expected.b, 'merged vector', rtol=1e-9, atol=1e-9 * max(1e-300, numpy.abs(expected.b).max()))
    again = component.component_solution()
    again.update()
    expected.judge_state(mon, store.state_read(), 'space-time state updated again')
    # Another order of days and another division of observations
    second = SpaceTimeComponentSolutionStorage_InMemory()
    solution = SpaceTimeComponent(ComponentStorage_InMemory(element, parameters), second, compute_uncertainties=True).component_solution()
    mon.check(second.state_sample_read() is None, 'no sample unless asked for')
    feed(mon, solution, [shuffle(rng, days[i]) for i in rng.permutation(len(days))])
    solution.update()
    expected.judge_state(mon, second.state_read(), 'space-time state in another order')
    merged = solution.merge_updates()
    mon.close(J + dense(merged.information_precision), expected.A, 'merged precision in another order', rtol=1e-9, atol=1e-9 * numpy.abs(expected.A).max())
    solution.update()
    expected.judge_state(mon, second.state_read(), 'space-time state after merging in another order')
    expected.judge_std(mon, second.state_marginal_std_read(), 'space-time deviations in another order')
    mon.check(second.state_sample_read() is None and second.state_prior_sample_read() is None, 'no samples unless asked for')
    # Other hyperparameters
    keep = numpy.array(parameters.get_array(), float)
    parameters.set_array(keep + rng.normal(0, 0.3, len(keep)))
    solution.update()
    moved = Posterior(element, parameters, whole(days))
    moved.judge_state(mon, second.state_read(), 'space-time state with other hyperparameters')
    moved.judge_std(mon, second.state_marginal_std_read(), 'space-time deviations with other hyperparameters')
    parameters.set_array(keep)
    # A component which is asked for the state alone, or also for samples
    third = SpaceTimeComponentSolutionStorage_InMemory()
    third.measurement = dict(store.measurement)
    sampled = bool(rng.randint(2))
    SpaceTimeComponent(ComponentStorage_InMemory(element, parameters), third, compute_sample=sampled).component_solution().update()
    expected.judge_state(mon, third.state_read(), 'state alone')
    mon.check(third.state_marginal_std_read() is None and third.state_prior_sample_read() is None, 'no deviations unless asked for')
    mon.equal(third.state_sample_read() is None, not sampled, 'samples if asked for')
    # New observations of a day replace those processed before
    if len(days) > 1:
        replaced = [(o.rows(numpy.arange(len(o.places))), offset + 1.0) for o, offset in days[0]]
        feed(mon, solution, [replaced])
        solution.update()
        Posterior(element, parameters, replaced + whole(days[1:])).judge_state(mon, second.state_read(), 'state after new observations of a day')
    # Observations of two days cannot be mixed
    if len(days) > 1:
        solution.process_observations(*days[0][0])
        mon.raises(lambda: solution.process_observations(*days[1][0]), 'observations of another day', ValueError)
        mon.count('refused')
    mon.count('orders')
    mon.count('space-time solutions')
    mon.case(('space-time', len(days), len(expected.b), expected.count), nontrivial=len(expected.b) > 1 and expected.count > 1)


def nothing(rng, mon):
    """A component without observations keeps its prior."""
    element, parameters, groups, when = choose(rng)
    expected = Posterior(element, parameters, [])
    kind = mon.index % 2
    size = SAMPLES if len(expected.b) <= 60 else 2
    store = SpaceTimeComponentSolutionStorage_InMemory()
    component = SpaceTimeComponent(ComponentStorage_InMemory(element, parameters), store, compute_uncertainties=True, compute_sample=True, sample_size=size, compute_prior_sample=bool(kind))
    solution = component.component_solution()
    if rng.randint(2):
        solution.update_time_step()
        mon.count('empty days')
    solution.update()
    if kind:
        mon.check(store.state_read() is None, 'only a prior sample')
        sample = store.state_prior_sample_read()
        mon.count('prior samples')
    else:
        mon.check(not numpy.any(store.state_read()), 'state without observations')
        expected.judge_std(mon, store.state_marginal_std_read(), 'prior deviations')
        sample = store.state_sample_read()
    if size == SAMPLES:
        expected.judge_sample(mon, sample, size, 'prior sample')
    store = SpatialComponentSolutionStorage_InMemory()
    solution = SpatialComponent(ComponentStorage_InMemory(element, parameters), store, compute_uncertainties=True).component_solution()
    solution.update_time_step()
    day = timetable(rng, when, 1)[0]
    judge_values(rng, mon, solution, element, groups, day, None, None, None, 1, 'day without state')
    if len(expected.b) <= 200:
        expected.judge_rough(mon, solution.solution_prior_std(400), 'prior deviations by sampling', 400)
    mon.case(('nothing', kind, len(expected.b)), nontrivial=len(expected.b) > 1)


@with_folder
def files(rng, mon):
    """Space-time component through files, each step with new objects."""
    element, parameters, groups, when = choose(rng)
    days = history(rng, element, parameters, groups, when)
    expected = Posterior(element, parameters, whole(days))
    folder = mon.folder
    path = lambda name: os.path.join(folder, 'deep', name)
    definition = ComponentStorage_InMemory(element, parameters)
    names = [path('measurement_%d.pickle' % i) for i in range(len(days))]
    for name, steps in zip(names, days):
        index = steps[0][0].time_index()
        if rng.randint(2):
            store = SpaceTimeComponentSolutionStorage_Files(measurement_time_index_write=index, measurementfilename_write=name)
        else:
            store = SpaceTimeComponentSolutionStorageBatched_Files(measurementfilename_write=name)
        feed(mon, SpaceTimeComponent(definition, store).component_solution(), [shuffle(rng, steps)])
    batches = names
    if len(names) > 1 and rng.randint(2):
        batches = []
        for i, part in enumerate(numpy.array_split(rng.permutation(len(names)), int(rng.randint(1, len(names) + 1)))):
            some = [names[k] for k in part]
            merged = SpaceTimeComponent(definition, SpaceTimeComponentSolutionStorage_Files(measurementfilelist_read=some)).component_solution().merge_updates()
            batches.append(path('merged_%d.pickle' % i))
            SpaceTimeComponentSolutionStorageBatched_Files(measurementfilename_write=batches[-1]).measurement_write(merged, None)
            mon.count('merged batches')
    size = int(rng.choice([1, 4]))
    outputs = dict(statefilename_write=path('state'), marginal_std_filename_write=path('std'), sample_filename_write=path('sample'), prior_sample_filename_write=path('prior'))
    store = SpaceTimeComponentSolutionStorage_Files(measurementfilelist_read=batches, **outputs)
    SpaceTimeComponent(definition, store, compute_uncertainties=True, compute_sample=True, sample_size=size).component_solution().update()
    inputs = dict(statefilename_read=path('state'), marginal_std_filename_read=path('std'), sample_filename_read=path('sample'))
    if rng.randint(2):
        store = SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=bool(rng.randint(2)), **inputs)
    else:
        store = SpaceTimeComponentSolutionStorage_Files(**inputs)
    expected.judge_state(mon, store.state_read(), 'state from files')
    expected.judge_std(mon, store.state_marginal_std_read(), 'deviations from files')
    solution = SpaceTimeComponent(definition, store, sample_size=size).component_solution()
    for steps in days[:2]:
        judge_values(rng, mon, solution, element, groups, steps[0][0].when, store.state_read(), store.state_marginal_std_read(), store.state_sample_read(), size, 'space-time files')
    empty = SpaceTimeComponentSolutionStorage_Files(measurement_time_index_write=5, measurementfilename_write=path('never'))
    o = days[0][0]
    solution = SpaceTimeComponent(definition, empty).component_solution()
    solution.process_observations(*o)
    if o[0].time_index() != 5:
        mon.raises(solution.update_time_step, 'measurement of a different day', ValueError)
        mon.check(not os.path.exists(path('never')), 'no file written for a different day')
        mon.count('refused')
    mon.count('space-time solutions')
    mon.case(('files', len(days), len(batches), len(expected.b)), nontrivial=len(days) > 1)


def daily_storage(rng, mon, kind, indices, size):
    """A function giving new storage objects for a day (reading and writing the same files)."""
    folder = mon.folder
    if kind == 'memory':
        keep = SpatialComponentSolutionStorage_InMemory()
        return lambda index: keep
    if kind == 'files':
        def make(index):
            names = dict((k, os.path.join(folder, '%s_%d' % (k, index))) for k in ('state', 'std', 'sample', 'prior'))
            there = lambda k: names[k] if os.path.exists(names[k]) else None
            return SpatialComponentSolutionStorage_Files(index, there('state'), there('std'), there('sample'), there('prior'), names['state'], names['std'], names['sample'], names['prior'])
        return make
    if kind == 'patterns':
        patterns = dict((k, [folder, '%Y', k + '.%m.%d.pickle']) for k in ('state', 'marginal_std', 'sample', 'prior_sample', 'measurement'))
        arguments = dict((k + '_read_pattern', v) for k, v in patterns.items())
        arguments.update((k + '_write_pattern', v) for k, v in patterns.items())
        return lambda index: DelayedSpatialComponentSolutionStorageFlexible_Files(**arguments)
    table = dict((k, dict((i, os.path.join(folder, 'd', '%s_%d' % (k, i))) for i in indices)) for k in ('state', 'std', 'sample', 'prior', 'measurement'))
    there = lambda k: dict((i, n) for i, n in table[k].items() if os.path.exists(n))
    if kind == 'dictionary':
        return lambda index: DelayedSpatialComponentSolutionStorage_Files(there('state'), there('std'), there('sample'), there('prior'), there('measurement'), table['state'],
                                                                         table['std'], table['sample'], table['prior'], table['measurement'])
    order = [int(i) for i in rng.permutation(indices)]
    rows = lambda k: [table[k][i] for i in order]
    complete = lambda k: rows(k) if all(os.path.exists(n) for n in rows(k)) else None
    return lambda index: SpatialComponentSolutionStorageIndexed_Files(complete('state'), complete('std'), complete('sample'), complete('prior'), complete('measurement'), rows('state'), rows('std'),
                                                                     rows('sample'), rows('prior'), rows('measurement'), order)


@with_folder
def spatial(rng, mon):
    kind = ['memory', 'files', 'patterns', 'dictionary', 'indexed'][mon.index % 5]
    makers = [local, harmonics, grandmean]
    case = makers[rng.randint(3)](rng)
    element, parameters, groups = case.element, case.hyperparameters, case.groups
    days = history(rng, element, parameters, groups, None, bool(rng.randint(3)))
    indices = [steps[0][0].time_index() for steps in days]
    expected = [Posterior(element, parameters, steps) for steps in days]
    size = SAMPLES if len(expected[0].b) <= 60 and rng.randint(2) else int(rng.choice([1, 3]))
    method = 'EXACT' if rng.randint(3) else 'APPROXIMATED'
    prior_too = bool(rng.randint(2)) and kind != 'dictionary'
    make = daily_storage(rng, mon, kind, indices, size)
    definition = ComponentStorage_InMemory(element, parameters)
    build = lambda index: SpatialComponent(definition, make(index), compute_uncertainties=True, method=method, compute_sample=True, sample_size=size, compute_prior_sample=prior_too).component_solution()
    solution = None
    for i in rng.permutation(len(days)):
        if solution is None or kind != 'memory' or rng.randint(2):
            solution = build(indices[i])
        feed(mon, solution, [shuffle(rng, days[i])])
        if rng.randint(3) == 0:
            solution.update_time_step()
            mon.count('empty days')
        solution.update()
    if size == SAMPLES and len(indices) > 1:
        independent_days(mon, [make(i).partial_state_sample_read(i) for i in indices[:2]], 'samples of two days: ' + kind)
    for i, index in enumerate(indices):
        store = make(index)
        expected[i].judge_state(mon, store.partial_state_read(index), 'state of a day: ' + kind)
        if method == 'EXACT':
            expected[i].judge_std(mon, store.partial_state_marginal_std_read(index), 'deviations of a day: ' + kind)
        else:
            expected[i].judge_rough(mon, store.partial_state_marginal_std_read(index), 'approximate deviations of a day: ' + kind)
        sample = store.partial_state_sample_read(index)
        if size == SAMPLES:
            expected[i].judge_sample(mon, sample, size, 'sample of a day: ' + kind)
            if prior_too:
                prior = numpy.asarray(store.partial_state_prior_sample_read(index)).reshape(len(expected[i].b), size)
                Posterior(element, parameters, []).judge_sample(mon, prior, size, 'prior sample of a day: ' + kind)
                mon.count('prior samples')
        judge_values(rng, mon, build(index), element, groups, days[i][0][0].when, store.partial_state_read(index), store.partial_state_marginal_std_read(index), sample, size, 'day: ' + kind)
        mon.count('spatial solutions')
    if len(days) > 1:
        solution = build(indices[0])
        solution.process_observations(*days[0][0])
        mon.raises(lambda: solution.process_observations(*days[1][0]), 'observations of another day', ValueError)
        mon.count('refused')
        if kind == 'files':
            mon.raises(lambda: make(indices[0]).partial_state_read(indices[1]), 'state of another day', ValueError)
            mon.raises(lambda: make(indices[0]).partial_state_write(numpy.zeros(3), indices[1]), 'writing the state of another day', ValueError)
    mon.case(('spatial', kind, method, len(days), len(expected[0].b)), nontrivial=len(days) > 1)


@with_folder
def delayed(rng, mon):
    kind = ['memory', 'dictionary', 'indexed'][mon.index % 3]
    case = [local, harmonics, grandmean][rng.randint(3)](rng)
    element, parameters, groups = case.element, case.hyperparameters, case.groups
    days = history(rng, element, parameters, groups, None, bool(rng.randint(3)))
    indices = [steps[0][0].time_index() for steps in days]
    expected = [Posterior(element, parameters, steps) for steps in days]
    size = SAMPLES if len(expected[0].b) <= 60 and rng.randint(2) else int(rng.choice([1, 3]))
    method = 'EXACT' if rng.randint(3) else 'APPROXIMATED'
    make = daily_storage(rng, mon, kind, indices, size)
    build = lambda: DelayedSpatialComponent(ComponentStorage_InMemory(element, parameters), make(None), compute_uncertainties=True, method=method, compute_sample=True, sample_size=size).component_solution()
    for i in rng.permutation(len(days)):
        solution = build()
        feed(mon, solution, [shuffle(rng, days[i])])
    if rng.randint(2):
        solution.update_time_step()
        mon.count('empty days')
    for _ in range(int(rng.randint(1, 3))):
        build().update()
    store = make(None)
    if size == SAMPLES and len(indices) > 1:
        independent_days(mon, [store.partial_state_sample_read(i) for i in indices[:2]], 'delayed samples of two days: ' + kind)
    for i, index in enumerate(indices):
        expected[i].judge_state(mon, store.partial_state_read(index), 'delayed state: ' + kind)
        if method == 'EXACT':
            expected[i].judge_std(mon, store.partial_state_marginal_std_read(index), 'delayed deviations: ' + kind)
        else:
            expected[i].judge_rough(mon, store.partial_state_marginal_std_read(index), 'approximate delayed deviations: ' + kind)
        sample = store.partial_state_sample_read(index)
        if size == SAMPLES:
            expected[i].judge_sample(mon, sample, size, 'delayed sample: ' + kind)
        shape = len(expected[i].b)
        if shape > 1:
            judge_values(rng, mon, build(), element, groups, days[i][0][0].when, store.partial_state_read(index), store.partial_state_marginal_std_read(index), sample, size, 'delayed: ' + kind)
        mon.count('delayed solutions')
    keep = numpy.array(parameters.get_array(), float)
    solution = build()
    for values in (keep + rng.normal(0, 0.3, len(keep)), keep + rng.normal(0, 0.3, len(keep))):
        parameters.set_array(values)
        solution.update()
        for i in rng.choice(len(days), min(len(days), 2), replace=False):
            Posterior(element, parameters, days[i]).judge_state(mon, make(None).partial_state_read(indices[i]), 'delayed state with other hyperparameters: ' + kind)
    parameters.set_array(keep)
    if kind != 'indexed':
        absent = EPOCH + datetime.timedelta(days=max(indices) + 1)
        judge_values(rng, mon, build(), element, groups, absent, None, None, None, size, 'day without state: ' + kind)
    mon.case(('delayed', kind, method, len(days), len(expected[0].b)), nontrivial=len(days) > 1)


def nonlinear(rng, mon):
    """Repeated updates of a factor element, alone or in combination."""
    case = spacetime(rng, 'factor')
    element, parameters = case.element, case.hyperparameters
    if rng.randint(2):
        more = grandmean(rng)
        element, parameters = CombinationElement([case.element, more.element]), CombinationHyperparameters([case.hyperparameters, more.hyperparameters])
    definition = ComponentStorage_InMemory(element, parameters)
    days = history(rng, element, parameters, None, case.when)
    daily = bool(mon.index % 2)
    store = SpatialComponentSolutionStorage_InMemory() if daily else SpaceTimeComponentSolutionStorage_InMemory()
    component = (DelayedSpatialComponent if daily else SpaceTimeComponent)(definition, store, compute_uncertainties=True)
    start = numpy.asarray(element.element_design(days[0][0][0]).design_initial_state(), float)
    current = [start.copy() for _ in days]
    if not daily:
        o = days[0][0][0]
        value = component.component_solution().solution_observation_expected_value(o)
        mon.close(numpy.asarray(value).ravel(), numpy.asarray(element.element_design(o).design_function(start)).ravel(), 'nonlinear values before a solution', rtol=1e-12, atol=1e-12)
    for step in range(int(rng.randint(1, 4))):
        solution = component.component_solution()
        feed(mon, solution, [shuffle(rng, steps) for steps in days])
        solution.update()
        groups = [(k, steps, store.partial_state_read(steps[0][0].time_index()), store.partial_state_marginal_std_read(steps[0][0].time_index())) for k, steps in enumerate(days)] if daily \
            else [(0, whole(days), store.state_read(), store.state_marginal_std_read())]
        for k, steps, state, std in groups:
            expected = Posterior(element, parameters, steps, current[k])
            state = numpy.asarray(state)
            mon.equal(state.size, len(start), 'size of a nonlinear state')
            difference = state.ravel() - current[k]
            expected.judge_state(mon, difference, 'nonlinear step', 1e-14 * (numpy.abs(current[k]) + numpy.abs(state.ravel())))
            expected.judge_std(mon, std, 'nonlinear deviations')
            current[k] = state.ravel().copy()
            mon.count('nonlinear steps')
        o = days[0][0][0]
        value = component.component_solution().solution_observation_expected_value(o)
        mon.close(numpy.asarray(value).ravel(), numpy.asarray(element.element_design(o).design_function(current[0])).ravel(), 'nonlinear values', rtol=1e-9, atol=1e-9)
        if max(numpy.abs(c).max() for c in current) > 1e6:
            break
    mon.case(('nonlinear', daily, len(days), len(start)))


@with_folder
def storage(rng, mon):
    """What is written is read, for each kind of quantity and day, whatever else is written."""
    kind = ['memory', 'files', 'patterns', 'dictionary', 'indexed'][mon.index % 5]
    indices = [int(i) for i in rng.choice(60000, int(rng.choice([2, 3, 5, 12])), replace=False)]
    indices = sorted(set(indices + [0])) if rng.randint(2) else indices
    make = daily_storage(rng, mon, kind, indices, 1)
    store = dict((i, make(i)) for i in indices)
    wrote = {}
    quantities = ['state', 'state_marginal_std', 'state_sample'] + (['state_prior_sample'] if kind != 'dictionary' else [])
    everything = [(index, quantity) for index in indices for quantity in quantities] if kind == 'indexed' else []
    for step in range(80 + len(everything)):
        index, quantity = everything[step] if step < len(everything) else (indices[rng.randint(len(indices))], quantities[rng.randint(len(quantities))])
        value = rng.normal(0, 1, (int(rng.randint(1, 5)), int(rng.randint(1, 3))))
        getattr(store[index], 'partial_%s_write' % quantity)(value.copy(), index)
        wrote[quantity, index] = value
    for (quantity, index), value in wrote.items():
        if kind == 'indexed' and not all((quantity, i) in wrote for i in indices):
            continue
        mon.same(numpy.asarray(getattr(make(index), 'partial_%s_read' % quantity)(index)), value, '%s read from %s' % (quantity, kind))
        mon.count('stored and read')
        if kind in ('files', 'dictionary', 'indexed'):
            key = {'state': 'state', 'state_marginal_std': 'std', 'state_sample': 'sample', 'state_prior_sample': 'prior'}[quantity]
            with open(os.path.join(mon.folder, *([] if kind == 'files' else ['d']) + ['%s_%d' % (key, index)]), 'rb') as stream:
                mon.same(numpy.asarray(pickle.load(stream)), value, '%s in the file of its day (%s)' % (quantity, kind))
    for quantity in quantities:
        for index in indices:
            if (quantity, index) not in wrote and kind != 'indexed':
                mon.check(getattr(make(index), 'partial_%s_read' % quantity)(index) is None, lambda: '%s %s' % ('nothing where nothing was written', {'kind': kind, 'quantity': quantity}))
    if kind in ('dictionary', 'indexed', 'patterns'):
        some = MeasurementUpdate(scipy.sparse.eye(3, format='csr') * 2, rng.normal(0, 1, (3, 1)))
        for index in indices:
            make(index).measurement_write(some, index)
        for index in indices:
            back = make(index).measurement_read(index)
            mon.same(dense(back.information_precision), 2 * numpy.eye(3), 'measurement precision read back')
            mon.same(dense(back.information_vector), some.information_vector, 'measurement vector read back')
        if kind != 'patterns':
            mon.equal(sorted(make(None).timeindices_read()), sorted(indices), 'days stored')
    if kind in ('dictionary', 'indexed'):
        for quantity in quantities:
            mon.raises(lambda: getattr(make(None), 'partial_%s_write' % quantity)(numpy.zeros(2), 70000), 'writing a day without a file', ValueError)
            mon.count('refused')
        mon.raises(lambda: make(None).measurement_write(some, 70000), 'writing the measurement of a day without a file', ValueError)
        mon.raises(lambda: make(None).measurement_read(70000), 'reading the measurement of a day without a file', ValueError)
    if kind == 'indexed':
        mon.equal(make(None).number_of_substeps(), len(indices), 'number of days')
        for quantity in quantities:
            mon.raises(lambda: getattr(SpatialComponentSolutionStorageIndexed_Files(time_list=indices), 'partial_%s_write' % quantity)(numpy.zeros(2), indices[0]), 'writing without files', ValueError)
            mon.check(getattr(SpatialComponentSolutionStorageIndexed_Files(time_list=indices), 'partial_%s_read' % quantity)(indices[0]) is None, 'nothing without files')
    if kind == 'dictionary':
        empty = DelayedSpatialComponentSolutionStorage_Files(*([None] * 10))
        for quantity in quantities:
            mon.raises(lambda: getattr(empty, 'partial_%s_write' % quantity)(numpy.zeros(2), indices[0]), 'writing without files', ValueError)
            mon.check(getattr(empty, 'partial_%s_read' % quantity)(indices[0]) is None, 'nothing without files')
        mon.raises(lambda: DelayedSpatialComponentSolutionStorage_Files(7), 'a lookup which is a number', ValueError)
        mon.count('refused')
    if kind == 'files':
        for quantity in quantities:
            empty = SpatialComponentSolutionStorage_Files(indices[0])
            mon.raises(lambda: getattr(empty, 'partial_%s_write' % quantity)(numpy.zeros(2), indices[0]), 'writing without a file', ValueError)
            mon.check(getattr(empty, 'partial_%s_read' % quantity)(indices[0]) is None, 'nothing without a file')
            if (quantity, indices[0]) in wrote:
                mon.raises(lambda: getattr(make(indices[0]), 'partial_%s_read' % quantity)(indices[1]), 'reading another day', ValueError)
            mon.raises(lambda: getattr(make(indices[0]), 'partial_%s_write' % quantity)(numpy.zeros(2), indices[1]), 'writing another day', ValueError)
            mon.count('refused')
        for (quantity, index), value in wrote.items():
            mon.same(numpy.asarray(getattr(make(index), 'partial_%s_read' % quantity)(index)), value, '%s after refusals' % quantity)
    if kind in ('dictionary', 'indexed'):
        by_position(rng, mon, kind)
    mon.case(('storage', kind, len(wrote)))


def by_position(rng, mon, kind):
    """Files given as lists without days are those of days 0, 1, 2..."""
    n = int(rng.choice([3, 11]))
    table = dict((k, [os.path.join(mon.folder, 'p', '%s_%d' % (k, i)) for i in rng.permutation(n)]) for k in ('state', 'std', 'sample', 'prior', 'measurement'))
    lists = [table[k] for k in ('state', 'std', 'sample', 'prior', 'measurement')]
    maker = DelayedSpatialComponentSolutionStorage_Files if kind == 'dictionary' else SpatialComponentSolutionStorageIndexed_Files
    quantities = [('state', 'state'), ('state_marginal_std', 'std'), ('state_sample', 'sample')] + ([('state_prior_sample', 'prior')] if kind == 'indexed' else [])
    for quantity, key in quantities:
        values = rng.normal(0, 1, (n, 4))
        for i in rng.permutation(n):
            getattr(maker(*([None] * 5 + lists)), 'partial_%s_write' % quantity)(values[i].copy(), int(i))
        store = maker(*lists)
        for i in rng.permutation(n):
            mon.same(numpy.asarray(getattr(store, 'partial_%s_read' % quantity)(int(i))), values[i], '%s of position %d' % (quantity, i))
            with open(table[key][i], 'rb') as stream:
                mon.same(numpy.asarray(pickle.load(stream)), values[i], 'file of position %d' % i)
            mon.count('stored and read')
    if kind == 'indexed':
        for some in ([lists[0]], [None] * 5 + [lists[0]], [None] * 4 + [lists[4]], [None] * 9 + [lists[4]]):
            mon.equal(maker(*some).number_of_substeps(), n, 'number of days by position')
        mon.equal(maker().number_of_substeps(), 0, 'number of days without files')


@with_folder
def whole_storage(rng, mon):
    """Storage of space-time solutions: one file for each quantity, written and read in any order."""
    kind = ['files', 'batched', 'kept', 'memory'][mon.index % 4]
    quantities = [('state', 'statefilename'), ('state_marginal_std', 'marginal_std_filename'), ('state_sample', 'sample_filename'), ('state_prior_sample', 'prior_sample_filename')]
    apart = kind != 'memory' and bool(rng.randint(2))
    read = dict((q, os.path.join(mon.folder, 'a', 'b', q + '_read' * apart)) for q, _ in quantities)
    write = dict((q, os.path.join(mon.folder, 'a', 'b', q)) for q, _ in quantities)
    arguments = dict((name + '_read', read[q]) for q, name in quantities)
    arguments.update((name + '_write', write[q]) for q, name in quantities)
    maker = {'files': SpaceTimeComponentSolutionStorage_Files, 'batched': SpaceTimeComponentSolutionStorageBatched_Files,
             'kept': lambda **k: SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=True, **k), 'memory': lambda **k: SpaceTimeComponentSolutionStorage_InMemory()}[kind]
    store = maker(**arguments)
    held = {}
    for q, _ in quantities:
        if apart:
            held[q] = rng.normal(0, 1, (4, 1))
            os.makedirs(os.path.dirname(read[q]), exist_ok=True)
            with open(read[q], 'wb') as stream:
                pickle.dump(held[q], stream, 2)
    for step in range(24):
        q = quantities[rng.randint(4)][0]
        if rng.randint(2):
            value = rng.normal(0, 1, (int(rng.randint(1, 5)), int(rng.randint(1, 3))))
            getattr(store, q + '_write')(value.copy())
            if kind != 'memory':
                with open(write[q], 'rb') as stream:
                    mon.same(numpy.asarray(pickle.load(stream)), value, q + ' in its file')
            if not apart:
                held[q] = value
            elif kind == 'kept':
                held[q] = None      # either the file read or the value kept in memory
        elif kind == 'memory' and q not in held:
            mon.check(getattr(store, q + '_read')() is None, 'nothing before it is written')
        elif q in held and held[q] is not None:
            mon.same(numpy.asarray(getattr(store, q + '_read')()), held[q], '%s read (%s)' % (q, kind))
            mon.count('stored and read')
        if kind != 'kept' and kind != 'memory' and rng.randint(4) == 0:
            store = maker(**arguments)
    if kind == 'memory':
        return mon.case(('whole storage', kind))
    empty = maker()
    for q, _ in quantities:
        mon.check(getattr(empty, q + '_read')() is None, 'nothing without a file')
        mon.raises(lambda: getattr(empty, q + '_write')(numpy.zeros(3)), 'writing without a file', ValueError)
        mon.count('refused')
    some = MeasurementUpdate(scipy.sparse.eye(3, format='csr') * 2, rng.normal(0, 1, (3, 1)))
    mon.raises(lambda: empty.measurement_write(some, 0), 'writing a measurement without a file', ValueError)
    mon.raises(lambda: empty.measurement_read(0), 'reading a measurement without files', ValueError)
    if kind == 'files':
        n = int(rng.choice([1, 3, 11]))
        names = [os.path.join(mon.folder, 'm', 'measurement_%d' % i) for i in rng.permutation(n)]
        vectors = rng.normal(0, 1, (n, 3, 1))
        for i in range(n):
            day = int(rng.randint(0, 60000))
            writer = maker(measurement_time_index_write=day, measurementfilename_write=names[i])
            mon.raises(lambda: writer.measurement_write(some, day + 1), 'measurement of another day', ValueError)
            writer.measurement_write(MeasurementUpdate(scipy.sparse.eye(3, format='csr') * (i + 1), vectors[i]), day)
        reader = maker(measurementfilelist_read=names)
        mon.equal(list(reader.timeindices_read()), list(range(n)), 'indices of measurements')
        for i in rng.permutation(n):
            back = reader.measurement_read(int(i))
            mon.same(dense(back.information_precision), (i + 1) * numpy.eye(3), 'precision of a measurement')
            mon.same(dense(back.information_vector), vectors[i], 'vector of a measurement')
        for i in (-1, n, n + 5, -n):
            mon.raises(lambda: reader.measurement_read(i), 'measurement %d of %d' % (i, n), ValueError)
            mon.count('refused')
    mon.case(('whole storage', kind, apart))


def system(rng, mon):
    """Linear systems directly."""
    element, parameters, groups, when = choose(rng)
    steps = whole(history(rng, element, parameters, groups, when, False))
    prior = element.element_prior(parameters)
    expected = Posterior(element, parameters, steps)
    linear = LinearSystem(prior)
    pending = MeasurementUpdate.create_blank(len(expected.b))
    for o, offset in steps:
        update = MeasurementUpdate.create_from_system_observations(element.element_design(o).design_jacobian(None), o.precision, o.values - offset)
        keep = dense(update.information_precision).copy(), dense(update.information_vector).copy()
        if rng.randint(2):
            linear.append_measurement_update(update)
        else:
            pending.append_measurement_update(update)
        mon.same(dense(update.information_precision), keep[0], 'update appended is unchanged')
        mon.same(dense(update.information_vector), keep[1], 'vector appended is unchanged')
    linear.append_measurement_update(pending)
    solution = LinearSystemSolution_Cholesky(linear)
    mon.equal(solution.number_of_state_parameters, len(expected.b), 'number of parameters')
    expected.judge_state(mon, solution.maximum_a_posteriori(), 'direct solution')
    expected.judge_std(mon, solution.marginal_std(), 'direct deviations')
    variate = rng.normal(0, 1, (len(expected.b), 3))
    x = solution.white_noise_to_posterior_distribution(variate.copy())
    mon.close(x.T.dot(expected.A).dot(x), variate.T.dot(variate), 'white noise transformed', rtol=1e-6, atol=1e-7 * len(expected.b))
    mon.count('linear systems')
    mon.case(('system', len(steps), len(expected.b)), nontrivial=len(steps) > 1)


SCENARIOS = [(in_memory, 80, 1500), (nothing, 60, 800), (files, 60, 1000), (spatial, 60, 1000), (delayed, 48, 800), (nonlinear, 48, 800), (storage, 40, 400), (whole_storage, 40, 400), (system, 50, 800)]
