"""Model elements: designs, derivatives, priors and their combinations."""

import copy
import datetime
import json
import os

import netCDF4
import numpy
import scipy.linalg
import scipy.sparse

from fields import dense, derivative, elements, judge, slope
from models import Case, LINEAR, harmonics, spacetime, structure, year
from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters, LoadCovariateElement
from eustace.analysis.advanced_standard.elements.geography_based import GeographyBasedElement
from eustace.analysis.advanced_standard.elements.latitudeharmonics import LatitudeHarmonicsElement
from eustace.analysis.advanced_standard.elements.seasonal import datetime_to_decimal_year

NEEDS = {'extension': True}
RULE = """Every model element is built with random sizes and hyperparameters and given random observation structures (any place including poles
and date line, any day and hour, covariate effects). The monitor computes each row of the design and each block of the prior from the
defining formula, applies designs to random states, compares Jacobians and prior derivatives with differences, and repeats the design for
subsets and permutations of the observations, which must give the same rows. Random nested combinations are compared with their members.
Non-trivial: more than one hyperparameter, member or harmonic."""
REQUIRED = {'designs': 90, 'rows': 1200, 'subset rows': 600, 'priors': 200, 'derivatives': 500, 'combinations': 40, 'nonlinear': 25, 'interpolations': 1000,
            'descriptors': 15, 'decimal years': 500, 'refused grids': 15}
ASSUMPTIONS = ['Covariate grids are equally spaced by a multiple of 0.01 degrees and cover all longitudes', 'Decimal years are compared to 1e-9']

def check_prior(rng, mon, case, probes=6):
    theta = numpy.array(case.hyperparameters.get_array(), float)
    prior = case.element.element_prior(case.hyperparameters)
    expected = case.prior(theta)
    mon.equal(prior.prior_number_of_state_parameters(), len(expected), 'number of parameters of the prior of ' + case.name)
    judge(mon, prior.prior_precision(), expected, 'prior of ' + case.name)
    choice = range(len(theta)) if len(theta) <= probes else rng.choice(len(theta), probes, replace=False)

    def at(values):
        keep = numpy.array(case.hyperparameters.get_array(), float)
        case.hyperparameters.set_array(numpy.array(values, float))
        try:
            return dense(case.element.element_prior(case.hyperparameters).prior_precision())
        finally:
            case.hyperparameters.set_array(keep)
    for k in choice:
        derivative(mon, prior.prior_precision_derivative(int(k)), at, theta, int(k), 'derivative %d of the prior of %s' % (k, case.name))
    fresh = rng.normal(0, 0.5, len(theta))
    case.hyperparameters.set_array(fresh.copy())
    mon.same(numpy.asarray(case.hyperparameters.get_array()), fresh, 'hyperparameters set and read back')
    judge(mon, case.element.element_prior(case.hyperparameters).prior_precision(), case.prior(fresh), 'prior with new hyperparameters of ' + case.name)
    case.hyperparameters.set_array(theta)
    # The same element with other hyperparameters, as those of another component or replicate
    other = copy.deepcopy(case.hyperparameters)
    other.set_array(fresh.copy())
    judge(mon, case.element.element_prior(other).prior_precision(), case.prior(fresh), 'prior with other hyperparameters of ' + case.name)
    judge(mon, case.element.element_prior(case.hyperparameters).prior_precision(), expected, 'prior again of ' + case.name)
    mon.same(numpy.asarray(case.hyperparameters.get_array(), float), theta, 'hyperparameters are left as they were')
    mon.count('priors')


def linear(rng, mon):
    case = LINEAR[mon.index % len(LINEAR)](rng)
    o = structure(rng, case.when(rng) if case.when else None, case.groups)
    expected, clear = case.design(o)
    mon.equal(case.element.isnonlinear(), False, 'linear element')
    design = case.element.element_design(o)
    mon.equal(design.isnonlinear(), False, 'linear design')
    matrix = dense(design.design_matrix())
    mon.equal((matrix.shape, design.design_number_of_state_parameters()), (expected.shape, expected.shape[1]), 'size of the design of ' + case.name)
    mon.close(matrix[clear], expected[clear], 'design of ' + case.name, rtol=1e-7, atol=1e-8)
    mon.close(dense(design.design_jacobian(None if rng.randint(2) else numpy.zeros(matrix.shape[1]))), matrix, 'Jacobian of ' + case.name, rtol=0, atol=0)
    shape = (matrix.shape[1], 3) if rng.randint(2) else (matrix.shape[1],)
    state = rng.normal(0, 10, shape)
    mon.close(design.design_function(state), matrix.dot(state), 'function of ' + case.name, rtol=1e-10, atol=1e-10)
    mon.close(design.design_function(state, rectified=True), numpy.abs(matrix).dot(state), 'rectified function of ' + case.name, rtol=1e-10, atol=1e-10)
    start = design.design_initial_state()
    mon.check(start is None or not numpy.any(start), 'initial state of a linear design')
    rows = rng.permutation(len(o.places))[:max(1, int(rng.randint(1, len(o.places) + 1)))]
    again = dense(case.element.element_design(o.part(rows)).design_matrix())
    mon.close(again, matrix[rows], 'design of some observations of ' + case.name, rtol=0, atol=1e-12)
    # Other days and places with the same element, and the first again
    for i in range(4):
        later = structure(rng, case.when(rng) if case.when else None, case.groups)
        if i == 1 and case.when is None:
            # the same day and hour of another year
            later.when = o.when.replace(year=o.when.year + int(rng.choice([1, 2, 4, 100])), day=min(o.when.day, 28))
        elif i > 1:
            # another hour of the day, and a day in the same place of a year of another length
            later.when = o.when.replace(hour=(o.when.hour + 7) % 24)
            if i > 2 and case.when is None:
                later.when = datetime.datetime(o.when.year + 1, 1, 1) + (o.when - datetime.datetime(o.when.year, 1, 1))
        rows_later, clear_later = case.design(later)
        mon.close(dense(case.element.element_design(later).design_matrix())[clear_later], rows_later[clear_later], 'design of another day of ' + case.name, rtol=1e-7, atol=1e-8)
    mon.same(dense(case.element.element_design(o).design_matrix()), matrix, 'design again of ' + case.name)
    mon.same(dense(design.design_matrix()), matrix, 'design kept of ' + case.name)
    check_prior(rng, mon, case)
    mon.count('designs')
    mon.count('rows', len(o.places))
    mon.count('subset rows', len(rows))
    mon.case((case.name, len(o.places), matrix.shape[1]), nontrivial=matrix.shape[1] > 1)


def nonlinear(rng, mon):
    case = spacetime(rng, 'factor')
    o = structure(rng, case.when(rng))
    (space, time), clear = case.design(o)
    design = case.element.element_design(o)
    mon.equal((case.element.isnonlinear(), design.isnonlinear()), (True, True), 'nonlinear')
    n = space.shape[1] + time.shape[1]
    mon.equal(design.design_number_of_state_parameters(), n, 'number of parameters')
    start = design.design_initial_state()
    mon.equal(start.shape, (n,), 'initial state')
    state = rng.normal(0, 2, n)
    value = space.dot(state[:space.shape[1]]) * time.dot(state[space.shape[1]:])
    mon.close(design.design_function(state), value, 'function of the factor element', rtol=1e-9, atol=1e-9)
    mon.close(design.design_function(state, rectified=True), numpy.abs(space).dot(state[:space.shape[1]]) * numpy.abs(time).dot(state[space.shape[1]:]),
              'rectified function', rtol=1e-9, atol=1e-9)
    jacobian = dense(design.design_jacobian(state))
    for k in rng.choice(n, min(n, 12), replace=False):
        mon.close(jacobian[:, k], slope(design.design_function, state, k, 1e-3), 'Jacobian of the factor element', rtol=1e-7, atol=1e-8)
    rows = rng.permutation(len(o.places))[:int(rng.randint(1, len(o.places) + 1))]
    part = case.element.element_design(o.part(rows))
    mon.close(dense(part.design_jacobian(state)), jacobian[rows], 'Jacobian of some observations', rtol=0, atol=1e-10)
    later = structure(rng, case.when(rng))
    (space, time), clear = case.design(later)
    value = space.dot(state[:space.shape[1]]) * time.dot(state[space.shape[1]:])
    mon.close(case.element.element_design(later).design_function(state)[clear], value[clear], 'function of the factor element on another day', rtol=1e-9, atol=1e-9)
    mon.same(dense(design.design_jacobian(state)), jacobian, 'Jacobian kept')
    check_prior(rng, mon, case)
    mon.count('nonlinear')
    mon.case(('factor', n, len(o.places)))


def combination(rng, mon):
    curved = mon.index % 3 == 0
    makers = [LINEAR[i] for i in rng.choice([0, 1, 3, 4, 5, 6, 8, 8], int(rng.randint(1, 4)), replace=bool(rng.randint(2)))]
    cases = [m(rng) for m in makers]
    if len({g for c in cases for g in c.groups or {}}) < sum(len(c.groups or {}) for c in cases):
        cases = cases[:1]    # two of one group
    when = None
    for c in cases:
        if c.when:
            when = c.when(rng)
    if curved:
        extra = spacetime(rng, 'factor')
        cases.insert(int(rng.randint(len(cases) + 1)), extra)
        when = extra.when(rng)
    groups = {}
    for c in cases:
        groups.update(c.groups or {})
    # Members may themselves be combinations
    if len(cases) > 2 and rng.randint(2):
        tree = [(CombinationElement([c.element for c in cases[:2]]), CombinationHyperparameters([c.hyperparameters for c in cases[:2]]))]
        tree += [(c.element, c.hyperparameters) for c in cases[2:]]
    else:
        tree = [(c.element, c.hyperparameters) for c in cases]
    element, parameters = CombinationElement([t[0] for t in tree]), CombinationHyperparameters([t[1] for t in tree])
    o = structure(rng, when, groups)
    design = element.element_design(o)
    members = [c.element.element_design(o) for c in cases]
    sizes = [m.design_number_of_state_parameters() for m in members]
    n = sum(sizes)
    ends = numpy.cumsum([0] + sizes)
    mon.equal(design.design_number_of_state_parameters(), n, 'number of parameters')
    mon.equal((element.isnonlinear(), design.isnonlinear()), (curved, curved), 'nonlinear if a member is')
    state = rng.normal(0, 3, n)
    values, blocks = [], []
    for i, c in enumerate(cases):
        mine = state[ends[i]:ends[i + 1]]
        if c.name == 'factor':
            values.append(members[i].design_function(mine))
            blocks.append(dense(members[i].design_jacobian(mine)))
        else:
            block = dense(members[i].design_matrix())
            values.append(block.dot(mine))
            blocks.append(block)
    mon.close(design.design_function(state), numpy.sum(values, axis=0), 'sum of members', rtol=1e-9, atol=1e-9)
    if not curved:
        positive = numpy.sum([numpy.abs(b).dot(state[ends[i]:ends[i + 1]]) for i, b in enumerate(blocks)], axis=0)
        mon.close(design.design_function(state, rectified=True), positive, 'rectified sum of members', rtol=1e-9, atol=1e-9)
        mon.close(dense(design.design_jacobian(None)), numpy.hstack(blocks), 'members side by side', rtol=0, atol=1e-12)
        if len(tree) == len(cases):
            mon.close(dense(design.design_matrix()), numpy.hstack(blocks), 'design matrices side by side', rtol=0, atol=1e-12)
        mon.check(design.design_initial_state() is None, 'no initial state')
        several = rng.normal(0, 3, (n, 2))
        mon.close(design.design_function(several), numpy.hstack(blocks).dot(several), 'several states', rtol=1e-9, atol=1e-9)
    else:
        start = design.design_initial_state()
        expected = [m.design_initial_state() if c.name == 'factor' else numpy.zeros(s) for m, c, s in zip(members, cases, sizes)]
        mon.same(start, numpy.hstack(expected), 'initial state')
        design.design_function(state, rectified=True)
    mon.close(dense(design.design_jacobian(state)), numpy.hstack(blocks), 'Jacobian', rtol=0, atol=1e-12)
    if len(tree) == len(cases):
        for i, part in enumerate(design.element_states(state)):
            mon.same(part, state[ends[i]:ends[i + 1]], 'states of the members')
        for i, part in enumerate(element.element_prior(parameters).element_states(state)):
            mon.same(part, state[ends[i]:ends[i + 1]], 'states of the members by the prior')
        counts = numpy.cumsum([0] + [len(c.hyperparameters.get_array()) for c in cases])
        for i, r in enumerate(parameters.get_element_ranges()):
            mon.equal(list(r), list(range(counts[i], counts[i + 1])), 'ranges of hyperparameters')
    theta = numpy.hstack([c.hyperparameters.get_array() for c in cases])
    mon.same(numpy.asarray(parameters.get_array()), theta, 'hyperparameters in order')
    limits = numpy.cumsum([0] + [len(c.hyperparameters.get_array()) for c in cases])

    def prior(t):
        return scipy.linalg.block_diag(*[c.prior(t[limits[i]:limits[i + 1]]) for i, c in enumerate(cases)])
    check_prior(rng, mon, Case('combination', element, parameters, None, prior), probes=5)
    mon.same(numpy.hstack([c.hyperparameters.get_array() for c in cases]), theta, 'hyperparameters of the members restored')
    mon.raises(lambda: parameters.set_array(numpy.zeros(len(theta) + 1)), 'too many hyperparameters')
    mon.count('combinations')
    mon.case(('combination', tuple(c.name for c in cases), len(tree)))


def bilinear(values, lats, lons, spacing, lat, lon):
    """Value between the nodes around a place; beyond the first and last parallel towards their mean; around in longitude."""
    def node(i, j):
        if i < 0 or i >= len(lats):
            row = values[0 if i < 0 else -1]
            # the mean of the row as extended by one node on each side
            return (row.sum() + row[0] + row[-1]) / (len(row) + 2)
        return values[i, j % len(lons)]
    u, v = (lat - lats[0]) / spacing, (lon - lons[0]) / spacing
    i, j = int(numpy.floor(u)), int(numpy.floor(v))
    a, b = u - i, v - j
    return (1 - a) * (1 - b) * node(i, j) + (1 - a) * b * node(i, j + 1) + a * (1 - b) * node(i + 1, j) + a * b * node(i + 1, j + 1)


def geography(rng, mon):
    spacing = float(rng.choice([5.0, 10.0, 2.5, 7.5, 22.5, 3.75, 1.25])) if mon.index % 25 else float(rng.choice([0.25, 0.5]))
    lats = numpy.arange(-90 + spacing / 2, 90, spacing)
    lons = numpy.arange(-180 + spacing / 2, 180, spacing)
    if (len(lats), len(lons)) != (int(180 / spacing), int(360 / spacing)):
        lats = -90 + spacing * (numpy.arange(int(180 / spacing)) + 0.5)
        lons = -180 + spacing * (numpy.arange(int(360 / spacing)) + 0.5)
    values = rng.normal(0, 1000, (len(lats), len(lons)))
    factor = float(rng.choice([1.0, 0.001, -2.5, 0.0]))
    down = bool(rng.randint(2))
    grid_lat, grid_lon = numpy.meshgrid(lats, lons, indexing='ij')
    order = slice(None, None, -1) if down else slice(None)
    o = structure(rng)
    with mon.scratch() as folder:
        path = os.path.join(folder, 'covariate.nc')
        dataset = netCDF4.Dataset(path, 'w')
        dataset.createDimension('y', len(lats))
        dataset.createDimension('x', len(lons))
        for name, table in [('la', grid_lat), ('lo', grid_lon), ('height', values)]:
            dataset.createVariable(name, 'f8', ('y', 'x'))[:] = table[order]
        dataset.close()
        element = GeographyBasedElement(path, 'la', 'lo', 'height', factor)
        element.load()
    o.places[:, 0] = numpy.clip(o.places[:, 0], -90, 90)
    exact = rng.uniform(size=len(o.places)) < 0.3
    o.places[exact] = numpy.vstack([rng.choice(lats, int(exact.sum())), rng.choice(lons, int(exact.sum()))]).T
    design = element.element_design(o)
    matrix = dense(design.design_matrix())
    expected = numpy.array([factor * bilinear(values, lats, lons, spacing, lat, lon) for lat, lon in o.places]).reshape(-1, 1)
    mon.close(matrix, expected, 'covariate interpolated, %s' % ('from north to south' if down else 'from south to north'), rtol=1e-7, atol=1e-6)
    mon.equal((element.isnonlinear(), design.design_number_of_state_parameters()), (False, 1), 'one parameter')
    state = rng.normal(0, 1, 1)
    mon.close(design.design_function(state), matrix.dot(state), 'function', rtol=1e-12, atol=1e-12)
    rows = rng.permutation(len(o.places))[:int(rng.randint(1, len(o.places) + 1))]
    mon.close(dense(element.element_design(o.part(rows)).design_matrix()), matrix[rows], 'design of some observations', rtol=0, atol=1e-9)
    if mon.index % 4 == 0 and spacing > 1:
        wide = GeographyBasedElement('', '', '', '', factor)
        stretch = float(rng.choice([1.05, 1.5, 0.9]))
        wide.latitude, wide.longitude, wide.covariate = grid_lat * stretch, grid_lon, values
        mon.raises(lambda: wide.element_design(o).design_matrix(), 'grids spaced differently in latitude and longitude are refused', ValueError)
        mon.count('refused grids')
    check_prior(rng, mon, Case('covariate', element, CovariateHyperparameters(float(rng.normal(0, 1))), None, lambda t: numpy.exp(-2 * t[0]) * numpy.eye(1)))
    mon.count('interpolations', len(o.places))
    mon.case(('geography', spacing, down, factor))


def descriptor(rng, mon):
    with mon.scratch() as folder:
        path = os.path.join(folder, 'height.nc')
        dataset = netCDF4.Dataset(path, 'w')
        dataset.createDimension('y', 4)
        dataset.createDimension('x', 8)
        lat, lon = numpy.meshgrid([-67.5, -22.5, 22.5, 67.5], -157.5 + 45 * numpy.arange(8), indexing='ij')
        for name, table in [('la', lat), ('lo', lon), ('h', lat + lon)]:
            dataset.createVariable(name, 'f8', ('y', 'x'))[:] = table
        dataset.close()
        values = {key: [float(v) for v in rng.uniform(0.1, 5, n)] for key, n in [('latitude_harmonics', 4), ('altitude', 1), ('coastal_influence', 1)]}
        base = 'eustace.analysis.advanced_standard.elements.'
        table = {}
        names = list(rng.permutation(sorted(values))[:int(rng.randint(1, 4))])
        for key in names:
            table[key] = {'hyperparameters': dict(('hyperparameter_%d' % (i + 1), v) for i, v in enumerate(values[key]))}
            if key == 'latitude_harmonics':
                table[key]['element'] = {'python_class': base + 'latitudeharmonics.LatitudeHarmonicsElement'}
            else:
                table[key]['element'] = {'python_class': base + 'geography_based.GeographyBasedElement',
                                         'parameters': {'filename': path, 'latitude_label': 'la', 'longitude_label': 'lo', 'covariate_label': 'h', 'rescale_factor': 0.5}}
        text = os.path.join(folder, 'covariates.json')
        json.dump(table, open(text, 'w'))
        loader = LoadCovariateElement(text)
        loader.check_keys()
        made, parameters = loader.load_covariates_and_hyperparameters()
        mon.equal((len(made), len(parameters)), (len(names), len(names)), 'covariates of the descriptor')
        kinds = sorted(type(e).__name__ for e in made)
        mon.equal(kinds, sorted('LatitudeHarmonicsElement' if k == 'latitude_harmonics' else 'GeographyBasedElement' for k in names), 'elements of the descriptor')
        left = dict((k, list(v)) for k, v in values.items())
        for e, p in zip(made, parameters):
            given = sorted(numpy.exp(p.get_array()))
            if type(e).__name__ == 'LatitudeHarmonicsElement':
                mon.close(given, sorted(values['latitude_harmonics']), 'hyperparameters of the harmonics', rtol=1e-12)
            else:
                key = [k for k in names if k != 'latitude_harmonics' and k in left and abs(left[k][0] - given[0]) < 1e-9]
                mon.check(len(key) == 1, 'hyperparameters of a covariate')
                left.pop(key[0])
                mon.close(e.covariate, lat + lon, 'field loaded')
            prior = e.element_prior(p)
            mon.equal(prior.prior_precision().shape[0], e.element_design(structure(rng)).design_number_of_state_parameters(), 'prior fits the design')
        table['wind'] = table[names[0]]
        json.dump(table, open(text, 'w'))
        mon.raises(LoadCovariateElement(text).check_keys, 'unknown covariate', ValueError)
    mon.count('descriptors')
    mon.case(('descriptor', tuple(names)))


def years(rng, mon):
    for i in range(40):
        when = datetime.datetime(int(rng.randint(1800, 2100)), 1, 1) + datetime.timedelta(days=int(rng.randint(0, 366)), seconds=int(rng.choice([0, 1, 86399, 43200])))
        if rng.randint(4) == 0:
            when = datetime.datetime(int(rng.choice([1899, 1900, 1999, 2000, 2016, 2017])), *[(1, 1), (12, 31), (2, 28), (3, 1)][rng.randint(4)])
        value = datetime_to_decimal_year(when)
        mon.close(value, float(year(when)), 'decimal year of %s' % when, rtol=0, atol=1e-9)
        later = datetime_to_decimal_year(when + datetime.timedelta(seconds=1))
        mon.check(later > value, 'decimal years increase')
    mon.count('decimal years', 40)
    mon.case(('years',))


SCENARIOS = [(linear, 189, 2500), (nonlinear, 40, 400), (combination, 72, 700), (geography, 200, 2000), (descriptor, 24, 150), (years, 24, 200)]
