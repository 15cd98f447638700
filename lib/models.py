"""Model elements of random size with their designs and priors computed from the definitions."""

import datetime
import fractions

import numpy
import scipy.linalg

from fields import elements, line_precision, line_weights, native, order_matrix, sphere_precision, sphere_weights
from eustace.analysis.advanced_standard.elements.bias import BiasElement
from eustace.analysis.advanced_standard.elements.combination import CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
from eustace.analysis.advanced_standard.elements.element import ObservationStructure
from eustace.analysis.advanced_standard.elements.factor import SpaceTimeFactorElement
from eustace.analysis.advanced_standard.elements.grandmean import GrandMeanElement
from eustace.analysis.advanced_standard.elements.kronecker import SpaceTimeKroneckerElement
from eustace.analysis.advanced_standard.elements.kronecker_annual import AnnualKroneckerElement
from eustace.analysis.advanced_standard.elements.latitudeharmonics import LatitudeHarmonicsElement
from eustace.analysis.advanced_standard.elements.latitudespline import LatitudeSplineElement
from eustace.analysis.advanced_standard.elements.local import LocalElement, LocalHyperparameters
from eustace.analysis.advanced_standard.elements.local_view import ExpandedLocalHyperparameters, LocalSubRegion, LocalSuperTriangle, NonStationaryLocal
from eustace.analysis.advanced_standard.elements.seasonal import SeasonalElement, SeasonalHyperparameters
from eustace.analysis.advanced_standard.elements.spacetimespde import SpaceTimeSPDEHyperparameters
from eustace.analysis.advanced_standard.elements.spatial_bias import SpatialBiasElement

EPOCH = datetime.datetime(1850, 1, 1)


class Structure(ObservationStructure):
    def __init__(self, when, places, effects=None):
        self.when, self.places, self.effects = when, places, effects or {}

    def time_index(self):
        return (self.when - EPOCH).days

    def time_datetime(self):
        return self.when

    def number_of_observations(self):
        return len(self.places)

    def location_polar_coordinates(self):
        return self.places

    def covariate_effect(self, groupname, **kwargs):
        return self.effects.get(groupname)

    def part(self, rows):
        effects = {}
        for group, table in self.effects.items():
            if table is None:
                effects[group] = None
            else:
                effects[group] = numpy.array([(new, bias) for new, old in enumerate(rows) for row, bias in table if row == old], numpy.int64).reshape(-1, 2)
        return Structure(self.when, self.places[rows], effects)


def structure(rng, when=None, groups=None):
    n = int(rng.choice([1, 2, 5, 20, 20, 40, 40, 110]))
    places = numpy.vstack([numpy.degrees(numpy.arcsin(rng.uniform(-1, 1, n))), rng.uniform(-180, 180, n)]).T
    special = numpy.array([[90.0, 0.0], [-90.0, 0.0], [0.0, 180.0], [0.0, -180.0], [12.5, -180.0], [0.0, 0.0], [89.999, 179.999], [-45.0, 90.0]])
    swap = rng.uniform(size=n) < 0.15
    places[swap] = special[rng.randint(len(special), size=int(swap.sum()))]
    if when is None:
        when = EPOCH + datetime.timedelta(days=int(rng.randint(0, 62000)))
        when += datetime.timedelta(seconds=int(rng.choice([0, 43200, rng.randint(86400)])))
    effects = {}
    for group, size in (groups or {}).items():
        choice = rng.randint(4)
        if choice == 0:
            effects[group] = None
        else:
            rows = numpy.where(rng.uniform(size=n) < 0.6)[0]
            effects[group] = numpy.vstack([rows, rng.randint(0, size, len(rows))]).T.astype(numpy.int64)
            if choice == 1 and len(rows):
                # observations under two biases, and an effect given twice
                more = rng.choice(rows, 2)
                effects[group] = numpy.vstack([effects[group], numpy.vstack([more, rng.randint(0, size, 2)]).T, effects[group][:1]]).astype(numpy.int64)
                effects[group] = effects[group][rng.permutation(len(effects[group]))]
    return Structure(when, places, effects)


MESH = {}


def mesh(spde):
    """Vertices, triangles and element matrices of a sphere model or view."""
    rows = getattr(spde, 'active_triangle_indices', None)
    key = (int(spde.triangulation.level), None if rows is None else tuple(numpy.asarray(rows).astype(int)))
    if key not in MESH:
        triangles = spde.triangulation.triangles[:, 1:].astype(int)
        points = spde.triangulation.points
        active = triangles if rows is None else triangles[numpy.asarray(rows).astype(int)]
        vertices = numpy.unique(active)
        mass, stiff = elements(points, active)
        MESH[key] = points, triangles, active, vertices, mass[vertices], stiff[numpy.ix_(vertices, vertices)]
    return MESH[key]


def space_weights(spde, places):
    points, triangles, active, vertices, mass, stiff = mesh(spde)
    weights = sphere_weights(points, triangles, places)
    if len(active) == len(triangles):
        return weights, numpy.ones(len(places), bool)
    inside = numpy.zeros(len(places), bool)
    clear = numpy.zeros(len(places), bool)
    for row, w in enumerate(weights):
        corners = numpy.where(w > 1e-9)[0]
        holders = numpy.isin(active, corners).sum(axis=1) == len(corners)
        everywhere = numpy.isin(triangles, corners).sum(axis=1) == len(corners)
        inside[row] = holders.any()
        clear[row] = holders.sum() in (0, everywhere.sum())    # not on the boundary of the view
    weights[~inside] = 0
    return weights[:, vertices], clear


def year(when):
    start, end = datetime.datetime(when.year, 1, 1), datetime.datetime(when.year + 1, 1, 1)
    micro = lambda d: (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds
    return when.year + fractions.Fraction(micro(when - start), micro(end - start))


class Case(object):
    """An element with its expected design (function of a structure) and prior (function of the array of hyperparameters)."""

    def __init__(self, name, element, hyperparameters, design, prior, groups=None, when=None):
        self.name, self.element, self.hyperparameters, self.design, self.prior, self.groups, self.when = name, element, hyperparameters, design, prior, groups, when


def all_clear(rows):
    return rows, numpy.ones(len(rows), bool)


def grandmean(rng):
    return Case('grand mean', GrandMeanElement(), CovariateHyperparameters(float(rng.choice([rng.normal(0, 1.5), rng.uniform(-12, 12)]))), lambda o: all_clear(numpy.ones((len(o.places), 1))),
                lambda t: numpy.exp(-2 * t[0]) * numpy.eye(1))


def harmonics(rng):
    def design(o):
        lat = numpy.radians(o.places[:, 0])
        return all_clear(numpy.vstack([numpy.cos(2 * lat), numpy.sin(2 * lat), numpy.cos(4 * lat), numpy.sin(4 * lat)]).T)
    parameters = CombinationHyperparameters([CovariateHyperparameters(float(v)) for v in rng.normal(0, 1, 4)])
    return Case('latitude harmonics', LatitudeHarmonicsElement(), parameters, design, lambda t: numpy.diag(numpy.exp(-2 * numpy.asarray(t))))


def spline(rng):
    n, overlap, H, alpha = int(rng.randint(3, 20)), float(rng.choice([1.5, 2.5])), float(rng.choice([1.0, 0.5])), int(rng.choice([1, 2]))
    spacing = 180.0 / (n - 1)
    nodes = -90 + spacing * (numpy.arange(n + 360) - 180)
    return Case('latitude spline', LatitudeSplineElement(alpha, n, overlap, H), LocalHyperparameters(float(rng.normal(0, 1)), float(numpy.log(spacing * rng.uniform(1, 5)))),
                lambda o: all_clear(line_weights(o.places[:, 0], nodes, overlap * spacing)),
                lambda t: line_precision(n + 360, spacing, t[0], t[1], alpha, H))


def local(rng):
    kind = rng.randint(4)
    level = int(rng.choice([1, 2]))
    below = int(rng.randint(0, level))
    index = int(rng.randint(20 * 4 ** below))
    if kind == 0:
        element, name = LocalElement(level), 'local'
    elif kind == 1:
        element, name = LocalSubRegion(level, below, index), 'local subregion'
    elif kind == 2:
        element, name = LocalSuperTriangle(level, below, index), 'local super triangle'
    else:
        element, name = SpatialBiasElement('surface', level), 'spatial bias'
    spde = element.spde
    points, triangles, active, vertices, mass, stiff = mesh(spde)

    def design(o):
        rows, clear = space_weights(spde, o.places)
        if kind == 3 and o.effects.get('surface') is None:
            rows = numpy.zeros(rows.shape)
        return rows, clear
    return Case(name, element, LocalHyperparameters(float(rng.normal(0, 1)), float(rng.uniform(-1, 0.5))), design,
                lambda t: sphere_precision(mass, stiff, t[0], t[1], 2), groups={'surface': 5} if kind == 3 else None)


def nonstationary(rng):
    element = NonStationaryLocal(1)
    points, triangles, active, vertices, mass, stiff = mesh(element.spde)
    n = len(vertices)

    def prior(t):
        kappa, tau = native(numpy.asarray(t[:n]), numpy.asarray(t[n:]), 2, 2)
        return order_matrix(mass, stiff, kappa, tau, 2)
    return Case('non-stationary local', element, ExpandedLocalHyperparameters(rng.normal(0, 0.5, n), rng.uniform(-1, 0.5, n)),
                lambda o: space_weights(element.spde, o.places), prior)


def seasonal(rng):
    level, n, mean = int(rng.choice([0, 1])), int(rng.choice([1, 2, 3, 3, 5])), bool(rng.randint(2))
    level = 0 if n > 3 else level
    element = SeasonalElement(level, n, mean)
    points, triangles, active, vertices, mass, stiff = mesh(element.spde)
    parameters = SeasonalHyperparameters(n + int(mean), 0.0, 0.0)
    parameters.set_array(numpy.vstack([rng.normal(0, 1, n + int(mean)), rng.uniform(-1, 0.5, n + int(mean))]).T.ravel())

    def design(o):
        rows, clear = space_weights(element.spde, o.places)
        phase = 2 * numpy.pi * float(year(o.when) % 1)
        series = [1.0] if mean else []
        for k in range(1, n + 1):
            series += [numpy.sin(k * phase), numpy.cos(k * phase)]
        return numpy.hstack([s * rows for s in series]), clear

    def prior(t):
        blocks = []
        for k in range(n + int(mean)):
            block = sphere_precision(mass, stiff, t[2 * k], t[2 * k + 1], 2)
            blocks += [block] if mean and k == 0 else [block, block]
        return scipy.linalg.block_diag(*blocks)
    return Case('seasonal', element, parameters, design, prior)


def spacetime(rng, kind=None):
    kind = ['kronecker', 'annual', 'factor'][rng.randint(3)] if kind is None else kind
    level, alpha, n = int(rng.choice([0, 1])), 2 if kind == 'factor' else int(rng.choice([2, 2, 3])), int(rng.randint(3, 7))
    overlap, H = float(rng.choice([1.5, 2.5])), float(rng.choice([1.0, 0.7]))
    if kind == 'annual':
        start = float(rng.choice([rng.randint(1860, 1990), 1995, 1999]))
        wrap = bool(rng.randint(2))
        length = float(rng.choice([1, 5])) if wrap else float(rng.choice([2, 10]))
    else:
        start, length, wrap = float(rng.randint(100, 50000)), float(rng.choice([4, 10, 365])), False
    maker = {'kronecker': SpaceTimeKroneckerElement, 'annual': AnnualKroneckerElement, 'factor': SpaceTimeFactorElement}[kind]
    element = maker(level, alpha, start, start + length, n, overlap, H, [True] if wrap else None) if wrap or rng.randint(2) else maker(level, alpha, start, start + length, n, overlap, H)
    spacing = length / n if wrap else length / (n - 1)
    nodes = start + spacing * numpy.arange(n)
    points, triangles, active, vertices, mass, stiff = mesh(element.spatial_model)
    parameters = SpaceTimeSPDEHyperparameters(float(rng.normal(0, 1)), float(rng.uniform(-1, 0.5)), float(numpy.log(spacing * rng.uniform(1, 4))))

    def series(o):
        where = float(year(o.when)) if kind == 'annual' else (o.when - EPOCH).days
        return line_weights([where], nodes, overlap * spacing, length if wrap else None)

    def prior(t):
        space = sphere_precision(mass, stiff, t[0], t[1], alpha)
        if kind == 'factor':
            return scipy.linalg.block_diag(space, line_precision(n, spacing, 0.0, t[2], alpha, H, wrap))
        return numpy.kron(line_precision(n, spacing, 0.0, t[2], 1, H, wrap), space)

    def when(r):
        if kind == 'annual':
            return datetime.datetime(int(start), 1, 1) + datetime.timedelta(days=int(r.randint(-200, int(length * 365) + 200)), hours=int(r.randint(24)))
        return EPOCH + datetime.timedelta(days=int(start) + int(r.randint(-2, int(length) + 3)))

    def design(o):
        rows, clear = space_weights(element.spatial_model, o.places)
        if kind == 'factor':
            return (rows, series(o)), clear
        return numpy.kron(series(o), rows), clear
    return Case(kind, element, parameters, design, prior, when=when)


def bias(rng):
    n = int(rng.choice([rng.randint(1, 12), 300]))
    group = 'bob %d' % rng.randint(1000)

    def design(o):
        rows = numpy.zeros((len(o.places), n))
        table = o.effects.get(group)
        if table is not None:
            for row, column in table:
                rows[row, column] = 1
        return all_clear(rows)
    return Case('bias', BiasElement(group, n), CovariateHyperparameters(float(rng.normal(0, 1))), design, lambda t: numpy.exp(-2 * t[0]) * numpy.eye(n), groups={group: n})


LINEAR = [grandmean, harmonics, spline, local, nonstationary, seasonal, lambda rng: spacetime(rng, 'kronecker'), lambda rng: spacetime(rng, 'annual'), bias]
