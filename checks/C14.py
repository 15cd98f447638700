"""Precision and observation matrices of random fields on lattices and on the sphere."""

import numpy
import scipy.sparse

from fields import dense, derivative, elements, judge, native, order_matrix, sparse_elements
from eustace.analysis.advanced_standard.stats.spde.lattice import BasisFunction, LatticeMesh, LatticeSPDE, PiecewiseLinearBasis, WendlandC4Basis
from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
from eustace.analysis.advanced_standard.stats.spde.spherical_view import SphereMeshViewGlobal, SphereMeshViewLocal, SphereMeshViewSuperTriangle

NEEDS = {'extension': True}
RULE = """Lattices of one to three dimensions, plain and wrapping, and spheres of several levels, whole and as local views, are built with random
hyperparameters, stationary and varying from node to node. The monitor builds every matrix again, node by node, from the definition (finite
differences on lattices, linear elements on triangles), checks symmetry and positive eigenvalues, compares derivatives with differences of the
matrices returned for displaced hyperparameters, and the variances and correlations of dense inverses with those requested. Non-trivial: more
than one dimension, wrapping, order other than two or varying parameters."""
REQUIRED = {'lattice rows': 3000, 'wrapped rows': 800, 'rows at nodes': 200, 'rows outside': 300, 'lattice precisions': 40, 'several dimensions': 15,
            'wrapping precisions': 12, 'derivatives': 120, 'variances': 12, 'sphere precisions': 20, 'order above two': 8, 'varying': 20,
            'views': 20, 'view rows': 1500, 'merges': 10, 'deep matrices': 10, 'large lattices': 10}
ASSUMPTIONS = ['A dimension that wraps has at least three nodes', 'Variances are compared with those requested where the mesh resolves the range, to within 15 percent']


# ---- lattices ----

def lattice(rng, mon, basis=None, sizes=None, dims=None):
    d = dims or int(rng.choice([1, 1, 2, 2, 3]))
    top = {1: 25, 2: 8, 3: 5}[d]
    spec, wrap = [], []
    wrapping = rng.randint(3)
    for i in range(d):
        w = wrapping > 0 and bool(rng.randint(2))
        n = int(rng.randint(3 if w else 2, top + 1))
        start = float(numpy.round(rng.uniform(-100, 100), 2)) * float(rng.choice([1, 1, 1000]))
        spec.append((start, start + float(numpy.round(rng.uniform(0.5, 60), 2)), n))
        if rng.randint(5) == 0:
            spec[-1] = (int(start), int(start) + int(rng.randint(1, 60)), n)
        wrap.append(w)
    basis = basis or [PiecewiseLinearBasis, WendlandC4Basis, BasisFunction][rng.randint(3)]
    given = None if wrapping == 0 else (wrap if wrapping == 1 else numpy.array(wrap))
    spacing = numpy.array([(b - a) / (n if w else n - 1) for (a, b, n), w in zip(spec, wrap)])
    if basis is PiecewiseLinearBasis and rng.randint(3) or rng.randint(2):
        factor = 1.0 if basis is PiecewiseLinearBasis and rng.randint(2) else float(rng.choice([1.0, 1.5, 2.0, 2.5, 4.0, 7.3]))
        mesh = LatticeMesh(spec, basis(basis_span=numpy.ones(d)), overlap_factor=factor, wrap_dimensions=given)
        span = spacing * factor
    else:
        span = spacing * rng.choice([1.0, 1.2, 1.5, 2.5, 5.0], d)
        mesh = LatticeMesh(spec, basis(basis_span=span.copy()), wrap_dimensions=given)
    axes = [a + s * numpy.arange(n) for (a, b, n), s in zip(spec, spacing)]
    return mesh, spec, wrap, spacing, span, axes, basis


def node_table(mon, mesh, axes):
    """Index on each axis of every node, from its coordinates: each combination must occur once."""
    nodes = numpy.asarray(mesh.nodes)
    n = int(numpy.prod([len(a) for a in axes]))
    mon.equal((nodes.shape, mesh.n_nodes), ((n, len(axes)), n), 'nodes of the lattice')
    index = numpy.zeros(nodes.shape, int)
    for i, axis in enumerate(axes):
        gap = numpy.abs(nodes[:, i, numpy.newaxis] - axis)
        index[:, i] = gap.argmin(axis=1)
        mon.check((gap.min(axis=1) <= 1e-9 * (1 + abs(axis).max())).all(), 'nodes lie on the axis')
    mon.equal(len(set(map(tuple, index))), n, 'every node once')
    return index


def basis_value(basis, distance, span):
    scaled = distance / span
    if basis is PiecewiseLinearBasis:
        return numpy.prod(1 - numpy.minimum(1, numpy.abs(scaled)), axis=-1)
    r = numpy.minimum(1, numpy.sqrt((scaled ** 2).sum(axis=-1)))
    if basis is WendlandC4Basis:
        return (1 - r) ** 6 * (35 * r ** 2 + 18 * r + 3) / 3
    return 1 - r


def lattice_design(rng, mon):
    mesh, spec, wrap, spacing, span, axes, basis = lattice(rng, mon)
    d = len(spec)
    node_table(mon, mesh, axes)
    nodes = numpy.asarray(mesh.nodes)
    low = numpy.array([s[0] for s in spec])
    high = numpy.array([s[1] for s in spec])
    inside = low + rng.uniform(0, 1, (40, d)) * (high - low)
    at = nodes[rng.randint(0, len(nodes), 15)]
    mixed = inside[:10].copy()
    mixed[:, rng.randint(d)] = axes[0][0] if d == 1 else mixed[:, 0]
    outside = low + rng.uniform(-1.5, 2.5, (20, d)) * (high - low)
    middle = nodes[rng.randint(0, len(nodes), 5)] + 0.5 * spacing
    points = numpy.vstack([inside, at, mixed, outside, middle])
    delta = points[:, numpy.newaxis, :] - nodes
    for i in range(d):
        if wrap[i]:
            period = high[i] - low[i]
            delta[:, :, i] = numpy.abs(delta[:, :, i]) % period
            delta[:, :, i] = numpy.minimum(delta[:, :, i], period - delta[:, :, i])
    # positions are known to the rounding of the coordinates
    loose = 1e-9 + 3e-15 * max(abs(low).max(), abs(high).max()) / spacing.min()
    expected = basis_value(basis, delta, span)
    given = points
    if d == 1 and rng.randint(2):
        given = points[:, 0]
    model = LatticeSPDE(mesh)
    kind = ['csc', 'csr', 'coo'][rng.randint(3)]
    before = given.copy()
    A = model.build_A(given, sparse_format=kind)
    mon.same(given, before, 'locations are left as they were')
    mon.equal(A.shape, (len(points), len(nodes)), 'shape of the observation matrix')
    mon.equal(A.format, kind, 'format')
    A = dense(A)
    mon.close(A, expected, 'observation matrix of %s in %d dimensions, wrapping %s' % (basis.__name__, d, wrap), rtol=1e-9, atol=loose)
    mon.same(dense(mesh.build_A(points)), A, 'matrix from the mesh')
    one = int(rng.randint(len(points)))
    mon.close(dense(model.build_A(points[one:one + 1])), A[one:one + 1], 'one location on its own', rtol=1e-12, atol=1e-12)
    mon.close(dense(model.build_A(numpy.repeat(points[one:one + 1], 3, axis=0))), numpy.repeat(A[one:one + 1], 3, axis=0), 'a location three times', rtol=1e-12, atol=1e-12)
    mon.equal(model.build_A(points[:0]).shape, (0, len(nodes)), 'no locations')
    mon.equal(model.n_latent_variables(), len(nodes), 'number of latent variables')
    linear = basis is PiecewiseLinearBasis and numpy.allclose(span, spacing)
    if linear:
        covered = numpy.ones(len(points), bool)
        for i in range(d):
            if not wrap[i]:
                covered &= (points[:, i] >= low[i]) & (points[:, i] <= high[i])
        mon.close(A[covered].sum(axis=1), numpy.ones(covered.sum()), 'rows sum to one', rtol=0, atol=2 ** d * loose)
        mon.close(A[40:55].max(axis=1), numpy.ones(15), 'node values are reproduced', rtol=0, atol=loose)
        free = [i for i in range(d) if not wrap[i]]
        if free:
            slope = rng.normal(0, 1, len(free))
            mon.close(A[covered].dot((nodes - low)[:, free].dot(slope)), (points - low)[covered][:, free].dot(slope), 'linear functions are interpolated', rtol=0, atol=1e-7 + 1000 * loose)
        mon.count('rows at nodes', 15)
    mon.count('lattice rows', len(points))
    mon.count('rows outside', 20)
    if any(wrap):
        mon.count('wrapped rows', len(points))
    mon.case(('design', basis.__name__, d, tuple(wrap), linear), nontrivial=d > 1 or any(wrap))


def large_lattice(rng, mon):
    """As many nodes as there are days in the record: rows at both ends and between, and links of the last nodes."""
    wrap = bool(mon.index % 2)
    n = int(rng.randint(33000, 70000)) if mon.index % 3 else int(rng.randint(200, 3000))
    d = 1 + mon.index // 2 % 2
    other = int(rng.randint(3, 6))
    start, spacing = float(rng.randint(-100000, 100000)), float(rng.choice([0.25, 1.0, 7.0]))
    spec = [(start, start + spacing * (n if wrap else n - 1), n)] + ([(0.0, 1.0, other)] if d == 2 else [])
    mesh = LatticeMesh(spec, PiecewiseLinearBasis(basis_span=numpy.ones(d)), overlap_factor=1.0, wrap_dimensions=[wrap] + [False] * (d - 1))
    total = n * (other if d == 2 else 1)
    mon.equal(mesh.n_nodes, total, 'nodes of a large lattice')
    axis = start + spacing * numpy.arange(n)
    place = rng.uniform(0, n - 1, 60)
    place[:20] = n - 1 - rng.uniform(0, 3, 20)
    place[20:25] = [0, n - 1, n - 2, 32767.5 % n, 0.5]
    points = numpy.column_stack([start + spacing * place] + ([rng.uniform(0, 1, 60)] if d == 2 else []))
    A = mesh.build_A(points, 'csr')
    first, part = numpy.floor(place).astype(int), place % 1
    expected = numpy.zeros(60)
    nodes = numpy.asarray(mesh.nodes)
    for row in range(60):
        columns = A.indices[A.indptr[row]:A.indptr[row + 1]]
        weights = A.data[A.indptr[row]:A.indptr[row + 1]]
        weight = (1 - numpy.minimum(1, abs(points[row, 0] - nodes[columns, 0]) / spacing))
        if d == 2:
            weight = weight * (1 - numpy.minimum(1, abs(points[row, 1] - nodes[columns, 1]) * (other - 1)))
        mon.close(weights, weight, 'weights on a large lattice', rtol=1e-9, atol=1e-7)
        expected[row] = weights.sum()
    mon.close(expected, numpy.ones(60), 'rows of a large lattice sum to one', rtol=0, atol=1e-6)
    mon.close(A.dot(nodes), points, 'a large lattice interpolates positions', rtol=0, atol=1e-6 * spacing)
    if d == 1:
        log_sigma, log_rho = float(rng.normal(0, 1)), float(numpy.log(spacing * rng.uniform(2, 9)))
        alpha = int(rng.choice([1, 2]))
        Q = scipy.sparse.csr_matrix(LatticeSPDE(mesh).build_Q_stationary(log_sigma, log_rho, alpha, None, 'csc'))
        kappa, tau = native(log_sigma, log_rho, alpha, 1)
        link = -numpy.ones(n - 1) / spacing ** 2
        K = scipy.sparse.diags([link, numpy.ones(n) * (kappa ** 2 + 2 / spacing ** 2), link], [-1, 0, 1]).tolil()
        if wrap:
            K[0, n - 1] = K[n - 1, 0] = -1 / spacing ** 2
        K = scipy.sparse.csr_matrix(K)
        whole = tau ** 2 * spacing * (K if alpha == 1 else K.dot(K))
        mon.check(abs(Q - whole).max() <= 1e-9 * abs(whole).max(), 'precision of a large lattice')
        mon.count('lattice precisions')
    mon.count('large lattices')
    mon.case(('large lattice', wrap, d, n > 32767), nontrivial=True)


def parameters(rng, n):
    """Design matrices of hyperparameters for the amplitude and range of every node."""
    p = int(rng.randint(2, 5))
    sigma = rng.uniform(-0.5, 0.5, (n, p)) * (rng.uniform(size=p) < 0.7)
    rho = rng.uniform(-0.3, 0.3, (n, p)) * (rng.uniform(size=p) < 0.7)
    sigma[:, 0], rho[:, 1] = 1.0, 1.0
    return sigma, rho, p


def lattice_precision(rng, mon):
    dims = [1, 2, 1, 3, 2][mon.index % 5]
    mesh, spec, wrap, spacing, span, axes, basis = lattice(rng, mon, dims=dims)
    d = len(spec)
    index = node_table(mon, mesh, axes)
    n = len(index)
    alpha = 2 if d > 1 else int(rng.choice([1, 2]))
    H = [None, 1.0, float(rng.uniform(0.3, 3)), rng.uniform(0.3, 3, d)][rng.randint(4)]
    scales = (1.0 if H is None else H) / spacing ** 2 * numpy.ones(d)
    laplace = numpy.diag(numpy.ones(n) * 2 * scales.sum())
    for i in range(d):
        others = [j for j in range(d) if j != i]
        same = (index[:, numpy.newaxis][:, :, others] == index[numpy.newaxis][:, :, others]).all(axis=2)
        step = numpy.abs(index[:, numpy.newaxis, i] - index[numpy.newaxis, :, i])
        next_to = (step == 1) | (step == len(axes[i]) - 1 if wrap[i] else False)
        laplace[same & next_to] = -scales[i]
    model = LatticeSPDE(mesh)
    stationary = bool(rng.randint(2))
    log_sigma, log_rho = float(rng.normal(0, 1)), float(numpy.log(spacing.mean() * rng.uniform(1, 6)))

    def expected(sigma, rho):
        kappa, tau = native(sigma, rho, alpha, d)
        K = laplace + numpy.diag(kappa ** 2)
        Q = K if alpha == 1 else K.dot(K)
        return tau[:, numpy.newaxis] * Q * tau * numpy.prod(spacing)

    what = 'precision on a lattice of %d dimensions, order %d, wrapping %s' % (d, alpha, wrap)
    if stationary:
        Q = model.build_Q_stationary(log_sigma, log_rho, alpha, H, 'csc')
        judge(mon, Q, expected(numpy.ones(n) * log_sigma, numpy.ones(n) * log_rho), what)
        larger = dense(model.build_Q_stationary(log_sigma + 0.7, log_rho, alpha, H, 'csc'))
        mon.close(larger, dense(Q) * numpy.exp(-1.4), 'amplitude scales the field', rtol=1e-9, atol=1e-12 * abs(larger).max())
        for k in range(2):
            derivative(mon, model.build_dQdp_stationary(log_sigma, log_rho, alpha, H, k, 'csc'),
                       lambda t: model.build_Q_stationary(t[0], t[1], alpha, H, 'csc'), [log_sigma, log_rho], k, 'derivative of the ' + what)
        if rng.randint(2):
            same = model.build_Q(numpy.array([[log_sigma, log_rho]]).T, None, None, alpha, H, 'csc')
            mon.close(dense(same), dense(Q), 'stationary by default', rtol=1e-12, atol=0)
    else:
        sigma_design, rho_design, p = parameters(rng, n)
        theta = rng.normal(0, 0.5, p)
        theta[1] += log_rho
        column = bool(rng.randint(2))
        form = (lambda t: numpy.asarray(t).reshape(-1, 1)) if column else numpy.asarray
        Q = model.build_Q(form(theta), sigma_design, rho_design, alpha, H, 'csc')
        judge(mon, Q, expected(sigma_design.dot(theta), rho_design.dot(theta)), what + ', varying')
        before = theta.copy()
        for k in range(p):
            model.build_dQdp(form(theta), sigma_design, rho_design, alpha, H, k, 'csc')
            mon.same(theta, before, 'hyperparameters are left as they were')
            derivative(mon, model.build_dQdp(form(theta), sigma_design, rho_design, alpha, H, k, 'csc'),
                       lambda t: model.build_Q(form(t), sigma_design, rho_design, alpha, H, 'csc'), theta, k, 'derivative of the ' + what + ', varying')
        mon.count('varying')
    if rng.randint(4) == 0:
        mon.raises(lambda: model.build_Q_stationary(log_sigma, log_rho, 3, H, 'csc'), 'orders above two are refused', NotImplementedError)
        mon.raises(lambda: model.build_dQdp_stationary(log_sigma, log_rho, 3, H, 0, 'csc'), 'derivatives of orders above two are refused', NotImplementedError)
        mon.raises(lambda: model.build_dQdp_stationary(log_sigma, log_rho, d // 2 if d > 1 else 0, H, 0, 'csc'), 'orders without variance are refused', ValueError)
    mon.count('lattice precisions')
    if d > 1:
        mon.count('several dimensions')
    if any(wrap):
        mon.count('wrapping precisions')
    mon.case(('precision', d, tuple(wrap), alpha, stationary, numpy.size(H), H is None), nontrivial=d > 1 or any(wrap) or alpha == 1 or not stationary)


def lattice_variance(rng, mon):
    """Wrapping lattices have no boundary: variance and range are as requested everywhere."""
    sigma = float(numpy.exp(rng.normal(0, 1)))
    length = float(rng.uniform(10, 1000))
    if mon.index % 3 == 2:
        n, d, alpha = 24, 2, 2
        rho = length / n * rng.uniform(7, 9)
        wrap = [True, True]
    else:
        n, d, alpha = 200, 1, 1 + mon.index % 2
        rho = length / n * rng.uniform(20, 40)
        wrap = [True]
    mesh = LatticeMesh([(0.0, length, n)] * d, PiecewiseLinearBasis(basis_span=numpy.ones(d)), overlap_factor=1.0, wrap_dimensions=wrap)
    model = LatticeSPDE(mesh)
    covariance = numpy.linalg.inv(dense(model.build_Q_stationary(numpy.log(sigma), numpy.log(rho), alpha, 1.0, 'csc')))
    mon.close(numpy.diag(covariance), numpy.ones(n ** d) * sigma ** 2, 'marginal variance on a lattice', rtol=0.15)
    nodes = numpy.asarray(mesh.nodes)
    apart = numpy.abs(nodes - nodes[0])
    apart = numpy.sqrt((numpy.minimum(apart, length - apart) ** 2).sum(axis=1))
    order = numpy.argsort(apart)
    at = numpy.interp(rho, apart[order], covariance[0, order]) / sigma ** 2
    mon.check(0.08 < at < 0.22, 'correlation at the range: %g' % at)
    mon.count('variances')
    mon.case(('variance', d, alpha))


# ---- sphere ----

SPHERE = {}


def sphere(level):
    if level not in SPHERE:
        SPHERE[level] = SphereMeshSPDE(level)
    return SPHERE[level]


FEM = {}


def fem(level):
    if level not in FEM:
        model = sphere(level)
        FEM[level] = elements(model.triangulation.points, model.triangulation.triangles[:, 1:].astype(int))
    return FEM[level]


def sphere_precision(rng, mon):
    level = [1, 2, 1, 2, 3, 0][mon.index % 6]
    deep = mon.index % 7 == 3 and level < 2
    model = SphereMeshSPDE(level, sparse_format=['csr', 'csc'][rng.randint(2)])
    alpha = [2, 2, 3, 4, 2, 3][mon.index % 6] if level < 3 else 2
    if deep:
        alpha = int(rng.choice([5, 6]))
    mass, stiff = fem(level)
    n = len(mass)
    mon.equal(model.n_latent_variables(), n, 'number of latent variables')
    what = 'precision on the sphere of level %d, order %d' % (level, alpha)
    mon.close(dense(model.build_Q_C_tilde()), numpy.diag(mass), 'mass matrix', rtol=1e-9, atol=1e-15)
    mon.close(dense(model.build_Q_G()), stiff, 'stiffness matrix', rtol=1e-8, atol=1e-11)
    log_sigma, log_rho = float(rng.normal(0, 1)), float(rng.uniform(-1.5, 0.7))
    mode = ['stationary', 'expanded', 'general'][mon.index // 6 % 3] if level < 3 else 'stationary'
    probe = [0, 1]
    if mode == 'stationary':
        theta = numpy.array([log_sigma, log_rho])
        at = lambda t: model.build_Q_stationary(t[0], t[1], alpha)
        slope_at = lambda k: model.build_dQdp_stationary(theta[0], theta[1], alpha, k)
        sigma, rho = numpy.ones(n) * log_sigma, numpy.ones(n) * log_rho
        larger = dense(at([log_sigma + 0.4, log_rho]))
        mon.close(larger, dense(at(theta)) * numpy.exp(-0.8), 'amplitude scales the field', rtol=1e-8, atol=1e-12 * abs(larger).max())
    elif mode == 'expanded':
        sigma, rho = rng.normal(0, 0.5, n), log_rho + rng.normal(0, 0.2, n)
        theta = numpy.concatenate([sigma, rho])
        at = lambda t: model.build_Q_expanded(t[:n], t[n:], alpha)
        slope_at = lambda k: model.build_dQdp_expanded(sigma, rho, alpha, k)
        probe = [int(rng.randint(n)), int(n + rng.randint(n)), int(rng.randint(2 * n))]
        mon.count('varying')
    else:
        sigma_design, rho_design, p = parameters(rng, n)
        theta = rng.normal(0, 0.3, p)
        theta[1] += log_rho
        S, R = scipy.sparse.csr_matrix(sigma_design), scipy.sparse.csr_matrix(rho_design)
        at = lambda t: model.build_Q(numpy.asarray(t), alpha, S, R)
        slope_at = lambda k: model.build_dQdp(theta, alpha, S, R, k)
        sigma, rho = sigma_design.dot(theta), rho_design.dot(theta)
        probe = range(p)
        mon.count('varying')
    kappa, tau = native(sigma, rho, alpha, 2)
    before = theta.copy()
    Q = at(theta)
    mon.equal(Q.format, model.sparse_format, 'format')
    judge(mon, Q, order_matrix(mass, stiff, kappa, tau, alpha), what + ', ' + mode)
    for k in probe:
        slope_at(k)
        mon.same(theta, before, 'hyperparameters are left as they were')
        derivative(mon, slope_at(k), at, theta, k, 'derivative of the ' + what + ', ' + mode)
    if rng.randint(3) == 0:
        mon.raises(lambda: model.build_Q_stationary(log_sigma, log_rho, 1), 'order one has no variance on the sphere', ValueError)
        mon.raises(lambda: model.build_dQdp_stationary(log_sigma, log_rho, 1, 0), 'order one has no variance on the sphere', ValueError)
    mon.count('sphere precisions')
    if alpha > 2:
        mon.count('order above two')
    mon.case(('sphere', level, alpha, mode), nontrivial=alpha > 2 or mode != 'stationary')


def sphere_variance(rng, mon):
    alpha = [2, 3, 2, 4][mon.index % 4]
    level = 4 if alpha == 2 and mon.tier != 'quick' else 3
    model = sphere(level)
    spacing = 1.1 / 2 ** level
    rho = float(spacing * rng.uniform(5, 7))
    sigma = float(numpy.exp(rng.normal(0, 1)))
    covariance = numpy.linalg.inv(dense(model.build_Q_stationary(numpy.log(sigma), numpy.log(rho), alpha)))
    mon.close(numpy.diag(covariance), numpy.ones(len(covariance)) * sigma ** 2, 'marginal variance on the sphere, order %d' % alpha, rtol=0.2)
    points = model.triangulation.points
    centre = int(rng.randint(len(points)))
    apart = numpy.arccos(numpy.clip(points.dot(points[centre]), -1, 1))
    near = numpy.abs(apart - rho) < spacing
    at = covariance[centre, near].mean() / sigma ** 2
    mon.check(0.05 < at < 0.25, 'correlation at the range: %g' % at)
    mon.count('variances')
    mon.case(('sphere variance', alpha, level))


def polar(points):
    return numpy.vstack([numpy.degrees(numpy.arcsin(numpy.clip(points[:, 2], -1, 1))), numpy.degrees(numpy.arctan2(points[:, 1], points[:, 0]))]).T


def random_view(rng, level):
    super_level = int(rng.randint(0, level + 1))
    index = int(rng.randint(20 * 4 ** super_level))
    if rng.randint(2):
        return SphereMeshViewLocal(level, super_level, index, ['csr', 'csc'][rng.randint(2)]), 'local', super_level, index
    return SphereMeshViewSuperTriangle(level, super_level, index, sparse_format=['csr', 'csc'][rng.randint(2)]), 'super', super_level, index


def ancestors(model, super_level):
    """The triangle of the coarser mesh holding the centre of each triangle, found by geometry."""
    coarse = sphere(super_level).triangulation
    corner = coarse.points[coarse.triangles[:, 1:].astype(int)]
    fine = model.triangulation
    centre = fine.points[fine.triangles[:, 1:].astype(int)].mean(axis=1)
    inverse = numpy.linalg.inv(numpy.swapaxes(corner, 1, 2))
    weights = numpy.einsum('tij,pj->pti', inverse, centre)
    return weights.min(axis=2).argmax(axis=1), coarse.triangles[:, 1:].astype(int)


def view(rng, mon):
    level = int(rng.choice([2, 3]))
    full = sphere(level)
    if mon.index % 5 == 0:
        local, kind, super_level, index = SphereMeshViewGlobal(level), 'global', 0, 0
    else:
        local, kind, super_level, index = random_view(rng, level)
    triangles = full.triangulation.triangles[:, 1:].astype(int)
    owner, coarse = ancestors(full, super_level)
    if kind == 'global':
        active = numpy.ones(len(triangles), bool)
    elif kind == 'super':
        active = owner == index
    else:
        active = numpy.isin(owner, numpy.where(numpy.isin(coarse, coarse[index]).any(axis=1))[0])
    mon.same(numpy.asarray(local.active_triangle_indices).astype(int), numpy.where(active)[0], 'triangles of a %s view' % kind)
    vertices = numpy.unique(triangles[active])
    mon.same(numpy.asarray(local.active_vertex_indices).astype(int), vertices, 'vertices of the view')
    n = len(vertices)
    mon.equal(local.n_latent_variables(), n, 'number of latent variables')
    mon.equal(SphereMeshViewGlobal.n_triangles_at_level(level), 20 * 4 ** level, 'number of triangles')
    mapping = dense(local.get_vertex_mappings())
    mon.same(mapping.astype(int), (vertices[:, numpy.newaxis] == numpy.arange(len(full.triangulation.points))).astype(int), 'vertex map')
    chart = dense(local.get_triangulation_mappings())
    mon.same(chart.astype(int), (numpy.where(active)[0][:, numpy.newaxis] == numpy.arange(len(triangles))).astype(int), 'triangle map')
    mass, stiff = elements(full.triangulation.points, triangles[active])
    mass, stiff = mass[vertices], stiff[numpy.ix_(vertices, vertices)]
    mon.close(dense(local.build_Q_C_tilde()), numpy.diag(mass), 'mass matrix of the view', rtol=1e-9, atol=1e-15)
    mon.close(dense(local.build_Q_G()), stiff, 'stiffness matrix of the view', rtol=1e-8, atol=1e-11)
    # On nodes whose triangles all belong to the view the field equation is that of the full sphere
    inner = ~numpy.isin(vertices, triangles[~active])
    whole_mass, whole_stiff = dense(full.build_Q_C_tilde()), dense(full.build_Q_G())
    mon.close(dense(local.build_Q_C_tilde())[inner], whole_mass[numpy.ix_(vertices[inner], vertices)], 'mass inside the view', rtol=1e-9, atol=1e-15)
    mon.close(dense(local.build_Q_G())[inner], whole_stiff[numpy.ix_(vertices[inner], vertices)], 'stiffness inside the view', rtol=1e-8, atol=1e-11)
    alpha = int(rng.choice([2, 2, 3]))
    theta = numpy.array([rng.normal(0, 1), rng.uniform(-1, 0.5)])
    kappa, tau = native(numpy.ones(n) * theta[0], numpy.ones(n) * theta[1], alpha, 2)
    judge(mon, local.build_Q_stationary(theta[0], theta[1], alpha), order_matrix(mass, stiff, kappa, tau, alpha), 'precision of a %s view, order %d' % (kind, alpha))
    for k in range(2):
        derivative(mon, local.build_dQdp_stationary(theta[0], theta[1], alpha, k), lambda t: local.build_Q_stationary(t[0], t[1], alpha), theta, k, 'derivative in a view')
    # Observations
    points = rng.normal(0, 1, (60, 3))
    corner = full.triangulation.points[triangles[rng.choice(numpy.where(active)[0], 40)]]
    weight = rng.dirichlet([1, 1, 1], 40)
    points = numpy.vstack([points, numpy.einsum('pij,pi->pj', corner, weight)])
    points /= numpy.linalg.norm(points, axis=1)[:, numpy.newaxis]
    where = polar(points)
    if rng.randint(2):
        where[:, 1] %= 360
    before = where.copy()
    A, B = local.build_A(where), full.build_A(where)
    mon.same(where, before, 'locations are left as they were')
    mon.equal((A.format, local.build_Q_G().format, local.build_Q_C_tilde().format), (local.sparse_format,) * 3, 'format')
    A, B = dense(A), dense(B)
    containing = numpy.array([numpy.where((numpy.isin(triangles, numpy.where(row > 0)[0])).all(axis=1))[0][0] if (row > 0).sum() == 3 else -1 for row in B])
    clear = (containing >= 0) & (B.max(axis=1) < 1 - 1e-6)
    inside = active[containing]
    mon.same(numpy.asarray(local.in_domain(where))[clear], inside[clear], 'points inside the view')
    mon.equal(A.shape, (len(points), n), 'shape of the observation matrix')
    mon.close(A[clear & inside], B[clear & inside][:, vertices], 'observations inside the view', rtol=0, atol=1e-12)
    mon.check((A[clear & ~inside] == 0).all(), 'no observations outside the view')
    mon.close(B.sum(axis=1), numpy.ones(len(points)), 'rows sum to one', rtol=0, atol=1e-9)
    estimate = B.dot(full.triangulation.points)
    mon.close(estimate / numpy.linalg.norm(estimate, axis=1)[:, numpy.newaxis], points, 'observations interpolate the position', rtol=0, atol=1e-9)
    mon.count('views')
    mon.count('view rows', int(clear.sum()))
    mon.case(('view', kind, level, super_level, alpha), nontrivial=kind != 'global')


def deep(rng, mon):
    """Meshes as fine as those of the analysis."""
    level = [6, 7, 5, 6, 4, 7][mon.index % 6]
    full = SphereMeshSPDE(level)
    points, triangles = full.triangulation.points, full.triangulation.triangles[:, 1:].astype(int)
    n = len(points)
    mon.equal(n, 10 * 4 ** level + 2, 'number of vertices')
    log_sigma, log_rho = float(rng.normal(0, 1)), float(rng.uniform(-4, -1))

    def compare(model, points, triangles, what):
        mass, stiff = sparse_elements(points, triangles)
        mon.close(model.build_Q_C_tilde().diagonal(), mass, 'mass of ' + what, rtol=1e-7, atol=0)
        mon.check(abs(model.build_Q_G() - stiff).max() <= 1e-7, 'stiffness of ' + what)
        kappa, tau = native(log_sigma, log_rho, 2, 2)
        K = stiff + scipy.sparse.diags(kappa ** 2 * mass)
        Q = tau ** 2 * K.dot(scipy.sparse.diags(1 / mass)).dot(K)
        got = model.build_Q_stationary(log_sigma, log_rho, 2)
        mon.equal(got.shape, (len(points), len(points)), 'shape of the precision')
        mon.check(abs(got - Q).max() <= 1e-7 * abs(Q).max(), 'precision of ' + what)
        mon.check(abs(got - got.T).max() <= 1e-11 * abs(Q).max(), 'symmetric precision of ' + what)
        mon.count('deep matrices')
    compare(full, points, triangles, 'the sphere of level %d' % level)
    places = rng.normal(0, 1, (300, 3))
    places[:20] = points[rng.randint(n - 50, n, 20)] + rng.normal(0, 1e-4, (20, 3))
    places /= numpy.linalg.norm(places, axis=1)[:, numpy.newaxis]
    where = polar(places)
    A = full.build_A(where).tocsr()
    mon.close(numpy.asarray(A.sum(axis=1)).ravel(), numpy.ones(300), 'rows sum to one', rtol=0, atol=1e-9)
    mon.check(A.data.min() >= -1e-9, 'weights not negative')
    estimate = A.dot(points)
    mon.close(estimate / numpy.linalg.norm(estimate, axis=1)[:, numpy.newaxis], places, 'observations interpolate the position', rtol=0, atol=1e-9)
    mon.check(all(numpy.linalg.norm(points[A.indices[A.indptr[i]:A.indptr[i + 1]]] - places[i], axis=1).max() < 1.5 / 2 ** level for i in range(300)), 'observations use nodes nearby')
    # a view far down: triangles whose centre lies in the coarse triangle, or one touching it
    super_level = level - int(rng.randint(0, 3))
    coarse = SphereMeshSPDE(super_level).triangulation
    corners = coarse.triangles[:, 1:].astype(int)
    index = int(rng.randint(len(corners))) if rng.randint(2) else len(corners) - 1 - int(rng.randint(20))
    kind = mon.index // 3 % 2
    local = (SphereMeshViewSuperTriangle, SphereMeshViewLocal)[kind](level, super_level, index)
    chosen = [index] if kind == 0 else numpy.where(numpy.isin(corners, corners[index]).any(axis=1))[0]
    centre = points[triangles].mean(axis=1)
    active = numpy.zeros(len(triangles), bool)
    for c in chosen:
        weights = numpy.linalg.solve(coarse.points[corners[c]].T, centre.T)
        active |= (weights > 0).all(axis=0)
    mon.equal(int(active.sum()), len(chosen) * 4 ** (level - super_level), 'triangles inside')
    mon.same(numpy.asarray(local.active_triangle_indices).astype(int), numpy.where(active)[0], 'triangles of a deep view')
    vertices = numpy.unique(triangles[active])
    place = numpy.zeros(n, int) - 1
    place[vertices] = numpy.arange(len(vertices))
    compare(local, points[vertices], place[triangles[active]], 'a view at level %d of level %d' % (super_level, level))
    inside = points[triangles[rng.choice(numpy.where(active)[0], 30)]]
    inside = numpy.einsum('pij,pi->pj', inside, rng.dirichlet([2, 2, 2], 30))
    inside /= numpy.linalg.norm(inside, axis=1)[:, numpy.newaxis]
    mon.check(numpy.asarray(local.in_domain(polar(inside))).all(), 'points inside a deep view')
    far = -inside
    mon.check(not numpy.asarray(local.in_domain(polar(far))).any(), 'points on the other side')
    B = local.build_A(polar(numpy.vstack([inside, far]))).tocsr()
    mon.equal(B.shape, (60, len(vertices)), 'shape of the observation matrix')
    mon.check(B[30:].nnz == 0 or abs(B[30:]).max() == 0, 'no observations outside')
    estimate = B[:30].dot(points[vertices])
    mon.close(estimate / numpy.linalg.norm(estimate, axis=1)[:, numpy.newaxis], inside, 'observations in a deep view', rtol=0, atol=1e-9)
    mon.case(('deep', level, super_level, kind))


def partition(rng, mon):
    """Views by super triangle share out the sphere; their matrices add up to those of the sphere."""
    level = 1 + mon.index % 3
    super_level = int(rng.randint(0, min(level, 2)))
    full = sphere(level)
    n = full.n_latent_variables()
    mass, stiff = numpy.zeros((n, n)), numpy.zeros((n, n))
    count = numpy.zeros(len(full.triangulation.triangles), int)
    for index in range(SphereMeshViewSuperTriangle.n_triangles_at_level(super_level)):
        local = SphereMeshViewSuperTriangle(level, super_level, index)
        mapping = dense(local.get_vertex_mappings())
        mass += mapping.T.dot(dense(local.build_Q_C_tilde())).dot(mapping)
        stiff += mapping.T.dot(dense(local.build_Q_G())).dot(mapping)
        count[numpy.asarray(local.active_triangle_indices).astype(int)] += 1
    mon.check((count == 1).all(), 'every triangle in one view')
    mon.close(mass, dense(full.build_Q_C_tilde()), 'mass of all views', rtol=1e-9, atol=1e-15)
    mon.close(stiff, dense(full.build_Q_G()), 'stiffness of all views', rtol=1e-8, atol=1e-11)
    mon.count('views', index + 1)
    mon.case(('partition', level, super_level))


def merge(rng, mon):
    level = int(rng.choice([1, 2]))
    super_level = int(rng.randint(0, level))
    world = SphereMeshViewGlobal(level)
    n = world.n_latent_variables()
    views, values = [], []
    kind = rng.randint(2)
    for index in rng.permutation(20 * 4 ** super_level):
        if kind:
            views.append(SphereMeshViewLocal(level, super_level, int(index)))
        else:
            views.append(SphereMeshViewSuperTriangle(level, super_level, int(index)))
        values.append(rng.normal(0, 0.7, 2))
    member = numpy.array([numpy.isin(numpy.arange(n), v.active_vertex_indices) for v in views]).astype(float)
    sums = member.sum(axis=0)
    table = numpy.array(values)
    theta, sigma_design, rho_design = world.merge_local_parameterisations(views, values)
    for k, design in enumerate([sigma_design, rho_design]):
        mon.close(numpy.asarray(design.dot(theta)).ravel(), member.T.dot(table[:, k]) / sums, 'average of local logarithms', rtol=1e-9, atol=1e-12)
    sigma, rho = sigma_design.dot(theta), rho_design.dot(theta)
    mass, stiff = fem(level)
    kappa, tau = native(sigma, rho, 2, 2)
    judge(mon, world.build_Q(theta, 2, scipy.sparse.csr_matrix(sigma_design), scipy.sparse.csr_matrix(rho_design)), order_matrix(mass, stiff, kappa, tau, 2), 'precision with merged parameters')
    mean = [numpy.log(member.T.dot(numpy.exp(table[:, k])) / sums) for k in range(2)]
    theta, sigma_design, rho_design = world.merge_local_parameterisations(views, values, merge_method='exp_average')
    for k, design in enumerate([sigma_design, rho_design]):
        mon.close(numpy.asarray(design.dot(theta)).ravel(), mean[k], 'logarithm of the average', rtol=1e-9, atol=1e-12)
    parts = (None, None, None)
    for v, t in zip(views, values):
        parts = SphereMeshViewGlobal.accumulate_local_parameterisations(parts[0], parts[1], parts[2], v, t)
    log_sigma, log_rho = SphereMeshViewGlobal.finalise_local_parameterisation_sigma_rho(*parts)
    mon.close(log_sigma, mean[0], 'accumulated amplitude', rtol=1e-9, atol=1e-12)
    mon.close(log_rho, mean[1], 'accumulated range', rtol=1e-9, atol=1e-12)
    q, sigma_design, rho_design = SphereMeshViewGlobal.finalise_local_parameterisation_q(*parts)
    mon.close(sigma_design.dot(q), mean[0], 'amplitude of expanded parameters', rtol=1e-9, atol=1e-12)
    mon.close(rho_design.dot(q), mean[1], 'range of expanded parameters', rtol=1e-9, atol=1e-12)
    mon.raises(lambda: world.merge_local_parameterisations(views, values, merge_method='median'), 'unknown merge method', ValueError)
    mon.count('merges')
    mon.case(('merge', level, super_level, int(kind)))


SCENARIOS = [(deep, 6, 36), (large_lattice, 12, 60), (lattice_design, 200, 3000), (lattice_precision, 100, 1500), (lattice_variance, 12, 60), (sphere_precision, 54, 600), (sphere_variance, 12, 40),
             (view, 50, 600), (partition, 6, 12), (merge, 24, 200)]
