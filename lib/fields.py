"""Random fields from their definitions, one node or triangle at a time, for checks to compare with."""

import numpy
import scipy.sparse
import scipy.special


def dense(m):
    return numpy.asarray(m.todense()) if scipy.sparse.issparse(m) else numpy.asarray(m)


def native(log_sigma, log_rho, alpha, d):
    """Parameters of the field equation for an amplitude and range."""
    nu = alpha - d / 2.0
    kappa = numpy.sqrt(8 * nu) * numpy.exp(-log_rho)
    tau = numpy.sqrt(scipy.special.gamma(nu) / (scipy.special.gamma(alpha) * (4 * numpy.pi) ** (d / 2.0))) * numpy.exp(-log_sigma) * kappa ** -nu
    return kappa, tau


def elements(points, triangles):
    """Mass (lumped) and stiffness matrices of linear elements on triangles, one triangle at a time."""
    n = len(points)
    mass, stiff = numpy.zeros(n), numpy.zeros((n, n))
    for t in triangles:
        corner = points[t]
        u, v = corner[1] - corner[0], corner[2] - corner[0]
        normal = numpy.cross(u, v)
        area = 0.5 * numpy.sqrt(normal.dot(normal))
        # gradient g of each hat function in the plane: known at the corners, no slope along the normal
        frame = numpy.vstack([u, v, normal])
        gradient = numpy.linalg.solve(frame, numpy.array([[-1.0, 1, 0], [-1.0, 0, 1], [0, 0, 0]])).T
        mass[t] += area / 3
        stiff[numpy.ix_(t, t)] += area * gradient.dot(gradient.T)
    return mass, stiff


def sparse_elements(points, triangles):
    """The same for large meshes, from angles: the stiffness of an edge is half the sum of the cotangents opposite it."""
    n = len(points)
    mass, stiff = numpy.zeros(n), scipy.sparse.csr_matrix((n, n))
    for k in range(3):
        here, a, b = triangles[:, k], triangles[:, (k + 1) % 3], triangles[:, (k + 2) % 3]
        u, v = points[a] - points[here], points[b] - points[here]
        twice = numpy.sqrt((numpy.cross(u, v) ** 2).sum(axis=1))
        mass += numpy.bincount(here, twice / 6, n)
        half = 0.5 * (u * v).sum(axis=1) / twice
        rows = numpy.concatenate([a, b, a, b])
        columns = numpy.concatenate([b, a, a, b])
        stiff = stiff + scipy.sparse.csr_matrix((numpy.concatenate([-half, -half, half, half]), (rows, columns)), (n, n))
    return mass, stiff


def order_matrix(mass, stiff, kappa, tau, alpha):
    K = stiff + numpy.diag(kappa ** 2 * mass)
    step = K / mass        # K C^-1
    Q = K
    for i in range(1, alpha):
        Q = step.dot(Q)
    return tau[:, numpy.newaxis] * Q * tau


def sphere_precision(mass, stiff, log_sigma, log_rho, alpha):
    kappa, tau = native(numpy.ones(len(mass)) * log_sigma, numpy.ones(len(mass)) * log_rho, alpha, 2)
    return order_matrix(mass, stiff, kappa, tau, alpha)


def line_precision(n, spacing, log_sigma, log_rho, alpha, H=1.0, wrap=False):
    """Precision of a field on equally spaced nodes of a line."""
    kappa, tau = native(log_sigma, log_rho, alpha, 1)
    K = numpy.eye(n) * (kappa ** 2 + 2 * H / spacing ** 2)
    for i in range(n - 1):
        K[i, i + 1] = K[i + 1, i] = -H / spacing ** 2
    if wrap:
        K[0, n - 1] = K[n - 1, 0] = -H / spacing ** 2
    return tau ** 2 * spacing * (K if alpha == 1 else K.dot(K))


def wendland(distance):
    r = numpy.minimum(1.0, numpy.abs(distance))
    return (1 - r) ** 6 * (35 * r ** 2 + 18 * r + 3) / 3


def line_weights(places, nodes, span, period=None):
    delta = numpy.abs(numpy.asarray(places, float).reshape(-1, 1) - numpy.asarray(nodes, float))
    if period:
        delta = delta % period
        delta = numpy.minimum(delta, period - delta)
    return wendland(delta / span)


def unit(polar):
    lat, lon = numpy.radians(polar[:, 0]), numpy.radians(polar[:, 1])
    return numpy.vstack([numpy.cos(lat) * numpy.cos(lon), numpy.cos(lat) * numpy.sin(lon), numpy.sin(lat)]).T


def sphere_weights(points, triangles, polar):
    """Weights of the vertices of the triangle holding each place, found by looking at all triangles."""
    corner = points[triangles]
    inverse = numpy.linalg.inv(numpy.swapaxes(corner, 1, 2))
    weights = numpy.einsum('tij,pj->pti', inverse, unit(polar))
    chosen = weights.min(axis=2).argmax(axis=1)
    result = numpy.zeros((len(polar), len(points)))
    for row, t in enumerate(chosen):
        w = weights[row, t]
        result[row, triangles[t]] = w / w.sum()
    return result


def slope(function, theta, index, step=1e-5):
    """Derivative of a matrix function from differences (fourth order)."""
    def at(k):
        shifted = numpy.array(theta, float)
        shifted[index] += k * step
        return dense(function(shifted))
    return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * step)


def derivative(mon, value, function, theta, index, what):
    expected = slope(function, theta, index)
    mon.close(dense(value), expected, what, rtol=1e-6, atol=1e-7 * max(numpy.abs(expected).max(), numpy.abs(dense(function(numpy.array(theta, float)))).max()))
    mon.count('derivatives')


def judge(mon, Q, expected, what):
    """A precision matrix has to be the expected one, symmetric and positive definite."""
    Q = dense(Q)
    scale = numpy.abs(expected).max()
    mon.check(numpy.isfinite(Q).all(), what + ': finite')
    mon.close(Q, expected, what, rtol=1e-8, atol=1e-11 * scale)
    mon.check(numpy.abs(Q - Q.T).max() <= 1e-11 * scale, what + ': symmetric')
    root = 1 / numpy.sqrt(numpy.abs(numpy.diag(Q)))
    eigen = numpy.linalg.eigvalsh(0.5 * (Q + Q.T) * root[:, numpy.newaxis] * root)
    # Smallest eigenvalues are below rounding of the largest in smooth fields of long range
    mon.check(eigen.min() > -1e-11, what + ': positive definite, eigenvalue %g' % eigen.min())
    bare = numpy.linalg.eigvalsh(0.5 * (expected + expected.T) * root[:, numpy.newaxis] * root)
    if bare.min() > 1e-8:
        mon.check(eigen.min() > 0, what + ': positive definite, eigenvalue %g' % eigen.min())
