"""The spherical mesh tiles the globe and locates every point in its triangle."""

import os
import sys

import iris
import netCDF4
import numpy
import scipy.spatial

import cpp
from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
from eustace.analysis.advanced_standard.stats.spde.spherical_view import SphereMeshViewGlobal, SphereMeshViewLocal, SphereMeshViewSuperTriangle
from eustace.analysis.mesh import writenetcdf
from eustace.analysis.mesh.geometry import barycentric_coordinates_spherical, cartesian_to_polar2d, polar2d_to_cartesian, triangle_circumcentre, vector_angle
from eustace.analysis.mesh.irisconnector import IrisCubeListToMesh, MeshToIrisCubeList
from eustace.analysis.mesh.locator import TriangleLocator, TriangleLocatorHierarchical
from eustace.analysis.mesh.mesh import MeshIcosahedronSubdivision

NEEDS = {'extension': True, 'cpp_harness': ['harness.cpp'], 'sanitize': True}
RULE = """Meshes of every level and orientation are built and their vertices, edges and triangles checked as a closed oriented triangulation
refining the one of the level before. Points of the sphere (anywhere, poles, date line, vertices, edges and points a rounding error beside
them) are located by all locators and design matrices; the monitor solves for the coordinates of each point in the vertices of the answer.
Mesh files are read back by Python and by the C++ reader (compiled with sanitizers). Non-trivial: points on edges or vertices next to points
inside."""
REQUIRED = {'meshes': 8, 'triangles': 20000, 'points': 20000, 'points on vertices': 1000, 'points on edges': 2000, 'poles': 30, 'exhaustive': 2000,
            'views': 10, 'view points outside': 100, 'files': 8, 'spherical coordinates': 1000, 'deep points': 10000, 'measured': 200}
ASSUMPTIONS = ['Rounding is allowed for: coordinates of a point in its triangle may be off by 1e-9', 'Spherical coordinates are judged off the edges of triangles, where they are defined']

MESH = {}


def mesh_of(level, project=True, centre=False):
    key = (level, project, centre)
    if key not in MESH:
        MESH[key] = MeshIcosahedronSubdivision.build(level, project_onto_sphere=project, face_centre_at_poles=centre)
    return MESH[key]


def corners(mesh, rows=slice(None)):
    return mesh.points[mesh.triangles[rows, 1:].astype(int)]


def coordinates(vertices, points):
    """Coordinates of points in triangles of the sphere: weights, summing to one, of the vertices."""
    c = numpy.linalg.solve(numpy.swapaxes(vertices, 1, 2), points[:, :, numpy.newaxis])[:, :, 0]
    return c / c.sum(axis=1)[:, numpy.newaxis]


def topology(rng, mon):
    index = mon.index
    level = index % (7 if mon.tier == 'quick' else 9)
    centre = bool((index // 7) % 2) if index < 14 else bool(rng.randint(2))
    project = index < 14 or bool(rng.randint(3))
    if not project:
        level = min(level, 4)
    mesh = mesh_of(level, project, centre)
    n = 4 ** level
    points, triangles, edges = mesh.points, mesh.triangles, mesh.edges
    mon.equal((points.shape, triangles.shape, edges.shape), ((10 * n + 2, 3), (20 * n, 4), (30 * n, 6)), 'size of the mesh')
    mon.equal(int(mesh.level), level, 'level')
    mon.check(numpy.isfinite(points).all(), 'points are finite')
    radius = numpy.linalg.norm(points, axis=1)
    if project:
        mon.close(radius, numpy.ones(len(points)), 'length of vertices', rtol=0, atol=1e-12)
    else:
        mon.check((radius < 1 + 1e-12).all() and (radius > 0.79).all(), 'vertices on the icosahedron')
    tree = scipy.spatial.cKDTree(points)
    nearest = tree.query(points, 2)[0][:, 1]
    mon.check((nearest > 0.4 / 2 ** level).all(), 'vertices apart: nearest %g' % nearest.min())
    corner = corners(mesh)
    volume = numpy.einsum('ij,ij->i', numpy.cross(corner[:, 0], corner[:, 1]), corner[:, 2])
    mon.check((volume < 0).all(), 'all triangles clockwise')
    # Euler and manifold: each directed edge once, its reverse once
    t = triangles[:, 1:].astype(int)
    directed = numpy.vstack([t[:, [0, 1]], t[:, [1, 2]], t[:, [2, 0]]])
    code = directed[:, 0] * len(points) + directed[:, 1]
    mon.equal(len(numpy.unique(code)), 60 * n, 'directed edges of triangles')
    mon.same(numpy.sort(code), numpy.sort(directed[:, 1] * len(points) + directed[:, 0]), 'every edge is shared by two triangles')
    mon.equal(len(numpy.unique(t)), len(points), 'vertices used')
    # triangle numbers and edge table
    number = triangles[:, 0]
    mon.same(number, (numpy.arange(20 * n).astype(numpy.uint64) << numpy.uint64(58 - 2 * level)), 'triangle numbers')
    e = edges.astype(int)
    forward = (edges[:, 2] >> numpy.uint64(58 - 2 * level)).astype(int)
    backward = (edges[:, 4] >> numpy.uint64(58 - 2 * level)).astype(int)
    at = numpy.arange(30 * n)
    mon.check(e[:, 3].max() < 3 and e[:, 5].max() < 3, 'edge numbers')
    if len(numpy.unique(e[:, 0] * len(points) + e[:, 1])) != 30 * n:
        mon.fail('an edge is listed twice')
    mon.same(t[forward, e[:, 3]], e[:, 0], 'start of edge in its first triangle')
    mon.same(t[forward, (e[:, 3] + 1) % 3], e[:, 1], 'end of edge in its first triangle')
    mon.same(t[backward, e[:, 5]], e[:, 1], 'start of edge in its second triangle')
    mon.same(t[backward, (e[:, 5] + 1) % 3], e[:, 0], 'end of edge in its second triangle')
    mon.check((forward != backward)[at].all(), 'two triangles of an edge')
    # solid angles
    a, b, c = corner[:, 0], corner[:, 1], corner[:, 2]
    if project:
        dot = lambda x, y: numpy.einsum('ij,ij->i', x, y)
        angle = 2 * numpy.arctan2(numpy.abs(volume), 1 + dot(a, b) + dot(b, c) + dot(c, a))
        mon.close(angle.sum(), 4 * numpy.pi, 'area of all triangles', rtol=1e-10)
        mon.check(angle.max() / angle.min() < 3.0, 'sizes of triangles')
    if level:
        parent = mesh_of(level - 1, project, centre)
        mon.same(points[:len(parent.points)], parent.points, 'vertices of the parent')
        up = numpy.arange(20 * n) // 4
        for k in range(3):
            w = coordinates(corners(parent)[up], corner[:, k])
            mon.check((w > -1e-9).all(), 'children inside their parents')
        size = numpy.abs(volume) if not project else angle
        if project:
            pc = corners(parent)
            a, b, c = pc[:, 0], pc[:, 1], pc[:, 2]
            whole = 2 * numpy.arctan2(numpy.abs(numpy.einsum('ij,ij->i', numpy.cross(a, b), c)), 1 + dot(a, b) + dot(b, c) + dot(c, a))
            mon.close(size.reshape(-1, 4).sum(axis=1), whole, 'children fill their parent', rtol=1e-8)
    mon.count('meshes')
    mon.count('triangles', 20 * n)
    if centre:
        middle = corners(mesh_of(0, True, True)).mean(axis=1)
        middle /= numpy.linalg.norm(middle, axis=1)[:, numpy.newaxis]
        mon.close([middle[:, 2].min(), middle[:, 2].max()], [-1.0, 1.0], 'poles at the centres of faces', rtol=0, atol=1e-12)
    turned, angle = MeshIcosahedronSubdivision.build(min(level, 2)), float(rng.uniform(-4, 4))
    before = turned.points.copy()
    turned.rotate_y(angle)
    x, y, z = before.T
    mon.close(turned.points, numpy.vstack([x * numpy.cos(angle) - z * numpy.sin(angle), y, x * numpy.sin(angle) + z * numpy.cos(angle)]).T, 'points turned about the y axis', rtol=0, atol=1e-12)
    mon.case(('mesh', level, project, centre), nontrivial=level > 0)


def some_points(rng, mon, level, centre=False):
    """Points of the sphere: anywhere and in the places that are hard."""
    mesh = mesh_of(level, True, centre)
    parts = []
    v = rng.normal(size=(60, 3))
    parts.append(v / numpy.linalg.norm(v, axis=1)[:, numpy.newaxis])
    for l in sorted(set([level, rng.randint(0, level + 1)])):
        m = mesh_of(int(l), True, centre)
        choose = rng.randint(0, len(m.points), 20)
        parts.append(m.points[choose])
        mon.count('points on vertices', len(choose))
        choose = rng.randint(0, len(m.edges), 40)
        s = rng.choice([0.5, 1e-9, 1e-3, 1e-16], (40, 1))
        s[20:] = rng.uniform(size=(20, 1))
        e = m.edges[choose].astype(int)
        v = m.points[e[:, 0]] * (1 - s) + m.points[e[:, 1]] * s
        parts.append(v / numpy.linalg.norm(v, axis=1)[:, numpy.newaxis])
        mon.count('points on edges', len(choose))
    beside = numpy.vstack(parts)
    beside = beside[rng.randint(0, len(beside), 40)] + rng.normal(size=(40, 3)) * 10.0 ** rng.randint(-17, -8, (40, 1))
    parts.append(beside / numpy.linalg.norm(beside, axis=1)[:, numpy.newaxis])
    points = numpy.vstack(parts)
    mon.check(numpy.isfinite(points).all(), 'points are finite')
    return mesh, points[rng.permutation(len(points))]


def judge(mon, mesh, index, weights, points, what):
    index = numpy.asarray(index).astype(int)
    mon.check((index >= 0).all() and (index < len(mesh.triangles)).all(), '%s: a triangle for every point' % what)
    expected = coordinates(corners(mesh, index), points)
    mon.check((expected > -1e-9).all(), lambda: '%s: point %s is outside its triangle: %s' % (what, points[expected.min(axis=1).argmin()].tolist(), expected.min()))
    if weights is None:
        return
    mon.check((weights >= 0).all(), '%s: weights are not negative' % what)
    mon.close(weights.sum(axis=1), numpy.ones(len(weights)), '%s: sum of weights' % what, rtol=0, atol=1e-12)
    mon.close(weights, expected, '%s: weights' % what, rtol=0, atol=1e-9)
    again = numpy.einsum('ij,ijk->ik', weights, corners(mesh, index))
    mon.close(again / numpy.linalg.norm(again, axis=1)[:, numpy.newaxis], points, '%s: point from weights' % what, rtol=0, atol=1e-9)


def locating(rng, mon):
    level, centre = rng.randint(0, 6 if mon.tier == 'quick' else 7), bool(rng.randint(2))
    mesh, points = some_points(rng, mon, level, centre)
    locator = TriangleLocatorHierarchical(mesh_of(0, True, centre))
    number, weights = locator.locate_vector_hierarchical(points, levels=level)
    judge(mon, mesh, number >> numpy.uint64(58 - 2 * level), weights, points, 'level %d' % level)
    # finer levels lie inside
    deep, fine = locator.locate_vector_hierarchical(points, levels=level + 3)
    mon.check((fine >= 0).all(), 'weights of finer triangles')
    judge(mon, mesh, deep >> numpy.uint64(58 - 2 * level), None, points, 'from a finer level')
    inside = weights.min(axis=1) > 1e-3
    if level:
        number, s = locator.locate_vector_hierarchical(points[inside], levels=level, evaluation_method=barycentric_coordinates_spherical)
        judge(mon, mesh, number >> numpy.uint64(58 - 2 * level), None, points[inside], 'with spherical coordinates')
    if level < 3:
        exhaustive = TriangleLocator(mesh)
        index = exhaustive.locate_vector_indices_exhaustive(points)
        judge(mon, mesh, index, exhaustive.barycentric_coordinates_at_indices(index, points), points, 'exhaustive at level %d' % level)
        s = exhaustive.barycentric_coordinates_at_indices(index[inside], points[inside], barycentric_coordinates_spherical)
        mon.check((s > 0).all(), 'spherical weights are positive')
        mon.close(s.sum(axis=1), numpy.ones(len(s)), 'sum of spherical weights')
        total = 2 * numpy.arctan2(*areas(corners(mesh, index[inside])))
        for k in range(3):
            part = corners(mesh, index[inside]).copy()
            part[:, k] = points[inside]
            mon.close(s[:, k], 2 * numpy.arctan2(*areas(part)) / total, 'spherical weights', rtol=1e-6, atol=1e-9)
        mon.count('spherical coordinates', len(s))
        mon.count('exhaustive', len(points))
        mon.raises(lambda: exhaustive.locate_vector_indices_exhaustive(points.ravel()), 'locating a flat array')
        mon.raises(lambda: exhaustive.barycentric_coordinates_at_indices(index[1:], points), 'coordinates with too few indices')
    mon.count('points', len(points))
    mon.case(('locate', level, centre, int((weights.min(axis=1) < 1e-12).sum())), nontrivial=True)


def descend(level, number):
    """Vertices of the triangle with a number, by halving the sides of its top triangle."""
    top = (number >> numpy.uint64(58)).astype(int)
    return top, [(number >> numpy.uint64(58 - 2 * i)).astype(int) & 3 for i in range(1, level + 1)]


def deep(rng, mon):
    """Down to the finest level, with one point or many."""
    centre = bool(rng.randint(2))
    level = int(rng.choice([7, 10, 15, 20, 24, 27, 28, 29]))
    count = int(rng.choice([1, 2, 150, 1500, 3000]))
    v = rng.normal(size=(count, 3))
    points = v / numpy.linalg.norm(v, axis=1)[:, numpy.newaxis]
    if rng.randint(3) == 0:
        points = points[:, ::-1][::-1]                  # another layout in memory
    scale = rng.choice([1.0, 0.5, 6371.0])
    given = points * scale
    before = given.copy()
    locator = TriangleLocatorHierarchical(mesh_of(0, True, centre))
    number, weights = locator.locate_vector_hierarchical(given) if level == 29 and rng.randint(2) else locator.locate_vector_hierarchical(given, levels=level)
    mon.same(given, before, 'points after locating')
    mon.equal(number.dtype, numpy.dtype(numpy.uint64), 'type of triangle numbers')
    mon.check((number & numpy.uint64((1 << (58 - 2 * level)) - 1) == 0).all(), 'numbers of level %d have no further digits' % level)
    top, steps = descend(level, number)
    mon.check((top < 20).all(), 'top triangles')
    a, b, c = [corners(mesh_of(0, True, centre), top)[:, k].copy() for k in range(3)]
    unit = lambda x: x / numpy.linalg.norm(x, axis=1)[:, numpy.newaxis]
    for step in steps:
        ab, bc, ca = unit((a + b) / 2), unit((b + c) / 2), unit((c + a) / 2)
        pick = lambda *choices: numpy.choose(step[:, numpy.newaxis], choices)
        a, b, c = pick(a, ab, ca, bc), pick(ab, b, bc, ca), pick(ca, bc, c, ab)
    # coordinates by differences, which keep their precision in small triangles
    e1, e2 = b - a, c - a
    n = numpy.cross(e1, e2)
    dot = lambda x, y: numpy.einsum('ij,ij->i', x, y)
    d = points * (dot(a, n) / dot(points, n))[:, numpy.newaxis] - a
    w1, w2 = dot(numpy.cross(d, e2), n) / dot(n, n), dot(numpy.cross(e1, d), n) / dot(n, n)
    expected = numpy.vstack([1 - w1 - w2, w1, w2]).T
    slack = 1e-9 + 1e-14 * 2 ** level
    mon.check((expected > -slack).all(), lambda: 'level %d: a point is outside its triangle by %g' % (level, -expected.min()))
    mon.check((weights >= 0).all(), 'level %d: weights are not negative' % level)
    mon.close(weights.sum(axis=1), numpy.ones(count), 'level %d: sum of weights' % level, rtol=0, atol=1e-12)
    mon.close(weights, expected, 'level %d: weights' % level, rtol=0, atol=10 * slack)
    # a step of the subdivision of a plane triangle keeps the point where it is
    inside = rng.dirichlet([1, 1, 1], count)
    plane = rng.normal(size=(3, 3))
    step = TriangleLocatorHierarchical.triangle_barycentre_subdivision_number(inside)
    mon.same(step.astype(int), numpy.where((inside > 0.5).any(axis=1), inside.argmax(axis=1), 3), 'parts of a triangle')
    finer = TriangleLocatorHierarchical.triangle_barycentre_subdivide(inside, step)
    ab, bc, ca = (plane[0] + plane[1]) / 2, (plane[1] + plane[2]) / 2, (plane[2] + plane[0]) / 2
    part = numpy.array([[plane[0], ab, ca], [ab, plane[1], bc], [ca, bc, plane[2]], [bc, ca, ab]])[step.astype(int)]
    mon.close(numpy.einsum('ij,ijk->ik', finer, part), inside.dot(plane), 'points by coordinates in the parts', rtol=0, atol=1e-12)
    mon.check((finer >= 0).all(), 'coordinates in the parts are not negative')
    mon.count('deep points', count)
    mon.case(('deep', level, centre, count), nontrivial=count > 1)


def measuring(rng, mon):
    """Angles, circumcentres and polar coordinates of vectors of any length."""
    n = int(rng.choice([1, 3, 40]))
    a, b = [rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-3, 3, (n, 1)) for _ in range(2)]
    unit = lambda x: x / numpy.linalg.norm(x, axis=-1)[..., numpy.newaxis]
    expected = numpy.degrees(2 * numpy.arctan2(numpy.linalg.norm(unit(a) - unit(b), axis=1), numpy.linalg.norm(unit(a) + unit(b), axis=1)))
    mon.close(vector_angle(a, b), expected, 'angle between vectors', rtol=0, atol=1e-5)
    mon.close(vector_angle(a[0], b[0]), expected[0], 'angle between two vectors', rtol=0, atol=1e-5)
    polar = cartesian_to_polar2d(a)
    mon.check((numpy.abs(polar[:, 0]) <= 90).all() and (numpy.abs(polar[:, 1]) <= 180).all(), 'ranges of polar coordinates')
    mon.close(polar2d_to_cartesian(polar), unit(a), 'direction from polar coordinates', rtol=0, atol=1e-7)
    corner = rng.normal(size=(n, 3, 3))
    centre = triangle_circumcentre(corner.reshape(n, 9))
    distance = numpy.linalg.norm(corner - centre[:, numpy.newaxis], axis=2)
    flat = numpy.cross(corner[:, 1] - corner[:, 0], corner[:, 2] - corner[:, 0])
    size = numpy.linalg.norm(flat, axis=1)
    good = size > 0.1
    mon.close(distance[good], numpy.repeat(distance[good][:, :1], 3, axis=1), 'distances of the circumcentre', rtol=1e-6)
    mon.close(numpy.einsum('ij,ij->i', centre - corner[:, 0], flat)[good] / size[good], numpy.zeros(good.sum()), 'circumcentre in the plane', rtol=0, atol=1e-6)
    mesh = mesh_of(rng.randint(0, 3))
    locator = TriangleLocator(mesh)
    v = unit(rng.normal(size=(n, 3)))
    index = locator.locate_vector_indices_exhaustive(v)
    for wrong, what in [((index[:-1], v), 'too few indices'), ((numpy.hstack([index, index]), v), 'too many indices'), ((index[:, numpy.newaxis], v), 'indices as a column'),
                        ((index, v[:, :2]), 'two coordinates'), ((index, v.ravel()), 'a flat array')]:
        mon.raises(lambda: locator.barycentric_coordinates_at_indices(*wrong), 'coordinates with ' + what)
    mon.raises(lambda: locator.locate_vector_indices_exhaustive(v[:, :2]), 'locating two coordinates')
    mon.count('measured', n)
    mon.case(('measure', n), nontrivial=n > 1)


def areas(corner):
    a, b, c = corner[:, 0], corner[:, 1], corner[:, 2]
    dot = lambda x, y: numpy.einsum('ij,ij->i', x, y)
    return numpy.abs(dot(numpy.cross(a, b), c)), 1 + dot(a, b) + dot(b, c) + dot(c, a)


def some_places(rng, mon, level):
    mesh, points = some_points(rng, mon, level)
    places = cartesian_to_polar2d(points)
    back = polar2d_to_cartesian(places)
    mon.close(back, points, 'polar coordinates', rtol=0, atol=1e-7)      # the arc sine is coarse at the poles
    n = 40
    extra = numpy.vstack([rng.choice([90.0, -90.0, 0.0, 45.0, 89.875, -89.875], n), rng.choice([0.0, 180.0, -180.0, 359.875, 360.0, 90.0, -90.0, 179.875], n)]).T
    mon.count('poles', int((numpy.abs(extra[:, 0]) == 90).sum()))
    places = numpy.vstack([places, extra, rng.uniform((-90, -180), (90, 360), (20, 2))])
    radians = numpy.radians(places)
    expected = numpy.vstack([numpy.cos(radians[:, 0]) * numpy.cos(radians[:, 1]), numpy.cos(radians[:, 0]) * numpy.sin(radians[:, 1]), numpy.sin(radians[:, 0])]).T
    return places, expected


def weights_of(mon, matrix, points, mesh, what):
    """A row of a design matrix has the weights of one triangle containing the point."""
    known = set()
    dense = matrix.toarray()
    mon.check((dense >= 0).all(), '%s: weights are not negative' % what)
    mon.close(dense.sum(axis=1), numpy.ones(len(dense)), '%s: sum of weights' % what, rtol=0, atol=1e-12)
    again = dense.dot(mesh.points)
    mon.close(again / numpy.linalg.norm(again, axis=1)[:, numpy.newaxis], points, '%s: point from weights' % what, rtol=0, atol=1e-9)
    order = numpy.sort(mesh.triangles[:, 1:].astype(int), axis=1)
    for t in order.tolist():
        known.add(tuple(t))
        known.update([(t[0], t[1]), (t[0], t[2]), (t[1], t[2]), (t[0],), (t[1],), (t[2],)])
    for i, row in enumerate(dense):
        mon.check(tuple(numpy.nonzero(row)[0].tolist()) in known, '%s: vertices of row %d form a triangle' % (what, i))


def designing(rng, mon):
    level = rng.randint(0, 5)
    places, points = some_places(rng, mon, level)
    form = str(rng.choice(['csr', 'csc']))
    spde = SphereMeshSPDE(level, sparse_format=form)
    mesh = mesh_of(level)
    mon.same(spde.triangulation.points, mesh.points, 'mesh of the process')
    a = spde.build_A(places)
    mon.equal((a.shape, a.format), ((len(places), len(mesh.points)), form), 'design matrix')
    weights_of(mon, a, points, mesh, 'level %d' % level)
    mon.equal(spde.n_latent_variables(), 10 * 4 ** level + 2, 'number of latent variables')
    mon.equal(SphereMeshSPDE.n_triangles_at_level(level), 20 * 4 ** level, 'number of triangles')
    # parts of the sphere
    coarse = rng.randint(0, level + 1)
    which = int(rng.randint(0, 20 * 4 ** coarse))
    kind = rng.randint(3)
    if kind == 0:
        view, inside = SphereMeshViewGlobal(level, sparse_format=form), numpy.ones(len(mesh.triangles), bool)
    elif kind == 1:
        view, inside = SphereMeshViewSuperTriangle(level, coarse, which, sparse_format=form), numpy.arange(len(mesh.triangles)) // 4 ** (level - coarse) == which
    else:
        big = mesh_of(coarse).triangles[:, 1:].astype(int)
        near = numpy.isin(big, big[which]).any(axis=1)
        view, inside = SphereMeshViewLocal(level, coarse, which, sparse_format=form), near[numpy.arange(len(mesh.triangles)) // 4 ** (level - coarse)]
    mon.same(view.active_triangle_indices, numpy.nonzero(inside)[0], 'triangles of the view')
    used = numpy.unique(mesh.triangles[inside, 1:].astype(int))
    mon.same(numpy.asarray(view.active_vertex_indices).astype(int), used, 'vertices of the view')
    mon.equal(view.n_latent_variables(), len(used), 'number of latent variables of the view')
    mapping = view.get_vertex_mappings()
    mon.same(mapping.toarray(), numpy.eye(len(mesh.points), dtype=int)[used], 'vertices of the view in the mesh')
    mapping = view.get_triangulation_mappings()
    mon.same(mapping.dot(numpy.arange(len(mesh.triangles))), numpy.nonzero(inside)[0], 'triangles of the view in the mesh')
    # triangle of each point: off the edges it is the only one whose coordinates are all positive
    full = a.toarray()
    clear = (full > 1e-9).sum(axis=1) == 3
    tri = {tuple(sorted(t)): i for i, t in enumerate(mesh.triangles[:, 1:].astype(int).tolist())}
    home = numpy.array([tri[tuple(numpy.nonzero(row > 1e-9)[0].tolist())] if c else -1 for row, c in zip(full, clear)])
    part = view.build_A(places).toarray()
    member = numpy.asarray(view.in_domain(places), bool)
    mon.same(member[clear], inside[home[clear]], 'points in the view')
    expected = numpy.where(member[:, numpy.newaxis], full[:, used], 0.0)
    mon.close(part, expected, 'design matrix of the view', rtol=0, atol=1e-9)
    mon.close(part[member].sum(axis=1), numpy.ones(member.sum()), 'sum of weights in the view', rtol=0, atol=1e-12)
    mon.count('views')
    mon.count('view points outside', int((~member).sum()))
    mon.count('points', len(places))
    mon.case(('design', level, form, kind, coarse, int(member.sum())), nontrivial=0 < member.sum() < len(member) or kind == 0)


class Future(object):
    """Takes settings that the installed iris no longer knows."""

    def __init__(self, real):
        self.__dict__['real'] = real

    def __getattr__(self, name):
        return getattr(self.real, name)


class Field(object):
    def __init__(self, name, data):
        self.var_name, self.data = name, data


def filing(rng, mon):
    """Mesh files."""
    level, centre = 7 if mon.index == 15 else mon.index % 5, bool(rng.randint(2))
    with mon.scratch() as path:
        name = os.path.join(path, 'mesh.nc')
        mesh = mesh_of(level, True, centre)
        if rng.randint(3) == 0:
            mesh, centre = mesh_of(level, True, True), True
            old, future = sys.argv, iris.FUTURE
            sys.argv = ['writenetcdf', name, '--subdivision', str(level)]
            iris.FUTURE = Future(future)
            try:
                writenetcdf.main()
            finally:
                sys.argv, iris.FUTURE = old, future
        else:
            iris.save(MeshToIrisCubeList(mesh), name)
        with netCDF4.Dataset(name) as data:
            data.set_auto_mask(False)
            fields = [Field(v, data.variables[v][...]) for v in data.variables]
            mon.equal(int(data.variables['Mesh2'].EUSTACE_subdivison_level), level, 'level in the file')
        for fieldlist in (fields, MeshToIrisCubeList(mesh)):
            again = IrisCubeListToMesh(fieldlist)
            mon.close(again.points, mesh.points, 'points read', rtol=0, atol=1e-12)
            mon.same(again.triangles, mesh.triangles, 'triangles read')
            mon.same(again.edges, mesh.edges, 'edges read')
        answer, missing = cpp.run(['mesh %s' % name, 'mesh %s.not' % name])
        mon.check(cpp.refused(missing), 'C++: a missing file is refused')
        mon.check(not cpp.refused(answer), 'C++: the mesh is read')
        for line in answer:
            if line.startswith('points'):
                mon.close(numpy.array(cpp.numbers(line, 1)).reshape(-1, 3), mesh.points, 'points read by C++', rtol=0, atol=1e-12)
            else:
                mon.same(numpy.array(cpp.numbers(line, 1)).astype(int).reshape(-1, 3), mesh.triangles[:, 1:].astype(int), 'triangles read by C++')
        mon.equal(sorted(line.split()[0] for line in answer), ['points', 'triangles'], 'C++ answer')
        mon.count('files')
        mon.case(('file', level, centre), nontrivial=level > 0)


SCENARIOS = [(topology, 20, 60), (locating, 150, 3000), (deep, 60, 2000), (measuring, 40, 1000), (designing, 60, 1200), (filing, 16, 60)]
