"""C06: points in polygons and triangles."""
from symx.run import case

import numpy as np
import resqpy.olio.point_inclusion as pip
import resqpy.olio.vector_utilities as vec

META = dict(
    title = 'Point in polygon and point in triangle tests agree with the geometry',
    statement = 'Every point inclusion function (crossing number, winding number, array forms, polygon and triangle forms, '
    'regular mesh point forms and the scan of a convex polygon) reports a point strictly inside a polygon as inside and a '
    'point outside as outside, whatever the vertex order, the start vertex and the alignment of the point with vertices. '
    'Polygon and point indices reported by list forms are those of the points inside, in order, each once. Points in a '
    'regular mesh are sampled on a triangle with the value of the plane of the triangle at the point.',
    text = 'any triangle, any quadrilateral (convex or not), any points off the boundary',
    why = 'failures need special alignments of the point with vertices or edges, or particular vertex orders',
    files = ['resqpy/olio/point_inclusion.py', 'resqpy/olio/vector_utilities.py'],
    mechanism = [('crossing and winding numbers', 'resqpy/olio/point_inclusion.py'),
                 ('triangle and mesh inclusion', 'resqpy/olio/vector_utilities.py')],
    observe = ['return values'],
    note = 'reals idealised; points closer than 0.01 (in cross product terms) to the boundary excluded; mesh of up to 3 x 3')


def orient(a, b, p):
    """positive if p lies to the left of a to b"""
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def off_edge(c, a, b, p):
    """p is not close to the segment"""
    o = orient(a, b, p)
    dot = (a[0] - p[0]) * (b[0] - p[0]) + (a[1] - p[1]) * (b[1] - p[1])
    return c.Or(o >= 0.01, o <= -0.01, c.And(o == 0, dot >= 0.01))


def in_tri(c, t, p):
    o = [orient(t[n], t[(n + 1) % 3], p) for n in range(3)]
    return c.Or(c.And(o[0] > 0, o[1] > 0, o[2] > 0), c.And(o[0] < 0, o[1] < 0, o[2] < 0))


def crossings_odd(c, poly, p):
    """even-odd rule without division: half open in y, ray to the right"""
    inside = None
    n = len(poly)
    terms = []
    for e in range(n):
        a, b = poly[e], poly[(e + 1) % n]
        o = orient(a, b, p)
        terms.append(c.Or(c.And(a[1] <= p[1], b[1] > p[1], o > 0), c.And(a[1] > p[1], b[1] <= p[1], o < 0)))
    for t in terms:
        inside = t if inside is None else c.Or(c.And(inside, c.Not(t)), c.And(t, c.Not(inside)))
    return inside


SHAPES = {
    # fixed polygons: convex, concave, with horizontal and vertical edges, both directions
    'square': [(0, 0), (4, 0), (4, 4), (0, 4)],
    'diamond': [(2, 0), (4, 2), (2, 4), (0, 2)],
    'arrow': [(0, 0), (4, 2), (0, 4), (1, 2)],
    'ell': [(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)],
    'vee': [(0, 4), (2, 0), (4, 4), (2, 2)],
    'comb': [(0, 0), (6, 0), (6, 4), (5, 2), (4, 4), (3, 2), (2, 4), (1, 2), (0, 3)],
}


def _tri(c, lo = -8, hi = 8, name = 't'):
    t = c.reals(name, (3, 2), lo, hi)
    return t


def _pt(c, lo = -10, hi = 10, name = 'p'):
    return c.reals(name, 2, lo, hi)


def _off(c, poly, p):
    n = len(poly)
    for e in range(n):
        c.assume(off_edge(c, poly[e], poly[(e + 1) % n], p))


FORMS = ('pip_cn', 'pip_wn', 'pip_array_cn', 'polygon', 'triangle')
# pairs of vertices around the point (1, 0.5), some aligned with it
PAIRS = [[(-3, -2), (4, -1)], [(0, 0.5), (5, 3)], [(1, 4), (-2, -5)], [(3, -2), (3, 5)], [(-4, 2), (6, 2)], [(4, 0.5), (1, -3)],
         [(-2, 0.5), (5, 0.5)]]


def _inclusion(fn, p, poly):
    if fn == 'pip_array_cn':
        return pip.pip_array_cn(p.reshape((1, 2)), poly)[0]
    if fn == 'polygon':
        return vec.point_in_polygon(p[0], p[1], poly)
    if fn == 'triangle':
        return vec.point_in_triangle(p[0], p[1], poly)
    return getattr(pip, fn)(p, poly)


@case('C06', bounds = 'triangles with two given vertices (7 pairs, some level with the point) and any third, in any order', params = [
    dict(fn = f) for f in FORMS])
def triangle(c, fn):
    pair = c.choice('pair', PAIRS)
    v = c.reals('v', 2, -8, 8)
    k = c.choice('k', range(3))
    tri = [pair[0], pair[1]]
    tri.insert(k, (v[0], v[1]))
    t, p = c.array(tri, dtype = float), np.array([1.0, 0.5])
    area = orient(t[0], t[1], t[2])
    c.assume(c.Or(area >= 0.01, area <= -0.01))
    _off(c, t, p)
    r = _inclusion(fn, p, t)
    c.check(fn + ' is geometric inclusion', c.Iff(r, in_tri(c, t, p)))
    c.record('r', r)


@case('C06', bounds = 'any triangle in [-8, 8]^2 and a given point', params = [dict(fn = f) for f in FORMS if f != 'pip_array_cn'],
      tier = 'thorough', timeout_ms = 60000)
def any_triangle(c, fn):
    # the geometry is translation invariant, so the point is fixed; other cases vary it
    t, p = _tri(c), np.array([1.0, 0.5])
    area = orient(t[0], t[1], t[2])
    c.assume(c.Or(area >= 0.01, area <= -0.01))
    _off(c, t, p)
    r = _inclusion(fn, p, t)
    c.check(fn + ' is geometric inclusion', c.Iff(r, in_tri(c, t, p)))
    c.record('r', r)


@case('C06', bounds = 'any two triangles on any four points', params = [dict(proj = pr) for pr in ('xy', 'xz', 'yz')])
def clockwise(c, proj):
    ax = ['xyz'.index(x) for x in proj]
    p = c.reals('p', (4, 3), -8, 8)
    tri = np.array([(0, 1, 2), (3, 2, 0)], dtype = int)
    cw = vec.clockwise_triangles(p, tri, projection = proj)
    q = p[:, ax]
    for n in range(2):
        a, b, d = tri[n]
        c.close('clockwise value', cw[n], -orient(q[a], q[b], q[d]))
    c.close('clockwise of three', vec.clockwise(p[0], p[1], p[2]), -orient(p[0], p[1], p[2]))


@case('C06', bounds = 'a triangle with two given vertices and any third, in either winding, two points (7 pairs)', params = [
    dict(edged = e, proj = pr) for e in (False, True) for pr in ('xy', 'xz', 'yz')])
def signed(c, edged, proj):
    ax = ['xyz'.index(x) for x in proj]
    pair = c.choice('pair', PAIRS)
    v = c.reals('v', 2, -8, 8)
    k = c.choice('k', range(3))
    t2 = [pair[0], pair[1]]
    t2.insert(k, (v[0], v[1]))
    d2 = [(1.0, 0.5), (2.0, 2.0)]
    cols = 2 if proj == 'xy' and edged else 3
    p3, d3 = np.full((4, cols), 7.5), np.full((2, cols), -3.5)
    p3, d3 = c.array(p3, dtype = float), c.array(d3, dtype = float)
    for n in range(3):
        p3[n + 1, ax[0]], p3[n + 1, ax[1]] = t2[n]
    for n in range(2):
        d3[n, ax[0]], d3[n, ax[1]] = d2[n]
    area = orient(t2[0], t2[1], t2[2])
    c.assume(c.Or(area >= 0.01, area <= -0.01))
    for n in range(2):
        _off(c, t2, d2[n])
    tri = np.array([(1, 2, 3), (3, 2, 1)], dtype = int)
    r = vec.points_in_triangles(p3, tri, d3, projection = proj, edged = edged)
    c.same('shape', c.shape(r), (2, 2))
    for n in range(2):
        c.check('inside', c.Iff(r[0, n], in_tri(c, t2, d2[n])))
        c.check('inside, other winding', c.Iff(r[1, n], in_tri(c, t2, d2[n])))
    if proj == 'xy' and area > 0:
        f = vec.in_triangle_edged if edged else vec.in_triangle
        c.check('in_triangle of ccw points', c.Iff(f(p3[1], p3[2], p3[3], d3[0]), in_tri(c, t2, d2[0])))
    c.record('r', r)


@case('C06', bounds = 'points on the boundary of any triangle', params = [dict(k = 0), dict(k = 1), dict(k = 2)])
def edged(c, k):
    t = _tri(c)
    area = orient(t[0], t[1], t[2])
    c.assume(area >= 0.01)
    f = c.real('f', 0, 1)
    p = t[k] + f * (t[(k + 1) % 3] - t[k])
    # exact in reals only, so not sampled
    if c.symbolic:
        c.check('boundary point included when edged', vec.in_triangle_edged(t[0], t[1], t[2], p))
        c.check('boundary point excluded when not edged', c.Not(vec.in_triangle(t[0], t[1], t[2], p)))


@case('C06', bounds = 'fixed simple polygons, convex and concave, any start vertex and direction, any point off the boundary',
      params = [dict(shape = s) for s in SHAPES])
def polygon(c, shape):
    base = SHAPES[shape]
    n = len(base)
    start = c.choice('start', range(n) if c.tier == 'thorough' else sorted({0, 1, n - 1} if n < 8 else {1}))
    poly = base[start:] + base[:start]
    if c.choice('reverse', [False, True]):
        poly = poly[::-1]
    poly = np.array(poly, dtype = float)
    p = _pt(c, -2, 8)
    _off(c, poly, p)
    want = crossings_odd(c, poly, p)
    r = [pip.pip_cn(p, poly), pip.pip_wn(p, poly), pip.pip_array_cn(p.reshape((1, 2)), poly)[0],
         vec.point_in_polygon(p[0], p[1], poly)]
    for name, x in zip(('crossing number', 'winding number', 'array crossing number', 'point_in_polygon'), r):
        c.check(name, c.Iff(x, want))
    c.record('r', r)


@case('C06', bounds = 'quadrilaterals of any shape with two given opposite vertices (7 pairs) and any other two', params = [
    dict(fn = f) for f in FORMS if f != 'triangle' and f != 'pip_wn'])
def quadrilateral(c, fn):
    pair = c.choice('pair', PAIRS)
    v = c.reals('v', (2, 2), -8, 8)
    q = c.array([pair[0], (v[0, 0], v[0, 1]), pair[1], (v[1, 0], v[1, 1])], dtype = float)
    p = np.array([1.0, 0.5])
    _off(c, q, p)
    r = _inclusion(fn, p, q)
    c.check('even odd rule', c.Iff(r, crossings_odd(c, q, p)))
    c.record('r', r)


@case('C06', bounds = 'two overlapping triangles, 4 points of which one anywhere off the edges', params = [
    dict(xlen = 1), dict(xlen = 2), dict(xlen = 4)])
def lists(c, xlen):
    tris = np.array([[(0, 0), (4, 0), (2, 3)], [(1, 1), (1, 5), (6, 2)]], dtype = float)
    n = 4
    v = c.reals('p', 2, -2, 8)
    pts = [(2.0, 1.0), (1.4, 3.0), (2.0, 2.5)]
    pts.insert(c.choice('k', [0, 1, 3]), (v[0], v[1]))
    pts = c.array(pts, dtype = float)
    want = []
    for k in range(2):
        for m in range(n):
            _off(c, tris[k], pts[m])
    for k in range(2):
        for m in range(n):
            if in_tri(c, tris[k], pts[m]):
                want.append([k, m // xlen, m % xlen])
    want = np.array(want, dtype = int).reshape((-1, 3))
    c.same('points_in_triangles_njit', vec.points_in_triangles_njit(pts, tris, xlen), want)
    c.same('points_in_polygons', vec.points_in_polygons(pts, tris, xlen), want)
    c.same('points_in_triangle', vec.points_in_triangle(pts, tris[1], xlen, 7)[:, 1:], want[want[:, 0] == 1][:, 1:])
    c.same('points_in_polygon', vec.points_in_polygon(pts, tris[0], xlen, 7)[:, 1:], want[want[:, 0] == 0][:, 1:])


def _mesh_forms(c, nx, ny, dx, dy, tris, which):
    if which == 'basic':
        return vec.points_in_triangles_aligned(nx, ny, dx, dy, tris), None
    if which == 'old':
        return vec.points_in_triangles_aligned_optimised_old(nx, ny, dx, dy, tris), None
    if which == 'serial':
        return vec.points_in_triangles_aligned_optimised_serial(nx, ny, dx, dy, tris), None
    if which == 'optimised':
        return vec.points_in_triangles_aligned_optimised(nx, ny, dx, dy, tris), None


@case('C06', bounds = 'a triangle with one vertex anywhere over a mesh of 2 x 3 points', params = [
    dict(which = w, base = b, _tier = 'quick' if (w, b) in (('basic', 2), ('serial', 1), ('optimised', 2)) else 'thorough')
    for w in ('basic', 'serial', 'optimised') for b in (0, 1, 2)])
def mesh(c, which, base):
    nx, ny = 3, 2
    dx, dy = 2.0, 3.0
    fixed = [[(0.3, 0.7), (5.1, 1.9)], [(1.2, 5.3), (1.2, 0.2)], [(-2.0, 2.4), (7.5, 2.9)]][base]
    v = c.reals('v', 2, -1, 7)
    t0 = [fixed[0], fixed[1], (v[0], v[1])]
    area = orient(*t0)
    c.assume(c.Or(area >= 0.01, area <= -0.01))
    order = [(0, 1, 2), (1, 2, 0), (2, 1, 0)][base]
    far = [(100.0, 100.0), (101.0, 100.0), (100.0, 101.0)]
    tris = c.array([far, [t0[o] for o in order]], dtype = float)
    centres = [(i, j, ((i + 0.5) * dx, (j + 0.5) * dy)) for j in range(ny) for i in range(nx)]
    for i, j, p in centres:
        _off(c, t0, p)
    got, _ = _mesh_forms(c, nx, ny, dx, dy, tris, which)
    rows = sorted([tuple(int(x) for x in r) for r in got]) if len(got) else []
    c.check('each once', len(rows) == len(set(rows)))
    for i, j, p in centres:
        c.check('mesh point listed exactly when inside', c.Iff((1, j, i) in rows, in_tri(c, t0, p)))
    c.check('no other rows', all(r[0] == 1 and 0 <= r[1] < ny and 0 <= r[2] < nx for r in rows))


@case('C06', bounds = 'triangles in space over a mesh of 2 x 3 points: one vertex moving along any axis; all axis assignments',
      params = [dict(axes = a, base = b, move = m) for a, b, m in (
          ((0, 1, 2), 0, 0), ((1, 2, 0), 1, 1), ((2, 0, 1), 2, 0), ((0, 1, 2), 1, 0), ((0, 1, 2), 2, 1), ((1, 0, 2), 0, 1),
          ((0, 2, 1), 0, 2), ((2, 1, 0), 1, 2))])
def mesh_sampled(c, axes, base, move):
    ax, ay, az = axes
    nx, ny = 3, 2
    fixed = [[(-0.35, -0.27, 5.0), (2.05, 0.13, 7.0)], [(0.1, 1.26, 5.0), (0.1, -0.43, 3.0)],
             [(-1.5, 0.3, 4.0), (3.25, 0.47, 1.0)]][base]
    v = [1.7, 1.4, 11.0]
    v[move] = c.real('v', -1, 3)
    t0 = [fixed[0], fixed[1], tuple(v)]
    area = orient(*t0)
    c.assume(c.Or(area >= 0.01, area <= -0.01))
    orders = [(0, 1, 2), (1, 2, 0), (2, 1, 0)]
    order = c.choice('order', orders if c.tier == 'thorough' else [orders[(base + move) % 3]])
    tri = c.zeros((1, 3, 3))
    for n, o in enumerate(order):
        tri[0, n, ax], tri[0, n, ay], tri[0, n, az] = t0[o][0], t0[o][1], t0[o][2]
    centres = [(i, j, (float(i), float(j))) for j in range(ny) for i in range(nx)]
    for i, j, p in centres:
        _off(c, t0, p)
    got, z = vec.points_in_triangles_aligned_unified(nx, ny, ax, ay, az, tri)
    rows = [tuple(int(x) for x in r) for r in got] if len(got) else []
    c.check('each once', len(rows) == len(set(rows)))
    for i, j, p in centres:
        c.check('mesh point listed exactly when inside', c.Iff((0, j, i) in rows, in_tri(c, t0, p)))
    for r, zz in zip(rows, z):
        p = (float(r[2]), float(r[1]))
        w = [orient(t0[(n + 1) % 3], t0[(n + 2) % 3], p) for n in range(3)]
        c.close('sampled on the plane of the triangle', zz * area, sum([w[n] * t0[n][2] for n in range(3)]))


@case('C06', bounds = 'triangles with one vertex anywhere (quick: at 3 x values), 3 x 3 pixels', params = [dict(k = 0), dict(k = 1)])
def scan(c, k):
    fixed = [[(0.3, 0.2), (3.1, 0.4)], [(0.5, 2.6), (0.5, 0.7)]][k]
    v = (c.choice('x', [-1.7, 0.45, 1.7, 4.65]), c.real('v', -1, 4)) if c.tier != 'thorough' else c.reals('v', 2, -1, 4)
    poly = [fixed[0], fixed[1], (v[0], v[1])]
    area = orient(*poly)
    c.assume(c.Or(area >= 0.01, area <= -0.01))
    px = [(i, j, (0.25 + 1.0 * i, 0.5 + 0.75 * j)) for j in range(3) for i in range(3)]
    for i, j, p in px:
        _off(c, poly, p)
    r = pip.scan((0.25, 0.5), 4, 3, 1.0, 0.75, poly)
    for i, j, p in px:
        c.check('pixel inside exactly when its point is', c.Iff(r[j, i], in_tri(c, poly, p)))
