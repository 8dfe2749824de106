"""C12: vector, intersection and distance functions agree with Euclidean geometry."""
from symx.run import case
import math
import numpy as np
import resqpy.olio.intersection as meet
import resqpy.olio.simple_lines as sl
import resqpy.olio.vector_utilities as vec

META = dict(
    title = 'Vector, rotation, intersection and distance functions agree with geometry',
    statement = 'The point returned for a line and a plane, a triangle or another line lies on both, and one is returned '
    'exactly when they meet within the stated bounds of segment and triangle, in the single, array and polyline forms alike, '
    'with the line and triangle lists, last and first intersections derived from them agreeing. Distances, projections, '
    'orientation, circumcircle and area functions give the Euclidean values, rotations and tilts are the rigid rotations by '
    'the stated angles, and azimuths and inclinations are those of the vector.',
    text = 'any position of the moving points, any angle, any lengths',
    why = 'each function has single, array and compiled forms with their own boundary handling, and all geometry processing '
    'is built upon them',
    files = ['resqpy/olio/intersection.py', 'resqpy/olio/vector_utilities.py', 'resqpy/olio/simple_lines.py'],
    mechanism = [('line and triangle intersection', 'resqpy/olio/intersection.py'),
                 ('vector utilities', 'resqpy/olio/vector_utilities.py')],
    observe = ['points, angles, matrices and indices returned'],
    note = 'one or two points move at a time, others are from a list of configurations; boundaries avoided by a small margin')

LO, HI = -50.0, 50.0
M = 1.0e-4
TRIS = [[(0, 0, 0), (10, 1, 2), (3, 9, -1)], [(0, 0, 5), (2, 11, 7), (12, -1, 3)], [(1, 1, 1), (1, 8, 2), (1.5, 2, 9)]]
VS = [(0, 0, 1), (1, 0.5, -2), (-3, 0.25, 0.5)]


def _solve(T, v):
    """inverse of the matrix of columns p01, p02, -v"""
    cols = [[float(b - a) for a, b in zip(T[0], T[n])] for n in (1, 2)] + [[-float(x) for x in v]]
    m = [[cols[j][i] for j in range(3)] for i in range(3)]

    def cof(i, j):
        a, b = [n for n in range(3) if n != i], [n for n in range(3) if n != j]
        return (-1.0)**(i + j) * (m[a[0]][b[0]] * m[a[1]][b[1]] - m[a[0]][b[1]] * m[a[1]][b[0]])

    det = sum(m[0][j] * cof(0, j) for j in range(3))
    return [[cof(j, i) / det for j in range(3)] for i in range(3)]


def _uvt(c, inv, T, p):
    d = [p[a] - T[0][a] for a in range(3)]
    return [sum(inv[r][a] * d[a] for a in range(3)) for r in range(3)]


def _clear(c, u, v, t, ends):
    for x in (u, v, 1.0 - u - v) + ((t, 1.0 - t) if ends else ()):
        c.assume(c.Or(x >= M, x <= -M))


def _within(c, u, v, t, ends, lt = 0.0, tt = 0.0):
    # the triangle is extended by a fraction in the way the tolerance is documented: u, v and their sum
    w = c.And(u > -tt, v > -tt, u + v < 1.0 + tt, u < 1.0 + tt)
    return c.And(w, t > -lt, t < 1.0 + lt) if ends else w


def _isnan(c, x):
    return bool(np.isnan(x))


@case('C12', bounds = 'any point of the line, 3 triangles x 2 directions', params = [
    dict(tri = t, d = d, seg = s) for t in range(3) for d in range(3) for s in (False, True)
    if (t, d) in ((0, 0), (0, 1), (1, 1), (2, 2))])
def line_triangle(c, tri, d, seg):
    T, v = TRIS[tri], VS[d]
    inv = _solve(T, v)
    p = c.reals('p', 3, LO, HI)
    u, w, t = _uvt(c, inv, T, p)
    _clear(c, u, w, t, seg)
    Ta = c.array(np.array(T, dtype = float))
    va = c.array(np.array(v, dtype = float))
    want = _within(c, u, w, t, seg)
    plane = meet.line_plane_intersect(p, va, Ta)
    for a in range(3):
        c.close('on plane', plane[a], p[a] + t * v[a], 1.0e-5)
    for nm, fn in (('single', meet.line_triangle_intersect), ('compiled', meet.line_triangle_intersect_numba)):
        q = fn(p, va, Ta, line_segment = seg)
        c.check(f'{nm} found exactly when it meets', c.Iff(q is not None, want))
        if q is not None:
            for a in range(3):
                c.close(f'{nm} point', q[a], p[a] + t * v[a], 1.0e-5)
    Tb = [T, [(T[0][0], T[0][1], T[0][2]), T[2], T[1]], [(a[0] + 100, a[1], a[2]) for a in T]]
    far = _uvt(c, _solve(Tb[2], v), Tb[2], p)
    _clear(c, *far, seg)
    wants = [want, want, _within(c, *far, seg)]
    ts = [t, t, far[2]]
    many = meet.line_triangles_intersects(p, va, c.array(np.array(Tb, dtype = float)), line_segment = seg)
    lines = meet.line_set_triangles_intersects(p.reshape((1, 3)), va if seg else va.reshape((1, 3)),
                                               c.array(np.array(Tb, dtype = float)), line_segment = seg)
    for n in range(3):
        for nm, r in (('many', many[n]), ('set', lines[0, n])):
            hit = not _isnan(c, r[0])
            c.check(f'{nm} {n} found exactly when it meets', c.Iff(hit, wants[n]))
            for a in range(3):
                if hit:
                    c.close(f'{nm} {n} point', r[a], p[a] + ts[n] * v[a], 1.0e-5)
                else:
                    c.check(f'{nm} {n} nan', _isnan(c, r[a]))
    idx = meet.intersects_indices(many)
    c.same('indices', [int(x) for x in idx], [n for n in range(3) if not _isnan(c, many[n, 0])])


@case('C12', bounds = 'any point of the line, tolerances 0 to 0.5', params = [dict(d = 0), dict(d = 1)])
def tolerances(c, d):
    T, v = TRIS[d], VS[1]
    inv = _solve(T, v)
    p = c.reals('p', 3, LO, HI)
    lt, tt = c.real('l tol', 0, 0.5), c.real('t tol', 0, 0.5)
    u, w, t = _uvt(c, inv, T, p)
    for x in (u + tt, w + tt, 1.0 + tt - u - w, 1.0 + tt - u, t + lt, 1.0 + lt - t):
        c.assume(c.Or(x >= M, x <= -M))
    want = _within(c, u, w, t, True, lt, tt)
    for nm, fn in (('single', meet.line_triangle_intersect), ('compiled', meet.line_triangle_intersect_numba)):
        q = fn(p, c.array(np.array(v, dtype = float)), c.array(np.array(T, dtype = float)), line_segment = True,
               l_tol = lt, t_tol = tt)
        c.check(f'{nm} found exactly when it meets', c.Iff(q is not None, want))


@case('C12', bounds = 'vertical line anywhere, triangle with any z values; and lines parallel to the plane')
def tilted_triangle(c):
    z = c.reals('z', 3, LO, HI)
    T = c.array(np.array([(0, 0, 0), (10, 1, 0), (3, 9, 0)], dtype = float))
    for n in range(3):
        T[n, 2] = z[n]
    p = c.reals('p', 3, LO, HI)
    u, w = (9.0 * p[0] - 3.0 * p[1]) / 87.0, (10.0 * p[1] - p[0]) / 87.0
    _clear(c, u, w, None, False)
    v = c.array(np.array((0.0, 0.0, -2.0)))
    q = meet.line_triangle_intersect(p, v, T)
    c.check('found exactly when over the triangle', c.Iff(q is not None, c.And(u > 0, w > 0, u + w < 1)))
    if q is not None:
        c.same('x', q[0], p[0])
        c.same('y', q[1], p[1])
    flat = c.array(np.array([(0, 0, 3), (10, 1, 3), (3, 9, 3)], dtype = float))
    h = c.array(np.array((1.0, 2.0, 0.0)))
    c.check('parallel plane', meet.line_plane_intersect(p, h, flat) is None)
    c.check('parallel', meet.line_triangle_intersect(p, h, flat) is None)
    c.check('parallel compiled', meet.line_triangle_intersect_numba(p, h, flat) is None)
    c.check('parallel many', bool(np.all(np.isnan(meet.line_triangles_intersects(p, h, flat.reshape((1, 3, 3)))))))


@case('C12', bounds = '2 lines x 3 triangles, any combination of intersections')
def intersection_lists(c):
    h = c.bools('hit', (2, 3))
    xyz = c.reals('x', (2, 3, 3), LO, HI)
    a = c.zeros((2, 3, 3))
    hit = {}
    for n in np.ndindex(2, 3):
        hit[n] = bool(c.fix(h[n]))
        for x in range(3):
            a[n + (x,)] = xyz[n + (x,)] if hit[n] else math.nan
    ls, ts, ps = meet.distilled_intersects(a)
    pairs = [n for n in sorted(hit) if hit[n]]
    c.same('pairs', [(int(x), int(y)) for x, y in zip(ls, ts)], pairs)
    for m, n in enumerate(pairs):
        c.same(f'point {n}', ps[m], xyz[n])
    c.same('points', len(ps), len(pairs))
    last = meet.last_intersects(a)
    for ln in range(2):
        mine = [n for n in pairs if n[0] == ln]
        if mine:
            c.same(f'last {ln}', last[ln], xyz[mine[-1]])
        else:
            c.check(f'no last {ln}', bool(np.all(np.isnan(last[ln]))))
        t, q = meet.triangles_for_line(a, ln)
        c.same(f'triangles {ln}', [int(x) for x in t], [n[1] for n in mine])
        for m, n in enumerate(mine):
            c.same(f'line {ln} point {m}', q[m], xyz[n])
    for tn in range(3):
        mine = [n for n in pairs if n[1] == tn]
        t, q = meet.lines_for_triangle(a, tn)
        c.same(f'lines {tn}', [int(x) for x in t], [n[0] for n in mine])
        for m, n in enumerate(mine):
            c.same(f'triangle {tn} point {m}', q[m], xyz[n])


@case('C12', bounds = 'polyline of 4 points, two with any heights, over 2 triangles, any start', params = [
    dict(start = s, move = m) for s in range(3) for m in range(3) if (s, m) != (0, 1)])
def polyline(c, start, move):
    z = [[-4.0, 3.0, 9.0, -6.0], [10.0, 8.0, 2.0, 11.0], [1.0, 4.0, 20.0, 30.0]][move]
    for n in (move, move + 1):
        z[n] = c.real(f'z{n}', LO, HI)
    xy = [(2, 1), (4, 2.5), (5, 3), (3, 5)]
    P = c.zeros((4, 3))
    for n in range(4):
        P[n, 0], P[n, 1], P[n, 2] = xy[n][0], xy[n][1], z[n]
    # two horizontal triangles, one above the other, which contain all the xy points
    H = [0.0, 7.0]
    T = c.array(np.array([[(-20, -20, h), (60, -10, h), (0, 60, h)] for h in H]))
    for n in range(4):
        for h in H:
            c.assume(c.Or(z[n] >= h + 0.01, z[n] <= h - 0.01))
    for n in range(3):
        c.assume(c.Or(z[n + 1] - z[n] >= 0.01, z[n + 1] - z[n] <= -0.01))
    X = {(n, m): c.Or(c.And(z[n] < h, h < z[n + 1]), c.And(z[n] > h, h > z[n + 1])) for n in range(3) for m, h in enumerate(H)}
    if start == 0:
        a = meet.poly_line_triangles_intersects(P, T)
        for (n, m), want in X.items():
            hit = not _isnan(c, a[n, m, 0])
            c.check(f'{n} {m}', c.Iff(hit, want))
            if hit:
                c.close(f'height {n} {m}', a[n, m, 2], H[m], 1.0e-5)
                f = (a[n, m, 0] - xy[n][0]) * (z[n + 1] - z[n])
                c.close(f'on segment {n} {m}', f, (H[m] - z[n]) * (xy[n + 1][0] - xy[n][0]), 1.0e-3)
    s, q = meet.poly_line_triangles_first_intersect(P, T, start = start)
    if s is None:
        c.check('none', c.Not(c.Or(*[X[n, m] for n in range(start, 3) for m in range(2)])))
        c.check('no point', q is None)
    else:
        s = int(s)
        c.check('from start', s >= start)
        c.check('first', c.And(c.Or(*[X[s, m] for m in range(2)]),
                               *[c.Not(X[n, m]) for n in range(start, s) for m in range(2)]))
        c.check('on a crossed triangle', c.Or(*[c.And(X[s, m], q[2] - H[m] <= 1.0e-5, q[2] - H[m] >= -1.0e-5)
                                                for m in range(2)]))


@case('C12', bounds = 'any position of the first line, 3 pairs of directions', params = [
    dict(d = d, mode = m) for d in range(3) for m in ('unbounded', 'segments', 'half')])
def line_line(c, d, mode):
    dx, dy = [(4.0, 1.0), (0.0, -3.0), (-2.0, 5.0)][d]
    x3, y3, x4, y4 = [(0.0, 0.0, 1.0, 6.0), (1.0, 2.0, 9.0, 2.0), (3.0, 1.0, -4.0, 2.0)][d]
    x1, y1 = c.real('x', LO, HI), c.real('y', LO, HI)
    r = meet.line_line_intersect(x1, y1, x1 + dx, y1 + dy, x3, y3, x4, y4, line_segment = mode != 'unbounded',
                                 half_segment = mode == 'half')
    ex, ey = x4 - x3, y4 - y3
    det = dx * ey - dy * ex
    t = ((x3 - x1) * ey - (y3 - y1) * ex) / det
    u = ((x3 - x1) * dy - (y3 - y1) * dx) / det
    for q in (t, 1.0 - t, u, 1.0 - u):
        c.assume(c.Or(q >= M, q <= -M))
    want = {'unbounded': True, 'segments': c.And(t > 0, t < 1, u > 0, u < 1),
            'half': c.And(t > 0, u > 0, u < 1)}[mode]
    c.check('both or neither', (r[0] is None) == (r[1] is None))
    c.check('found exactly when they meet', c.Iff(r[0] is not None, want))
    if r[0] is not None:
        c.close('x', r[0], x1 + t * dx, 1.0e-5)
        c.close('y', r[1], y1 + t * dy, 1.0e-5)
    p = meet.line_line_intersect(x1, y1, x1 + dx, y1 + dy, x3, y3, x3 + dx, y3 + dy, line_segment = mode == 'segments')
    c.check('parallel', p[0] is None and p[1] is None)


@case('C12', bounds = 'any point, 3 segments', params = [dict(d = d) for d in range(3)])
def point_line(c, d):
    l1, l2 = [((0.0, 0.0), (6.0, 2.0)), ((3.0, -1.0), (3.0, 7.0)), ((4.0, 5.0), (-4.0, 5.0))][d]
    p = c.reals('p', 3, LO, HI)
    a1, a2 = c.array(np.array(l1 + (7.0,))), c.array(np.array(l2 + (-9.0,)))
    dx, dy = l2[0] - l1[0], l2[1] - l1[1]
    n2 = dx * dx + dy * dy
    t = ((p[0] - l1[0]) * dx + (p[1] - l1[1]) * dy) / n2
    for q in (t, 1.0 - t):
        c.assume(c.Or(q >= M, q <= -M))
    h = ((p[0] - l1[0]) * dy - (p[1] - l1[1]) * dx) / math.sqrt(n2)
    q = meet.point_projected_to_line_2d(p, a1, a2)
    c.close('projected x', q[0], l1[0] + t * dx, 1.0e-5)
    c.close('projected y', q[1], l1[1] + t * dy, 1.0e-5)
    ah = h if bool(h >= 0) else -h
    c.close('distance to line', vec.point_distance_to_line_2d(p, a1, a2), ah, 1.0e-5)
    s = meet.point_snapped_to_line_segment_2d(p, a1, a2)
    ds = vec.point_distance_to_line_segment_2d(p, a1, a2)
    if bool(t < 0):
        want, dsq = l1, (p[0] - l1[0])**2 + (p[1] - l1[1])**2
    elif bool(t > 1):
        want, dsq = l2, (p[0] - l2[0])**2 + (p[1] - l2[1])**2
    else:
        want, dsq = (l1[0] + t * dx, l1[1] + t * dy), None
        c.close('distance to segment', ds, ah, 1.0e-5)
    c.close('snapped x', s[0], want[0], 1.0e-5)
    c.close('snapped y', s[1], want[1], 1.0e-5)
    if dsq is not None:
        c.check('distance not negative', ds >= 0)
        c.close('distance to end', ds * ds, dsq, 1.0e-4)
    same = vec.point_distance_to_line_2d(p, a1, a1)
    c.close('distance to degenerate line', same * same, (p[0] - l1[0])**2 + (p[1] - l1[1])**2, 1.0e-4)


@case('C12', bounds = 'two points anywhere')
def distances(c):
    p, q = c.reals('p', 3, LO, HI), c.reals('q', 3, LO, HI)
    f = c.reals('f', 3, 0.1, 4)
    d = q - p
    c.close('dot', vec.dot_product(p, q), p[0] * q[0] + p[1] * q[1] + p[2] * q[2])
    c.close('dots', vec.dot_products(p.reshape((1, 3)), q.reshape((1, 3)))[0], p[0] * q[0] + p[1] * q[1] + p[2] * q[2])
    x = vec.cross_product(p, q)
    for a in range(3):
        b, e = (a + 1) % 3, (a + 2) % 3
        c.close(f'cross {a}', x[a], p[b] * q[e] - p[e] * q[b])
    n = vec.naive_length(d)
    c.close('length', n * n, d[0]**2 + d[1]**2 + d[2]**2, 1.0e-4)
    n = vec.naive_lengths(c.array([d]))[0]
    c.close('lengths', n * n, d[0]**2 + d[1]**2 + d[2]**2, 1.0e-4)
    n = vec.naive_2d_length(d)
    c.close('length 2d', n * n, d[0]**2 + d[1]**2, 1.0e-4)
    n = vec.naive_2d_lengths(c.array([d]))[0]
    c.close('lengths 2d', n * n, d[0]**2 + d[1]**2, 1.0e-4)
    n = vec.unit_corrected_length(d, f)
    c.close('unit corrected', n * n, (d[0] * f[0])**2 + (d[1] * f[1])**2 + (d[2] * f[2])**2, 1.0e-3)
    want = sum(d[a] if bool(d[a] >= 0) else -d[a] for a in range(3))
    c.close('manhattan', vec.manhattan_distance(p, q), want)
    c.close('manhatten', vec.manhatten_distance(p, q), want)
    for nm, fn in (('add', vec.add), ('subtract', vec.subtract), ('elemental', vec.elemental_multiply)):
        r = fn(p, q)
        for a in range(3):
            c.close(f'{nm} {a}', r[a], {'add': p[a] + q[a], 'subtract': p[a] - q[a], 'elemental': p[a] * q[a]}[nm])
    tol = c.real('tol', 0, 1)
    near = c.And(*[c.And(d[a] <= tol, d[a] >= -tol) for a in range(3)])
    c.check('isclose', c.Iff(vec.isclose(p, q, tolerance = tol), near))


@case('C12', bounds = 'any symbolic angle in degrees, any vector', params = [dict(axis = a) for a in range(3)])
def axial_rotation(c, axis):
    ang = c.real('angle', -720, 720)
    v = c.reals('v', 3, LO, HI)
    r = ang * math.pi / 180
    s, k = c.sin(r), c.cos(r)
    R = vec.rotation_matrix_3d_axial(axis, ang)
    a, b = (axis + 1) % 3, (axis + 2) % 3
    want = [None] * 3
    want[axis], want[a], want[b] = v[axis], k * v[a] - s * v[b], s * v[a] + k * v[b]
    q = vec.rotate_vector(R, v)
    qa = vec.rotate_array(R, c.array([[v], [v * 2.0]]))
    qn = vec.rotate_array_njit(R, c.array([[v], [v * 2.0]]))
    for x in range(3):
        c.close(f'vector {x}', q[x], want[x], 1.0e-5)
        c.close(f'array {x}', qa[0, 0, x], want[x], 1.0e-5)
        c.close(f'array second {x}', qa[1, 0, x], 2.0 * want[x], 1.0e-5)
        c.close(f'compiled {x}', qn[1, 0, x], 2.0 * want[x], 1.0e-5)
    if axis == 2:
        u = vec.unit_vector_from_azimuth(ang)
        c.close('azimuth x', u[0], s, 1.0e-5)
        c.close('azimuth y', u[1], k, 1.0e-5)
        c.close('azimuth z', u[2], 0.0, 1.0e-5)


@case('C12', bounds = 'any three angles')
def general_rotation(c):
    x, z, y = ang = c.reals('angle', 3, -360, 360)
    mats = [vec.rotation_matrix_3d_axial(a, t) for a, t in ((1, y), (2, z), (0, x))]
    want = np.dot(np.dot(mats[0], mats[1]), mats[2]) if not c.symbolic else None
    if want is None:
        want = _mm(_mm(mats[0], mats[1]), mats[2])
    for nm, fn in (('plain', vec.rotation_3d_matrix), ('compiled', vec.rotation_3d_matrix_njit)):
        R = fn(ang)
        for i in range(3):
            for j in range(3):
                c.close(f'{nm} {i} {j}', R[i, j], want[i][j], 1.0e-5)
    R = vec.reverse_rotation_3d_matrix(ang)
    for i in range(3):
        for j in range(3):
            c.close(f'reverse {i} {j}', R[i, j], want[j][i], 1.0e-5)


def _mm(a, b):
    return [[sum(a[i][n] * b[n][j] for n in range(3)) for j in range(3)] for i in range(3)]


@case('C12', bounds = 'any azimuth and inclination')
def directions(c):
    az, inc = c.real('azimuth', 0, 360), c.real('inclination', 0, 180)
    u = vec.unit_vector_from_azimuth_and_inclination(az, inc)
    sa, ca = c.sin(az * math.pi / 180), c.cos(az * math.pi / 180)
    si, ci = c.sin(inc * math.pi / 180), c.cos(inc * math.pi / 180)
    c.close('x', u[0], si * sa, 1.0e-5)
    c.close('y', u[1], si * ca, 1.0e-5)
    c.close('z', u[2], ci, 1.0e-5)
    dip = c.real('dip', -90, 90)
    sd, cd = c.sin(dip * math.pi / 180), c.cos(dip * math.pi / 180)
    # a dip in direction of azimuth lowers (z down) points ahead: (sin az, cos az, 0) goes to (cos dip sin az, .., sin dip)
    R = vec.tilt_3d_matrix(az, dip)
    for n, (p, q) in enumerate((((sa, ca, 0.0), (cd * sa, cd * ca, sd)), ((ca, -sa, 0.0), (ca, -sa, 0.0)),
                                ((0.0, 0.0, 1.0), (-sd * sa, -sd * ca, cd)))):
        # for unit horizontal direction vectors: use sa^2 + ca^2 = 1 by comparing R with its definition on a basis
        r = [sum(R[i, j] * p[j] for j in range(3)) for i in range(3)]
        for i in range(3):
            c.close(f'tilt {n} {i}', r[i], q[i], 1.0e-5)


@case('C12', bounds = 'any vector with xy length 0.1 or more', params = [dict(quadrant = q) for q in range(4)])
def azimuths(c, quadrant):
    sx, sy = [(1, 1), (1, -1), (-1, -1), (-1, 1)][quadrant]
    x, y = c.real('x', 0, 40), c.real('y', 0, 40)
    c.assume(c.Or(x >= 0.1, y >= 0.1))
    v = c.zeros(3)
    v[0], v[1], v[2] = sx * x, sy * y, 3.0
    for nm, az in (('one', vec.azimuth(v)), ('many', vec.azimuths(c.array([[v]]))[0, 0])):
        c.check(f'{nm} range', c.And(az >= 0.0, az <= 360.0 + 1.0e-6))
        s, k = c.sin(az * math.pi / 180), c.cos(az * math.pi / 180)
        c.close(f'{nm} direction', s * v[1], k * v[0], 1.0e-4)
        c.le(f'{nm} sense x', 0.0, s * v[0], 1.0e-4)
        c.le(f'{nm} sense y', 0.0, k * v[1], 1.0e-4)


@case('C12', bounds = 'any vector of length 0.1 or more, in a vertical plane through one of 3 azimuths', params = [dict(d = d) for d in range(3)])
def inclinations(c, d):
    hx, hy = [(1.0, 0.0), (0.5, 1.0), (-1.0, 0.25)][d]
    h, z = c.real('h', -40, 40), c.real('z', -40, 40)
    c.assume(c.Or(h >= 0.1, h <= -0.1, z >= 0.1, z <= -0.1))
    v = c.zeros(3)
    v[0], v[1], v[2] = h * hx, h * hy, z
    n2 = v[0] * v[0] + v[1] * v[1] + z * z
    one = vec.inclination(v)
    many = vec.inclinations(c.array([v]))[0]
    nans = c.array([v, [math.nan] * 3])
    nani = vec.nan_inclinations(nans)
    c.check('nan', _isnan(c, nani[1]))
    for nm, inc in (('one', one), ('many', many), ('nan', nani[0])):
        k = c.cos(inc * math.pi / 180)
        c.check(f'{nm} range', c.And(inc >= 0.0, inc <= 180.0 + 1.0e-6))
        c.close(f'{nm} squared', k * k * n2, z * z, 1.0e-4)
        c.le(f'{nm} sense', 0.0, k * z, 1.0e-4)
    for nm, u in (('unit', vec.unit_vector(v)), ('compiled', vec.unit_vector_njit(v)), ('many', vec.unit_vectors(c.array([v]))[0]),
                  ('nan', vec.nan_unit_vectors(nans)[0])):
        c.close(f'{nm} length', u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1.0, 1.0e-6)
        c.close(f'{nm} parallel x', u[2] * v[0], z * u[0], 1.0e-5)
        c.close(f'{nm} parallel y', u[0] * v[1], v[0] * u[1], 1.0e-5)
        c.le(f'{nm} sense z', 0.0, u[2] * z, 1.0e-6)
        c.le(f'{nm} sense h', 0.0, (u[0] * hx + u[1] * hy) * h, 1.0e-6)
    zero = c.zeros((1, 3))
    c.same('zero', vec.unit_vectors(zero)[0], [0.0, 0.0, 0.0])
    c.same('zero compiled', vec.unit_vector_njit(zero[0]), [0.0, 0.0, 0.0])


PLANES = dict(level = (0.0, 0.0, 1.0), east = (2.0, 0.0, 0.0), south = (0.0, -1.0, 0.0), northwest = (-3.0, 4.0, 0.0),
              oblique1 = (1.0, 2.0, 3.0), oblique2 = (-2.0, 0.5, 1.0))


@case('C12', bounds = 'any points, 6 planes', params = [dict(plane = d) for d in PLANES])
def onto_plane(c, plane):
    n = PLANES[plane]
    o = (5.0, -3.0, 10.0)
    p = c.reals('p', (2, 3), LO, HI)
    q = p.copy()
    vec.project_points_onto_plane(c.array(np.array(o)), c.array(np.array(n)), q)
    n2 = sum(x * x for x in n)
    for m in range(2):
        h = sum((p[m, a] - o[a]) * n[a] for a in range(3)) / n2
        for a in range(3):
            c.close(f'projected point {m} {a}', q[m, a], p[m, a] - h * n[a], 1.0e-5)


@case('C12', bounds = 'any points, any pivot, 4 dips', params = [dict(d = d) for d in range(3)])
def tilt(c, d):
    az, dip = [(0.0, 30.0), (125.0, 12.0), (300.0, -50.0)][d]
    p, o = c.reals('p', (1, 2, 3), LO, HI), c.reals('o', 3, LO, HI)
    q = p.copy()
    vec.tilt_points(o, az, dip, q)
    sa, ca = math.sin(math.radians(az)), math.cos(math.radians(az))
    sd, cd = math.sin(math.radians(dip)), math.cos(math.radians(dip))
    for m in range(2):
        r = [p[0, m, a] - o[a] for a in range(3)]
        f, g = r[0] * sa + r[1] * ca, r[0] * ca - r[1] * sa  # along and across the azimuth
        f2, z2 = f * cd - r[2] * sd, f * sd + r[2] * cd
        for a, w in enumerate((f2 * sa + g * ca, f2 * ca - g * sa, z2)):
            c.close(f'{m} {a}', q[0, m, a], o[a] + w, 1.0e-5)


@case('C12', bounds = 'unit vectors at any inclination to 170 degrees eastwards, northwards or southwards', params = [dict(d = d) for d in range(3)])
def to_vertical(c, d):
    hx, hy = [(1.0, 0.0), (0.0, 1.0), (0.0, -1.0)][d]
    s, k = c.real('s', -1, 1), c.real('k', -0.98, 1)
    if c.symbolic:
        c.assume(s * s + k * k == 1)
    else:
        c.assume(abs(s * s + k * k - 1) < 1.0e-6)
    v = c.zeros(3)
    v[0], v[1], v[2] = s * hx, s * hy, k
    for nm, fn in (('plain', vec.rotation_matrix_3d_vector), ('compiled', vec.rotation_matrix_3d_vector_njit)):
        R = fn(v)
        for i in range(3):
            c.close(f'{nm} z axis maps onto v {i}', R[i, 2], v[i], 1.0e-5)
        for i in range(3):
            c.close(f'{nm} column length {i}', sum(R[j, i] * R[j, i] for j in range(3)), 1.0, 1.0e-5)
            c.close(f'{nm} columns {i}', sum(R[j, i] * R[j, (i + 1) % 3] for j in range(3)), 0.0, 1.0e-5)


@case('C12', bounds = 'target directions any of 4, any points; any box, vector and distance', params = [dict(d = d) for d in range(4)])
def presentation(c, d):
    t = [(1.0, 0.0), (3.0, 4.0), (-1.0, 2.0), (0.0, -2.0)][d]
    p = c.reals('p', (2, 3), LO, HI)
    q = vec.rotate_xyz_array_around_z_axis(p, t)
    n = math.hypot(*t)
    for m in range(2):
        c.close(f'x {m}', q[m, 0], (p[m, 0] * t[0] + p[m, 1] * t[1]) / n, 1.0e-5)
        c.close(f'y {m}', q[m, 1], (-p[m, 0] * t[1] + p[m, 1] * t[0]) / n, 1.0e-5)
        c.close(f'z {m}', q[m, 2], p[m, 2], 1.0e-5)


@case('C12', bounds = 'any points d against 4 triangles, both orders of vertices, three projections', params = [
    dict(d = d, proj = p) for d in range(2) for p in ('xy', 'xz', 'yz')])
def orientation(c, d, proj):
    T = [[(0, 0), (10, 1), (3, 9)], [(0, 0), (2, 11), (12, -1)]][d]
    a0, a1 = 'xyz'.index(proj[0]), 'xyz'.index(proj[1])
    q = c.reals('q', (2, 3), LO, HI)

    def orient(a, b, p):
        return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])

    ccw = orient(*T) > 0
    P = np.full((3, 3), 77.0)
    for n in range(3):
        P[n, a0], P[n, a1] = T[n]
    P = c.array(P)
    pts = [(q[n, a0], q[n, a1]) for n in range(2)]
    sd = [[orient(T[e], T[(e + 1) % 3], p) * (1 if ccw else -1) for e in range(3)] for p in pts]
    for r in sd:
        for x in r:
            c.assume(c.Or(x >= 0.01, x <= -0.01, x == 0) if not d else c.Or(x >= 0.01, x <= -0.01))
    t = np.array([[0, 1, 2], [2, 1, 0]])
    cw = vec.clockwise_triangles(P, t, projection = proj)
    c.close('clockwise', cw[0], -orient(*T), 1.0e-6)
    c.close('clockwise reversed', cw[1], orient(*T), 1.0e-6)
    for edged in (False, True):
        r = vec.points_in_triangles(P, t, q, projection = proj, edged = edged)
        for n in range(2):
            want = c.And(*[x >= 0 if edged else x > 0 for x in sd[n]])
            for m in range(2):
                c.check(f'in triangles {edged} {n} {m}', c.Iff(r[m, n], want))
    if proj == 'xy':
        A = [c.array(np.array(T[n] + (0.0,), dtype = float)) for n in ((0, 1, 2) if ccw else (2, 1, 0))]
        c.check('in', c.Iff(vec.in_triangle(*A, q[0]), c.And(*[x > 0 for x in sd[0]])))
        c.check('in or on', c.Iff(vec.in_triangle_edged(*A, q[0]), c.And(*[x >= 0 for x in sd[0]])))
        c.close('clockwise point', vec.clockwise(A[0], A[1], q[0]), -sd[0][0] if ccw else
                -orient((A[0][0], A[0][1]), (A[1][0], A[1][1]), pts[0]), 1.0e-5)
        (ax, ay), (bx, by), (cx, cy) = T
        det = 2.0 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
        sa, sb, sc = ax * ax + ay * ay, bx * bx + by * by, cx * cx + cy * cy
        ctr = ((sa * (by - cy) + sb * (cy - ay) + sc * (ay - by)) / det,
               (sa * (cx - bx) + sb * (ax - cx) + sc * (bx - ax)) / det)
        r2 = (ax - ctr[0])**2 + (ay - ctr[1])**2
        e = (pts[0][0] - float(ctr[0]))**2 + (pts[0][1] - float(ctr[1]))**2 - r2
        c.assume(c.Or(e >= 0.01, e <= -0.01))
        c.check('circumcircle', c.Iff(vec.in_circumcircle(*A, q[0]), e < 0))


@case('C12', bounds = 'any three vectors')
def determinants(c):
    m = c.reals('m', (3, 3), LO, HI)
    want = sum(m[0, i] * (m[1, (i + 1) % 3] * m[2, (i + 2) % 3] - m[1, (i + 2) % 3] * m[2, (i + 1) % 3]) for i in range(3))
    c.close('determinant', vec.determinant(m[0], m[1], m[2]), want)
    c.close('matrix', vec.determinant_3x3(m), want)


@case('C12', bounds = 'apex at any height above one of 3 bases', params = [dict(d = d) for d in range(3)])
def areas(c, d):
    foot = [0.0, 3.0, 7.0][d]
    h = c.real('h', 0.5, 40)
    P = c.zeros((3, 3))
    P[1, 0] = 4.0
    P[2, 0], P[2, 1] = foot, h
    c.close('xy', vec.area_of_triangle(P[0], P[1], P[2]), 2.0 * h, 1.0e-3)
    t = np.array([[0, 1, 2], [1, 2, 0]])
    a = vec.area_of_triangles(P, t)
    b = vec.area_of_triangles(P, t, xy_projection = True)
    for n in range(2):
        c.close(f'area {n}', a[n], 2.0 * h, 1.0e-3)
        c.close(f'projected {n}', b[n], 2.0 * h, 1.0e-3)


@case('C12', bounds = 'any point among 2 x 2, some undefined, any projection', params = [dict(proj = p) for p in ('xy', 'xz', 'yz')])
def nearest(c, proj):
    a0, a1 = 'xyz'.index(proj[0]), 'xyz'.index(proj[1])
    p = c.reals('p', 3, LO, HI)
    Q = np.array([[(0, 0, 0), (10, 4, -6)], [(3, -8, 12), (-9, 7, 8)]], dtype = float)
    nan = int(c.fix(c.int('undefined', -1, 3)))
    if nan >= 0:
        Q[nan // 2, nan % 2] = math.nan
    d2 = {x: (p[a0] - float(Q[x + (a0,)]))**2 + (p[a1] - float(Q[x + (a1,)]))**2 for x in np.ndindex(2, 2)
          if not math.isnan(Q[x + (0,)])}
    r = vec.point_distance_sqr_to_points_projected(p, c.array(Q), proj)
    for x, w in d2.items():
        c.close(f'distance {x}', r[x], w, 1.0e-4)
    n = tuple(int(c.fix(x)) for x in vec.nearest_point_projected(p, c.array(Q), proj))
    c.check('defined', n in d2)
    for x, w in d2.items():
        c.le(f'nearest {x}', d2[n], w, 1.0e-6)


@case('C12', bounds = 'three points, any order on either axis', params = [dict(axis = a) for a in (None, 0, 1)])
def sorting(c, axis):
    p = c.zeros((3, 3))
    x = c.reals('x', 3, LO, HI)
    w = c.real('w', 0, 100)
    a = 0 if axis is None else axis
    c.assume(c.And(*[c.Or(x[m] - x[n] >= M, x[n] - x[m] >= M) for m in range(3) for n in range(m)]))
    for n in range(3):
        p[n, a], p[n, 1 - a], p[n, 2] = x[n], (0.0, w, 0.5 * w)[n], n
    for nm, r in (('plain', vec.xy_sorted(p, axis = axis)), ('compiled', vec.xy_sorted_njit(p, -1 if axis is None else axis))):
        q, by = r
        by = int(by)
        order = sorted(range(3), key = lambda n: x[n])
        if axis is None:
            rng = x[order[2]] - x[order[0]]
            c.assume(c.Or(rng - w >= M, w - rng >= M))
            c.same(f'{nm} axis', by, 0 if bool(rng > w) else 1)
            if by == 1:
                order = [0, 2, 1]
                c.assume(w >= M)
        else:
            c.same(f'{nm} axis', by, axis)
        for n in range(3):
            c.same(f'{nm} sorted {n}', q[n], p[order[n]])


@case('C12', bounds = 'convex quadrilateral with one corner moving')
def clockwise_order(c):
    hull = c.array(np.array([(0, 0), (10, 1), (9, 8), (-2, 7)], dtype = float))
    hull[2, 0] = hull[2, 0] + c.real('shift', -2, 2)
    o = [int(x) for x in vec.clockwise_sorted_indices(hull, np.array([2, 0, 3, 1]))]
    n = o.index(0)
    c.same('clockwise', o[n:] + o[:n], [0, 3, 2, 1])


@case('C12', bounds = 'lines of 3 or 4 points, any coordinates in one direction', params = [dict(n = 3), dict(n = 4)])
def simple_line(c, n):
    x = c.reals('x', n, 0, 1)
    tol = c.real('tol', 0, 0.5)
    ln = c.zeros((n, 3))
    for m in range(n):
        ln[m, 0], ln[m, 1], ln[m, 2] = x[m], 5.0, 6.0 + x[m]
    q = sl.polygon_line(ln, tolerance = tol)
    d = 2.0 * (x[0] - x[n - 1])
    c.same('closed', len(q), n - 1 if bool(c.And(d <= tol, d >= -tol)) else n)
    r = sl.duplicate_vertices_removed(ln, tolerance = tol)
    keep = [0]
    for m in range(1, n):
        e = 2.0 * (x[m] - x[keep[-1]])
        if bool(c.Or(e > tol, e < -tol)):
            keep.append(m)
    if len(keep) == 1:
        keep = [0, n - 1]
    keep[-1] = n - 1
    c.same('count', len(r), len(keep))
    for a, m in enumerate(keep):
        c.same(f'vertex {a}', r[a], ln[m])


@case('C12', bounds = 'any box, vector and vanishing distance', params = [dict(axis = a) for a in range(3)])
def perspective(c, axis):
    v = c.reals('v', 3, LO, HI)
    box = c.array(np.array([(-10, -20, -30), (50, 60, 70)], dtype = float))
    d = c.choice('distance', [1.5, 4.0])
    r = vec.perspective_vector(box, axis, d, v)
    rng, mid, lo = (60.0, 80.0, 100.0), (20.0, 20.0, 20.0), (-10.0, -20.0, -30.0)
    for a in range(3):
        if a == axis:
            c.close(f'{a}', r[a], v[a])
        else:
            # in the near plane nothing moves, at the vanishing distance all goes to the middle
            f = (v[axis] - lo[axis]) / (d * rng[axis])
            c.close(f'{a}', r[a], v[a] + f * (mid[a] - v[a]), 1.0e-5)


@case('C12', bounds = '3 points along either axis, any of them undefined')
def mean_direction(c):
    p = c.reals('p', (3, 2, 3), LO, HI)
    u = [bool(c.fix(c.bool(f'undefined {n}'))) for n in range(3)]
    P = p.copy()
    for n in range(3):
        if u[n]:
            P[n] = math.nan
    d = [n for n in range(3) if not u[n]]
    r = vec.points_direction_vector(P, 0)
    if len(d) < 2:
        c.check('none', r is None)
    else:
        for a in range(3):
            c.close(f'{a}', r[a], 0.5 * (p[d[-1], 0, a] + p[d[-1], 1, a] - p[d[0], 0, a] - p[d[0], 1, a]))
    r = vec.points_direction_vector(p, 1)
    for a in range(3):
        c.close(f'across {a}', r[a], sum(p[n, 1, a] - p[n, 0, a] for n in range(3)) / 3.0)
