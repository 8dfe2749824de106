"""C17: polylines and sets of polylines."""
from symx.run import case
import copy
import math
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.model as rq
import resqpy.olio.xml_et as rqet
from checks.c07 import _model, _reopen

META = dict(
    title = 'Polylines and polyline sets have the geometry and structure of their points',
    statement = 'For every polyline, lengths, midpoints, points at fractions of length, centres, area, direction, convexity, '
    'normals, closest segments, intersections, normalised coordinates, trimming, scaling, shifting, flattening and splines '
    'follow from its points, its closed flag and its crs, whichever methods were called before. For every set of polylines, '
    'the points and closed flag of each member are kept when combined, stored, reloaded, or written to and read from text.',
    text = 'points, heights, query points and closed flags anywhere in the stated ranges, in any axis order of the crs',
    why = 'orientation depends on the order of axes, cached metadata and centres are shared between methods, and '
    'sets flatten and cut arrays of points by counts, which tests sample for one or two shapes only',
    files = ['resqpy/lines/_polyline.py', 'resqpy/lines/_polyline_set.py', 'resqpy/lines/_common.py',
             'resqpy/olio/simple_lines.py'],
    mechanism = [('polyline geometry', 'resqpy/lines/_polyline.py'), ('sets of polylines', 'resqpy/lines/_polyline_set.py'),
                 ('shifting, flattening and splines', 'resqpy/lines/_common.py')],
    observe = ['results of the methods, and objects loaded from the stored file or from text files'],
    note = 'polylines of up to 6 points, sets of up to 4 polylines; reals idealised; shapes of query polylines fixed up to a moving '
    'point or position')

LO, HI = -1.0e6, 1.0e6
ORDERS = ['easting northing', 'northing easting', 'southing westing', 'northing westing']


def _line(m, p, closed, title = 'line'):
    return rql.Polyline(m, set_coord = p, set_crs = m.crs_uuid, is_closed = closed, title = title)


def _stairs(c, n, slope):
    """points joined by segments of any lengths in given directions; returns points, lengths, lengths in xy"""
    steps = [(1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (-0.6, 0.0, 0.8), (0.0, 0.0, -1.0), (0.0, 0.8, 0.6)] if slope else \
        [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (-0.6, 0.8, 0.0), (0.0, -1.0, 0.0), (0.8, 0.6, 0.0)]
    p = [[c.real(f'p{a}', -1000, 1000) for a in range(3)]]
    ln = []
    for e in range(n):
        a = c.real(f'len{e}', 1, 1000)
        ln.append(a)
        p.append([x + a * y for x, y in zip(p[-1], steps[e])])
    return p, ln, [a * math.hypot(*steps[e][:2]) for e, a in enumerate(ln)], steps


@case('C17', bounds = 'open polylines of 2 to 5 points, any position, lengths of segments 1 to 1000, 5 directions', params = [
    dict(n = n, slope = s) for n in (1, 2, 4) for s in (False, True)])
def open_line(c, n, slope):
    m = _model(c)
    p, ln, lxy, steps = _stairs(c, n, slope)
    l = _line(m, np.array(p), False)
    c.close('length', l.full_length(), sum(ln))
    c.close('length in xy', l.full_length(in_xy = True), sum(lxy))
    for e in range(n):
        c.close(f'segment {e}', l.segment_length(e), ln[e])
        c.close(f'segment {e} in xy', l.segment_length(e, in_xy = True), lxy[e])
        c.close(f'midpoint {e}', l.segment_midpoint(e), [0.5 * (a + b) for a, b in zip(p[e], p[e + 1])])
    for e in (n, -1):
        c.raises(f'no segment {e}', lambda: l.segment_length(e), AssertionError)
    c.raises('not closed', lambda: l.is_clockwise(), AssertionError)
    c.check('open line is not convex', l.is_convex() is False)
    c.close('start', l.interpolated_point(0.0), p[0])
    c.close('end', l.interpolated_point(1.0), p[-1])
    c.same('points', [list(x) for x in l.coordinates], p)


def _walk(c, p, ln, target):
    """point at a distance along a line of points, where lengths of segments are numbers"""
    for e, a in enumerate(ln):
        if target <= a + 1.0e-9 or e == len(ln) - 1:
            q = p[(e + 1) % len(p)]
            return [x + (y - x) * (target / a) for x, y in zip(p[e], q)]
        target -= a


SHAPES = [[(0.0, 0.0, 0.0), (3.0, 4.0, 0.0), (3.0, 10.0, 8.0), (15.0, 5.0, 8.0)],
          [(0.0, 0.0, 1.0), (0.0, 3.0, 5.0), (4.0, 3.0, 2.0), (2.0, 1.5, 2.0), (4.0, 0.0, -1.0)],
          [(2.0, 0.0, 4.0), (1.0, 1.0, 4.0), (1.0, 3.0, 6.0), (6.0, 3.0, 0.0)]]


@case('C17', bounds = '3 shapes anywhere, open or closed, 9 fractions and counts of points', params = [
    dict(shape = s, xy = b) for s in range(3) for b in (False, True)])
def along_the_line(c, shape, xy):
    m = _model(c)
    o = c.reals('o', 3, LO, HI)
    s = SHAPES[shape]
    p = [[a + b for a, b in zip(x, o)] for x in s]
    for closed in (False, True):
        l = _line(m, np.array(p), closed)
        ends = list(zip(s, s[1:] + ([s[0]] if closed else [])))
        ln = [math.dist(a[:2 if xy else 3], b[:2 if xy else 3]) for a, b in ends]
        full = sum(ln)
        c.close('length', l.full_length(in_xy = xy), full)
        for f in (0.0, 0.1, 0.25, 0.31, 0.5, 0.75, 0.9, 0.99, 1.0):
            c.close(f'point at {f} {closed}', l.interpolated_point(f, in_xy = xy), _walk(c, p, ln, f * full))
        for n in (2, 3, 5):
            q = l.equidistant_points(n, in_xy = xy)
            c.same('count', q.shape, (n, 3))
            for e in range(n):
                c.close(f'equidistant {n} {e} {closed}', q[e], _walk(c, p, ln, full * e / (n if closed else n - 1)))
        want = [sum(0.5 * (a[d] + b[d]) * w for (a, b), w in zip(ends, ln)) / full + o[d] for d in range(3)]
        l.balanced_centre(in_xy = not xy)
        l.balanced_centre(mode = 'sampled', n = 3)
        r = l.balanced_centre(in_xy = xy)
        for d in range(2 if xy else 3):
            c.close(f'centre {closed} {d}', r[d], want[d])
        f = 2.5
        centre = [sum(0.5 * (a[d] + b[d]) * math.dist(a, b) for a, b in ends) / sum(math.dist(a, b) for a, b in ends) + o[d]
                  for d in range(3)]
        b = rql.Polyline.from_scaled_polyline(l, f, title = 'bigger')
        c.same('kind', (bool(b.isclosed), b.title, len(b.coordinates)), (closed, 'bigger', len(p)))
        for e in range(len(p)):
            c.close(f'scaled {closed} {e}', b.coordinates[e], [centre[d] + f * (p[e][d] - centre[d]) for d in range(3)])
        c.same('points', [list(x) for x in l.coordinates], p)


POLYGONS = [[(0.0, 0.0), (0.0, 6.0), (6.0, 6.0), (6.0, 0.0)], [(0.0, 0.0), (-1.0, 5.0), (3.0, 2.0), (7.0, 6.0), (6.0, -2.0)],
            [(0.0, 0.0), (2.0, 5.0), (4.0, 1.0), (9.0, 7.0), (8.0, -1.0), (4.0, -3.0)]]


@case('C17', bounds = '3 polygons in both orders with one corner moving along x or y, any heights, 4 axis orders, any order of calls', params = [
    dict(shape = s, corner = n, axis = a, rev = r) for s, n, a, r in
    [(0, 0, 0, False), (0, 2, 1, True), (1, 0, 1, False), (1, 2, 1, True), (1, 4, 0, False), (2, 1, 0, True), (2, 2, 1, False), (2, 5, 1, True)]])
def orientation(c, shape, corner, axis, rev):
    order = ORDERS[int(c.fix(c.int('order', 0, 3)))]
    m = _model(c, axis_order = order)
    left = order in ('northing easting', 'southing westing')     # y is to the right of x when viewed from above
    left = left or order == 'westing northing'
    xy = [list(p) for p in POLYGONS[shape]]
    v = c.real('v', -20, 20)
    xy[corner][axis] = v
    if rev:
        xy = xy[::-1]
        corner = len(xy) - 1 - corner
    n = len(xy)
    cross = [(b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0])
             for a, b, d in zip(xy, xy[1:] + xy[:1], xy[2:] + xy[:2])]
    for x in cross:
        c.assume(c.Or(x > 0.01, x < -0.01))
    # neither of the sides which move may meet another side
    for s in (corner - 1, corner):
        a, b = xy[s % n], xy[(s + 1) % n]
        for t in range(n):
            if t in (s % n, (s - 1) % n, (s + 1) % n):
                continue
            e, f = xy[t], xy[(t + 1) % n]
            side = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
            c.assume(c.Or(side(a, b, e) * side(a, b, f) > 0.01, side(e, f, a) * side(e, f, b) > 0.01))
    area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(xy, xy[1:] + xy[:1])) * 0.5
    c.assume(c.Or(area > 0.01, area < -0.01))
    z = c.reals('z', n, LO, HI)
    l = _line(m, np.array([[a[0], a[1], z[e]] for e, a in enumerate(xy)]), True)
    first = bool(c.fix(c.bool('convexity_first')))
    convex = c.Or(c.And(*[x > 0 for x in cross]), c.And(*[x < 0 for x in cross]))
    cw = (area > 0) if left else (area < 0)
    if first:
        c.check('convex', c.Iff(l.is_convex(), convex))
    for k in range(2):
        c.check(f'clockwise {k}', c.Iff(l.is_clockwise(), cw))
    c.check('clockwise computed', c.Iff(l.is_clockwise(trust_metadata = False), cw))
    c.check('convex', c.Iff(l.is_convex(), convex))
    c.check('convex computed', c.Iff(l.is_convex(trust_metadata = False), convex))
    c.check('still clockwise', c.Iff(l.is_clockwise(), cw))
    for s in range(n):
        if s in ((corner - 1) % n, corner):
            continue
        d = [b - a for a, b in zip(xy[s], xy[(s + 1) % n])]
        h = math.hypot(*d)
        q = l.segment_normal(s)
        up = area > 0        # interior lies to the left of each side in the x, y plane, as if x is to the right and y is up
        want = [d[1] / h, -d[0] / h, 0.0] if bool(up) else [-d[1] / h, d[0] / h, 0.0]
        c.close(f'normal {s}', q, want)


@case('C17', bounds = 'rectangle, triangle and hexagon with any heights', params = [dict(shape = s) for s in range(3)])
def area(c, shape):
    m = _model(c)
    xy = [[(0.0, 0.0), (0.0, 6.0), (7.0, 6.0), (7.0, 0.0)], [(1.0, 1.0), (6.0, 2.0), (-1.0, 9.0)],
          [(0.0, 0.0), (2.0, -1.0), (5.0, 1.0), (6.0, 4.0), (3.0, 7.0), (1.0, 4.0)]][shape]
    z = c.reals('z', len(xy), -10, 10)
    l = _line(m, np.array([[a[0], a[1], z[e]] for e, a in enumerate(xy)]), True)
    want = abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(xy, xy[1:] + xy[:1]))) * 0.5
    c.close('area', l.area(), want)


@case('C17', bounds = '3 convex polygons with sloping sides, points along 6 rays from the centre', params = [
    dict(shape = s, ray = r, mode = x) for s, r, x in
    [(0, 0, 'square'), (0, 1, 'square'), (0, 2, 'perimeter'), (1, 3, 'square'), (1, 4, 'perimeter'), (2, 5, 'perimeter'), (2, 1, 'square'),
     (0, 3, 'circle'), (2, 0, 'circle'), (1, 5, 'square'), (0, 4, 'perimeter')]])
def normalised(c, shape, ray, mode):
    m = _model(c)
    p = [[(0.0, 0.0, 0.0), (0.0, 8.0, 30.0), (8.0, 8.0, 0.0), (8.0, 0.0, 0.0)],
         [(0.0, 0.0, 5.0), (1.0, 6.0, 5.0), (7.0, 5.0, 5.0), (6.0, -3.0, 5.0)],
         [(0.0, 0.0, 0.0), (2.0, 5.0, 20.0), (6.0, 6.0, 2.0), (9.0, 3.0, 50.0), (5.0, -2.0, 1.0)]][shape]
    l = _line(m, np.array(p), True)
    c.check('convex', l.is_convex())
    cx, cy = (float(x) for x in l.balanced_centre()[:2])
    d = [(3.0, 1.0), (-1.0, 2.0), (-2.0, -0.5), (0.5, -2.0), (1.0, 0.0), (-1.0, -1.5)][ray]
    # how far the ray goes before it meets the boundary
    far = None
    for a, b in zip(p, p[1:] + p[:1]):
        e = (b[0] - a[0], b[1] - a[1])
        det = d[0] * -e[1] + d[1] * e[0]
        if det == 0.0:
            continue
        t = ((a[0] - cx) * -e[1] + (a[1] - cy) * e[0]) / det
        u = (d[0] * (a[1] - cy) - d[1] * (a[0] - cx)) / det
        if t > 0.0 and 0.0 <= u <= 1.0:
            far = t
    f = c.real('f', 0.01, 0.99)
    x, y = cx + f * far * d[0], cy + f * far * d[1]
    nx, ny = l.normalised_xy(x, y, mode = mode)
    for name, v in (('x', nx), ('y', ny)):
        c.le(f'{name} not negative', 0.0, v)
        c.le(f'{name} not more than one', v, 1.0)
    if mode == 'square':
        big = max(abs(d[0]), abs(d[1]))
        c.close('normalised x', nx, 0.5 + 0.5 * f * d[0] / big)
        c.close('normalised y', ny, 0.5 + 0.5 * f * d[1] / big)
    else:
        c.close('square of fraction of radius', nx, f * f)
    if mode == 'perimeter':
        ln = [math.dist(a[:2], b[:2]) for a, b in zip(p, p[1:] + p[:1])]
        q = _walk(c, p, ln, float(ny) * sum(ln)) if not c.symbolic or isinstance(ny, float) else None
        if q is not None:
            c.close('point of perimeter', q[:2], [cx + far * d[0], cy + far * d[1]])
    if mode != 'circle' or not c.symbolic:
        bx, by = l.denormalised_xy(nx, ny, mode = mode)
        c.close('back x', bx, x, 1.0e-6)
        c.close('back y', by, y, 1.0e-6)


@case('C17', bounds = '6 points anywhere, any range of segments, any new ends', params = [dict(closed = b) for b in (False, True)])
def trimmed_shifted_flattened(c, closed):
    m = _model(c)
    p = c.reals('p', (5, 3), LO, HI)
    keep = [list(x) for x in p]
    l = _line(m, p, closed, 'original')
    l.write_hdf5()
    l.create_xml()
    a, b = int(c.fix(c.int('from', 0, 4))), int(c.fix(c.int('to', 0, 4)))
    ends = c.reals('e', (2, 3), LO, HI)
    if a > b or b > 3:
        c.raises('bad range', lambda: rql.Polyline.from_trimmed_polyline(l, a, b), AssertionError)
        return
    t = rql.Polyline.from_trimmed_polyline(l, a, b)
    c.same('open', (bool(t.isclosed), tuple(t.nodepatch)), (False, (0, b - a + 2)))
    c.same('trimmed', [list(x) for x in t.coordinates], keep[a:b + 2])
    t = rql.Polyline.from_trimmed_polyline(l, a, b, start_xyz = ends[0], end_xyz = ends[1, :2])
    c.same('new ends', [list(x) for x in t.coordinates],
           [list(ends[0])] + keep[a + 1:b + 1] + [[ends[1, 0], ends[1, 1], keep[b + 1][2]]])
    c.same('original', [list(x) for x in l.coordinates], keep)
    if a or b:
        return
    s = rql.shift_polyline(m, l.root, xyz_shift = tuple(ends[0]))
    c.check('new uuid', s.uuid != l.uuid)
    c.same('closed', bool(s.isclosed), closed)
    c.close('shifted', s.coordinates, [[x + y for x, y in zip(q, ends[0])] for q in keep])
    for e, axis in enumerate('xyz'):
        s = rql.flatten_polyline(m, l.root, axis = axis, value = 7.5)
        c.same(f'flattened {axis}', [list(x) for x in s.coordinates], [[7.5 if d == e else q[d] for d in range(3)] for q in keep])
    l = rql.Polyline(_reopen(c, m), uuid = l.uuid)
    c.same('stored', [list(x) for x in l.coordinates], keep)


@case('C17', bounds = 'one bent polyline, open or closed, any query point', params = [dict(closed = b) for b in (False, True)])
def closest_segment(c, closed):
    m = _model(c)
    p = [(0.0, 0.0, 1.0), (6.0, 0.0, 3.0), (6.0, 8.0, 9.0), (0.0, 8.0, 2.0)]
    l = _line(m, np.array(p), closed)
    x, y = c.real('x', -50, 50), c.real('y', -50, 50)
    s, d = l.closest_segment_and_distance_to_point_xy((x, y, 0.0))
    s = int(s)
    clamp = lambda v, a, b: a if bool(v < a) else b if bool(v > b) else v
    dist = []
    for a, b in list(zip(p, p[1:])) + ([(p[-1], p[0])] if closed else []):
        q = (clamp(x, min(a[0], b[0]), max(a[0], b[0])), clamp(y, min(a[1], b[1]), max(a[1], b[1])))
        dist.append((x - q[0])**2 + (y - q[1])**2)
    c.check('a segment', 0 <= s < len(dist))
    c.le('not negative', 0.0, d)
    c.close('distance', d * d, dist[s], 1.0e-4)
    for e, v in enumerate(dist):
        if e != s:
            c.le(f'not further than {e}', d * d, v + 1.0e-4)


@case('C17', bounds = '3 polylines with fixed points in plan and any heights, any point in plan', params = [dict(shape = s) for s in range(3)])
def snapped(c, shape):
    m = _model(c)
    xy = [[(0.0, 0.0), (6.0, 2.0), (5.0, 9.0)], [(3.0, -1.0), (3.0, 7.0), (-5.0, 7.0)], [(0.0, 0.0), (-3.0, -4.0), (6.0, -1.0)]][shape]
    z = c.reals('z', 3, LO, HI)
    P = [[a[0], a[1], z[e]] for e, a in enumerate(xy)]
    l = _line(m, np.array(P), True)
    p = c.reals('p', 2, -100, 100)
    for s in range(3):
        a, b = P[s], P[(s + 1) % 3]
        d = (b[0] - a[0], b[1] - a[1])
        t = ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / (d[0]**2 + d[1]**2)
        t = 0.0 if bool(t < 0) else 1.0 if bool(t > 1) else t
        q = l.point_snapped_to_segment_xy(s, p)
        c.close(f'snapped {s}', [q[0], q[1]], [a[0] + t * d[0], a[1] + t * d[1]])
        f = [0.25, 0.6, 1.0][s]
        r = l.segment_xyz_from_xy(s, a[0] + f * d[0], a[1] + f * d[1])
        c.close(f'on segment {s}', r, [(1.0 - f) * u + f * v for u, v in zip(a, b)])


@case('C17', bounds = 'a zigzag, open or closed, and any position of a line of 2 directions', params = [
    dict(closed = b, d = d, half = h) for b, d, h in [(False, 0, False), (True, 0, True), (True, 1, False), (False, 1, True)]])
def intersections(c, closed, d, half):
    m = _model(c)
    p = [(0.0, 0.0, 1.0), (4.0, 5.0, 3.0), (8.0, 0.0, 9.0), (12.0, 6.0, 2.0)]
    l = _line(m, np.array(p), closed)
    x, y = c.real('x', -20, 20), c.real('y', -20, 20)
    dx, dy = [(9.0, 1.0), (-1.0, 7.0)][d]
    hit, at = [], []
    for a, b in list(zip(p, p[1:])) + ([(p[-1], p[0])] if closed else []):
        ex, ey = b[0] - a[0], b[1] - a[1]
        det = dx * ey - dy * ex
        t = ((a[0] - x) * ey - (a[1] - y) * ex) / det
        u = ((a[0] - x) * dy - (a[1] - y) * dx) / det
        for q in (t, 1.0 - t, u, 1.0 - u):
            c.assume(c.Or(q >= 0.001, q <= -0.001))
        hit.append(c.And(t > 0, u > 0, u < 1, True if half else t < 1))
        at.append((x + t * dx, y + t * dy))
    s, px, py = l.first_line_intersection(x, y, x + dx, y + dy, half_segment = half)
    if s is None:
        c.check('no intersection', c.And(px is None, py is None, *[c.Not(h) for h in hit]))
    else:
        s = int(s)
        c.check('first segment to meet the line', c.And(hit[s], *[c.Not(h) for h in hit[:s]]))
        c.close('x', px, at[s][0], 1.0e-6)
        c.close('y', py, at[s][1], 1.0e-6)
    if not half:
        o = _line(m, np.array([[x, y, 0.0], [x + dx, y + dy, 0.0]]), False)
        q = l.xy_crossings(o)
        found = [e for e in range(len(hit)) if bool(hit[e])]
        for i, e in enumerate(found):        # where the zigzag crosses itself, one crossing may stand for two
            for f in found[:i]:
                c.assume(c.Or(at[e][1] - at[f][1] > 0.01, at[f][1] - at[e][1] > 0.01))
        c.same('number of crossings', len(q), len(found))
        for e, r in zip(found, q):
            c.close(f'crossing {e}', list(r), list(at[e]), 1.0e-6)


@case('C17', bounds = '3 or 4 points along axes with any lengths, any position, 3 weights', params = [
    dict(weight = w, closed = b, sub = s) for w, b, s in [('linear', False, 3), ('square', True, 2), ('cube', False, 2), ('square', False, 1)]])
def splines(c, weight, closed, sub):
    o = c.reals('o', 3, -1000, 1000)
    shape = [(0.0, 0.0, 0.0), (4.0, 0.0, 0.0), (4.0, 2.0, 0.0), (0.0, 2.0, 0.0)]
    p = np.array([[a + b for a, b in zip(x, o)] for x in shape])
    n = len(shape)
    tan = rql.tangents(p, weight = weight, closed = closed)
    power = dict(linear = 1, square = 2, cube = 3)[weight]
    want = []
    for e in range(n):
        v = []
        if e > 0 or closed:
            v.append([b - a for a, b in zip(shape[e - 1], shape[e])])
        if e < n - 1 or closed:
            v.append([b - a for a, b in zip(shape[e], shape[(e + 1) % n])])
        t = [sum(w[d] / math.hypot(*w)**power for w in v) for d in range(3)]
        h = math.hypot(*t)
        want.append([x / h for x in t])
    for e in range(n):
        c.close(f'tangent {e}', tan[e], want[e])
    s = rql.spline(p, tangent_weight = weight, min_subdivisions = sub, max_degrees_per_knot = None, closed = closed)
    segs = n if closed else n - 1
    c.same('count', len(s), n + segs * (sub - 1))
    for e in range(segs):
        a, b = shape[e], shape[(e + 1) % n]
        h = math.dist(a, b)
        for k in range(sub):
            t = k / sub
            q = [(2 * t**3 - 3 * t**2 + 1) * a[d] + (t**3 - 2 * t**2 + t) * h * want[e][d] + (3 * t**2 - 2 * t**3) * b[d] +
                 (t**3 - t**2) * h * want[(e + 1) % n][d] + o[d] for d in range(3)]
            c.close(f'spline {e} {k}', s[e * sub + k], q)
    if not closed:
        c.close('end', s[-1], p[-1])
    q = rql.spline(p, tangent_weight = weight, min_subdivisions = 1, max_segment_length = 1.5, max_degrees_per_knot = None, closed = closed)
    c.same('count for greatest length', len(q), (n if closed else n) + sum(math.ceil(math.dist(shape[e], shape[(e + 1) % n]) / 1.5) - 1 for e in range(segs)))


def _compare_set(c, what, s, polys):
    c.same(what + ' count', len(s.polys), len(polys))
    c.same(what + ' counts', [int(x) for x in s.count_perpol], [len(p) for p, _ in polys])
    c.same(what + ' all points', [list(x) for x in s.coordinates], [x for p, _ in polys for x in p])
    for e, (p, closed) in enumerate(polys):
        c.same(f'{what} points {e}', [list(x) for x in s.polys[e].coordinates], p)
        c.same(f'{what} closed {e}', bool(s.polys[e].isclosed), closed)


@case('C17', bounds = 'up to 4 polylines of 2 to 4 points with any points and closed flags', params = [
    dict(lens = (3, 4, 3, 3), mode = 'stored'), dict(lens = (2, 3, 4), mode = 'patches'), dict(lens = (3, 2, 3), mode = 'combined'),
    dict(lens = (3, 2, 4), mode = 'irap'), dict(lens = (2, 4), mode = 'charisma')])
def sets(c, lens, mode):
    m = _model(c)
    pts = [[list(x) for x in c.reals(f'p{e}', (n, 3), LO, HI)] for e, n in enumerate(lens)]
    closed = [bool(c.fix(c.bool(f'closed{e}'))) if n > 2 else False for e, n in enumerate(lens)]
    for p in pts:
        c.assume(c.Or(p[0][0] - p[-1][0] > 1000, p[0][0] - p[-1][0] < -1000))     # clear of the tolerance for equal ends
        for q in p:
            c.assume(c.Or(q[0] > 1000, q[0] < -1000))                            # 999.0 marks the end of a line in some files
    lines = [_line(m, np.array(p), b, f'l{e}') for e, (p, b) in enumerate(zip(pts, closed))]
    want = list(zip(pts, closed))
    if mode == 'combined':
        s = rql.PolylineSet(m, polylines = lines[:1], title = 's')
        other = rqc.Crs(m, x_offset = 100.0, z_inc_down = False, title = 'other')
        other.create_xml()
        moved = rql.Polyline(m, set_coord = np.array([[q[0] - 100.0, q[1], -q[2]] for q in pts[2]]), set_crs = other.uuid, is_closed = closed[2], title = 'o')
        s.combine_polylines([lines[0], lines[1], moved, lines[0]])
        c.same('counts', [int(x) for x in s.count_perpol], list(lens) + [lens[0]])
        c.close('points', s.coordinates, [x for p in pts + pts[:1] for x in p])
        c.same('closed flags', [bool(x) for x in s.closed_array], closed + closed[:1])
        c.close('moved line', moved.coordinates, [[q[0] - 100.0, q[1], -q[2]] for q in pts[2]])
        c.raises('mixed crs', lambda: rql.PolylineSet(m, polylines = [lines[0], moved]), AssertionError)
        return
    s = rql.PolylineSet(m, polylines = lines, title = 's')
    _compare_set(c, 'new', s, want)
    if mode in ('irap', 'charisma'):
        f = os.path.join(c.tmpdir, 'lines.txt')
        getattr(s, 'convert_to_' + mode)(f)
        if bool(c.fix(c.bool('single'))):
            with open(f) as fp:
                text = fp.read().splitlines()
            lone = '1.0 2.0 3.0\n999.0 999.0 999.0' if mode == 'irap' else 'INLINE-\t0\t0\t1.0\t2.0\t3.0\ts\t{}'
            where = int(c.fix(c.int('where', 0, 1)))
            text = ([lone.format(0)] if where == 0 else []) + text + ([lone.format(99)] if where else [])
            with open(f, 'w') as fp:
                fp.write('\n'.join(text) + '\n')
        r = rql.PolylineSet(m, **{mode + '_file': f}, crs_uuid = m.crs_uuid)
        if mode == 'charisma':
            want = [(p, False) for p in pts]
            _compare_set(c, mode, r, want)
        else:
            c.same('count', len(r.polys), len(want))
            for e, (p, b) in enumerate(want):
                c.same(f'points {e}', [list(x) for x in r.polys[e].coordinates], p)
                c.same(f'closed {e}', bool(r.polys[e].isclosed), b)
        r.write_hdf5()
        r.create_xml()
        _compare_set(c, mode + ' stored', rql.PolylineSet(_reopen(c, m), uuid = r.uuid), want)
        return
    s.write_hdf5()
    s.create_xml()
    if mode == 'patches':
        t = rql.PolylineSet(m, polylines = lines[::-1], title = 't')
        t.write_hdf5()
        t.create_xml()
        node = copy.deepcopy(rqet.find_tag(t.root, 'LinePatch'))
        rqet.find_tag(node, 'PatchIndex').text = '1'
        s.root.append(node)
        want = want + want[::-1]
    r = rql.PolylineSet(_reopen(c, m), uuid = s.uuid)
    _compare_set(c, 'stored', r, want)
    c.same('all closed flags', [bool(x) for x in r.closed_array], [b for _, b in want])
    if mode == 'stored':
        again = r.convert_to_polylines()
        for e, (p, b) in enumerate(want):
            c.same(f'converted {e}', [list(x) for x in again[e].coordinates], p)
            c.same(f'converted closed {e}', bool(again[e].isclosed), b)
    r.uuid = None
    r.title = 'again'
    r.write_hdf5()
    r.create_xml()
    _compare_set(c, 'stored again', rql.PolylineSet(_reopen(c, r.model), uuid = r.uuid), want)


@case('C17', bounds = 'two squares and an open line, any point', params = [dict(mode = 'crossing'), dict(mode = 'winding')])
def containing(c, mode):
    m = _model(c)
    sq = [[(0.0, 0.0, 0.0), (0.0, 5.0, 0.0), (5.0, 5.0, 0.0), (5.0, 0.0, 0.0)], [(3.0, 3.0, 0.0), (9.0, 3.0, 0.0), (9.0, 8.0, 0.0), (3.0, 8.0, 0.0)],
          [(-9.0, -9.0, 0.0), (20.0, -9.0, 0.0), (20.0, 20.0, 0.0)]]
    s = rql.PolylineSet(m, polylines = [_line(m, np.array(sq[2]), False, 'o'), _line(m, np.array(sq[0]), True), _line(m, np.array(sq[1]), True)])
    x, y = c.real('x', -30, 30), c.real('y', -30, 30)
    for v in (0.0, 5.0, 3.0, 9.0, 8.0):
        c.assume(c.And(*[c.Or(q > v + 0.001, q < v - 0.001) for q in (x, y)]))
    i = s.poly_index_containing_point_in_xy((x, y, 0.0), mode = mode)
    a = c.And(x > 0, x < 5, y > 0, y < 5)
    b = c.And(x > 3, x < 9, y > 3, y < 8)
    c.check('first polygon which contains the point', a if i == 1 else c.And(b, c.Not(a)) if i == 2 else c.And(c.Not(a), c.Not(b), i is None))
