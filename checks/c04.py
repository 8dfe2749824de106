"""C04: coordinate reference systems."""
from symx.run import case

import math as maths
import numpy as np
import resqpy.crs as rqc
import resqpy.weights_and_measures as wam

META = dict(
    title = 'Coordinate reference system conversions are exact and mutually inverse',
    statement = 'Converting a point between a local crs and its parent, or between two local crs\'s, yields the same physical '
    'location for every combination of axis orders, offsets, rotation (in any rotation units), z direction and units. '
    'Converting back recovers the point, and the single point and array forms agree. Two crs\'s are reported equivalent '
    'only if conversion between them moves no point by more than the tolerance on their parameters.',
    text = 'every axis order pair, z direction, units combination; any offsets, rotation angle and point',
    why = 'tests try a few combinations of axis order, rotation and offset; errors show only for particular pairs',
    files = ['resqpy/crs.py', 'resqpy/olio/vector_utilities.py'],
    mechanism = [('Crs transforms', 'resqpy/crs.py')],
    observe = ['points returned by Crs conversion methods', 'Crs.is_equivalent'],
    note = 'reals idealised; sin and cos abstracted as any pair with s^2 + c^2 = 1 for each distinct angle')

ORDERS = rqc.Crs.valid_axis_orders
COMPASS = {'easting': (1, 0), 'northing': (0, 1), 'westing': (-1, 0), 'southing': (0, -1)}
METRES = {'m': 1.0, 'ft': 0.3048, 'km': 1000.0, 'cm': 0.01}
SECONDS = {'s': 1.0, 'ms': 0.001, 'min': 60.0}


def _axes(order):
    a, b = order.split()
    return COMPASS[a], COMPASS[b]


def _crs(c, n, order, rot = 'dega', xy = 'm', z = 'm', down = None, time = None, offsets = True):
    xo, yo, zo = (c.real(f'{n}xo', -1.0e6, 1.0e6), c.real(f'{n}yo', -1.0e6, 1.0e6),
                  c.real(f'{n}zo', -1.0e4, 1.0e4)) if offsets else (0.0, 0.0, 0.0)
    if offsets:
        # all zero, all non-zero, or any
        if offsets == 'zero':
            xo, yo, zo = 0.0, 0.0, 0.0
        elif offsets == 'nonzero':
            c.assume(c.And(xo != 0.0, yo != 0.0, zo != 0.0))
    if rot == 'dega':
        ang = c.real(f'{n}rot', -359, 359)
    elif rot == 'rad':
        ang = c.real(f'{n}rot', -6.2, 6.2)
    else:
        rot, ang = 'dega', 0.0
    if down is None:
        down = c.choice(f'{n}down', [True, False])
    crs = rqc.Crs(None, x_offset = xo, y_offset = yo, z_offset = zo, rotation = ang, rotation_units = rot, xy_units = xy,
                  z_units = z, z_inc_down = down, axis_order = order, time_units = time)
    return crs, (xo, yo, zo, ang, rot, down, order)


def _compass(spec, p):
    """(east, north, down) of a local point; independent statement of the meaning of the crs"""
    xo, yo, zo, ang, rot, down, order = spec
    (ae, an), (be, bn) = _axes(order)
    x, y, z = p
    e, n = x * ae + y * be, x * an + y * bn
    if isinstance(ang, float) and ang == 0.0:
        e1, n1 = e, n
    else:
        deg = ang if rot == 'dega' else wam.convert(ang, rot, 'dega', quantity = 'plane angle')
        s, co = np.sin(np.radians(deg)), np.cos(np.radians(deg))
        # positive rotation: local axes are clockwise from the global axes, seen from above
        e1, n1 = e * co + n * s, n * co - e * s
    e1 = e1 + xo * ae + yo * be
    n1 = n1 + xo * an + yo * bn
    z1 = z + zo
    return e1, n1, (z1 if down else -z1)


def _negligible(spec):
    """the code treats angles very close to 0 or 360 degrees as no rotation"""
    deg = spec[3] if spec[4] == 'dega' else wam.convert(spec[3], spec[4], 'dega', quantity = 'plane angle')
    return deg


def _assume_rotated(c, spec):
    deg = _negligible(spec)
    c.assume(c.Or(deg > 0.001, deg < -0.001))


@case('C04', bounds = 'every local axis order, global axis order, z direction; any offsets, angle, point', params = [
    dict(order = o) for o in ORDERS])
def to_and_from_parent(c, order):
    rot = c.choice('rot', ['dega', 'rad', 'none'])
    g = c.choice('g', ORDERS)
    if c.tier == 'quick' and rot == 'rad' and g != order:
        return
    offsets = True if g == order and rot == 'none' else 'nonzero'
    crs, spec = _crs(c, 'a', order, rot, offsets = offsets)
    if rot != 'none':
        _assume_rotated(c, spec)
    gdown = c.choice('gdown', [True, False])
    p = c.reals('p', 3, -1.0e5, 1.0e5)
    q = crs.local_to_global((p[0], p[1], p[2]), global_z_inc_down = gdown, global_axis_order = g)
    (ae, an), (be, bn) = _axes(g)
    want = _compass(spec, (p[0], p[1], p[2]))
    got = (q[0] * ae + q[1] * be, q[0] * an + q[1] * bn, q[2] if gdown else -q[2])
    c.close('same physical location', list(got), list(want), tol = 1.0e-5)
    back = crs.global_to_local(q, global_z_inc_down = gdown, global_axis_order = g)
    c.close('round trip', list(back), list(p), tol = 1.0e-5)
    a = c.array([[p[0], p[1], p[2]], [p[1], p[0], p[2]]], dtype = float)
    crs.local_to_global_array(a, global_z_inc_down = gdown, global_axis_order = g)
    c.close('array form agrees', a[0], list(q), tol = 1.0e-5)
    crs.global_to_local_array(a, global_z_inc_down = gdown, global_axis_order = g)
    c.close('array round trip', a, [[p[0], p[1], p[2]], [p[1], p[0], p[2]]], tol = 1.0e-5)
    c.record('q', list(q))


@case('C04', bounds = 'every pair of axis orders; any offsets, angles and points', params = [
    dict(order = o) for o in ORDERS], cost = 3)
def between_two(c, order):
    kind = c.choice('kind', ['plain', 'rotated', 'units', 'time'])
    oo = c.choice('oo', ORDERS)
    nz = c.choice('offsets', ['nonzero', 'zero'])
    if kind == 'rotated' and nz == 'zero':
        return
    if kind != 'plain' and oo != ('northing westing' if order != 'northing westing' else 'southing westing'):
        return
    if kind == 'rotated':
        a, sa = _crs(c, 'a', order, 'dega', down = True, offsets = nz)
        b, sb = _crs(c, 'b', oo, 'rad', down = True, offsets = nz)
        _assume_rotated(c, sa)
        _assume_rotated(c, sb)
        u = (1.0, 1.0, 1.0)
    elif kind == 'plain':
        a, sa = _crs(c, 'a', order, 'none', offsets = nz)
        b, sb = _crs(c, 'b', oo, 'none', offsets = nz)
        u = (1.0, 1.0, 1.0)
    elif kind == 'units':
        xa, za, xb, zb = c.choice('u', [('m', 'm', 'ft', 'ft'), ('m', 'ft', 'm', 'm'), ('km', 'm', 'm', 'ft'),
                                        ('ft', 'cm', 'cm', 'km')])
        a, sa = _crs(c, 'a', order, 'none', xy = xa, z = za, offsets = nz)
        b, sb = _crs(c, 'b', oo, 'none', xy = xb, z = zb, down = True, offsets = nz)
        u = (METRES[xa] / METRES[xb], METRES[xa] / METRES[xb], METRES[za] / METRES[zb])
    else:
        xa, ta, xb, tb = c.choice('u', [('m', 's', 'm', 'ms'), ('ft', 'ms', 'm', 's'), ('m', 'min', 'cm', 's')])
        a, sa = _crs(c, 'a', order, 'none', xy = xa, z = xa, time = ta, offsets = nz)
        b, sb = _crs(c, 'b', oo, 'none', xy = xb, z = xb, down = True, time = tb, offsets = nz)
        u = (METRES[xa] / METRES[xb], METRES[xa] / METRES[xb], SECONDS[ta] / SECONDS[tb])
    p = c.reals('p', 3, -1.0e5, 1.0e5)
    ca = _compass(sa, (p[0], p[1], p[2]))
    want = [ca[0] * u[0], ca[1] * u[1], ca[2] * u[2]]
    pts = [(p[0], p[1], p[2])]
    q = a.convert_to(b, pts[0])
    tol = 1.0e-4 if kind == 'rotated' else 1.0e-6
    c.close('same physical location', list(_compass(sb, q)), want, tol = tol)
    c.close('convert_from agrees', list(b.convert_from(a, pts[0])), list(q), tol = tol)
    if kind != 'rotated':
        c.close('round trip', list(b.convert_to(a, q)), list(p), tol = tol)
    arr = c.array(pts, dtype = float)
    if not a.is_equivalent(b):
        r = a.convert_array_to(b, arr)
        c.close('array form agrees', r[0], list(q), tol = tol)
        c.close('array converted in situ', arr[0], list(q), tol = tol)
        arr2 = c.array(pts, dtype = float)
        r2 = b.convert_array_from(a, arr2)
        c.close('array from form agrees', r2[0], list(q), tol = tol)
    c.record('q', list(q))


@case('C04', bounds = 'any offsets within 10, any rotations in dega or rad, every attribute combination', params = [
    dict(ia = 0, ib = i) for i in range(7)] + [dict(ia = i, ib = i, _tier = 'quick' if i in (1, 5) else 'thorough')
                                               for i in range(1, 7)] +
      [dict(ia = 5, ib = 6), dict(ia = 2, ib = 3), dict(ia = 1, ib = 4, _tier = 'thorough')])
def equivalence(c, ia, ib):
    def mk(n, order, rot, xy, down, time):
        off = c.reals(f'{n}off', 3, -10, 10)
        ang = c.real(f'{n}ang', -3, 3)
        crs = rqc.Crs(None, x_offset = off[0], y_offset = off[1], z_offset = off[2], rotation = ang, rotation_units = rot,
                      xy_units = xy, z_units = xy, z_inc_down = down, axis_order = order, time_units = time)
        return crs, off, ang, (order, xy, down, time)

    attrs = [('easting northing', 'dega', 'm', True, None), ('easting northing', 'rad', 'm', True, None),
             ('northing easting', 'dega', 'm', True, None), ('easting northing', 'dega', 'ft', True, None),
             ('easting northing', 'dega', 'm', False, None), ('easting northing', 'dega', 'm', True, 's'),
             ('easting northing', 'dega', 'm', True, 'ms')]
    ta, tb = attrs[ia], attrs[ib]
    a, oa, aa, ka = mk('a', *ta)
    b, ob, ab, kb = mk('b', *tb)
    eq = a.is_equivalent(b)
    c.check('reflexive', a.is_equivalent(a))
    c.check('symmetric', c.Iff(eq, b.is_equivalent(a)))
    if ka != kb:
        c.check('different attributes are not equivalent', c.Not(eq))
        return
    deg = [x if t[1] == 'dega' else wam.convert(x, 'rad', 'dega', quantity = 'plane angle') for x, t in ((aa, ta), (ab, tb))]
    d = deg[0] - deg[1]
    near = c.And(*[c.And(oa[i] - ob[i] <= 0.001, ob[i] - oa[i] <= 0.001) for i in range(3)])
    c.check('equivalent only when offsets and rotation match', c.Implies(eq, c.And(near, d < 0.01, d > -0.01)))
    same = c.And(*[oa[i] == ob[i] for i in range(3)])
    c.check('matching parameters are equivalent', c.Implies(c.And(same, d == 0), eq))
