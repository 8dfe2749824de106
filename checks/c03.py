"""C03: volumes of cells."""
from symx.run import case

import numpy as np
import resqpy.olio.volume as vol

META = dict(
    title = 'Cell volume is the exact volume enclosed by the cell faces',
    statement = 'The volume reported for a hexahedral cell, singly or as an array over a grid, equals the volume enclosed by '
    'its six bilinear faces for every position of the eight corners, whatever interior centre point is given, and changes sign with handedness. '
    'Pyramid and tetrahedron volumes likewise equal the exact enclosed volume.',
    text = 'every set of corner points; every centre point; both handedness values; every cell of small grids',
    why = 'tests only use cells with planar faces or compare the two implementations with each other',
    files = ['resqpy/olio/volume.py', 'resqpy/grid/_cell_properties.py'],
    mechanism = [('sum of pyramids', 'resqpy/olio/volume.py')],
    observe = ['volume functions and grid volume methods'],
    note = 'coordinates any real in [-1000, 1000]; floating point idealised as real arithmetic, tolerance 1e-6 relative')


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def _sub(a, b):
    return [a[i] - b[i] for i in range(3)]


def _add(a, b):
    return [a[i] + b[i] for i in range(3)]


def patch12(a, b, c, d):
    """12 times the integral of r.(r_u x r_v) over the bilinear patch a + u(b - a) + v(d - a) + uv(a - b + c - d)"""
    e, f = _sub(b, a), _sub(d, a)
    g = _sub(_add(a, c), _add(b, d))
    n0, n1, n2 = _cross(e, f), _cross(e, g), _cross(g, f)
    # moments of u^p v^q on the unit square: 1 / ((p + 1)(q + 1))
    t = 12 * _dot(a, n0) + 6 * _dot(e, n0) + 6 * _dot(f, n0) + 3 * _dot(g, n0)
    t = t + 6 * _dot(a, n1) + 4 * _dot(e, n1) + 3 * _dot(f, n1) + 2 * _dot(g, n1)
    t = t + 6 * _dot(a, n2) + 3 * _dot(e, n2) + 4 * _dot(f, n2) + 2 * _dot(g, n2)
    return t


def hexa36(cp):
    """36 times the volume of a hexahedral cell with bilinear faces, by the divergence theorem"""
    p = lambda k, j, i: [cp[k, j, i, x] for x in range(3)]
    t = 0
    # each face ordered so that its normals point out of the cell when ijk is right handed in xyz
    t = t + patch12(p(0, 0, 0), p(0, 1, 0), p(0, 1, 1), p(0, 0, 1))
    t = t + patch12(p(1, 0, 0), p(1, 0, 1), p(1, 1, 1), p(1, 1, 0))
    t = t + patch12(p(0, 0, 0), p(0, 0, 1), p(1, 0, 1), p(1, 0, 0))
    t = t + patch12(p(0, 1, 0), p(1, 1, 0), p(1, 1, 1), p(0, 1, 1))
    t = t + patch12(p(0, 0, 0), p(1, 0, 0), p(1, 1, 0), p(0, 1, 0))
    t = t + patch12(p(0, 0, 1), p(0, 1, 1), p(1, 1, 1), p(1, 0, 1))
    return t


@case('C03', bounds = 'one cell, any 8 corner points in [-1000, 1000]^3; centre default or any point')
def single_cell(c):
    cp = c.reals('cp', (2, 2, 2, 3), -1000, 1000)
    mode = c.choice('mode', ['default', 'given'])
    centre = None if mode == 'default' else c.reals('centre', 3, -1000, 1000)
    v = vol.tetra_cell_volume(cp, centre = centre)
    c.close('exact volume of hexahedron with bilinear faces', v * 36, hexa36(cp), tol = 1.0e-6)
    w = vol.tetra_cell_volume(cp, centre = centre, off_hand = True)
    c.close('handedness flips sign', w, -v)
    c.record('v', v)


@case('C03', bounds = 'grids of 1x1x2, 2x1x1 and 1x2x1 cells, any corner points in [-1000, 1000]^3', params = [
    dict(ext = (1, 1, 2)), dict(ext = (2, 1, 1)), dict(ext = (1, 2, 1)),
    dict(ext = (2, 2, 2), _tier = 'thorough')])
def array_form(c, ext):
    cp = c.reals('cp', ext + (2, 2, 2, 3), -1000, 1000)
    mode = c.choice('mode', ['default', 'given'])
    centres = None if mode == 'default' else c.reals('centre', ext + (3,), -1000, 1000)
    off = c.choice('off', [False, True])
    v = vol.tetra_volumes(cp, centres = centres, off_hand = off)
    c.same('shape', c.shape(v), ext)
    slow = vol.tetra_volumes_slow(cp, centres = centres, off_hand = off)
    for ix in np.ndindex(*ext):
        h = hexa36(cp[ix])
        c.close('array volume is exact', v[ix] * 36, -h if off else h)
        c.close('loop volume is exact', slow[ix] * 36, -h if off else h)
    c.record('v', v)


@case('C03', bounds = 'any apex and base corners in [-1000, 1000]^3')
def pyramid(c):
    p = c.reals('p', (5, 3), -1000, 1000)
    right = c.choice('right', [False, True])
    v = vol.pyramid_volume(p[0], p[1], p[2], p[3], p[4], crs_is_right_handed = right)
    # origin at apex: only the base contributes
    q = [[p[n, x] - p[0, x] for x in range(3)] for n in range(1, 5)]
    t = patch12(q[0], q[1], q[2], q[3])
    c.close('pyramid with bilinear base', v * 36, -t if not right else t)
    c.record('v', v)


@case('C03', bounds = 'any four points in [-1000, 1000]^3')
def tetrahedron(c):
    p = c.reals('p', (4, 3), -1000, 1000)
    v = vol.tetrahedron_volume(p[0], p[1], p[2], p[3])
    a, b, d = [[p[n, x] - p[0, x] for x in range(3)] for n in (1, 2, 3)]
    det = _dot(a, _cross(b, d))
    c.check('not negative', v >= 0)
    w = v * 6
    if det >= 0:
        c.close('volume of tetrahedron', w, det)
    else:
        c.close('volume of tetrahedron', w, -det)
