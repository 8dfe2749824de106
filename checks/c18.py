"""C18: the faces chosen to represent a surface are those that the surface separates."""
from symx.run import case
import numpy as np
import resqpy.crs as rqc
import resqpy.fault as rqf
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.property as rqp
import resqpy.grid_surface as rgs
import resqpy.grid_surface._find_faces as ff
import resqpy.surface as rqs
from checks.c08 import _model, _reopen

META = dict(
    title = 'Faces found to represent a surface separate the cells on its two sides',
    statement = 'Whichever method is used, the face between two neighbouring cells of a grid is in the connection set found for a '
    'surface exactly when the line joining the two cell centres passes through a triangle of the surface, with the triangle, '
    'depth, offset and normal vector reported for that face being those of the crossing and the surface itself left where it '
    'was, in whichever coordinate reference system it is held. Bisectors are true for exactly the cells on one side of the '
    'faces (the shallower one unless raw), are recognised as columns for a curtain, and shadows tell which cells lie above, '
    'below or between the faces of their column.',
    text = 'any position of a surface of a few triangles relative to the grid, any heights of a surface dividing the columns, '
    'any set of K faces, in grids of a few cells',
    why = 'five implementations, axes with separate code and edge cases where a surface passes outside or only just inside the '
    'grid; tests use a few surfaces and compare counts',
    files = ['resqpy/grid_surface/_find_faces.py'],
    mechanism = [('find_faces_to_represent_surface', 'resqpy/grid_surface/_find_faces.py'),
                 ('points_in_triangles', 'resqpy/olio/vector_utilities.py'),
                 ('line_triangle_intersect', 'resqpy/olio/intersection.py')],
    observe = ['cell and face index pairs of the connection set, property arrays, bisector and shadow arrays'],
    note = 'aligned regular grids of up to 12 cells with origin zero; surfaces of one to four triangles moved along one axis; a '
    'margin around the triangle edges and cell centres excluded; reals idealised; the cuda version not covered')

FACE = {(0, 0): 0, (0, 1): 1, (1, 0): 2, (2, 1): 3, (1, 1): 4, (2, 0): 5}

# triangles given by points before the shift; grid is 0..2 in x, 0..4 in y (dy 2), 0..3 in z unless stated
SURFACES = {
    'slope': ([(-1.3, -2.1, -0.2), (3.4, -1.7, 1.3), (0.9, 7.3, 2.1)], [(0, 1, 2)]),
    'fold': ([(-0.7, -1.1, 0.4), (3.1, -0.9, 1.9), (2.7, 5.3, 0.3), (-0.9, 4.7, 1.1)], [(0, 1, 2), (2, 3, 0)]),
    'small': ([(0.15, 0.37, 0.07), (1.9, 0.6, 1.2), (0.3, 3.6, 0.8)], [(1, 0, 2)]),
    'steep': ([(0.2, -1.0, -1.7), (1.9, -0.7, 4.6), (1.1, 5.4, 4.9), (0.4, 5.1, -1.3)], [(0, 1, 2), (0, 3, 2)]),
    'curtain': ([(-0.6, -0.7, -2.0), (-0.6, -0.7, 6.0), (2.7, 4.9, -2.0), (2.7, 4.9, 6.0)], [(0, 1, 2), (2, 1, 3)]),
}
MODES = ('staffa', 'regular', 'regular_dense', 'regular_optimised')


def _orient(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def _crossing(c, tri, at, axis, margins):
    """position along axis where the line through point at parallel to axis meets the plane of tri, and whether inside;
    points near the boundary are excluded by assumption"""
    o = [a for a in range(3) if a != axis]
    f = [[v[a] for a in o] for v in tri]
    p = [at[a] for a in o]
    area = _orient(f[0], f[1], f[2])
    w = [_orient(f[(n + 1) % 3], f[(n + 2) % 3], p) for n in range(3)]
    margins += [c.Or(x > 1.0e-3, x < -1.0e-3) for x in w]
    inside = c.Or(c.And(*[x > 0 for x in w]), c.And(*[x < 0 for x in w]))
    return inside, w, area


def _surface(m, points, tris, crs_uuid = None, store = True, title = 'surface'):
    s = rqs.Surface(m, crs_uuid = m.crs_uuid if crs_uuid is None else crs_uuid, title = title)
    s.set_from_triangles_and_points(np.array(tris, dtype = int), points)
    if store:
        s.write_hdf5()
        s.create_xml()
    return s


def _faces_of(c, gcs, extent):
    """dictionary of (axis, k, j, i) -> index in connection set, cells either side checked"""
    nk, nj, ni = extent
    out = {}
    if gcs is None:
        return out
    c.same('arrays agree', (len(gcs.cell_index_pairs), len(gcs.face_index_pairs)), (gcs.count, gcs.count))
    for n in range(gcs.count):
        a, b = (c.fix(x) for x in gcs.cell_index_pairs[n])
        fa, fb = (c.fix(x) for x in gcs.face_index_pairs[n])
        flip = a > b
        if flip:
            a, b, fa, fb = b, a, fb, fa
        kji = (a // (nj * ni), (a // ni) % nj, a % ni)
        cand = [x for x, st in ((0, nj * ni), (1, ni), (2, 1)) if b - a == st and (fa, fb) == (FACE[(x, 1)], FACE[(x, 0)])]
        c.check('joins neighbours by their common faces', len(cand) == 1)
        key = (cand[0],) + kji
        c.check('face inside the grid', kji[cand[0]] < extent[cand[0]] - 1)
        c.check('each face once', key not in out)
        out[key] = (n, flip)
    return out


def _expected(c, points, tris, extent, dxyz, axes = (0, 1, 2)):
    """(axis, k, j, i) -> list of (triangle, condition that it crosses between the centres, numerator, denominator)"""
    out = {}
    margins = []
    for k in range(extent[0]):
        for j in range(extent[1]):
            for i in range(extent[2]):
                cell = (k, j, i)
                centre = [(cell[2 - a] + 0.5) * dxyz[a] for a in range(3)]
                for axis in axes:
                    if cell[axis] == extent[axis] - 1:
                        continue
                    xa = 2 - axis
                    hits = []
                    for tn, t in enumerate(tris):
                        tri = [points[x] for x in t]
                        inside, w, area = _crossing(c, tri, centre, xa, margins)
                        num = w[0] * tri[0][xa] + w[1] * tri[1][xa] + w[2] * tri[2][xa]  # = area * position
                        for edge in (centre[xa], centre[xa] + dxyz[xa]):
                            d = num - area * edge
                            margins.append(c.Or(c.Not(inside), d > 1.0e-3, d < -1.0e-3))
                        hits.append((tn, inside, num, area))
                    out[(axis,) + cell] = (centre[xa], hits)
    c.assume(c.And(*margins))
    return out


def _check(c, gcs, props, want, points, tris, extent, dxyz, tag = '', normals = None):
    got = _faces_of(c, gcs, extent)
    chosen = []
    for key, (lo, hits) in want.items():
        xa = 2 - key[0]
        conds = []
        for tn, inside, num, area in hits:
            pos = bool(area > 0)
            lo_ok = num > area * lo if pos else num < area * lo
            hi_ok = num < area * (lo + dxyz[xa]) if pos else num > area * (lo + dxyz[xa])
            conds.append(c.And(inside, lo_ok, hi_ok))
        chosen.append(c.Iff(key in got, c.Or(*conds)))
        if key not in got or not props:
            continue
        n = got[key][0]
        mid = lo + 0.5 * dxyz[xa]
        if 'triangle' in props:
            c.check(f'{tag}triangle crosses at the face', c.Or(*[c.And(int(props['triangle'][n]) == h[0], x)
                                                                 for h, x in zip(hits, conds)]))
        if 'offset' in props:
            c.check(f'{tag}offset is from face centre to crossing',
                    c.Or(*[c.And(x, (props['offset'][n] + mid) * h[3] - h[2] <= 1.0e-6,
                                 (props['offset'][n] + mid) * h[3] - h[2] >= -1.0e-6) for h, x in zip(hits, conds)]))
        if 'depth' in props:
            if xa == 2:
                c.check(f'{tag}depth is z of crossing',
                        c.Or(*[c.And(x, props['depth'][n] * h[3] - h[2] <= 1.0e-6, props['depth'][n] * h[3] - h[2] >= -1.0e-6)
                               for h, x in zip(hits, conds)]))
            else:
                c.close(f'{tag}depth is z of crossing', props['depth'][n], (key[1] + 0.5) * dxyz[2])
        if 'normal vector' in props:
            v = props['normal vector'][n]
            ok = []
            for h, x in zip(hits, conds):
                nv = normals[h[0]]
                ok.append(c.And(x, *[c.And(v[a] - nv[a] <= 1.0e-6, v[a] - nv[a] >= -1.0e-6) for a in range(3)]))
            c.check(f'{tag}normal vector is that of a triangle crossing there', c.Or(*ok))
    c.check(f'{tag}faces chosen exactly where the surface passes between the centres', c.And(*chosen))
    return got


def _shifted(c, which, axis, lo, hi, v = None):
    pts, tris = SURFACES[which]
    s = c.real('shift', lo, hi) if v is None else v
    p = c.zeros((len(pts), 3))
    for n, x in enumerate(pts):
        for a in range(3):
            p[n, a] = x[a] + (s if a == axis else 0.0)
    return p, [tuple(t) for t in tris]


def _norm(tri):
    u = [tri[1][a] - tri[0][a] for a in range(3)]
    v = [tri[2][a] - tri[0][a] for a in range(3)]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    d = sum(x * x for x in n)**0.5
    n = [x / d for x in n]
    if n[2] > 0.0:
        n = [-x for x in n]
    return n


def _grid_for(m, extent, dxyz):
    return grr.RegularGrid(m, extent_kji = extent, dxyz = dxyz, crs_uuid = m.crs_uuid, title = 'grid')


def _find(mode, g, s, props = None, **k):
    if mode == 'auto' or mode == 'staffa':
        r = rgs.find_faces_to_represent_surface(g, s, 'surf', mode = mode, **k)
        return r, {}
    if mode == 'regular':
        r = ff.find_faces_to_represent_surface_regular(g, s, 'surf', return_properties = props, **k)
    elif mode == 'regular_dense':
        r = ff.find_faces_to_represent_surface_regular_dense_optimised(g, s, 'surf', return_properties = props, **k)
    else:
        r = ff.find_faces_to_represent_surface_regular_optimised(g, s, 'surf', return_properties = props, n_batches = 2, **k)
    return r if props else (r, {})


def _props_for(mode):
    return {'staffa': None, 'regular': ['offset', 'normal vector'], 'regular_dense': ['triangle', 'depth', 'offset'],
            'regular_optimised': ['triangle', 'depth', 'offset']}[mode]


QUICK = {'staffa': [('fold', 2), ('steep', 0), ('small', 1)], 'regular': [('fold', 2), ('steep', 0), ('small', 1)],
         'regular_dense': [('fold', 2), ('steep', 0), ('small', 1)], 'regular_optimised': [('fold', 2), ('steep', 2), ('small', 1)]}


def _t(mode, which, axis):
    """thorough tier only for some combinations"""
    return {} if (which, axis) in QUICK[mode] else dict(_tier = 'thorough')


@case('C18', bounds = 'aligned grid of 2 x 2 x 2 cells (thorough 3 x 2 x 2); surface of 1 or 2 triangles at any shift along one axis',
      params = [dict(mode = m, which = w, axis = a, **_t(m, w, a)) for m in MODES for w in ('slope', 'fold', 'small', 'steep')
                for a in range(3) if (m, w, a) != ('regular_optimised', 'steep', 0)], max_paths = 400)
def faces(c, mode, which, axis):
    m = c.once('model', lambda: _model(c))
    extent, dxyz = (2, 2, 2) if c.tier != 'thorough' else (3, 2, 2), (1.0, 2.0, 1.0)
    span = 2.5 if c.tier != 'thorough' else 5.0
    p, tris = _shifted(c, which, axis, -span, span)
    want = _expected(c, p, tris, extent, dxyz)
    g = _grid_for(m, extent, dxyz)
    s = _surface(m, p.copy(), tris, store = False)
    names = _props_for(mode)
    gcs, props = _find(mode, g, s, names)
    if names and gcs is not None:
        c.same('properties returned', sorted(props.keys()), sorted(names))
    normals = [_norm([SURFACES[which][0][x] for x in t]) for t in tris]
    got = _check(c, gcs, props, want, p, tris, extent, dxyz, normals = normals)
    if got:
        c.same('feature', gcs.list_of_feature_names(), ['surf'])
    t2, p2 = s.triangles_and_points()
    c.check('surface unchanged', c.And(*[p2[n, a] == p[n, a] for n in range(len(p)) for a in range(3)]))


@case('C18', bounds = 'grids with a single cell in one or two axes, or surface clear of grid; surface at any shift',
      params = [dict(mode = m, extent = e, which = w) for m in MODES for e, w in (((1, 1, 3), 'steep'), ((1, 3, 1), 'steep'),
                                                                                   ((3, 1, 1), 'slope'))], max_paths = 200)
def thin(c, mode, extent, which):
    m = c.once('model', lambda: _model(c))
    dxyz = (0.75, 1.5, 1.25)
    p, tris = _shifted(c, which, 2 if extent[0] > 1 or mode == 'regular_optimised' else 0, -2.0, 2.0)
    want = _expected(c, p, tris, extent, dxyz)
    g = _grid_for(m, extent, dxyz)
    s = _surface(m, p.copy(), tris, store = False)
    gcs, props = _find(mode, g, s, _props_for(mode))
    normals = [_norm([SURFACES[which][0][x] for x in t]) for t in tris]
    _check(c, gcs, props, want, p, tris, extent, dxyz, normals = normals)


@case('C18', bounds = 'surface held with z upwards, in other units or with an offset; found twice, then converted',
      params = [dict(mode = m) for m in MODES], max_paths = 200)
def other_crs(c, mode):
    m = c.once('model', lambda: _model(c, xy_units = 'm', z_units = 'm'))
    crs = rqc.Crs(m, xy_units = 'm', z_units = 'm', z_inc_down = False, x_offset = 2.0, z_offset = 1.0)
    crs.create_xml()
    extent, dxyz = (3, 1, 2), (1.0, 2.0, 1.0)
    q, tris = _shifted(c, 'slope', 2, -1.5, 1.5)
    want = _expected(c, q, tris, extent, dxyz)
    g = _grid_for(m, extent, dxyz)
    own = c.zeros((len(q), 3))
    for n in range(len(q)):
        own[n, 0], own[n, 1], own[n, 2] = q[n, 0] - 2.0, q[n, 1], -q[n, 2] - 1.0
    s = _surface(m, own.copy(), tris, crs_uuid = crs.uuid, store = False)
    for tag in ('first ', 'second '):
        gcs, _ = _find(mode, g, s)
        _check(c, gcs, {}, want, q, tris, extent, dxyz, tag = tag)
        now = rqc.Crs(m, uuid = s.crs_uuid)
        p = s.triangles_and_points(copy = True)[1]
        now.convert_array_to(g.crs, p)
        c.check(f'{tag}surface still where it was', c.And(*[c.And(p[n, a] - q[n, a] <= 1.0e-6, p[n, a] - q[n, a] >= -1.0e-6)
                                                            for n in range(len(q)) for a in range(3)]))


def _sides(c, side, extent):
    """boolean face arrays wherever neighbouring cells are on different sides"""
    nk, nj, ni = extent
    kf = c.zeros((nk - 1, nj, ni), dtype = bool)
    jf = c.zeros((nk, nj - 1, ni), dtype = bool)
    jf2 = c.zeros((nk, nj, ni - 1), dtype = bool)
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                if k + 1 < nk:
                    kf[k, j, i] = side[k][j][i] != side[k + 1][j][i]
                if j + 1 < nj:
                    jf[k, j, i] = side[k][j][i] != side[k][j + 1][i]
                if i + 1 < ni:
                    jf2[k, j, i] = side[k][j][i] != side[k][j][i + 1]
    return kf, jf, jf2


def _indices(a):
    """indices of true faces; None when there are none"""
    r = np.stack(np.where(a), axis = -1).astype(np.int32)
    return r if len(r) else None


def _expect_bisector(c, side, extent, raw):
    nk, nj, ni = extent
    cells = [(k, j, i) for k in range(nk) for j in range(nj) for i in range(ni)]
    upper = [x for x in cells if side[x[0]][x[1]][x[2]]]
    lower = [x for x in cells if not side[x[0]][x[1]][x[2]]]
    if not upper or not lower:
        return None, None
    mu, ml = sum(x[0] for x in upper) / len(upper), sum(x[0] for x in lower) / len(lower)
    origin = upper if (0, 0, 0) in upper else lower
    other = lower if origin is upper else upper
    curtain = abs(mu - ml) <= 0.001
    if raw or curtain:
        return origin, curtain
    return (upper if mu < ml else lower), curtain


@case('C18', bounds = 'columns divided at any height, grids of up to 4 layers and 6 columns; either side up; raw or not',
      params = [dict(extent = e, raw = r, how = h, **({} if t else dict(_tier = 'thorough')))
                for e, t in (((3, 1, 2), True), ((2, 2, 2), True), ((3, 1, 3), False), ((4, 2, 1), True), ((3, 2, 2), False))
                for r in (False, True) for h in ('masks', 'indices')], max_paths = 800)
def bisector(c, extent, raw, how):
    nk, nj, ni = extent
    h = [[c.int(f'h{j}{i}', 0, nk) for i in range(ni)] for j in range(nj)]
    flat = [x for r in h for x in r]
    c.assume(c.And(sum(flat) > 0, sum(flat) < nk * nj * ni))
    side = [[[k < h[j][i] for i in range(ni)] for j in range(nj)] for k in range(nk)]
    kf, jf, i_f = _sides(c, side, extent)
    if how == 'masks':
        got, is_curtain = ff.bisector_from_faces(extent, kf if nk > 1 else None, jf if nj > 1 else None, i_f if ni > 1 else None,
                                                 raw)
    else:
        got, is_curtain = ff.bisector_from_face_indices(extent, _indices(kf), _indices(jf), _indices(i_f), raw)
    side = [[[bool(c.fix(x)) for x in r] for r in layer] for layer in side]
    want, curtain = _expect_bisector(c, side, extent, raw)
    # the two sides must each be in one piece
    cells = {(k, j, i): side[k][j][i] for k in range(nk) for j in range(nj) for i in range(ni)}
    for v in (True, False):
        left = [x for x in cells if cells[x] == v]
        seen, front = {left[0]}, [left[0]]
        while front:
            x = front.pop()
            for y in left:
                if y not in seen and sum(abs(p - q) for p, q in zip(x, y)) == 1:
                    seen.add(y)
                    front.append(y)
        if len(seen) != len(left):
            return
    c.same('curtain recognised', bool(is_curtain), curtain)
    c.same('shape', tuple(got.shape), extent)
    c.same('true on the one side', [x for x in cells if got[x]], want)


@case('C18', bounds = 'any set of columns of up to 3 x 3 in one piece with its complement', params = [dict(how = h, nj = nj, ni = ni)
                                                               for h in ('masks', 'indices') for nj, ni in ((2, 3), (3, 2))],
      max_paths = 200)
def column_bisector(c, how, nj, ni):
    v = [[c.fix(c.bool(f'v{j}{i}')) for i in range(ni)] for j in range(nj)]
    cols = [(j, i) for j in range(nj) for i in range(ni)]
    origin = [x for x in cols if v[x[0]][x[1]] == v[0][0]]
    if len(origin) == len(cols):
        return
    jf = np.array([[v[j][i] != v[j + 1][i] for i in range(ni)] for j in range(nj - 1)], dtype = bool)
    i_f = np.array([[v[j][i] != v[j][i + 1] for i in range(ni - 1)] for j in range(nj)], dtype = bool)
    # reachable from the origin column without crossing a face
    seen, front = {(0, 0)}, [(0, 0)]
    while front:
        x = front.pop()
        for y in origin:
            if y not in seen and abs(x[0] - y[0]) + abs(x[1] - y[1]) == 1:
                seen.add(y)
                front.append(y)
    if how == 'masks':
        got = ff.column_bisector_from_faces((nj, ni), jf, i_f)
    else:
        got = ff.column_bisector_from_face_indices((nj, ni), np.stack(np.where(jf), axis = -1), np.stack(np.where(i_f), axis = -1))
    c.same('true for columns on the side of the first', [x for x in cols if got[x]], sorted(seen))


@case('C18', bounds = 'any K faces in a column of 4 or 5 cells next to another column', params = [dict(how = h) for h in ('masks', 'indices')])
def shadow(c, how):
    nk = 5
    f = [[c.bool(f'f{k}') for k in range(nk - 1)], [False, True, False, False]]
    kf = c.zeros((nk - 1, 1, 2), dtype = bool)
    for k in range(nk - 1):
        kf[k, 0, 0], kf[k, 0, 1] = f[0][k], f[1][k]
    if how == 'masks':
        got = ff.shadow_from_faces((nk, 1, 2), kf)
    else:
        ind = np.stack(np.where(kf), axis = -1)
        got = ff.shadow_from_face_indices((nk, 1, 2), ind)
    f[0] = [bool(c.fix(x)) for x in f[0]]
    want = []
    for i in range(2):
        for k in range(nk):
            above, below = any(f[i][k:]), any(f[i][:k])  # cell is above / below some face
            want.append(3 if above and below else 1 if above else 2 if below else 0)
    c.same('shadow', [int(got[k, 0, i]) for i in range(2) for k in range(nk)], want)
    none = ff.shadow_from_face_indices((nk, 1, 2), None)
    c.same('no faces, no shadow', [int(x) for x in none.flatten()], [0] * (2 * nk))


@case('C18', bounds = 'grid 3 x 3 x 3; one face of each axis anywhere, each present or not')
def boundary(c):
    extent = (3, 3, 3)
    present = [c.fix(c.bool(f'p{a}')) for a in range(3)]
    faces, idx, cells = [], [], []
    for a in range(3):
        shape = [3, 3, 3]
        shape[a] = 2
        if not present[a]:
            faces.append(None)
            idx.append(None)
            continue
        # along the axis of the face and one other
        pos = [1, 1, 1]
        pos[a] = c.fix(c.int(f'a{a}', 0, 1))
        b = (a + 1) % 3
        pos[b] = c.fix(c.int(f'b{a}', 0, 2))
        m = np.zeros(tuple(shape), dtype = bool)
        m[tuple(pos)] = True
        faces.append(m)
        idx.append(np.array([pos], dtype = np.int32))
        other = list(pos)
        other[a] += 1
        cells.append((a, pos, other))
    if not cells:
        return
    # the box holds the cells either side, with a slice of buffer across the direction of a face if there is room
    lo = [min(max(p[x] - (0 if x == a else 1), 0) for a, p, o in cells) for x in range(3)]
    hi = [max(min(o[x] + (0 if x == a else 1), 2) for a, p, o in cells) for x in range(3)]
    box = ff.get_boundary(faces[0], faces[1], faces[2], extent)
    c.same('box', [[int(x) for x in r] for r in box], [lo, [x + 1 for x in hi]])
    d = ff.get_boundary_dict(faces[0], faces[1], faces[2], extent)
    c.same('dictionary', [int(d[x]) for x in ('k_min', 'k_max', 'j_min', 'j_max', 'i_min', 'i_max')],
           [lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]])
    box = ff.get_boundary_from_indices(idx[0], idx[1], idx[2], extent)
    for x in range(3):
        c.check('indices box covers', box[0, x] <= lo[x] and box[1, x] >= hi[x] + 1 and box[0, x] >= 0 and box[1, x] <= 3)


@case('C18', bounds = 'grid 3 x 2 x 2; whole surface across the grid at any shift, crossing each column', params = [
    dict(mode = m, which = w) for m in ('regular_dense', 'regular_optimised') for w in ('across', 'curtain')], max_paths = 150)
def derived_properties(c, mode, which):
    """triangle flags, bisector and shadow returned with the faces follow from the faces"""
    m = c.once('model', lambda: _model(c))
    curtain = which == 'curtain'
    extent, dxyz = (3, 2, 2), (1.0, 2.0, 1.0)
    if curtain:
        pts, tris = SURFACES['curtain']
        s0 = c.real('shift', -0.9, 0.9)
        p = c.zeros((4, 3))
        for n, x in enumerate(pts):
            p[n, 0], p[n, 1], p[n, 2] = x[0], x[1] + s0, x[2]
    else:
        pts, tris = [(-1.0, -1.5, 0.05), (4.0, -1.0, 0.6), (3.9, 6.2, 0.95), (-1.5, 5.5, 0.2)], [(0, 1, 2), (0, 2, 3)]
        s0 = c.real('shift', 0.5, 1.3)
        p = c.zeros((4, 3))
        for n, x in enumerate(pts):
            p[n, 0], p[n, 1], p[n, 2] = x[0], x[1], x[2] + s0
    g = c.once('grid', lambda: _grid_for(m, extent, dxyz))
    s = _surface(m, p.copy(), tris)
    names = ['triangle', 'offset', 'grid bisector', 'grid shadow']
    want = _expected(c, p, [tuple(t) for t in tris], extent, dxyz, (1, 2) if curtain else (0, 1, 2))
    gcs, props = _find(mode, g, s, names, is_curtain = curtain)
    if curtain:
        got = _faces_of(c, gcs, extent)
        # faces of the top layer repeated in every layer, none horizontal
        c.check('no K faces', all(k[0] != 0 for k in got))
        top = sorted(k for k in got if k[1] == 0)
        c.same('each layer alike', sorted(got), sorted((a, k, j, i) for a, _, j, i in top for k in range(3)))
        chosen = []
        for key, (lo, hits) in want.items():
            if key[0] == 0 or key[1] != 0:
                continue
            xa = 2 - key[0]
            conds = []
            for tn, inside, num, area in hits:
                up = bool(area > 0)
                conds.append(c.And(inside, num > area * lo if up else num < area * lo,
                                   num < area * (lo + dxyz[xa]) if up else num > area * (lo + dxyz[xa])))
            chosen.append(c.Iff(key in got, c.Or(*conds)))
        c.check('curtain faces', c.And(*chosen))
    else:
        got = _check(c, gcs, dict((x, props[x]) for x in ('triangle', 'offset')), want, p, [tuple(t) for t in tris], extent, dxyz)
    if not got:
        return
    b, is_c = props['grid bisector']
    c.same('curtain', bool(is_c), curtain)
    cells = [(k, j, i) for k in range(3) for j in range(2) for i in range(2)]
    # flood from the origin
    seen, front = {(0, 0, 0)}, [(0, 0, 0)]
    while front:
        x = front.pop()
        for y in cells:
            d = [q - w for w, q in zip(x, y)]
            if y in seen or sum(abs(v) for v in d) != 1:
                continue
            a = [n for n in range(3) if d[n]][0]
            if ((a,) + min(x, y)) not in got:
                seen.add(y)
                front.append(y)
    if len(seen) == len(cells):
        return
    if curtain:
        c.same('bisector of columns', [(j, i) for j in range(2) for i in range(2) if b[j, i]],
               sorted(set((j, i) for k, j, i in seen)))
    else:
        rest = [x for x in cells if x not in seen]
        up = seen if sum(x[0] for x in seen) / len(seen) <= sum(x[0] for x in rest) / len(rest) else rest
        c.same('bisector is the shallower side', [x for x in cells if b[x]], sorted(up))
        sh = props['grid shadow']
        for x in cells:
            above = any((0, k, x[1], x[2]) in got for k in range(x[0], 3))
            below = any((0, k, x[1], x[2]) in got for k in range(0, x[0]))
            c.same('shadow', int(sh[x]), 3 if above and below else 1 if above else 2 if below else 0)


@case('C18', bounds = 'grid 1 x 2 x 3 with z in feet and x, y in metres; surface at any shift; two triangles with flags',
      params = [dict(mode = m) for m in ('regular', 'regular_dense', 'regular_optimised')], max_paths = 150)
def units_and_flags(c, mode):
    m = _model(c, xy_units = 'm', z_units = 'ft')
    extent, dxyz = (2, 1, 3), (0.75, 1.5, 1.25)
    p, tris = _shifted(c, 'steep', 2, -1.0, 1.0)
    g = _grid_for(m, extent, dxyz)
    g.create_xml()
    s = _surface(m, p.copy(), tris)
    flags = [True, False]
    rqp.Property.from_array(m, np.array(flags, dtype = np.uint8), 'test', 'flange bool', s.uuid, property_kind = 'flange bool', discrete = True,
                            indexable_element = 'faces', dtype = np.uint8)
    want = _expected(c, p, tris, extent, dxyz)
    names = ['offset', 'normal vector'] if mode == 'regular' else ['offset', 'flange bool']
    gcs, props = _find(mode, g, s, names)
    got = _faces_of(c, gcs, extent)
    for key, (lo, hits) in want.items():
        if key not in got:
            continue
        n = got[key][0]
        xa = 2 - key[0]
        mid = lo + 0.5 * dxyz[xa]
        f = 1.0 if xa == 2 else 1.0 / 0.3048
        ok = []
        for tn, inside, num, area in hits:
            up = bool(area > 0)
            x = c.And(inside, num > area * lo if up else num < area * lo,
                      num < area * (lo + dxyz[xa]) if up else num > area * (lo + dxyz[xa]))
            d = (props['offset'][n] / f + mid) * area - num
            x = c.And(x, d <= 1.0e-6, d >= -1.0e-6)
            if mode != 'regular':
                x = c.And(x, bool(c.fix(props['flange bool'][n])) == flags[tn])
            else:
                nv = _norm([[q[0], q[1], q[2] * 0.3048] for q in [SURFACES['steep'][0][v] for v in tris[tn]]])
                x = c.And(x, *[c.And(props['normal vector'][n][a] - nv[a] <= 1.0e-6, props['normal vector'][n][a] - nv[a] >= -1.0e-6)
                               for a in range(3)])
            ok.append(x)
        c.check('offset in z units and flag or true normal of a triangle crossing there', c.Or(*ok))
