"""C11: every view of grid geometry agrees with the stored points."""
from symx.run import case
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.rq_import as rqi

META = dict(
    title = 'Every view of grid geometry agrees with the stored points',
    statement = 'For every grid, with or without split pillars, k gaps and undefined geometry, the corner points, centres, '
    'horizon and cross section points, column faces, thicknesses, boxes and geometry flags that are derived from the '
    'points array are those of the points the split pillar and k gap arrays assign to each cell corner. A grid made from a '
    'corner point array gives that array back, within the tolerances for splits and voids, and a cell found for a point '
    'contains it.',
    text = 'any point coordinates; any assignment of extra pillars to column corners, any k gaps, any undefined points in '
    'grids of a few cells',
    why = 'separate code handles each combination of split pillars, k gaps and undefined geometry, for one cell and for '
    'whole arrays, and tests use few of them',
    files = ['resqpy/grid/_points_functions.py', 'resqpy/grid/_pillars.py', 'resqpy/grid/_face_functions.py',
             'resqpy/grid/_cell_properties.py', 'resqpy/grid/_xyz.py', 'resqpy/grid/_defined_geometry.py',
             'resqpy/grid/_extract_functions.py', 'resqpy/rq_import/_grid_from_cp.py'],
    mechanism = [('column to pillar mapping', 'resqpy/grid/_pillars.py'),
                 ('k gap raw layer index', 'resqpy/grid/_grid.py'),
                 ('points functions', 'resqpy/grid/_points_functions.py')],
    observe = ['arrays and points returned by grid methods'],
    note = 'grids of up to 3 x 2 x 2 cells; reals idealised; one or two extra pillars')

LO, HI = -1.0e6, 1.0e6


def _model(c, **k):
    m = rq.Model(os.path.join(c.tmpdir, 'm.epc'), new_epc = True, quiet = True)
    crs = rqc.Crs(m, **k)
    crs.create_xml()
    m.crs_uuid = crs.uuid
    return m


class Geom:
    """a grid in memory together with an independent map from cell corners to points"""

    def __init__(self, c, nk, nj, ni, gap = False, split = 0, points = None, fixed_split = None, crs = {}, model = None):
        self.c, self.nk, self.nj, self.ni = c, nk, nj, ni
        m = self.m = model or _model(c, **crs)
        g = self.g = grr.Grid(m, title = 'grid')
        g.grid_representation = 'IjkGrid'
        g.nk, g.nj, g.ni = nk, nj, ni
        g.extent_kji = np.array((nk, nj, ni), dtype = int)
        g.k_direction_is_down = True
        g.pillar_shape = 'curved'
        g.grid_is_right_handed = False
        g.crs_uuid = m.crs_uuid
        g.crs = rqc.Crs(m, uuid = m.crs_uuid)
        g.has_split_coordinate_lines = bool(split or fixed_split)
        g.geometry_defined_for_all_pillars_cached = True
        g.geometry_defined_for_all_cells_cached = True
        self.raw = list(range(nk))
        if gap:
            after = [bool(c.fix(c.bool(f'gap{k}'))) for k in range(nk - 1)]
            c.assume(any(after))
            g.k_gaps = sum(after)
            g.k_gap_after_array = np.array(after, dtype = bool)
            g._set_k_raw_index_array()
            self.raw = [k + sum(after[:k]) for k in range(nk)]
        self.nkp = self.raw[-1] + 2
        npl = self.npl = (nj + 1) * (ni + 1)
        self.map = {}
        for j, i, jp, ip in np.ndindex(nj, ni, 2, 2):
            self.map[j, i, jp, ip] = (j + jp) * (ni + 1) + i + ip
        n = 0
        if split or fixed_split:
            corners = sorted(self.map, key = lambda x: (self.map[x], x))
            if fixed_split:
                chosen = sorted(corners.index(x) for x in fixed_split)
                split = len(chosen)
            else:
                chosen = [int(c.fix(c.int(f'corner{e}', 0, len(corners) - 1))) for e in range(split)]
            c.assume(all(a < b for a, b in zip(chosen, chosen[1:])))
            pil, cols = [], []
            for e, x in enumerate(chosen):
                j, i, jp, ip = corners[x]
                pil.append(self.map[j, i, jp, ip])
                cols.append(j * ni + i)
            for e, x in enumerate(chosen):
                self.map[corners[x]] = npl + e
            g.split_pillar_indices_cached = np.array(pil, dtype = int)
            g.cols_for_split_pillars = np.array(cols, dtype = int)
            g.cols_for_split_pillars_cl = np.arange(1, split + 1, dtype = int)
            g.split_pillars_count = split
            n = split
        self.shape = (self.nkp, npl + n, 3) if n else (self.nkp, nj + 1, ni + 1, 3)
        if points is None:
            self.p = c.reals('p', self.shape, LO, HI)
        else:
            self.p = points(self)
        g.points_cached = self.p
        self.flat = self.p.reshape((self.nkp, -1, 3))

    def at(self, k, j, i, kp, jp, ip):
        return self.flat[self.raw[k] + kp, self.map[j, i, jp, ip]]

    def cells(self):
        return list(np.ndindex(self.nk, self.nj, self.ni))


CORNERS = list(np.ndindex(2, 2, 2))
BOTH = [dict(gap = a, split = b) for a in (False, True) for b in (0, 1)]
MORE = BOTH + [dict(gap = False, split = 2, _tier = 'thorough'), dict(gap = True, split = 2, _tier = 'thorough')]


@case('C11', bounds = '2 x 1 x 2 cells (3 layers with k gaps), any points, extra pillar at any column corner', params = MORE)
def corner_points(c, gap, split):
    G = Geom(c, 3 if gap else 2, 1, 2, gap, split)
    g = G.g
    cell = (G.nk - 1, 0, 1)
    for x in CORNERS:
        c.same(f'point {x}', g.point(cell, corner_index = np.array(x)), G.at(*cell, *x))
    one = g.corner_points(cell)
    for x in CORNERS:
        c.same(f'corner of one cell {x}', one[x], G.at(*cell, *x))
    centre = g.centre_point(cell)
    c.close('centre of one cell', centre, sum(G.at(*cell, *x) for x in CORNERS) / 8)
    direct = g.centre_point()
    del g.array_centre_point
    lin = g.z_corner_point_depths(order = 'linear')
    zz = g.z_corner_point_depths()
    cp = g.corner_points()
    ccp = g.centre_point()
    for cc in G.cells():
        k, j, i = cc
        m = sum(G.at(*cc, *x) for x in CORNERS) / 8
        c.close(f'centre {cc}', direct[cc], m)
        c.close(f'centre by corner points {cc}', ccp[cc], m)
        for x in CORNERS:
            p = G.at(*cc, *x)
            c.same(f'corner {cc} {x}', cp[cc + x], p)
            c.same(f'z {cc} {x}', zz[cc + x], p[2])
            c.same(f'linear z {cc} {x}', lin[k, x[0], j, x[1], i, x[2]], p[2])
    c.same('cached cell', g.corner_points(cell), cp[cell])
    li = g.centre_point_list(np.array([(0, 0, 1), (1, 0, 0)]))
    c.same('list 0', li[0], ccp[0, 0, 1])
    c.same('list 1', li[1], ccp[1, 0, 0])


@case('C11', bounds = '2 x 2 x 2 cells (3 x 1 x 2 with k gaps), any points, extra pillar at any column corner', params = MORE)
def horizons(c, gap, split):
    G = Geom(c, 3, 1, 2, gap, split) if gap else Geom(c, 2, 2, 2, gap, split)
    g = G.g
    nj, ni = G.nj, G.ni
    full = g.split_horizons_points()
    c.same('horizons', full.shape, (G.nkp, nj, ni, 2, 2, 3))
    some = g.split_horizons_points(min_k0 = 1, max_k0 = 2)
    c.same('some horizons', some.shape, (2, nj, ni, 2, 2, 3))
    for k in range(G.nk):
        for kp in range(2):
            h = g.horizon_points(ref_k0 = k, kp = kp)
            s = g.split_horizon_points(ref_k0 = k, kp = kp)
            r = G.raw[k] + kp
            for j, i in np.ndindex(nj + 1, ni + 1):
                c.same(f'primary {k} {kp} {j} {i}', h[j, i], G.flat[r, j * (ni + 1) + i])
            for x in G.map:
                p = G.flat[r, G.map[x]]
                c.same(f'split {k} {kp} {x}', s[x], p)
                c.same(f'all {k} {kp} {x}', full[(r,) + x], p)
                if 1 <= r <= 2:
                    c.same(f'some {k} {kp} {x}', some[(r - 1,) + x], p)
    u = g.unsplit_points_ref()
    hh = g.horizon_points(ref_k0 = 1, kp = 1, heal_faults = True)
    for j, i in np.ndindex(nj + 1, ni + 1):
        xs = [(j - jp, i - ip, jp, ip) for jp in range(2) for ip in range(2) if (j - jp, i - ip, jp, ip) in G.map]
        for r in range(G.nkp):
            c.close(f'unsplit {r} {j} {i}', u[r, j, i], sum(G.flat[r, G.map[x]] for x in xs) / len(xs))
        c.same(f'healed {j} {i}', hh[j, i], u[G.raw[1] + 1, j, i])
    e = g.coordinate_line_end_points()
    for j, i in np.ndindex(nj + 1, ni + 1):
        c.same(f'top {j} {i}', e[j, i, 0], G.flat[0, j * (ni + 1) + i])
        c.same(f'base {j} {i}', e[j, i, 1], G.flat[G.nkp - 1, j * (ni + 1) + i])


@case('C11', bounds = '2 x 1 x 2 cells (3 layers with k gaps), any points, either axis, any slice, either face', params = BOTH)
def cross_sections(c, gap, split):
    G = Geom(c, 3 if gap else 2, 2 if not (gap or split) else 1, 2, gap, split)
    g = G.g
    axis = c.choice('axis', ['I', 'J'])
    n, other = (G.ni, G.nj) if axis == 'I' else (G.nj, G.ni)
    s = int(c.fix(c.int('slice', 0, n - 1)))
    plus = int(c.fix(c.int('plus', 0, 1)))

    def at(k, o, kp, op):
        return G.at(k, o, s, kp, op, plus) if axis == 'I' else G.at(k, s, o, kp, plus, op)

    xs = g.x_section_corner_points(axis, ref_slice0 = s, plus_face = bool(plus))
    c.same('shape', xs.shape, (G.nk, other, 2, 2, 3))
    for x in np.ndindex(G.nk, other, 2, 2):
        c.same(f'corner {x}', xs[x], at(*x))
    sg = g.split_gap_x_section_points(axis, ref_slice0 = s, plus_face = bool(plus)) if gap or split else xs
    for x in np.ndindex(G.nk, other, 2, 2):
        c.same(f'with gaps {x}', sg[x], at(*x))
    if not gap:
        if split:
            sp = g.split_x_section_points(axis, ref_slice0 = s, plus_face = bool(plus))
            for x in np.ndindex(G.nk, other, 2, 2):
                c.same(f'split {x}', sp[x[0] + x[2], x[1], x[3]], at(*x))
        else:
            up = g.unsplit_x_section_points(axis, ref_slice0 = s, plus_face = bool(plus))
            for x in np.ndindex(G.nk, other, 2, 2):
                c.same(f'unsplit {x}', up[x[0] + x[2], x[1] + x[3]], at(*x))


@case('C11', bounds = '1 x 2 x 2 cells, one or two extra pillars at any column corners',
      params = [dict(n = 1, nj = 2, ni = 2), dict(n = 2, nj = 1, ni = 2), dict(n = 2, nj = 2, ni = 1),
                dict(n = 2, nj = 2, ni = 2, _tier = 'thorough')])
def column_faces(c, n, nj, ni):
    G = Geom(c, 1, nj, ni, False, n, points = lambda G: np.zeros(G.shape))
    g = G.g
    sj, si = g.split_column_faces()
    if nj == 1:
        c.check('no j faces', sj is None)
    if ni == 1:
        c.check('no i faces', si is None)
    for j, i in np.ndindex(nj, ni):
        if j < nj - 1:
            w = any(G.map[j, i, 1, x] != G.map[j + 1, i, 0, x] for x in range(2))
            c.same(f'j face {j} {i}', bool(sj[j, i]), w)
            c.same(f'+j {j} {i}', bool(g.is_split_column_face(j, i, 1, 1)), w)
            c.same(f'-j {j} {i}', bool(g.is_split_column_face(j + 1, i, 1, 0)), w)
        else:
            c.check(f'edge j {i}', not g.is_split_column_face(j, i, 1, 1) and not g.is_split_column_face(0, i, 1, 0))
        if i < ni - 1:
            w = any(G.map[j, i, x, 1] != G.map[j, i + 1, x, 0] for x in range(2))
            c.same(f'i face {j} {i}', bool(si[j, i]), w)
            c.same(f'+i {j} {i}', bool(g.is_split_column_face(j, i, 2, 1)), w)
            c.same(f'-i {j} {i}', bool(g.is_split_column_face(j, i + 1, 2, 0)), w)
        else:
            c.check(f'edge i {j}', not g.is_split_column_face(j, i, 2, 1) and not g.is_split_column_face(j, 0, 2, 0))
    cpm = g.create_column_pillar_mapping()
    for x in G.map:
        c.same(f'map {x}', int(cpm[x]), G.map[x])
    for j, i in np.ndindex(nj + 1, ni + 1):
        f = g.pillar_foursome((j, i))
        for jp in range(2):
            for ip in range(2):
                x = (j - jp, i - ip, jp, ip)
                if x in G.map:
                    # axes of a foursome: the columns either side of the pillar
                    c.same(f'foursome {x}', int(f[1 - jp, 1 - ip]), G.map[x])


def _abs(c, x):
    return abs(x)


@case('C11', bounds = '2 x 1 x 2 cells (3 layers with k gaps), any points', params = BOTH)
def faces_and_thickness(c, gap, split):
    G = Geom(c, 3 if gap else 2, 1, 2, gap, split) if not (gap and split) else Geom(
        c, 3, 1, 1, gap, split)
    g = G.g
    cell = (1, 0, G.ni - 1)
    axis = c.choice('axis', [0, 1, 2])
    side = c.choice('side', [0, 1])
    one = g.face_centre(cell, axis, side)
    v = g.interface_vector(cell, axis)
    kji = g.face_centres_kji_01(cell)

    def fc(cc, a, s):
        return sum(G.at(*cc, *x) for x in CORNERS if x[a] == s) / 4

    c.close('face centre', one, fc(cell, axis, side))
    c.close('vector', v, fc(cell, axis, 1) - fc(cell, axis, 0))
    c.close('vectors', g.interface_vectors_kji(cell)[axis], fc(cell, axis, 1) - fc(cell, axis, 0))
    c.close('centres', kji[axis, side], fc(cell, axis, side))
    t1 = g.thickness(cell, cache_thickness_array = False)
    ta = g.thickness()
    del g.array_thickness
    tb = g.thickness(cache_cp_array = True)
    allc = g.face_centre(None, axis, side)
    for cc in G.cells():
        c.close(f'face centre {cc}', allc[cc], fc(cc, axis, side))
        d = fc(cc, 0, 1)[2] - fc(cc, 0, 0)[2]
        for n, t in ((f'points {cc}', ta[cc]), (f'corner points {cc}', tb[cc])):
            c.check('thickness from ' + n, c.And(t >= 0, c.Or(abs(t - d) <= 1.0e-6, abs(t + d) <= 1.0e-6)))
    c.close('single', t1, tb[cell])


@case('C11', bounds = '1 x 1 x 2 or 2 x 1 x 1 cells, any points, any tolerance', params = BOTH)
def pinched(c, gap, split):
    G = Geom(c, 2 if gap else 1, 1, 1 if gap else 2, gap, split)
    g = G.g
    tol = c.real('tol', 0.0, 10.0)
    cell = (G.nk - 1, 0, G.ni - 1)
    one = g.pinched_out(cell, tolerance = tol)
    p = g.pinched_out(tolerance = tol)
    for cc in G.cells():
        d = sum(G.at(*cc, *x)[2] for x in CORNERS if x[0] == 1) - sum(G.at(*cc, *x)[2] for x in CORNERS if x[0] == 0)
        c.check(f'{cc}', c.Iff(p[cc], c.And(d <= 4 * tol, -d <= 4 * tol)))
    c.check('one', c.Iff(one, p[cell]))


@case('C11', bounds = '1 x 1 x 1 to 2 x 1 x 1 cells, x coordinates symbolic', params = BOTH)
def boxes(c, gap, split):

    def pts(G):
        p = np.zeros(G.shape)
        for n, x in enumerate(np.ndindex(*G.shape)):
            p[x] = (n * 37) % 101
        p = c.array(p)
        f = p.reshape((G.nkp, -1, 3))
        q = c.reals('q', 3, LO, HI)
        f[0, 0, 0], f[-1, -1, 0], f[-1, 1, 0] = q
        return p

    G = Geom(c, 2 if gap else 1, 1, 1, gap, split, points = pts, crs = dict(x_offset = 1000.0, z_offset = 50.0))
    g = G.g
    b = g.xyz_box(lazy = False, local = True).copy()
    for a in range(3):
        al = [G.flat[x, y, a] for x in range(G.nkp) for y in range(G.flat.shape[1])]
        c.check(f'min {a}', c.And(*([b[0, a] <= v for v in al] + [c.Or(*[b[0, a] == v for v in al])])))
        c.check(f'max {a}', c.And(*([b[1, a] >= v for v in al] + [c.Or(*[b[1, a] == v for v in al])])))
    gb = g.xyz_box(lazy = False)
    c.close('global x', gb[0, 0], b[0, 0] + 1000)
    c.close('global z', gb[1, 2], b[1, 2] + 50)
    c.same('local again', g.xyz_box(lazy = False, local = True), b)
    c.close('centre', g.xyz_box_centre(local = True), (b[0] + b[1]) / 2)
    cell = (G.nk - 1, 0, 0)
    bb = g.bounding_box(cell)
    for a in range(3):
        al = [G.at(*cell, *x)[a] for x in CORNERS]
        c.check(f'cell min {a}', c.And(*([bb[0, a] <= v for v in al] + [c.Or(*[bb[0, a] == v for v in al])])))
        c.check(f'cell max {a}', c.And(*([bb[1, a] >= v for v in al] + [c.Or(*[bb[1, a] == v for v in al])])))


def _nan_points(c, G, mask, val = None):
    """symbolic points with NaN where mask (one flag per point) is set"""
    import math
    p = c.zeros(G.shape)
    for x in np.ndindex(*G.shape[:-1]):
        n = bool(c.fix(mask[x]))
        for a in range(3):
            p[x + (a,)] = math.nan if n else val[x + (a,)]
    return p


@case('C11', bounds = '2 x 1 x 1 cells (with k gap too), any set of primary points undefined, any coordinates',
      params = [dict(gap = g, mode = m) for g in (False, True) for m in ('plain', 'nullify', 'complete')] + [
          dict(gap = False, mode = 'all')])
def undefined_geometry(c, gap, mode):
    import math
    free = [(k, j, i) for k in range(4 if gap else 3) for j, i in ((0, 0), (1, 1))]
    und = c.bools('undefined', len(free))

    def pts(G):
        v = c.reals('p', G.shape, LO, HI)
        c.assume(c.Or(*[c.Not(u) for u in und]))
        p = c.zeros(G.shape)
        f = {x: bool(c.fix(und[n])) for n, x in enumerate(free)}
        G.f = f
        for x in np.ndindex(*G.shape[:-1]):
            for a in range(3):
                p[x + (a,)] = math.nan if f.get(x) else v[x + (a,)]
        G.v = v
        return p

    G = Geom(c, 2, 1, 1, gap, 0, points = pts)
    g, f, v = G.g, G.f, G.v
    ina = c.bools('inactive', (2, 1, 1))
    g.inactive = ina.copy()
    kw = {'plain': {}, 'nullify': dict(nullify_partial_pillars = True), 'complete': dict(complete_partial_pillars = True),
          'all': dict(complete_all = True)}[mode]
    if mode == 'all':
        # whole pillars remain for interpolation of others only where at least one point is defined on each
        c.assume(all(any(not f[k, j, i] for k in range(G.nkp)) for j, i in ((0, 0), (1, 1))))
    g.set_geometry_is_defined(**kw)
    p = g.points_cached
    anyund = any(f.values())
    part, whole = {}, {}
    for j, i in ((0, 0), (1, 1)):
        n = sum(f[k, j, i] for k in range(G.nkp))
        whole[j, i] = n == G.nkp
        part[j, i] = 0 < n < G.nkp
    for k in range(2):
        d0 = not any(f.get((G.raw[k] + kp, j, i)) for kp in range(2) for j in range(2) for i in range(2))
        c.check(f'inactive {k}', c.Iff(g.inactive[k, 0, 0], c.Or(ina[k, 0, 0], not d0)))
        if mode == 'plain':
            d = d0
        elif mode == 'nullify':
            d = not (any(part.values()) or any(whole.values()))
        else:
            d = not any(whole.values())
        c.same(f'cell defined {k}', bool(g.cell_geometry_is_defined((k, 0, 0))), d)
    for j, i in np.ndindex(2, 2):
        w = whole.get((j, i), False)
        dd = not w and not (mode == 'nullify' and part.get((j, i), False))
        if mode != 'nullify':
            c.same(f'pillar defined {j} {i}', bool(g.pillar_geometry_is_defined((j, i))), dd)
        for k in range(G.nkp):
            und_now = bool(np.isnan(p[k, j, i, 0]))
            if not f.get((k, j, i)):
                if mode == 'nullify' and part.get((j, i)):
                    c.check(f'nullified {k} {j} {i}', und_now)
                else:
                    c.same(f'kept {k} {j} {i}', p[k, j, i], v[k, j, i])
            elif mode in ('plain', 'nullify') or whole[j, i]:
                c.check(f'undefined {k} {j} {i}', und_now)
            else:
                ab = [q for q in range(k) if not f[q, j, i]]
                be = [q for q in range(k + 1, G.nkp) if not f[q, j, i]]
                if ab and be:
                    t = (k - ab[-1]) / (be[0] - ab[-1])
                    w = v[ab[-1], j, i] * (1 - t) + v[be[0], j, i] * t
                else:
                    w = v[ab[-1] if ab else be[0], j, i]
                c.close(f'filled {k} {j} {i}', p[k, j, i], w, 1.0e-3)
    c.same('all cells', bool(g.geometry_defined_for_all_cells()), not any(
        not g.cell_geometry_is_defined((k, 0, 0)) for k in range(2)))


@case('C11', bounds = '2 x 1 x 2 cells, each cell either regular or collapsed', params = [
    dict(gap = a, split = b) for a in (False, True) for b in (0, 1)])
def collapsed_cells(c, gap, split):
    # the left column has, at each level, all its corners in one place, or not
    flags = c.bools('dot', 4 if gap else 3)

    def pts(G):
        G.dot = [bool(c.fix(x)) for x in flags[:G.nkp]]
        p = np.zeros(G.shape)
        f = p.reshape((G.nkp, -1, 3))
        for j, i in np.ndindex(2, 3):
            f[:, j * 3 + i] = [10.0 * i, 10.0 * j, 0]
        for x, e in G.map.items():
            f[:, e, :2] = [10.0 * (x[1] + x[3]), 10.0 * (x[0] + x[2])]
        for k in range(G.nkp):
            f[k, :, 2] = 5 * k
            if G.dot[k]:
                for x, e in G.map.items():
                    if x[1] == 0:
                        f[k, e, :2] = [3.0, 4.0]
        return c.array(p)

    G = Geom(c, 2, 1, 2, gap, 0, points = pts, fixed_split = [(0, 1, 0, 0)] if split else None)
    g = G.g
    eps = c.real('eps', 0.01, 1.0)
    if split == 0:
        # a small shift of one corner extends the cell at that level
        lev = int(c.fix(c.int('level', 0, 1)))
        big = bool(c.fix(c.bool('shift')))
        if big:
            G.p[lev, 1, 1, 0] = G.p[lev, 1, 1, 0] + eps
            G.dot[lev] = False
    d = g.point_areally()
    for k in range(2):
        w = G.dot[G.raw[k]] and G.dot[G.raw[k] + 1]
        c.same(f'dot {k}', bool(d[k, 0, 0]), w)
        c.same(f'other {k}', bool(d[k, 0, 1]), False)
    w = [bool(d[k, 0, 0]) for k in range(2)]
    if split == 0 and not all(w) and any(w):
        g.set_geometry_is_defined(treat_dots_as_nan = True)
        for k in range(2):
            c.same(f'cell defined {k}', bool(g.cell_geometry_is_defined((k, 0, 0))), not any(
                w[q] and set((G.raw[q], G.raw[q] + 1)) & set((G.raw[k], G.raw[k] + 1)) for q in range(2)))


@case('C11', bounds = '2 x 2 columns, three coordinates symbolic')
def edge_directions(c):
    # reports True exactly when no pair of top and base or neighbouring edges is more than 90 degrees apart
    q = c.reals('q', 3, -50, 50)

    def pts(G):
        p = np.zeros(G.shape)
        for k, j, i in np.ndindex(2, 3, 3):
            p[k, j, i] = [10 * i + k, 12 * j - k, 5 * k]
        p = c.array(p)
        p[0, 1, 1, 0], p[0, 1, 1, 1], p[1, 2, 2, 1] = q
        return p

    G = Geom(c, 1, 2, 2, points = pts)
    p = G.p
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    je = lambda k, j, i: p[k, j + 1, i] - p[k, j, i]
    ie = lambda k, j, i: p[k, j, i + 1] - p[k, j, i]
    al = []
    for j, i in np.ndindex(2, 3):
        al.append(dot(je(0, j, i), je(1, j, i)))
        al.append(dot(ie(0, i, j), ie(1, i, j)))
    for k in range(2):
        for i in range(3):
            al.append(dot(je(k, 0, i), je(k, 1, i)))
        for i in range(2):
            for j in range(2):
                al.append(dot(ie(k, j, i), ie(k, j + 1, i)))
    for x in al:
        c.assume(c.Or(x >= 0.01, x <= -0.01))
    c.check('edges', c.Iff(G.g.check_top_and_base_cell_edge_directions(), c.And(*[x >= 0 for x in al])))


@case('C11', bounds = 'any extent to 50 x 50 x 50, any cell')
def natural_index(c):
    g = grr.Grid(_model(c), title = 'g')
    n = [c.int(x, 1, 50) for x in ('nk', 'nj', 'ni')]
    g.nk, g.nj, g.ni = [c.fix(x) if e else x for e, x in enumerate(n)] if False else n
    k, j, i = (c.int(x, 0, 49) for x in 'kji')
    c.assume(c.And(k < n[0], j < n[1], i < n[2]))
    x = g.natural_cell_index((k, j, i))
    c.check('range', c.And(x >= 0, x < n[0] * n[1] * n[2]))
    c.check('value', x == (k * n[1] + j) * n[2] + i)


@case('C11', bounds = '5 x 4 x 3 cells, any cells')
def natural_indices(c):
    g = grr.Grid(_model(c), title = 'g')
    g.nk, g.nj, g.ni = 5, 4, 3
    x = c.int('x', 0, 59)
    k, j, i = g.denaturalized_cell_index(x)
    c.check('inverse', g.natural_cell_index((k, j, i)) == x)
    c.check('range', c.And(0 <= k, k < 5, 0 <= j, j < 4, 0 <= i, i < 3))
    y = c.ints('y', (2, 2), 0, 59)
    z = g.denaturalized_cell_indices(y)
    c.same('shape', z.shape, (2, 2, 3))
    c.same('list inverse', g.natural_cell_indices(z), y)
    for a in np.ndindex(2, 2):
        c.same(f'each {a}', list(z[a]), list(g.denaturalized_cell_index(y[a])))


@case('C11', bounds = '1 x 1 x 1 cell, any corners, any fraction in one direction')
def interpolation(c):
    G = Geom(c, 1, 1, 1)
    f = c.real('f', 0, 1)
    ax = c.choice('axis', [0, 1, 2])
    fr = [0.25, 0.5, 0.75]
    fr[ax] = f
    w = 0
    for x in CORNERS:
        t = 1
        for a in range(3):
            t = t * (fr[a] if x[a] else 1 - fr[a])
        w = w + G.at(0, 0, 0, *x) * t
    got = G.g.interpolated_point((0, 0, 0), fr)
    c.close('point', got, w, 1.0e-4)
    many = G.g.interpolated_points((0, 0, 0), [c.array(np.array([0.0, fr[a]], dtype = object).astype(float) if a != ax else
                                                   np.zeros(2)) if a != ax else _vec(c, f) for a in range(3)])
    c.close('lattice', many[1, 1, 1], w, 1.0e-4)
    c.close('corner', many[0, 0, 0], G.at(0, 0, 0, 0, 0, 0), 1.0e-4)


def _vec(c, f):
    v = c.zeros(2)
    v[1] = f
    return v


@case('C11', bounds = '1 x 2 x 2 columns between lines at any spacing (one of them symbolic), any point', params = [
    dict(base = b, gap = g) for b in (False, True) for g in (False, True)])
def find_cell(c, base, gap):
    q = c.real('line', 101, 119)

    def pts(G):
        p = np.zeros(G.shape)
        for k, j, i in np.ndindex(*G.shape[:3]):
            p[k, j, i] = [[100, 0, 120][i] + 3 * k, [20, 31, 71][j] + 5 * k, 5 * k]
        p = c.array(p)
        for k in range(G.nkp):
            for j in range(3):
                p[k, j, 1, 0] = q + 3 * k
        return p

    G = Geom(c, 2, 2, 2, gap, points = pts)
    g = G.g
    x, y = c.real('x', 90, 140), c.real('y', 10, 90)
    k = 1
    r = G.raw[k] + (1 if base else 0)
    lines = [100 + 3 * r, q + 3 * r, 120 + 3 * r]
    jl = [20 + 5 * r, 31 + 5 * r, 71 + 5 * r]
    for v in lines:
        c.assume(c.Or(x <= v - 0.01, x >= v + 0.01))
    for v in jl:
        c.assume(c.Or(y <= v - 0.01, y >= v + 0.01))
    ji = g.find_cell_for_point_xy(x, y, k0 = k, vertical_ref = 'base' if base else 'top')
    inside = [[c.And(jl[j] < y, y < jl[j + 1], lines[i] < x, x < lines[i + 1]) for i in range(2)] for j in range(2)]
    if ji[0] is None:
        c.check('none', c.Not(c.Or(*[b for a in inside for b in a])))
    else:
        c.check('cell', inside[int(ji[0])][int(ji[1])])


@case('C11', bounds = '2 x 2 cells of a cross section, without and with a throw, any point', params = [
    dict(throw = 0), dict(throw = 4)])
def find_in_section(c, throw):
    x = c.real('x', -5, 45)
    z = c.real('z', -5, 45)
    xs = np.zeros((2, 2, 2, 2, 3))
    for k, j, kp, jp in np.ndindex(2, 2, 2, 2):
        xs[k, j, kp, jp] = [20 * (j + jp), 7, 15 * (k + kp) + throw * j]
    for v in (0, 20, 40):
        c.assume(c.Or(x <= v - 0.01, x >= v + 0.01))
    for v in {0, 15, 30, throw, 15 + throw, 30 + throw}:
        c.assume(c.Or(z <= v - 0.01, z >= v + 0.01))
    from resqpy.grid import find_cell_for_x_sect_xz
    kj = find_cell_for_x_sect_xz(c.array(xs), x, z)

    def inside(k, j):
        return c.And(20 * j < x, x < 20 * j + 20, 15 * k + throw * j < z, z < 15 * k + 15 + throw * j)

    if kj[0] is not None:
        c.check('cell', inside(int(kj[0]), int(kj[1])))
    elif not throw:  # with a throw the search, which starts from the nearest corner, is documented as not exhaustive
        c.check('none', c.Not(c.Or(*[inside(k, j) for k in range(2) for j in range(2)])))


@case('C11', bounds = '1 to 2 layers of straight pillars with one displaced node')
def pillar_shape(c):
    d = c.real('d', -5, 5)
    lean = c.real('lean', -50, 50)
    c.assume(c.Or(lean == 0, lean >= 0.1, lean <= -0.1))
    c.assume(c.Or(d == 0, d >= 0.1, d <= -0.1))

    def pts(G):
        p = np.zeros(G.shape)
        for k, j, i in np.ndindex(*G.shape[:3]):
            p[k, j, i] = [10 * i, 10 * j, 5 * k]
        p = c.array(p)
        for k in range(3):
            p[k, 1, 1, 0] = 10 + lean * k / 2
        p[1, 1, 1, 0] = p[1, 1, 1, 0] + d
        return p

    G = Geom(c, 2, 1, 1, points = pts)
    s = G.g.actual_pillar_shape()
    want = 'curved' if bool(d != 0) else ('vertical' if bool(lean == 0) else 'straight')
    c.same('shape', s, want)


@case('C11', bounds = '1 x 2 and 2 x 1 columns, 2 layers; any throw and void beyond or within the tolerances',
      params = [dict(along = a, inactive = i) for a in ('i', 'j') for i in (False, True)] + [
          dict(along = 'i', inactive = False, join = False)])
def from_corner_points(c, along, inactive, join = True):
    nj, ni = (1, 2) if along == 'i' else (2, 1)
    cp = np.zeros((2, nj, ni, 2, 2, 2, 3))
    for k, j, i, kp, jp, ip in np.ndindex(2, nj, ni, 2, 2, 2):
        cp[k, j, i, kp, jp, ip] = [100 * (i + ip) + 3 * (k + kp), 80 * (j + jp), 1000 + 10 * (k + kp) + j + jp]
    t = c.real('throw', 0, 40)
    v = c.real('void', 0, 30)
    c.assume(c.Or(t <= 0.009, t >= 0.011))
    c.assume(c.Or(v <= 0.099, v >= 0.101))
    cp = c.array(cp)
    far = (slice(None), 0, 1) if along == 'i' else (slice(None), 1, 0)
    one = bool(c.fix(c.bool('one end')))
    # the throw applies to the whole of the far column, or only to one end of the edge shared with the near one
    for k, kp, jp, ip in np.ndindex(2, 2, 2, 2):
        edge, end = (ip, jp) if along == 'i' else (jp, ip)
        x = (k,) + far[1:] + (kp, jp, ip, 2)
        if not one or (edge == 0 and end == 0):
            cp[x] = cp[x] + t
    cp[1, ..., 2] = cp[1, ..., 2] + v
    m = _model(c)
    act = None
    if inactive:
        act = np.ones((2, nj, ni), dtype = bool)
        for x in np.ndindex(2, nj, ni):
            act[x] = not bool(c.fix(c.bool(f'dead {x}')))
        c.assume(act.any())
    ref = cp.copy()
    g = rqi.grid_from_cp(m, cp, m.crs_uuid, active_mask = act, max_z_void = 0.1, split_pillars = join,
                         split_tolerance = 0.01)
    if not join:
        c.assume(t <= 0.009)
    c.same('split', bool(g.has_split_coordinate_lines), c.And(t > 0.01, join))
    c.same('gaps', g.k_gaps or 0, 1 if bool(v > 0.1) else 0)
    del g.array_corner_points
    q = g.corner_points()
    for x in np.ndindex(2, nj, ni, 2, 2, 2):
        for a in range(3):
            c.close(f'corner {x} {a}', q[x + (a,)], ref[x + (a,)], 0.01 + 0.05 + 1.0e-4)
    if bool(t > 0.01) and bool(v > 0.1):
        for x in np.ndindex(2, nj, ni, 2, 2, 2):
            c.close(f'exact {x}', q[x], ref[x], 1.0e-4)
    if inactive:
        for x in np.ndindex(2, nj, ni):
            c.same(f'inactive {x}', bool(g.inactive[x]), not act[x])


@case('C11', bounds = 'any void between layers of three layer grid', params = [dict(split = 0), dict(split = 1)])
def mixed_voids(c, split):
    v = c.reals('void', 2, 0, 30)
    for x in v:
        c.assume(c.Or(x <= 0.099, x >= 0.101))
    cp = np.zeros((3, 1, 2, 2, 2, 2, 3))
    for k, j, i, kp, jp, ip in np.ndindex(3, 1, 2, 2, 2, 2):
        cp[k, j, i, kp, jp, ip] = [100 * (i + ip), 80 * (j + jp), 10 * (k + kp) + (20 if split and i else 0)]
    cp = c.array(cp)
    cp[1, ..., 2] = cp[1, ..., 2] + v[0]
    cp[2, ..., 2] = cp[2, ..., 2] + (v[0] + v[1])
    ref = cp.copy()
    m = _model(c)
    g = rqi.grid_from_cp(m, cp, m.crs_uuid)
    gaps = [bool(v[0] > 0.1), bool(v[1] > 0.1)]
    c.same('gaps', g.k_gaps or 0, sum(gaps))
    if any(gaps):
        c.same('after', [bool(x) for x in g.k_gap_after_array], gaps)
    g.array_corner_points = None
    del g.array_corner_points
    q = g.corner_points()
    for x in np.ndindex(3, 1, 2, 2, 2, 2):
        c.close(f'corner {x}', q[x], ref[x], 0.1 + 1.0e-4)
    g.write_hdf5()
    g.create_xml()
    m.store_epc(quiet = True)
    m.h5_release()
    g2 = rq.Model(m.epc_file, quiet = True).grid(uuid = g.uuid)
    q2 = g2.corner_points()
    for x in np.ndindex(3, 1, 2, 2, 2, 2):
        c.close(f'stored corner {x}', q2[x], q[x], 1.0e-3)


@case('C11', bounds = '1 x 2 x 2 cells (2 layers with a k gap) with an extra pillar, any primary pillar undefined, any points', params = [
    dict(gap = g) for g in (False, True)])
def defined_beside_undefined(c, gap):
    """a cell with defined geometry has its points, whichever other pillar is undefined"""
    import math
    G = Geom(c, 2 if gap else 1, 2, 2, gap, 1)
    g = G.g
    u = int(c.fix(c.int('undefined pillar', 0, 8)))
    for k in range(G.nkp):
        G.flat[k, u] = math.nan
    g.set_geometry_is_defined()
    for k, j, i in G.cells():
        q = g.corner_points(cell_kji0 = (k, j, i))
        if any(G.map[j, i, jp, ip] == u for jp in range(2) for ip in range(2)):
            continue
        if any((j + jp) * 3 + i + ip == u for jp in range(2) for ip in range(2)):
            continue  # on the far side of a split of the undefined pillar, whether it counts as defined is not stated
        c.check(f'has points {k} {j} {i}', q is not None)
        for kp, jp, ip in CORNERS:
            c.same(f'corner {k} {j} {i} {kp} {jp} {ip}', q[kp, jp, ip], G.at(k, j, i, kp, jp, ip))
            one = g.point(cell_kji0 = (k, j, i), corner_index = (kp, jp, ip))
            c.check(f'has point {k} {j} {i} {kp} {jp} {ip}', one is not None)
            c.same(f'point {k} {j} {i} {kp} {jp} {ip}', one, G.at(k, j, i, kp, jp, ip))


@case('C11', bounds = '2 x 1 x 1 cells, any heights; m3, ft3 and bbl in any order')
def volume_units(c):
    z = c.reals('z', 2, 1, 100)

    def pts(G):
        p = c.zeros(G.shape)
        for k, j, i in np.ndindex(3, 2, 2):
            p[k, j, i, 0], p[k, j, i, 1] = 10.0 * i, 20.0 * j
            p[k, j, i, 2] = sum(z[:k]) if k else 0.0
        return p

    G = Geom(c, 2, 1, 1, points = pts)
    g = G.g
    g.write_hdf5()
    g.create_xml()
    G.m.store_epc(quiet = True)
    G.m.h5_release()
    g = rq.Model(G.m.epc_file, quiet = True).grid(uuid = g.uuid)
    f = {'m3': 1.0, 'ft3': 1.0 / 0.3048**3, 'bbl': 1.0 / (42.0 * 231.0 * 0.0254**3)}
    names = sorted(f)
    asked = [names[int(c.fix(c.int(f'uom {n}', 0, 2)))] for n in range(3)]
    got = [g.volume(required_uom = u) for u in asked]
    for n, u in enumerate(asked):
        for k in range(2):
            c.close(f'volume {n} {k}', got[n][k, 0, 0] / f[u], 200.0 * z[k], 0.01)
    one = g.volume(cell_kji0 = (1, 0, 0), required_uom = 'm3')
    c.close('single', one, 200.0 * z[1], 0.01)
