"""C16: grids derived from other grids."""
from symx.run import case
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.derived_model as rqdm
import resqpy.fault as rqf
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.olio.fine_coarse as rqfc
import resqpy.olio.uuid as bu
import resqpy.property as rqp
import resqpy.surface as rqs
from checks.c11 import Geom, CORNERS

META = dict(
    title = 'Grids derived from other grids have the geometry and properties they should',
    statement = 'For every source grid, with or without faults, k gaps and inactive cells, a derived grid has, in memory and '
    'when stored, the corner points, gaps, inactive cells, inherited property values and parent window that its definition '
    'gives for each cell. This covers extraction of a box, copying, coarsening, refinement, zoning, healing, interpolation, '
    'tilting, local shifts, draping and added or scaled faults, and the source grid is left as it was.',
    text = 'any point coordinates, property values and inactive cells; any box, any layer ranges, any extra pillars',
    why = 'each derivation rebuilds pillar, gap, mask and property arrays by its own index arithmetic, for split and unsplit '
    'grids separately, and tests compare few cells of few grids',
    files = ['resqpy/derived_model/_extract_box.py', 'resqpy/derived_model/_refined_grid.py',
             'resqpy/derived_model/_coarsened_grid.py', 'resqpy/derived_model/_zonal_grid.py',
             'resqpy/derived_model/_interpolated_grid.py', 'resqpy/derived_model/_add_faults.py',
             'resqpy/derived_model/_fault_throw_scaling.py', 'resqpy/derived_model/_common.py',
             'resqpy/property/_collection_support.py'],
    mechanism = [('box extraction', 'resqpy/derived_model/_extract_box.py'),
                 ('writing of derived grids', 'resqpy/derived_model/_common.py'),
                 ('property inheritance', 'resqpy/property/_collection_support.py')],
    observe = ['arrays of the derived grid, in memory and loaded from its file'],
    note = 'grids of up to 4 x 3 x 3 cells; reals idealised')

LO, HI = -1.0e6, 1.0e6


class View:
    """corner points, gaps and masks of a grid, from its stored arrays only"""

    def __init__(self, g):
        g.cache_all_geometry_arrays()
        self.g, self.nk, self.nj, self.ni = g, int(g.nk), int(g.nj), int(g.ni)
        after = [bool(x) for x in g.k_gap_after_array] if g.k_gaps else [False] * (self.nk - 1)
        self.after = after
        self.raw = [k + sum(after[:k]) for k in range(self.nk)]
        self.map = {}
        for j, i, jp, ip in np.ndindex(self.nj, self.ni, 2, 2):
            self.map[j, i, jp, ip] = (j + jp) * (self.ni + 1) + i + ip
        if g.has_split_coordinate_lines:
            npl = (self.nj + 1) * (self.ni + 1)
            start = 0
            for e, p in enumerate(g.split_pillar_indices_cached):
                for col in g.cols_for_split_pillars[start:g.cols_for_split_pillars_cl[e]]:
                    j, i = divmod(int(col), self.ni)
                    for jp, ip in np.ndindex(2, 2):
                        if (j + jp) * (self.ni + 1) + i + ip == p:
                            self.map[j, i, jp, ip] = npl + e
                start = g.cols_for_split_pillars_cl[e]
        p = np.ma.getdata(g.points_cached)
        self.flat = p.reshape((p.shape[0], -1, 3))

    def at(self, k, j, i, kp, jp, ip):
        return self.flat[self.raw[k] + kp, self.map[j, i, jp, ip]]

    def inactive(self, cell):
        return self.g.inactive is not None and self.g.inactive[cell]


def _stored(c, G, inactive = None, props = (), keep = False):
    """writes the grid, with properties, and returns it as loaded from the file"""
    m, g = G.m, G.g
    if inactive is not None:
        g.inactive = inactive
    g.write_hdf5()
    g.create_xml(write_active = inactive is not None, write_geometry = True)
    for title, values, kw in props:
        rqp.Property.from_array(m, values, 'test', title, support_uuid = g.uuid, **kw)
    f = m.epc_file
    m.store_epc(quiet = True)
    m.h5_release()
    m = rq.Model(f, quiet = True)
    g = m.grid(uuid = g.uuid)
    if inactive is not None:
        g.extract_inactive_mask()
    return m, g


def _derive(c, m, g, how, fn, *a, **k):
    """calls a derivation in one of two ways, and yields the grid as returned and as loaded from the file"""
    if how == 'new':
        f = os.path.join(c.tmpdir, 'derived.epc')
        for x in (f, f[:-4] + '.h5'):
            if os.path.exists(x):
                os.remove(x)
        d = fn(None, g, *a, new_epc_file = f, **k)
    else:
        f = m.epc_file
        d = fn(f, g if how == 'given' else None, *a, **k)
    u = d.uuid
    d.model.h5_release()
    return d, rq.Model(f, quiet = True).grid(uuid = u)


def _same_cells(c, what, v, n, oracle, exact = True, cells = None):
    c.same(what + ' extent', (v.nk, v.nj, v.ni), tuple(n))
    for cell in (np.ndindex(*n) if cells is None else cells):
        for x in CORNERS:
            (c.same if exact else c.close)(f'{what} {cell} {x}', v.at(*cell, *x), oracle(*cell, *x))


def _values(c, g, title):
    p = g.model.parts(obj_type = None, title = title, related_uuid = g.uuid)
    if len(p) != 1:
        return None
    return rqp.Property(g.model, uuid = g.model.uuid_for_part(p[0])).array_ref()


CENTRAL = [(0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1)]   # columns of a 2 x 2 grid, other than the last, at the central pillar


@case('C16', bounds = 'any box of a grid of 3 x 2 x 2 (2 x 2 x 2) cells, any k gaps, up to 3 extra pillars (also at one pillar)', params = [
    dict(gap = True, fixed = None, how = 'append', ks = True),
    dict(gap = True, fixed = None, how = 'new', ks = True, layers = 3, _tier = 'thorough'),
    dict(gap = False, fixed = [CENTRAL[1], CENTRAL[2]], how = 'given', ks = False),
    dict(gap = True, fixed = CENTRAL[:2], how = 'new', ks = True, _tier = 'thorough'),
    dict(gap = False, fixed = CENTRAL, how = 'new', ks = False),
    dict(gap = True, fixed = [(0, 0, 0, 1), (1, 1, 1, 0)], how = 'append', ks = True, _tier = 'thorough')])
def box_extraction(c, gap, fixed, how, ks, layers = 2):
    G = Geom(c, layers, 2, 2, gap, fixed_split = fixed)
    n = (G.nk, 2, 2)
    off = c.bools('off', n)
    fv = c.reals('v', n, LO, HI)
    iv = c.ints('n', n, -1000, 1000)
    m, g = _stored(c, G, off, [('real', fv, dict(property_kind = 'length', uom = 'm')),
                               ('whole', iv, dict(property_kind = 'some code', discrete = True, null_value = -9999))])
    lo = [int(c.fix(c.int(f'lo{a}', 0, n[a] - 1))) if a or ks else 0 for a in range(3)]
    hi = [int(c.fix(c.int(f'hi{a}', 0, n[a] - 1))) if a or ks else 1 for a in range(3)]
    c.assume(all(a <= b for a, b in zip(lo, hi)))
    c.assume(off[tuple(lo)] == 0)
    box = np.array([lo, hi], dtype = int)
    e = tuple(b - a + 1 for a, b in zip(lo, hi))
    more = c.bools('more', e)
    c.assume(more[0, 0, 0] == 0)
    d, r = _derive(c, m, g, how, rqdm.extract_box, box = box, box_inactive = more, inherit_properties = True)
    src = lambda k, j, i, kp, jp, ip: G.at(k + lo[0], j + lo[1], i + lo[2], kp, jp, ip)
    after = [G.raw[k + lo[0] + 1] != G.raw[k + lo[0]] + 1 for k in range(e[0] - 1)]
    for name, x in (('derived', d), ('stored', r)):
        v = View(x)
        _same_cells(c, name, v, e, src)
        c.same(name + ' gaps', v.after, after)
        if name == 'stored':
            x.extract_inactive_mask()
        for cell in np.ndindex(*e):
            w = tuple(a + b for a, b in zip(cell, lo))
            c.check(f'{name} inactive {cell}', c.Iff(bool(v.inactive(cell)) if not c.symbolic else v.inactive(cell),
                                                     c.Or(off[w], more[cell])))
    a, b = _values(c, r, 'real'), _values(c, r, 'whole')
    for cell in np.ndindex(*e):
        w = tuple(x + y for x, y in zip(cell, lo))
        c.same(f'real {cell}', a[cell], fv[w])
        c.same(f'whole {cell}', b[cell], iv[w])
    if how != 'new':
        c.check('parent', bu.matching_uuids(r.parent_grid_uuid, g.uuid))
        pw = r.parent_window
        c.same('window', [[int(x) for x in y] for y in pw.within_coarse_box], [lo, hi])
        c.same('window extents', (tuple(pw.fine_extent_kji), tuple(pw.coarse_extent_kji)), (e, e))


def _mapped(c, what, d, G, fn, exact = False, after = None, cells = None):
    """every corner of a derived grid of the same shape is as fn(k, j, i, kp, jp, ip) gives"""
    v = View(d)
    _same_cells(c, what, v, (G.nk, G.nj, G.ni), fn, exact = exact, cells = cells)
    c.same(what + ' gaps', v.after, [bool(G.raw[k + 1] != G.raw[k] + 1) for k in range(G.nk - 1)] if after is None else after)
    return v


def _columns_of(G, j, i, jp, ip):
    """(column j, column i, jp, ip) for each column at the pillar of a corner"""
    pj, pi = j + jp, i + ip
    return [(pj - a, pi - b, a, b) for a in (0, 1) for b in (0, 1) if 0 <= pj - a < G.nj and 0 <= pi - b < G.ni]


SPLITS = [None, [CENTRAL[1], CENTRAL[2]], [(0, 0, 1, 1), (0, 1, 1, 1), (1, 0, 0, 1)]]


@case('C16', bounds = 'grids of 2 x 2 x 2 cells, any k gap and inactive cells, up to 3 extra pillars; tilt by 30 degrees', params = [
    dict(split = None, gap = True, op = 'tilt', how = 'append'), dict(split = 1, gap = False, op = 'tilt', how = 'new'),
    dict(split = 1, gap = True, op = 'unsplit', how = 'append'), dict(split = 2, gap = False, op = 'unsplit', how = 'new'),
    dict(split = 1, gap = True, op = 'copy', how = 'append'), dict(split = None, gap = True, op = 'copy', how = 'new'),
    dict(split = 2, gap = True, op = 'tilt', how = 'given', _tier = 'thorough'),
    dict(split = 2, gap = True, op = 'unsplit', how = 'given', _tier = 'thorough')])
def copies_healed_and_tilted(c, split, gap, op, how):
    G = Geom(c, 2, 2, 2, gap, fixed_split = None if split is None else SPLITS[split])
    n = (2, 2, 2)
    off = c.bools('off', n)
    fv = c.reals('v', n, LO, HI)
    m, g = _stored(c, G, off, [('real', fv, dict(property_kind = 'length', uom = 'm'))])
    if op == 'copy':
        t = m
        if how == 'new':
            f = os.path.join(c.tmpdir, 'target.epc')
            for x in (f, f[:-4] + '.h5'):
                if os.path.exists(x):
                    os.remove(x)
            t = rq.new_model(f, quiet = True)
        d = rqdm.copy_grid(g, t)
        _mapped(c, 'copy', d, G, G.at, exact = True)
        for cell in np.ndindex(*n):
            c.same(f'inactive {cell}', bool(d.inactive[cell]) if not c.symbolic else d.inactive[cell], off[cell] == 1)
        c.check('crs', d.crs is not None and t.part_for_uuid(d.crs_uuid) is not None)
        d.write_hdf5()
        d.create_xml()
        t.store_epc(quiet = True)
        t.h5_release()
        r = rq.Model(t.epc_file, quiet = True).grid(uuid = d.uuid)
        _mapped(c, 'stored', r, G, G.at, exact = True)
        d.points_cached[:] = 0.0
        _mapped(c, 'source', g, G, G.at, exact = True)
        return
    if op == 'unsplit':
        d, r = _derive(c, m, g, how, rqdm.unsplit_grid, inherit_properties = True)

        def fn(k, j, i, kp, jp, ip):
            p = [G.at(k, cj, ci, kp, a, b) for cj, ci, a, b in _columns_of(G, j, i, jp, ip)]
            return [sum(x[e] for x in p) / len(p) for e in range(3)]
        c.check('healed', not d.has_split_coordinate_lines and not r.has_split_coordinate_lines)
    else:
        az = 90.0 if split is None else 0.0
        px, py, pz = pivot = [c.real(f'pivot{a}', -1000, 1000) for a in range(3)]
        d, r = _derive(c, m, g, how, rqdm.tilted_grid, pivot_xyz = tuple(pivot), azimuth = az, dip = 30.0,
                       store_displacement = True, inherit_properties = True)
        co, si = 0.75 ** 0.5, 0.5

        def fn(k, j, i, kp, jp, ip):
            x, y, z = G.at(k, j, i, kp, jp, ip)
            if az == 90.0:
                return [px + (x - px) * co - (z - pz) * si, y, pz + (z - pz) * co + (x - px) * si]
            return [x, py + (y - py) * co - (z - pz) * si, pz + (z - pz) * co + (y - py) * si]
    for name, x in (('derived', d), ('stored', r)):
        v = _mapped(c, name, x, G, fn, cells = None if op == 'unsplit' or c.tier != 'quick' else [(0, 0, 1), (1, 1, 0)])
        if name == 'stored':
            x.extract_inactive_mask()
        for cell in np.ndindex(*n):
            c.same(f'{name} inactive {cell}', bool(v.inactive(cell)) if not c.symbolic else v.inactive(cell), off[cell] == 1)
    a = _values(c, r, 'real')
    for cell in np.ndindex(*n):
        c.same(f'real {cell}', a[cell], fv[cell])
    if op == 'tilt':
        for e, title in enumerate(('DX_DISPLACEMENT', 'DY_DISPLACEMENT', 'DZ_DISPLACEMENT')):
            a = _values(c, r, title)
            for cell in [(0, 0, 0), (1, 1, 0)]:
                s = sum(fn(*cell, *x)[e] - G.at(*cell, *x)[e] for x in CORNERS) / 8
                c.close(f'{title} {cell}', a[cell], s)
    _mapped(c, 'source', g, G, G.at, exact = True)


RATIOS = [(2, 2, 2), ((1, 2), (2, 1), 2), ((2, 1), (1, 1), (1, 2))]   # fine cells in each coarse cell, for each axis


def _mapping(ratios, extent, coarse_given, proportions = None):
    """a FineCoarse for ratios that are a number, or a vector, in each axis; also the vectors of ratios"""
    vec = [[r] * extent[a] if isinstance(r, int) and coarse_given else [r] * (extent[a] // r) if isinstance(r, int) else list(r)
           for a, r in enumerate(ratios)]
    fc = rqfc.FineCoarse(tuple(sum(v) for v in vec), tuple(len(v) for v in vec))
    for a in range(3):
        if isinstance(ratios[a], int):
            fc.set_constant_ratio(a)
        else:
            fc.set_ratio_vector(a, vec[a])
    for a, p in enumerate(proportions or (None, None, None)):
        if p is not None:
            fc.set_proportions_list_of_vectors(a, p)
    return fc, vec


def _starts(v):
    return [sum(v[:e]) for e in range(len(v) + 1)]


def _children(c, r, g, window, title):
    c.check(title + ' parent', bu.matching_uuids(r.parent_grid_uuid, g.uuid))
    c.check(title + ' listed as child', [str(u) for u in r.model.grid(uuid = g.uuid).extract_children()] == [str(r.uuid)])
    pw = r.parent_window
    c.same(title + ' window extents', (tuple(int(x) for x in pw.fine_extent_kji), tuple(int(x) for x in pw.coarse_extent_kji)),
           window[0])
    for a in range(3):
        c.same(f'{title} window ratios {a}', [int(pw.ratio(a, x)) for x in range(pw.coarse_extent_kji[a])], window[1][a])


@case('C16', bounds = 'grids of up to 4 x 3 x 4 cells without faults or gaps, ratios 1 and 2, any points; one property kind symbolic',
      params = [dict(ratios = 0, how = 'append', extent = (2, 2, 2), what = 'points'),
                dict(ratios = 1, how = 'new', extent = (3, 3, 4), what = 'points'),
                dict(ratios = 2, how = 'given', extent = (3, 2, 3), what = 'points'),
                dict(ratios = 1, how = 'append', extent = (3, 3, 2), what = 'ntg'),
                dict(ratios = 2, how = 'append', extent = (3, 2, 3), what = 'poro'),
                dict(ratios = 1, how = 'append', extent = (3, 3, 2), what = 'sat'),
                dict(ratios = 1, how = 'new', extent = (3, 3, 2), what = 'other'),
                dict(ratios = 2, how = 'append', extent = (3, 2, 3), what = 'perm', _tier = 'thorough')])
def coarsened_grids(c, ratios, how, extent, what):
    fixed = lambda self: np.array([[[(100.0 * i, 50.0 * j, 10.0 * k) for i in range(self.ni + 1)] for j in range(self.nj + 1)]
                                   for k in range(self.nkp)])
    G = Geom(c, *extent, False, None, points = None if what == 'points' else fixed)
    fc, vec = _mapping(RATIOS[ratios], extent, False)
    num = np.arange(np.prod(extent)).reshape(extent)
    val = dict(rv = 1.0 + num % 5, ntg = (1.0 + num % 3) * 0.25, poro = (1.0 + num % 4) * 0.0625, sat = (num % 7) * 0.125,
               perm = num * 4.0, other = num * 1.5, cl = 2.0 + num % 3)
    whole = num * 3
    props = []
    if what != 'points':
        if what == 'other':
            whole = c.ints('n', extent, -1000, 1000)
            val['cl'] = c.reals('cl', extent, 0, 1000)
        val[what] = c.reals('v', extent, dict(other = LO, ntg = 0).get(what, 0.001), 1 if what in ('ntg', 'poro', 'sat') else HI)
        props = [('rv', val['rv'], dict(property_kind = 'rock volume', uom = 'm3', facet_type = 'netgross', facet = 'gross')),
                 ('ntg', val['ntg'], dict(property_kind = 'net to gross ratio', uom = 'm3/m3')),
                 ('poro', val['poro'], dict(property_kind = 'porosity', uom = 'm3/m3')),
                 ('sat', val['sat'], dict(property_kind = 'saturation', uom = 'm3/m3', facet_type = 'what', facet = 'water')),
                 ('perm', val['perm'], dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'I')),
                 ('other', val['other'], dict(property_kind = 'length', uom = 'm')),
                 ('cl', val['cl'], dict(property_kind = 'cell length', uom = 'm', facet_type = 'direction', facet = 'J')),
                 ('whole', whole, dict(property_kind = 'some code', discrete = True))]
    m, g = _stored(c, G, None, props)
    d, r = _derive(c, m, g, how, rqdm.coarsened_grid, fine_coarse = fc, inherit_properties = bool(props))
    n = tuple(len(v) for v in vec)
    s = [_starts(v) for v in vec]
    P = {}
    for k, j, i in np.ndindex(*extent):
        for x in CORNERS:
            P[k + x[0], j + x[1], i + x[2]] = G.at(k, j, i, *x)
    for name, x in (('derived', d), ('stored', r)):
        _same_cells(c, name, View(x), n, lambda k, j, i, kp, jp, ip: P[s[0][k + kp], s[1][j + jp], s[2][i + ip]])
    if how != 'new':
        _children(c, r, g, ((tuple(extent), n), vec), 'coarse')
        c.check('source has no parent', g.parent_grid_uuid is None)
    if not props:
        return
    nrv = val['rv'] * val['ntg']
    weights = dict(ntg = val['rv'], poro = nrv, sat = nrv * val['poro'], perm = nrv, other = val['rv'])
    for title in ('rv', 'cl', 'whole', 'ntg') if what == 'ntg' else ('rv', 'cl', 'whole', 'ntg', 'poro', what):
        if title == 'sat' and what in ('ntg', 'poro') or title == 'poro' and what == 'ntg':
            continue
        a = _values(c, r, title)
        c.same(title + ' shape', tuple(a.shape), n)
        for cell in np.ndindex(*n):
            b = tuple(slice(s[e][cell[e]], s[e][cell[e] + 1]) for e in range(3))
            fine = [tuple(s[e][cell[e]] + o[e] for e in range(3)) for o in np.ndindex(*(vec[e][cell[e]] for e in range(3)))]
            if title == 'rv':
                want = sum(val['rv'][f] for f in fine)
            elif title == 'cl':
                want = sum(val['cl'][f] for f in fine) / (vec[0][cell[0]] * vec[2][cell[2]])
            elif title == 'whole':
                c.same(f'whole {cell}', a[cell], whole[fine[0]])
                continue
            else:
                w = weights[title]
                t = sum(w[f] for f in fine)
                want = sum(val[title][f] * w[f] for f in fine) / t
            c.close(f'{title} {cell}', a[cell], want)


def _linear(a, b, f):
    return [x * (1.0 - f) + y * f for x, y in zip(a, b)]


@case('C16', bounds = 'grids of 2 x 2 x 2 and 1 x 2 x 2 cells, ratios 1 to 3 with any of the given proportions, any k gap, 2 extra pillars',
      params = [dict(split = None, gap = True, how = 'append', ratios = (2, (1, 2), 1), prop = (None, None, None)),
                dict(split = None, gap = False, how = 'new', ratios = ((1, 3), 1, (2, 1)), prop = ([[1.0], [1.0, 2.0, 1.0]], None, [[3.0, 1.0], [1.0]])),
                dict(split = 1, gap = False, how = 'new', ratios = ((2,), 1, (1, 2)), prop = (None, None, [[1.0], [1.0, 3.0]]), nk = 1),
                dict(split = 1, gap = False, how = 'append', ratios = ((2,), (2, 1), 1), prop = ([[1.0, 3.0]], None, None), nk = 1),
                dict(split = 1, gap = True, how = 'append', ratios = ((2, 1), 1, (1, 2)), prop = (None, None, None)),
                dict(split = None, gap = True, how = 'append', ratios = ((2, 1), 2, 1), prop = (None, [[1.0, 3.0], [1.0, 1.0]], None), _tier = 'thorough')])
def refined_grids(c, split, gap, how, ratios, prop, nk = 2):
    extent = (nk, 2, 2)
    pts = None
    if split is not None:   # lateral positions given, so that no two pillars nearly coincide
        def pts(self):
            p = [[] for _ in range(self.nkp)]
            where = [(100.0 * i, 50.0 * j) for j in range(3) for i in range(3)]
            where += [where[(j + jp) * 3 + i + ip] for j, i, jp, ip in SPLITS[split]]
            for q, (x, y) in enumerate(where):
                top = c.real(f'top{q}', 0, 10) + (100.0 if q >= 9 else 0.0) * (q - 8)
                for k in range(self.nkp):
                    p[k].append((x, y, top + 20.0 * k + (c.real(f'z{k}_{q}', 0, 10) if k else 0.0)))
            return np.array(p)
    G = Geom(c, *extent, gap, fixed_split = None if split is None else SPLITS[split], points = pts)
    fv = c.reals('v', extent, LO, HI)
    cl = c.reals('cl', extent, 0, 1000)
    iv = c.ints('n', extent, -1000, 1000)
    fc, vec = _mapping(ratios, extent, True, prop)
    m, g = _stored(c, G, None, [('real', fv, dict(property_kind = 'length', uom = 'm')),
                                ('cl', cl, dict(property_kind = 'cell length', uom = 'm', facet_type = 'direction', facet = 'J')),
                                ('whole', iv, dict(property_kind = 'some code', discrete = True))])
    m.h5_release()
    kw = {}
    if how == 'new':
        f = os.path.join(c.tmpdir, 'refined.epc')
        for x in (f, f[:-4] + '.h5'):
            if os.path.exists(x):
                os.remove(x)
        kw['new_epc_file'] = f
    d = rqdm.refined_grid(m.epc_file, g, fc, inherit_properties = True, **kw)
    u = d.uuid
    d.model.h5_release()
    r = rq.Model(f if how == 'new' else m.epc_file, quiet = True).grid(uuid = u)
    n = tuple(sum(v) for v in vec)
    where = []   # for each axis, the coarse index, top and base fraction, of each fine index
    for a in range(3):
        w = []
        for e, q in enumerate(vec[a]):
            share = [1.0] * q if prop[a] is None else prop[a][e]
            t = sum(share)
            w += [(e, sum(share[:x]) / t, sum(share[:x + 1]) / t) for x in range(q)]
        where.append(w)

    def at(k, j, i, kp, jp, ip):
        (ck, *fk), (cj, *fj), (ci, *fi) = where[0][k], where[1][j], where[2][i]
        p = lambda *x: G.at(ck, cj, ci, *x)
        line = lambda a, b: _linear(p(a, b, 0), p(a, b, 1), fi[ip])
        plane = lambda a: _linear(line(a, 0), line(a, 1), fj[jp])
        return _linear(plane(0), plane(1), fk[kp])
    after = []
    for k in range(n[0] - 1):
        ck, nx = where[0][k][0], where[0][k + 1][0]
        after.append(nx != ck and G.raw[nx] != G.raw[ck] + 1)
    for name, x in (('derived', d), ('stored', r)):
        v = View(x)
        _same_cells(c, name, v, n, at, exact = False, cells = None if c.tier != 'quick' else [(0, 0, 0), (n[0] - 1, n[1] - 1, 0),
                                                                                            (n[0] - 1, 0, n[2] - 1), (n[0] - 2, n[1] - 1, n[2] - 1)])
        c.same(name + ' gaps', v.after, after)
    a, b, w = _values(c, r, 'real'), _values(c, r, 'whole'), _values(c, r, 'cl')
    for cell in np.ndindex(*n):
        src = tuple(where[e][cell[e]][0] for e in range(3))
        c.same(f'real {cell}', a[cell], fv[src])
        c.same(f'whole {cell}', b[cell], iv[src])
        lo, hi = where[1][cell[1]][1:]
        c.close(f'length {cell}', w[cell], cl[src] * (hi - lo))
    if how != 'new':
        _children(c, r, g, ((n, tuple(extent)), vec), 'fine')


@case('C16', bounds = 'layer ranges of 3 layers from any zone index (of 3, or 2) of each of 2 or 3 cells in a layer, and any first and last layer',
      params = [dict(dominant = False), dict(dominant = True)], max_paths = 6000)
def zones_of_layers(c, dominant):
    z = c.ints('zone', (3, 1, 3 if dominant else 2), 0, 1 if dominant else 2)
    lo, hi = (0, 2) if dominant else (int(c.fix(c.int('lo', 0, 2))), int(c.fix(c.int('hi', 0, 2))))
    c.assume(lo <= hi)
    for k in range(3):
        if not lo <= k <= hi:
            c.assume(z[k, 0, 0] == z[k, 0, 1])
    for cell in np.ndindex(*z.shape):
        c.fix(z[cell])
    a = z.copy()
    if c.symbolic:
        z = [[int(c.fix(z[k, 0, i])) for i in range(z.shape[2])] for k in range(3)]
    else:
        z = [[int(z[k, 0, i]) for i in range(z.shape[2])] for k in range(3)]
    if dominant:
        layer = [max(sorted(set(v)), key = v.count) for v in z]   # lowest of equally common
    else:
        layer = [v[0] for v in z]
    # valid if each layer is of one zone, and each zone is one range of layers
    runs = []
    for k in range(lo, hi + 1):
        if not runs or runs[-1][2] != layer[k]:
            runs.append([k, k, layer[k]])
        runs[-1][1] = k
    ok = (dominant or all(len(set(z[k])) == 1 for k in range(lo, hi + 1))) and len({x[2] for x in runs}) == len(runs)
    fn = lambda: rqdm.zone_layer_ranges_from_array(a, lo, hi, use_dominant_zone = dominant)
    if not ok:
        c.raises('not layers of zones', fn, AssertionError)
        return
    c.same('ranges', [tuple(int(y) for y in x) for x in fn()], [tuple(x) for x in runs])


@case('C16', bounds = 'grids of 3 x 2 x 2 cells, any k gap and inactive cells, up to 2 extra pillars; any layer range, or 1 to 3 zones', params = [
    dict(split = None, gap = True, how = 'append', zones = None), dict(split = 1, gap = False, how = 'new', zones = None),
    dict(split = 1, gap = True, how = 'append', zones = [(0, 0, 5), (1, 2, 3)]),
    dict(split = None, gap = False, how = 'new', zones = [(0, 1, 1), (2, 2, 2)]),
    dict(split = None, gap = True, how = 'given', zones = [(1, 2, 7)]),
    dict(split = 1, gap = False, how = 'append', zones = 'property')])
def zonal_grids(c, split, gap, how, zones):
    G = Geom(c, 3, 2, 2, gap, fixed_split = None if split is None else SPLITS[split])
    n = (3, 2, 2)
    # columns differ only in some of the layers, to limit the number of cases
    off = c.bools('off', n)
    strict = bool(c.fix(c.bool('strict')))
    props = []
    kw = dict(inactive_laissez_faire = not strict)
    if zones is None:
        lo, hi = int(c.fix(c.int('lo', 0, 2))), int(c.fix(c.int('hi', 0, 2)))
        c.assume(lo <= hi)
        kw.update(k0_min = lo, k0_max = hi)
        ranges = [(lo, hi, 0)]
    elif zones == 'property':
        off = np.zeros(n, dtype = bool)
        top = int(c.fix(c.int('top', 1, 2)))   # first layer of second zone
        props = [('zone', np.array([[[4 if k < top else 2] * 2] * 2 for k in range(3)]), dict(property_kind = 'zone', discrete = True))]
        kw.update(zone_title = 'zone')
        ranges = [(0, top - 1, 4), (top, 2, 2)]
    else:
        kw.update(zone_layer_range_list = zones)
        ranges = zones
    m, g = _stored(c, G, off, props)
    d, r = _derive(c, m, g, how, rqdm.zonal_grid, **kw)

    def at(k, j, i, kp, jp, ip):
        if k == 0 and kp == 0:
            return G.at(ranges[0][0], j, i, 0, jp, ip)
        return G.at(ranges[k - 1 + kp][1], j, i, 1, jp, ip)
    for name, x in (('derived', d), ('stored', r)):
        v = View(x)
        e = (len(ranges), 2, 2)
        _same_cells(c, name, v, e, at)
        c.same(name + ' gaps', v.after, [False] * (e[0] - 1))
        if name == 'stored':
            x.extract_inactive_mask()
        for cell in np.ndindex(*e):
            dead = [off[k, cell[1], cell[2]] == 1 for k in range(ranges[cell[0]][0], ranges[cell[0]][1] + 1)]
            now = v.inactive(cell)
            c.check(f'{name} inactive {cell}', c.Iff(now if c.symbolic else bool(now), c.Or(*dead) if strict else c.And(*dead)))
    _mapped(c, 'source', g, G, G.at, exact = True)


@case('C16', bounds = 'regular grids of 3 x 1 x 2 cells, any cell sizes, any layer range', params = [dict(how = 'new'), dict(how = 'append')])
def single_layer_of_regular_grid(c, how):
    f = os.path.join(c.tmpdir, 'regular.epc')
    for x in (f, f[:-4] + '.h5'):
        if os.path.exists(x):
            os.remove(x)
    m = rq.new_model(f, quiet = True)
    crs = rqc.Crs(m)
    crs.create_xml()
    size = [c.real(f'd{a}', 1, 100) for a in 'xyz']
    # (regular grids with a non zero origin are subject to the findings K1 and K2 of C07: sizes only are compared here)
    g = grr.RegularGrid(m, extent_kji = (3, 1, 2), dxyz = tuple(size), crs_uuid = crs.uuid, title = 'r')
    g.create_xml()
    m.store_epc(quiet = True)
    g = rq.Model(f, quiet = True).grid(uuid = g.uuid)
    lo, hi = int(c.fix(c.int('lo', 0, 2))), int(c.fix(c.int('hi', 0, 2)))
    c.assume(lo <= hi)
    d, r = _derive(c, g.model, g, how, rqdm.single_layer_grid, k0_min = lo, k0_max = hi)
    p, q = d.corner_points((0, 0, 1)), r.corner_points((0, 0, 1))
    for name, y in (('derived', p), ('stored', q)):
        for x in CORNERS:
            c.close(f'{name} cell size {x}', [y[x][a] - y[0, 0, 0][a] for a in range(3)],
                    [size[0] * x[2], size[1] * x[1], size[2] * (hi - lo + 1) * x[0]])


def _lattice(name, z = None, skew = True):
    """points with fixed x and y (pillars not vertical) and any z (within a range for each layer, if given)"""

    def fn(G):
        p = []
        zz = G.c.reals(name, G.shape[:1] + (int(np.prod(G.shape[1:-1])),), LO, HI) if z is None else None
        for k in range(G.nkp):
            row = []
            for e in range(int(np.prod(G.shape[1:-1]))):
                q = e if e < G.npl else int(G.g.split_pillar_indices_cached[e - G.npl])
                j, i = divmod(q, G.ni + 1)
                f = (k + (0.25 if e >= G.npl else 0.0)) if skew else 0.0
                row.append([100.0 * i + 8.0 * j + 4.0 * f, 120.0 * j + 2.0 * f, zz[k, e] if z is None else z(k, e, q)])
            p.append(row)
        return np.array(p).reshape(G.shape)
    return fn


STRAIGHT = [(0, 1, 0, 0), (0, 1, 1, 0), (1, 1, 1, 0)]   # column corners on the far side of a fault through part of the grid


@case('C16', bounds = 'grids of 2 x 2 x 2 cells, any z and k gaps, up to 3 extra pillars; factors 0.5, 3, -1', params = [
    dict(split = 1, gap = True, how = 'append', factor = 0.5, ref = (0, 'base'), reach = 0, xy = False),
    dict(split = 2, gap = True, how = 'new', factor = 3.0, ref = (1, 'top'), reach = 0, xy = False),
    dict(split = 0, gap = False, how = 'given', factor = -1.0, ref = (0, 'top'), reach = 0, xy = False),
    dict(split = 0, gap = False, how = 'new', factor = 3.0, ref = (1, 'base'), reach = 1, xy = False)])
def scaled_throws(c, split, gap, how, factor, ref, reach, xy):
    G = Geom(c, 2, 2, 2, gap, fixed_split = STRAIGHT[1:] if split == 0 else SPLITS[split],
             points = None if xy else _lattice('z') if not reach else _lattice('z', z = lambda k, e, q: c.real(f'z{k}_{e}', 100 * k, 100 * k + 50)))
    m, g = _stored(c, G)
    d, r = _derive(c, m, g, how, rqdm.global_fault_throw_scaling, scaling_factor = factor, ref_k0 = ref[0], ref_k_faces = ref[1],
                   cell_range = reach, inherit_gcs = False)
    rk, rp = ref[0], 1 if ref[1] == 'base' else 0
    faulted = {tuple((x[0] + x[2], x[1] + x[3])) for x in (STRAIGHT[1:] if split == 0 else SPLITS[split])}
    shift = {}
    for pj, pi in faulted:
        cols = [(pj - a, pi - b, a, b) for a in (0, 1) for b in (0, 1) if 0 <= pj - a < 2 and 0 <= pi - b < 2]
        at = lambda col: G.at(rk, col[0], col[1], rp, col[2], col[3])
        for col in cols:
            mean = [sum(at(o)[e] for o in cols) / len(cols) for e in range(3)]
            shift[col] = [(at(col)[e] - mean[e]) * (factor - 1.0) for e in range(3)]
    for name, x in (('derived', d), ('stored', r)):
        v = View(x)
        c.same(name + ' gaps', v.after, [bool(G.raw[k + 1] != G.raw[k] + 1) for k in range(1)])
        for cell in G.cells():
            for y in CORNERS:
                col = (cell[1], cell[2], y[1], y[2])
                old, new = G.at(*cell, *y), v.at(*cell, *y)
                if col in shift:
                    c.close(f'{name} {cell} {y}', new, [old[e] + shift[col][e] for e in range(3)])
                elif not reach:
                    c.same(f'{name} {cell} {y}', new, old)
                elif not any(abs(a - cell[1] - y[1]) + abs(b - cell[2] - y[2]) == 1 for a, b in faulted):
                    c.same(f'{name} far {cell} {y}', new, old)
                else:
                    o = G.at(*cell, 0, y[1], y[2])
                    k = G.at(0, cell[1], cell[2], 0, y[1], y[2])
                    w = v.at(0, cell[1], cell[2], 0, y[1], y[2])
                    c.close(f'{name} near {cell} {y}', [new[e] - old[e] for e in range(3)], [w[e] - k[e] for e in range(3)])
    _mapped(c, 'source', g, G, G.at, exact = True)


@case('C16', bounds = 'grids of 2 x 2 x 2 cells, any z, k gaps and shift, up to 3 extra pillars, fixed centre and radius', params = [
    dict(split = None, gap = True, how = 'append', decay = 'linear', ref = 0, down = True, local = True),
    dict(split = 1, gap = True, how = 'new', decay = 'quadratic', ref = 1, down = False, local = False),
    dict(split = 2, gap = False, how = 'given', decay = 'quadratic', ref = 0, down = True, local = False)])
def local_shifts(c, split, gap, how, decay, ref, down, local):
    G = Geom(c, 2, 2, 2, gap, fixed_split = None if split is None else SPLITS[split], points = _lattice('z'),
             crs = dict(x_offset = 1000.0, y_offset = -500.0, z_inc_down = down))
    m, g = _stored(c, G)
    shift = c.real('shift', -100, 100)
    cx, cy, radius = 110.0, 125.0, 150.0
    o = (0.0, 0.0) if local else (1000.0, -500.0)
    d, r = _derive(c, m, g, how, lambda f, s, **k: rqdm.local_depth_adjustment(
        f, s, cx + o[0], cy + o[1], radius, shift, local, decay_shape = decay, ref_k0 = ref, store_displacement = True, **k))
    count = set()

    def fn(k, j, i, kp, jp, ip):
        p = G.at(k, j, i, kp, jp, ip)
        q = G.at(ref, j, i, 0, jp, ip)
        q = [float(q[0]), float(q[1])]
        n = ((q[0] - cx) ** 2 + (q[1] - cy) ** 2) ** 0.5 / radius
        if n > 1.0:
            count.add(0)
            return p
        count.add(1)
        f = 1.0 - n if decay == 'linear' else 2.0 * (1.0 - n) ** 2 if n >= 0.5 else 1.0 - 2.0 * n * n
        return [p[0], p[1], p[2] + f * (shift if down else -shift)]
    for name, x in (('derived', d), ('stored', r)):
        _mapped(c, name, x, G, fn)
    c.check('some corners are moved and some not', len(count) == 2)
    a = _values(c, r, 'DZ_DISPLACEMENT')
    for cell in [(0, 0, 0), (1, 1, 0)]:
        c.close(f'dz {cell}', a[cell], sum(fn(*cell, *x)[2] - G.at(*cell, *x)[2] for x in CORNERS) / 8)
    _mapped(c, 'source', g, G, G.at, exact = True)


@case('C16', bounds = 'grids of 2 x 2 x 2 cells with fixed top and base, any points between, any z of surface, throw and k gaps', params = [
    dict(split = None, gap = True, how = 'append', ref = (0, 'base'), same = True), dict(split = 1, gap = False, how = 'new', ref = (1, 'base'), same = False),
    dict(split = 1, gap = True, how = 'given', ref = (1, 'top'), same = True)])
def draped(c, split, gap, how, ref, same):
    def z(k, e, q):
        if 0 < k < G_nkp():
            return c.real(f'z{k}_{e}', LO, HI)
        return 100.0 * k + (throw if e >= 12 else -throw if split is not None and q == 1 else 0.0)
    throw = 0.0 if split is None else c.real('throw', -50, 50)
    after = [None]
    G_nkp = lambda: after[0]

    def points(G):
        after[0] = G.nkp - 1
        p = _lattice('z', z = lambda k, e, q: z(k, e + 12 - G.npl if e >= G.npl else min(e, 11), q))(G)
        return p
    G = Geom(c, 2, 2, 2, gap, fixed_split = [(0, 0, 0, 1)] if split is not None else None, points = points)
    m, g = _stored(c, G)
    zs = c.reals('s', (4,), -20, 20)
    up = 0.0 if same else 1000.0
    if same:
        crs_uuid = m.crs_uuid
    else:
        crs = rqc.Crs(m, z_offset = up, title = 'other')
        crs.create_xml()
        crs_uuid = crs.uuid
    s = rqs.Surface(m, crs_uuid = crs_uuid, title = 's')
    xy = [(-500.0, -500.0), (800.0, -500.0), (-500.0, 900.0), (800.0, 900.0)]
    pts = np.array([[a, b, zz + 60.0 - up] for (a, b), zz in zip(xy, zs)])
    s.set_from_triangles_and_points(np.array([[0, 1, 2], [1, 3, 2]], dtype = int), pts.copy())
    keep = s.points.copy() if hasattr(s, 'points') and s.points is not None else pts.copy()
    d, r = _derive(c, m, g, how, rqdm.drape_to_surface, surface = s, ref_k0 = ref[0], ref_k_faces = ref[1])
    for name, x in (('derived', d), ('stored', r)):
        v = View(x)
        for pj, pi in np.ndindex(3, 3):
            cols = [(pj - a, pi - b, a, b) for a in (0, 1) for b in (0, 1) if 0 <= pj - a < 2 and 0 <= pi - b < 2]
            rp = 1 if ref[1] == 'base' else 0
            p = [v.at(ref[0], q[0], q[1], rp, q[2], q[3]) for q in cols]
            mean = [sum(y[e] for y in p) / len(p) for e in range(3)]
            # on the plane of one of the two triangles (the line x/1300 + y/1400 = const divides them)
            u, w = (mean[0] + 500.0) / 1300.0, (mean[1] + 500.0) / 1400.0
            low = zs[0] + u * (zs[1] - zs[0]) + w * (zs[2] - zs[0]) + 60.0
            high = zs[3] + (1.0 - u) * (zs[2] - zs[3]) + (1.0 - w) * (zs[1] - zs[3]) + 60.0
            near = lambda a: abs(a - mean[2]) <= 1.0e-6
            c.check(f'{name} pillar {pj, pi} on surface', c.Or(c.And(u + w <= 1.0, near(low)), c.And(u + w >= 1.0, near(high))))
            # all points at the pillar are moved by the same amount
            q = cols[0]
            t = [v.at(0, q[0], q[1], 0, q[2], q[3])[e] - G.at(0, q[0], q[1], 0, q[2], q[3])[e] for e in range(3)]
            for q in cols:
                for k in range(2):
                    for kp in range(2):
                        c.close(f'{name} shift {pj, pi} {q} {k, kp}', v.at(k, q[0], q[1], kp, q[2], q[3]),
                                [G.at(k, q[0], q[1], kp, q[2], q[3])[e] + t[e] for e in range(3)])
    c.same('surface points', [list(x) for x in s.points], [list(x) for x in keep])
    _mapped(c, 'source', g, G, G.at, exact = True)


@case('C16', bounds = 'grids of 2 x 2 x 2 cells, any points and k gaps, equal or different extra pillars, weights 0.25 and 0.5', params = [
    dict(a = None, b = None, gap = True, how = 'append', f = 0.25), dict(a = 1, b = 1, gap = True, how = 'new', f = 0.5),
    dict(a = 2, b = 0, gap = False, how = 'append', f = 0.25), dict(a = 0, b = None, gap = False, how = 'new', f = 0.5)])
def interpolated(c, a, b, gap, how, f):
    pillars = a == b
    fs = [None if x is None else STRAIGHT[1:] if x == 0 else SPLITS[x] for x in (a, b)]
    if pillars:
        A = Geom(c, 2, 2, 2, gap, fixed_split = fs[0])
    else:
        ts = [c.real('ta', 1, 50), c.real('tb', -50, -1)]
        shape = lambda t: _lattice('z', z = lambda k, e, q: 100.0 * k + (t if e >= 9 else 0.0) + 3.0 * q, skew = False)
        A = Geom(c, 2, 2, 2, gap, fixed_split = fs[0], points = shape(ts[0]))
    off = [c.bools('offa', (2, 2, 2)), c.bools('offb', (2, 2, 2))]
    fv = c.reals('v', (2, 2, 2), LO, HI)
    m, g = _stored(c, A, off[0], [('real', fv, dict(property_kind = 'length', uom = 'm'))])
    if pillars:
        h = rqdm.copy_grid(g, m)
        q = c.reals('q', A.shape, LO, HI)
        h.points_cached = q
        flat = q.reshape((A.nkp, -1, 3))
        second = lambda k, j, i, kp, jp, ip: flat[A.raw[k] + kp, A.map[j, i, jp, ip]]
    else:
        B = Geom(c, 2, 2, 2, gap, fixed_split = fs[1], points = shape(ts[1]), model = m)
        h, second = B.g, B.at
    h.inactive = off[1]
    d, r = _derive(c, m, g, how, lambda e, s, **k: rqdm.interpolated_grid(e, g, h, a_to_b_0_to_1 = f, **k), inherit_properties = True)
    fn = lambda *x: [(1.0 - f) * A.at(*x)[e] + f * second(*x)[e] for e in range(3)]
    for name, x in (('derived', d), ('stored', r)):
        if pillars:
            v = _mapped(c, name, x, A, fn)
        else:
            v = View(x)
            c.same(name + ' gaps', v.after, [False])
            for cell in A.cells():
                for y in CORNERS:
                    for e in range(3):
                        c.le(f'{name} {cell} {y} {e}', abs(v.at(*cell, *y)[e] - fn(*cell, *y)[e]), 0.0101)
        if name == 'stored':
            x.extract_inactive_mask()
        for cell in A.cells():
            now = v.inactive(cell)
            c.check(f'{name} inactive {cell}', c.Iff(now if c.symbolic else bool(now), c.And(off[0][cell] == 1, off[1][cell] == 1)))
    w = _values(c, r, 'real')
    for cell in A.cells():
        c.same(f'real {cell}', w[cell], fv[cell])
    _mapped(c, 'source', g, A, A.at, exact = True)


PATHS = dict(across = [[(0, 1), (1, 1), (2, 1)]], back = [[(2, 1), (1, 1), (0, 1)]], bend = [[(0, 1), (1, 1), (1, 2)]],
             turn = [[(1, 0), (1, 1), (0, 1)]], stop = [[(1, 0), (1, 1)]], loop = [[(2, 1), (1, 1), (1, 0)]], along = [[(1, 2), (1, 1), (1, 0)]],
             cross = [[(0, 1), (1, 1), (2, 1)], [(1, 0), (1, 1), (1, 2)]], two = [[(0, 1), (1, 1), (1, 2)], [(1, 2), (1, 1), (2, 1)]])


def _side(path, e, jp, ip):
    """1 if a column of the four around a pillar of a path is on its right (from +i towards +j), 0 if left, None if no throw"""
    if e in (0, len(path) - 1) and path[e][0] not in (0, 2) and path[e][1] not in (0, 2):
        return None
    steps = []
    if e:
        steps.append((path[e][0] - path[e - 1][0], path[e][1] - path[e - 1][1]))
    if e < len(path) - 1:
        steps.append((path[e + 1][0] - path[e][0], path[e + 1][1] - path[e][1]))
    q = (2 * jp - 1, 2 * ip - 1)
    right = [q[0] * d[1] - q[1] * d[0] > 0 for d in steps]
    if len(steps) == 2:
        a, b = steps
        turn = b[0] * a[1] - b[1] * a[0]         # more than zero if the path turns right
        return int(all(right) if turn > 0 else any(right))
    return int(right[0])


@case('C16', bounds = 'grids of 1 or 2 x 2 x 2 cells with straight pillars, any throws (and layer between), k gaps, paths of up to 2 faults', params = [
    dict(path = 'across', split = None, gap = False, how = 'append', nk = 2), dict(path = 'back', split = 2, gap = False, how = 'new', nk = 2),
    dict(path = 'bend', split = 1, gap = True, how = 'append', nk = 2), dict(path = 'turn', split = None, gap = True, how = 'new', nk = 2),
    dict(path = 'stop', split = 1, gap = False, how = 'given', nk = 2), dict(path = 'loop', split = 0, gap = False, how = 'append', nk = 1),
    dict(path = 'along', split = 0, gap = False, how = 'append', nk = 2), dict(path = 'cross', split = None, gap = False, how = 'append', nk = 1),
    dict(path = 'two', split = 1, gap = False, how = 'new', nk = 2)])
def added_faults(c, path, split, gap, how, nk):
    def points(G):
        p = []
        for k in range(G.nkp):
            row = []
            for e in range(int(np.prod(G.shape[1:-1]))):
                q = e if e < G.npl else int(G.g.split_pillar_indices_cached[e - G.npl])
                j, i = divmod(q, 3)
                z = 100.0 * k + 10.0 * (e >= G.npl)
                if 0 < k < G.nkp - 1:
                    z = c.real(f'z{k}_{e}', LO, HI)
                row.append([100.0 * i + (75.0 * k if nk == 1 else 0.0), 100.0 * j, z])
            p.append(row)
        return np.array(p).reshape(G.shape)
    G = Geom(c, nk, 2, 2, gap, fixed_split = None if split is None else STRAIGHT[1:] if split == 0 else SPLITS[split], points = points)
    m, g = _stored(c, G)
    paths = PATHS[path]
    throw = {f'f{e}': (c.real(f'left{e}', -100, 100), c.real(f'right{e}', -100, 100)) for e in range(len(paths))}
    pld = {f'f{e}': [np.array(p, dtype = int) for p in x] for e, x in enumerate(paths)}
    d, r = _derive(c, m, g, how, lambda f, s, **k: rqdm.add_faults(f, s, full_pillar_list_dict = pld, left_right_throw_dict = throw,
                                                                  create_gcs = True, **k))
    u = (0.6, 0.0, 0.8) if nk == 1 else (0.0, 0.0, 1.0)

    def fn(k, j, i, kp, jp, ip):
        p = list(G.at(k, j, i, kp, jp, ip))
        for e, x in enumerate(paths):
            for o, at in enumerate(x):
                if at == (j + jp, i + ip):
                    s = _side(x, o, 1 - jp, 1 - ip)
                    if s is not None:
                        p = [a + throw[f'f{e}'][s] * b for a, b in zip(p, u)]
        return p
    for name, x in (('derived', d), ('stored', r)):
        _mapped(c, name, x, G, fn)
    _mapped(c, 'source', g, G, G.at, exact = True)
    u = r.model.uuids(obj_type = 'GridConnectionSetRepresentation')
    c.same('connection sets', len(u), 1)
    s = rqf.GridConnectionSet(r.model, uuid = u[0])
    s.cache_arrays()
    want = {}
    for e, x in enumerate(paths):
        for a, b in zip(x, x[1:]):
            for k in range(nk):
                if a[0] == b[0]:
                    i = min(a[1], b[1])
                    f = frozenset([k * 4 + i, k * 4 + 2 + i])
                else:
                    j = min(a[0], b[0])
                    f = frozenset([k * 4 + 2 * j, k * 4 + 2 * j + 1])
                want.setdefault(f, set()).add(f'f{e}')
    got = {}
    for x, y in zip(s.cell_index_pairs, s.feature_indices):
        f = frozenset(int(z) for z in x)
        name = s.fault_name_for_feature_index(int(y))
        c.check('face listed once', name not in got.get(f, ()))
        got.setdefault(f, set()).add(name)
    c.check('faces of the faults', got == want)
