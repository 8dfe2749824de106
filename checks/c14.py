"""C14: connection sets, faults and transmissibilities describe the real adjacency of cells."""
from symx.run import case
import os
import numpy as np
import pandas as pd
import resqpy.fault as rqf
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.olio.transmission as rqtr
import resqpy.olio.read_nexus_fault as rnf
import resqpy.property as rqp
from checks.c11 import Geom
from checks.c08 import _model, _reopen, _grid

META = dict(
    title = 'Connection sets, fault throws and transmissibilities fit the cells they join',
    statement = 'Every face pair of a grid connection set joins the two cells and faces that were asked for or that touch in '
    'the geometry, also after filtering, merging, sorting, storing, writing to and reading from a simulator file and spreading '
    'onto grid face arrays, and each keeps its feature and property value. Juxtaposed area fractions, throws, pinchout and gap '
    'connections follow from the corner points, and every transmissibility is the harmonic combination of the half cell '
    'values of the two faces with their multipliers, zero across splits and gaps.',
    text = 'any face masks, sides, cell pairs, features and values, any heights of the layers on either side of a fault, any '
    'pinched out, inactive or gapped layers, any half cell values, in grids of a few cells',
    why = 'juxtaposition has tens of separate branches, and modifiers, sides and features combine freely; tests use a few',
    files = ['resqpy/fault', 'resqpy/olio/transmission.py', 'resqpy/grid/_transmissibility.py', 'resqpy/grid/_faults.py',
             'resqpy/grid/_connection_sets.py', 'resqpy/olio/read_nexus_fault.py'],
    mechanism = [('GridConnectionSet', 'resqpy/fault/_grid_connection_set.py'),
                 ('juxtaposition and half cell transmissibility', 'resqpy/olio/transmission.py'),
                 ('pinchout, k gap and skin connection sets', 'resqpy/fault/_gcs_functions.py'),
                 ('neighbour transmissibility', 'resqpy/grid/_transmissibility.py')],
    observe = ['arrays of the connection sets, face arrays, throws and transmissibilities returned'],
    note = 'grids of up to 5 layers and 4 columns; area fractions exact for layers of equal thickness on both pillars and '
    'vertical pillars; reals idealised; a tolerance margin is excluded')

FACE = {(0, 0): 0, (0, 1): 1, (1, 0): 2, (2, 1): 3, (1, 1): 4, (2, 0): 5}
UNFACE = {b: a for a, b in FACE.items()}


_FIXED = {'I': [(0, 1, 0, 0), (0, 1, 1, 0)], 'J': [(1, 0, 0, 0), (1, 0, 0, 1)]}


def _gcs(m, g, pairs, features = None, names = ('f0',), store = False, title = 'gcs'):
    """a connection set with pairs of ((cell, axis, polarity), (cell, axis, polarity))"""
    nj, ni = g.nj, g.ni
    s = rqf.GridConnectionSet(m, grid = g, title = title)
    s.count = len(pairs)
    nat = lambda x: (x[0] * nj + x[1]) * ni + x[2]
    s.cell_index_pairs = np.array([[nat(a), nat(b)] for a, b in pairs], dtype = np.int32).reshape((-1, 2))
    s.face_index_pairs = np.array([[FACE[a[3:]], FACE[b[3:]]] for a, b in pairs], dtype = np.int8).reshape((-1, 2))
    s.feature_indices = np.zeros(len(pairs), dtype = np.int32) if features is None else np.array(features, dtype = np.int32)
    s.feature_list = []
    for x in names:
        t = rqf.GridConnectionSet(m, grid = g, title = 'temp')
        t._sort_out_organizing_objects('fault', x, True)
        s.feature_list += t.feature_list
    if store:
        s.write_hdf5()
        s.create_xml()
    return s


def _pairs(s, g):
    """the set of unsided and the list of sided face pairs of a connection set, taken from its raw arrays"""
    out = []
    for e in range(len(s.cell_index_pairs)):
        one = []
        for side in range(2):
            n = int(s.cell_index_pairs[e, side])
            one.append((n // (g.nj * g.ni), n // g.ni % g.nj, n % g.ni) + UNFACE[int(s.face_index_pairs[e, side])])
        out.append(tuple(one))
    return out


def _joined(cell, axis):
    other = tuple(x + (1 if a == axis else 0) for a, x in enumerate(cell))
    return (cell + (axis, 1), other + (axis, 0))


def _all_faces(nk, nj, ni):
    out = []
    for axis in range(3):
        n = [nk, nj, ni]
        n[axis] -= 1
        out += [_joined(x, axis) for x in np.ndindex(*n)]
    return out


@case('C14', bounds = 'any masks and sides of all internal faces of grids of 3 x 1 x 2, 1 x 3 x 2, 1 x 2 x 2 cells', params = [
    dict(ext = (3, 1, 1), sides = True), dict(ext = (1, 3, 1), sides = True), dict(ext = (1, 1, 3), sides = True),
    dict(ext = (1, 2, 2), sides = True), dict(ext = (2, 1, 2), sides = False), dict(ext = (2, 2, 1), sides = False),
    dict(ext = (2, 2, 2), sides = False, _tier = 'thorough'), dict(ext = (2, 1, 2), sides = True, _tier = 'thorough')],
    max_paths = 6000)
def face_masks(c, ext, sides):
    m = _model(c)
    g = _grid(m, *ext)
    masks, flips, expect = [], [], []
    for axis in range(3):
        n = list(ext)
        n[axis] -= 1
        if 0 in n:
            masks.append(None)
            flips.append(None)
            continue
        a = np.zeros(n, dtype = bool)
        f = np.zeros(n, dtype = bool)
        for x in np.ndindex(*n):
            if c.fix(c.bool(f'face{axis}{x}')):
                a[x] = True
                if sides:
                    f[x] = bool(c.fix(c.bool(f'side{axis}{x}')))
                p = _joined(x, axis)
                expect.append((p[1], p[0]) if f[x] else p)
        masks.append(a)
        flips.append(f if sides else None)
    c.assume(len(expect) > 0)
    s = rqf.GridConnectionSet(m, grid = g, k_faces = masks[0], j_faces = masks[1], i_faces = masks[2], k_sides = flips[0],
                              j_sides = flips[1], i_sides = flips[2], feature_name = 'F', feature_type = 'fault',
                              create_organizing_objects_where_needed = True)
    c.same('pairs', _pairs(s, g), expect)
    c.same('count', s.count, len(expect))
    s.write_hdf5()
    s.create_xml()
    v = c.reals('v', (s.count,), -100.0, 100.0)
    p = rqp.Property.from_array(m, v, source_info = 'check', keyword = 'v', support_uuid = s.uuid,
                                property_kind = 'continuous', indexable_element = 'faces', uom = 'm')
    m = _reopen(c, m)
    s = rqf.GridConnectionSet(m, uuid = s.uuid)
    g = s.grid_list[0]
    s.cache_arrays()
    c.same('stored pairs', _pairs(s, g), expect)
    c.check('features', s.list_of_feature_names() == ['F'] and list(s.feature_indices) == [0] * len(expect))
    cp, fp = s.list_of_cell_face_pairs_for_feature_index(0)
    c.same('indexed', [tuple(tuple(int(x) for x in (*cp[e, z], *fp[e, z])) for z in range(2)) for e in range(s.count)], expect)
    fa = s.grid_face_arrays(p.uuid, default_value = -999.0)
    lz = s.grid_face_arrays(p.uuid, default_value = -999.0, lazy = True)
    want = {}
    for e, (a, b) in enumerate(expect):
        f = a if a[4] else b
        k = list(f[:3])
        k[f[3]] += 1
        want[(f[3],) + tuple(k)] = v[e]
    for axis in range(3):
        n = list(ext)
        n[axis] += 1
        for x in np.ndindex(*n):
            w = want.get((axis,) + x, -999.0)
            c.same(f'face value {axis} {x}', fa[axis][x], w)
            c.same(f'lazy face value {axis} {x}', lz[axis][x], w)
    sj, si = s.simplified_sets_of_kelp_for_feature_index(0)
    c.check('kelp', {tuple(int(z) for z in x) for x in sj} == {a[1:3] for p in expect for a in p if a[3:] == (1, 1)}
            and {tuple(int(z) for z in x) for x in si} == {a[1:3] for p in expect for a in p if a[3:] == (2, 1)})


@case('C14', bounds = '2 or 3 faces with any indices (repeats included) in a grid of 2 x 2 x 2 cells; any property values',
      params = [dict(axis = x, n = n, second = z) for x in range(3) for n, z in ((2, False), (3, True))])
def from_faces(c, axis, n, second):
    m = _model(c)
    if second:
        _grid(m, 1, 1, 4)
    g = _grid(m, 2, 2, 2)
    idx = [[int(c.fix(c.int(f'{x}{e}', 0, 0 if a == axis else 1))) for a, x in enumerate('kji')] for e in range(n)]
    v = c.reals('v', (n,), -100.0, 100.0)
    for a in range(n):
        for b in range(a):
            c.assume(v[a] != v[b])
    faces = [None, None, None]
    faces[axis] = np.array(idx, dtype = int)
    props = [None, None, None]
    props[axis] = [v.copy()]
    s = rqf.GridConnectionSet.from_faces_indices(g, *faces, remove_duplicates = True, k_properties = props[0],
                                                 j_properties = props[1], i_properties = props[2], feature_name = 'x')
    c.check('grid', len(s.grid_list) == 1 and str(s.grid_list[0].uuid) == str(g.uuid))
    got = _pairs(s, g)
    want = sorted({tuple(x) for x in idx})
    c.same('pairs', got, [_joined(x, axis) for x in want])
    w = props[axis][0]
    c.same('property length', len(w), len(want))
    for e, x in enumerate(want):
        c.check(f'value {e} belongs to its face', c.Or(*[w[e] == v[z] for z in range(n) if tuple(idx[z]) == x]))
    keep = rqf.GridConnectionSet.from_faces_indices(g, *faces, remove_duplicates = False, feature_name = 'x')
    c.same('kept as given', _pairs(keep, g), [_joined(tuple(x), axis) for x in idx])


@case('C14', bounds = '4 face pairs of a grid of 3 x 2 x 2 cells, any features, any layer range or any cell mask',
      params = [dict(what = x) for x in ('layers', 'layers from', 'layers to', 'mask', 'mask either', 'stored mask')])
def filtering(c, what):
    m = _model(c)
    g = _grid(m, 3, 2, 2)
    every = _all_faces(3, 2, 2)
    pick = [every[0], every[9], every[14], every[-1]]
    feat = [int(c.fix(c.int(f'f{e}', 0, 2))) for e in range(4)]
    names = ('a0', 'b1', 'c2')
    s = _gcs(m, g, pick, feat, names, store = what == 'stored mask')
    if what == 'stored mask':
        m = _reopen(c, m)
        s = rqf.GridConnectionSet(m, uuid = s.uuid)
        g = s.grid_list[0]
    pare = bool(c.fix(c.bool('pare')))
    if what.startswith('layers'):
        lo = int(c.fix(c.int('lo', 0, 2))) if what != 'layers to' else None
        hi = int(c.fix(c.int('hi', 0, 2))) if what != 'layers from' else None
        inside = lambda x: (lo is None or x[0] >= lo) and (hi is None or x[0] <= hi)
        keep = [e for e in range(4) if inside(pick[e][0]) and inside(pick[e][1])]
        got = s.filtered_by_layer_range(min_k0 = lo, max_k0 = hi, pare_down = pare, return_indices = True)
    else:
        mask = np.zeros((3, 2, 2), dtype = bool)
        either = what == 'mask either'
        for x in sorted({z[:3] for p in pick for z in p}):
            if len(set(feat)) > 1:
                mask[x] = x[0] != 1
            else:
                mask[x] = bool(c.fix(c.bool(f'mask{x}')))
        test = [bool(mask[a[:3]]) + bool(mask[b[:3]]) for a, b in pick]
        keep = [e for e in range(4) if test[e] >= (1 if either else 2)]
        got = s.filtered_by_cell_mask(mask, both_cells_required = not either, pare_down = pare, return_indices = True)
    t, ind = got
    if not keep:
        c.check('nothing left', t is None and ind is None)
        return
    c.same('indices', [int(x) for x in ind], keep)
    c.same('pairs', _pairs(t, g), [pick[e] for e in keep])
    tn = t.list_of_feature_names()
    c.same('features', [tn[int(x)] for x in t.feature_indices], [names[feat[e]] for e in keep])
    if not pare:
        c.same('feature list', tn, list(names))
    elif len(keep) < 4:
        c.check('used features', len(tn) == len({feat[e] for e in keep}))
    so = s.list_of_feature_names()
    c.same('original', [so[int(x)] for x in s.feature_indices], [names[x] for x in feat])


@case('C14', bounds = '3 face pairs with any features, and 2 more with any features, of a grid of 2 x 2 x 2 cells')
def merging(c):
    m = _model(c)
    g = _grid(m, 2, 2, 2)
    every = _all_faces(2, 2, 2)
    pa, pb = [every[0], every[5], every[9]], [every[1], every[11]]
    fa = [int(c.fix(c.int(f'a{e}', 0, 1))) for e in range(3)]
    fb = [int(c.fix(c.int(f'b{e}', 0, 2))) for e in range(2)]
    na, nb = ('p0', 'p1'), ('q0', 'q1', 'q2')
    a = _gcs(m, g, pa, fa, na, store = True, title = 'a')
    b = _gcs(m, g, pb, fb, nb, store = True, title = 'b')
    va, vb = c.reals('va', (3,), 0.0, 9.0), c.reals('vb', (2,), 0.0, 9.0)
    pr = [rqp.Property.from_array(m, v, source_info = 'check', keyword = 'v', support_uuid = x.uuid,
                                  property_kind = 'continuous', indexable_element = 'faces', uom = 'm')
          for v, x in ((va, a), (vb, b))]
    one = a.single_feature(feature_index = fa[0])
    c.same('single feature', _pairs(one, g), [pa[e] for e in range(3) if fa[e] == fa[0]])
    c.same('single feature name', one.list_of_feature_names(), [na[fa[0]]])
    want = [na[x] for x in fa] + [nb[x] for x in fb]
    d = rqf.GridConnectionSet.from_gcs_uuid_list(m, m, [a.uuid, b.uuid], 'both', [[p.uuid for p in pr]])
    c.same('merged', _pairs(d, g), pa + pb)
    dn = d.list_of_feature_names()
    c.same('merged features', [dn[int(x)] for x in d.feature_indices], want)
    m = _reopen(c, m)
    d = rqf.GridConnectionSet(m, uuid = d.uuid)
    d.cache_arrays()
    c.same('stored', _pairs(d, g), pa + pb)
    dn = d.list_of_feature_names()
    c.same('stored features', [dn[int(x)] for x in d.feature_indices], want)
    v = d.extract_property_collection().single_array_ref(citation_title = 'v')
    c.same('merged values', v, np.concatenate((va, vb)))
    for e, (x, y) in enumerate(pa + pb):
        for z in (x, y):
            f = d.feature_index_for_cell_face(z[:3], z[3], z[4])
            c.check(f'feature of {z}', dn[int(f)] == want[e])


@case('C14', bounds = '4 face pairs with 2 own features, 3 pairs with any of 3 named features, any sides; grid of 2 x 2 x 2')
def inherit(c):
    m = _model(c)
    g = _grid(m, 2, 2, 2)
    every = _all_faces(2, 2, 2)
    mine = [every[0], every[5], every[6], every[11]]
    fm = [int(c.fix(c.int(f'm{e}', 0, 1))) for e in range(4)]
    theirs = [every[0], every[6], every[9]]
    ft = [int(c.fix(c.int(f't{e}', 0, 1))) for e in range(3)]
    flip = bool(c.fix(c.bool('flip')))
    shared = bool(c.fix(c.bool('shared')))
    a = _gcs(m, g, mine, fm, ('own0', 'own1'))
    b = _gcs(m, g, [(y, x) if flip else (x, y) for x, y in theirs], ft, ('own1', 'n1') if shared else ('n0', 'n1'))
    a.inherit_features(b)
    nb = b.list_of_feature_names()
    want = []
    for e, p in enumerate(mine):
        if p in theirs:
            want.append(nb[ft[theirs.index(p)]])
        else:
            want.append(('own0', 'own1')[fm[e]])
    na = a.list_of_feature_names()
    c.same('pairs', _pairs(a, g), mine)
    c.check('indices in range', all(0 <= int(x) < len(na) for x in a.feature_indices))
    c.same('features', [na[int(x)] for x in a.feature_indices], want)


@case('C14', bounds = 'up to 6 faces in a curtain of a grid of 3 x 1 x 2 cells; multipliers from 2 values per face, any; either side')
def simulator_file(c, tier = None):
    m = _model(c)
    g = _grid(m, 3, 1, 3)
    pick, mult = [], []
    for x in [(0, 0, 0), (1, 0, 0), (2, 0, 0), (1, 0, 1), (2, 0, 1)]:
        r = int(c.fix(c.int(f'state{x}', 0, 2)))
        if r:
            pick.append(_joined(x, 2))
            mult.append((None, 0.5, 0.25)[r])
    c.assume(len(pick) > 0)
    s = _gcs(m, g, pick, store = True, names = ('F0',))
    p = rqp.Property.from_array(m, np.array(mult), source_info = 'check', keyword = 'v', support_uuid = s.uuid,
                                property_kind = 'transmissibility multiplier', indexable_element = 'faces', uom = 'Euc')
    m = _reopen(c, m)
    s = rqf.GridConnectionSet(m, uuid = s.uuid)
    f = os.path.join(c.tmpdir, 'faults.dat')
    minus = bool(c.fix(c.bool('minus')))
    s.write_simulator(f, include_both_sides = False, use_minus = minus, trans_mult_uuid = p.uuid)
    df = rnf.load_nexus_fault_mult_table(f)
    got = {}
    for e in range(len(df)):
        r = df.iloc[e]
        c.check(f'face {e}', r['face'] == ('I-' if minus else 'I') or r['face'] == 'I+' and not minus)
        for k in range(int(r['k1']), int(r['k2']) + 1):
            for i in range(int(r['i1']), int(r['i2']) + 1):
                key = (k - 1, int(r['j1']) - 1, i - 1)
                c.check(f'once {key}', key not in got)
                got[key] = float(r['mult'])
    c.same('faces and multipliers', got, {x[1 if minus else 0][:3]: y for x, y in zip(pick, mult)})
    # and back into a connection set
    t = rqf.GridConnectionSet(m, grid = s.grid_list[0], ascii_load_format = 'nexus', ascii_file = f,
                              create_organizing_objects_where_needed = True)
    back = dict(zip(_pairs(t, g), [None] * t.count))
    c.same('loaded', sorted(back), sorted((y, x) if minus else (x, y) for x, y in pick))
    t.write_hdf5()
    t.create_xml()
    pc = rqp.PropertyCollection(support = rqf.GridConnectionSet(m, uuid = t.uuid))
    v = pc.single_array_ref(property_kind = 'transmissibility multiplier')
    c.same('loaded multipliers', {x: float(v[e]) for e, x in enumerate(_pairs(t, g))},
           {((y, x) if minus else (x, y)): z for (x, y), z in zip(pick, mult)})


@case('C14', bounds = 'dataframes with any one range of cells and any face in a grid of 3 x 3 x 3 cells', params = [
    dict(base = b, face = f) for b in (True, False) for f in ('I', 'J-', 'K+')])
def faces_table(c, base, face):
    m = _model(c)
    g = _grid(m, 3, 3, 3)
    axis = 'KJI'.index(face[0])
    pol = 0 if face.endswith('-') else 1
    lo, hi = [], []
    for a, x in enumerate('kji'):
        p = int(c.fix(c.int(f'{x}1', 0, 2)))
        q = p if a == axis else int(c.fix(c.int(f'{x}2', p, 2)))
        lo.append(p)
        hi.append(q)
    o = 1 if base else 0
    mult = c.real('mult', 0.0, 1.0)
    d = c.real('d', 0.0, 1.0)
    rows = [dict(name = 'A', i1 = lo[2] + o, i2 = hi[2] + o, j1 = lo[1] + o, j2 = hi[1] + o, k1 = lo[0] + o, k2 = hi[0] + o,
                 mult = mult, face = face),
            dict(name = 'B', i1 = o, i2 = o, j1 = o, j2 = o, k1 = o, k2 = o, mult = 0.5, face = 'J+')]
    df = pd.DataFrame(rows)
    if face == 'J-':
        rqf.GridConnectionSet(m, grid = g)._sort_out_organizing_objects('fault', 'A', True)
    s = rqf.GridConnectionSet(m, grid = g)
    s.set_pairs_from_faces_df(df, create_organizing_objects_where_needed = True, one_based_indexing = base,
                              fault_tmult_dict = {'a': d})
    outside = lo[axis] + (1 if pol else -1)
    expect = []
    if 0 <= outside <= 2:
        for k in range(lo[0], hi[0] + 1):
            for j in range(lo[1], hi[1] + 1):
                for i in range(lo[2], hi[2] + 1):
                    n = [k, j, i]
                    n[axis] = outside
                    expect.append(((k, j, i, axis, pol), tuple(n) + (axis, 1 - pol)))
    na = len(expect)
    got = _pairs(s, g)
    c.same('pairs', got, expect + [_joined((0, 0, 0), 1)])
    names = s.list_of_feature_names()
    c.same('features', [names[int(x)] for x in s.feature_indices], ['A'] * na + ['B'])
    s.write_hdf5()
    s.create_xml()
    pc = rqp.PropertyCollection(support = rqf.GridConnectionSet(m, uuid = s.uuid))
    v = pc.single_array_ref(property_kind = 'transmissibility multiplier')
    for e in range(na):
        c.close(f'multiplier {e}', v[e], mult * d, 1e-6)
    c.close('multiplier B', v[na], 0.5, 1e-6)


# ---- connections derived from geometry


def _flat_points(G, z):
    """points on vertical pillars 10 apart, z a function of (raw k, pillar)"""
    nj, ni = G.nj, G.ni
    n = (nj + 1) * (ni + 1)
    prim = {}
    for x, q in G.map.items():
        prim[q] = x
    tot = max(G.map.values()) + 1
    tot = max(tot, n)
    p = G.c.zeros((G.nkp, tot, 3))
    for q in range(tot):
        if q < n:
            j, i = divmod(q, ni + 1)
        else:
            j, i = prim[q][0] + prim[q][2], prim[q][1] + prim[q][3]
        for k in range(G.nkp):
            p[k, q, 0] = 10.0 * i
            p[k, q, 1] = 10.0 * j
            p[k, q, 2] = z(k, q)
    return p if tot > n else p.reshape((G.nkp, nj + 1, ni + 1, 3))


@case('C14', bounds = '5 layers of one column, any of them of zero thickness; any gaps; any inactive cells (fewer together)',
      params = [dict(what = x) for x in ('plain', 'inactive', 'gap', 'two')])
def pinchouts(c, what):
    nk = 5 if what == 'plain' else 4
    ni = 2 if what == 'two' else 1
    nk = 3 if what == 'two' else nk
    thick = {(k, i): c.real(f't{k}_{i}', 0.0, 50.0) for k in range(nk) for i in range(ni)}
    for t in thick.values():
        c.assume(c.Or(t == 0.0, t >= 1.0))

    def points(G):
        def z(k, q):
            x = [x for x, r in G.map.items() if r == q]
            i = x[0][1]
            out = 100.0
            for r in range(k):
                if r in G.raw:
                    out = out + thick[G.raw.index(r), i]
                else:
                    out = out + 7.0
            return out
        return _flat_points(G, z)

    split = [(0, 1, 0, 0), (0, 1, 1, 0)] if ni == 2 else None
    G = Geom(c, nk, 1, ni, gap = what == 'gap', fixed_split = split, points = points)
    g = G.g
    dead = np.zeros((nk, 1, ni), dtype = bool)
    if what == 'inactive':
        for k in range(nk):
            dead[k, 0, 0] = bool(c.fix(c.bool(f'dead{k}')))
    g.inactive = dead
    g.all_inactive = False
    skip = bool(c.fix(c.bool('skip'))) if what == 'inactive' else True
    s = rqf.pinchout_connection_set(g, skip_inactive = skip)
    want = []
    for i in range(ni):
        out = [bool(c.fix(thick[k, i] < 0.5)) for k in range(nk)]
        for a in range(nk):
            for b in range(a + 2, nk):
                if out[a] or out[b] or not all(out[a + 1:b]):
                    continue
                if skip and (dead[a, 0, i] or dead[b, 0, i]):
                    continue
                if any(G.raw[k + 1] != G.raw[k] + 1 for k in range(a, b)):
                    continue
                want.append(((a, 0, i, 0, 1), (b, 0, i, 0, 0)))
    if not want:
        c.check('none', s is None)
        return
    c.check('some', s is not None)
    c.same('connections', sorted(_pairs(s, g)), sorted(want))
    c.same('count', s.count, len(want))


@case('C14', bounds = '3 layers of 2 columns, with or without a split pillar, any gaps, gap heights and inactive cells; z up or down',
      params = [dict(split = s, down = d) for s in (False, True) for d in (True, False)])
def k_gaps(c, split, down):
    G = Geom(c, 3, 1, 2, gap = True, fixed_split = [(0, 1, 0, 0)] if split else None, crs = dict(z_inc_down = down),
             points = lambda G: _flat_points(G, lambda k, q: (1.0 if down else -1.0) * (100.0 + 10.0 * k)))
    g = G.g
    base = 1.0 if down else -1.0
    flat = g.points_cached.reshape((G.nkp, -1, 3))
    h = {}
    for k in range(2):
        if G.raw[k + 1] == G.raw[k] + 1:
            continue
        for q in range(flat.shape[1]):
            h[k, q] = c.real(f'h{k}_{q}', 0.0, 1.0)
            flat[G.raw[k] + 1, q, 2] = flat[G.raw[k + 1], q, 2] - base * h[k, q]
    g.points_cached = flat.reshape(g.points_cached.shape)
    dead = np.zeros((3, 1, 2), dtype = bool)
    for i in range(2):
        dead[1, 0, i] = bool(c.fix(c.bool(f'dead{i}')))
    g.inactive = dead
    skip = bool(c.fix(c.bool('skip')))
    want = []
    for k in range(2):
        if G.raw[k + 1] == G.raw[k] + 1:
            continue
        for i in range(2):
            m = sum(h[k, G.map[0, i, jp, ip]] for jp in range(2) for ip in range(2)) / 4
            c.assume(c.Or(m < 0.0009, m > 0.0011))
            if bool(c.fix(m < 0.001)) and not (skip and (dead[k, 0, i] or dead[k + 1, 0, i])):
                want.append(((k, 0, i, 0, 1), (k + 1, 0, i, 0, 0)))
    s = rqf.k_gap_connection_set(g, skip_inactive = skip)
    if not want:
        c.check('none', s is None)
        return
    c.check('some', s is not None)
    c.same('connections', sorted(_pairs(s, g)), sorted(want))


@case('C14', bounds = 'any set of cells of a grid of 2 x 2 x 2 (1 x 1 x 4)', params = [dict(ext = (2, 2, 2)), dict(ext = (1, 1, 4))])
def skin(c, ext):
    m = _model(c)
    g = _grid(m, *ext)
    a = np.zeros(ext, dtype = bool)
    for x in np.ndindex(*ext):
        a[x] = bool(c.fix(c.bool(f'in{x}')))
    s = rqf.cell_set_skin_connection_set(g, a, 'skin')
    want = [p for p in _all_faces(*ext) if a[p[0][:3]] != a[p[1][:3]]]
    c.same('count', s.count, len(want))
    c.same('faces', sorted(_pairs(s, g)), sorted(want))


@case('C14', bounds = '2 x 2 x 2 (1 x 2 x 3) cells, any extra pillars up to 2 (fixed set), any z', params = [
    dict(nk = 2, nj = 1, ni = 2, fixed = [(0, 1, 0, 0)], mode = m, pol = p, simple = s)
    for m in ('maximum', 'mean', 'minimum') for p in (True, False) for s in (True, False)] + [
    dict(nk = 1, nj = 2, ni = 2, fixed = [(1, 0, 0, 0), (1, 0, 0, 1), (1, 1, 0, 1)], mode = m, pol = True, simple = True)
    for m in ('maximum', 'mean', 'minimum')])
def throws(c, nk, nj, ni, fixed, mode, pol, simple):
    G = Geom(c, nk, nj, ni, fixed_split = fixed, points = lambda G: _flat_points(G, lambda k, q: 100.0 + 10.0 * k))
    g = G.g
    n = (nj + 1) * (ni + 1)
    dz = {}
    sign = 1.0 if c.fix(c.bool('positive')) else -1.0
    for q in range(n, n + len(fixed)):
        for k in range(G.nkp):
            d = c.real(f'd{k}_{q}', 0.0, 50.0)
            dz[k, q] = sign * d
            g.points_cached[k, q, 2] = g.points_cached[k, q, 2] + sign * d
    G.flat = g.points_cached.reshape((G.nkp, -1, 3))
    t = g.fault_throws_per_edge_per_column(mode = mode, simple_z = simple, axis_polarity_mode = pol)
    c.same('shape', t.shape, (nj, ni, 2, 2) if pol else (nj, ni, 4))
    order = {(1, 0): 0, (0, 1): 1, (1, 1): 2, (0, 0): 3}
    for j, i in np.ndindex(nj, ni):
        for axis in range(2):
            for p in range(2):
                o = [j, i]
                o[axis] += 1 if p else -1
                v = t[j, i, axis, p] if pol else t[j, i, order[axis, p]]
                if not (0 <= o[0] < nj and 0 <= o[1] < ni):
                    c.same(f'outer {j} {i} {axis} {p}', v, 0.0)
                    continue
                per = []
                for e in range(2):
                    mine = (j, i) + ((p, e) if axis == 0 else (e, p))
                    other = tuple(o) + ((1 - p, e) if axis == 0 else (e, 1 - p))
                    per.append([G.flat[k, G.map[mine], 2] - G.flat[k, G.map[other], 2] for k in range(G.nkp)])
                if mode == 'mean':
                    c.close(f'mean {j} {i} {axis} {p}', v, sum(sum(x) for x in per) / (2 * G.nkp))
                    continue
                # one sign throughout: the extreme over layers at each pillar, averaged
                tot = 0.0
                for x in per:
                    b = abs(x[0])
                    for y in x[1:]:
                        b = np.maximum(b, abs(y)) if mode == 'maximum' else np.minimum(b, abs(y))
                    tot = tot + b
                s = 0.0
                for x in per:
                    s = s + sum(x)
                c.check(f'size {j} {i} {axis} {p}', abs(abs(v) - tot / 2) <= 1.0e-6)
                c.check(f'sign {j} {i} {axis} {p}', v * s >= 0.0)


@case('C14', bounds = 'grid of 1 x 2 x 2 cells (2 x 2 x 1) with extra pillars at any two column corners')
def faulted_faces(c):
    G = Geom(c, 1, 2, 2, split = 2, points = lambda G: _flat_points(G, lambda k, q: 100.0 + 10.0 * k + q))
    g = G.g
    wj, wi = np.zeros((1, 2), dtype = bool), np.zeros((2, 1), dtype = bool)
    for j, i in np.ndindex(2, 2):
        if j == 0:
            wj[0, i] = any(G.map[0, i, 1, e] != G.map[1, i, 0, e] for e in range(2))
        if i == 0:
            wi[j, 0] = any(G.map[j, 0, e, 1] != G.map[j, 1, e, 0] for e in range(2))
    sj, si = g.split_column_faces()
    c.same('split J faces', sj, wj)
    c.same('split I faces', si, wi)
    fj, fi = g.find_faults()
    c.same('fault J faces', fj > 0, wj)
    c.same('fault I faces', fi > 0, wi)
    for f, (jl, il) in g.fault_dict.items():
        c.check(f'listed {f}', all(fj[tuple(x)] == f for x in jl) and all(fi[tuple(x)] == f for x in il))
    c.same('all listed', sum(len(x) + len(y) for x, y in g.fault_dict.values()), int(wj.sum() + wi.sum()))


@case('C14', bounds = 'grid of 1 x 2 x 2 cells with extra pillars at any two column corners')
def old_throws(c):
    G = Geom(c, 1, 2, 2, split = 2, points = lambda G: _flat_points(G, lambda k, q: 100.0 + 10.0 * k + q))
    g = G.g
    tj, ti = g.fault_throws()
    for j, i in np.ndindex(2, 2):
        if j == 0:
            d = sum(G.at(0, 1, i, kp, 0, e)[2] - G.at(0, 0, i, kp, 1, e)[2] for kp in range(2) for e in range(2)) / 4
            c.close(f'J throw {i}', tj[0, 0, i], d)
        if i == 0:
            d = sum(G.at(0, j, 1, kp, e, 0)[2] - G.at(0, j, 0, kp, e, 1)[2] for kp in range(2) for e in range(2)) / 4
            c.close(f'I throw {j}', ti[0, j, 0], d)


@case('C14', bounds = 'one layer of two columns with a fault, any one of the pillars not defined')
def undefined_fault_pillar(c):
    G = Geom(c, 1, 1, 2, fixed_split = _FIXED['I'], points = lambda G: _flat_points(G, lambda k, q: 100.0 + 10.0 * k + q))
    q = int(c.fix(c.int('pillar', 0, 7)))
    G.g.points_cached[:, q, :] = np.nan
    s, fa = rqtr.fault_connection_set(G.g)
    at_fault = any(G.map[0, i, jp, 1 - i] == q for i in range(2) for jp in range(2))
    if at_fault:
        c.check('none', s is None and fa is None)
    else:
        c.check('found', s is not None)
        c.same('pairs', _pairs(s, G.g), [((0, 0, 0, 2, 1), (0, 0, 1, 2, 0))])


def _area_above(c, u0, u1):
    """integral over 0 to 1 of the positive part of the linear function from u0 to u1"""
    if c.fix(u0 >= 0.0):
        if c.fix(u1 >= 0.0):
            return (u0 + u1) / 2
        return u0 * u0 / (2 * (u0 - u1))
    if c.fix(u1 <= 0.0):
        return 0.0
    return u1 * u1 / (2 * (u1 - u0))


@case('C14', bounds = 'one or two layers on each side of a fault of vertical pillars, of set thicknesses; shift of the plus side '
      'at each of the two pillars any in two intervals', params = [
    dict(axis = a, m = x, p = y, a0 = da, b0 = db, **k) for a, x, y, k in (
        ('I', (10.0,), (10.0,), {}), ('J', (10.0,), (4.0,), {}), ('I', (4.0,), (10.0,), dict(_tier = 'thorough')),
        ('J', (6.0, 5.0), (8.0, 3.0), dict(_tier = 'thorough')))
    for da in (-16.0, -8.0, 0.0, 8.0) for db in (-16.0, -8.0, 0.0, 8.0)], max_paths = 600, cost = 3)
def juxtaposed(c, axis, m, p, a0, b0):
    nj, ni = (1, 2) if axis == 'I' else (2, 1)
    shift = [c.real('a', a0, a0 + 8.0), c.real('b', b0, b0 + 8.0)]
    nl = len(m)
    # the code has a tolerance of 0.001 at which it takes another branch
    for km in range(nl + 1):
        for kp in range(nl + 1):
            d = sum(m[:km]) - sum(p[:kp])
            for x, lo in zip(shift, (a0, b0)):
                if lo - 0.02 <= d <= lo + 8.02:
                    c.assume(c.Or(x <= d - 0.02, x >= d + 0.02))
    # layers above and below are not defined, while the end points fix the direction of the pillars
    G = Geom(c, nl + 4, nj, ni, fixed_split = _FIXED[axis], points = lambda G: _flat_points(G, lambda k, q: 100.0 * k))
    pts = G.g.points_cached
    other = (0, 1) if axis == 'I' else (1, 0)
    plus = [G.map[other + ((e, 0) if axis == 'I' else (0, e))] for e in range(2)]
    for q in range(pts.shape[1]):
        pts[1, q, :] = np.nan
        pts[nl + 3, q, :] = np.nan
        pts[nl + 4, q, 2] = 1000.0
        z, t = 400.0, m
        if q in plus:
            z, t = 400.0 + shift[plus.index(q)], p
        for k in range(nl + 1):
            pts[2 + k, q, 2] = z + sum(t[:k])
    s, fa = rqtr.fault_connection_set(G.g)
    got = {} if s is None else {x: e for e, x in enumerate(_pairs(s, G.g))}
    ax = 2 if axis == 'I' else 1
    seen = 0
    for km in range(nl):
        for kp in range(nl):
            mt, pt = sum(m[:km]), sum(p[:kp])
            mb, pb = mt + m[km], pt + p[kp]
            u = lambda dz: _area_above(c, dz + shift[0], dz + shift[1])
            # area of the minus face above a line, for the bottom less that for the top of the plus face
            area = (u(pb - mt) - u(pb - mb)) - (u(pt - mt) - u(pt - mb))
            key = ((2 + km, 0, 0, ax, 1), (2 + kp,) + other + (ax, 0))
            if key in got:
                seen += 1
                e = got[key]
                c.close(f'fraction of minus face {km} {kp}', fa[e, 0], area / m[km], 2.0e-3)
                c.close(f'fraction of plus face {km} {kp}', fa[e, 1], area / p[kp], 2.0e-3)
            else:
                c.check(f'no overlap {km} {kp}', area <= 0.01)
    c.same('no more', len(got), seen)


# ---- transmissibilities


def _tr(a, b, mult = 1.0, extra = 0.0):
    return mult / (1.0 / a + extra + 1.0 / b)


@case('C14', bounds = '3 face pairs in any sides, any half cell values and fractions, any multipliers; grid of 2 x 2 x 2 cells', params = [
    dict(what = x) for x in ('plain', 'fraction', 'multiplier', 'feature')])
def connection_transmissibility(c, what):
    m = _model(c)
    g = _grid(m, 2, 2, 2)
    every = _all_faces(2, 2, 2)
    pick = [every[0], every[6], every[11]]
    pick = [(b, a) if c.fix(c.bool(f'flip{e}')) else (a, b) for e, (a, b) in enumerate(pick)]
    # a connection across a fault, with different layers
    pick.append(((0, 0, 0, 2, 1), (1, 0, 1, 2, 0)))
    feat = [0, 1, 0, 1]
    s = _gcs(m, g, pick, feat, ('a', 'b'), store = what == 'multiplier')
    half = np.ones((2, 2, 2, 3, 2))
    h = {}
    for e, p in enumerate(pick):
        for z in p:
            if z not in h:
                h[z] = c.real(f'h{z}', 0.01, 100.0)
                half[z] = h[z]
    half[0, 0, 0, 2, 0] = 0.777
    half[1, 0, 1, 2, 1] = 0.333
    g.array_half_cell_t = half
    s.grid_list[0].array_half_cell_t = half
    fa = None
    if what == 'fraction':
        fa = c.reals('fa', (4, 2), 0.001, 1.0)
    mult = [1.0] * 4
    if what == 'multiplier':
        v = c.reals('v', (4,), 0.0, 10.0)
        p = rqp.Property.from_array(m, v, source_info = 'check', keyword = 'tmult', support_uuid = s.uuid, uom = 'Euc',
                                    property_kind = 'transmissibility multiplier', indexable_element = 'faces')
        mult = list(v)
    elif what == 'feature':
        from resqpy.olio.xml_et import create_metadata_xml
        for e, x in enumerate((0.5, 0.25)):
            create_metadata_xml(m.root_for_uuid(s.feature_list[e][1]), {'Transmissibility multiplier': str(x)})
        mult = [0.5, 0.25, 0.5, 0.25]
    t = s.tr_property_array(fa = fa, apply_multipliers = what in ('multiplier', 'feature'))
    for e, (a, b) in enumerate(pick):
        fm, fp = (1.0, 1.0) if fa is None else (fa[e, 0], fa[e, 1])
        c.close(f'connection {e}', t[e], _tr(h[a] * fm, h[b] * fp, mult[e]))


@case('C14', bounds = 'any half cell values of 2 x 2 x 2 cells (2 x 2 x 2 of zero allowed), any face multipliers or absolute values', params = [
    dict(mode = x, split = s) for x in (None, 'faces multiplier', 'faces per cell multiplier', 'absolute', 'composite multiplier')
    for s in (False, True)] + [dict(mode = None, split = 'gap')])
def neighbour_transmissibility(c, mode, split):
    G = Geom(c, 2, 2, 2, gap = split == 'gap', fixed_split = [(0, 1, 0, 0), (0, 1, 1, 0)] if split is True else None,
             points = lambda G: _flat_points(G, lambda k, q: 100.0 + 10.0 * k))
    g = G.g
    m = G.m
    g.write_hdf5()
    g.create_xml(write_active = False, write_geometry = True)
    half = c.reals('half', (2, 2, 2, 3, 2), 0.001, 100.0)
    zero = bool(c.fix(c.bool('zero')))
    if zero:
        half[0, 0, 0, 0, 1] = 0.0
        half[0, 0, 1, 1, 0] = np.nan
        half[1, 1, 1, 2, 0] = 0.0
    mult = [np.ones((3, 2, 2)), np.ones((2, 3, 2)), np.ones((2, 2, 3))]
    extra = [np.zeros(x.shape) for x in mult]
    per = np.ones((2, 2, 2, 3, 2))
    if mode in ('faces multiplier', 'absolute'):
        for a in range(3):
            v = c.reals(f'v{a}', mult[a].shape, 0.1, 10.0)
            if mode == 'absolute':
                extra[a] = v
            else:
                mult[a] = v
            rqp.Property.from_array(m, v, source_info = 'check', keyword = f'v{a}', support_uuid = g.uuid, uom = 'Euc',
                                    property_kind = 'fault transmissibility' if mode == 'absolute' else 'transmissibility multiplier',
                                    indexable_element = 'faces', facet_type = 'direction', facet = 'KJI'[a])
    elif mode == 'composite multiplier':
        v = c.reals('v', (36,), 0.1, 10.0)
        mult = [v[:12].reshape((3, 2, 2)), v[12:24].reshape((2, 3, 2)), v[24:].reshape((2, 2, 3))]
        rqp.Property.from_array(m, v, source_info = 'check', keyword = 'v', support_uuid = g.uuid, uom = 'Euc',
                                property_kind = 'transmissibility multiplier', indexable_element = 'faces')
        mode = 'faces multiplier'
    elif mode == 'faces per cell multiplier':
        per = c.reals('per', (2, 2, 2, 3, 2), 0.1, 10.0)
        col = g.extract_property_collection()
        rqp.Property.from_array(m, col.discombobulated_face_array(per),
                                source_info = 'check', keyword = 'v', support_uuid = g.uuid, uom = 'Euc',
                                property_kind = 'transmissibility multiplier', indexable_element = 'faces per cell')
    g.property_collection = None
    g.extract_property_collection()
    g.array_half_cell_t = half
    if mode is not None:
        g.transmissibility(use_tr_properties = False)  # values cached without modification must not be used with it
    tr = g.transmissibility(use_tr_properties = False, modifier_mode = mode)
    again = g.transmissibility(use_tr_properties = False, modifier_mode = mode)
    for axis in range(3):
        n = [2, 2, 2]
        n[axis] += 1
        c.same(f'shape {axis}', tr[axis].shape, tuple(n))
        for x in np.ndindex(*n):
            got = tr[axis][x]
            c.same(f'repeated {axis} {x}', again[axis][x], got)
            if x[axis] in (0, n[axis] - 1):
                c.same(f'outer {axis} {x}', got, 0.0)
                continue
            a = list(x)
            a[axis] -= 1
            a = tuple(a)
            b = x
            closed = zero and ((a, axis) == ((0, 0, 0), 0) or (b, axis) == ((0, 0, 1), 1) or (b, axis) == ((1, 1, 1), 2))
            if axis == 0:
                closed = closed or G.raw[b[0]] != G.raw[a[0]] + 1
            elif axis == 1:
                closed = closed or any(G.map[a[1:] + (1, e)] != G.map[b[1:] + (0, e)] for e in range(2))
            else:
                closed = closed or any(G.map[a[1:] + (e, 1)] != G.map[b[1:] + (e, 0)] for e in range(2))
            if closed:
                c.same(f'closed {axis} {x}', got, 0.0)
                continue
            ha = half[a + (axis, 1)] * per[a + (axis, 1)]
            hb = half[b + (axis, 0)] * per[b + (axis, 0)]
            ex = 1.0 / extra[axis][x] if mode == 'absolute' else 0.0
            c.close(f'value {axis} {x}', got, _tr(ha, hb, mult[axis][x], ex))


def _half_oracle(c, cp, perm, ntg, darcy):
    """half cell values of one cell from its 8 corners (kp, jp, ip, xyz), by areas projected along the axes"""
    out = {}
    for axis in range(3):
        f = [np.array([cp[x] for x in np.ndindex(2, 2, 2) if x[axis] == p]) for p in range(2)]
        v = (np.sum(f[1], axis = 0) - np.sum(f[0], axis = 0)) / 4
        v = np.abs(v) / 2
        for p in range(2):
            a, b, d, e = f[p]                       # in order 00, 01, 10, 11
            area = 0.5 * np.abs(np.cross(b - a, e - a)) + 0.5 * np.abs(np.cross(e - a, d - a))
            r = perm[axis] * float(np.sum(v * area)) / float(np.sum(v * v)) * darcy
            out[axis, p] = r if axis == 0 or ntg is None else r * ntg
    return out


@case('C14', bounds = 'any permeabilities and net to gross of 2 x 1 x 2 cells of set shape, with any gaps and any one extra pillar', params = [
    dict(gap = g, split = s, ntg = n) for g in (False, True) for s in (0, 1) for n in (True, False)] + [
    dict(gap = g, split = s, ntg = True, wide = True) for g in (False, True) for s in (0, 1)])
def half_cell(c, gap, split, ntg, wide = False):
    def points(G):
        p = _flat_points(G, lambda k, q: 100.0 + 10.0 * k)
        f = p.reshape((G.nkp, -1, 3))
        for k in range(G.nkp):
            for q in range(f.shape[1]):
                f[k, q, 0] = f[k, q, 0] + ((3 * q + k) % 4) * 0.25
                f[k, q, 1] = f[k, q, 1] + ((5 * q + 2 * k) % 3) * 0.5
                f[k, q, 2] = f[k, q, 2] + ((7 * q + 3 * k) % 5) * 0.75
        return f.reshape(p.shape)
    nk, nj, ni = (2, 2, 1) if wide else (2, 1, 2)
    G = Geom(c, nk, nj, ni, gap, split, points = points)
    g = G.g
    pm = [c.reals(f'perm{x}', (nk, nj, ni), 0.0, 1000.0) for x in 'kji']
    nt = c.reals('ntg', (nk, nj, ni), 0.0, 1.0) if ntg else None
    darcy = 0.5
    # the symmetrical halves of each face are those which share the corners 00 and 11
    half = rqtr.half_cell_t(g, perm_k = pm[0], perm_j = pm[1], perm_i = pm[2], ntg = nt, darcy_constant = darcy) if ntg else         rqtr.half_cell_t_irregular(g, perm_k = pm[0], perm_j = pm[1], perm_i = pm[2], ntg = None, darcy_constant = darcy)
    for x in G.cells():
        cp = {y: np.array([float(z) for z in G.at(*x, *y)]) for y in np.ndindex(2, 2, 2)}
        o = _half_oracle(c, cp, [p[x] for p in pm], nt[x] if ntg else None, darcy)
        for (axis, p), v in o.items():
            c.close(f'half cell {x} {axis} {p}', half[x + (axis, p)], v)


@case('C14', bounds = 'any permeabilities and net to gross of 2 x 1 x 2 cells, any cell length along one axis', params = [
    dict(axis = a, how = h) for a in range(3) for h in ('array', 'none')])
def half_cell_regular(c, axis, how):
    m = _model(c)
    d = [20.0, 10.0, 4.0]
    d[axis] = c.real('d', 1.0, 100.0)
    g = grr.RegularGrid(m, extent_kji = (2, 1, 2), dxyz = tuple(d), crs_uuid = m.crs_uuid)
    pm = [c.reals(f'perm{x}', (2, 1, 2), 0.0, 1000.0) for x in 'kji']
    nt = c.reals('ntg', (2, 1, 2), 0.0, 1.0) if how == 'array' else None
    half = rqtr.half_cell_t_regular(g, perm_k = pm[0], perm_j = pm[1], perm_i = pm[2], ntg = nt, darcy_constant = 0.5)
    l = [d[2], d[1], d[0]]
    for x in np.ndindex(2, 1, 2):
        for a in range(3):
            v = 0.5 * pm[a][x] * l[(a + 1) % 3] * l[(a + 2) % 3] * 2 / l[a]
            if a and nt is not None:
                v = v * nt[x]
            c.close(f'half cell {x} {a}', half[x][a], v)


@case('C14', bounds = 'two connection sets of 3 faces with one in common (or flipped), any multipliers, any inactive or baffle faces', params = [
    dict(mode = x, extra = y) for x in ('minimum', 'maximum', 'multiply') for y in ('plain', 'active', 'baffle')])
def combined_multipliers(c, mode, extra):
    m = _model(c)
    g = _grid(m, 2, 2, 2)
    every = _all_faces(2, 2, 2)
    one = [every[0], every[6], every[11]]
    two = [every[6], every[7], every[1]]
    if c.fix(c.bool('flip')):
        two = [(b, a) for a, b in two]
    vals, uu = [], []
    off = [[False] * 3, [False] * 3]
    for n, pick in enumerate((one, two)):
        s = _gcs(m, g, pick, store = True, title = f'g{n}')
        v = c.reals(f'v{n}', (3,), 0.0, 10.0)
        p = rqp.Property.from_array(m, v, source_info = 'check', keyword = 'tmult', support_uuid = s.uuid, uom = 'Euc',
                                    property_kind = 'transmissibility multiplier', indexable_element = 'faces')
        uu.append(p.uuid)
        v = list(v)
        if extra != 'plain' and n == 0:
            off[n] = [bool(c.fix(c.bool(f'flag{e}'))) for e in range(3)]
            rqp.Property.from_array(m, np.array([(not x) if extra == 'active' else x for x in off[n]], dtype = np.int8),
                                    source_info = 'check', keyword = extra, support_uuid = s.uuid,
                                    property_kind = extra, discrete = True, indexable_element = 'faces', dtype = np.int8)
            if extra == 'baffle':
                v = [0.0 if o else x for x, o in zip(v, off[n])]
        vals.append(v)
    m = _reopen(c, m)
    t = rqf.combined_tr_mult_from_gcs_mults(m, uu, merge_mode = mode, apply_baffles = extra == 'baffle')
    want = {}
    for n, pick in enumerate((one, two)):
        for e, p in enumerate(pick):
            if extra == 'active' and off[n][e]:
                continue
            f = p[0] if p[0][4] else p[1]
            k = list(f[:3])
            k[f[3]] += 1
            key = (f[3],) + tuple(k)
            v = vals[n][e]
            if key in want:
                w = want[key]
                v = {'minimum': np.minimum, 'maximum': np.maximum, 'multiply': lambda a, b: a * b}[mode](w, v)
            want[key] = v
    for axis in range(3):
        n = [2, 2, 2]
        n[axis] += 1
        c.same(f'shape {axis}', t[axis].shape, tuple(n))
        for x in np.ndindex(*n):
            c.close(f'multiplier {axis} {x}', t[axis][x], want.get((axis,) + x, 1.0))


@case('C14', bounds = 'any K faces of 3 layers of 2 columns and one other face; any values', params = [
    dict(kind = 'continuous', how = h) for h in ('default', 'mean', 'min', 'max', 'any')] + [
    dict(kind = 'discrete', how = h) for h in ('default', 'min', 'max')])
def column_map(c, kind, how):
    m = _model(c)
    g = _grid(m, 3, 1, 2)
    pick = [_joined((0, 0, 0), 2)]
    pick += [p for p in _all_faces(3, 1, 2) if p[0][3] == 0 and c.fix(c.bool(f'in{p[0][:3]}'))]
    s = _gcs(m, g, pick, store = True)
    v = c.reals('v', (len(pick),), -50.0, 50.0) if kind == 'continuous' else c.ints('v', (len(pick),), 0, 50)
    p = rqp.Property.from_array(m, v, source_info = 'check', keyword = 'v', support_uuid = s.uuid, property_kind = 'length'
                                if kind == 'continuous' else 'index', uom = 'm' if kind == 'continuous' else None,
                                discrete = kind == 'discrete', indexable_element = 'faces')
    m = _reopen(c, m)
    u = rqf.grid_columns_property_from_gcs_property(m, p.uuid, multiple_handling = how)
    r = rqp.Property(m, uuid = u)
    a = r.array_ref()
    c.check('metadata', r.indexable_element() == 'columns' and r.is_continuous() == (kind == 'continuous'))
    c.same('shape', a.shape, (1, 2))
    h = how if how != 'default' else 'mean' if kind == 'continuous' else 'any'
    for i in range(2):
        vals = [v[e] for e, x in enumerate(pick) if x[0][3] == 0 and x[0][2] == i]
        if not vals:
            c.check(f'empty {i}', bool(np.isnan(a[0, i])) if kind == 'continuous' else a[0, i] == -1)
        elif h == 'any':
            c.check(f'any {i}', c.Or(*[a[0, i] == x for x in vals]))
        elif h == 'mean':
            c.close(f'mean {i}', a[0, i], sum(vals) / len(vals))
        else:
            w = vals[0]
            for x in vals[1:]:
                w = np.minimum(w, x) if h == 'min' else np.maximum(w, x)
            c.close(f'{h} {i}', a[0, i], w)


@case('C14', bounds = '5 face pairs with any of 2 features, any layer range, any values; grid of 2 x 2 x 2 cells')
def column_edges(c):
    m = _model(c)
    g = _grid(m, 2, 2, 2)
    pick = [_joined((0, 0, 0), 1), _joined((1, 0, 0), 1), _joined((0, 1, 0), 2), _joined((1, 0, 0), 2), _joined((0, 0, 0), 0)]
    feat = [int(c.fix(c.int(f'f{e}', 0, 1))) for e in range(4)] + [0]
    s = _gcs(m, g, pick, feat, ('a', 'b'), store = True)
    v = c.reals('v', (5,), 0.0, 50.0)
    rqp.Property.from_array(m, v, source_info = 'check', keyword = 'v', support_uuid = s.uuid, property_kind = 'transmissibility multiplier',
                            uom = 'Euc', indexable_element = 'faces')
    m = _reopen(c, m)
    s = rqf.GridConnectionSet(m, uuid = s.uuid)
    lo = int(c.fix(c.int('lo', 0, 1)))
    hi = int(c.fix(c.int('hi', lo, 1)))
    mask, index, value = s.get_combined_fault_mask_index_value_arrays(min_k = lo, max_k = hi)
    want, val = {}, {}
    for e, p in enumerate(pick):
        for z in p:
            if z[3] == 0 or not (lo <= z[0] <= hi):
                continue
            key = z[1:3] + (z[3] - 1, z[4])
            want.setdefault(key, set()).add(feat[e])
            if z[0] == lo:
                val[key] = v[e]
    c.same('mask shape', mask.shape, (2, 2, 2, 2))
    for x in np.ndindex(2, 2, 2, 2):
        c.check(f'mask {x}', bool(mask[x]) == (x in want))
        c.check(f'index {x}', int(index[x]) in want.get(x, {-1}))
        if x in val and len(want[x]) == 1:
            c.same(f'value {x}', value[x], val[x])


@case('C14', bounds = 'any K, J or I kelp in a grid of 2 x 3 x 3 cells (up to 4 places of it)', params = [dict(axis = x) for x in 'KJI'])
def kelps(c, axis):
    m = _model(c)
    ext = (2, 3, 3)
    g = _grid(m, *ext)
    a = 'KJI'.index(axis)
    others = [x for x in range(3) if x != a]
    lists, want = [], set()
    for n, o in enumerate(others):
        lo = []
        size = [ext[x] - (1 if x == o else 0) for x in others]
        for y in list(np.ndindex(*size))[:3]:
            if c.fix(c.bool(f'k{o}{y}')):
                lo.append(y)
                for r in range(ext[a]):
                    cell = [0, 0, 0]
                    cell[a], cell[others[0]], cell[others[1]] = r, y[0], y[1]
                    want.add(_joined(tuple(cell), o))
        lists.append(lo)
    c.assume(bool(want))
    s = rqf.GridConnectionSet(m, grid = g)
    s.set_pairs_from_kelp(lists[0], lists[1], 'f', True, axis = axis)
    c.same('faces', sorted(_pairs(s, g)), sorted(want))
    if axis == 'K':
        sj, si = s.simplified_sets_of_kelp_for_feature_index(0)
        c.check('back', {tuple(int(z) for z in x) for x in sj} == set(lists[0]) and {tuple(int(z) for z in x) for x in si} == set(lists[1]))
        before = _pairs(s, g)
        s.rework_face_pairs()
        c.same('reworked', _pairs(s, g), before)
