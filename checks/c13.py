"""C13: triangulated surfaces, meshes and triangulation functions."""
from symx.run import case
import os
import math
import numpy as np
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.model as rq
import resqpy.surface as rqs
import resqpy.surface._triangulated_patch as rqstp
import resqpy.olio.triangulation as triangulate

META = dict(
    title = 'Surfaces and meshes hold, sample and cut the geometry they were given',
    statement = 'A surface made from a mesh, torn mesh, sparse mesh, cell, plane, triangles or another surface consists of '
    'triangles that cover exactly the given faces and no others, and maps each triangle back to its column or face. '
    'Sampling, line intersection, edge crossings, trimming, splitting, rescaling, normals, edge and rim lists, tri mesh '
    'location, interpolation and stencils give what the triangles geometrically imply, also after the surface has been '
    'modified or stored and read again.',
    text = 'any coordinates of some of the points, any undefined nodes of a sparse mesh, any sample point or line',
    why = 'index arithmetic for triangles is separate for every way of making a surface, and cached copies of triangles have to '
    'follow each modification',
    files = ['resqpy/surface', 'resqpy/olio/triangulation.py'],
    mechanism = [('surface and patches', 'resqpy/surface/_surface.py'),
                 ('triangles of a patch', 'resqpy/surface/_triangulated_patch.py'),
                 ('tri mesh', 'resqpy/surface/_tri_mesh.py'), ('triangulation', 'resqpy/olio/triangulation.py')],
    observe = ['triangles, points, sampled values and index arrays'],
    note = 'few triangles; one or two points move where products arise; Voronoi diagrams and the external Delaunay and svd '
    'routines are not decided')

LO, HI = -1.0e4, 1.0e4
M = 1.0e-3


def _model(c, **k):
    m = rq.Model(os.path.join(c.tmpdir, 'm.epc'), new_epc = True, quiet = True)
    crs = rqc.Crs(m, **k)
    crs.create_xml()
    m.crs_uuid = crs.uuid
    return m


def _surf(m, **k):
    return rqs.Surface(m, crs_uuid = m.crs_uuid, title = 'surface', **k)


def _reopen(m):
    m.store_epc(quiet = True)
    m.h5_release()
    return rq.Model(m.epc_file, quiet = True)


def _ints(a):
    return [[int(x) for x in row] for row in a]


def _covers(c, nm, tris, corners, points, centre = None):
    """the triangles cover the quadrilateral with the given corner points in cyclic order"""
    if centre is None:
        c.same(f'{nm} count', len(tris), 2)
    else:
        c.same(f'{nm} count', len(tris), 4)
    # each side of the quadrilateral is a side of exactly one triangle, all others are shared by two triangles
    want = list(corners) + ([centre] if centre is not None else [])
    used = sorted(set(i for t in tris for i in t))
    c.same(f'{nm} nodes', len(used), len(want))
    # match nodes to the wanted points: by value
    edges = {}
    for t in tris:
        for a in range(3):
            e = frozenset((t[a], t[(a + 1) % 3]))
            c.check(f'{nm} proper', len(e) == 2)
            edges[e] = edges.get(e, 0) + 1
    rim = [e for e in edges if edges[e] == 1]
    c.same(f'{nm} rim', len(rim), 4)
    c.check(f'{nm} shared', all(v in (1, 2) for v in edges.values()))
    return rim, used


def _quads(c, nm, t, p, which, quad, tags):
    """which: dict of face key -> triangle indices; tags: face key -> 4 corner coordinates (cyclic) as plain values"""
    for key, idx in which.items():
        corners = tags[key]
        tris = [t[i] for i in idx]
        centre = [sum(x[a] for x in corners) / 4.0 for a in range(3)] if quad else None
        rim, used = _covers(c, f'{nm} {key}', tris, corners, p, centre)
        # walk round the rim
        nodes = [min(rim[0]), max(rim[0])]
        left = rim[1:]
        while left:
            e = [x for x in left if nodes[-1] in x]
            c.check(f'{nm} {key} closed', len(e) == 1)
            left.remove(e[0])
            nodes += [n for n in e[0] if n != nodes[-1]]
        c.same(f'{nm} {key} loop', nodes[0], nodes[4])
        nodes = nodes[:4]
        alts = []
        for s in range(4):
            for d in (1, -1):
                alts.append(c.And(*[p[nodes[n], a] == corners[(s + d * n) % 4][a] for n in range(4) for a in range(3)]))
        c.check(f'{nm} {key} corners', c.Or(*alts))
        if quad:
            ce = [n for n in used if n not in nodes]
            c.same(f'{nm} {key} centre node', len(ce), 1)
            for a in range(3):
                c.close(f'{nm} {key} centre', p[ce[0], a], centre[a], 1.0e-6)


def _distinct(c, xyz, nj, ni):
    # nodes are distinct: rows and columns do not fold in x and y
    for j in range(nj):
        for i in range(ni):
            c.assume(c.And(xyz[j, i, 0] >= 10 * i, xyz[j, i, 0] <= 10 * i + 5, xyz[j, i, 1] >= 10 * j,
                           xyz[j, i, 1] <= 10 * j + 5))


@case('C13', bounds = 'any points of a mesh of 3 x 4 nodes', params = [dict(quad = q, src = s) for q in (False, True) for s in ('array', 'mesh')])
def from_mesh(c, quad, src):
    nj, ni = 3, 4
    m = _model(c)
    xyz = c.reals('xyz', (nj, ni, 3), LO, HI)
    _distinct(c, xyz, nj, ni)
    s = _surf(m)
    if src == 'array':
        s.set_from_irregular_mesh(xyz, quad_triangles = quad)
    else:
        mesh = rqs.Mesh(m, xyz_values = xyz, crs_uuid = m.crs_uuid)
        s = mesh.surface(quad_triangles = quad)
    t, p = s.triangles_and_points()
    t = _ints(t)
    per = 4 if quad else 2
    c.same('count', s.triangle_count(), per * (nj - 1) * (ni - 1))
    c.same('len', len(t), per * (nj - 1) * (ni - 1))
    c.same('nodes', s.node_count(), len(p))
    which = {}
    for n in range(len(t)):
        j, i = s.column_from_triangle_index(n)
        which.setdefault((int(j), int(i)), []).append(n)
    c.same('columns', sorted(which), [(j, i) for j in range(nj - 1) for i in range(ni - 1)])
    tags = {(j, i): [[xyz[b, a, x] for x in range(3)] for b, a in ((j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i))]
            for j, i in which}
    _quads(c, 'column', t, p, which, quad, tags)
    c.check('beyond', s.column_from_triangle_index(len(t)) == (None, None))
    js, is_ = s.column_from_triangle_index(np.arange(len(t)))
    for n in range(len(t)):
        c.check('array form', n in which[int(js[n]), int(is_[n])])


@case('C13', bounds = 'any points of a torn mesh of 2 x 3 quadrilaterals', params = [dict(quad = q) for q in (False, True)])
def from_torn_mesh(c, quad):
    nj, ni = 2, 3
    m = _model(c)
    xyz = c.reals('xyz', (nj, ni, 2, 2, 3), LO, HI)
    for j in range(nj):
        for i in range(ni):
            for jp in range(2):
                for ip in range(2):
                    q = xyz[j, i, jp, ip]
                    c.assume(c.And(q[0] >= 10 * i + 6 * ip, q[0] <= 10 * i + 6 * ip + 4, q[1] >= 10 * j + 6 * jp,
                                   q[1] <= 10 * j + 6 * jp + 4))
    s = _surf(m)
    s.set_from_torn_mesh(xyz, quad_triangles = quad)
    t, p = s.triangles_and_points()
    t = _ints(t)
    c.same('count', s.triangle_count(), len(t))
    c.same('nodes', s.node_count(), len(p))
    which = {}
    for n in range(len(t)):
        j, i = s.column_from_triangle_index(n)
        which.setdefault((int(j), int(i)), []).append(n)
    c.same('columns', sorted(which), [(j, i) for j in range(nj) for i in range(ni)])
    tags = {(j, i): [[xyz[j, i, b, a, x] for x in range(3)] for b, a in ((0, 0), (0, 1), (1, 1), (1, 0))]
            for j, i in which}
    _quads(c, 'column', t, p, which, quad, tags)


@case('C13', bounds = 'any nodes of a mesh of 2 x 4 or 3 x 3 undefined', params = [dict(nj = 2, ni = 4), dict(nj = 3, ni = 3, _tier = 'thorough')],
      max_paths = 3000)
def from_sparse_mesh(c, nj, ni):
    m = _model(c)
    xyz = c.reals('xyz', (nj, ni, 3), LO, HI)
    _distinct(c, xyz, nj, ni)
    nan = c.bools('nan', (nj, ni))
    gone = [[bool(nan[j, i]) for i in range(ni)] for j in range(nj)]
    for j in range(nj):
        for i in range(ni):
            if gone[j][i]:
                xyz[j, i, 2] = np.nan
    want, whole = [], []
    for j in range(nj - 1):
        for i in range(ni - 1):
            ring = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
            ok = [x for x in ring if not gone[x[0]][x[1]]]
            if len(ok) == 4:
                whole.append(ring)
            elif len(ok) == 3:
                want.append(frozenset(ok))
    if not want and not whole:
        c.unreachable  # nothing to triangulate: behaviour not specified
        return
    s = _surf(m)
    s.set_from_mesh_object(rqs.Mesh(m, xyz_values = xyz, crs_uuid = m.crs_uuid)) if any(
        any(g) for g in gone) else s.set_from_sparse_mesh(xyz)
    t, p = s.triangles_and_points()
    t = _ints(t)
    c.same('count', s.triangle_count(), len(t))
    c.same('nodes', s.node_count(), len(p))
    live = [(j, i) for j in range(nj) for i in range(ni) if not gone[j][i]]
    c.same('points', len(p), len(live))
    # which node each point is: by value
    node = []
    for n in range(len(p)):
        jj = [j for j in range(nj) if c.fix(c.And(p[n, 1] >= 10 * j, p[n, 1] <= 10 * j + 5))]
        ii = [i for i in range(ni) if c.fix(c.And(p[n, 0] >= 10 * i, p[n, 0] <= 10 * i + 5))]
        c.check('a node', len(jj) == 1 and len(ii) == 1)
        node.append((jj[0], ii[0]))
        c.same('value', p[n], xyz[jj[0], ii[0]])
    c.same('all nodes', sorted(node), live)
    got = [frozenset(node[n] for n in x) for x in t]
    c.same('triangles', len(got), len(want) + 2 * len(whole))
    for w in want:
        c.same('three cornered', got.count(w), 1)
    for ring in whole:
        inside = [g for g in got if g <= set(ring)]
        c.check('diagonal', len(inside) == 2 and len(inside[0] & inside[1]) == 2 and inside[0] | inside[1] == set(ring) and
                set(inside[0] & inside[1]) in ({ring[0], ring[2]}, {ring[1], ring[3]}))


@case('C13', bounds = 'any corner points of 1 or 2 cells', params = [dict(quad = q, n = n) for q in (False, True) for n in (1, 2)])
def cell_faces(c, quad, n):
    m = _model(c)
    cp = c.reals('cp', (n, 2, 2, 2, 3), LO, HI)
    for k in range(2):
        for j in range(2):
            for i in range(2):
                for e in range(n):
                    q = cp[e, k, j, i]
                    for a, b in ((0, i), (1, j), (2, k)):
                        c.assume(c.And(q[a] >= 10 * b, q[a] <= 10 * b + 5))
    s = _surf(m)
    if n == 1:
        s.set_to_single_cell_faces_from_corner_points(cp[0], quad_triangles = quad)
    else:
        s.set_to_multi_cell_faces_from_corner_points(cp, quad_triangles = quad)
    t, p = s.triangles_and_points()
    t = _ints(t)
    per = 4 if quad else 2
    c.same('count', len(t), 6 * per * n)
    c.same('triangle count', s.triangle_count(), len(t))
    c.same('node count', s.node_count(), len(p))
    which, tags = {}, {}
    for x in range(len(t)):
        key = tuple(int(v) for v in s.cell_axis_and_polarity_from_triangle_index(x))
        which.setdefault(key, []).append(x)
    c.same('faces', sorted(which), [(e, a, b) for e in range(n) for a in range(3) for b in range(2)])
    for e, a, b in which:
        f = [cp[e, b], cp[e, :, b], cp[e, :, :, b]][a]
        tags[e, a, b] = [[f[y, x, d] for d in range(3)] for y, x in ((0, 0), (0, 1), (1, 1), (1, 0))]
    _quads(c, 'face', t, p, which, quad, tags)
    for x in range(6 * per):
        c.same('face of triangle', tuple(int(v) for v in s.patch_list[0].face_from_triangle_index(x)),
               tuple(int(v) for v in s.cell_axis_and_polarity_from_triangle_index(x))[1:])


@case('C13', bounds = 'any box, depth and border', params = [dict(quad = q) for q in (False, True)])
def horizontal_plane(c, quad):
    m = _model(c)
    box = c.reals('box', (2, 3), LO, HI)
    c.assume(c.And(box[0, 0] + 1.0 <= box[1, 0], box[0, 1] + 1.0 <= box[1, 1]))
    depth, border = c.real('depth', LO, HI), c.real('border', 0, 100)
    keep = box.copy()
    s = _surf(m)
    s.set_to_horizontal_plane(depth, box, border = border, quad_triangles = quad)
    t, p = s.triangles_and_points()
    c.same('argument kept', box, keep)
    lo = [box[0, a] - border for a in range(2)]
    hi = [box[1, a] + border for a in range(2)]
    corners = [[lo[0], lo[1], depth], [hi[0], lo[1], depth], [hi[0], hi[1], depth], [lo[0], hi[1], depth]]
    t = _ints(t)
    _quads(c, 'plane', t, p, {0: list(range(len(t)))}, quad, {0: corners})
    c.same('count', s.triangle_count(), 4 if quad else 2)
    c.same('nodes', s.node_count(), 5 if quad else 4)


@case('C13', bounds = 'any corners; any centre and radius of a sail of 3 rows')
def simple_shapes(c):
    m = _model(c)
    q = c.reals('q', (4, 3), LO, HI)
    s = _surf(m)
    s.set_to_triangle(q[:3])
    t, p = s.triangles_and_points()
    c.same('triangle', (len(t), len(p)), (1, 3))
    for a in range(3):
        c.same('corner', p[t[0, a]], q[a])
    s = _surf(m)
    s.set_to_triangle_pair(q.reshape((2, 2, 3)))
    t, p = s.triangles_and_points()
    got = sorted(sorted(x) for x in _ints(t))
    c.check('pair', got in ([[0, 1, 2], [1, 2, 3]], [[0, 1, 3], [0, 2, 3]]))
    c.same('points', p, q)
    centre = c.reals('centre', 3, LO, HI)
    radius = c.real('radius', 1, 1000)
    s = _surf(m)
    s.set_to_sail(3, centre, radius, 30.0, 20.0)
    t, p = s.triangles_and_points()
    t = _ints(t)
    c.same('sail', (len(t), len(p)), (9, 10))
    # dip row d lies at depth r sin d below the centre, at horizontal distance r cos d
    row = [0, 1, 1, 2, 2, 2, 3, 3, 3, 3]
    for n in range(10):
        d = math.radians(20.0 * row[n])
        c.close('dip', p[n, 2] - centre[2], radius * math.sin(d), 1.0e-6)
        first = row[n] * (row[n] + 1) // 2
        az = 30.0 - 10.0 * row[n] + 20.0 * (n - first)
        # measured as the code does: anticlockwise from the x axis after a rotation of 90 degrees plus azimuth from y
        a = math.radians(az)
        sx, sy = p[n, 0] - centre[0], p[n, 1] - centre[1]
        c.close('horizontal', c.sqrt(sx * sx + sy * sy), radius * math.cos(d), 1.0e-5)
        c.close('direction', sx * math.sin(_sail(az)) - sy * math.cos(_sail(az)), 0.0, 1.0e-6)
        c.check('sense', sx * math.cos(_sail(az)) + sy * math.sin(_sail(az)) > 0)
    edges = {}
    for x in t:
        c.same('proper', len(set(x)), 3)
        c.check('neighbouring rows', max(row[n] for n in x) - min(row[n] for n in x) == 1)
        for a in range(3):
            e = frozenset((x[a], x[(a + 1) % 3]))
            edges[e] = edges.get(e, 0) + 1
    c.check('edges', len(edges) == 18 and sum(v == 1 for v in edges.values()) == 9)


def _sail(az):
    return math.radians(90.0 + 90.0 + az)


# -- operations on surfaces

P0 = [(0, 0, 1), (10, 1, 2), (1, 9, -1), (11, 11, 5), (20, 4, 3)]
T0 = [[0, 1, 2], [1, 3, 2], [4, 3, 1]]


def _held(c, m, move = (), lo = -30, hi = 30, axes = (0, 1, 2)):
    p = c.zeros((len(P0), 3))
    for n, q in enumerate(P0):
        for a in range(3):
            p[n, a] = c.real(f'p{n}{a}', lo, hi) if n in move and a in axes else float(q[a])
    s = _surf(m)
    s.set_from_triangles_and_points(np.array(T0), p)
    return s, p


def _side(a, b, q):
    return (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])


@case('C13', bounds = 'any points of two patches within 5 triangles against any box', params = [dict(n = 2), dict(n = 3)])
def trim_box(c, n):
    m = _model(c)
    s = _surf(m)
    move = c.reals('p', (n, 3), -30, 30)
    pa = c.array(np.array(P0, dtype = float))
    pb = c.array(np.array(P0, dtype = float) + 100.0)
    pa[:n] = move
    s.set_multi_patch_from_triangles_and_points([(np.array(T0), pa), (np.array(T0[:2]), pb[:4])])
    box = c.array(np.array([[-5.0, 20.0, 3.5], [12.5, -5.0, -100.0]]))
    for b in range(n):
        for a in range(3):
            for e in range(2):
                c.assume(c.Or(move[b, a] >= box[e, a] + M, move[b, a] <= box[e, a] - M))
    lo = [-5.0, -5.0, -100.0]
    hi = [12.5, 20.0, 3.5]

    def within(q):
        return c.And(*[c.And(q[a] >= lo[a], q[a] <= hi[a]) for a in range(3)])

    out = rqs.Surface(m, title = 'trimmed')
    out.set_to_trimmed_surface(s, xyz_box = box)
    keep = []
    for pp, tt in ((pa, T0), (pb, T0[:2])):
        for tri in tt:
            if c.fix(c.Or(*[within(pp[v]) for v in tri])):
                keep.append([pp[v] for v in tri])
    if not keep:
        c.same('none', len(out.patch_list), 0)
        return
    t, p = out.triangles_and_points()
    c.same('triangles', len(t), len(keep))
    for x in range(len(keep)):
        for v in range(3):
            c.same('corner', p[int(t[x, v])], keep[x][v])
    c.check('all points used', set(v for x in _ints(t) for v in x) == set(range(len(p))))
    c.same('crs', out.crs_uuid, s.crs_uuid)
    c.same('patch indices', [x.patch_index for x in out.patch_list], list(range(len(out.patch_list))))


@case('C13', bounds = 'any first point against a polygon')
def trim_polygon(c):
    m = _model(c)
    s, p = _held(c, m, (0,), axes = (0, 1))
    poly = rql.Polyline(m, set_coord = np.array([(-3.5, -3.5, 0.0), (4.5, -3.5, 0.0), (4.5, 6.5, 0.0), (-3.5, 6.5, 0.0)]),
                        set_crs = m.crs_uuid, is_closed = True, title = 'area')
    for a, e in ((0, -3.5), (0, 4.5), (1, -3.5), (1, 6.5)):
        c.assume(c.Or(p[0, a] >= e + M, p[0, a] <= e - M))
    within = c.fix(c.And(p[0, 0] > -3.5, p[0, 0] < 4.5, p[0, 1] > -3.5, p[0, 1] < 6.5))
    out = rqs.Surface(m, title = 'trimmed')
    out.set_to_trimmed_surface(s, xy_polygon = poly)
    c.same('patches', len(out.patch_list), 1 if within else 0)
    if within:
        t, q = out.triangles_and_points()
        c.same('triangles', len(t), 1)
        for v in range(3):
            c.same('corner', q[int(t[0, v])], p[v])


@case('C13', bounds = 'any first two points against a dividing line, any shifts')
def split(c):
    m = _model(c)
    s, p = _held(c, m, (0, 3), axes = (0, 1))
    line = c.array(np.array([(4.0, -10.0, 0.0), (6.0, 30.0, 0.0)]))
    d = c.reals('d', (2, 3), -5, 5)
    side = [_side(line[0], line[1], p[n]) for n in range(5)]
    for n in range(5):
        c.assume(c.Or(side[n] >= M, side[n] <= -M))
    left = [c.fix(side[n] > 0) for n in range(5)]
    keep = p.copy()
    out = _surf(m)
    out.set_to_split_surface(s, line, d)
    c.same('original kept', s.triangles_and_points()[1], keep)
    t, q = out.triangles_and_points()
    groups = []
    for sense in (False, True):
        groups.append([tri for tri in T0 if any(left[v] == sense for v in tri)])
    n0 = len(groups[0])
    c.same('triangles', len(t), n0 + len(groups[1]))
    alts = []
    for order in ((0, 1), (1, 0)):
        g = [(groups[o], d[x]) for x, o in enumerate(order)]
        want = [([p[v, a] + dd[a] for a in range(3)]) for tris, dd in g for tri in tris for v in tri]
        alts.append(c.And(*[q[int(t[x // 3, x % 3]), a] == want[x][a] for x in range(len(want)) for a in range(3)]))
    # the first shift applies to the side on the right of the line
    c.check('two sides moved', alts[0])
    c.check('all points used', set(v for x in _ints(t) for v in x) == set(range(len(q))))


@case('C13', bounds = 'any sample point', params = [dict(mode = x) for x in ('any', 'minimum', 'maximum')])
def sampling(c, mode):
    m = _model(c)
    s = _surf(m)
    # two overlapping sheets
    P = [(0, 0, 1), (12, 0, 4), (0, 12, 7), (2, 2, 20), (14, 3, -8), (3, 14, -2)]
    T = [[0, 1, 2], [3, 4, 5]]
    s.set_from_triangles_and_points(np.array(T), c.array(np.array(P, dtype = float)))
    xy = c.reals('xy', 2, -2, 16)
    zs = []
    for tri in T:
        a, b, d = (P[v] for v in tri)
        w = _side(a, b, d)
        u = [_side(b, d, xy) / w, _side(d, a, xy) / w, _side(a, b, xy) / w]
        for x in u:
            c.assume(c.Or(x >= M, x <= -M))
        ok = c.fix(c.And(*[x > 0 for x in u]))
        zs.append(sum(x * q[2] for x, q in zip(u, (a, b, d))) if ok else None)
    pts = xy.reshape((1, 2))
    z = s.sample_z_at_xy_points(pts, multiple_handling = mode)
    c.same('shape', z.shape, (1,))
    live = [x for x in zs if x is not None]
    if not live:
        c.check('none', bool(np.isnan(z[0])))
        return
    c.check('found', not bool(np.isnan(z[0])))
    r = z[0]
    tol = 1.0e-5
    close = [c.And(r - x <= tol, x - r <= tol) for x in live]
    c.check('on the surface', c.Or(*close))
    if mode == 'minimum':
        c.check('lowest', c.And(*[r <= x + tol for x in live]))
    if mode == 'maximum':
        c.check('highest', c.And(*[r >= x - tol for x in live]))
    p3 = c.zeros((2, 1, 3))
    p3[0, 0, :2] = xy
    p3[0, 0, 2] = 77.0
    p3[1, 0] = [1.0, 1.0, 5.0]
    z3 = s.sample_z_at_xy_points(p3, multiple_handling = mode)
    c.same('shape 3', z3.shape, (2, 1))
    c.check('same with z', abs(z3[0, 0] - r) <= tol)
    c.close('other point', z3[1, 0], 1.0 + 3 / 12 + 6 / 12, 1.0e-6)
    if len(live) == 2:
        c.raises('exception mode', lambda: s.sample_z_at_xy_points(pts, multiple_handling = 'exception'), Exception)
    # z values of the surface move
    dz = c.real('dz', -20, 20)
    s2 = _surf(m)
    P2 = c.array(np.array(P, dtype = float))
    P2[1, 2] = dz
    s2.set_from_triangles_and_points(np.array(T[:1]), P2[:3])
    z2 = s2.sample_z_at_xy_points(np.array([[3.0, 6.0]]))
    c.close('moved', z2[0], (12 - 9) / 12 * 1 + 3 / 12 * dz + 6 / 12 * 7, 1.0e-5)


@case('C13', bounds = 'any line start in one of two directions', params = [dict(d = x, seg = y) for x in range(2) for y in (False, True)])
def line(c, d, seg):
    m = _model(c)
    s, p = _held(c, m)
    v = [(1.0, 0.5, -20.0), (0.25, 0.5, 4.0)][d]
    q = c.reals('q', 3, -30, 30)
    hit = []
    for tri in T0:
        a, b, e = (P0[x] for x in tri)
        m3 = [[float(b[i] - a[i]), float(e[i] - a[i]), -v[i]] for i in range(3)]
        inv = _inv(m3)
        r = [q[i] - a[i] for i in range(3)]
        u, w, t = [sum(inv[i][j] * r[j] for j in range(3)) for i in range(3)]
        for x in (u, w, 1.0 - u - w) + ((t, 1.0 - t) if seg else ()):
            c.assume(c.Or(x >= M, x <= -M))
        cond = c.And(u > 0, w > 0, u + w < 1, *((t > 0, t < 1) if seg else ()))
        hit.append((c.fix(cond), t))
    got = s.line_intersection(q, np.array(v), line_segment = seg)
    live = [t for h, t in hit if h]
    c.check('found when it meets', (got is not None) == bool(live))
    if live:
        c.check('point', c.Or(*[c.And(*[abs(got[a] - (q[a] + t * v[a])) <= 1.0e-4 for a in range(3)]) for t in live]))


def _inv(m):

    def cof(i, j):
        a, b = [n for n in range(3) if n != i], [n for n in range(3) if n != j]
        return (-1.0)**(i + j) * (m[a[0]][b[0]] * m[a[1]][b[1]] - m[a[0]][b[1]] * m[a[1]][b[0]])

    det = sum(m[0][j] * cof(0, j) for j in range(3))
    return [[cof(j, i) / det for j in range(3)] for i in range(3)]


@case('C13', bounds = 'any z of 3 points, any crossing value', params = [dict(axis = a) for a in range(3)])
def crossings(c, axis):
    m = _model(c)
    s, p = _held(c, m, (0, 2, 3), axes = (axis,))
    v = c.real('v', -20, 20) if axis == 2 else [4.5, 3.5][axis]
    edges = sorted(set(tuple(sorted((t[a], t[(a + 1) % 3]))) for t in T0 for a in range(3)))
    for n in range(5):
        c.assume(c.Or(p[n, axis] - v >= M, p[n, axis] - v <= -M))
    above = [c.fix(p[n, axis] > v) for n in range(5)]
    want = [e for e in edges if above[e[0]] != above[e[1]]]
    got = s.axial_edge_crossings(axis, value = v)
    if not want:
        c.check('none', got is None)
        return
    c.same('count', len(got), len(want))
    for n, (a, b) in enumerate(want):
        c.close('value', got[n, axis], v, 1.0e-5)
        for x in range(3):
            if x != axis:
                # (v - pa) (pbx - pax) = (gx - pax) (pb - pa)
                l = (v - p[a, axis]) * (P0[b][x] - P0[a][x])
                r = (got[n, x] - P0[a][x]) * (p[b, axis] - p[a, axis])
                c.close('on edge', l, r, 1.0e-3)
    c.same('edges', s.distinct_edges(), np.array(edges))


@case('C13', bounds = 'any points, any reference depth, any factor', params = [dict(ref = r) for r in ('given', 'default', 'loaded')])
def rescale(c, ref):
    m = _model(c)
    p = c.reals('p', (3, 3), LO, HI)
    q = c.reals('q', (3, 3), LO, HI)
    s = _surf(m)
    s.set_multi_patch_from_triangles_and_points([(np.array([[0, 1, 2]]), p), (np.array([[2, 1, 0]]), q)])
    s.triangles_and_points()
    f = c.real('f', 0.1, 10) if ref != 'default' else 2.5
    c.assume(c.Not(c.And(f >= 1.0, f <= 1.0)))
    if ref == 'loaded':
        s.write_hdf5()
        s.create_xml()
        m = _reopen(m)
        s = rqs.Surface(m, uuid = s.uuid)
        f = 2.5
    d = c.real('d', LO, HI) if ref == 'given' else None
    s.vertical_rescale_points(ref_depth = d, scaling_factor = f)
    t, r = s.triangles_and_points()
    zs = [x[n, 2] for x in (p, q) for n in range(3)]
    if d is None:
        # the shallowest
        for n in range(6):
            if c.fix(c.And(*[zs[n] <= z for z in zs])):
                d = zs[n]
                break
    for n in range(6):
        src = (p, q)[n // 3][n % 3]
        c.same('x', r[n, 0], src[0])
        c.same('y', r[n, 1], src[1])
        c.close('z', r[n, 2], d + f * (src[2] - d), 1.0e-5)
    c.same('triangles', _ints(t), [[0, 1, 2], [5, 4, 3]])


@case('C13', bounds = 'any one vertex, both orders of vertices', params = [dict(down = d, units = u) for d in (False, True) for u in ('m', 'ft')])
def normals(c, down, units):
    m = _model(c, z_inc_down = down, z_units = units)
    z = c.real('z', -50, 50)
    p = c.array(np.array([(0, 0, 0), (8, 1, 2), (3, 7, 0)], dtype = float))
    p[2, 2] = z
    s = _surf(m)
    s.set_from_triangles_and_points(np.array([[0, 1, 2], [2, 1, 0]]), p)
    n = s.normal_vectors()
    f = 0.3048 if units == 'ft' else 1.0
    c.same('shape', n.shape, (2, 3))
    c.same('points kept', s.triangles_and_points()[1], p)
    for x in range(2):
        for v in ((8.0, 1.0, 2.0 * f), (3.0, 7.0, z * f)):
            c.close('orthogonal', sum(n[x, a] * v[a] for a in range(3)), 0.0, 1.0e-5)
        c.close('unit', n[x, 0] * n[x, 0] + n[x, 1] * n[x, 1] + n[x, 2] * n[x, 2], 1.0, 1.0e-6)
        c.check('upwards', n[x, 2] < 0 if down else n[x, 2] > 0)
    e = s.edge_lengths()
    c.same('edge lengths', e.shape, (2, 3))
    zz = z * f
    for (x, y), w in {(0, 0): 65.0 + 4.0 * f * f, (0, 2): 58.0 + zz * zz}.items():
        c.close('edge length', e[x, y] * e[x, y], w, 1.0e-4)
    c.close('shared edge', e[1, 1], e[0, 0], 1.0e-6)


@case('C13', bounds = 'any z of two of the points')
def resampled(c):
    m = _model(c)
    s, p = _held(c, m, (1, 3), axes = (2,))
    r = s.resampled_surface()
    t, q = r.triangles_and_points()
    t = _ints(t)
    edges = sorted(set(tuple(sorted((x[a], x[(a + 1) % 3]))) for x in T0 for a in range(3)))
    c.same('triangles', len(t), 4 * len(T0))
    c.same('points', len(q), 5 + len(edges))
    # identify by x and y, which are concrete
    where = {}
    for n in range(5):
        where[(P0[n][0], P0[n][1])] = (n, n)
    for a, b in edges:
        where[((P0[a][0] + P0[b][0]) / 2, (P0[a][1] + P0[b][1]) / 2)] = (a, b)
    name = []
    for n in range(len(q)):
        a, b = where[(float(q[n, 0]), float(q[n, 1]))]
        name.append((a, b))
        c.close('height', q[n, 2], (p[a, 2] + p[b, 2]) / 2.0, 1.0e-6)
    got = sorted(sorted(name[v] for v in x) for x in t)
    want = []
    for x in T0:
        e = [tuple(sorted((x[a], x[(a + 1) % 3]))) for a in range(3)]
        want.append(sorted(e))
        for a in range(3):
            want.append(sorted([(x[a], x[a]), e[a], e[a - 1]]))
    c.same('pattern', got, sorted(want))


@case('C13', bounds = 'any position of one point, two patches or one', params = [dict(patches = n) for n in (1, 2)])
def make_clockwise(c, patches):
    m = _model(c)
    s = _surf(m)
    p = c.array(np.array(P0, dtype = float))
    p[0, :2] = c.reals('p', 2, -30, 30)
    if patches == 1:
        s.set_from_triangles_and_points(np.array(T0), p)
        tris = [[p[v] for v in t] for t in T0]
    else:
        s.set_multi_patch_from_triangles_and_points([(np.array(T0), p), (np.array([[0, 1, 2], [0, 2, 1]]), p[2:])])
        tris = [[p[v] for v in t] for t in T0] + [[p[2 + v] for v in t] for t in ([0, 1, 2], [0, 2, 1])]
    for t in tris:
        x = _side(*t)
        c.assume(c.Or(x >= M, x <= -M))
    s.make_all_clockwise_xy()

    def look(nm, s):
        t, q = s.triangles_and_points()
        c.same(f'{nm} count', len(t), len(tris))
        for n in range(len(tris)):
            a = [q[int(x)] for x in t[n]]
            c.check(f'{nm} clockwise', _side(*a) < 0)
            for x in range(3):
                c.check(f'{nm} same corners', c.Or(*[c.And(*[a[x][d] == b[d] for d in range(3)]) for b in tris[n]]))

    look('now', s)


@case('C13', bounds = 'any points, any offsets of the two crs')
def crs_change(c):
    m = _model(c)
    a = rqc.Crs(m, x_offset = 10.0, y_offset = -5.0, z_offset = 3.0)
    b = rqc.Crs(m, x_offset = -20.0, y_offset = 7.0, z_offset = 1.0, z_inc_down = False)
    a.create_xml()
    b.create_xml()
    p = c.reals('p', (4, 3), LO, HI)
    s = rqs.Surface(m, crs_uuid = a.uuid, title = 's')
    s.set_multi_patch_from_triangles_and_points([(np.array([[0, 1, 2]]), p), (np.array([[0, 1, 2]]), p[1:])])
    s.triangles_and_points()
    was = s.uuid
    s.change_crs(b)
    t, q = s.triangles_and_points()
    c.same('count', (len(t), len(q)), (2, 7))
    for n in range(7):
        src = p[n] if n < 4 else p[n - 3]
        c.close('x', q[n, 0], src[0] + 30.0, 1.0e-6)
        c.close('y', q[n, 1], src[1] - 12.0, 1.0e-6)
        c.close('z', q[n, 2], -(src[2] + 3.0) - 1.0, 1.0e-6)
    c.same('crs', s.crs_uuid, b.uuid)
    c.check('patches', all(x.crs_uuid == b.uuid for x in s.patch_list))
    c.check('uuid', s.uuid != was)
    ps = rqs.PointSet(m, crs_uuid = a.uuid, points_array = p, title = 'p')
    ps.add_patch(p[1:])
    ps.full_array_ref()
    ps.change_crs(b)
    c.close('point set', ps.full_array_ref(), q, 1.0e-6)


@case('C13', bounds = 'any points, any point wanted')
def combined(c):
    m = _model(c)
    ss, ps = [], []
    for n in range(3):
        s, p = _held(c, m) if n == 1 else (_surf(m), None)
        if n != 1:
            p = c.reals(f'r{n}', (4, 3), LO, HI)
            s.set_from_triangles_and_points(np.array([[0, 1, 2], [1, 3, 2]]), p)
        ss.append(s)
        ps.append(p)
    inner = rqs.CombinedSurface(ss[:2])
    comb = rqs.CombinedSurface([inner, ss[2]])
    n = c.int('n', 0, 8)
    got = comb.surface_index_for_triangle_index(n)
    if c.fix(n >= 7):
        c.check('beyond', got is None)
    else:
        first = c.fix(n < 5)
        c.same('surface', got[0], 0 if first else 1)
        c.same('triangle', got[1], n if first else n - 5)
    t, p = comb.triangles_and_points()
    c.same('count', (len(t), len(p)), (7, 13))
    every = [[ps[0][v] for v in x] for x in ([0, 1, 2], [1, 3, 2])] + [[ps[1][v] for v in x] for x in T0] + [
        [ps[2][v] for v in x] for x in ([0, 1, 2], [1, 3, 2])]
    for x in range(7):
        for v in range(3):
            c.same('corner', p[int(t[x, v])], every[x][v])


@case('C13', bounds = 'any points against a box and a polygon')
def point_sets(c):
    m = _model(c)
    p = c.reals('p', (2, 3), -30, 30)
    q = np.array([(1.0, 2.0, 3.0), (40.0, 2.0, 3.0)])
    box = np.array([[-5.0, -5.0, -100.0], [12.5, 20.0, 3.5]])
    for n in range(2):
        for a in range(3):
            for e in range(2):
                c.assume(c.Or(p[n, a] >= box[e, a] + M, p[n, a] <= box[e, a] - M))

    def make():
        ps = rqs.PointSet(m, crs_uuid = m.crs_uuid, points_array = p, title = 'p')
        ps.add_patch(q)
        return ps

    ok = [c.fix(c.And(*[c.And(p[n, a] >= box[0, a], p[n, a] <= box[1, a]) for a in range(3)])) for n in range(2)]
    ps = make()
    ps.trim_to_xyz_box(box)
    want = [p[n] for n in range(2) if ok[n]] + [q[0]]
    r = ps.full_array_ref()
    c.same('box', len(r), len(want))
    for n in range(len(want)):
        c.same('box point', r[n], want[n])
    c.same('patches', ps.patch_count, 1)
    ok = [c.fix(c.And(*[c.And(p[n, a] >= box[0, a], p[n, a] <= box[1, a]) for a in range(2)])) for n in range(2)]
    poly = rql.Polyline(m, set_coord = np.array([(-5.0, -5.0, 0.0), (12.5, -5.0, 0.0), (12.5, 20.0, 0.0), (-5.0, 20.0, 0.0)]),
                        set_crs = m.crs_uuid, is_closed = True, title = 'area')
    ps = make()
    ps.trim_to_xy_polygon(poly)
    want = [p[n] for n in range(2) if ok[n]] + [q[0]]
    r = ps.full_array_ref()
    c.same('polygon', len(r), len(want))
    for n in range(len(want)):
        c.same('polygon point', r[n], want[n])


# -- tri meshes

R3 = math.sqrt(3.0) / 2.0


def _tri(c, m, nj = 3, ni = 4, side = 10.0, origin = None, z = None, **k):
    if z is None:
        z = c.reals('z', (nj, ni), -100, 100)
    t = rqs.TriMesh(m, t_side = side, nj = nj, ni = ni, origin = origin, z_values = z, crs_uuid = m.crs_uuid,
                    title = 'tri mesh', **k)
    return t, z


def _node(side, origin, j, i):
    o = origin or (0.0, 0.0, 0.0)
    return (o[0] + side * (i + 0.5 * (j % 2)), o[1] + side * R3 * j)


def _tri_sets(nj, ni):
    """(j, i) -> set of three nodes, from the layout alone: each strip alternates triangles from left to right"""
    d = {}
    for j in range(nj - 1):
        lower, upper = [(j, i) for i in range(ni)], [(j + 1, i) for i in range(ni)]
        base, tip = (upper, lower) if j % 2 else (lower, upper)
        for i in range(ni - 1):
            # base row is the even row, whose nodes lie half a side to the left of those of the odd row
            d[(j, 2 * i)] = {base[i], base[i + 1], tip[i]}
            d[(j, 2 * i + 1)] = {tip[i], tip[i + 1], base[i + 1]}
    return d


@case('C13', bounds = 'any z values of 12 nodes, any of 3 origins', params = [dict(o = o) for o in (None, (3.0, -4.0, 0.0), (3.0, -4.0, 2.5))])
def tri_mesh_nodes(c, o):
    m = _model(c)
    t, z = _tri(c, m, origin = o)
    xyz = t.full_array_ref()
    for j in range(3):
        for i in range(4):
            x, y = _node(10.0, o, j, i)
            c.close('x', xyz[j, i, 0], x, 1.0e-6)
            c.close('y', xyz[j, i, 1], y, 1.0e-6)
            c.close('z', xyz[j, i, 2], z[j, i] + (o[2] if o else 0.0), 1.0e-6)
    sets = _tri_sets(3, 4)
    every = t.all_tri_nodes()
    c.same('shape', every.shape, (2, 6, 3, 2))
    tt, p = t.triangles_and_points()
    for key in sets:
        one = set((int(a), int(b)) for a, b in t.tri_nodes_for_tji(key))
        c.same('triangle nodes', one, sets[key])
        c.same('all', set((int(a), int(b)) for a, b in every[key]), sets[key])
        c.same('same order', _ints(every[key]), _ints(t.tri_nodes_for_tji(key)))
        n = t.triangle_index_for_tji(key)
        c.same('index', tuple(t.tji_for_triangle_index(n)), key)
        for v in range(3):
            a, b = every[key][v]
            c.same('points', p[int(tt[n, v])], xyz[int(a), int(b)])
    arr = t.tri_nodes_for_tji_array(np.array([[(0, 0), (1, 5)], [(-1, -1), (1, 2)]]))
    c.same('array', _ints(arr[0, 1]), _ints(t.tri_nodes_for_tji((1, 5))))
    c.check('masked', bool(np.all(arr[1, 0] == -1)))
    # stored and read again
    t.write_hdf5()
    t.create_xml()
    m2 = _reopen(m)
    t2 = rqs.TriMesh(m2, uuid = t.uuid)
    c.same('side', t2.t_side, 10.0)
    c.same('points again', t2.full_array_ref(), xyz)
    c.check('compatible', t2.is_compatible_with(t))
    other = rqs.TriMesh.from_tri_mesh_and_z_values(t2, z * 2.0)
    c.close('new z', other.full_array_ref()[..., 2], z * 2.0, 1.0e-6)
    c.close('same x y', other.full_array_ref()[..., :2], xyz[..., :2], 1.0e-6)


@case('C13', bounds = 'any point in or out of a tri mesh of 3 x 3 nodes', params = [dict(o = o) for o in (None, (3.0, -4.0, 0.0))])
def tri_mesh_location(c, o):
    m = _model(c)
    nj, ni, side = 3, 3, 10.0
    zz = np.array([[1.0, 5.0, -3.0], [2.0, 8.0, 4.0], [-6.0, 0.5, 3.0]])
    t, _ = _tri(c, m, nj, ni, side, o, z = zz)
    xy = c.reals('xy', 2, -10, 35)
    sets = _tri_sets(nj, ni)
    found = None
    for key in sorted(sets):
        nodes = sorted(sets[key])
        a, b, d = (_node(side, o, *n) for n in nodes)
        w = _side(a, b, d)
        u = [_side(b, d, xy) / w, _side(d, a, xy) / w, _side(a, b, xy) / w]
        for x in u:
            c.assume(c.Or(x >= M, x <= -M))
        if c.fix(c.And(*[x > 0 for x in u])):
            found = (key, nodes, u)
    # away from the lines of the mesh, which extend beyond it
    ox, oy = (o[0], o[1]) if o else (0.0, 0.0)
    got = t.tji_for_xy((xy[0], xy[1]))
    tji, w = t.tji_tc_for_xy((xy[0], xy[1]))
    aji, aw = t.tji_tc_for_xy_array(xy.reshape((1, 2)))
    z = t.interpolated_z((xy[0], xy[1]))
    za = t.interpolated_z_array(xy.reshape((1, 2)))
    if found is None:
        c.check('none', got is None and tji is None and z is None)
        c.check('none in array', int(aji[0, 0]) == -1 and int(aji[0, 1]) == -1 and bool(np.isnan(za[0])))
        return
    key, nodes, u = found
    c.same('triangle', tuple(int(x) for x in got), key)
    c.same('array triangle', tuple(int(x) for x in aji[0]), key)
    c.same('array alone', tuple(int(x) for x in t.tji_for_xy_array(xy.reshape((1, 2)))[0]), key)
    order = [tuple(int(x) for x in n) for n in t.tri_nodes_for_tji(key)]
    for v in range(3):
        c.close('weight', w[v], u[nodes.index(order[v])], 1.0e-6)
        c.close('array weight', aw[0, v], u[nodes.index(order[v])], 1.0e-6)
    want = sum(x * zz[n] for x, n in zip(u, nodes))
    c.close('z', z, want, 1.0e-5)
    c.close('array z', za[0], want, 1.0e-5)


@case('C13', bounds = 'any z values of 3 x 3 or 4 x 3 nodes, any crossing value; any x or y value', params = [
    dict(axis = a, nj = n, o = o, **({'_tier': 'thorough'} if a == 2 and n == 4 else {})) for a in range(3) for n in (3, 4)
    for o in (None, (3.0, -4.0, 0.0)) if a != 2 or o is None])
def tri_mesh_crossings(c, axis, nj, o):
    m = _model(c)
    ni, side = 3, 10.0
    if axis == 2:
        z = np.array([[1.0, 5.0, -3.0], [2.0, 8.0, 4.0], [-6.0, 0.5, 3.0], [2.0, 2.0, -1.0]])[:nj]
        z = c.array(z)
        # nodes without a common edge
        z[0, 1], z[2, 1] = c.real('za', -20, 20), c.real('zb', -20, 20)
    else:
        z = np.array([[1.0, 5.0, -3.0], [2.0, 8.0, 4.0], [-6.0, 0.5, 3.0], [2.0, 2.0, -1.0]])[:nj]
    t, z = _tri(c, m, nj, ni, side, o, z = z)
    v = c.real('v', -30, 50) if axis != 2 else 1.25
    xyz = t.full_array_ref()
    edges = set()
    for s in _tri_sets(nj, ni).values():
        s = sorted(s)
        for a, b in ((0, 1), (0, 2), (1, 2)):
            edges.add((s[a], s[b]))

    def val(n):
        return z[n] if axis == 2 else _node(side, o, *n)[axis]

    for n in sorted(set(x for e in edges for x in e)):
        c.assume(c.Or(val(n) - v >= 0.01, val(n) - v <= -0.01))
    above = {n: c.fix(val(n) > v) for e in edges for n in e}
    want = [e for e in sorted(edges) if above[e[0]] != above[e[1]]]
    sets = [('crossings', t.axial_edge_crossings(axis, value = v))]
    if axis == 2:
        sets.append(('zero crossings', t.edge_zero_crossings(z - v)))
    for nm, got in sets:
        c.same(f'{nm} count', len(got), len(want))
        pts = []
        for a, b in want:
            fa, fb = val(a), val(b)
            f = (v - fa) / (fb - fa)
            pa, pb = [list(_node(side, o, *n)) + [z[n]] for n in (a, b)]
            pts.append([pa[x] + f * (pb[x] - pa[x]) for x in range(3)])
        if axis == 2:
            # x and y tell on which edge a crossing is, so match by order of edges found
            for n in range(len(got)):
                c.check(f'{nm} on an edge', c.Or(*[_near(c, got[n], q, 1.0e-3, skip = 2 if nm != 'crossings' else None)
                                                   for q in pts]))
        else:
            for n in range(len(got)):
                c.check(f'{nm} on an edge', c.Or(*[_near(c, got[n], q, 1.0e-4) for q in pts]))
            for q in pts:
                c.check(f'{nm} every edge', c.Or(*[_near(c, got[n], q, 1.0e-4) for n in range(len(got))]))


def _near(c, a, b, tol, skip = None):
    return c.And(*[c.And(a[x] - b[x] <= tol, b[x] - a[x] <= tol) for x in range(3) if x != skip])


@case('C13', bounds = 'any position of one corner of a triangle over 4 x 3 nodes', params = [
    dict(o = o, b = b) for o in (None, (3.0, -4.0, 0.0)) for b in range(2)])
def tri_mesh_nodes_in(c, o, b):
    m = _model(c)
    nj, ni, side = 4, 3, 10.0
    t, _ = _tri(c, m, nj, ni, side, o, z = np.zeros((nj, ni)))
    base = [[(-7.0, 3.0), (24.25, -9.5)], [(31.0, 5.0), (2.5, 21.0)]][b]
    p = c.zeros((2, 3, 2))
    p[1] = np.array([(100.0, 0.0), (120.0, 0.0), (100.0, 30.0)])
    p[0, 1:] = np.array(base)
    p[0, 0, 0] = c.real('x', -15, 40)
    p[0, 0, 1] = [19.0, -3.5][b]
    tri = [p[0, n] for n in range(3)]
    inside = set()
    w = _side(*tri)
    c.assume(c.Or(w >= 1.0, w <= -1.0))
    for j in range(nj):
        for i in range(ni):
            q = _node(side, o, j, i)
            s = [_side(tri[n], tri[(n + 1) % 3], q) for n in range(3)]
            for x in s:
                c.assume(c.Or(x >= 0.01, x <= -0.01))
            for n in range(3):
                for a in range(2):
                    c.assume(c.Or(tri[n][a] - q[a] >= 0.001, tri[n][a] - q[a] <= -0.001))
            if c.fix(c.Or(c.And(*[x > 0 for x in s]), c.And(*[x < 0 for x in s]))):
                inside.add((0, j, i))
    got = t.tri_nodes_in_triangles(p)
    got = [tuple(int(c.fix(v)) for v in x) for x in got]
    c.same('nodes', sorted(got), sorted(inside))


def _hexdist(a, b):
    """distance between nodes of a tri mesh in steps, by cube coordinates"""

    def cube(j, i):
        q = i - (j - (j & 1)) // 2
        return q, j

    (qa, ra), (qb, rb) = cube(*a), cube(*b)
    dq, dr = qa - qb, ra - rb
    return max(abs(dq), abs(dr), abs(dq + dr))


@case('C13', bounds = 'any z values of 4 x 3 nodes, up to 3 of them undefined, any stencil weights', params = [
    dict(n = n, nan = x) for n in (2, 3) for x in ('none', 'handled', 'preserved', 'border')])
def stencil(c, n, nan):
    m = _model(c)
    nj, ni = 4, 3
    t, z = _tri(c, m, nj, ni)
    if nan in ('handled', 'preserved'):
        for j, i in ((0, 1), (2, 2)):
            if c.fix(c.bool(f'nan {j}{i}')):
                t.full_array[j, i, 2] = np.nan
                z[j, i] = np.nan
    w = [2.0, 0.5, 0.25][:n] if nan != 'none' else [c.real(f'w{x}', -3, 3) for x in range(n)]
    st = rqs.TriMeshStencil(w if nan != 'none' else w, normalize = None)
    kw = dict(handle_nan = nan != 'none', preserve_nan = nan == 'preserved')
    if nan == 'none':
        kw['border_value'] = 7.0
    if nan == 'border':
        kw['border_value'] = -2.0
    if nan == 'none':
        # products of weights and values: concrete values
        zc = np.array([[1.0, 5.0, -3.0], [2.0, 8.0, 4.0], [-6.0, 0.5, 3.0], [2.0, 2.0, -1.0]])
        t, z = _tri(c, m, nj, ni, z = zc)
    out = st.apply(t, **kw).full_array_ref()
    for j in range(nj):
        for i in range(ni):
            a, ws = 0.0, 0.0
            for jj in range(-n - 1, nj + n + 1):
                for ii in range(-n - 1, ni + n + 1):
                    d = _hexdist((j, i), (jj, ii))
                    if d >= n:
                        continue
                    if 0 <= jj < nj and 0 <= ii < ni:
                        v = z[jj, ii]
                    else:
                        v = kw.get('border_value')
                    if v is None or bool(np.isnan(v)):
                        continue
                    a = a + w[d] * v
                    ws = ws + w[d]
            want = a if nan == 'none' else a / ws
            if nan == 'preserved' and bool(np.isnan(z[j, i])):
                c.check('preserved', bool(np.isnan(out[j, i, 2])))
            else:
                c.close('value', out[j, i, 2], want, 1.0e-5)
            c.same('x y', out[j, i, :2], t.full_array_ref()[j, i, :2])


@case('C13', bounds = 'any weights summing away from zero', params = [dict(flat = f) for f in (True, False)])
def stencil_weights(c, flat):
    w = [c.real(f'w{x}', 0.1, 5) for x in range(3)]
    st = rqs.TriMeshStencil(w, normalize = 1.5, normalize_mode_flat = flat)
    q = st.pattern
    ring = [1, 6, 12]
    if flat:
        c.close('total', sum(ring[x] * q[x] for x in range(3)), 1.5, 1.0e-5)
        c.close('ratio', q[1] * w[0], q[0] * w[1], 1.0e-5)
    else:
        c.close('total', sum(ring[x] * q[x] for x in range(3)), 1.5, 1.0e-5)
        c.close('ratio', ring[1] * q[1] * w[0], q[0] * w[1], 1.0e-5)
    a, b = c.real('centre', -5, 5), c.real('outer', -5, 5)
    st = rqs.TriMeshStencil.for_linear_unnormalized(4, a, b)
    for x in range(4):
        c.close('linear', st.pattern[x], a + (b - a) * x / 3.0, 1.0e-6)
    st = rqs.TriMeshStencil.for_constant_unnormalized(3, a)
    c.close('constant', st.pattern[2], a, 1.0e-9)


# -- triangulation functions


@case('C13', bounds = '3 triangles with any vertex indices', max_paths = 3000, params = [dict(n = 2), dict(n = 3, _tier = 'thorough')])
def edge_lists(c, n):
    t = np.array([[0, 1, 2], [2, 1, 3], [3, 4, 2]][:n])
    t = c.array(t)
    a, b = c.int('a', 0, 4), c.int('b', 0, 4)
    c.assume(c.Not(c.Or(c.And(a >= 2, a <= 2), c.And(a >= 1, a <= 1), c.And(a >= b, a <= b))))
    a, b = c.fix(a), c.fix(b)
    t[0, 0] = a
    tt = _ints(t)
    want = {}
    for x in tt:
        for v in range(3):
            e = tuple(sorted((x[v], x[(v + 1) % 3])))
            want[e] = want.get(e, 0) + 1
    e, k = triangulate.edges(t)
    c.same('edges', [tuple(int(v) for v in x) for x in e], sorted(want))
    c.same('counts', [int(x) for x in k], [want[x] for x in sorted(want)])
    c.same('rim', [tuple(int(v) for v in x) for x in triangulate.rim_edges(e, k)], [x for x in sorted(want) if want[x] == 1])
    c.same('internal', [tuple(int(v) for v in x) for x in triangulate.internal_edges(e, k)],
           [x for x in sorted(want) if want[x] == 2])
    c.same('using point', [int(x) for x in triangulate.triangles_using_point(t, b)], [x for x in range(n) if b in tt[x]])
    users = [x for x in range(n) if b in tt[x] and a in tt[x]]
    c.same('using edge', [int(x) for x in triangulate.triangles_using_edge(t, a, b)], users)
    if len(users) <= 2:
        r = triangulate.triangles_using_edges(t, np.array([[a, b], [1, 2]]))
        c.same('using edges', [int(x) for x in r[0]], (users + [-1, -1])[:2])


@case('C13', bounds = 'two rings of edges in any of several orders')
def rims(c):
    perm = c.choice('order', [(0, 1, 2, 3, 4, 5, 6), (6, 3, 0, 5, 2, 1, 4), (2, 4, 6, 0, 1, 5, 3)])
    flip = [c.fix(c.bool(f'flip {n}')) for n in range(3)]
    all_edges = [(0, 1), (1, 2), (2, 3), (0, 3), (5, 7), (7, 9), (5, 9)]
    e = [all_edges[n] for n in perm]
    e = [(b, a) if n < 3 and flip[n] else (a, b) for n, (a, b) in enumerate(e)]
    el, pl = triangulate.rims(np.array(e))
    c.same('count', (len(el), len(pl)), (2, 2))
    c.same('every edge once', sorted(int(x) for r in el for x in r), list(range(7)))
    for r, p in zip(el, pl):
        c.same('as many', len(r), len(p))
        for n in range(len(p)):
            c.same('edge joins', {int(p[n]), int(p[(n + 1) % len(p)])}, set(e[int(r[n])]))


@case('C13', bounds = 'any position of one point along one of several lines with 3 others', params = [
    dict(q = q, last = l, yy = y, **({} if y in (2.5, 8.25, -1.5) else {'_tier': 'thorough'})) for q in range(2) for l in (False, True)
    for y in (2.5, 8.25, -1.5, 0.5, 4.0, 6.5)], max_paths = 4000)
def delaunay(c, q, last, yy):
    fixed = [[(0.0, 0.0), (10.0, 1.0), (3.0, 9.0)], [(0.0, 0.0), (10.0, -2.0), (6.0, 7.0)]][q]
    p = c.zeros((4, 2))
    m = 3 if last else 0
    rest = [n for n in range(4) if n != m]
    for n, f in zip(rest, fixed):
        p[n] = np.array(f)
    x = c.real('x', 1, 9)
    p[m, 0], p[m, 1] = x, yy
    pts = [p[n] for n in range(4)]
    for a in range(4):
        for b in range(a):
            for d in range(b):
                s = _side(pts[d], pts[b], pts[a])
                c.assume(c.Or(s >= 0.5, s <= -0.5))
    t = triangulate.dt(p, algorithm = 'simple')
    tris = [tuple(int(c.fix(v)) for v in r) for r in t]
    c.check('count', 1 <= len(tris) <= 3)
    edges = {}
    for r in tris:
        c.check('anticlockwise', _side(*[pts[v] for v in r]) > 0)
        for v in range(3):
            e = (r[v], r[(v + 1) % 3])
            c.check('each side once in each direction', e not in edges)
            edges[e] = r
    c.same('every point used', sorted(set(v for r in tris for v in r)), [0, 1, 2, 3])
    for e in edges:
        if (e[1], e[0]) in edges:
            r = edges[e]
            o = [v for v in edges[(e[1], e[0])] if v not in e][0]
            c.check('empty circumcircle', _incircle([pts[v] for v in r], pts[o]) <= 1.0e-6)


def _incircle(t, q):
    d = [[a[0] - q[0], a[1] - q[1]] for a in t]
    s = [x * x + y * y for x, y in d]
    return (d[0][0] * (d[1][1] * s[2] - d[2][1] * s[1]) - d[0][1] * (d[1][0] * s[2] - d[2][0] * s[1]) +
            s[0] * (d[1][0] * d[2][1] - d[2][0] * d[1][1]))


@case('C13', bounds = 'any extra point')
def circumcentre(c):
    p = c.array(np.array([(0.0, 0.0), (10.0, 1.0), (3.0, 9.0)]))
    x, y = c.real('x', 1, 9), c.real('y', 4, 12)
    p[2, 0], p[2, 1] = x, y
    q = triangulate.ccc(p[0], p[1], p[2])
    d = [(q[0] - p[n, 0]) * (q[0] - p[n, 0]) + (q[1] - p[n, 1]) * (q[1] - p[n, 1]) for n in range(3)]
    c.close('equidistant', d[0], d[1], 1.0e-4)
    c.close('equidistant from third', d[0], d[2], 1.0e-4)


@case('C13', bounds = 'any polygon points')
def polygon_fans(c):
    p = c.reals('p', (5, 3), -50, 50)
    v = [[0, 1, 2], [2, 1, 3, 4]]
    ce = c.reals('ce', (2, 3), -50, 50)
    q, t = triangulate.triangulated_polygons(p, v, centres = ce)
    c.same('points', q[:5], p)
    c.same('centres', q[5:], ce)
    c.same('triangles', _ints(t), [[5, 0, 1], [5, 1, 2], [5, 2, 0], [6, 2, 1], [6, 1, 3], [6, 3, 4], [6, 4, 2]])


@case('C13', bounds = 'any two points, 4 directions', params = [dict(inner = i, angle = a, far = f) for i in (False, True) for a in (None, 30.0) for f in (None, 500.0) if not (i and f)])
def ring(c, inner, angle, far):
    p = c.zeros((3, 3))
    x, z = c.real('x', 10, 90), c.real('z', -50, 50)
    p[1] = np.array([0.0, 8.0, 0.0])
    p[2, 0], p[2, 2] = x, z
    r = triangulate.surrounding_xy_ring(p, count = 4, radial_factor = 5.0, radial_distance = far, inner_ring = inner,
                                        saucer_angle = angle)
    c.same('count', len(r), 12 if inner else 4)
    centre = [x / 3.0, 8.0 / 3.0, z / 3.0]
    # furthest in x and in y: |2x/3| and |16/3|
    rad2 = 4.0 * x * x / 9.0 + 256.0 / 9.0
    outer = r[-4:]
    t = math.tan(math.radians(angle)) if angle else 0.0
    for n in range(4):
        dx, dy = outer[n, 0] - centre[0], outer[n, 1] - centre[1]
        d2 = dx * dx + dy * dy
        if far is None:
            c.close('radius', d2, 25.0 * rad2, 0.01)
        else:
            c.check('radius at least', c.And(d2 >= 25.0 * rad2 - 0.01, d2 >= far * far - 0.01))
        dz = centre[2] - outer[n, 2]
        c.close('z', dz * dz, t * t * d2, 0.01)
        c.check('sense', dz >= -1.0e-6)
    if inner:
        for n in range(8):
            dx, dy = r[n, 0] - centre[0], r[n, 1] - centre[1]
            c.close('inner radius', dx * dx + dy * dy, 1.21 * rad2, 0.01)
