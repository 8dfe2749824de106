"""C07: stored representations read back equal to what was written."""
from symx.run import case
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.fault as rqf
import resqpy.grid as grr
import resqpy.lines as rql
import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.olio.xml_et as rqet
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.well as rqw

META = dict(
    title = 'Representations read back from a stored model equal what was written',
    statement = 'Storing a model (xml parts plus hdf5 arrays) and opening it again yields, for every representation class '
    '(point sets, polylines, polyline sets, surfaces, meshes, tri meshes, trajectories, deviation surveys, wellbore frames, '
    'blocked wells, grid connection sets, grids, unstructured grids, crs, md datums, lookups), the same arrays element for '
    'element, the same flags, indices and metadata. Numbers that the xml holds with a fixed number of decimals come back '
    'within half a unit of the last decimal.',
    text = 'any coordinates, flags, indices and null values in arrays of small fixed extents',
    why = 'the xml and hdf5 forms have special cases (mixed flags, null values, single entries, several patches, regular '
    'forms) that only particular values or shapes reach',
    files = ['resqpy/surface', 'resqpy/lines', 'resqpy/well', 'resqpy/fault/_grid_connection_set.py', 'resqpy/grid',
             'resqpy/unstructured', 'resqpy/olio/write_hdf5.py', 'resqpy/model/_hdf5.py'],
    mechanism = [('_load_from_xml, write_hdf5 and create_xml of each class', 'resqpy'),
                 ('hdf5 registration and access', 'resqpy/olio/write_hdf5.py'),
                 ('xml and part handling', 'resqpy/model')],
    observe = ['attributes and array methods of the reloaded objects'],
    note = 'small fixed extents; reals idealised (float32 conversion modelled as exact); h5py replaced by an in memory '
    'stand-in with the same interface during solving, by the real library in replays; titles and uuids concrete')


def _model(c, name = 'm', **k):
    m = rq.Model(os.path.join(c.tmpdir, name + '.epc'), new_epc = True, quiet = True)
    crs = rqc.Crs(m, **k)
    crs.create_xml()
    m.crs_uuid = crs.uuid
    return m


def _reopen(c, m):
    f = m.epc_file
    m.store_epc(quiet = True)
    m.h5_release()
    return rq.Model(f, quiet = True)


def _store(o, **k):
    o.write_hdf5()
    o.create_xml(**k)


LO, HI = -1.0e6, 1.0e6


@case('C07', bounds = 'two patches of 3 and 2 points')
def point_set(c):
    m = _model(c)
    p = c.reals('p', (3, 3), LO, HI)
    p2 = c.reals('r', (2, 3), LO, HI)
    ps = rqs.PointSet(m, title = 'points', crs_uuid = m.crs_uuid, points_array = p)
    ps.add_patch(p2)
    ps.write_hdf5()
    ps.create_xml()
    m2 = _reopen(c, m)
    ps2 = rqs.PointSet(m2, uuid = ps.uuid)
    c.same('patches', ps2.patch_count, 2)
    c.same('title', ps2.title, 'points')
    c.same('patch 1', ps2.single_patch_array_ref(1), p2)
    c.same('patch 0', ps2.single_patch_array_ref(0), p)
    q = ps2.full_array_ref()
    c.same('shape', q.shape, (5, 3))
    c.same('first', q[:3], p)
    c.same('second', q[3:], p2)
    ps3 = rqs.PointSet(m2, uuid = ps.uuid, load_hdf5 = True)
    c.same('loaded', ps3.full_array_ref(), q)
    c.record('q', q)


@case('C07', bounds = 'any closed flag, 4 points')
def polyline(c):
    m = _model(c)
    p = c.reals('p', (4, 3), LO, HI)
    closed = c.bool('closed')
    # a closed polyline whose end points coincide drops the last point on load
    c.assume(c.Or(p[0, 0] - p[3, 0] >= 100, p[3, 0] - p[0, 0] >= 100))
    pl = rql.Polyline(m, set_coord = p, set_crs = m.crs_uuid, is_closed = c.fix(closed), title = 'line',
                      extra_metadata = {'a': 'b'})
    _store(pl)
    m2 = _reopen(c, m)
    pl2 = rql.Polyline(m2, uuid = pl.uuid)
    c.same('closed', pl2.isclosed, closed)
    c.same('coords', pl2.coordinates, p)
    c.same('node count', pl2.nodepatch[1], 4)
    c.same('title', pl2.title, 'line')
    c.check('metadata', pl2.extra_metadata.get('a') == 'b')
    c.check('crs', bu.matching_uuids(pl2.crs_uuid, m.crs_uuid))


@case('C07', bounds = 'lines of given lengths, any closed flags',
      params = [dict(lens = x) for x in ((3, 2), (2, 4, 3), (3, 3, 3, 2), (3,), (2, 3, 2, 3))])
def polyline_set(c, lens):
    m = _model(c)
    pls, ps, flags = [], [], []
    for i, n in enumerate(lens):
        p = c.reals(f'p{i}', (n, 3), LO, HI)
        c.assume(p[0, 0] >= p[n - 1, 0] + 100)
        # lines are distinct
        c.assume(c.And(p[0, 1] >= 1000 * i, p[0, 1] <= 1000 * i + 500))
        f = c.bool(f'closed{i}')
        ps.append(p)
        flags.append(f)
        pls.append(rql.Polyline(m, set_coord = p, set_crs = m.crs_uuid, is_closed = c.fix(f), title = f'line {i}'))
    s = rql.PolylineSet(m, polylines = pls, title = 'lines')
    _store(s)
    m2 = _reopen(c, m)
    s2 = rql.PolylineSet(m2, uuid = s.uuid)
    c.same('count', len(s2.polys), len(lens))
    for i in range(len(lens)):
        c.same(f'closed {i}', bool(s2.polys[i].isclosed), flags[i])
        c.same(f'coords {i}', s2.polys[i].coordinates, ps[i])
        c.same(f'count {i}', s2.count_perpol[i], lens[i])


@case('C07', bounds = 'any points and any triangles (2 patches)', params = [dict(patches = 1), dict(patches = 2)])
def surface(c, patches):
    m = _model(c)
    tp = []
    for i in range(patches):
        p = c.reals(f'p{i}', (4, 3), LO, HI)
        t = c.ints(f't{i}', (2 + i, 3), 0, 3)
        tp.append((t, p))
    s = rqs.Surface(m, crs_uuid = m.crs_uuid, title = 'surf', surface_role = 'pick')
    if patches == 1:
        s.set_from_triangles_and_points(*tp[0])
    else:
        s.set_multi_patch_from_triangles_and_points(tp)
    _store(s)
    m2 = _reopen(c, m)
    s2 = rqs.Surface(m2, uuid = s.uuid)
    c.same('role', s2.surface_role, 'pick')
    c.same('patches', s2.number_of_patches(), patches)
    ts, pts = s2.triangles_and_points()
    off, toff = 0, 0
    for i, (t, p) in enumerate(tp):
        c.same(f'points {i}', pts[off:off + 4], p)
        c.same(f'triangles {i}', ts[toff:toff + 2 + i] - off, t)
        t1, p1 = s2.triangles_and_points(patch = i)
        c.same(f'patch points {i}', p1, p)
        c.same(f'patch triangles {i}', t1, t)
        off += 4
        toff += 2 + i
    c.same('all points', len(pts), off)
    c.same('all triangles', len(ts), toff)
    c.same('triangle count', s2.triangle_count(), toff)
    c.same('node count', s2.node_count(), off)


FORMS = [[(1.0, 0.0, 0.0), (0.0, 1.0, 0.0)], [(0.0, 1.0, 0.0), (-1.0, 0.0, 0.0)], [(3.0, 4.0, 0.0), (-8.0, 6.0, 0.0)],
         [(0.6, 0.0, 0.8), (0.0, -2.0, 0.0)]]


@case('C07', bounds = '2 x 3 nodes', params = [dict(f = x) for x in ('explicit', 'ref&z', 'xy')] +
      [dict(f = x, form = y) for x in ('regular', 'reg&z') for y in range(4)])
def mesh(c, f, form = None):
    m = _model(c)
    z = c.reals('z', (2, 3), LO, HI)
    o = c.reals('o', 3, LO, HI)
    kw = dict(crs_uuid = m.crs_uuid, title = 'mesh')
    if f in ('explicit', 'xy'):
        p = c.reals('p', (2, 3, 3), LO, HI)
        me = rqs.Mesh(m, xyz_values = p, **kw)
    elif f == 'ref&z':
        p = c.reals('p', (2, 3, 3), LO, HI)
        sup = rqs.Mesh(m, xyz_values = p, crs_uuid = m.crs_uuid, title = 'support')
        _store(sup)
        me = rqs.Mesh(m, ni = 3, nj = 2, z_values = z, z_supporting_mesh_uuid = sup.uuid, **kw)
    else:
        # a direction of the lattice has a length (it is stored as unit vector plus spacing)
        d = c.array(FORMS[form])
        k = c.real('k', 1, 100)
        d = d * k
        me = rqs.Mesh(m, ni = 3, nj = 2, origin = tuple(o), dxyz_dij = d,
                      z_values = None if f == 'regular' else z, **kw)
    if f == 'xy':
        me.write_hdf5(use_xy_only = True)
        me.create_xml(use_xy_only = True)
    else:
        _store(me)
    m2 = _reopen(c, m)
    me2 = rqs.Mesh(m2, uuid = me.uuid)
    c.same('nj', me2.nj, 2)
    c.same('ni', me2.ni, 3)
    c.same('flavour', me2.flavour, 'explicit' if f == 'xy' else f)
    a = me2.full_array_ref()
    if f == 'explicit':
        c.same('points', a, p)
    elif f == 'xy':
        c.same('xy', a[..., :2], p[..., :2])
    else:
        for j in range(2):
            for i in range(3):
                if f == 'ref&z':
                    e = [p[j, i, 0], p[j, i, 1], z[j, i]]
                else:
                    e = [o[x] + i * d[0, x] + j * d[1, x] for x in range(3)]
                    if f == 'reg&z':
                        e[2] = z[j, i]
                for x in range(3):
                    c.close(f'{j} {i} {x}', a[j, i, x], e[x], 1.0e-3)


@case('C07', bounds = '3 x 3 nodes')
def tri_mesh(c):
    m = _model(c)
    z = c.reals('z', (3, 3), LO, HI)
    ox, oy = c.real('ox', 10, 1000), c.real('oy', 10, 1000)
    side = c.real('side', 1, 100)
    me = rqs.TriMesh(m, t_side = side, nj = 3, ni = 3, origin = (ox, oy, 0.0), z_values = z, crs_uuid = m.crs_uuid,
                     title = 'tm')
    _store(me)
    m2 = _reopen(c, m)
    t2 = rqs.TriMesh(m2, uuid = me.uuid)
    c.same('side', t2.t_side, side)
    c.same('ox', t2.origin[0], ox)
    c.same('oy', t2.origin[1], oy)
    a = t2.full_array_ref()
    for j in range(3):
        for i in range(3):
            c.same(f'x {j} {i}', a[j, i, 0], ox + side * (i + (0.5 if j % 2 else 0)))
            c.close(f'y {j} {i}', a[j, i, 1], oy + side * 0.8660254037844386 * j, 1.0e-6)
            c.same(f'z {j} {i}', a[j, i, 2], z[j, i])


@case('C07', bounds = 'any location')
def md_datum(c):
    m = _model(c)
    loc = c.reals('loc', 3, LO, HI)
    d = rqw.MdDatum(m, crs_uuid = m.crs_uuid, location = tuple(loc), md_reference = 'kelly bushing', title = 'd')
    d.create_xml()
    m2 = _reopen(c, m)
    d2 = rqw.MdDatum(m2, uuid = d.uuid)
    for i in range(3):
        c.close(f'location {i}', d2.location[i], loc[i], 1.0e-6)
    c.same('reference', d2.md_reference, 'kelly bushing')
    c.check('crs', bu.matching_uuids(d2.crs_uuid, m.crs_uuid))


def _datum(c, m):
    d = rqw.MdDatum(m, crs_uuid = m.crs_uuid, location = (1.0, 2.0, 3.0), md_reference = 'mean sea level')
    d.create_xml()
    return d


def _traj(c, m, n = 3, concrete = False):
    d = _datum(c, m)
    if concrete:
        mds = np.array([100.0 * x for x in range(n)])
        p = np.array([(1.0, 2.0, 3.0 + 100.0 * x) for x in range(n)])
    else:
        mds = c.reals('md', n, 0, 10000)
        for i in range(n - 1):
            c.assume(mds[i + 1] >= mds[i] + 1)
        p = c.reals('cp', (n, 3), LO, HI)
    t = rqw.Trajectory(m, md_datum = d, mds = mds, control_points = p, length_uom = 'm', well_name = 'w',
                       set_tangent_vectors = False)
    _store(t)
    return t, mds, p


@case('C07', bounds = '3 stations')
def trajectory(c):
    m = _model(c)
    t, mds, p = _traj(c, m)
    m2 = _reopen(c, m)
    t2 = rqw.Trajectory(m2, uuid = t.uuid, set_tangent_vectors = False)
    c.same('knots', t2.knot_count, 3)
    c.same('mds', t2.measured_depths, mds)
    c.same('points', t2.control_points, p)
    c.close('start', t2.start_md, mds[0], 1.0e-6)
    c.close('finish', t2.finish_md, mds[2], 1.0e-6)
    c.same('uom', t2.md_uom, 'm')
    c.same('line kind', t2.line_kind_index, t.line_kind_index)
    c.check('datum', bu.matching_uuids(t2.md_datum.uuid, t.md_datum.uuid))
    c.check('crs', bu.matching_uuids(t2.crs_uuid, m.crs_uuid))


@case('C07', bounds = '3 stations', params = [dict(uom = 'dega'), dict(uom = 'rad')])
def deviation_survey(c, uom):
    m = _model(c)
    import resqpy.organize as rqo
    wf = rqo.WellboreFeature(m, feature_name = 'w')
    wf.create_xml()
    wi = rqo.WellboreInterpretation(m, wellbore_feature = wf, is_drilled = True)
    wi.create_xml()
    d = _datum(c, m)
    mds = c.reals('md', 3, 0, 10000)
    az, inc = c.reals('az', 3, 0, 360), c.reals('inc', 3, 0, 180)
    first = c.reals('first', 3, LO, HI)
    final = c.bool('final')
    s = rqw.DeviationSurvey(m, md_datum = d, md_uom = 'ft', angle_uom = uom, represented_interp = wi, measured_depths = mds, azimuths = az,
                            inclinations = inc, first_station = tuple(first), is_final = c.fix(final), title = 'dev')
    _store(s)
    m2 = _reopen(c, m)
    s2 = rqw.DeviationSurvey(m2, uuid = s.uuid)
    c.same('mds', s2.measured_depths, mds)
    c.same('azimuths', s2.azimuths, az)
    c.same('inclinations', s2.inclinations, inc)
    for i in range(3):
        c.close(f'first {i}', s2.first_station[i], first[i], 1.0e-6)
    c.same('final', bool(s2.is_final), final)
    c.same('md uom', s2.md_uom, 'ft')
    c.same('angle uom', bool(s2.angles_in_degrees), uom == 'dega')
    c.check('interpretation', s2.wellbore_interpretation is not None and
            bu.matching_uuids(s2.wellbore_interpretation.uuid, wi.uuid))
    c.same('count', s2.station_count, 3)
    c.check('datum', s2.md_datum is not None and bu.matching_uuids(s2.md_datum.uuid, d.uuid))


@case('C07', bounds = '3 nodes')
def wellbore_frame(c):
    m = _model(c)
    t, _, _ = _traj(c, m, concrete = True)
    mds = c.reals('n', 3, 0, 200)
    w = rqw.WellboreFrame(m, trajectory = t, mds = mds, title = 'frame')
    _store(w)
    m2 = _reopen(c, m)
    w2 = rqw.WellboreFrame(m2, uuid = w.uuid)
    c.same('mds', w2.node_mds, mds)
    c.same('count', w2.node_count, 3)
    c.check('trajectory', bu.matching_uuids(w2.trajectory.uuid, t.uuid))


def _grid(m, nk = 2, nj = 2, ni = 3, **k):
    g = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = (10.0, 10.0, 5.0), crs_uuid = m.crs_uuid, title = 'g', **k)
    g.create_xml()
    return g


@case('C07', bounds = '2 to 4 intervals, which are blocked symbolic; any cells; any face in one place',
      params = [dict(n = 2, slot = 0), dict(n = 2, slot = 3), dict(n = 3, slot = 1), dict(n = 4, slot = 2, _tier = 'thorough')])
def blocked_well(c, n, slot):
    m = _model(c)
    g = _grid(m)
    t, _, _ = _traj(c, m, concrete = True)
    mds = c.reals('n', n + 1, 0, 200)
    b = c.bools('blocked', n)
    bl = [bool(c.fix(b[i])) for i in range(n)]
    k = sum(bl)
    c.assume(k > 0)
    cells = c.ints('cell', k, 0, 11)
    fp = c.array(np.array([((0, 0), (2, 1)), ((1, 1), (0, 1)), ((1, 0), (-1, -1))], dtype = np.int8)[:k])
    fs = c.ints('face', 2, -1, 2)  # one entry is symbolic
    c.assume(c.And(fs[1] <= 1, c.Iff(fs[0] < 0, fs[1] < 0)))
    fp[slot // 2 % k, slot % 2] = fs
    w = rqw.BlockedWell(m, well_name = 'bw')
    w.trajectory = t
    w.grid_list = [g]
    w.node_count = n + 1
    w.node_mds = mds
    w.cell_count = k
    w.cell_indices = cells
    gi = np.array([0 if x else -1 for x in bl], dtype = np.int32)
    w.grid_indices = gi
    w.face_pair_indices = fp
    _store(w)
    m2 = _reopen(c, m)
    w2 = rqw.BlockedWell(m2, uuid = w.uuid)
    c.same('cells', w2.cell_indices, cells)
    c.same('mds', w2.node_mds, mds)
    c.same('grids', list(w2.grid_indices), list(gi))
    c.same('cell count', w2.cell_count, k)
    c.same('node count', w2.node_count, n + 1)
    c.same('faces', w2.face_pair_indices, fp)
    kji = w2.cell_indices_kji0()
    where = [i for i in range(n) if bl[i]]
    for i in range(k):
        c.same(f'flat {i}', (kji[i, 0] * 2 + kji[i, 1]) * 3 + kji[i, 2], cells[i])
        c.check(f'in range {i}', c.And(kji[i, 1] >= 0, kji[i, 1] < 2, kji[i, 2] >= 0, kji[i, 2] < 3))
        a, z = w2.entry_and_exit_mds(i)
        c.same(f'entry {i}', a, mds[where[i]])
        c.same(f'exit {i}', z, mds[where[i] + 1])
        c.same(f'interval {i}', w2.interval_for_cell(i), where[i])


@case('C07', bounds = '3 connections, any cells, faces and features', params = [dict(feat = 1), dict(feat = 2)])
def connection_set(c, feat):
    m = _model(c)
    g = _grid(m)
    n = 3
    s = rqf.GridConnectionSet(m, grid = g, title = 'gcs')
    import resqpy.organize as rqo
    fl = []
    for i in range(feat):
        f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = f'f{i}')
        f.create_xml()
        fi = rqo.FaultInterpretation(m, title = f'f{i}', tectonic_boundary_feature = f, is_normal = True)
        fi.create_xml()
        fl.append(('obj_FaultInterpretation', fi.uuid, f'f{i}'))
    cells, faces = c.ints('cell', (n, 2), -1, 11), c.ints('face', (n, 2), -1, 5)
    feats = c.ints('feat', n, 0, feat - 1)
    s.count = n
    s.cell_index_pairs = cells
    s.face_index_pairs = faces
    s.feature_indices = feats
    s.feature_list = fl
    _store(s)
    m2 = _reopen(c, m)
    s2 = rqf.GridConnectionSet(m2, uuid = s.uuid)
    s2.cache_arrays()
    c.same('count', s2.count, n)
    c.same('cells', s2.cell_index_pairs, cells)
    c.same('faces', s2.face_index_pairs, faces)
    c.same('features', s2.feature_indices, feats)
    c.same('names', s2.list_of_feature_names(), [f'f{i}' for i in range(feat)])
    c.check('grid', len(s2.grid_list) == 1 and bu.matching_uuids(s2.grid_list[0].uuid, g.uuid))


@case('C07', bounds = 'any origin and cell sizes')
def regular_grid(c):
    base = (1000.0, 2000.0, 300.0)
    m = _model(c, x_offset = base[0], y_offset = base[1], z_offset = base[2])
    o = c.reals('o', 3, LO, HI)
    dd = c.reals('d', 3, 1, 100)
    g = grr.RegularGrid(m, dxyz = tuple(dd), extent_kji = (2, 3, 4), origin = tuple(o), crs_uuid = m.crs_uuid, title = 'g')
    g.create_xml()
    m2 = _reopen(c, m)
    g2 = m2.grid(uuid = g.uuid)
    c.same('extent', list(g2.extent_kji), [2, 3, 4])
    # the origin of a regular grid is held by a crs of its own
    off = (g2.crs.x_offset, g2.crs.y_offset, g2.crs.z_offset)
    p = g2.points_ref(masked = False)
    for i in range(3):
        c.close(f'origin {i}', g2.block_origin[i] + off[i], base[i] + o[i], 1.0e-3)
        for j in range(3):
            c.close(f'step {j} {i}', g2.block_dxyz_dkji[j, i], dd[i] if j == 2 - i else 0, 1.0e-3)
        c.close(f'far {i}', p[2, 3, 4, i] + off[i], base[i] + o[i] + (4, 3, 2)[i] * dd[i], 1.0e-2)


@case('C07', bounds = 'any origin, fixed cell sizes', params = [dict(base = 0), dict(base = 1000)])
def regular_grid_before_storing(c, base):
    m = _model(c, x_offset = base, y_offset = base)
    o = c.reals('o', 3, LO, HI)
    g = grr.RegularGrid(m, dxyz = (10.0, 20.0, 5.0), extent_kji = (1, 2, 1), origin = tuple(o), crs_uuid = m.crs_uuid)
    g.create_xml()
    m2 = _reopen(c, m)
    g2 = m2.grid(uuid = g.uuid)
    p, q = g2.points_ref(masked = False), g.points_ref(masked = False)
    for i in range(3):
        a, b = ((x.crs.x_offset, x.crs.y_offset, x.crs.z_offset)[i] for x in (g, g2))
        c.close(f'global points before storing {i}', q[1, 2, 1, i] + a, p[1, 2, 1, i] + b, 1.0e-2)


def _irregular(m, nk, nj, ni, kgap = False, split = False):
    g = grr.Grid(m, title = 'grid')
    g.grid_representation = 'IjkGrid'
    g.nk, g.nj, g.ni = nk, nj, ni
    g.extent_kji = np.array((nk, nj, ni), dtype = int)
    g.k_direction_is_down = True
    g.pillar_shape = 'curved'
    g.grid_is_right_handed = False
    g.crs_uuid = m.crs_uuid
    g.crs = rqc.Crs(m, uuid = m.crs_uuid)
    g.has_split_coordinate_lines = split
    g.geometry_defined_for_all_pillars_cached = True
    g.geometry_defined_for_all_cells_cached = True
    if kgap:
        g.k_gaps = 1
        g.k_gap_after_array = np.array([True] + [False] * (nk - 2), dtype = bool)
        g._set_k_raw_index_array()
    return g


@case('C07', bounds = '2 x 1 x 2 cells; any points, inactive cells, undefined flags',
      params = [dict(kind = x) for x in ('plain', 'flags', 'pillars', 'split', 'kgap', 'both', 'lines')])
def irregular_grid(c, kind):
    m = _model(c)
    nk, nj, ni = (3, 1, 2) if kind in ('kgap', 'both') else (2, 1, 2)
    g = _irregular(m, nk, nj, ni, kind in ('kgap', 'both'), kind in ('split', 'both'))
    npl = (nj + 1) * (ni + 1)
    kp = g.nk_plus_k_gaps + 1
    if kind in ('split', 'both'):
        p = c.reals('p', (kp, npl + 2, 3), LO, HI)
        pil = c.ints('pillar', 2, 0, npl - 1)
        g.split_pillar_indices_cached = pil
        g.cols_for_split_pillars = np.array([0, 1], dtype = int)
        g.cols_for_split_pillars_cl = np.array([1, 2], dtype = int)
        g.split_pillars_count = 2
    else:
        p = c.reals('p', (kp, nj + 1, ni + 1, 3), LO if kind != 'lines' else -100, HI if kind != 'lines' else 100)
    if kind == 'lines':
        # straight pillars, in one of three forms, with layers of given relative thickness
        for j in range(nj + 1):
            for i in range(ni + 1):
                c.assume(p[2, j, i, 2] >= p[0, j, i, 2] + 1)
                for x in range(3):
                    c.assume(p[1, j, i, x] * 4 == p[0, j, i, x] * 3 + p[2, j, i, x])
    g.points_cached = p
    if kind == 'flags':
        act = c.bools('inactive', (nk, nj, ni))
        cd = c.bools('defined', (nk, nj, ni))
        g.inactive = act
        g.array_cell_geometry_is_defined = cd
        g.geometry_defined_for_all_cells_cached = False
    if kind == 'pillars':
        pd = c.bools('pdef', (nj + 1, ni + 1))
        g.array_pillar_geometry_is_defined = pd
        g.geometry_defined_for_all_pillars_cached = False
    kw = dict(use_parametric_lines = True) if kind == 'lines' else {}
    g.write_hdf5(**kw)
    g.create_xml(write_geometry = True, write_active = True if kind == 'flags' else None, **kw)
    m2 = _reopen(c, m)
    g2 = m2.grid(uuid = g.uuid)
    c.same('extent', list(g2.extent_kji), [nk, nj, ni])
    q = g2.points_ref(masked = False)
    if kind == 'lines':
        for i in np.ndindex(*p.shape):
            c.close(f'point {i}', q[i], p[i], 1.0e-3)
        c.same('shape', g2.pillar_shape, 'straight')
    else:
        c.same('points', q, p)
        c.same('shape', g2.pillar_shape, 'curved')
    c.same('split', bool(g2.has_split_coordinate_lines), kind in ('split', 'both'))
    c.same('handed', bool(g2.grid_is_right_handed), False)
    c.same('down', bool(g2.k_direction_is_down), True)
    if kind in ('split', 'both'):
        g2.cache_all_geometry_arrays()
        c.same('pillars', g2.split_pillar_indices_cached, pil)
        c.same('cols', list(g2.cols_for_split_pillars), [0, 1])
        c.same('cl', list(g2.cols_for_split_pillars_cl), [1, 2])
        c.same('count', g2.split_pillars_count, 2)
    if kind in ('kgap', 'both'):
        c.same('gaps', g2.k_gaps, 1)
        c.same('after', [bool(x) for x in g2.k_gap_after_array], [True, False])
        c.same('raw', list(g2.k_raw_index_array), [0, 2, 3])
    if kind == 'pillars':
        for i in np.ndindex(nj + 1, ni + 1):
            c.check(f'pillar {i}', c.Iff(g2.pillar_geometry_is_defined(i), pd[i]))
    if kind == 'flags':
        for i in np.ndindex(nk, nj, ni):
            c.check(f'defined {i}', c.Iff(g2.cell_geometry_is_defined(i), cd[i]))
        ina = g2.extract_inactive_mask()
        # an inactive mask holds the stored flags (cells without geometry are inactive too)
        for i in np.ndindex(nk, nj, ni):
            c.check(f'inactive {i}', c.Iff(ina[i], c.Or(act[i], c.Not(cd[i]))))


@case('C07', bounds = 'windows of given ratios',
      params = [dict(how = h) for h in ('refine const', 'refine vector', 'refine weights', 'refine both', 'coarsen const',
                                        'coarsen vector')])
def parent_window(c, how):
    import resqpy.olio.fine_coarse as rqfc
    m = _model(c)
    parent = _irregular(m, 3, 4, 4)
    parent.points_cached = np.zeros((4, 5, 5, 3))
    parent.write_hdf5()
    parent.create_xml()
    start = c.ints('start', 3, 0, 1)
    k0, j0, i0 = (c.fix(x) for x in start)
    a, b = c.int('a', 1, 3), c.int('b', 1, 3)
    w = c.reals('w', 2, 0.1, 0.9)
    if how.startswith('refine'):
        coarse = (2, 2, 3)
        box = np.array([(k0, j0, i0), (k0 + 1, j0 + 1, i0 + 2)], dtype = int)
        ratios = [2, (c.fix(a), c.fix(b)), 1]
        if how == 'refine const':
            ratios[1] = c.fix(a)
        fine = (4, sum(ratios[1]) if how != 'refine const' else 2 * ratios[1], 3)
        c.assume(fine[1] > 2)  # at least one cell is refined
        f = rqfc.FineCoarse(fine, coarse, within_coarse_box = box)
        f.set_constant_ratio(0)
        if how == 'refine const':
            f.set_constant_ratio(1)
        else:
            f.set_ratio_vector(1, np.array(ratios[1], dtype = int))
        f.set_constant_ratio(2)
        f.set_all_proprtions_equal() if hasattr(f, 'set_all_proprtions_equal') else f.set_all_proportions_equal()
        if how in ('refine weights', 'refine both'):
            f.set_proportions_list_of_vectors(0, [c.array([w[0], 1 - w[0]]), c.array([w[1], 1 - w[1]])])
    else:
        fine_e = (2, 3, 4)
        if how == 'coarsen const':
            coarse, vec = (2, 3, 2), None
        else:
            n = c.fix(a)
            coarse, vec = (2, 3, 2), (n, 4 - n)
        box = np.array([(k0, j0, 0), (k0 + 1, j0 + 2, 3)], dtype = int)
        f = rqfc.FineCoarse(fine_e, coarse, within_fine_box = box)
        f.set_constant_ratio(0)
        f.set_constant_ratio(1)
        if vec is None:
            f.set_constant_ratio(2)
        else:
            f.set_ratio_vector(2, np.array(vec, dtype = int))
        f.set_all_proportions_equal()
        fine = coarse
    g = _irregular(m, *fine)
    g.points_cached = np.zeros((fine[0] + 1, fine[1] + 1, fine[2] + 1, 3))
    g.set_parent(parent.uuid, how.startswith('refine'), f)
    g.write_hdf5()
    g.create_xml()
    m2 = _reopen(c, m)
    g2 = m2.grid(uuid = g.uuid)
    c.check('parent', bu.matching_uuids(g2.parent_grid_uuid, parent.uuid))
    c.same('refinement', bool(g2.is_refinement), how.startswith('refine'))
    f2 = g2.parent_window
    c.same('fine extent', list(f2.fine_extent_kji), list(f.fine_extent_kji))
    c.same('coarse extent', list(f2.coarse_extent_kji), list(f.coarse_extent_kji))
    b2 = f2.within_coarse_box if how.startswith('refine') else f2.within_fine_box
    c.same('box', b2.tolist(), box.tolist())
    for axis in range(3):
        for k in range(f.coarse_extent_kji[axis]):
            c.same(f'ratio {axis} {k}', f2.ratio(axis, k), f.ratio(axis, k))
            p1, p2 = f.proportion(axis, k), f2.proportion(axis, k)
            for x in range(f.ratio(axis, k)):
                c.close(f'weight {axis} {k} {x}', p2[x], p1[x], 1.0e-6)
