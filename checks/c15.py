"""C15: wells: paths, blocked wells and completion data."""
from symx.run import case
import math
import os
import numpy as np
import pandas as pd
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.olio.wellspec_keywords as wsk
import resqpy.organize as rqo
import resqpy.property as rqp
import resqpy.well as rqw
import resqpy.well.well_utils as rqwu
import resqpy.grid_surface as rgs
from checks.c11 import Geom
from checks.c08 import _model, _reopen, _grid

META = dict(
    title = 'Well paths, blocked wells and completions follow the survey and the cells met',
    statement = 'A trajectory computed from a deviation survey, control points or cells passes through the positions those '
    'define, and the point, inclination and frame interval found for a measured depth lie on it. A blocked well lists the cells '
    'asked for, or met by the trajectory, in order with the faces crossed and measured depths entered and left, and its lengths, '
    'fractions, kh, skin and other properties, tables and simulator well files follow from those intervals.',
    text = 'any measured depths, control points, survey stations and queries; any cells, active flags, perforations, frame '
    'intervals and layer depths in grids of a few cells',
    why = 'wells meet cells, knots, frame intervals and perforations in any order, with ends that coincide; tests use a few wells',
    files = ['resqpy/well', 'resqpy/olio/wellspec_keywords.py', 'resqpy/grid_surface/_blocked_well_populate.py',
             'resqpy/grid_surface/_trajectory_intersects.py'],
    mechanism = [('Trajectory', 'resqpy/well/_trajectory.py'),
                 ('BlockedWell', 'resqpy/well/_blocked_well.py'),
                 ('wellbore frame contributions', 'resqpy/well/blocked_well_frame.py'),
                 ('WELLSPEC tables', 'resqpy/olio/wellspec_keywords.py'),
                 ('blocking of a trajectory', 'resqpy/grid_surface/_blocked_well_populate.py')],
    observe = ['arrays, dataframes, files and points returned for a well'],
    note = 'wells of up to 4 knots, 4 cells and 4 frame intervals; survey angles from a list; trajectories blocked in grids of '
    'up to 3 layers; reals idealised')


def _datum(m, loc = (0.0, 0.0, 0.0), store = True):
    d = rqw.MdDatum(m, crs_uuid = m.crs_uuid, location = loc, md_reference = 'kelly bushing')
    if store:
        d.create_xml()
    return d


def _traj(m, mds, points, datum = None, store = False, **k):
    k.setdefault('length_uom', 'm')
    t = rqw.Trajectory(m, md_datum = datum or _datum(m), mds = mds, control_points = points, well_name = 'w', **k)
    if store:
        t.write_hdf5()
        t.create_xml()
    return t


def _increasing(c, name, n, lo = 0, hi = 1000, step = 1):
    a = c.reals(name, n, lo, hi)
    for x in range(n - 1):
        c.assume(a[x + 1] >= a[x] + step)
    return a


@case('C15', bounds = 'any 3 or 4 increasing measured depths; any depths of the points; any query depth',
      params = [dict(n = 3, datum = 0), dict(n = 3, datum = 1), dict(n = 4, datum = 0, _tier = 'thorough')])
def point_for_md(c, n, datum):
    m = _model(c)
    mds = _increasing(c, 'md', n, 5 if datum else 0, 100)
    if not datum:
        c.assume(mds[0] == 0.0)
    z = c.reals('z', n, -50, 50)
    p = c.zeros((n, 3))
    for x in range(n):
        p[x] = (2.0 * x, 3.0 * x * x, z[x])
    d = _datum(m, (7.0, 8.0, -9.0) if datum else tuple(p[0]))
    t = _traj(m, mds.copy(), p.copy(), d)
    q = c.real('query', -10, 120)
    r = t.xyz_for_md(q)
    if c.fix(c.Or(q < 0.0, q > mds[n - 1])):
        c.check('outside', r is None)
        return
    c.check('found', r is not None)
    if r is None:
        return
    if datum and c.fix(q < mds[0]):
        a, b, ma, mb = c.array([7.0, 8.0, -9.0]), p[0], 0.0, mds[0]
    else:
        for x in range(n - 1):
            if c.fix(q <= mds[x + 1]):
                break
        a, b, ma, mb = p[x], p[x + 1], mds[x], mds[x + 1]
    for e in range(3):
        c.close(f'coordinate {e}', (r[e] - a[e]) * (mb - ma), (b[e] - a[e]) * (q - ma))
    r[:] = 1234.5
    for x in range(n):
        c.close(f'trajectory unchanged {x}', t.control_points[x, 2], z[x])


_DIRS = [(0.0, 0.0), (10.0, 0.0), (10.0, 90.0), (0.0, 45.0), (90.0, 300.0), (60.0, 45.0), (90.0, 120.0), (120.0, 200.0)]


def _dir_vec(incl, az):
    i, a = math.radians(incl), math.radians(az)
    return (math.sin(i) * math.sin(a), math.sin(i) * math.cos(a), math.cos(i))


@case('C15', bounds = 'any first station, any increasing depths, 8 directions at each of 3 stations',
      params = [dict(first = f, uom = u) for u in ('dega', 'rad') for f in range(8)])
def survey(c, first, uom):
    m = _model(c)
    mds = _increasing(c, 'md', 3, 0, 1000)
    loc = c.reals('first', 3, -100, 100)
    second = c.fix(c.int('second', 0, 7))
    third = c.fix(c.choice('third', [0, 3, 5, 7]))
    dirs = [_DIRS[first], _DIRS[second], _DIRS[third]]
    f = 1.0 if uom == 'dega' else math.pi / 180.0
    s = rqw.DeviationSurvey(m, md_datum = _datum(m), md_uom = 'm', angle_uom = uom, measured_depths = mds.copy(), title = 's',
                            azimuths = np.array([x[1] * f for x in dirs]), inclinations = np.array([x[0] * f for x in dirs]),
                            first_station = tuple(loc))
    t = rqw.Trajectory(m, deviation_survey = s, well_name = 'w')
    c.same('knots', t.knot_count, 3)
    c.close('start', t.start_md, mds[0])
    c.close('finish', t.finish_md, mds[2])
    q = list(loc)
    for x in range(3):
        c.close(f'md {x}', t.measured_depths[x], mds[x])
        if x:
            a, b = _dir_vec(*dirs[x - 1]), _dir_vec(*dirs[x])
            th = math.acos(min(1.0, max(-1.0, sum(a[e] * b[e] for e in range(3)))))
            rf = 0.5 if th < 1.0e-7 else math.tan(0.5 * th) / th
            q = [q[e] + (mds[x] - mds[x - 1]) * (rf * (a[e] + b[e])) for e in range(3)]
        for e in range(3):
            c.close(f'point {x} {e}', t.control_points[x, e], q[e], 1.0e-4)


@case('C15', bounds = 'any interval vectors in a vertical plane; z up or down; feet or metres',
      params = [dict(down = d, z_units = u) for d in (True, False) for u in ('m', 'ft')])
def inclination_of_intervals(c, down, z_units):
    m = _model(c, z_inc_down = down, xy_units = 'm', z_units = z_units)
    h, v = c.reals('h', 2, -40, 40), c.reals('v', 2, -40, 40)
    p = c.zeros((3, 3))
    for x in range(2):
        c.assume(c.Or(h[x] >= 0.5, h[x] <= -0.5, v[x] >= 0.5, v[x] <= -0.5))
        p[x + 1] = p[x]
        p[x + 1, 0] = p[x, 0] + h[x] * 3.0
        p[x + 1, 1] = p[x, 1] - h[x] * 4.0
        p[x + 1, 2] = p[x, 2] + v[x]
    t = _traj(m, np.array([0.0, 10.0, 20.0]), p.copy())
    r = t.inclinations()
    f = (1.0 if down else -1.0) * (0.3048 if z_units == 'ft' else 1.0)
    for x in range(2):
        k = c.cos(r[x] * math.pi / 180)
        n2 = 25.0 * h[x] * h[x] + f * f * v[x] * v[x]
        c.check(f'range {x}', c.And(r[x] >= 0.0, r[x] <= 180.0 + 1.0e-6))
        c.close(f'squared {x}', k * k * n2, f * f * v[x] * v[x], 1.0e-3)
        c.le(f'sense {x}', 0.0, k * f * v[x], 1.0e-4)
    for x in range(3):
        c.close(f'unchanged {x}', t.control_points[x, 2], p[x, 2])


@case('C15', bounds = '4 stations, any values', params = [dict(how = h) for h in ('frame', 'csv', 'space')])
def trajectory_table(c, how):
    m = _model(c)
    mds = _increasing(c, 'md', 4)
    if how == 'frame':
        p = c.reals('p', (4, 3), -100, 100)
    else:
        p = c.zeros((4, 3))
        for x in range(4):
            p[x] = (2.5 * x, 100.25 - x * x, 30.0 + x)
        p[1, 0], p[2, 1], p[3, 2] = c.reals('p', 3, -100, 100)
    t = _traj(m, mds.copy(), p.copy(), length_uom = 'ft')
    names = dict(md_col = 'A', x_col = 'B', y_col = 'C', z_col = 'D')
    if how == 'frame':
        t2 = rqw.Trajectory(m, md_datum = t.md_datum, data_frame = t.dataframe(), length_uom = 'ft', well_name = 'u')
        df = t.dataframe(md_col = None, x_col = 'P')
        c.same('columns', list(df.columns), ['P', 'Y', 'Z'])
        for x in range(4):
            c.close(f'P {x}', df['P'][x], p[x, 0])
    else:
        f = os.path.join(c.tmpdir, 't.txt')
        t.write_to_ascii_file(f, space_separated_instead_of_csv = how == 'space')
        t2 = rqw.Trajectory(m, md_datum = t.md_datum, ascii_trajectory_file = f, length_uom = 'ft', well_name = 'u',
                            survey_file_space_separated = how == 'space')
        t.write_to_ascii_file(f, space_separated_instead_of_csv = how == 'space', **names)
        t3 = rqw.Trajectory(m, md_datum = t.md_datum, well_name = 'v')
        t3.load_from_ascii_file(f, space_separated_instead_of_csv = how == 'space', md_uom = 'm', set_tangent_vectors = False,
                                **names)
        c.same('uom 3', t3.md_uom, 'm')
        for x in range(4):
            c.close(f'3 md {x}', t3.measured_depths[x], mds[x])
            c.close(f'3 y {x}', t3.control_points[x, 1], p[x, 1])
    c.same('uom', t2.md_uom, 'ft')
    c.same('knots', t2.knot_count, 4)
    c.close('start', t2.start_md, mds[0])
    c.close('finish', t2.finish_md, mds[3])
    for x in range(4):
        c.close(f'md {x}', t2.measured_depths[x], mds[x])
        for e in range(3):
            c.close(f'point {x} {e}', t2.control_points[x, e], p[x, e])


@case('C15', bounds = 'vertical or horizontal intervals of any length')
def measured_depths_from_points(c):
    m = _model(c)
    d = c.reals('d', 3, 1, 50)
    axes = [c.fix(c.int(f'axis {x}', 0, 2)) for x in range(3)]
    p = c.zeros((4, 3))
    for x in range(3):
        p[x + 1] = p[x]
        p[x + 1, axes[x]] = p[x, axes[x]] + d[x] * (1.0 if x != 1 else -1.0)
    t = _traj(m, np.array([10.0, 11.0, 12.0, 13.0]), p)
    r = t.set_measured_depths()
    want = 10.0
    for x in range(4):
        if x:
            want = want + d[x - 1]
        c.close(f'md {x}', r[x], want)
    c.close('finish', t.finish_md, want)


@case('C15', bounds = 'any 4 increasing depths of nodes, any query')
def frame_interval(c):
    m = _model(c)
    t = _traj(m, np.array([0.0, 500.0]), np.array([(0.0, 0.0, 0.0), (0.0, 0.0, 500.0)]), store = True)
    mds = _increasing(c, 'md', 4, 0, 400)
    w = rqw.WellboreFrame(m, trajectory = t, mds = mds.copy(), title = 'f')
    q = c.real('query', -10, 420)
    i, f = w.interval_for_md(q)
    i = c.fix(i) if c.symbolic else int(i)
    if c.fix(q < mds[0]):
        c.same('before', i, -1)
        c.close('before fraction', f, 0.0)
    elif c.fix(q > mds[3]):
        c.same('after', i, -1)
        c.close('after fraction', f, 1.0)
    else:
        c.check('interval', 0 <= i < 3)
        if 0 <= i < 3:
            c.check('within', c.And(q >= mds[i], q <= mds[i + 1]))
            c.close('fraction', f * (mds[i + 1] - mds[i]), q - mds[i])


def _blocked(m, g, node_mds, gi, cells, faces = None, store = False, end = 500.0, title = 'bw'):
    t = _traj(m, np.array([0.0, end]), np.array([(15.0, 5.0, 0.0), (15.0, 5.0, end)]), store = True)
    b = rqw.BlockedWell(m, well_name = title)
    b.trajectory = t
    b.node_count = len(node_mds)
    b.node_mds = c_array(node_mds)
    b.grid_indices = np.array(gi, dtype = int)
    b.cell_count = sum(1 for x in gi if x >= 0)
    b.cell_indices = np.array(cells, dtype = int)
    b.face_pair_indices = np.array(faces if faces is not None else [((0, 0), (0, 1))] * b.cell_count, dtype = np.int8)
    b.grid_list = g if isinstance(g, list) else [g]
    if store:
        b.write_hdf5()
        b.create_xml()
    return b


def c_array(a):
    return np.array(a)


@case('C15', bounds = 'intervals of cells, blocked or not; any cells of two grids', params = [dict(n = 3), dict(n = 4)])
def blocked_well_views(c, n):
    m = _model(c)
    ga = grr.RegularGrid(m, extent_kji = (3, 2, 2), dxyz = (10.0, 10.0, 5.0), crs_uuid = m.crs_uuid, title = 'a')
    gb = grr.RegularGrid(m, extent_kji = (2, 3, 2), dxyz = (10.0, 10.0, 5.0), crs_uuid = m.crs_uuid, title = 'b')
    ga.create_xml()
    gb.create_xml()
    gi = [c.fix(c.int(f'grid {x}', -1, 1)) for x in range(n)]
    c.assume(max(gi) >= 0)
    mds = _increasing(c, 'md', n + 1)
    on = [x for x in range(n) if gi[x] >= 0]
    nat = [c.int(f'cell {x}', 0, 11) for x in on]
    b = _blocked(m, [ga, gb], mds, gi, [0] * len(on))
    b.cell_indices = c.array(nat) if not c.symbolic else c.array(nat)
    c.same('map', list(b.map_cell_and_grid_indices()), [on.index(x) if gi[x] >= 0 else -1 for x in range(n)])
    c.same('compressed', [int(x) for x in b.compressed_grid_indices()], [gi[x] for x in on])
    c.same('grids', b.number_of_grids(), 2)
    for i, x in enumerate(on):
        c.same(f'interval {i}', int(b.interval_for_cell(i)), x)
        e, l = b.entry_and_exit_mds(i)
        c.close(f'entry {i}', e, mds[x])
        c.close(f'exit {i}', l, mds[x + 1])
    cells, grids = b.cell_indices_and_grid_list()
    kji = []
    for i, x in enumerate(on):
        g = (ga, gb)[gi[x]]
        c.check(f'grid of cell {i}', grids[i] is g)
        kji.append(cells[i])
        c.same(f'natural {i}', (cells[i][0] * g.nj + cells[i][1]) * g.ni + cells[i][2], nat[i])
        for a in range(3):
            c.check(f'within {i} {a}', c.And(cells[i][a] >= 0, cells[i][a] < g.extent_kji[a]))
    for w, g in enumerate((ga, gb)):
        mine = [i for i, x in enumerate(on) if gi[x] == w]
        sel = b.cell_indices_for_grid_uuid(g.uuid)
        c.same(f'cells for grid {w}', len(sel), len(mine))
        for s, i in enumerate(mine):
            for a in range(3):
                c.same(f'cell {w} {s} {a}', sel[s][a], kji[i][a])
        box = b.box(g.uuid)
        if not mine:
            c.check(f'no box {w}', box is None)
        else:
            for a in range(3):
                c.check(f'box {w} {a}', c.And(c.Or(*[box[0][a] == kji[i][a] for i in mine]), c.Or(*[box[1][a] == kji[i][a] for i in mine]),
                                              *[c.And(box[0][a] <= kji[i][a], box[1][a] >= kji[i][a]) for i in mine]))
    q = c.real('query', -10, 1010)
    ci, f = b.wb_cell_for_md(q)
    if c.fix(c.Or(q < mds[0], q > mds[n])):
        c.same('outside', int(ci), -1)
    else:
        for x in range(n):
            if c.fix(q <= mds[x + 1]):
                break
        c.same('cell for md', int(ci), on.index(x) if gi[x] >= 0 else -1)
        c.close('fraction', f * (mds[x + 1] - mds[x]), q - mds[x])


@case('C15', bounds = 'any depths of cells and of frame nodes', params = [dict(hole = h, n = n) for h in (False, True) for n in (2, 3)])
def frame_contributions(c, hole, n):
    m = _model(c)
    g = grr.RegularGrid(m, extent_kji = (4, 1, 1), dxyz = (10.0, 10.0, 5.0), crs_uuid = m.crs_uuid, title = 'a')
    g.create_xml()
    gi = [0, -1, 0] if hole else [0, 0]
    mds = _increasing(c, 'md', len(gi) + 1, 0, 400)
    on = [x for x in range(len(gi)) if gi[x] >= 0]
    b = _blocked(m, g, mds, gi, list(range(len(on))))
    fds = _increasing(c, 'fd', n + 1, 0, 400)
    w = rqw.WellboreFrame(m, trajectory = b.trajectory, mds = fds.copy(), title = 'f')
    r = b.frame_contributions_list(w)
    c.same('cells', len(r), len(on))
    for s, x in enumerate(on):
        seen = [e[0] for e in r[s]]
        c.check(f'order {s}', all(seen[e + 1] == seen[e] + 1 for e in range(len(seen) - 1)))
        for f in range(n):
            if f in seen:
                _, of_frame, of_cell = r[s][seen.index(f)]
                lo = fds[f] if c.fix(fds[f] >= mds[x]) else mds[x]
                hi = fds[f + 1] if c.fix(fds[f + 1] <= mds[x + 1]) else mds[x + 1]
                c.check(f'overlap {s} {f}', hi > lo)
                c.close(f'fraction of frame interval {s} {f}', of_frame * (fds[f + 1] - fds[f]), hi - lo)
                c.close(f'fraction of cell {s} {f}', of_cell * (mds[x + 1] - mds[x]), hi - lo)
            else:
                c.check(f'no overlap {s} {f}', c.Or(fds[f] >= mds[x + 1], fds[f + 1] <= mds[x]))


_FRAME_KINDS = [('active', True, None), ('wellbore radius', False, 'm'), ('well connection open', True, None),
                ('permeability length', False, 'mD.m'), ('skin', False, 'Euc'), ('length', False, 'm')]


@case('C15', bounds = 'cells of 5 or 10 m, frame intervals of 5 or 10 m at any of 4 offsets, any property values',
      params = [dict(first = f, nan = n, _tier = 'quick' if (f, n) in ((0.0, None), (10.0, 1), (15.0, 0), (25.0, None)) else 'thorough')
                for f in (0.0, 10.0, 15.0, 25.0) for n in (None, 0, 1)])
def frame_properties(c, first, nan):
    m = _model(c)
    g = grr.RegularGrid(m, extent_kji = (4, 1, 1), dxyz = (10.0, 10.0, 5.0), crs_uuid = m.crs_uuid, title = 'a')
    g.create_xml()
    mds = [10.0, 15.0, 25.0, 35.0]
    gi = [0, 0, -1] if c.fix(c.bool('hole at end')) else [0, -1, 0]
    on = [x for x in range(3) if gi[x] >= 0]
    b = _blocked(m, g, mds, gi, [0, 1], store = True)
    steps = [c.fix(c.choice(f'step {f}', [5.0, 10.0])) for f in range(3)]
    fds = [first]
    for s in steps:
        fds.append(fds[-1] + s)
    w = rqw.WellboreFrame(m, trajectory = b.trajectory, mds = np.array(fds), title = 'f')
    w.write_hdf5()
    w.create_xml()
    v = dict(active = [c.fix(c.bool(f'active {f}')) for f in range(3)])
    v['well connection open'] = [c.fix(c.bool(f'open {f}')) for f in range(2)] + [True]
    v['wellbore radius'] = c.reals('radius', 3, 0.1, 1)
    v['permeability length'] = c.reals('kh', 3, 0, 1000)
    v['skin'] = c.reals('skin', 3, -5, 5)
    v['length'] = [7.0, 8.0, 9.0]
    if nan is not None:
        for k in ('wellbore radius', 'permeability length', 'skin'):
            v[k] = [np.nan if f == nan else v[k][f] for f in range(3)]
    pc = w.extract_property_collection()
    for pk, discrete, uom in _FRAME_KINDS:
        a = np.array(v[pk], dtype = np.int8) if discrete else c.array(list(v[pk]))
        pc.add_cached_array_to_imported_list(a, 's', pk, discrete = discrete, property_kind = pk, uom = uom,
                                             indexable_element = 'intervals')
    pc.write_hdf5_for_imported_list()
    pc.create_xml_for_imported_list_and_add_parts_to_model()
    b.add_properties_from_wellbore_frame(frame_uuid = w.uuid, set_perforation_fraction = True, set_frame_interval = True)
    out = b.extract_property_collection(refresh = True)
    get = {out.property_kind_for_part(p): out.cached_part_array_ref(p) for p in out.parts()}
    c.same('kinds', len(get), 8)
    for s, x in enumerate(on):
        o = [max(0.0, min(fds[f + 1], mds[x + 1]) - max(fds[f], mds[x])) for f in range(3)]
        l = mds[x + 1] - mds[x]
        ao = [o[f] if v['active'][f] else 0.0 for f in range(3)]
        c.same(f'active {s}', bool(get['active'][s]), sum(ao) > 0.0)
        c.close(f'fraction {s}', get['perforation fraction'][s], sum(ao) / l)
        c.close(f'length {s}', get['length'][s], sum(ao))
        d = int(get['wellbore frame interval'][s])
        if sum(ao) > 0.0:
            c.check(f'dominant {s}', 0 <= d < 3 and ao[d] == max(ao))
        else:
            c.same(f'no dominant {s}', d, -1)
        c.same(f'open {s}', bool(get['well connection open'][s]), any(o[f] > 0.0 and v['well connection open'][f] for f in range(3)))
        ok = [f for f in range(3) if o[f] > 0.0 and f != nan]
        c.close(f'kh {s}', get['permeability length'][s], sum((v['permeability length'][f] * (o[f] / steps[f]) for f in ok), 0.0))
        r, k = get['wellbore radius'][s], get['skin'][s]
        if not ok:
            c.check(f'no radius {s}', np.isnan(r))
            c.check(f'no skin {s}', np.isnan(k))
        else:
            c.check(f'radius {s}', c.Or(*[abs(r - v['wellbore radius'][f]) < 1.0e-6 for f in ok]))
            for f in ok:
                c.le(f'greatest radius {s} {f}', v['wellbore radius'][f], r, 1.0e-6)
            c.close(f'skin {s}', k * sum(o[f] for f in ok), sum(v['skin'][f] * o[f] for f in ok), 1.0e-4)


def _face(cp, f):
    axis, pol = f
    s = [slice(None)] * 3
    s[axis] = pol
    q = cp[tuple(s)].reshape((4, 3))
    return [sum(q[x, e] for x in range(4)) / 4.0 for e in range(3)]


@case('C15', bounds = 'any 3 cells of a 3 x 2 x 2 grid', params = [dict(first = f, how = h) for f in range(3) for h in ('list', 'df', 'cols')])
def from_cells(c, first, how):
    m = _model(c)
    g = grr.RegularGrid(m, extent_kji = (3, 2, 2), dxyz = (10.0, 20.0, 5.0), origin = (0.0, 0.0, 100.0), crs_uuid = m.crs_uuid,
                        title = 'a')
    g.create_xml()
    cells = [(first, 1, 0)] + [tuple(c.fix(c.int(f'cell {x} {a}', 0, (2, 1, 1)[a])) for a in range(3)) for x in range(2)]
    b = rqw.BlockedWell(m, well_name = 'w')
    kji = np.array(cells, dtype = int)
    if how == 'list':
        b.derive_from_cell_list(kji, 'w', g)
    elif how == 'df':
        df = pd.DataFrame(dict(IW = kji[:, 2] + 1, JW = kji[:, 1] + 1, L = kji[:, 0] + 1))
        b.derive_from_dataframe(df, 'w', g)
    else:
        df = pd.DataFrame(dict(L = kji[:, 0] + 1, GRID = ['A', 'B', 'a'], IW = kji[:, 2] + 1, JW = kji[:, 1] + 1))
        b.derive_from_dataframe(df, 'w', g, grid_name_to_check = 'A')
        cells = [cells[0], cells[2]]
    n = len(cells)
    c.same('count', b.cell_count, n)
    for x in range(n):
        c.same(f'cell {x}', tuple(int(a) for a in b.cell_indices_kji0()[x]), cells[x])
    fp = b.face_pair_indices
    path = [None]
    gi, mds = [], [0.0]
    for x in range(n):
        if how != 'cols':
            for side, other in ((0, x - 1), (1, x + 1)):
                f = tuple(int(a) for a in fp[x, side])
                if 0 <= other < n:
                    mv = [cells[other][a] - cells[x][a] for a in range(3)]
                    if mv[1] == 0 and mv[2] == 0:
                        want = (0, 1 if mv[0] > 0 else (0 if mv[0] < 0 else side))
                    elif abs(mv[1]) > abs(mv[2]):
                        want = (1, 1 if mv[1] > 0 else 0)
                    else:
                        want = (2, 1 if mv[2] > 0 else (0 if mv[2] < 0 else None))
                    c.same(f'face {x} {side}', f, want)
        cp = g.corner_points(cells[x])
        e, l = _face(cp, fp[x, 0]), _face(cp, fp[x, 1])
        if x == 0:
            last = [e[0], e[1], 0.0]
        if math.dist(last, e) > 0.05:
            gi.append(-1)
            mds.append(mds[-1] + math.dist(last, e))
        gi.append(0)
        mds.append(mds[-1] + math.dist(e, l))
        last = l
        if b.node_count > len(gi):
            p = b.trajectory.xyz_for_md(b.node_mds[len(gi)])
            for a in range(3):
                c.close(f'exit {x} {a}', p[a], l[a])
    c.same('grid indices', [int(a) for a in b.grid_indices], gi)
    c.same('nodes', b.node_count, len(mds))
    if b.node_count == len(mds):
        for x in range(len(mds)):
            c.close(f'node {x}', b.node_mds[x], mds[x])


@case('C15', bounds = 'any pinched or inactive cells of a column of 4', params = [dict(skip = s) for s in (True, False)])
def for_column(c, skip):
    m = _model(c)
    z = [100.0]
    pinched = [c.fix(c.bool(f'pinched {k}')) for k in range(4)]
    dead = [c.fix(c.bool(f'inactive {k}')) for k in range(4)]
    want = [k for k in range(4) if not pinched[k] and not (skip and dead[k])]
    c.assume(len(want) > 0)
    t = c.reals('thickness', 4, 1, 20)
    for k in range(4):
        z.append(z[-1] + (0.0 if pinched[k] else t[k]))
    p = c.zeros((5, 2, 3, 3))
    for k in range(5):
        for x in range(6):
            p[k, x // 3, x % 3] = (10.0 * (x % 3), 10.0 * (x // 3), z[k])
    G = Geom(c, 4, 1, 2, points = lambda _: p)
    g = G.g
    g.inactive = np.array(dead).reshape((4, 1, 1)) | np.array([[[False, True]]] * 4)
    g.all_inactive = False
    b = rqw.BlockedWell(G.m, well_name = 'w')
    b.set_for_column('w', g, (0, 0), skip_inactive = skip)
    c.same('cells', [tuple(int(a) for a in x) for x in b.cell_indices_kji0()], [(k, 0, 0) for k in want])
    on = [x for x in range(len(b.grid_indices)) if b.grid_indices[x] >= 0]
    c.same('blocked intervals', len(on), len(want))
    for s, k in enumerate(want):
        if s < len(on):
            c.close(f'entry {k}', b.node_mds[on[s]], z[k], 0.06)
            c.close(f'exit {k}', b.node_mds[on[s] + 1], z[k + 1], 0.06)
            c.same(f'faces {k}', [int(a) for a in b.face_pair_indices[s].flatten()], [0, 0, 0, 1])


def _column_well(c, nk = 4, crs = {}, top = 100.0, active = None):
    m = _model(c, **crs)
    down = crs.get('z_inc_down', True)
    g = grr.RegularGrid(m, extent_kji = (nk, 1, 2), dxyz = (10.0, 20.0, 5.0 if down else -5.0),
                        origin = (0.0, 0.0, top if down else -top), crs_uuid = m.crs_uuid, title = 'a')
    g.create_xml()
    b = rqw.BlockedWell(m, well_name = 'w')
    b.set_for_column('w', g, (0, 1))
    if active is not None:
        g.inactive = np.array([[[False, not a]] for a in active])
        g.all_inactive = False
    return m, g, b


@case('C15', bounds = 'any 1 or 2 separate perforations, active flags, limits of layers and length',
      params = [dict(uom = u, limit = l, n = n) for u, l, n in (('m', None, 1), ('ft', None, 2), ('m', 'k', 1), ('ft', 'length', 1))] +
      [dict(uom = u, limit = l, n = 2, _tier = 'thorough') for u, l in (('m', 'k'), ('ft', 'length'))])
def dataframe_rows(c, uom, limit, n):
    active = [c.fix(c.bool(f'active {k}')) if n == 1 else k != 2 for k in range(3)]
    m, g, b = _column_well(c, 3, active = active)
    c.same('blocked', b.cell_count, 3)
    mds = [100.0, 105.0, 110.0, 115.0]
    for k in range(3):
        c.close(f'entry {k}', b.entry_and_exit_mds(k)[0], mds[k])
    perm = np.array([[[1.0, 10.0]], [[1.0, 25.0]], [[1.0, 40.0]]])
    pu = rqp.Property.from_array(m, perm, 's', 'perm', g.uuid, property_kind = 'permeability rock', uom = 'mD').uuid
    g.property_collection = None
    g.extract_property_collection()
    p = c.reals('perforation', 2 * n, 95, 120)
    for x in range(2 * n - 1):
        c.assume(p[x + 1] >= p[x] + 0.5)
    perfs = [(p[2 * x], p[2 * x + 1]) for x in range(n)]
    over, some = [], [False] * 3
    for k in range(3):
        t = 0.0
        for a, z in perfs:
            lo, hi = (a if c.fix(a > mds[k]) else mds[k]), (z if c.fix(z < mds[k + 1]) else mds[k + 1])
            if c.fix(hi > lo):
                some[k] = True
                t = t + (hi - lo)
                c.assume(hi - lo >= 0.05)
        over.append(t)
    f = 1.0 if uom == 'm' else 1.0 / 0.3048
    kw = {}
    keep = list(active)
    if limit == 'k':
        k0, k1 = ((0, 1), (1, 1), (1, 2), (2, 2))[c.fix(c.int('layers', 0, 3))]
        kw = dict(min_k0 = k0, max_k0 = k1)
        keep = [keep[k] and k0 <= k <= k1 for k in range(3)]
    elif limit == 'length':
        ml = c.real('min length', 0.1, 12)
        kw = dict(min_length = ml)
        for k in range(3):
            c.assume(c.Or(over[k] * f >= ml + 0.01, over[k] * f <= ml - 0.01))
            keep[k] = keep[k] and c.fix(over[k] * f > ml)
    df = b.dataframe(extra_columns_list = ['GRID', 'LENGTH', 'KH', 'PPERF', 'MD', 'X', 'Y', 'DEPTH', 'ANGLV', 'RADW', 'STAT'],
                     perm_i_uuid = pu, active_only = True, perforation_list = perfs, length_uom = uom,
                     radw = 0.375, stat = 'ON', **kw)
    rows = [k for k in range(3) if keep[k] and some[k]]
    c.same('rows', len(df), len(rows))
    if len(df) != len(rows):
        return
    for r, k in enumerate(rows):
        row = df.iloc[r]
        c.same(f'cell {r}', (int(row['IW']), int(row['JW']), int(row['L'])), (2, 1, k + 1))
        c.same(f'grid {r}', row['GRID'], 'a')
        c.close(f'length {r}', row['LENGTH'], over[k] * f)
        c.close(f'fraction {r}', row['PPERF'] * 5.0, over[k])
        c.close(f'kh {r}', row['KH'], over[k] * (f * perm[k, 0, 1]), 1.0e-4)
        c.close(f'md {r}', row['MD'], (mds[k] + 2.5) * f)
        c.close(f'x {r}', row['X'], 15.0 * f)
        c.close(f'y {r}', row['Y'], 10.0 * f)
        c.close(f'depth {r}', row['DEPTH'], (mds[k] + 2.5) * f)
        c.close(f'angle {r}', row['ANGLV'], 0.0)
        c.close(f'radius {r}', row['RADW'], 0.375)
        c.same(f'stat {r}', row['STAT'], 'ON')


@case('C15', bounds = 'any permeabilities, ntg from a list', params = [dict(pref = p, two = t) for p in (True, False) for t in (True, False)])
def dataframe_kh(c, pref, two):
    m, g, b = _column_well(c, 2)
    ki, kj = c.reals('perm i', 2, 1, 1000), c.reals('perm j', 2, 1, 1000)
    ntg = [c.fix(c.choice(f'ntg {k}', [0.25, 0.5, 1.0])) for k in range(2)]
    fill = lambda v: c.array([[[0.0, v[0]]], [[0.0, v[1]]]])
    new = lambda v, t, pk, u: rqp.Property.from_array(m, fill(v), 's', t, g.uuid, property_kind = pk, uom = u).uuid
    iu = new(ki, 'pi', 'permeability rock', 'mD')
    ju = new(kj, 'pj', 'permeability rock', 'mD')
    nu = new(ntg, 'n', 'net to gross ratio', 'm3/m3')
    g.property_collection = None
    g.extract_property_collection()
    kw = dict(perm_j_uuid = ju, perm_k_uuid = iu) if two else {}
    # perforated: 2 m of the first cell and all of the second cell
    df = b.dataframe(extra_columns_list = ['KH', 'LENGTH'], perm_i_uuid = iu, ntg_uuid = nu, preferential_perforation = pref,
                     perforation_list = [(103.0, 120.0)], set_k_face_intervals_vertical = True, **kw)
    c.same('rows', len(df), 2)
    for k, l in ((0, 2.0), (1, 5.0)):
        net = min(l, ntg[k] * 5.0) if pref else l * ntg[k]
        kh = df['KH'][k]
        c.close(f'length {k}', df['LENGTH'][k], l)
        c.le(f'kh sign {k}', 0.0, kh)
        c.close(f'kh {k}', kh * kh, (net * net) * (ki[k] * (kj[k] if two else ki[k])), 1.0)


@case('C15', bounds = 'depth sign and units', params = [dict(down = d, mode = l, z = z) for d in (True, False) for l in ('MD', 'straight') for z in ('m', 'ft')])
def dataframe_xyz(c, down, mode, z):
    m, g, b = _column_well(c, 2, dict(z_inc_down = down, xy_units = 'm', z_units = z))
    want = (None, True, False)[c.fix(c.int('depth down', 0, 2))]
    uom = (None, 'm', 'ft')[c.fix(c.int('uom', 0, 2))]
    faces = c.fix(c.bool('face centres'))
    df = b.dataframe(extra_columns_list = ['X', 'Y', 'DEPTH'], depth_inc_down = want, length_uom = uom, length_mode = mode,
                     use_face_centres = faces)
    zm = 1.0 if z == 'm' else 0.3048
    to = dict(m = 1.0, ft = 0.3048)
    for k in range(2):
        c.close(f'x {k}', df['X'][k], 15.0 / (to[uom] if uom else 1.0))
        c.close(f'y {k}', df['Y'][k], 10.0 / (to[uom] if uom else 1.0))
        c.close(f'depth {k}', df['DEPTH'][k], (102.5 + 5.0 * k) * (zm / to[uom] if uom else 1.0) * (1 if down or want else -1))


@case('C15', bounds = 'any values in the columns of 3 rows', params = [dict(uom = u, tab = t) for u in ('m', 'ft') for t in (True, False)])
def wellspec_round_trip(c, uom, tab):
    m, g, b = _column_well(c, 3)
    b.write_hdf5()
    b.create_xml()
    skin = c.reals('skin', 3, -5, 5)
    radw = c.reals('radw', 3, 0.01, 1)
    stat = [c.fix(c.bool(f'stat {k}')) for k in range(3)]
    df = pd.DataFrame(dict(IW = [2, 2, 2], JW = [1, 1, 1], L = [1, 2, 3], SKIN = list(skin), RADW = list(radw), STAT = np.array(stat, dtype = int)))
    b.add_df_properties(df, ['SKIN', 'RADW', 'STAT'], length_uom = uom)
    f = os.path.join(c.tmpdir, 'w.ws')
    b.write_wellspec(f, mode = 'w', extra_columns_list = ['STAT', 'SKIN', 'RADW', 'LENGTH'], use_properties = ['SKIN', 'RADW', 'STAT'],
                     length_uom = uom, space_instead_of_tab_separator = not tab)
    d = wsk.load_wellspecs(f)
    c.same('wells', list(d.keys()), ['w'])
    r = d['w']
    c.same('rows', len(r), 3)
    for k in range(3):
        c.same(f'cell {k}', (int(r['IW'][k]), int(r['JW'][k]), int(r['L'][k])), (2, 1, k + 1))
        c.close(f'skin {k}', r['SKIN'][k], skin[k], 1.0e-3)
        c.close(f'radw {k}', r['RADW'][k], radw[k], 1.0e-3)
        c.close(f'length {k}', r['LENGTH'][k], 5.0 if uom == 'm' else 5.0 / 0.3048, 1.0e-3)
        c.same(f'stat {k}', bool(r['STAT'][k]), stat[k])
    b2 = rqw.BlockedWell(m, well_name = 'w')
    b2.derive_from_wellspec(f, 'w', g, length_uom = uom)
    c.same('cells', [tuple(int(a) for a in x) for x in b2.cell_indices_kji0()], [(k, 0, 1) for k in range(3)])
    pc = b2.extract_property_collection(refresh = True)
    for t, v in (('SKIN', skin), ('RADW', radw)):
        a = pc.single_array_ref(citation_title = t)
        for k in range(3):
            c.close(f'property {t} {k}', a[k], v[k], 1.0e-3)


@case('C15', bounds = 'vertical well; any depths of planes of 2 layers, pinched layers',
      params = [dict(nk = 2, dip = 0.25, lazy = True, td = 200.0)], cost = 90, timeout_ms = 20000)
def blocked_vertical(c, nk, dip, lazy, td):
    z = [c.real('top', 50, 60)]
    t = c.reals('thickness', nk, 2, 20)
    pinched = [c.fix(c.bool(f'pinched {k}')) for k in range(nk)]
    c.assume(not all(pinched))
    for k in range(nk):
        z.append(z[-1] + (0.0 if pinched[k] else t[k]))
    p = c.zeros((nk + 1, 2, 3, 3))
    for k in range(nk + 1):
        for j in range(2):
            for i in range(3):
                p[k, j, i] = (10.0 * i, 10.0 * j, z[k] + dip * 10.0 * i)
    G = Geom(c, nk, 1, 2, points = lambda _: p)
    g = G.g
    g.write_hdf5()
    g.create_xml()
    x, y = 13.0, 4.0
    zz = [v + dip * x for v in z]
    for v in zz:
        c.assume(c.Or(td >= v + 0.5, td <= v - 0.5))
    c.assume(td >= zz[0] + 0.5)
    traj = _traj(G.m, c.array([0.0, td]), c.array([(x, y, 0.0), (x, y, td)]))
    b = rqw.BlockedWell(G.m, well_name = 'w')
    b.trajectory = traj
    b.compute_from_trajectory(traj, g, lazy = lazy)
    want = [k for k in range(nk) if not pinched[k] and c.fix(td > zz[k])]
    c.same('cells', b.cell_count, len(want))
    c.same('intervals', [int(a) for a in b.grid_indices], [0] * len(want))
    if b.cell_count != len(want):
        return
    cells = b.cell_indices_kji0()
    c.close('first entry', b.node_mds[0], zz[want[0]], 1.0e-3)
    for s, k in enumerate(want):
        c.same(f'cell {s}', tuple(int(a) for a in cells[s]), (k, 0, 1))
        ends = c.fix(td < zz[k + 1])
        c.same(f'faces {s}', [int(a) for a in b.face_pair_indices[s].flatten()], [0, 0] + ([-1, -1] if ends else [0, 1]))
        c.close(f'exit {s}', b.node_mds[s + 1], td if ends else zz[k + 1], 1.0e-3)
