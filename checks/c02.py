"""C02: fine / coarse grid mappings."""
from symx.run import case

import numpy as np
import resqpy.olio.fine_coarse as fc
import resqpy.olio.box_utilities as bx

META = dict(
    title = 'Fine/coarse mapping partitions the fine grid',
    statement = 'For every valid refinement ratio specification, the fine boxes of the coarse cells tile the fine grid: each '
    'fine cell belongs to the box of exactly the coarse cell which the reverse lookups (per axis, per cell, vectors) report, '
    'and box extents, bases, ratios and natural column and pillar indices agree with the ratio vectors. Proportions within a '
    'coarse cell are positive and sum to one, ratios that do not fill the fine extent are rejected, and tartan '
    'refinement gives the full ratio within the fovea and ratios that decay to one away from it.',
    text = 'every ratio vector (1..3) on small coarse extents, every coarse and fine cell, any positive proportions',
    why = 'tests use one or two ratio patterns; index arithmetic differs per axis and between constant and vector ratios',
    files = ['resqpy/olio/fine_coarse.py'],
    mechanism = [('FineCoarse ratios, proportions and lookups', 'resqpy/olio/fine_coarse.py')],
    observe = ['return values of FineCoarse methods'],
    note = 'coarse extents up to 3 per axis (4 thorough), ratios up to 3 (4 thorough); proportions over the reals')


def _mapping(c, coarse, rmax, const_axes = ()):
    """FineCoarse with every ratio symbolic in 1..rmax; constant for const_axes"""
    vecs, fine = [], []
    for axis in range(3):
        if axis in const_axes:
            r = c.int(f'r{axis}', 1, rmax)
            rv = [r] * coarse[axis]
        else:
            v = c.ints(f'r{axis}', coarse[axis], 1, rmax)
            rv = v
        vecs.append(rv)
        fine.append(c.fix(np.sum(np.array(rv))))
    m = fc.FineCoarse(tuple(fine), coarse)
    for axis in range(3):
        if axis in const_axes:
            m.set_constant_ratio(axis)
        else:
            m.set_ratio_vector(axis, vecs[axis])
    return m, vecs, fine


@case('C02', bounds = 'coarse extents as given, every ratio in 1..3 (vector axes) or constant', params = [
    dict(coarse = (2, 1, 2), const = (1,), rmax = 3),
    dict(coarse = (1, 3, 2), const = (0, 2), rmax = 3),
    dict(coarse = (1, 2, 2), const = (0,), rmax = 2),
    dict(coarse = (3, 2, 1), const = (1, 2), rmax = 2),
    dict(coarse = (1, 2, 3), const = (0, 1), rmax = 2),
    dict(coarse = (2, 2, 2), const = (), rmax = 2, _tier = 'thorough'),
    dict(coarse = (2, 3, 3), const = (0,), rmax = 3, _tier = 'thorough'),
    dict(coarse = (4, 2, 2), const = (1,), rmax = 4, _tier = 'thorough')], cost = 5)
def partition(c, coarse, const, rmax):
    m, vecs, fine = _mapping(c, coarse, rmax, const)
    m.assert_valid()
    c3 = [c.fix(c.int(f'c{axis}', 0, coarse[axis] - 1)) for axis in range(3)]
    box = m.fine_box_for_coarse(tuple(c3))
    c.same('box extent is the ratios', bx.extent_of_box(box), [vecs[a][c3[a]] for a in range(3)])
    c.same('box starts at base', box[0], m.fine_base_for_coarse(tuple(c3)))
    c.same('ratios', m.ratios(tuple(c3)), [vecs[a][c3[a]] for a in range(3)])
    c.check('box within fine grid', bx.valid_box(box.astype(int), tuple(fine)))
    trip = m.coarse_for_fine()
    for axis in range(3):
        f = c.int(f'f{axis}', 0, fine[axis] - 1)
        inside = c.And(box[0, axis] <= f, f <= box[1, axis])
        cc = m.coarse_for_fine_axial(axis, f)
        c.check('fine cell is in the box of exactly its own coarse cell', c.Iff(cc == c3[axis], inside))
        v = m.coarse_for_fine_axial_vector(axis)
        c.same('axial vector', v[f], cc)
        c.same('triplet of vectors', trip[axis][f], cc)
        if c3[axis] == 0:
            c.check('first box at zero', box[0, axis] == 0)
        if c3[axis] == coarse[axis] - 1:
            c.check('last box reaches the end', box[1, axis] == fine[axis] - 1)
        c.record(f'cc{axis}', cc)
    k3 = m.coarse_for_fine_kji0(tuple(box[0]))
    c.same('kji0 lookup', k3, c3)
    # natural column and pillar indices of the first fine column / pillar
    col = c3[1] * coarse[2] + c3[2]
    c.same('natural column', m.fine_for_coarse_natural_column_index(col), box[0, 1] * fine[2] + box[0, 2])
    pil = c3[1] * (coarse[2] + 1) + c3[2]
    c.same('natural pillar', m.fine_for_coarse_natural_pillar_index(pil), box[0, 1] * (fine[2] + 1) + box[0, 2])
    last = coarse[1] * (coarse[2] + 1) + coarse[2]
    c.same('last natural pillar', m.fine_for_coarse_natural_pillar_index(last), fine[1] * (fine[2] + 1) + fine[2])


@case('C02', bounds = 'coarse extent 3 on the axis; ratios 1..3; any positive weights', params = [
    dict(axis = 0), dict(axis = 1), dict(axis = 2)])
def proportions(c, axis):
    coarse = [1, 1, 1]
    coarse[axis] = 2
    rv = c.ints('r', 2, 1, 3)
    n = [c.fix(v) for v in rv]
    fine = [1, 1, 1]
    fine[axis] = sum(n)
    m = fc.FineCoarse(tuple(fine), tuple(coarse))
    m.set_all_ratios_constant() if fine[axis] == coarse[axis] * n[0] else m.set_ratio_vector(axis, rv)
    for a in range(3):
        if a != axis:
            m.set_constant_ratio(a)
    w = [c.reals(f'w{q}', n[q], 0.25, 64) for q in range(2)]
    m.set_proportions_list_of_vectors(axis, w)
    m.assert_valid()
    flat = m.proportions_for_axis(axis)
    c.same('one proportion per fine cell', len(flat), fine[axis])
    f0 = 0
    for q in range(2):
        p = m.proportion(axis, q)
        c.close('proportions sum to one', np.sum(p), 1.0)
        c.close('axis proportions agree', flat[f0:f0 + n[q]], p, tol = 2.0e-6)
        tot = np.sum(w[q])
        for x in range(n[q]):
            # proportions within a millionth of equal are deliberately treated as equal
            c.check('weights honoured', abs(p[x] * tot - w[q][x]) <= 2.0e-6 * tot)
        fr = m.interpolation(axis, q)
        c.check('interpolation starts at zero', fr[0] == 0.0)
        acc = 0.0
        for x in range(n[q]):
            c.close('interpolation is cumulative', fr[x], acc)
            c.check('interpolation below one', fr[x] < 1.0)
            acc = acc + p[x]
        f0 += n[q]
        c.record(f'p{q}', p)


@case('C02', bounds = 'coarse extent 2..3 on the axis; ratios 1..4', params = [dict(axis = 0), dict(axis = 2)])
def equal_proportions(c, axis):
    n = c.choice('n', [2, 3])
    coarse = [1, 1, 1]
    coarse[axis] = n
    rv = c.ints('r', n, 1, 4)
    fine = [1, 1, 1]
    fine[axis] = c.fix(np.sum(rv))
    m = fc.FineCoarse(tuple(fine), tuple(coarse))
    for a in range(3):
        if a != axis:
            m.set_constant_ratio(a)
    m.set_ratio_vector(axis, rv)
    m.set_equal_proportions(axis)
    m.assert_valid()
    flat = m.proportions_for_axis(axis)
    c.same('one proportion per fine cell', len(flat), fine[axis])
    f0 = 0
    for q in range(n):
        k = c.fix(rv[q])
        c.close('equal proportions', flat[f0:f0 + k], [1.0 / k] * k)
        c.close('equal proportion', m.proportion(axis, q), [1.0 / k] * k)
        f0 += k


@case('C02', bounds = 'coarse extent 3 on the axis; arbitrary integer vectors in -1..4', params = [dict(axis = 1)])
def invalid_rejected(c, axis):
    coarse = [1, 1, 1]
    coarse[axis] = 3
    rv = c.ints('r', 3, -1, 4)
    fe = c.choice('fine', [3, 5])
    fine = [1, 1, 1]
    fine[axis] = fe
    m = fc.FineCoarse(tuple(fine), tuple(coarse))
    good = c.And((rv > 0).all(), np.sum(rv) == fe)
    try:
        m.set_ratio_vector(axis, rv)
        ok = True
    except AssertionError:
        ok = False
    c.check('vector accepted exactly when it is a partition', c.Iff(ok, good))


@case('C02', bounds = 'axis extent 5, fovea anywhere, fovea ratio 1..5, decay rate any real in [0, 4]', params = [
    dict(n = 4, mode = 'linear'), dict(n = 4, mode = 'exponential'), dict(n = 6, mode = 'linear', _tier = 'thorough')])
def tartan(c, n, mode):
    lo = c.fix(c.int('lo', 0, n - 1))
    hi = c.fix(c.int('hi', lo, n - 1))
    ratio = c.choice('ratio', [1, 2, 3, 5])
    rate = c.real('rate', 0, 4 if mode == 'linear' else 1)
    axis = 1
    coarse = np.array((1, n, 1))
    fov = np.array([[0, lo, 0], [0, hi, 0]], dtype = int)
    m = fc.tartan_refinement(tuple(coarse), fov, (1, ratio, 1), decay_rates_kji = (0, rate, 0) if mode == 'linear' else
                             (1.0, rate, 1.0), decay_mode = mode)
    m.assert_valid()
    r = [m.ratio(axis, x) for x in range(n)]
    for x in range(n):
        c.check('ratio at least one', r[x] >= 1)
        if lo <= x <= hi:
            c.check('full ratio in fovea', r[x] == ratio)
        if x < lo:
            c.check('decays away from fovea', r[x] <= r[x + 1])
        if x > hi:
            c.check('decays away from fovea', r[x] <= r[x - 1])


@case('C02', bounds = 'axis extent 5, fovea anywhere, fovea ratio 1..6, default decay rates')
def tartan_default(c):
    n = 5
    lo = c.fix(c.int('lo', 0, n - 1))
    hi = c.fix(c.int('hi', lo, n - 1))
    ratio = c.choice('ratio', [1, 2, 3, 6])
    mode = c.choice('mode', ['linear', 'exponential'])
    coarse = np.array((1, 1, n))
    fov = np.array([[0, 0, lo], [0, 0, hi]], dtype = int)
    m = fc.tartan_refinement(coarse, fov, (1, 1, ratio), decay_mode = mode)
    m.assert_valid()
    r = [m.ratio(2, x) for x in range(n)]
    for x in range(n):
        c.check('ratio between one and fovea ratio', 1 <= r[x] <= ratio)
        if lo <= x <= hi:
            c.check('full ratio in fovea', r[x] == ratio)
        if x < lo:
            c.check('decays away from fovea', r[x] <= r[x + 1])
        if x > hi:
            c.check('decays away from fovea', r[x] <= r[x - 1])
