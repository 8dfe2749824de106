"""C01: boxes of cells - index arithmetic of resqpy.olio.box_utilities."""
from symx.run import case

import numpy as np
import resqpy.olio.box_utilities as bx

META = dict(
    title = 'Cell box arithmetic is exact',
    statement = 'For every box of cells [min, max] in kji: extent, volume, cell membership, the local/parent index '
    'conversions (mutually inverse), union, overlap test, validity, full-grid and single-cell tests, and the text forms all '
    'agree with the set of cells the box contains. Trimming a box to a mask or to another box yields the smallest box that '
    'keeps the required cells, and trimming two overlapping boxes leaves two boxes that do not overlap and contain no cell '
    'outside the originals.',
    text = 'every pair of boxes and every cell with indices up to a million in magnitude; every mask on small grids',
    why = 'tests sample a handful of boxes; off-by-one errors show only for particular relative positions of two boxes',
    files = ['resqpy/olio/box_utilities.py'],
    mechanism = [('box functions', 'resqpy/olio/box_utilities.py')],
    observe = ['return values of box functions'],
    note = 'all integer box and cell values within +-10^6; masks on grids up to 3x2x1 / 2x2x2 cells')

R = 10**6


def _box(c, name, lo = -R, hi = R):
    b = c.ints(name, (2, 3), lo, hi)
    c.assume((b[0] <= b[1]).all())
    return b


@case('C01', bounds = 'box and cell indices in [-10^6, 10^6]')
def extent_volume_membership(c):
    b = _box(c, 'box')
    cell = c.ints('cell', 3, -2 * R, 2 * R)
    e = bx.extent_of_box(b)
    c.check('extent counts both ends', (e == b[1] - b[0] + 1).all())
    c.check('volume is product of extents', bx.volume_of_box(b) == e[0] * e[1] * e[2])
    inside = c.And(*[c.And(b[0, d] <= cell[d], cell[d] <= b[1, d]) for d in range(3)])
    c.check('membership', c.Iff(bx.cell_in_box(cell, b), inside))
    mid = bx.central_cell(b)
    c.check('central cell inside and central',
            [(b[0] <= mid).all(), (mid <= b[1]).all(), (abs((mid - b[0]) - (b[1] - mid)) <= 1).all()])
    s = bx.single_cell_box(cell)
    c.check('single cell box', [bx.volume_of_box(s) == 1, bx.cell_in_box(cell, s)])
    c.record('extent', e)
    c.record('in', c.And(inside))


@case('C01', bounds = 'indices in [-10^6, 10^6]; base 0 or 1')
def local_parent_inverse(c):
    b = _box(c, 'box')
    cell = c.ints('cell', 3, -2 * R, 2 * R)
    base = c.choice('base', [0, 1])
    inside = bx.cell_in_box(cell, b)
    loc = bx.local_box_cell_from_parent_cell(b, cell, base)
    c.check('local cell given exactly for cells of the box', c.Iff(loc is not None, inside))
    if loc is not None:
        c.check('local index in extent', [(loc >= base).all(), (loc - base < bx.extent_of_box(b)).all()])
        c.same('parent of local', bx.parent_cell_from_local_box_cell(b, loc, base), cell)
        c.record('loc', loc)
    par = bx.parent_cell_from_local_box_cell(b, cell, base)
    back = bx.local_box_cell_from_parent_cell(b, par, base)
    if back is not None:
        c.same('local of parent', back, cell)
    else:
        c.check('outside', c.Not(bx.cell_in_box(par, b)))


@case('C01', bounds = 'indices in [-10^6, 10^6]')
def union_and_overlap(c):
    a, b = _box(c, 'a'), _box(c, 'b')
    cell = c.ints('cell', 3, -2 * R, 2 * R)
    u = bx.union(a, b)
    ina, inb = bx.cell_in_box(cell, a), bx.cell_in_box(cell, b)
    c.check('union contains both', c.Implies(c.Or(ina, inb), bx.cell_in_box(cell, u)))
    c.check('union is minimal', [
        c.And(*[c.And(c.Or(u[0, d] == a[0, d], u[0, d] == b[0, d]), c.Or(u[1, d] == a[1, d], u[1, d] == b[1, d]))
                for d in range(3)])
    ])
    ov = bx.boxes_overlap(a, b)
    c.check('a shared cell means overlap', c.Implies(c.And(ina, inb), ov))
    mx = [max(a[0, d], b[0, d]) for d in range(3)]
    c.check('overlap means a shared cell', c.Implies(ov, c.And(bx.cell_in_box(mx, a), bx.cell_in_box(mx, b))))
    c.check('overlap symmetric', c.Iff(ov, bx.boxes_overlap(b, a)))
    c.same('union with nothing', bx.union(a, None), a)
    c.same('nothing united', bx.union(None, b), b)
    c.record('u', u)


@case('C01', bounds = 'indices in [-50, 50]; validity against any extent in 1..60')
def valid_and_full(c):
    b = c.ints('box', (2, 3), -50, 50)
    ext = c.ints('ext', 3, 1, 60)
    cell = c.ints('cell', 3, -60, 60)
    ok = bx.valid_box(b, ext)
    want = c.And(*[c.And(b[0, d] >= 0, b[0, d] <= b[1, d], b[1, d] < ext[d]) for d in range(3)])
    c.check('valid box', c.Iff(ok, want))
    f = bx.full_extent_box0(ext)
    c.check('full box valid', bx.valid_box(f, ext))
    c.same('full box extent', bx.extent_of_box(f), ext)
    c.check('full box membership',
            c.Iff(bx.cell_in_box(cell, f), c.And(*[c.And(cell[d] >= 0, cell[d] < ext[d]) for d in range(3)])))
    c.record('ok', c.And(ok))


@case('C01', bounds = 'zero based kji indices in [0, 10^6]')
def text_round_trip(c):
    b = _box(c, 'box', 0, R)
    sep = c.choice('sep', [' ', ':'])
    s = bx.spaced_string_iijjkk1_for_box_kji0(b, colon_separator = sep)
    words = s.replace(':', ' ').split()
    c.same('spaced text', bx.box_kji0_from_words_iijjkk1(words), b)
    s2 = bx.string_iijjkk1_for_box_kji0(b)
    for ch in '[]:,':
        s2 = s2.replace(ch, ' ')
    c.same('bracketed text', bx.box_kji0_from_words_iijjkk1(s2.split()), b)


@case('C01', bounds = 'indices in [-30, 30]')
def overlap_trim(c):
    est, new = _box(c, 'est', -30, 30), _box(c, 'new', -30, 30)
    cell = c.ints('cell', 3, -40, 40)
    trim = c.ints('trim', (2, 3), -5, 5)
    r = bx.overlapping_boxes(est, new, trim)
    c.check('reports overlap', c.Iff(r, bx.boxes_overlap(est, new)))
    if not r:
        c.same('no trim', trim, np.zeros((2, 3), dtype = int))
        return
    ie, inn, it = bx.cell_in_box(cell, est), bx.cell_in_box(cell, new), bx.cell_in_box(cell, trim)
    c.check('trim box within new box', c.Implies(it, inn))
    c.check('trim removes every shared cell', c.Implies(c.And(ie, inn), it))
    full = [c.And(trim[0, d] == new[0, d], trim[1, d] == new[1, d]) for d in range(3)]
    c.check('trim covers two axes fully',
            c.Or(c.And(full[0], full[1]), c.And(full[0], full[2]), c.And(full[1], full[2])))
    c.record('trim', trim)


@case('C01', bounds = 'box extents up to 2x3x2 at origin in [-5, 5], any mask', params = [
    dict(ext = (2, 2, 2)), dict(ext = (1, 3, 2)), dict(ext = (3, 1, 1)), dict(ext = (2, 3, 2), _tier = 'thorough')])
def trim_to_mask(c, ext):
    o = c.ints('o', 3, -5, 5)
    mask = c.bools('mask', ext)
    c.assume(mask.any())
    box = c.zeros((2, 3), dtype = int)
    box[0] = o
    box[1] = o + np.array(ext) - 1
    m2 = bx.trim_box_to_mask_returning_new_mask(box, mask)
    loc = box[0] - o
    lo = [c.fix(v) for v in loc]
    sh = c.shape(m2)
    c.same('box extent matches mask', bx.extent_of_box(box), list(sh))
    c.check('new box inside old', all(lo[d] >= 0 and lo[d] + sh[d] <= ext[d] for d in range(3)))
    sub = mask[lo[0]:lo[0] + sh[0], lo[1]:lo[1] + sh[1], lo[2]:lo[2] + sh[2]]
    c.same('mask values kept', m2, sub)
    for k in range(ext[0]):
        for j in range(ext[1]):
            for i in range(ext[2]):
                if not all(lo[d] <= v < lo[d] + sh[d] for d, v in enumerate((k, j, i))):
                    c.check('nothing selected is lost', c.Not(mask[k, j, i]))
    for d in range(3):
        for s in (0, -1):
            c.check('box is minimal', np.take(m2, s, axis = d).any())


@case('C01', bounds = 'box extent 2x3x2 or 3x2x1, any position; every neat trim; any mask', params = [
    dict(ext = (2, 3, 2)), dict(ext = (3, 2, 1))])
def trim_by_box(c, ext):
    o = c.ints('o', 3, -5, 5)
    mask = c.bools('mask', ext)
    axis = c.choice('axis', [d for d in range(3) if ext[d] > 1])
    top = c.choice('top', [False, True])
    n = c.choice('n', list(range(1, ext[axis])))
    box = c.zeros((2, 3), dtype = int)
    box[0] = o
    box[1] = o + np.array(ext) - 1
    trim = box.copy()
    if top:
        trim[0, axis] = box[1, axis] - n + 1
    else:
        trim[1, axis] = box[0, axis] + n - 1
    old = box.copy()
    m2 = bx.trim_box_by_box_returning_new_mask(box, trim, mask)
    want = old.copy()
    if top:
        want[1, axis] = old[1, axis] - n
    else:
        want[0, axis] = old[0, axis] + n
    c.same('remaining box', box, want)
    sl = [slice(None)] * 3
    sl[axis] = slice(0, ext[axis] - n) if top else slice(n, None)
    c.same('remaining mask', m2, mask[tuple(sl)])
