"""C22: simulator text files and corner point arrays."""
from symx import core
from symx.run import case
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.model as rq
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.time_series as rqt
import resqpy.property.grid_property_collection as rqp_gpc
import resqpy.olio.load_data as ld
import resqpy.olio.write_data as wd
import resqpy.olio.keyword_files as kf
import resqpy.olio.grid_functions as gf
import resqpy.olio.read_nexus_fault as rnf
import resqpy.olio.zmap_reader as zmap
import resqpy.rq_import as rqi
import resqpy.rq_import._import_nexus as rqi_in
import resqpy.rq_import._grid_from_cp as rqi_gfc
import resqpy.grid._write_nexus_corp as grr_wnc
from checks.c08 import _model, _reopen, _grid

META = dict(
    title = 'Simulator text files and corner points are read, written and imported right',
    statement = 'Arrays written to, and read from, simulator text files hold the same values in the same order however the text is '
    'laid out, and keyword searches find the first place asked for. Corner points written for a simulator, '
    'or imported from such a file, describe the same cells in the units, z direction and reference system asked for, with the '
    'active cells and properties given, and functions of corner point arrays give their sequence, shift, handedness, extent, '
    'pillar shape and infilled geometry.',
    text = 'any values, corner coordinates and offsets, any layout of lines, comments and keywords, either order of corners',
    why = 'reading, reordering, converting and shifting each touch only part of an array of seven dimensions; tests import one or '
    'two files in one set of units and look at few of the values',
    files = ['resqpy/olio/load_data.py', 'resqpy/olio/write_data.py', 'resqpy/olio/keyword_files.py',
             'resqpy/olio/grid_functions.py', 'resqpy/grid/_write_nexus_corp.py', 'resqpy/rq_import/_import_nexus.py',
             'resqpy/property/grid_property_collection.py'],
    mechanism = [('reading and writing arrays', 'resqpy/olio/load_data.py'),
                 ('functions of corner points', 'resqpy/olio/grid_functions.py'),
                 ('import and export', 'resqpy/rq_import/_import_nexus.py')],
    observe = ['arrays returned, text positions found, corner points, properties and crs of the imported model'],
    note = 'arrays of up to 3 x 2 x 2; text files of up to 4 lines of each kind; numbers are written with 3 decimals and so are '
    'equal to within half of the last; binary files are not covered; random choices of cells are replaced by any choice')

TOL = 6.0e-4


def _lines(path, lines):
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


# ---- arrays of text


@case('C22', 'array is read as written', bounds = '2 x 1 x 3 values; any width of lines, blank lines, headers and keyword or not',
      params = [dict(kind = k) for k in ('real', 'int', 'bool')])
def array_round_trip(c, kind):
    shape = (2, 1, 3)
    if kind == 'real':
        a = c.array(c.reals('a', 6, -1.0e6, 1.0e6)).reshape(shape)
    elif kind == 'int':
        a = c.array(c.ints('a', 6, -1000, 1000)).reshape(shape)
    else:
        a = c.array([c.bool('a0'), True, c.bool('a2'), False, False, c.bool('a5')]).reshape(shape)
    columns = c.fix(c.int('columns', 1, 4))
    i_blank, j_blank, headers = (c.fix(b) for b in c.bools('layout', 3))
    spaces = columns % 2 == 0
    keyword = 'VALUE' if c.fix(c.bool('keyword')) else None
    path = os.path.join(c.tmpdir, 'a.txt')
    wd.write_array_to_ascii_file(path, shape, a, headers = headers, keyword = keyword, columns = columns, data_type = kind,
                                 blank_line_after_i_block = i_blank, blank_line_after_j_block = j_blank,
                                 space_separated = spaces)
    b = ld.load_array_from_file(path, shape, data_type = kind, keyword = keyword)
    c.check('shape', b is not None and b.shape == shape)
    if kind == 'real':
        c.close('values are those written', b, a, TOL)
    else:
        c.same('values are those written', b, a)


@case('C22', 'values are read from any layout of text', bounds = '4 values on lines of any lengths, with comments, blank lines, '
      'a keyword to find, and the number of values known or not')
def layouts(c):
    v = c.reals('v', 4, -100, 100)
    words = [format(x, '') for x in v]
    breaks = [c.fix(b) for b in c.bools('break', 3)]
    junk = c.fix(c.int('junk', 0, 4))  # what lies between lines
    text = ''
    for i, w in enumerate(words):
        text += w
        if i < 3:
            if not breaks[i]:
                text += ' ' if i % 2 else '\t'
            else:
                text += ('\n', '\n\n', ' ! 7.0 of these\n', '\n! 9.0\n', '  \n  ')[junk]
    keyword = c.fix(c.bool('keyword'))
    path = os.path.join(c.tmpdir, 'b.txt')
    with open(path, 'w') as f:
        f.write('! made for test\n\n' + ('other 3\n KX value\n' if keyword else '') + text + '\n')
    known = c.fix(c.bool('known'))
    b = ld.load_array_from_file(path, (2, 2) if known else None, keyword = 'kx' if keyword else None)
    c.check('shape', b.shape == ((2, 2) if known else (4,)))
    c.close('values are those of the file in order', b.flatten(), c.array(v))


@case('C22', 'missing values are written as substitute', bounds = '4 values, each missing or not')
def substitutes(c):
    v = c.reals('v', 4, -100, 100)
    gone = [c.fix(b) for b in c.bools('gone', 4)]
    a = c.array([np.nan if g else x for g, x in zip(gone, v)]).reshape((1, 2, 2))
    path = os.path.join(c.tmpdir, 'c.txt')
    wd.write_array_to_ascii_file(path, (1, 2, 2), a, nan_substitute_value = -999.0)
    b = ld.load_array_from_file(path, (1, 2, 2))
    c.close('values', b, c.array([-999.0 if g else x for g, x in zip(gone, v)]).reshape((1, 2, 2)), TOL)


# ---- keywords in text

KINDS = ('blank', 'comment', 'key', 'other', 'number', 'pair')
TEXT = {'blank': '  ', 'comment': '! note', 'key': ' kEY 3', 'other': 'WORD key', 'number': '  -1.5e3 x', 'pair': 'KEY second'}


def _text_file(c, n, kinds = KINDS):
    picked = [kinds[c.fix(c.int(f'line{i}', 0, len(kinds) - 1))] for i in range(n)]
    path = os.path.join(c.tmpdir, 'd.txt')
    _lines(path, [f'{TEXT[k]}' for k in picked])
    return picked, path


def _first(picked, wanted):
    for i, k in enumerate(picked):
        if k in wanted:
            return i
    return None


def _here(f, picked):
    """number of lines before the present position"""
    rest = f.read()
    return len(picked) - rest.count('\n')


@case('C22', 'keyword search stops where it should',
      params = [dict(what = w) for w in ('keyword', 'limited', 'without passing', 'pair', 'number', 'copy', 'blank and comments',
                                         'comments', 'keyword next', 'number next', 'blank line', 'end')],
      bounds = 'files of 3 lines each of any of six kinds, any limit on the number of lines')
def keyword_search(c, what):
    picked, path = _text_file(c, 3, KINDS if what in ('pair', 'keyword', 'without passing') else KINDS[:5])
    with open(path, 'r') as f:
        if what in ('keyword', 'limited'):
            limit = c.fix(c.int('limit', 0, 4)) if what == 'limited' else None
            found = kf.find_keyword(f, 'key', max_lines = limit)
            i = _first(picked, ('key', 'pair'))
            if i is not None and limit is not None and i >= limit:
                i = None
            c.check('found or not', bool(found) == (i is not None))
            c.check('place', _here(f, picked) == (i or 0))
        elif what == 'without passing':
            found = kf.find_keyword_without_passing(f, 'Key', 'word')
            i, j = _first(picked, ('key', 'pair')), _first(picked, ('other',))
            ok = i is not None and (j is None or i < j)
            c.check('found or not', bool(found) == ok)
            if ok:
                c.check('place', _here(f, picked) == i)
            elif j is not None:
                c.check('place of word not to be passed', _here(f, picked) == j)
        elif what == 'pair':
            found = kf.find_keyword_pair(f, 'key', 'SECOND')
            i = _first(picked, ('pair',))
            c.check('found or not', bool(found) == (i is not None))
            if i is not None:
                c.check('place', _here(f, picked) == i)
        elif what == 'number':
            found = kf.find_number(f)
            i = _first(picked, ('number',))
            c.check('found or not', bool(found) == (i is not None))
            if i is not None:
                c.check('place', _here(f, picked) == i)
        elif what == 'copy':
            out = os.path.join(c.tmpdir, 'e.txt')
            with open(out, 'w') as g:
                found = kf.find_keyword_with_copy(f, 'KEY', g)
            i = _first(picked, ('key', 'pair'))
            c.check('found or not', bool(found) == (i is not None))
            with open(out, 'r') as g:
                copied = g.read()
            c.check('lines before are copied', copied == ''.join(TEXT[k] + '\n' for k in picked[:i]))
            if i is not None:
                c.check('place', _here(f, picked) == i)
        elif what in ('blank and comments', 'comments'):
            (kf.skip_comments if what == 'comments' else kf.skip_blank_lines_and_comments)(f)
            skip = ('comment',) if what == 'comments' else ('blank', 'comment')
            i = _first(picked, [k for k in KINDS if k not in skip])
            c.check('place', _here(f, picked) == (3 if i is None else i))
        elif what in ('keyword next', 'number next'):
            i = _first(picked, ('key', 'other', 'number'))
            if what == 'keyword next':
                found = kf.specific_keyword_next(f, 'Key')
                ok = i is not None and picked[i] == 'key'
            else:
                found = kf.number_next(f)
                ok = i is not None and picked[i] == 'number'
            c.check('found or not', bool(found) == ok)
            if i is not None:
                c.check('place', _here(f, picked) == i)
        elif what == 'blank line':
            c.check('blank or not', bool(kf.blank_line(f)) == (picked[0] == 'blank'))
            c.check('place', _here(f, picked) == 0)
        else:
            n = c.fix(c.int('read', 0, 3))
            for _ in range(n):
                f.readline()
            c.check('end or not', bool(kf.end_of_file(f)) == (n == 3))
            c.check('place', _here(f, picked) == n)


@case('C22', 'trailing comment is split off', bounds = 'comment or not, text before or not')
def trailing(c):
    text, comment = ('', 'abc 12 ')[c.fix(c.int('text', 0, 1))], (None, ' one', 'two ! three')[c.fix(c.int('comment', 0, 2))]
    line = text + ('' if comment is None else '!' + comment) + '\n'
    t, k = kf.split_trailing_comment(line)
    c.check('text', t == text and kf.strip_trailing_comment(line) == text)
    c.check('comment', k == (comment or ''))


@case('C22', 'table of fault multipliers is read', bounds = '2 tables of 1 or 2 rows, any face, any multipliers; comments between')
def fault_table(c):
    faces = ('TX', 'TY', 'TZ', 'TI', 'TJ', 'TK')
    letters = ('I', 'J', 'K', 'I', 'J', 'K')
    w = c.fix(c.int('face', 0, 5))
    minus, named, noted = (c.fix(b) for b in c.bools('option', 3))
    rows = c.fix(c.int('rows', 1, 2))
    lines, want = [], []
    for t in range(2):
        face = faces[w] if t == 0 else 'TX'
        lines.append(f'MULT {face} ALL ' + ('MINUS ' if minus and t == 0 else '') + 'MULT')
        if named or t == 1:
            lines += ['GRID LGR1', f'FNAME fault{t}']
        if noted:
            lines += ['', '! a note', 'C another']
        for r in range(rows if t == 0 else 1):
            ijk = [t + r + 1, t + r + 2, r + 1, r + 3, 1, t + 4]
            m = (0.5, 0.125)[r]
            lines.append(' '.join(str(x) for x in ijk) + f' {m}' + (' ! tail' if noted else ''))
            want.append(ijk + [m, 'LGR1' if named or t == 1 else 'ROOT', f'fault{t}' if named or t == 1 else 'NONE',
                               (letters[w] + ('-' if minus else '')) if t == 0 else 'I'])
    df = rnf.load_nexus_fault_mult_table_from_list([x + '\n' for x in lines])
    c.check('number of rows', len(df) == len(want))
    cols = ('i1', 'i2', 'j1', 'j2', 'k1', 'k2', 'mult', 'grid', 'name', 'face')
    for i, row in enumerate(want):
        c.check('row is that of the file', [df[k][i] for k in cols] == row)


# ---- meshes


@case('C22', 'mesh of text is read', bounds = '3 rows by 2 columns; any values, any of them missing; any width of lines',
      params = [dict(what = w) for w in ('zmap', 'rms')])
def mesh_files(c, what):
    v = c.reals('z', 6, 1000, 2000)
    gone = c.fix(c.int('gone', 0, 6))
    width = c.fix(c.int('width', 1, 3))
    null = '9999900.0000'
    words = [null if i == gone else format(x, '') for i, x in enumerate(v)]
    data = [' '.join(words[i:i + width]) for i in range(0, 6, width)]
    if what == 'zmap':
        head = ['! note', '@FILE, GRID, 4', '20, 9999900.0000, , 7, 1', '3, 2, 10.0, 20.0, 100.0, 140.0', '0.0, 0.0, 0.0', '@']
        # note: columns of values, from the top
        at = [(i % 3, i // 3) for i in range(6)]
        ys = (140.0, 120.0, 100.0)
    else:
        head = ['-996 3 10.0 20.0', '10.0 20.0 100.0 140.0', '2 0.0 10.0 100.0', '0 0 0 0 0 0 0']
        at = [(i // 2, i % 2) for i in range(6)]
        ys = (100.0, 120.0, 140.0)
    path = os.path.join(c.tmpdir, 'm.txt')
    _lines(path, head + data)
    x, y, f = zmap.read_mesh(path, dtype = float, format = what)
    c.check('shape', f.shape == (3, 2) and x.shape == (3, 2) and y.shape == (3, 2))
    for r in range(3):
        for k in range(2):
            c.check('position', c.And(x[r, k] == (10.0, 20.0)[k], y[r, k] == ys[r]))
    for i, (r, k) in enumerate(at):
        if i == gone:
            c.check('value is missing', bool(np.isnan(f[r, k])))
        else:
            c.check('value', f[r, k] == v[i])


# ---- corner points


def _corners(c, nk, nj, ni, n = 2, name = 'p'):
    """Corner points of a grid of boxes with a few of its coordinates any, and steps of depth between columns."""
    a = np.zeros((nk, nj, ni, 2, 2, 2, 3))
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                for kp in range(2):
                    for jp in range(2):
                        for ip in range(2):
                            a[k, j, i, kp, jp, ip] = (100.0 * (i + ip) + 8.0 * kp, 50.0 * (j + jp) + 4.0 * kp,
                                                      1000.0 + 10.0 * (k + kp) + 2.0 * i + 1.0 * j)
    return a


# order of corners in a simulator file: top then base, each going round
ROUND = [(0, 0), (0, 1), (1, 1), (1, 0)]  # jp, ip


def _as_file(a, eight):
    """Words of a file of the corner points of each cell in turn."""
    lines = []
    for k in range(a.shape[0]):
        for j in range(a.shape[1]):
            for i in range(a.shape[2]):
                cell = a[k, j, i]
                if eight:
                    for d in range(3):
                        lines.append(' '.join(format(cell[kp, jp, ip, d], '') for kp in range(2) for jp in range(2)
                                              for ip in range(2)))
                else:
                    for kp in range(2):
                        for jp, ip in ROUND:
                            lines.append(' '.join(format(cell[kp, jp, ip, d], '') for d in range(3)))
                lines.append('')
    return lines


@case('C22', 'corner points are put in order and back', bounds = '1 x 1 x 2 cells, any points, either order')
def resequence(c):
    a = c.array(c.reals('p', 48, -100, 100))
    eight = c.fix(c.bool('eight'))
    undo = c.fix(c.bool('undo'))
    cp = c.array(a).reshape((1, 1, 2, 2, 2, 2, 3)).copy()
    raw = a.reshape((2, 24))
    gf.resequence_nexus_corp(cp, eight_mode = eight, undo = undo)
    want = c.zeros((1, 1, 2, 2, 2, 2, 3))
    for i in range(2):
        for kp in range(2):
            for n, (jp, ip) in enumerate(ROUND):
                for d in range(3):
                    nat = (kp * 2 + jp) * 2 + ip  # natural position of corner
                    if not eight:
                        pos = (kp * 4 + n) * 3 + d
                    else:
                        pos = d * 8 + nat
                    if undo:
                        # element in natural place goes to place in file
                        want.reshape((2, 24))[i, pos] = raw[i, nat * 3 + d]
                    else:
                        want[0, 0, i, kp, jp, ip, d] = raw[i, pos]
    c.same('points are in order', cp, want)


@case('C22', 'corner point file is loaded', bounds = '2 x 1 x 2 cells, any points, either order, extent given')
def corp_file(c):
    pts = c.reals('p', 6, -1000, 1000)
    a = c.array(_corners(c, 2, 1, 2))
    for n, x in enumerate(pts):
        a[n % 2, 0, n // 2 % 2, n // 3, n % 2, (n // 2) % 2, n % 3] = x
    eight = c.fix(c.bool('eight'))
    path = os.path.join(c.tmpdir, 'corp.txt')
    _lines(path, ['! corner points', 'CORP VALUE'] + _as_file(a, eight))
    cp = ld.load_corp_array_from_file(path, (2, 1, 2), eight_mode = eight)
    c.check('shape', cp.shape == (2, 1, 2, 2, 2, 2, 3))
    c.close('points are those of the file', cp, a)


@case('C22', 'corner points are shifted', bounds = '1 x 1 x 2 cells, shifts given or found from least values, whole tens or not')
def translate(c):
    a = c.array(_corners(c, 1, 1, 2))
    base = c.reals('base', 2, -1000, 1000)
    a[..., 0] += base[0]
    a[..., 1] += base[1]
    cp = a.copy()
    given = c.fix(c.bool('given'))
    digits = 1 if c.fix(c.bool('digits')) else None
    least = c.real('least', 0, 100) if c.fix(c.bool('least given')) else None
    shift = c.reals('shift', 2, -1000, 1000)
    gf.translate_corp(cp, x_shift = shift[0] if given else None, y_shift = shift[1] if given else None, min_xy = least,
                      preserve_digits = digits)
    c.same('z is as before', cp[..., 2], a[..., 2])
    for d in range(2):
        moved = cp[0, 0, 0, 0, 0, 0, d] - a[0, 0, 0, 0, 0, 0, d]
        c.close('all are shifted alike', cp[..., d] - a[..., d], np.full(cp.shape[:-1], 1.0) * moved)
        want = shift[d] if given else (0.0 if least is None else least) - base[d]
        if digits is None:
            c.close('shift is that asked for', moved, want)
        else:
            c.check('shift is to within ten', c.And(moved >= want - 1e-6, moved < want + 10.0 + 1e-6))


class _AnyRandom:
    """Stand-in for the random module."""

    def __init__(self, c, most = 3):
        self.c, self.n, self.most = c, 0, most

    def randint(self, a, b):
        self.n += 1
        return self.c.fix(self.c.int(f'random{self.n}', int(a), int(b))) if self.n <= self.most \
            else int(a) + self.n % (int(b) - int(a) + 1)  # later ones take each value in turn


@case('C22', 'handedness of cells is found', bounds = '1 x 1 x 2 cells, either sense of each axis, any size, any choice of cell')
def handedness(c):
    s = [1.0 if c.fix(b) else -1.0 for b in c.bools('sense', 3)]
    size = c.real('size', 1, 100)
    a = c.zeros((1, 1, 2, 2, 2, 2, 3))
    swap = c.fix(c.bool('swap'))
    for i in range(2):
        for kp in range(2):
            for jp in range(2):
                for ip in range(2):
                    x, y = s[0] * (i + ip) * size, s[1] * jp * 7.0
                    a[0, 0, i, kp, jp, ip] = [y, x, s[2] * kp * 3.0] if swap else [x, y, s[2] * kp * 3.0]
    left = c.fix(c.bool('left'))
    old = gf.random
    gf.random = _AnyRandom(c)
    try:
        h = gf.determine_corp_ijk_handedness(a, xyz_is_left_handed = left)
    finally:
        gf.random = old
    same = (s[0] * s[1] * s[2] > 0.0) != swap
    c.check('handedness', h == ('left' if left == same else 'right'))


@case('C22', 'extent is found from corner points', bounds = 'up to 2 x 3 x 3 cells, any sizes, shift and choice of cells',
      params = [dict(extent = e) for e in ((2, 2, 3), (2, 3, 2))])
def extent(c, extent):
    nk, nj, ni = extent
    sizes = c.reals('size', 3, 1, 100)
    shift = c.real('shift', -100, 100)
    a = c.array(np.zeros((nk, nj, ni, 2, 2, 2, 3)))
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                for kp in range(2):
                    for jp in range(2):
                        for ip in range(2):
                            a[k, j, i, kp, jp, ip] = [sizes[0] * (i + ip) + shift, sizes[1] * (j + jp), sizes[2] * (k + kp)]
    old = gf.random
    gf.random = _AnyRandom(c, 1 if c.tier == 'quick' else 2)
    try:
        e = gf.determine_corp_extent(a.reshape((1, 1, nk * nj * ni, 2, 2, 2, 3)))
    finally:
        gf.random = old
    c.check('extent', e is not None and list(e) == [nk, nj, ni])


@case('C22', 'triangles of the faces of a cell', bounds = 'any corners')
def triangles(c):
    cp = c.array(c.reals('p', 24, -100, 100)).reshape((2, 2, 2, 3))
    t = gf.triangles_for_cell_faces(cp)
    c.check('shape', t.shape == (3, 2, 4, 3, 3))
    for axis in range(3):
        for pole in range(2):
            face = cp[pole] if axis == 0 else cp[:, pole] if axis == 1 else cp[:, :, pole]
            ring = [face[0, 0], face[0, 1], face[1, 1], face[1, 0]]
            centre = sum(ring[1:], ring[0]) / 4.0
            for n in range(4):
                c.close('apex is centre of face', t[axis, pole, n, 0], centre)
                c.close('base is an edge of face', t[axis, pole, n, 1], ring[n])
                c.close('edges go round', t[axis, pole, n, 2], ring[(n + 1) % 4])


@case('C22', 'shape of pillars', bounds = '2 pillars of 3 points with any lateral positions, beyond or within the tolerance')
def pillar_shape(c):
    drift = c.reals('drift', 2, -10, 10)
    mid = c.reals('mid', 2, -10, 10)
    p = c.array(np.zeros((3, 2, 3)))
    for n in range(3):
        p[n, 0] = [5.0, 5.0, 10.0 * n]
        p[n, 1] = [20.0, 5.0, 10.0 * n]
    w = c.fix(c.int('which', 0, 1))
    p[2, w, 0] += drift[0]
    p[2, w, 1] += drift[1]
    p[1, w, 0] += mid[0]
    p[1, w, 1] += mid[1]

    def size(x, y):
        return abs(x) + abs(y)

    off = size(mid[0] - drift[0] / 2.0, mid[1] - drift[1] / 2.0)
    far = c.Or(size(*drift) > 0.002, size(*mid) > 0.002)
    c.assume(c.Or(far, c.And(size(*drift) < 0.0009, size(*mid) < 0.0009)))
    c.assume(c.Or(off > 0.002, off < 0.0009))
    shape = gf.actual_pillar_shape(p, tolerance = 0.001)
    if not bool(far):
        c.check('vertical', shape == 'vertical')
    elif bool(off < 0.0009):
        c.check('straight', shape == 'straight')
    else:
        c.check('curved', shape == 'curved')


@case('C22', 'sides of a line of pillars', bounds = 'lines of 2 or 3 pillars, any steps without turning back')
def foursome(c):
    steps = ((0, 1), (0, -1), (1, 0), (-1, 0))
    n = c.fix(c.int('n', 2, 3))
    line = [(5, 5)]
    for i in range(n - 1):
        d = steps[c.fix(c.int(f'step{i}', 0, 3))]
        line.append((line[-1][0] + d[0], line[-1][1] + d[1]))
    c.assume(n == 2 or line[2] != line[0])
    at = c.fix(c.int('at', 0, n - 1))
    got = gf.left_right_foursome(line, at)
    # straight lines are extended; one side of the line has value True
    here = np.array(line[at])
    entry = here - np.array(line[at - 1]) if at > 0 else np.array(line[1]) - here
    leave = np.array(line[at + 1]) - here if at < n - 1 else entry
    # around here, columns in turn: going round by angle, between the way back and the way on
    ring = [(0, 0), (0, 1), (1, 1), (1, 0)]  # (jp, ip) of columns around pillar, in turn
    ways = {(-1, 0): 0, (0, 1): 1, (1, 0): 2, (0, -1): 3}  # way k lies between column k and column k + 1
    back, on = ways[tuple(int(x) for x in -entry)], ways[tuple(int(x) for x in leave)]
    side = {}
    k = (back + 1) % 4
    while True:
        side[ring[k]] = True
        if k == on:
            break
        k = (k + 1) % 4
    want = [[(jp, ip) in side for ip in range(2)] for jp in range(2)]
    flags = [[bool(got[jp, ip]) for ip in range(2)] for jp in range(2)]
    c.check('columns to one side', flags == want or flags == [[not x for x in r] for r in want])
    c.record('sense', flags == want)
    # sense is the same for every line
    c.check('side is always the same', flags == [[not x for x in r] for r in want])


# ---- export and import

UNITS = ('m', 'ft')
FACTOR = {'m': 1.0, 'ft': 0.3048}


def _irregular_grid(c, m, a, crs_uuid = None):
    g = rqi.grid_from_cp(m, a, crs_uuid or m.crs_uuid, ijk_handedness = 'right')
    g.write_hdf5()
    g.create_xml()
    return m.grid(uuid = g.uuid)


@case('C22', 'corner points are exported in units and reference system asked for',
      params = [dict(local = True, form = 'plain')] + [dict(local = False, form = f) for f in ('plain', 'z up', 'rotated')],
      bounds = '1 x 1 x 2 cells with any offsets of the crs and depths, metres or feet for the crs, the global system and the file')
def export(c, local, form):
    xy, z = (UNITS[c.fix(c.int(n, 0, 1))] for n in ('xy', 'z'))
    gxy, gz = ('m', 'ft') if not local and c.fix(c.bool('global differ')) else (None, None)
    system = (None, 'METRIC', 'ENGLISH', 'LAB')[c.fix(c.int('system', 0, 3))]
    if form != 'plain':
        c.assume(gxy is None and system == 'METRIC')
    down = False if form == 'z up' else c.fix(c.bool('down'))
    offset = list(c.reals('offset', 3, 1, 8))
    if form == 'plain' and not down:
        offset[2] = 0.0
    m = _model(c, xy_units = xy, z_units = z, x_offset = offset[0], y_offset = offset[1], z_offset = offset[2],
               z_inc_down = down, rotation = 90.0 if form == 'rotated' else 0.0)
    depth = c.real('depth', 0, 8)
    a = c.array(_corners(c, 1, 1, 2))
    a[..., 2] += depth
    g = _irregular_grid(c, m, a)
    path = os.path.join(c.tmpdir, 'out.corp')
    g.write_nexus_corp(path, local_coords = local, global_xy_units = gxy, global_z_units = gz, nexus_unit_system = system,
                       write_corp_keyword = True, write_units_keyword = True, write_nx_ny_nz = True)
    cp = ld.load_corp_array_from_file(path, (1, 1, 2))
    if system is None:
        system = 'ENGLISH' if (z if local or gz is None else gz) == 'ft' else 'METRIC'
    f = {'METRIC': 1.0, 'ENGLISH': 0.3048, 'LAB': 0.01}[system]
    want = a.copy()
    if form == 'rotated':  # clockwise from local to global
        want[..., 0], want[..., 1] = a[..., 1], -a[..., 0]
    if not local:
        for d in range(3):
            want[..., d] += offset[d]
        if not down:
            want[..., 2] = -want[..., 2]
    want[..., :2] *= FACTOR[xy] / f
    want[..., 2] *= FACTOR[z] / f
    c.close('points are those of the grid', cp, want, 0.001 + 0.001 / f)  # offsets are stored with 3 decimals


@case('C22', 'grid is imported from a corner point file',
      params = [dict(shift = s) for s in (None, 'centre', 'minimum')],
      bounds = '1 x 2 x 2 cells at any place, metres or feet for either direction in file and model, z up or down in either')
def import_grid(c, shift):
    fxy, fz, rxy, rz = (UNITS[c.fix(c.int(n, 0, 1))] for n in ('file xy', 'file z', 'model xy', 'model z'))
    if shift is not None:
        c.assume(fxy == 'ft' and rz == 'm' and fz == rxy)
    fdown, rdown = (c.fix(b) for b in c.bools('down', 2))
    eight = fdown
    at = c.reals('at', 3, 0, 8)
    a = c.array(_corners(c, 1, 2, 2))
    for d in range(3):
        a[..., d] += at[d]
    path = os.path.join(c.tmpdir, 'in.corp')
    _lines(path, _as_file(a, eight))
    mask = None
    off = c.fix(c.int('inactive', 0, 4)) if shift == 'centre' and rdown and fdown else 4
    if off < 4:
        mask = os.path.join(c.tmpdir, 'in.mask')
        _lines(mask, ['! mask'] + ['0' if n == off else '1' for n in range(4)])
    root = os.path.join(c.tmpdir, 'imported')
    m = rqi.import_nexus(root, extent_ijk = (2, 2, 1), corp_file = path, corp_xy_units = fxy, corp_z_units = fz,
                         corp_z_inc_down = fdown, corp_eight_mode = eight, resqml_xy_units = rxy, resqml_z_units = rz,
                         resqml_z_inc_down = rdown, shift_to_local = shift is not None,
                         local_origin_place = shift or 'centre', active_mask_file = mask, use_binary = False,
                         grid_title = 'made')
    m = rq.Model(root + '.epc', quiet = True)
    g = m.grid(title = 'made')
    c.check('extent', tuple(g.extent_kji) == (1, 2, 2))
    c.check('units', g.crs.xy_units == rxy and g.crs.z_units == rz and bool(g.crs.z_inc_down) == rdown)
    want = a.copy()
    want[..., :2] *= FACTOR[fxy] / FACTOR[rxy]
    want[..., 2] *= FACTOR[fz] / FACTOR[rz]
    if fdown != rdown:
        want[..., 2] = -want[..., 2]
    cp = g.corner_points()
    if shift is None:
        c.close('points are those of the file', cp, want, 1.0e-5)
    else:
        for d, o in enumerate((g.crs.x_offset, g.crs.y_offset, g.crs.z_offset)):
            few = [cp[..., d].flatten()[n] for n in (0, 9, 31)]
            c.close('points are those of the file', c.array(few) + o, c.array([want[..., d].flatten()[n] for n in (0, 9, 31)]),
                    2.0e-3)
            if shift == 'minimum':
                c.close('least is one', np.min(cp[..., d]), 1.0, 1.0e-5)
            else:
                c.close('centre is at origin', np.sum(cp[..., d]), 0.0, 1.0e-4)
    inactive = np.zeros(4, dtype = bool) if g.inactive is None else np.array(g.inactive).flatten()
    c.check('inactive cells', [bool(x) for x in inactive] == [n == off for n in range(4)])


@case('C22', 'properties are imported with the grid', bounds = '1 x 2 x 2 cells, any values, whole numbers or not, with nulls')
def import_properties(c):
    a = _corners(c, 1, 2, 2)
    path = os.path.join(c.tmpdir, 'in.corp')
    _lines(path, _as_file(a, False))
    v, w = c.reals('v', 4, 0, 1), c.ints('w', 4, 1, 9)
    f1, f2 = os.path.join(c.tmpdir, 'poro.txt'), os.path.join(c.tmpdir, 'reg.txt')
    _lines(f1, ['! poro'] + [format(x, '') for x in v])
    _lines(f2, [' '.join(format(x, '') for x in w)])
    root = os.path.join(c.tmpdir, 'imported')
    rqi.import_nexus(root, extent_ijk = (2, 2, 1), corp_file = path, use_binary = False,
                     property_array_files = [(f1, 'PORO', 'm3/m3', None, None, False), (f2, 'REGION', None, None, -1, True)],
                     create_property_set = True)
    m = rq.Model(root + '.epc', quiet = True)
    g = m.grid()
    col = g.extract_property_collection()
    for title, want, discrete in (('PORO', v, False), ('REGION', w, True)):
        p = col.singleton(citation_title = title)
        c.check('property is present', p is not None)
        if p is not None:
            c.check('kind of numbers', bool(col.continuous_for_part(p)) != discrete)
            c.check('keyword sets kind', discrete or (col.property_kind_for_part(p) == 'porosity' and
                                                      col.uom_for_part(p) == 'm3/m3'))
            c.close('values are those of the file', col.cached_part_array_ref(p).flatten(), c.array(want))
    c.check('set has the properties', len(m.parts(obj_type = 'PropertySet')) == 1)


@case('C22', 'property is exported and imported', bounds = '1 x 2 x 2 cells, any values, any of the forms of file',
      params = [dict(discrete = b) for b in (False, True)])
def property_files(c, discrete):
    m = _model(c)
    g = _grid(m, 1, 2, 2)
    v = c.ints('v', 4, -50, 50) if discrete else c.reals('v', 4, -50, 50)
    a = c.array(v).reshape((1, 2, 2))
    t, r = (c.fix(b) for b in c.bools('has', 2))
    named = c.fix(c.bool('named'))
    ts = rqt.TimeSeries(m, first_timestamp = '2000-01-01Z', yearly = 3)
    ts.create_xml()
    col = rqp.GridPropertyCollection(g)
    col.add_cached_array_to_imported_list(a, 'made', 'some thing', discrete = discrete, uom = None if discrete else 'm',
                                          property_kind = 'index' if discrete else 'length',
                                          realization = 3 if r else None, time_index = 2 if t else None)
    col.write_hdf5_for_imported_list()
    col.create_xml_for_imported_list_and_add_parts_to_model(time_series_uuid = ts.uuid if t else None)
    col = m.grid(uuid = g.uuid).extract_property_collection()
    d = os.path.join(c.tmpdir, 'files')
    os.makedirs(d, exist_ok = True)
    col.write_nexus_collection(d, use_title_for_keyword = named, columns = 3)
    name = 'some_thing' + ('_t_2' if t else '') + ('_r_3' if r else '')
    c.check('name of file', os.path.exists(os.path.join(d, name)))
    other = rqp.GridPropertyCollection(g)
    if named:
        b = ld.load_array_from_file(os.path.join(d, name), (1, 2, 2), data_type = 'int' if discrete else 'real',
                                    keyword = 'some_thing')
    else:
        other.import_nexus_property_to_cache(os.path.join(d, name), 'THING', discrete = discrete, use_binary = False,
                                             property_kind = 'index' if discrete else 'length')
        other.write_hdf5_for_imported_list()
        other.create_xml_for_imported_list_and_add_parts_to_model()
        col2 = rqp.GridPropertyCollection(g)
        b = col2.cached_part_array_ref(col2.singleton(citation_title = 'THING'))
    c.close('values are those of the property', b, a, TOL)


# ---- geometry of void cells


@case('C22', 'void cells are given the space between others', bounds = 'a column of 4 cells, any present, any depths and thicknesses; '
      'k down or up')
def infill(c):
    there = [c.fix(b) for b in c.bools('there', 4)]
    up = c.fix(c.bool('up'))
    s = -1.0 if up else 1.0
    thick = c.reals('thick', 4, 1, 8)
    gap = c.reals('gap', 4, 0, 8)
    x0 = c.real('x', 1, 100)
    depth, thickness, x, y = (c.array(np.zeros((4, 1, 1))) for _ in range(4))
    at, mids = 1000.0, {}
    for k in range(4):
        if there[k]:
            at = at + s * (gap[k] + thick[k] / 2.0)
            depth[k, 0, 0], thickness[k, 0, 0] = at, thick[k]
            mids[k] = at
            at = at + s * thick[k] / 2.0
            x[k, 0, 0], y[k, 0, 0] = x0 + 8.0 * k, 50.0 - 4.0 * k
    snap = c.fix(c.bool('snap'))
    gf.infill_block_geometry((4, 1, 1), depth, thickness, x, y, k_increase_direction = 'up' if up else 'down',
                             snap_to_top_and_base = snap)
    known = [k for k in range(4) if there[k]]
    ends = [(k, known[0], -1.0) for k in range(known[0])] + [(k, known[-1], 1.0) for k in range(known[-1] + 1, 4)] if known else []
    for k, near, way in ends:
        c.same('no thickness beyond those present', thickness[k, 0, 0], 0.0)
        if snap:
            c.close('cells beyond lie on face of the nearest', depth[k, 0, 0], mids[near] + way * s * thick[near] / 2.0)
            c.close('x is that of the nearest', x[k, 0, 0], x[near, 0, 0])
            c.close('y is that of the nearest', y[k, 0, 0], y[near, 0, 0])
        else:
            c.same('cells beyond have no depth', depth[k, 0, 0], 0.0)
    for k in known:
        c.close('x of cells present is as before', x[k, 0, 0], x0 + 8.0 * k)
        c.close('cells present keep their depth', depth[k, 0, 0], mids[k])
        c.close('cells present keep their thickness', thickness[k, 0, 0], thick[k])
    for lo, hi in zip(known[:-1], known[1:]):
        if hi - lo > 1:
            n = hi - lo - 1
            for k in range(lo + 1, hi):
                c.close('void cells share the space', thickness[k, 0, 0] * n, gap[hi], 1.0e-5)
            for k in range(lo + 1, hi + 1):
                c.close('cells follow on', depth[k, 0, 0] - s * thickness[k, 0, 0] / 2.0,
                        depth[k - 1, 0, 0] + s * thickness[k - 1, 0, 0] / 2.0, 1.0e-5)
            f = [(m + 0.5) / n for m in range(n)]
            for m, k in enumerate(range(lo + 1, hi)):
                c.close('x is between', x[k, 0, 0], x[lo, 0, 0] + f[m] * (x[hi, 0, 0] - x[lo, 0, 0]), 1.0e-5)
                c.close('y is between', y[k, 0, 0], y[lo, 0, 0] + f[m] * (y[hi, 0, 0] - y[lo, 0, 0]), 1.0e-5)
