"""C19: unstructured grids."""
from symx.run import case
import numpy as np
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.olio.transmission as rqtr
import resqpy.olio.triangulation as tri
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.unstructured as rug
from checks.c08 import _model, _reopen
from checks.c11 import Geom, CORNERS
from checks.c16 import _stored

META = dict(
    title = 'Unstructured grids keep their cells, faces and nodes and answer by them',
    statement = 'For every unstructured grid of any cell shape, the points, faces of each cell, nodes of each face, handedness '
    'and inactive cells loaded from file are those written, and every query (neighbours, outer and inner faces with or without '
    'a mask, nodes, edges, centres, corner points, thicknesses, areas and volumes in any units) gives the answer which those '
    'lists and points imply. A grid made from an IJK grid, from surfaces or from a single cell has the cells, faces, inherited '
    'properties, volumes and transmissibilities which its source and its own description define.',
    text = 'any points and handedness, any inactive cells and mask, any heights of surfaces, permeabilities and net to gross',
    why = 'jagged index arrays with cumulative lengths, shared faces and node orders invite off by one and ordering slips which '
    'a test on one regular block does not show',
    files = ['resqpy/unstructured/_unstructured_grid.py', 'resqpy/unstructured/_hexa_grid.py',
             'resqpy/unstructured/_prism_grid.py', 'resqpy/unstructured/_tetra_grid.py',
             'resqpy/unstructured/_pyramid_grid.py', 'resqpy/olio/transmission.py', 'resqpy/olio/volume.py'],
    mechanism = [('jagged arrays of faces per cell and nodes per face', 'resqpy/unstructured/_unstructured_grid.py'),
                 ('HexaGrid.from_unsplit_grid', 'resqpy/unstructured/_hexa_grid.py'),
                 ('VerticalPrismGrid.from_surfaces', 'resqpy/unstructured/_prism_grid.py'),
                 ('half_cell_t_vertical_prism', 'resqpy/olio/transmission.py')],
    observe = ['arrays of the grid in memory and loaded from file, results of the query methods'],
    note = 'grids of up to 12 cells; volumes and areas with a few coordinates free; reals idealised; where scipy triangulates a '
    'face it is stood for by either diagonal; grids from seed points not covered')

LO, HI = -1.0e6, 1.0e6

# cells as lists of faces, as lists of nodes
BLOCK = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (3, 2, 6, 7), (0, 4, 7, 3), (1, 2, 6, 5)]
NEXT = [(1, 2, 6, 5), (8, 9, 11, 10), (1, 8, 10, 5), (2, 9, 11, 6), (1, 2, 9, 8), (5, 6, 11, 10)]
TOPOLOGY = {
    'hexahedral': (12, [BLOCK, NEXT]),
    'pyramidal': (6, [[(0, 1, 4), (0, 1, 2, 3), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
                      [(5, 3, 0), (5, 0, 1), (5, 1, 2), (2, 3, 5), (3, 2, 1, 0)]]),
    'tetrahedral': (5, [[(0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)], [(1, 2, 3), (4, 1, 2), (4, 2, 3), (4, 3, 1)]]),
    'prism': (8, [[(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
                  [(1, 2, 6), (5, 7, 4), (1, 6, 7, 4), (2, 1, 4, 5), (6, 2, 5, 7)]]),
    'polyhedral': (9, [[(0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
                       [(1, 2, 4), (5, 1, 2), (5, 2, 4), (5, 4, 1)],
                       [(2, 4, 5), (6, 7, 8), (2, 4, 7, 6), (4, 5, 8, 7), (5, 2, 6, 8)]]),
}
CLASSES = {'hexahedral': rug.HexaGrid, 'pyramidal': rug.PyramidGrid, 'tetrahedral': rug.TetraGrid, 'prism': rug.PrismGrid,
           'polyhedral': rug.UnstructuredGrid}
# points which give each grid sensible cells, by node
PLACES = {
    'hexahedral': [(0, 0, 0), (2, 0, 0.5), (2.5, 3, 0), (0, 3, 0.25), (0, 0, 4), (2, 0, 4), (2, 3, 4.5), (0, 3, 4), (4, 0, 0),
                   (4, 3, 0), (4, 0, 4), (4, 3, 4)],
    'pyramidal': [(0, 0, 0), (2, 0, 0), (2, 3, 0), (0, 3, 0), (1, 1, 4), (1, 1.5, -2)],
    'tetrahedral': [(0, 0, 0), (2, 0, 0), (0, 3, 0), (0.5, 0.5, 4), (3, 3, 3)],
    'prism': [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 3), (2, 0, 3), (0, 2, 3), (2, 2, 0.5), (2, 2, 3.5)],
    'polyhedral': [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 2), (4, 1, 1), (2, 2, 5), (1, 1, 5), (4, 1, 5)],
}


class Lists:
    """the faces of a grid and where each cell refers to them"""

    def __init__(self, shape, turn = 0):
        self.nodes, cells = TOPOLOGY[shape]
        faces, self.cells = [], []
        for cell in cells:
            row = []
            for f in cell:
                same = [e for e, g in enumerate(faces) if set(g) == set(f)]
                if not same:
                    faces.append(f)
                row.append(same[0] if same else len(faces) - 1)
            self.cells.append(row)
        if turn:   # another order of the faces
            n = len(faces)
            faces = [faces[(e + turn) % n] for e in range(n)]
            self.cells = [[(e - turn) % n for e in row] for row in self.cells]
        self.faces = faces

    def sharing(self, off):
        """(cells using each face) other than those excluded"""
        return [[x for x, row in enumerate(self.cells) if f in row and not off[x]] for f in range(len(self.faces))]


def _build(c, m, shape, L, p, right = None, crs_uuid = None):
    g = CLASSES[shape](m, title = 'ug')
    g.crs_uuid = m.crs_uuid if crs_uuid is None else crs_uuid
    g.set_cell_count(len(L.cells))
    g.node_count, g.face_count = L.nodes, len(L.faces)
    g.points_cached = p
    g.nodes_per_face = np.array([x for f in L.faces for x in f], dtype = int)
    g.nodes_per_face_cl = np.array([sum(len(x) for x in L.faces[:e + 1]) for e in range(len(L.faces))], dtype = int)
    g.faces_per_cell = np.array([x for r in L.cells for x in r], dtype = int)
    g.faces_per_cell_cl = np.array([sum(len(x) for x in L.cells[:e + 1]) for e in range(len(L.cells))], dtype = int)
    g.cell_face_is_right_handed = np.ones(len(g.faces_per_cell), dtype = bool) if right is None else right
    return g


def _ordered(shape, L, cell):
    """faces of the cell, as a grid of this shape lists them"""
    f = L.cells[cell]
    return f if shape != 'pyramidal' else sorted(f, key = lambda x: len(L.faces[x]) != 4)


SHAPES = [dict(shape = s, turn = t) for s in TOPOLOGY for t in (0, 4)]


@case('C19', bounds = 'two or three cells of each shape; any points, handedness and inactive cells', params = SHAPES)
def stored(c, shape, turn):
    L = Lists(shape, turn)
    m = c.once('model', lambda: _model(c))
    p = c.reals('p', (L.nodes, 3), LO, HI)
    right = c.bools('right', (sum(len(x) for x in L.cells),))
    off = c.bools('off', (len(L.cells),))
    g = _build(c, m, shape, L, p, right)
    g.inactive = off
    g.write_hdf5()
    g.create_xml()
    m2 = _reopen(c, m)
    h = grr.any_grid(m2, uuid = g.uuid)
    c.check('same class', type(h) is CLASSES[shape])
    c.same('counts', (h.cell_count, h.node_count, h.face_count, h.cell_shape), (len(L.cells), L.nodes, len(L.faces), shape))
    for name, x in (('in memory', g), ('loaded', h)):
        x.cache_all_geometry_arrays()
        c.same(name + ' points', x.points_cached, p)
        c.same(name + ' faces', [[int(y) for y in x.node_indices_for_face(f)] for f in range(x.face_count)],
               [list(f) for f in L.faces])
        c.same(name + ' cells', [[int(y) for y in x.face_indices_for_cell(i)] for i in range(x.cell_count)],
               [_ordered(shape, L, i) for i in range(len(L.cells))])
        n = 0
        for i, row in enumerate(L.cells):
            fs, hs = x.face_indices_and_handedness_for_cell(i)
            c.same(name + f' faces listed with handedness {i}', [int(y) for y in fs], _ordered(shape, L, i))
            given = {f: right[n + e] for e, f in enumerate(row)}
            c.same(name + f' handedness {i}', hs, [given[int(f)] for f in fs])
            n += len(row)
        c.same(name + ' inactive', x.inactive, off)
        c.same(name + ' active count', x.active_cell_count(), sum(bool(c.Not(o)) for o in off))
    c.check('crs', h.crs_uuid == g.crs_uuid)
    m2.h5_release()


@case('C19', bounds = 'two or three cells of each shape, in memory or loaded; any points and mask', params = SHAPES)
def queries(c, shape, turn):
    L = Lists(shape, turn)
    m = c.once('model', lambda: _model(c))
    p = c.reals('p', (L.nodes, 3), LO, HI)
    off = [bool(c.fix(c.bool(f'off{e}'))) for e in range(len(L.cells))]
    g = _build(c, m, shape, L, p)
    g.write_hdf5()
    g.create_xml()
    mean = lambda rows: [sum(r[a] for r in rows) / len(rows) for a in range(3)]
    fc = [mean([p[x] for x in f]) for f in L.faces]
    m2 = _reopen(c, m)

    def fresh():
        return CLASSES[shape](m2, uuid = g.uuid)
    for f in (0, len(L.faces) - 1):
        c.close('face centre, first question', fresh().face_centre_point(f), fc[f])
    c.close('cell centre, first question', fresh().cell_centre_point(1), mean([fc[f] for f in L.cells[1]]))
    h = fresh()
    cpf = h.masked_cells_per_face(np.array(off))
    share = L.sharing(off)
    c.same('cells per face with mask', [sorted(int(x) for x in r if x >= 0) for r in cpf], share)
    c.same('outer faces with mask', [int(x) for x in h.external_face_indices_for_masked_cells(np.array(off))],
           [f for f, s in enumerate(share) if len(s) == 1])
    c.same('inner faces with mask', [int(x) for x in h.internal_face_indices_for_masked_cells(np.array(off))],
           [f for f, s in enumerate(share) if len(s) == 2])
    for name, x in (('in memory', g), ('loaded', fresh())):
        share = L.sharing([False] * len(L.cells))
        c.same(name + ' outer faces', [int(y) for y in x.external_face_indices()], [f for f, s in enumerate(share) if len(s) == 1])
        c.same(name + ' cells per face', [sorted(int(y) for y in r if y >= 0) for r in x.set_cells_per_face()], share)
        x.check_indices()
        c.same(name + ' most faces', x.max_face_count_for_any_cell(), max(len(r) for r in L.cells))
        c.same(name + ' most nodes', x.max_node_count_for_any_face(), max(len(r) for r in L.faces))
        c.same(name + ' face counts', [x.face_count_for_cell(i) for i in range(x.cell_count)], [len(r) for r in L.cells])
        c.same(name + ' node counts', [x.node_count_for_face(i) for i in range(x.face_count)], [len(r) for r in L.faces])
        for i, row in enumerate(L.cells):
            c.same(name + ' nodes of cell', sorted(int(y) for y in x.distinct_node_indices_for_cell(i)),
                   sorted({y for f in row for y in L.faces[f]}))
            e = [tuple(sorted(int(z) for z in y)) for y in x.distinct_edges_for_cell(i)]
            c.same(name + ' edges of cell', sorted(e), sorted({tuple(sorted((L.faces[f][y - 1], L.faces[f][y])))
                                                               for f in row for y in range(len(L.faces[f]))}))
            c.close(name + ' face centres of cell', x.cell_face_centre_points(i), [fc[f] for f in _ordered(shape, L, i)])
            c.close(name + ' centre of cell', x.centre_point(i), mean([fc[f] for f in row]))
        for f, nodes in enumerate(L.faces):
            c.same(name + ' edges of face', [tuple(int(z) for z in y) for y in x.edges_for_face(f)],
                   [(nodes[y - 1], nodes[y]) for y in range(len(nodes))])
            c.same(name + ' ordered edges of face',
                   [tuple(int(z) for z in y) for y in x.edges_for_face_with_node_indices_ordered_within_pairs(f)],
                   [tuple(sorted((nodes[y - 1], nodes[y]))) for y in range(len(nodes))])
        c.close(name + ' centres', x.centre_point(), [mean([fc[f] for f in row]) for row in L.cells])
        c.close(name + ' cached centre', x.centre_point(1), mean([fc[f] for f in L.cells[1]]))
    m2.h5_release()


@case('C19', bounds = 'cells of each shape, one node anywhere', params = [dict(shape = s) for s in TOPOLOGY], max_paths = 200)
def box(c, shape):
    L = Lists(shape)
    m = c.once('model', lambda: _model(c))
    n = (0, 3, L.nodes - 1)[c.fix(c.int('node', 0, 2))]
    q = _moved(c, PLACES[shape], n, 20.0, axes = (c.fix(c.int('axis', 0, 2)),))
    g = _build(c, m, shape, L, q)
    b = g.xyz_box()
    for a in range(3):
        v = [q[n, a] for n in range(L.nodes)]
        c.check('box holds all points', c.And(*[c.And(b[0, a] <= x, x <= b[1, a]) for x in v]))
        c.check('box is met', c.And(c.Or(*[b[0, a] == x for x in v]), c.Or(*[b[1, a] == x for x in v])))


def _moved(c, places, node, reach, axes = (0, 1, 2)):
    q = [[float(x) for x in r] for r in places]
    for a in axes:
        q[node][a] = q[node][a] + c.real(f'd{a}', -reach, reach)
    return c.array(q)


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def _det(a, b, d):
    return _dot(a, _cross(b, d))


def _minus(a, b):
    return [x - y for x, y in zip(a, b)]


def _solid(p, faces, out):
    """six times the volume within faces (triangles, or quadrilaterals taken as bilinear), each seen in order from outside"""
    v = 0.0
    for f, o in zip(faces, out):
        q = [p[x] for x in f]
        if len(q) == 3:
            t = _det(*q)
        else:   # mean of the two ways of dividing
            t = 0.5 * (_det(q[0], q[1], q[2]) + _det(q[0], q[2], q[3]) + _det(q[0], q[1], q[3]) + _det(q[1], q[2], q[3]))
        v = v + (t if o else -t)
    return v


def _outward(L, cell, p):
    """whether each face of a cell is in anticlockwise order seen from outside, in a right handed system, by unmoved points"""
    p = np.array(p, dtype = float)
    mid = p[sorted({x for f in L.cells[cell] for x in L.faces[f]})].mean(axis = 0)
    out = []
    for f in L.cells[cell]:
        q = p[list(L.faces[f])]
        out.append(float(np.dot(np.cross(q[1] - q[0], q[2] - q[1]), q.mean(axis = 0) - mid)) > 0.0)
    return out


VOLUMES = [dict(shape = s, hand = h) for s in ('hexahedral', 'pyramidal', 'tetrahedral') for h in ('down', 'up')]
IN_M = {'m': 1.0, 'ft': 0.3048}
IN_M3 = {'m3': 1.0, 'ft3': 0.3048**3, 'bbl': 0.158987294928}


@case('C19', bounds = 'cell of each shape with one node moved; z up or down; m or ft, and any of three volume units', params = VOLUMES)
def volumes(c, shape, hand):
    L = Lists(shape)
    units = c.fix(c.int('units', 0, 3))
    xy, z = (('m', 'm'), ('ft', 'ft'), ('m', 'ft'), ('ft', 'm'))[units]
    want = (None, 'm3', 'ft3', 'bbl')[c.fix(c.int('want', 0, 3))]
    m = c.once(f'model{units}', lambda: _model(c, name = f'm{units}', xy_units = xy, z_units = z, z_inc_down = hand == 'down'))
    crs = rqc.Crs(m, uuid = m.crs_uuid)
    cell = 1
    places = PLACES[shape]
    node = (min(x for f in L.cells[cell] for x in L.faces[f]), max(x for f in L.cells[cell] for x in L.faces[f]))[c.fix(c.int('node', 0, 1))]
    q = _moved(c, places, node, 0.4)
    out = _outward(L, cell, places)
    turned = [o == bool(crs.is_right_handed_xyz()) for o in out]   # order of the nodes of each face, as the crs sees it
    right = [False] * sum(len(r) for r in L.cells)
    for e, o in enumerate(turned):
        right[len(L.cells[0]) + e] = o
    g = _build(c, m, shape, L, q, np.array(right, dtype = bool))
    v = _solid(q, [L.faces[f] for f in L.cells[cell]], out) / 6.0
    if want is None and xy == z:
        f = 1.0
    else:
        f = IN_M[xy] * IN_M[xy] * IN_M[z] / IN_M3[want or 'm3']
    c.close('volume', g.volume(cell, required_uom = want), v * f, tol = 1.0e-6)


def _cell_faces(G, cell):
    """nodes of the six faces of an IJK cell, as (raw layer, pillar), K-, K+, J-, J+, I-, I+"""
    k, j, i = cell
    at = lambda kp, jp, ip: (G.raw[k] + kp, G.map[j, i, jp, ip])
    out = []
    for axis in range(3):
        for pol in range(2):
            out.append({at(*[pol if a == axis else x[a - (a > axis)] for a in range(3)]) for x in np.ndindex(2, 2)})
    return out


@case('C19', bounds = 'IJK grid of up to 3 x 2 x 3 cells, any points and inactive cells', params = [
    dict(n = (2, 2, 3), write = None), dict(n = (1, 2, 2), write = True), dict(n = (3, 2, 1), write = False),
    dict(n = (3, 2, 2), write = None, _tier = 'thorough')])
def from_ijk(c, n, write):
    G = Geom(c, *n)
    off = c.bools('off', n)
    fv = c.reals('v', n, LO, HI)
    iv = c.ints('n', n, -1000, 1000)
    ov = c.reals('o', n, 0.0, 1.0)
    m, g = _stored(c, G, off, [('real', fv, dict(property_kind = 'length', uom = 'm')),
                               ('whole', iv, dict(property_kind = 'some code', discrete = True, null_value = -9999)),
                               ('one', ov, dict(property_kind = 'porosity', uom = 'm3/m3', realization = 3))])
    take = bool(c.fix(c.bool('inherit')))
    h = rug.HexaGrid.from_unsplit_grid(m, g.uuid, inherit_properties = take, title = 'hexa', write_active = write)
    m2 = _reopen(c, m)
    keep = take or write is not False
    seen = {}
    for name, x in (('in memory', h), ('loaded', grr.any_grid(m2, uuid = h.uuid))):
        c.check('class', type(x) is rug.HexaGrid)
        x.check_indices()
        x.check_hexahedral()
        c.check(name + ' crs', x.crs_uuid == g.crs_uuid)
        p = x.points_ref()
        c.same(name + ' points', p, G.p.reshape((-1, 3)))
        cells = list(np.ndindex(*n))
        c.same(name + ' counts', (x.cell_count, x.node_count), (len(cells), G.nkp * G.npl))
        used = {}
        for e, cell in enumerate(cells):
            want = _cell_faces(G, cell)
            fs = [int(y) for y in x.face_indices_for_cell(e)]
            got = [[divmod(int(y), G.npl) for y in x.node_indices_for_face(f)] for f in fs]
            c.same(name + f' faces {cell}', [set(y) for y in got], want)
            for y in got:   # each face listed around, not across
                c.check(name + f' order of nodes {cell}', all(sum(a != b for a, b in zip(_place(G, y[z - 1]), _place(G, y[z]))) == 1
                                                              for z in range(4)))
            for f in fs:
                used.setdefault(f, []).append(e)
        c.same(name + ' face count', x.face_count, len(used))
        c.check(name + ' shared faces', all(len(y) == 1 or len(y) == 2 for y in used.values()) and len({
            frozenset(int(z) for z in x.node_indices_for_face(f)) for f in used}) == len(used))
        c.same(name + ' cells per face', [[int(z) for z in y if z >= 0] for y in x.set_cells_per_face()],
               [used[f] for f in range(len(used))])
        if name == 'in memory' or keep:
            c.same(name + ' inactive', x.inactive, off.reshape(-1))
        corner = x.corner_points(len(cells) - 1)
        c.same(name + ' corner points', corner, [G.at(*cells[-1], *y) for y in CORNERS])
        if name == 'loaded':
            col = x.extract_property_collection()
            for title, values in (('real', fv), ('whole', iv), ('one', ov)):
                parts = [y for y in col.parts() if col.citation_title_for_part(y) == title]
                c.same(title + ' inherited', len(parts), 1 if take else 0)
                if not take:
                    continue
                y = parts[0]
                c.same(title, col.cached_part_array_ref(y), values.reshape(-1))
                c.same(title + ' nature', (col.continuous_for_part(y), col.indexable_for_part(y), col.count_for_part(y),
                                           col.property_kind_for_part(y), col.uom_for_part(y), col.null_value_for_part(y)
                                           if title == 'whole' else None, col.realization_for_part(y)),
                       {'real': (True, 'cells', 1, 'length', 'm', None, None),
                        'whole': (False, 'cells', 1, 'some code', None, -9999, None),
                        'one': (True, 'cells', 1, 'porosity', 'm3/m3', None, 3)}[title])
    m2.h5_release()


def _place(G, node):
    return (node[0],) + divmod(node[1], G.ni + 1)


@case('C19', bounds = 'IJK cell with one corner moved, z up or down, left or right handed grid; any volume unit', params = [
    dict(down = d, mirror = r) for d in (False, True) for r in (False, True)])
def ijk_volume(c, down, mirror):
    d = [c.real(f'd{a}', -0.3, 0.3) for a in range(3)]

    def points(G):
        out = []
        for k, j, i in np.ndindex(G.nkp, G.nj + 1, G.ni + 1):
            x = [1.5 * i + 0.25 * k, 2.0 * (G.nj - j if mirror else j), 1.25 * (k if down else -k) + 0.125 * i]
            if (k, j, i) == (1, 1, 1):
                x = [a + b for a, b in zip(x, d)]
            out.append(x)
        return c.array(out).reshape((G.nkp, G.nj + 1, G.ni + 1, 3))
    G = Geom(c, 1, 2, 2, points = points, crs = dict(z_inc_down = down, xy_units = 'm', z_units = 'm'))
    G.g.grid_is_right_handed = mirror   # I east, J north and K down are left handed
    m, g = _stored(c, G)
    h = rug.HexaGrid.from_unsplit_grid(m, g.uuid, inherit_properties = False)
    want = (None, 'bbl')[c.fix(c.int('want', 0, 1))]
    for e, cell in enumerate(np.ndindex(1, 2, 2)):
        faces = [[(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)], [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)],
                 [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)], [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)],
                 [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)], [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        v = _solid({x: G.at(*cell, *x) for x in CORNERS}, faces, [True] * 6) / 6.0
        sign = -1.0 if down != mirror else 1.0   # faces as listed are clockwise seen from outside for K with z, J with y, I with x
        c.close('volume', h.volume(e, required_uom = want), v * sign * (1.0 if want is None else 1.0 / IN_M3['bbl']), tol = 1.0e-6)


# column points (x, y) and triangles
PLAN = [(0.0, 0.0), (4.0, 0.0), (1.0, 3.0), (5.0, 4.0), (8.0, 1.0)]
TRIS = [(0, 1, 2), (3, 2, 1), (1, 4, 3)]
BIG = [(-20.0, -20.0), (32.0, -16.0), (-8.0, 30.0)]          # covers all of the plan
PART = [(-2.0, -2.0), (6.0, -2.0), (-2.0, 6.0)]              # covers the first three points
COVERED = {'big': range(5), 'part': range(3)}


def _height(tri, z, xy):
    (x0, y0), (x1, y1), (x2, y2) = tri
    d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    u = ((xy[0] - x0) * (y2 - y0) - (x2 - x0) * (xy[1] - y0)) / d
    v = ((x1 - x0) * (xy[1] - y0) - (xy[0] - x0) * (y1 - y0)) / d
    return z[0] + u * (z[1] - z[0]) + v * (z[2] - z[0])


def _prisms(c, m, how, layers, flat = False, heights = None, **k):
    """(grid, heights of nodes per surface); how is plan (top surface defines columns) or given (columns given)"""
    top = c.reals('top', (5,), 0.0, 10.0) if heights is None else heights(0)
    z = [[top[x] for x in range(5)]]

    def make(title, xy, zs, tris):
        s = rqs.Surface(m, crs_uuid = m.crs_uuid, title = title)
        s.set_from_triangles_and_points(np.array(tris, dtype = int), c.array([[*a, b] for a, b in zip(xy, zs)]))
        return s
    ss = [make('top', PLAN, z[0], TRIS)]
    for layer in range(1, layers + 1):
        what = 'part' if how == 'uncovered' and layer == 2 else 'big'
        xy = PART if what == 'part' else BIG
        if heights is None:
            h = c.reals(f'h{layer}', (3,), 20.0 * layer, 20.0 * layer + 10.0)
        else:
            h = heights(layer)
        ss.append(make(f's{layer}', xy, h, [(0, 1, 2)]))
        z.append([_height(xy, h, PLAN[x]) if x in COVERED[what] else z[-1][x] for x in range(5)])
    if how in ('given', 'given xyz'):
        pts = np.array(PLAN if how == 'given' else [(*x, -3.0) for x in PLAN])
        k = dict(k, column_points = pts, column_triangles = np.array(TRIS))
    return rug.VerticalPrismGrid.from_surfaces(m, ss, title = 'prisms', **k), z


PRISMS = [dict(how = h, layers = n) for h, n in (('plan', 2), ('plan', 1), ('given', 1), ('given xyz', 2), ('uncovered', 3))]


@case('C19', bounds = 'columns of three triangles, one to three layers, surfaces at any heights, perhaps not covering', params = PRISMS)
def prisms(c, how, layers):
    m = c.once('model', lambda: _model(c))
    g, z = _prisms(c, m, how, layers)
    g.write_hdf5()
    g.create_xml()
    m2 = _reopen(c, m)
    e = 1.0e-6
    at = lambda layer, n: [*PLAN[n], z[layer][n]]
    cells = [(layer, t) for layer in range(layers) for t in range(len(TRIS))]
    n_cols = len(TRIS)
    fresh = lambda: rug.VerticalPrismGrid(m2, uuid = g.uuid)
    x = fresh()
    c.close('centre of one cell, first question', x.cell_centre_point(1).reshape((3,)),
            [sum(at(b, n)[a] for n in TRIS[1] for b in (0, 1)) / 6.0 for a in range(3)], tol = e)
    c.close('thickness of one cell, first question', fresh().thickness(0), sum(z[1][n] - z[0][n] for n in TRIS[0]) / 3.0, tol = e)
    for name, x in (('in memory', g), ('loaded', fresh())):
        x.check_indices()
        x.check_prism()
        c.same(name + ' layers', (x.nk, x.cell_count), (layers, len(cells)))
        c.same(name + ' columns', x.column_count(), n_cols)
        c.close(name + ' points', x.points_ref(), [at(layer, n) for layer in range(layers + 1) for n in range(5)], tol = e)
        xyz = x.points_ref()
        same = lambda f: [divmod(int(y), 5) for y in x.node_indices_for_face(f)]
        c.same(name + ' columns as given', [tuple(int(y) for y in t) for t in x.triangulation()], TRIS)
        c.same(name + ' top faces', [int(y) for y in x.top_faces()], [int(x.face_indices_for_cell(t)[0]) for t in range(n_cols)])
        used = {}
        for i, (layer, t) in enumerate(cells):
            fs = [int(y) for y in x.face_indices_for_cell(i)]
            got = [same(f) for f in fs]
            c.same(name + ' top and base', got[:2], [[(layer + b, n) for n in TRIS[t]] for b in (0, 1)])
            edges = [(TRIS[t][y - 1], TRIS[t][y]) for y in range(3)]
            c.same(name + ' sides', [set(y) for y in got[2:]], [{(layer + b, n) for b in (0, 1) for n in y} for y in edges])
            for y in got[2:]:
                c.check(name + ' order of side nodes', all((y[w - 1][0] != y[w][0]) != (y[w - 1][1] != y[w][1]) for w in range(4)))
            for f in fs:
                used.setdefault(f, []).append(i)
        c.same(name + ' cells per face', [[int(b) for b in y if b >= 0] for y in x.set_cells_per_face()],
               [used[f] for f in range(x.face_count)])
        corner = lambda i: [[at(cells[i][0] + b, n) for n in TRIS[cells[i][1]]] for b in (0, 1)]
        thick = lambda i: sum(z[cells[i][0] + 1][n] - z[cells[i][0]][n] for n in TRIS[cells[i][1]]) / 3.0
        mid = lambda i: [sum(corner(i)[b][n][a] for b in (0, 1) for n in range(3)) / 6.0 for a in range(3)]
        every = range(len(cells))
        c.close(name + ' corner points of a cell', x.corner_points(len(cells) - 1), corner(len(cells) - 1), tol = e)
        c.close(name + ' thickness of a cell', x.thickness(len(cells) - 1), thick(len(cells) - 1), tol = e)
        c.close(name + ' centre of a cell', x.centre_point(0), mid(0), tol = e)
        c.close(name + ' corner points', x.corner_points(), [corner(i) for i in every], tol = e)
        c.close(name + ' thicknesses', x.thickness(), [thick(i) for i in every], tol = e)
        c.close(name + ' centres', x.centre_point(), [mid(i) for i in every], tol = e)
        c.close(name + ' cached corner points', x.corner_points(1), corner(1), tol = e)
        c.close(name + ' cached thickness', x.thickness(1), thick(1), tol = e)
    x = grr.any_grid(m2, uuid = g.uuid)
    c.check('loaded as any grid', type(x) is rug.PrismGrid)
    c.close('points loaded as any grid', x.points_ref(), [at(layer, n) for layer in range(layers + 1) for n in range(5)], tol = e)
    m2.h5_release()


# horizontal directions from the middle of a column to the middle of each side, in order of the sides
def _sides(t):
    mid = np.mean([PLAN[n] for n in TRIS[t]], axis = 0)
    out = []
    for e in range(3):
        a, b = np.array(PLAN[TRIS[t][e - 1]]), np.array(PLAN[TRIS[t][e]])
        out.append((0.5 * (a + b) - mid, b - a))
    return out


@case('C19', bounds = 'columns of three triangles, two layers; any permeabilities, net to gross and thicknesses', params = [
    dict(how = h, uom = u) for h in ('function', 'triple', 'horizontal', 'single', 'stored') for u in ('m', 'ft') if u == 'm' or h == 'function'])
def prism_flow(c, how, uom):
    m = c.once('model', lambda: _model(c, xy_units = uom, z_units = uom))
    th = c.reals('thickness', (2,), 1.0, 50.0)
    zs = [5.0, 5.0 + th[0], 5.0 + th[0] + th[1]]
    g, z = _prisms(c, m, 'plan', 2, heights = lambda s: [zs[s]] * (5 if s == 0 else 3))
    n = len(TRIS) * 2
    kk = c.reals('k', (n, 3), 0.0, 1000.0)
    if how in ('horizontal', 'single', 'stored'):
        one = c.reals('k1', (n,), 0.0, 1000.0)
        kk = c.array([[one[i]] * 3 for i in range(n)])
    kv = c.reals('kv', (n,), 0.0, 1000.0)
    ntg = c.reals('ntg', (n,), 0.0, 1.0) if how in ('function', 'triple') else None
    if how == 'function':
        given = bool(c.fix(c.bool('vertical given')))
        net = bool(c.fix(c.bool('net given')))
        t = rqtr.half_cell_t_vertical_prism(g, triple_perm_horizontal = kk, perm_k = kv if given else None, ntg = ntg if net else None)
    else:
        given, net = how != 'single', ntg is not None
        g.write_hdf5()
        g.create_xml()
        perm = dict(property_kind = 'rock permeability', uom = 'mD', support_uuid = g.uuid, source_info = 'test')
        P = rqp.Property.from_array
        if how == 'triple':
            P(m, kk, keyword = 'kh', count = 3, indexable_element = 'cells', **perm)
        elif how in ('horizontal', 'single', 'stored'):
            P(m, kk[:, 0], keyword = 'kh', indexable_element = 'cells',
              **(dict(perm, facet_type = 'direction', facet = 'horizontal') if how != 'single' else perm))
        if given:
            P(m, kv, keyword = 'kv', indexable_element = 'cells', facet_type = 'direction', facet = 'K', **perm)
        if net:
            P(m, ntg, keyword = 'ntg', source_info = 'test', property_kind = 'net to gross ratio', uom = 'm3/m3',
              support_uuid = g.uuid, indexable_element = 'cells')
        if how == 'stored':
            given_t = c.reals('t', (n, 5), 0.0, 10.0)
            P(m, given_t.reshape((-1,)), keyword = 'half t', source_info = 'test', property_kind = 'transmissibility',
              uom = 'cP.m3/(d.kPa)', support_uuid = g.uuid, indexable_element = 'faces per cell')
        m2 = _reopen(c, m)
        x = rug.VerticalPrismGrid(m2, uuid = g.uuid)
        t = x.half_cell_transmissibility()
        if how == 'stored':
            c.same('stored transmissibilities', t, given_t)
            t = rug.VerticalPrismGrid(m2, uuid = g.uuid).half_cell_transmissibility(use_property = False)
            wide = rug.VerticalPrismGrid(m2, uuid = g.uuid).half_cell_transmissibility(use_property = False, tolerance = 1000.0)
            c.check('not computed for short axes', np.all(np.isnan(wide)))
    factor = 8.527017e-5 if uom == 'm' else 1.127116e-3
    want = []
    for i in range(n):
        layer, col = divmod(i, len(TRIS))
        a = [np.array(PLAN[x]) for x in TRIS[col]]
        area = abs(float(np.cross(a[1] - a[0], a[2] - a[0]))) * 0.5
        # transmissibilities divided or multiplied by the thickness, as appropriate, are linear
        v = kv[i] if given else sum(kk[i, e] for e in range(3)) / 3.0
        top = v * (factor * area * 2.0)
        sides = []
        for e, (d, along) in enumerate(_sides(col)):
            length = float(np.hypot(*d))
            width = abs(float(along[0] * d[1] - along[1] * d[0])) / length
            sides.append(kk[i, e] * (factor * width / length) * th[layer] * (ntg[i] if net else 1.0))
        c.close(f'vertical {i}', [t[i, 0] * th[layer], t[i, 1] * th[layer]], [top, top], tol = 1.0e-6)
        for e in range(3):
            c.close(f'horizontal {i} {e}', t[i, 2 + e], sides[e], tol = 1.0e-6)


@case('C19', bounds = 'columns of three triangles, two layers; any permeabilities; azimuths of one value or one for each cell', params = [
    dict(per_cell = p) for p in (False, True)])
def directional(c, per_cell):
    m = c.once('model', lambda: _model(c))
    g, z = _prisms(c, m, 'plan', 2, heights = lambda s: [5.0 * s] * (5 if s == 0 else 3))
    n = len(TRIS) * 2
    kp = c.reals('p', (n,), 0.0, 1000.0)
    ko = c.reals('o', (n,), 0.0, 1000.0)
    azi = [(35.0, 120.0, 300.0, 77.0, 10.0, 200.0)[i if per_cell else 0] for i in range(n)]
    k = g.triple_horizontal_permeability(kp, ko, np.array(azi) if per_cell else azi[0])
    for i in range(n):
        for e, (d, _) in enumerate(_sides(i % len(TRIS))):
            a = np.arctan2(d[0], d[1]) - np.radians(azi[i])
            c.check(f'{i} {e} not negative', k[i, e] >= 0.0)
            c.close(f'square of permeability {i} {e}', k[i, e] * k[i, e],
                    kp[i] * kp[i] * float(np.cos(a)**2) + ko[i] * ko[i] * float(np.sin(a)**2), tol = 1.0e-3)


@case('C19', bounds = 'tetrahedra with one node moved, nodes of faces in either order; crs of either handedness', params = [
    dict(down = d, order = o) for d in (False, True) for o in ('easting northing', 'northing easting')])
def tetra_hands(c, down, order):
    L = Lists('tetrahedral')
    m = c.once('model', lambda: _model(c, z_inc_down = down, axis_order = order))
    crs = rqc.Crs(m, uuid = m.crs_uuid)
    places = PLACES['tetrahedral']
    q = _moved(c, places, 1, 0.4, axes = (c.fix(c.int('axis', 0, 2)),))
    d = [c.real(f'shift{a}', -1000.0, 1000.0) for a in range(3)]
    g = _build(c, m, 'tetrahedral', L, c.array([[x + y for x, y in zip(r, d)] for r in places]))
    g.set_cell_face_is_right_handed_from_geometry()
    want = []
    for cell in range(2):
        want += [o == bool(crs.is_right_handed_xyz()) for o in _outward(L, cell, places)]
    c.same('handedness', g.cell_face_is_right_handed, want)
    g = _build(c, m, 'tetrahedral', L, q)
    v = [_solid(q, [L.faces[f] for f in L.cells[i]], _outward(L, i, places)) / 6.0 for i in range(2)]
    c.close('volume of grid', g.grid_volume(), v[0] + v[1], tol = 1.0e-6)
    for i in range(2):
        t = rug.TetraGrid.from_unstructured_cell(g, i)
        t.check_indices()
        c.close('volume of grid of one cell', t.grid_volume(), v[i], tol = 1.0e-6)
        c.close('volume by general method', rug.UnstructuredGrid.volume(g, i), v[i], tol = 1.0e-6)
        nodes = sorted({x for f in L.cells[i] for x in L.faces[f]})
        c.same('points of grid of one cell', t.points_ref(), q[nodes])
        c.same('faces of grid of one cell', sorted(sorted(int(y) for y in t.node_indices_for_face(f)) for f in range(4)),
               [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]])


NORMALS = {'vertical': (0.0, 0.0, 1.0), 'north': (0.0, 1.0, 0.0), 'east': (1.0, 0.0, 0.0), 'oblique': (0.6, 0.0, 0.8)}


@case('C19', bounds = 'planar face of 3 or 4 nodes in one of several planes, moved anywhere; units alike or not', params = [
    dict(plane = p, units = u) for p in ('vertical', 'north', 'east', 'oblique', 'skew') for u in ('m', 'ft')])
def faces(c, plane, units):
    """cell with a face in a known plane; place and size free"""
    m = c.once('model', lambda: _model(c, xy_units = 'm', z_units = units))
    f = IN_M[units]
    u, v = {'vertical': ((1, 0, 0), (0, 1, 0)), 'north': ((1, 0, 0), (0, 0, 1)), 'east': ((0, 1, 0), (0, 0, 1)),
            'oblique': ((0, 1, 0), (0.8, 0, -0.6)), 'skew': ((0.6, -0.8, 0.0), (0.64, 0.48, -0.6))}[plane]
    s = (1.0, 2.5)[c.fix(c.int('size', 0, 1))]
    at = [c.real(f'at{a}', -100.0, 100.0) for a in range(3)]
    flat = [(0.0, 0.0), (2.0, 0.0), (2.5, 1.5), (0.5, 2.0)]
    n = 3 + c.fix(c.int('more', 0, 1))
    places = []
    for x, y in flat[:n]:
        p = [at[a] + s * (x * u[a] + y * v[a]) for a in range(3)]
        places.append([p[0], p[1], p[2] / f])     # third axis in its own units
    w = np.cross(np.array(u, dtype = float), np.array(v, dtype = float))
    tip = [at[a] + s * float(u[a] + v[a] + 3.0 * w[a]) for a in range(3)]
    places.append([tip[0], tip[1], tip[2] / f])
    names = list(range(n))
    g = rug.UnstructuredGrid(m, title = 'one', cell_shape = 'polyhedral')
    g.crs_uuid = m.crs_uuid
    g.set_cell_count(1)
    faces = [tuple(names)] + [(names[e - 1], names[e], n) for e in range(n)]
    g.node_count, g.face_count = n + 1, n + 1
    g.points_cached = c.array(places)
    g.nodes_per_face = np.array([x for y in faces for x in y], dtype = int)
    g.nodes_per_face_cl = np.array([sum(len(x) for x in faces[:e + 1]) for e in range(n + 1)], dtype = int)
    g.faces_per_cell = np.arange(n + 1, dtype = int)
    g.faces_per_cell_cl = np.array([n + 1], dtype = int)
    g.cell_face_is_right_handed = np.ones(n + 1, dtype = bool)
    got = g.face_normal(0)
    c.check('normal is across the plane', c.Or(c.And(*[c.And(got[a] - w[a] < 1.0e-4, w[a] - got[a] < 1.0e-4) for a in range(3)]),
                                               c.And(*[c.And(got[a] + w[a] < 1.0e-4, -w[a] - got[a] < 1.0e-4) for a in range(3)])))
    flat_p = g.planar_face_points(0, xy_plane = True)
    for a, b in ((0, 1), (1, 2), (0, 2), (n - 1, 0)):
        d = (flat[a][0] - flat[b][0])**2 + (flat[a][1] - flat[b][1])**2
        e = [flat_p[a, x] - flat_p[b, x] for x in range(3)]
        c.close(f'length kept when laid flat {a} {b}', e[0] * e[0] + e[1] * e[1] + e[2] * e[2], s * s * d, tol = 1.0e-4)
    back = g.planar_face_points(0)
    c.close('planar face stays where it is', back, places[:n], tol = 1.0e-4)
    c.same('points left alone', g.points_cached, places)


class _Diagonals:
    """stands for the scipy triangulation of a face of symbolic points: either way of dividing a convex quadrilateral"""

    def __init__(self, c):
        self.c, self.n = c, 0

    def __enter__(self):
        self.real = tri.dt

        def dt(p, *a, **k):
            if not self.c.symbolic:
                return self.real(p, *a, **k)
            if len(p) == 3:
                return np.array([(0, 1, 2)])
            assert len(p) == 4
            self.n += 1
            if self.n == 1 and self.c.fix(self.c.bool(f'diagonal{self.n}')):
                return np.array([(1, 2, 3), (3, 0, 1)])
            return np.array([(0, 1, 2), (2, 3, 0)])
        if self.c.symbolic:
            tri.dt = dt
        return self

    def __exit__(self, *a):
        tri.dt = self.real
        return False


SLOPING = [(0, 0, 0), (2, 0, 1), (2, 3, 1), (0, 3, 0), (0, 0, 4), (2, 0, 5), (2, 3, 5), (0, 3, 4), (4, 0, 2), (4, 3, 2), (4, 0, 6),
           (4, 3, 6)]


@case('C19', bounds = 'cells with planar faces, anywhere; faces divided by either diagonal', params = [
    dict(shape = s, cell = i) for s, w in (('hexahedral', (0, 1)), ('pyramidal', (0, 1)), ('prism', (0, 1)), ('polyhedral', (0, 2)))
    for i in w])
def divided(c, shape, cell):
    L = Lists(shape)
    m = c.once('model', lambda: _model(c, xy_units = 'ft', z_units = 'ft'))
    places = SLOPING if shape == 'hexahedral' else PLACES[shape]
    d = [c.real(f'shift{a}', -1000.0, 1000.0) for a in range(3)]
    q = c.array([[x + y for x, y in zip(r, d)] for r in places])
    g = _build(c, m, shape, L, q)
    v = _solid(np.array(places, dtype = float), [L.faces[f] for f in L.cells[cell]], _outward(L, cell, places)) / 6.0
    with _Diagonals(c):
        t = rug.TetraGrid.from_unstructured_cell(g, cell)
        c.close('volume by general method', rug.UnstructuredGrid.volume(g, cell), v, tol = 1.0e-6)
        areas, planar = [], []
        for f in L.cells[cell]:
            p = np.array([places[x] for x in L.faces[f]], dtype = float)
            n = sum((np.cross(p[e - 1] - p[0], p[e] - p[0]) for e in range(2, len(p))), np.zeros(3))
            areas.append(float(np.sqrt(np.dot(n, n))) * 0.5)
            c.close(f'area of face', g.area_of_face(f), areas[-1], tol = 1.0e-4)
            c.close(f'area of face in plane', g.area_of_face(f, in_plane = True), areas[-1], tol = 1.0e-4)
            x = g.face_triangulation(f)
            c.check('triangles cover nodes of face', len(x) == len(p) - 2 and {int(y) for y in x.reshape(-1)} == set(L.faces[f]))
    t.check_indices()
    n_tri = sum(len(L.faces[f]) - 2 for f in L.cells[cell])
    nodes = {x for f in L.cells[cell] for x in L.faces[f]}
    c.same('extent', (t.cell_count, t.node_count), (n_tri, len(nodes) + 1))
    c.close('grid volume', t.grid_volume(), v, tol = 1.0e-6)
    faces = [frozenset(int(y) for y in t.node_indices_for_face(f)) for f in range(t.face_count)]
    c.check('each face once', len(set(faces)) == len(faces))
    share = t.set_cells_per_face()
    c.check('outer faces are the triangles of the cell', sorted(t.node_count - 1 in f for f in faces).count(False) == n_tri and all(
        (int(share[e, 1]) == -1) == (t.node_count - 1 not in f) for e, f in enumerate(faces)))
    for i in range(t.cell_count):
        c.check('four nodes of each', len(t.distinct_node_indices_for_cell(i)) == 4)
