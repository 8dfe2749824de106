"""C08: property arrays and metadata keep their values, shapes and meaning."""
from symx.run import case
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.model as rq
import resqpy.property as rqp
import resqpy.property.property_common as rqp_c
import resqpy.surface as rqs
import resqpy.time_series as rqts
import resqpy.lines as rql
import resqpy.olio.uuid as bu

META = dict(
    title = 'Property arrays and their metadata are stored, stacked and masked faithfully',
    statement = 'A property written with any element values, null value, facet, realization, time index, count, packing or '
    'constant form reads back with identical array and metadata, stored minimum and maximum are the extremes of the non null '
    'values, and cached, sliced and directly read arrays agree. Arrays stacked over realizations, time indices or facets hold '
    'each part in its own slice, masks cover exactly the inactive and null elements, normalised arrays are monotonic within '
    '0 to 1, and converting face arrays or column edges to RESQML order and back is the identity.',
    text = 'any values (integers, reals, booleans) in arrays of small fixed shapes, any null, realization and time indices',
    why = 'the many optional forms (packed, constant, faceted, counted, indexable elements) are sampled singly by tests; '
    'failures need particular values, shapes or combinations',
    files = ['resqpy/property'],
    mechanism = [('Property.from_array and array_ref', 'resqpy/property/_property.py'),
                 ('PropertyCollection arrays, stacks, masks and selection', 'resqpy/property/property_collection.py'),
                 ('array access helpers', 'resqpy/property/_collection_get_attributes.py'),
                 ('xml creation', 'resqpy/property/_collection_create_xml.py'),
                 ('face and edge reordering', 'resqpy/property/property_common.py')],
    observe = ['array_ref, metadata methods, stacked, masked and normalized arrays'],
    note = 'small fixed extents; h5py replaced by an in memory stand-in while solving (the real library is used in replays); '
    'reals idealised; NaN appears at fixed places only; titles and uuids concrete')

LO, HI = -1.0e6, 1.0e6


def _model(c, name = 'm', **k):
    m = rq.Model(os.path.join(c.tmpdir, name + '.epc'), new_epc = True, quiet = True)
    crs = rqc.Crs(m, **k)
    crs.create_xml()
    m.crs_uuid = crs.uuid
    return m


def _reopen(c, m):
    f = m.epc_file
    m.store_epc(quiet = True)
    m.h5_release()
    return rq.Model(f, quiet = True)


def _grid(m, nk = 2, nj = 1, ni = 3, **k):
    g = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = (10.0, 10.0, 5.0), crs_uuid = m.crs_uuid, title = 'g', **k)
    g.create_xml()
    return g


def _part_of(m, g, title):
    col = m.grid(uuid = g.uuid).extract_property_collection()
    return rqp.selective_version_of_collection(col, citation_title = title)


_SHAPES = {
    'cells': (2, 1, 3),
    'columns': (1, 3),
    'layers': (2,),
    'nodes': (3, 2, 4),
    'faces K': (3, 1, 3),
    'faces J': (2, 2, 3),
    'faces I': (2, 1, 4),
    'faces': (3 * 1 * 3 + 2 * 2 * 3 + 2 * 1 * 4,),
    'column edges': (1 * 4 + 2 * 3,),
    'edges per column': (1, 3, 4),
    'faces per cell': (2, 1, 3, 6),
    'nodes per cell': (2, 1, 3, 2, 2, 2),
}


def _element(ie):
    return (ie.split()[0], ie.split()[1]) if ie[:-1] == 'faces ' else (ie, None)


def _min_max(c, p, vals):
    lo, hi = p.minimum_value(), p.maximum_value()
    c.check('min and max present', lo is not None and hi is not None)
    for x in vals:
        c.check('minimum is below', lo <= x)
        c.check('maximum is above', hi >= x)
    c.check('minimum occurs', c.Or(*[lo == x for x in vals]))
    c.check('maximum occurs', c.Or(*[hi == x for x in vals]))


@case('C08', bounds = 'any reals; grid of 2 x 1 x 3; any realization', params = [dict(ie = x) for x in _SHAPES])
def continuous(c, ie):
    m = _model(c)
    g = _grid(m)
    a = c.reals('a', _SHAPES[ie], LO, HI)
    e, d = _element(ie)
    re = c.int('realization', 0, 999)
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'K', support_uuid = g.uuid,
                                property_kind = 'rock permeability', indexable_element = e, uom = 'mD',
                                facet_type = None if d is None else 'direction', facet = d, realization = re,
                                extra_metadata = {'a': 'b'})
    c.same('before storing', p.array_ref(), a)
    m2 = _reopen(c, m)
    p2 = rqp.Property(m2, uuid = p.uuid)
    c.same('array', p2.array_ref(), a)
    c.same('realization', p2.realization(), re)
    c.check('metadata', p2.indexable_element() == e and p2.property_kind() == 'rock permeability' and p2.uom() == 'mD'
            and p2.facet() == d and p2.facet_type() == (None if d is None else 'direction') and p2.title == 'K'
            and p2.is_continuous() and not p2.is_points() and not p2.is_categorical() and p2.count() == 1
            and p2.time_index() is None and p2.constant_value() is None and p2.extra_metadata.get('a') == 'b')
    if a.size <= 6:
        _min_max(c, p2, list(a.flatten()))
    col = m2.grid(uuid = g.uuid).extract_property_collection()
    part = m2.part(uuid = p.uuid)
    s, t = col.shape_and_type_of_part(part)
    c.same('shape', tuple(s), _SHAPES[ie])
    sl = tuple(slice(0, 1) for _ in a.shape)
    c.same('slice', col.h5_slice(part, sl), a[sl])
    c.same('collection array', col.cached_part_array_ref(part), a)
    s, t = col.shape_and_type_of_part(part)
    c.same('shape of cached', tuple(s), _SHAPES[ie])


@case('C08', bounds = 'any integers in 32 bits, any null value, time index', params = [dict(int64 = False), dict(int64 = True)])
def discrete(c, int64):
    m = _model(c)
    g = _grid(m, 1, 1, 3)
    top = 2**40 if int64 else 2**31 - 1
    a = c.ints('a', (1, 1, 3), -top, top)
    null = c.int('null', -top, top)
    ts = rqts.TimeSeries(m, first_timestamp = '2000-01-01')
    for i in range(3):
        ts.extend_by_days(30)
    ts.create_xml()
    ti = c.int('ti', 0, 3)
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'D', support_uuid = g.uuid, discrete = True,
                                property_kind = 'discrete', indexable_element = 'cells', null_value = null,
                                dtype = np.int64 if int64 else None, time_series_uuid = ts.uuid, time_index = c.fix(ti))
    m2 = _reopen(c, m)
    p2 = rqp.Property(m2, uuid = p.uuid)
    c.same('array', p2.array_ref(), a)
    c.same('null', p2.null_value(), null)
    c.same('time index', p2.time_index(), ti)
    c.check('time series', bu.matching_uuids(p2.time_series_uuid(), ts.uuid))
    c.check('metadata', not p2.is_continuous() and p2.count() == 1 and p2.realization() is None)
    x = list(a.flatten())
    lo, hi = p2.minimum_value(), p2.maximum_value()
    live = [v != null for v in x]
    if lo is None or hi is None:
        c.check('no range when all null', c.Not(c.Or(*live)))
    else:
        for v, w in zip(x, live):
            c.check('minimum is below', c.Implies(w, lo <= v))
            c.check('maximum is above', c.Implies(w, hi >= v))
        c.check('minimum occurs', c.Or(*[c.And(w, lo == v) for v, w in zip(x, live)]))
        c.check('maximum occurs', c.Or(*[c.And(w, hi == v) for v, w in zip(x, live)]))


@case('C08', bounds = 'any booleans', params = [dict(n = n, pack = p) for n in (1, 3, 8, 9) for p in (False, True)])
def boolean(c, n, pack):
    m = _model(c)
    g = _grid(m, 1, 2, n)
    a = c.bools('a', (1, 2, n))
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'B', support_uuid = g.uuid, discrete = True,
                                property_kind = 'discrete', indexable_element = 'cells', use_pack = pack)
    m2 = _reopen(c, m)
    p2 = rqp.Property(m2, uuid = p.uuid)
    b = p2.array_ref(dtype = bool)
    c.same('array', b, a)
    c.same('shape', b.shape, (1, 2, n))


@case('C08', bounds = 'any constant; several indexable elements', params = [dict(ie = x, expand = e)
      for x in ('cells', 'columns', 'layers', 'nodes', 'faces per cell') for e in (False, True)])
def constant(c, ie, expand):
    m = _model(c)
    g = _grid(m)
    v = c.real('v', LO, HI)
    w = c.int('w', -1000, 1000)
    p = rqp.Property.from_array(m, None, source_info = 'check', keyword = 'C', support_uuid = g.uuid, const_value = v,
                                property_kind = 'porosity', indexable_element = ie, uom = 'm3/m3',
                                expand_const_arrays = expand)
    q = rqp.Property.from_array(m, None, source_info = 'check', keyword = 'D', support_uuid = g.uuid, const_value = w,
                                property_kind = 'discrete', indexable_element = ie, discrete = True,
                                expand_const_arrays = expand)
    m2 = _reopen(c, m)
    p2, q2 = rqp.Property(m2, uuid = p.uuid), rqp.Property(m2, uuid = q.uuid)
    a, b = p2.array_ref(), q2.array_ref()
    c.same('shape', a.shape, _SHAPES[ie])
    c.same('shape of discrete', b.shape, _SHAPES[ie])
    for x in a.flatten():
        c.same('value', x, v)
    for x in b.flatten():
        c.same('discrete value', x, w)
    if expand:
        c.check('not constant', p2.constant_value() is None)
    else:
        c.same('constant', p2.constant_value(), v)
        c.same('discrete constant', q2.constant_value(), w)
    c.same('minimum', p2.minimum_value(), v)
    c.same('maximum', p2.maximum_value(), v)


@case('C08', bounds = 'count of 1 to 3 per element, points', params = [dict(count = n, points = p)
      for n in (1, 2, 3) for p in (False, True)])
def counted(c, count, points):
    m = _model(c)
    g = _grid(m, 1, 2, 2)
    shape = (1, 2, 2) + ((count,) if count > 1 else ()) + ((3,) if points else ())
    a = c.reals('a', shape, LO, HI)
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'C', support_uuid = g.uuid,
                                property_kind = 'length', indexable_element = 'cells', uom = 'm', count = count,
                                points = points)
    m2 = _reopen(c, m)
    p2 = rqp.Property(m2, uuid = p.uuid)
    c.same('count', p2.count(), count)
    c.same('points', p2.is_points(), points)
    c.same('array', p2.array_ref(), a)
    col = m2.grid(uuid = g.uuid).extract_property_collection()
    part = m2.part(uuid = p.uuid)
    s, _ = col.shape_and_type_of_part(part)
    c.same('shape', tuple(s), shape)


@case('C08', bounds = 'three parts of 1 x 1 x 2 with distinct indices 0..4', params = [dict(kind = k, fill = f)
      for k in ('realization', 'time') for f in (True, False)])
def stacks(c, kind, fill):
    m = _model(c)
    g = _grid(m, 1, 1, 2)
    idx = c.ints('i', 3, 0, 4)
    c.assume(c.And(idx[0] != idx[1], idx[0] != idx[2], idx[1] != idx[2]))
    ids = [c.fix(x) for x in idx]
    ts = rqts.TimeSeries(m, first_timestamp = '2000-01-01')
    for i in range(4):
        ts.extend_by_days(30)
    ts.create_xml()
    arrays = [c.reals(f'a{n}', (1, 1, 2), LO, HI) for n in range(3)]
    fv = c.real('fill', LO, HI)
    for n in range(3):
        k = dict(realization = ids[n]) if kind == 'realization' else dict(time_index = ids[n], time_series_uuid = ts.uuid)
        rqp.Property.from_array(m, arrays[n], source_info = 'check', keyword = 'S', support_uuid = g.uuid,
                                property_kind = 'porosity', indexable_element = 'cells', uom = 'm3/m3', **k)
    m2 = _reopen(c, m)
    col = _part_of(m2, g, 'S')
    f = col.realizations_array_ref if kind == 'realization' else col.time_series_array_ref
    s = f(fill_missing = fill, fill_value = fv)
    order = sorted(ids)
    c.same('list', col.realization_list() if kind == 'realization' else col.time_index_list(), order)
    c.same('extent', s.shape, ((order[-1] + 1) if fill else 3, 1, 1, 2))
    for n in range(3):
        c.same('slice', s[ids[n] if fill else order.index(ids[n])], arrays[n])
    if fill:
        for r in range(order[-1] + 1):
            if r not in ids:
                for x in s[r].flatten():
                    c.same('fill', x, fv)
    # selection by index
    for n in range(3):
        k = dict(realization = ids[n]) if kind == 'realization' else dict(time_index = ids[n])
        c.same('single array', col.single_array_ref(**k), arrays[n])


@case('C08', bounds = 'three facets')
def facets(c):
    m = _model(c)
    g = _grid(m, 1, 1, 2)
    names = ['K', 'I', 'J']
    arrays = [c.reals(f'a{n}', (1, 1, 2), LO, HI) for n in range(3)]
    for n in range(3):
        rqp.Property.from_array(m, arrays[n], source_info = 'check', keyword = 'S', support_uuid = g.uuid,
                                property_kind = 'rock permeability', indexable_element = 'cells', uom = 'mD',
                                facet_type = 'direction', facet = names[n])
    m2 = _reopen(c, m)
    col = _part_of(m2, g, 'S')
    fl = col.facet_list()
    c.check('list', fl == sorted(names))
    s = col.facets_array_ref()
    for n in range(3):
        c.same('slice', s[fl.index(names[n])], arrays[n])
        c.same('single', col.single_array_ref(facet_type = 'direction', facet = names[n]), arrays[n])


@case('C08', bounds = '2 x 3 elements by 6 faces, any values', params = [dict(lead = x) for x in ((2,), (1, 2, 2), ())])
def face_order(c, lead):
    m = _model(c)
    col = _grid(m).extract_property_collection()
    a = c.reals('a', tuple(lead) + (6,), LO, HI)
    b = c.reals('b', tuple(lead) + (3, 2), LO, HI)
    x = col.combobulated_face_array(a)
    c.same('there and back', col.discombobulated_face_array(x), a)
    c.same('back and there', col.combobulated_face_array(col.discombobulated_face_array(b)), b)
    # order K-, K+, J-, I+, J+, I-
    for i, (ax, p) in enumerate(((0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0))):
        c.same('order', x[..., ax, p], a[..., i])


@case('C08', bounds = '2 x 2 columns, any values')
def column_edges(c):
    a = c.reals('a', (2, 2, 2, 2), LO, HI)
    b = c.reals('b', (2, 2, 4), LO, HI)
    c.same('there and back', rqp_c.reformat_column_edges_from_resqml_format(rqp_c.reformat_column_edges_to_resqml_format(a)), a)
    c.same('back and there', rqp_c.reformat_column_edges_to_resqml_format(rqp_c.reformat_column_edges_from_resqml_format(b)), b)
    # order I-, J+, I+, J-
    r = rqp_c.reformat_column_edges_to_resqml_format(a)
    for i, (ax, p) in enumerate(((1, 0), (0, 1), (1, 1), (0, 0))):
        c.same('order', r[:, :, i], a[:, :, ax, p])


@case('C08', bounds = 'any values, inactive cells, null value', params = [dict(how = h) for h in
      ('continuous', 'discrete', 'discrete null', 'points')])
def masks(c, how):
    m = _model(c)
    g = _grid(m, 2, 1, 2)
    ina = c.bools('inactive', (2, 1, 2))
    if how == 'continuous':
        a = c.reals('a', (2, 1, 2), LO, HI)
        k = dict(property_kind = 'porosity', uom = 'm3/m3')
    elif how == 'points':
        a = c.reals('a', (2, 1, 2, 3), LO, HI)
        k = dict(property_kind = 'length', uom = 'm', points = True)
    else:
        a = c.ints('a', (2, 1, 2), -5, 5)
        null = c.int('null', -2, 2)
        k = dict(property_kind = 'discrete', discrete = True, null_value = null)
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'M', support_uuid = g.uuid,
                                indexable_element = 'cells', **k)
    m = _reopen(c, m)
    g = m.grid(uuid = g.uuid)
    col = g.extract_property_collection()
    g.inactive = ina
    part = m.part(uuid = p.uuid)
    b = col.masked_array(a, exclude_value = null if how == 'discrete null' else None, points = how == 'points')
    if how in ('continuous', 'discrete'):
        b = col.cached_part_array_ref(part, masked = True)
    if how == 'discrete null':
        b = col.cached_part_array_ref(part, masked = True, exclude_null = True)
    mask = np.ma.getmaskarray(b)
    c.same('shape', mask.shape, a.shape)
    for i in np.ndindex(2, 1, 2):
        want = ina[i]
        if how == 'discrete null':
            want = c.Or(want, a[i] == null)
        if how == 'points':
            for j in range(3):
                c.check('mask', c.Iff(mask[i + (j,)], want))
        else:
            c.check('mask', c.Iff(mask[i], want))
    c.same('data', np.ma.getdata(b), a)


@case('C08', bounds = '3 values; zero optionally fixed', params = [dict(zero = z) for z in (None, 0.0, 0.5, 1.0, 0.25)])
def normalised(c, zero):
    m = _model(c)
    g = _grid(m, 1, 1, 3)
    a = c.reals('a', (1, 1, 3), -1000, 1000)
    x = list(a.flatten())
    c.assume(c.Or(x[0] - x[1] >= 1, x[1] - x[0] >= 1))
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'N', support_uuid = g.uuid,
                                property_kind = 'continuous', indexable_element = 'cells', uom = 'm')
    m = _reopen(c, m)
    col = _part_of(m, g, 'N')
    n, lo, hi = col.normalized_part_array(m.part(uuid = p.uuid), fix_zero_at = zero)
    if n is None:
        return
    y = list(n.flatten())
    for i in range(3):
        c.check('from 0', y[i] >= -1.0e-9)
        c.check('to 1', y[i] <= 1 + 1.0e-9)
        for j in range(3):
            c.check('monotonic', c.Implies(x[i] <= x[j], y[i] <= y[j] + 1.0e-9))
    if zero is None:
        for i in range(3):
            c.check('range', c.And(lo <= x[i], hi >= x[i]))
            c.close('inverse', lo + y[i] * (hi - lo), x[i], 1.0e-6)
    elif 0.0 < zero < 1.0:
        c.close('zero', -lo, zero * (hi - lo), 1.0e-6)


@case('C08', bounds = 'any values; any slice start')
def overwrite(c):
    m = _model(c)
    g = _grid(m, 2, 1, 3)
    a = c.reals('a', (2, 1, 3), LO, HI)
    b = c.reals('b', (1, 1, 2), LO, HI)
    k, i = c.int('k', 0, 1), c.int('i', 0, 1)
    k, i = c.fix(k), c.fix(i)
    cached = c.fix(c.bool('cached'))
    update = c.fix(c.bool('update'))
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'N', support_uuid = g.uuid,
                                property_kind = 'continuous', indexable_element = 'cells', uom = 'm')
    m2 = _reopen(c, m)
    col = m2.grid(uuid = g.uuid).extract_property_collection()
    part = m2.part(uuid = p.uuid)
    if cached:
        c.same('before', col.cached_part_array_ref(part), a)
    sl = (slice(k, k + 1), slice(0, 1), slice(i, i + 2))
    col.h5_overwrite_slice(part, sl, b, update_cache = update)
    want = np.array(a)
    want = c.array(want) if not c.symbolic else a.copy()
    want[sl] = b
    c.same('after', col.cached_part_array_ref(part), want)
    c.same('slice', col.h5_slice(part, sl), b)
    m2.h5_release()
    m3 = rq.Model(m2.epc_file, quiet = True)
    c.same('reopened', rqp.Property(m3, uuid = p.uuid).array_ref(), want)


@case('C08', bounds = 'any indices into 6 elements', params = [dict(how = h) for h in ('scalar', 'count', 'points', 'constant', 'discrete')])
def sampling(c, how):
    m = _model(c)
    g = _grid(m, 2, 1, 3)
    s = _grid(m, 1, 1, 3)
    tail = {'count': (2,), 'points': (3,)}.get(how, ())
    a = (c.ints('a', (2, 1, 3), -9, 9) if how == 'discrete' else
         None if how == 'constant' else c.reals('a', (2, 1, 3) + tail, LO, HI))
    v = c.real('v', LO, HI) if how == 'constant' else None
    re = c.int('re', 0, 5)
    k = (dict(property_kind = 'index', discrete = True, null_value = -5) if how == 'discrete' else
         dict(property_kind = 'length', uom = 'm'))
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'N', support_uuid = g.uuid, const_value = v,
                                indexable_element = 'cells', realization = re, count = 2 if how == 'count' else 1,
                                points = how == 'points', **k)
    ix = c.ints('ix', 3, 0, 5)
    m = _reopen(c, m)
    col = _part_of(m, g, 'N')
    s = m.grid(uuid = s.uuid)
    t = s.extract_property_collection()
    t.add_to_imported_list_sampling_other_collection(col, ix)
    t.write_hdf5_for_imported_list()
    u = t.create_xml_for_imported_list_and_add_parts_to_model()
    m2 = _reopen(c, m)
    p2 = rqp.Property(m2, uuid = u[0])
    b = p2.array_ref()
    c.same('shape', b.shape, (1, 1, 3) + tail)
    for n in range(3):
        if how == 'constant':
            c.same('value', b[0, 0, n], v)
            continue
        for w in range(6):
            same = c.And(*[x == y for x, y in zip(b[0, 0, n].flatten(), a[w // 3, 0, w % 3].flatten())]) if tail \
                else b[0, 0, n] == a[w // 3, 0, w % 3]
            c.check('value', c.Implies(ix[n] == w, same))
    c.same('realization', p2.realization(), re)
    c.same('count', p2.count(), 2 if how == 'count' else 1)
    c.check('metadata', p2.title == 'N' and p2.property_kind() == k['property_kind'] and p2.is_points() == (how == 'points')
            and p2.is_continuous() == (how != 'discrete'))
    if how == 'discrete':
        c.same('null', p2.null_value(), -5)


@case('C08', bounds = 'list of a boolean and two real arrays; any values', params = [dict(pack = p) for p in (False, True)])
def mixed_list(c, pack):
    m = _model(c)
    g = _grid(m, 1, 1, 3)
    a, b = c.reals('a', (1, 1, 3), LO, HI), c.reals('b', (1, 1, 3, 2), LO, HI)
    f = c.bools('f', (1, 1, 3))
    v = c.real('v', LO, HI)
    t = rqp.PropertyCollection()
    t.set_support(support = g)
    t.add_cached_array_to_imported_list(a, 's', 'A', discrete = False, property_kind = 'length', uom = 'm', indexable_element = 'cells')
    t.add_cached_array_to_imported_list(f, 's', 'F', discrete = True, property_kind = 'discrete', indexable_element = 'cells')
    t.add_cached_array_to_imported_list(b, 's', 'B', discrete = False, property_kind = 'length', uom = 'm', indexable_element = 'cells',
                                        count = 2)
    t.add_cached_array_to_imported_list(None, 's', 'V', discrete = False, property_kind = 'length', uom = 'm', indexable_element = 'cells',
                                        count = 2, const_value = v)
    t.write_hdf5_for_imported_list(use_pack = pack)
    us = t.create_xml_for_imported_list_and_add_parts_to_model()
    m2 = _reopen(c, m)
    ps = [rqp.Property(m2, uuid = u) for u in us]
    c.check('titles', [p.title for p in ps] == ['A', 'F', 'B', 'V'])
    c.same('first', ps[0].array_ref(), a)
    c.same('flags', ps[1].array_ref(dtype = bool), f)
    c.same('counted', ps[2].array_ref(), b)
    k = ps[3].array_ref()
    c.same('shape of constant', k.shape, (1, 1, 3, 2))
    c.same('constant', k, c.array([v] * 6).reshape((1, 1, 3, 2)))


@case('C08', bounds = 'any keys in -3..60 (3 entries)', params = [dict(neg = True), dict(neg = False)])
def string_lookup(c, neg):
    m = _model(c)
    keys = c.ints('k', 3, -2 if neg else 0, 3 if neg else 60)
    c.assume(c.And(keys[0] < keys[1], keys[1] < keys[2]))
    ks = [c.fix(x) for x in keys] if neg else [c.fix(keys[0] * 0 + 2), 7, 55]
    d = {ks[0]: 'sand', ks[1]: 'shale', ks[2]: 'silt'}
    sl = rqp.StringLookup(m, int_to_str_dict = d, title = 'facies')
    sl.create_xml()
    g = _grid(m, 1, 1, 3)
    a = c.ints('a', (1, 1, 3), -3, 60)
    p = rqp.Property.from_array(m, a, source_info = 'check', keyword = 'F', support_uuid = g.uuid,
                                property_kind = 'discrete', discrete = True, indexable_element = 'cells', null_value = -1,
                                string_lookup_uuid = sl.uuid)
    m2 = _reopen(c, m)
    p2 = rqp.Property(m2, uuid = p.uuid)
    c.check('categorical', p2.is_categorical())
    c.same('array', p2.array_ref(), a)
    for t in (sl, p2.string_lookup()):
        c.check('dict', t.as_dict() == d)
        for k in range(-4, 62):
            c.check('get string', t.get_string(k) == d.get(k))
        for k, v in d.items():
            c.check('get index', t.get_index_for_string(v) == k)
        c.check('absent', t.get_index_for_string('coal') is None)
    t = rqp.StringLookup(m2, uuid = sl.uuid)
    nk = c.fix(c.int('nk', -3, 4))
    for t in (sl, t):
        t.set_string(nk, 'new')
        c.check('set', t.get_string(nk) == 'new')
        for k, v in d.items():
            if k != nk:
                c.check('others kept', t.get_string(k) == v)
        c.check('index of new', t.get_index_for_string('new') == nk)
