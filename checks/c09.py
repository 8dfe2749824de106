"""C09: the hdf5 layer stores, indexes, packs, slices and copies arrays faithfully."""
from symx.run import case
import os
import numpy as np
import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.olio.write_hdf5 as rwh5
import resqpy.crs as rqc
import resqpy.property as rqp
import resqpy.time_series as rqts

META = dict(
    title = 'Arrays in the hdf5 layer are stored, indexed, packed and copied faithfully',
    statement = 'An array registered for any object and path reads back from hdf5 with identical elements and shape whatever the '
    'chunking, integer width or bit packing, unless a narrower type was asked for, and appending never disturbs arrays '
    'already present. Reading one element or a slice, with or without caching and with or without a required reshaping, '
    'agrees with the whole array, and overwriting a slice changes just that slice. Copying hdf5 files by uuid or path copies '
    'exactly the chosen objects, and changing a uuid moves its arrays without altering them.',
    text = 'any values of every supported type in arrays of small fixed shapes; any index, slice bounds, and choice of objects',
    why = 'tests use a few arrays and options; off by one errors in reshaped or packed indexing need particular extents, '
    'indices and values',
    files = ['resqpy/olio/write_hdf5.py', 'resqpy/model/_hdf5.py'],
    mechanism = [('H5Register and hdf5 copying', 'resqpy/olio/write_hdf5.py'),
                 ('array reading, indexing, slicing and overwriting', 'resqpy/model/_hdf5.py'),
                 ('Model hdf5 methods', 'resqpy/model/_model.py')],
    observe = ['h5_array_element, h5_array_slice, h5_array_shape_and_type, datasets present in copied files'],
    note = 'small fixed extents; h5py replaced by an in memory stand-in while solving (the real library is used in replays); '
    'float32 rounding idealised away; chunking only checked for acceptance and content')

LO, HI = -1.0e6, 1.0e6


class Holder:
    pass


def _model(c, name = 'm'):
    return rq.Model(os.path.join(c.tmpdir, name + '.epc'), new_epc = True, quiet = True)


def _array(c, kind, name, shape):
    if kind in ('float64', 'float32'):
        return c.reals(name, shape, -128, 127)
    if kind == 'int64':
        return c.ints(name, shape, -2**40, 2**40)
    if kind == 'int32':
        return c.ints(name, shape, -2**31, 2**31 - 1)
    if kind == 'uint8':
        return c.ints(name, shape, 0, 255).astype('uint8')
    return c.bools(name, shape)


def _path(u, tail):
    return rwh5.resqml_path_head + str(u) + '/' + tail


def _read(m, u, tail, dtype, shape = None):
    h = Holder()
    m.h5_array_element((m.h5_uuid(), _path(u, tail)), index = None, cache_array = True, object = h, array_attribute = 'x',
                       dtype = dtype, required_shape = shape)
    return h.x


_READ = {'float64': float, 'float32': 'float32', 'int64': 'int64', 'int32': int, 'uint8': 'uint8', 'bool': bool}


@case('C09', bounds = 'arrays of 2 x 3, 1 x 2 x 2 and 3 elements; any values', params = [dict(kind = k, chunks = ch)
      for k in ('float64', 'float32', 'int64', 'int32', 'uint8', 'bool') for ch in (None, 'auto', 'all', 'slice')])
def register(c, kind, chunks):
    m = _model(c)
    us = [bu.new_uuid() for _ in range(3)]
    shapes = [(2, 3), (1, 2, 2), (3,)]
    tails = ['x', 'a/b', '/values_patch0/']
    arrays = [_array(c, kind, f'a{i}', s) for i, s in enumerate(shapes)]
    copy = c.fix(c.bool('copy'))
    reg = rwh5.H5Register(m, default_chunks = chunks if copy else None, default_compression = None)
    for u, t, a in zip(us[:2], tails, arrays):
        reg.register_dataset(u, t, a, copy = copy, chunks = None if copy else chunks)
    expect = [c.array(a) if not c.symbolic else a.copy() for a in arrays]
    if copy:
        for a in arrays[:2]:
            a[:] = 0
    use32 = None if kind != 'int64' else False
    reg.write(mode = 'w', use_int32 = use32)
    # a second object and a second dataset for the first, appended
    reg2 = rwh5.H5Register(m)
    reg2.register_dataset(us[2], tails[2], arrays[2])
    reg2.register_dataset(us[0], 'other', arrays[2])
    reg2.write(mode = 'a', use_int32 = use32)
    for u, t, a, s in zip(us, ['x', 'a/b', 'values_patch0'], expect, shapes):
        c.same('whole', _read(m, u, t, _READ[kind]), a)
        sh, dt = m.h5_array_shape_and_type((m.h5_uuid(), _path(u, t)))
        c.same('shape', tuple(sh), s)
    c.same('second for object', _read(m, us[0], 'other', _READ[kind]), expect[2])
    # writing anew discards what was there
    reg3 = rwh5.H5Register(m)
    reg3.register_dataset(us[0], 'x', arrays[2], hdf5_internal_path = '/RESQML/somewhere/else')
    reg3.write(mode = 'w', use_int32 = use32)
    h = Holder()
    m.h5_array_element((m.h5_uuid(), '/RESQML/somewhere/else'), cache_array = True, object = h, array_attribute = 'x',
                       dtype = _READ[kind])
    c.same('own path', h.x, expect[2])
    c.raises('overwritten file', lambda: _read(m, us[1], 'a/b', _READ[kind]), KeyError)


@case('C09', bounds = '3 elements, any values', params = [dict(dtype = d) for d in ('int32', 'float64', 'bool', 'uint8')])
def asked_type(c, dtype):
    m = _model(c)
    u = bu.new_uuid()
    if dtype == 'uint8':
        a = c.bools('a', 3)
    elif dtype == 'bool':
        a = c.ints('a', 3, 0, 1)
    else:
        a = c.ints('a', 3, -2**31, 2**31 - 1)
    reg = rwh5.H5Register(m)
    reg.register_dataset(u, 'x', a, dtype = dtype)
    reg.write(mode = 'a')
    c.same('values', _read(m, u, 'x', {'bool': int, 'uint8': bool}.get(dtype, dtype)), a)


@case('C09', bounds = '2 x 3 x 4 elements; any index', params = [dict(shape = s, req = r) for s, r in (
      ((2, 3, 4), None), ((2, 3, 4), (2, 3, 4)), ((24,), (2, 3, 4)), ((6, 4), (2, 3, 4)), ((2, 12), (2, 3, 4)),
      ((2, 3, 4), (6, 4)), ((2, 3, 4), (24,)), ((4, 3, 2), (2, 3, 4)), ((3, 3), (3, 3)), ((1, 5), (5,)), ((5,), (1, 5)))])
def element(c, shape, req):
    m = _model(c)
    u = bu.new_uuid()
    a = c.reals('a', shape, LO, HI)
    reg = rwh5.H5Register(m)
    reg.register_dataset(u, 'x', a)
    reg.write(mode = 'a')
    b = a.reshape(req) if req is not None else a
    ix = [c.int(f'i{n}', 0, e - 1) for n, e in enumerate(b.shape)]
    key = (m.h5_uuid(), _path(u, 'x'))
    want = b[tuple(ix)]
    c.same('uncached', m.h5_array_element(key, index = ix, cache_array = False, dtype = 'float', required_shape = req), want)
    h = Holder()
    c.same('caching', m.h5_array_element(key, index = ix, cache_array = True, object = h, array_attribute = 'x',
                                         dtype = 'float', required_shape = req), want)
    c.same('cached array', h.x, b)
    c.same('cached', m.h5_array_element(key, index = ix, cache_array = True, object = h, array_attribute = 'x',
                                        dtype = 'float', required_shape = req), want)
    if len(ix) > 1 and len(shape) > 1 and (req is None or shape[-1] == req[-1]):
        c.same('leading indices', m.h5_array_element(key, index = ix[:-1], cache_array = False, dtype = 'float',
                                                     required_shape = req), b[tuple(ix[:-1])])


@case('C09', bounds = 'last axis of 1 to 17; any booleans', params = [dict(lead = l, n = n) for n in (1, 2, 7, 8, 9, 16, 17)
      for l in ((), (2,), (1, 2))])
def packed(c, lead, n):
    m = _model(c)
    u = bu.new_uuid()
    a = c.bools('a', tuple(lead) + (n,))
    f = c.bools('f', 2)
    reg = rwh5.H5Register(m)
    reg.register_dataset(u, 'x', a, dtype = 'pack')
    reg.register_dataset(u, 'y', f)
    reg.write(mode = 'a')
    sh, _ = m.h5_array_shape_and_type((m.h5_uuid(), _path(u, 'x')))
    c.same('packed shape', tuple(sh), tuple(lead) + ((n + 7) // 8,))
    for dt in (bool, 'pack'):
        b = _read(m, u, 'x', dt, shape = a.shape)
        c.same('unpacked', b, a)
    c.same('neighbour', _read(m, u, 'y', bool), f)


@case('C09', bounds = '3 x 4 array; any slice bounds')
def slices(c):
    m = _model(c)
    u = bu.new_uuid()
    a = c.reals('a', (3, 4), LO, HI)
    v = c.reals('v', (3, 4), LO, HI)
    w = c.reals('w', (3, 4), LO, HI)
    o = c.reals('o', (2,), LO, HI)
    reg = rwh5.H5Register(m)
    reg.register_dataset(u, 'x', a)
    reg.register_dataset(u, 'o', o)
    reg.write(mode = 'a')
    key = (m.h5_uuid(), _path(u, 'x'))
    j0, i0 = c.fix(c.int('j0', 0, 2)), c.fix(c.int('i0', 0, 3))
    j1, i1 = c.fix(c.int('j1', 1, 3)), c.fix(c.int('i1', 1, 4))
    c.assume(j0 < j1 and i0 < i1)
    sl = (slice(j0, j1), slice(i0, i1))
    c.same('slice', m.h5_array_slice(key, sl), a[sl])
    m.h5_overwrite_array_slice(key, sl, v[sl])
    b = _read(m, u, 'x', float)
    for j in range(3):
        for i in range(4):
            c.same('overwritten', b[j, i], v[j, i] if j0 <= j < j1 and i0 <= i < i1 else a[j, i])
    c.same('slice after', m.h5_array_slice(key, sl), v[sl])
    m.h5_overwrite_array(key, w)
    c.same('all overwritten', _read(m, u, 'x', float), w)
    c.same('other', _read(m, u, 'o', float), o)


@case('C09', bounds = '3 objects, any inclusion, exclusion and pre-existing choice', params = [dict(how = h)
      for h in ('all', 'include', 'exclude')])
def copying(c, how):
    m = _model(c)
    us = [bu.new_uuid() for _ in range(3)]
    arrays = [c.reals(f'a{n}', (2,), LO, HI) for n in range(3)]
    reg = rwh5.H5Register(m)
    for u, a in zip(us, arrays):
        reg.register_dataset(u, 'g/x', a)
    reg.register_dataset(us[0], 'g/y', arrays[2])
    reg.write(mode = 'a')
    m.h5_release()
    src = m.h5_file_name()
    dst = os.path.join(c.tmpdir, 'copy.h5')
    # the target may hold one of the objects, with other content
    prior = c.fix(c.int('prior', -1, 2))
    p = c.reals('p', (2,), LO, HI)
    mode = 'a' if c.fix(c.bool('append')) else 'w'
    if prior >= 0:
        with rwh5.h5py.File(dst, 'w') as fp:
            fp.create_dataset(_path(us[prior], 'g/x'), data = p)
    pick = [c.fix(c.bool(f'pick{n}')) for n in range(3)]
    lst = [u for u, q in zip(us, pick) if q]
    if how == 'all':
        pick = [True] * 3
        n = rwh5.copy_h5(src, dst, mode = mode)
    elif how == 'include':
        n = rwh5.copy_h5(src, dst, uuid_inclusion_list = lst, mode = mode)
    else:
        n = rwh5.copy_h5(src, dst, uuid_exclusion_list = lst, mode = mode)
        pick = [not q for q in pick]
    kept = prior if mode == 'a' else -1
    c.same('count', n, len([x for i, x in enumerate(pick) if x and i != kept]))
    with rwh5.h5py.File(dst, 'r') as fp:
        for i in range(3):
            path = _path(us[i], 'g/x')
            c.same('present', path in fp, pick[i] or i == kept)
            if i == kept:
                c.same('kept', fp[path][:], p)
            elif pick[i]:
                c.same('copied', fp[path][:], arrays[i])
        if pick[0] and kept != 0:
            c.same('second dataset', fp[_path(us[0], 'g/y')][:], arrays[2])
    with rwh5.h5py.File(src, 'r') as fp:
        for i in range(3):
            c.same('source', fp[_path(us[i], 'g/x')][:], arrays[i])


@case('C09', bounds = '3 datasets, any choice')
def copying_paths(c):
    m = _model(c)
    us = [bu.new_uuid() for _ in range(2)]
    names = [(us[0], 'g/x'), (us[0], 'g/y'), (us[1], 'x')]
    arrays = [c.reals(f'a{n}', (2,), LO, HI) for n in range(3)]
    reg = rwh5.H5Register(m)
    for (u, t), a in zip(names, arrays):
        reg.register_dataset(u, t, a)
    reg.write(mode = 'a')
    m.h5_release()
    src, dst = m.h5_file_name(), os.path.join(c.tmpdir, 'copy.h5')
    p = c.reals('p', (2,), LO, HI)
    prior = c.fix(c.int('prior', -1, 2))
    if prior >= 0:
        with rwh5.h5py.File(dst, 'w') as fp:
            fp.create_dataset(_path(*names[prior]), data = p)
    pick = [c.fix(c.bool(f'pick{n}')) for n in range(3)]
    n = rwh5.copy_h5_path_list(src, dst, [_path(*names[i]) for i in range(3) if pick[i]], mode = 'a')
    c.same('count', n, len([1 for i in range(3) if pick[i] and i != prior]))
    with rwh5.h5py.File(dst, 'r') as fp:
        for i in range(3):
            path = _path(*names[i])
            c.same('present', path in fp, pick[i] or i == prior)
            if i == prior:
                c.same('kept', fp[path][:], p)
            elif pick[i]:
                c.same('copied', fp[path][:], arrays[i])


@case('C09', bounds = '2 objects')
def moving(c):
    m = _model(c)
    us = [bu.new_uuid() for _ in range(2)]
    nu = bu.new_uuid()
    a, b, d = c.reals('a', (2, 2), LO, HI), c.reals('b', 3, LO, HI), c.reals('d', 1, LO, HI)
    reg = rwh5.H5Register(m)
    reg.register_dataset(us[0], 'x/y', a)
    reg.register_dataset(us[0], 'z', b)
    reg.register_dataset(us[1], 'z', d)
    reg.write(mode = 'a')
    m.h5_release()
    if c.fix(c.bool('by name')):
        rwh5.change_uuid(m.h5_file_name(), us[0], nu)
    else:
        rwh5.change_uuid(m.h5_access(mode = 'a'), us[0], nu)
        m.h5_release()
    c.same('first', _read(m, nu, 'x/y', float), a)
    c.same('second', _read(m, nu, 'z', float), b)
    c.same('other', _read(m, us[1], 'z', float), d)
    c.raises('old', lambda: _read(m, us[0], 'z', float), KeyError)
    m.h5_release()
