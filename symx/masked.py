"""A stand-in for numpy masked arrays whose data or mask is symbolic."""
import math
import types

import numpy as np
import numpy.ma as ma

from . import core, arr
from .core import is_sym, ite, b_or, b_not, b_and, to_bool


def _sym(x):
    return isinstance(x, arr.SymArray)


class SymMasked:
    """data and mask, with the operations on masked arrays that the package under test uses"""

    __array_priority__ = 100
    _stands_for_array = True

    def __init__(self, data, mask):
        self.data = arr.as_sym(data)
        self.mask = mask

    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    size = property(lambda self: self.data.size)
    dtype = property(lambda self: self.data.dtype)
    T = property(lambda self: SymMasked(self.data.T, self.mask.T))

    def __len__(self):
        return len(self.data)

    def __getitem__(self, k):
        if isinstance(k, SymMasked):
            k = k.data
        d, m = self.data[k], self.mask[k]
        if isinstance(d, np.ndarray):
            return SymMasked(d, m)
        return ma.masked if bool(to_bool(m)) else d

    def __setitem__(self, k, v):
        if isinstance(k, SymMasked):
            k = arr.apply_ufunc('logical_and', k.data, arr.apply_ufunc('logical_not', k.mask))
        if isinstance(v, SymMasked):
            self.data[k], self.mask[k] = v.data, v.mask
        elif v is ma.masked:
            self.mask[k] = True
        else:
            self.data[k], self.mask[k] = v, False

    def reshape(self, *s, **k):
        return SymMasked(self.data.reshape(*s, **k), self.mask.reshape(*s, **k))

    def flatten(self):
        return SymMasked(self.data.flatten(), self.mask.flatten())

    ravel = flatten

    def astype(self, d, **k):
        return SymMasked(self.data.astype(d), self.mask.copy())

    def copy(self):
        return SymMasked(self.data.copy(), self.mask.copy())

    def filled(self, v):
        return arr.f_where(self.mask, v, self.data)

    def min(self, axis = None, **k):
        return _minmax(self, 'minimum', False, axis)

    def max(self, axis = None, **k):
        return _minmax(self, 'maximum', False, axis)

    def any(self, axis = None):
        return _fold(self, 'any', axis)

    def all(self, axis = None):
        return _fold(self, 'all', axis)

    def sum(self, axis = None):
        return _fold(self, 'sum', axis)

    def count(self):
        return arr.apply_ufunc('logical_not', self.mask).sum()

    def compressed(self):
        return self.data[arr.apply_ufunc('logical_not', self.mask)]


def _op(name, swap = False):

    def f(self, o):
        return masked_ufunc(name, (o, self) if swap else (self, o))

    return f


for _d, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'true_divide'),
               ('mod', 'remainder'), ('floordiv', 'floor_divide'), ('pow', 'power')):
    setattr(SymMasked, f'__{_d}__', _op(_u))
    setattr(SymMasked, f'__r{_d}__', _op(_u, True))
for _d, _u in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal'), ('eq', 'equal'),
               ('ne', 'not_equal')):
    setattr(SymMasked, f'__{_d}__', _op(_u))
SymMasked.__hash__ = None
SymMasked.__neg__ = lambda self: masked_ufunc('negative', (self,))
SymMasked.__invert__ = lambda self: masked_ufunc('logical_not', (self,))


def masked_ufunc(name, args):
    m = None
    for x in args:
        if isinstance(x, SymMasked):
            m = x.mask if m is None else arr.apply_ufunc('logical_or', m, x.mask)
    data = [x.data if isinstance(x, SymMasked) else x for x in args]
    if name in ('true_divide', 'floor_divide', 'remainder'):
        # numpy masks domain errors here
        z = data[1] == 0
        safe = arr.f_where(z, 1, data[1])
        r = arr.apply_ufunc(name, data[0], safe)
        return _shaped(r, arr.apply_ufunc('logical_or', m, z))
    return _shaped(arr.apply_ufunc(name, *data), m)


def _shaped(d, m):
    return SymMasked(d, arr.as_sym(m) if m.shape == d.shape else arr.as_sym(np.broadcast_to(arr.raw(m), d.shape).copy(), bool))


def _cells(a):
    return list(zip(arr.raw(a.data).reshape(-1), arr.raw(a.mask).reshape(-1)))


def _minmax(a, uf, skipnan, axis = None):
    if axis is not None:
        axis = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
        keep = tuple(x for x in range(a.ndim) if x not in axis)
        if keep:
            res = np.empty(tuple(a.shape[x] for x in keep), dtype = object)
            mask = np.zeros(res.shape, dtype = bool)
            for ix in np.ndindex(*res.shape):
                k = [slice(None)] * a.ndim
                for d, v in zip(keep, ix):
                    k[d] = v
                k = tuple(k)
                v = _minmax(SymMasked(a.data[k], a.mask[k]), uf, skipnan)
                mask[ix] = v is ma.masked
                res[ix] = 0.0 if mask[ix] else core.norm(v)
            return SymMasked(arr.mk(res, a.dtype), arr.as_sym(mask))
    f = arr._binlist(uf, a.dtype)
    acc, has = None, False
    for x, m in _cells(a):
        m = to_bool(m)
        if skipnan and a.dtype.kind == 'f':
            m = b_or(m, core.n_isnan(x) if is_sym(x) else bool(math.isnan(x)))
        if not is_sym(m):
            if m:
                continue
            acc = x if acc is None else (f([acc, x]) if has is True else ite(has, f([acc, x]), x))
            has = True
            continue
        if acc is None:
            acc, has = x, b_not(m)
        else:
            y = f([acc, x])
            acc = ite(m, acc, y if has is True else ite(has, y, x))
            has = b_or(has, b_not(m))
    if has is not True and (has is False or not bool(has)):
        return ma.masked
    return arr.box(acc, a.dtype)


def _fold(a, what, axis):
    if axis is not None:
        raise core.Unsupported('masked reduction along an axis')
    cells = [(x, to_bool(m)) for x, m in _cells(a)]
    alive = b_or(*[b_not(m) for _, m in cells])
    if alive is not True and (alive is False or not bool(alive)):
        return ma.masked
    if what == 'all':
        return b_and(*[b_or(m, to_bool(x)) for x, m in cells])
    if what == 'any':
        return b_or(*[b_and(b_not(m), to_bool(x)) for x, m in cells])
    s = 0
    for x, m in cells:
        s = s + ite(m, 0, x)
    return s


FUNCS = {
    'min': lambda a, axis = None, **k: _minmax(a, 'minimum', False, axis),
    'max': lambda a, axis = None, **k: _minmax(a, 'maximum', False, axis),
    'nanmin': lambda a, axis = None, **k: _minmax(a, 'minimum', True, axis),
    'nanmax': lambda a, axis = None, **k: _minmax(a, 'maximum', True, axis),
    'all': lambda a, axis = None, **k: _fold(a, 'all', axis),
    'any': lambda a, axis = None, **k: _fold(a, 'any', axis),
    'sum': lambda a, axis = None, **k: _fold(a, 'sum', axis),
    'count_nonzero': lambda a, **k: _fold(SymMasked(a.data != 0, a.mask), 'sum', None),
    'shape': lambda a: a.shape,
    'ndim': lambda a: a.ndim,
    'size': lambda a: a.size,
    'copy': lambda a: a.copy(),
    'array': lambda a, dtype = None, **k: a.data.copy() if dtype is None else a.data.astype(dtype),
}
FUNCS['amin'], FUNCS['amax'] = FUNCS['min'], FUNCS['max']


def _where(c, x = None, y = None):
    if x is None:
        raise core.Unsupported('where on a masked condition')
    # numpy's own where ignores masks and works on the data
    return arr.f_where(*[v.data if isinstance(v, SymMasked) else v for v in (c, x, y)])


FUNCS['where'] = _where


def _unique(a):
    if any(bool(to_bool(m)) for m in np.asarray(a.mask).ravel()):
        raise core.Unsupported('unique of an array with masked elements')
    return arr.f_unique(a.data)


FUNCS['unique'] = _unique


def call(name, args, kwargs):
    if name in FUNCS:
        return FUNCS[name](*args, **kwargs)
    raise core.Unsupported(f'numpy function {name} on a masked array')


class FakeMa(types.ModuleType):

    def __getattr__(self, n):
        return getattr(ma, n)

    @staticmethod
    def masked_array(data, mask = ma.nomask, **kw):
        if isinstance(data, SymMasked):
            if mask is not ma.nomask:
                mask = arr.apply_ufunc('logical_or', data.mask, mask)
            else:
                mask = data.mask
            data = data.data
        if not arr.any_sym_nested(data) and not arr.any_sym_nested(mask):
            return ma.masked_array(data, mask = mask, **kw)
        if not arr.has_sym(data) and not arr.has_sym(mask) and not (mask is ma.nomask and _sym(data)):
            return ma.masked_array(_real(data), mask = _real(mask), **kw)
        data = arr.as_sym(data)
        if mask is ma.nomask or mask is False:
            mask = np.zeros(data.shape, dtype = bool)
        elif mask is True:
            mask = np.ones(data.shape, dtype = bool)
        mask = arr.as_sym(mask, bool)
        if mask.shape != data.shape:
            if mask.size != data.size:
                raise ma.MaskError('Mask and data not compatible')
            mask = mask.reshape(data.shape)
        return SymMasked(data, mask.copy())

    array = masked_array

    @staticmethod
    def masked_invalid(a, copy = True):
        if not _sym(a):
            return ma.masked_invalid(a, copy = copy)
        m = arr.apply_ufunc('logical_not', arr.apply_ufunc('isfinite', a))
        return SymMasked(a.copy() if copy else a, arr.as_sym(m, bool))

    @staticmethod
    def getmaskarray(a):
        return a.mask if isinstance(a, SymMasked) else ma.getmaskarray(a)

    @staticmethod
    def getmask(a):
        return a.mask if isinstance(a, SymMasked) else ma.getmask(a)

    @staticmethod
    def getdata(a):
        return a.data if isinstance(a, SymMasked) else ma.getdata(a)

    @staticmethod
    def is_masked(a):
        return a.mask.any() if isinstance(a, SymMasked) else ma.is_masked(a)

    @staticmethod
    def filled(a, v):
        return a.filled(v) if isinstance(a, SymMasked) else ma.filled(a, v)

    @staticmethod
    def masked_where(c, a, **k):
        return FakeMa.masked_array(a, mask = c)


def _real(x):
    return arr.to_real(x) if _sym(x) else x


fake_ma = FakeMa('numpy.ma')
arr._over['ma'] = fake_ma
arr.MASKED = (SymMasked, masked_ufunc, call)
