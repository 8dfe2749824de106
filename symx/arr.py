"""Symbolic numpy: an object-dtype ndarray subclass carrying a declared dtype, with numpy semantics for the
ufuncs and functions the code under test uses, and a stand-in for the numpy module."""
import builtins
import functools
import itertools
import math
import warnings
from fractions import Fraction

import numpy as np

from . import core
from .core import (SymNum, SymBool, Unsupported, is_sym, norm, b_and, b_or, b_not, b_xor, ite, lift, kind, n_add, n_mul,
                   n_div, n_cmp, n_abs, n_neg, n_floor, n_ceil, n_trunc, n_rint, n_floordiv, n_mod, n_pow, n_sqrt,
                   n_sincos, n_isnan, to_bool, is_nan, is_inf, b_to_num)

nd = np.ndarray
_NUMKINDS = 'biuf'


def norm_dtype(d):
    if d is None:
        return None
    d = getattr(d, '_real_type', d)
    if isinstance(d, np.dtype):
        return d
    if type(d).__module__.startswith('numba.'):  # numba type objects name numpy types
        return np.dtype(str(d))
    return np.dtype(d)


def mk(objarr, dt):
    """SymArray from an object ndarray (shared memory)"""
    r = objarr.view(SymArray)
    r._dt = np.dtype(dt)
    return r


def raw(x):
    """plain object ndarray view of a SymArray"""
    return nd.view(x, nd)


def has_sym(x):
    if isinstance(x, SymArray):
        for v in raw(x).flat:
            if isinstance(v, (SymNum, SymBool)):
                return True
        return False
    return is_sym(x)


def to_real(x):
    """real numpy array for a SymArray with concrete contents"""
    return np.array(raw(x).tolist(), dtype = x._dt).reshape(x.shape)


def any_sym_nested(x):
    if isinstance(x, (SymNum, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(any_sym_nested(v) for v in x)
    return False


_obj_from_list = None


def as_obj(x):
    """plain object ndarray with normalised elements, and dtype, from anything array-like"""
    if isinstance(x, SymArray):
        return raw(x), x._dt
    if hasattr(x, 'to_numpy'):
        x = x.to_numpy()
    if isinstance(x, nd):
        if x.dtype.kind not in _NUMKINDS:
            if x.dtype == object:
                return x, infer(x)
            raise Unsupported(f'array of dtype {x.dtype}')
        o = np.empty(x.shape, dtype = object)
        if x.size:
            if x.ndim == 0:
                o[()] = x.item()
            else:
                o[...] = np.array(x.tolist(), dtype = object).reshape(x.shape) if x.size else o
        return o, x.dtype
    if is_sym(x):
        o = np.empty((), dtype = object)
        o[()] = x
        return o, (np.dtype(bool) if isinstance(x, SymBool) else np.dtype('int64' if x.k == 'i' else 'float64'))
    if isinstance(x, (list, tuple, range)):
        if not any_sym_nested(x):
            return as_obj(np.array(x))
        shape, flat, dts = _flatten_nested(x)
        o = np.empty(len(flat), dtype = object)
        for i, v in enumerate(flat):
            o[i] = v
        return o.reshape(shape), (np.result_type(*dts) if dts else np.dtype(float))
    return as_obj(np.array(x))


def _flatten_nested(x):
    """shape, flat list of elements, list of dtypes for a nested list / tuple / array"""
    if isinstance(x, SymArray):
        return x.shape, list(raw(x).flat), [x._dt]
    if isinstance(x, nd):
        return x.shape, list(x.ravel().tolist()), [x.dtype]
    if isinstance(x, (list, tuple, range)):
        shapes, flat, dts = [], [], []
        for v in x:
            s, f, d = _flatten_nested(v)
            shapes.append(s)
            flat += f
            dts += d
        if not shapes:
            return (0,), [], []
        if any(s != shapes[0] for s in shapes):
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        return (len(shapes),) + shapes[0], flat, dts
    if isinstance(x, SymBool):
        return (), [x], [np.dtype(bool)]
    if isinstance(x, SymNum):
        return (), [x], [np.dtype('int64' if x.k == 'i' else 'float64')]
    d = np.array(x).dtype
    if d.kind not in _NUMKINDS:
        if x is None:
            return (), [math.nan], [np.dtype(float)]
        raise Unsupported(f'array element {x!r}')
    return (), [norm(x)], [d]


def infer(o):
    dts = []
    for v in o.flat:
        dts.append(_flatten_nested(v)[2][0])
    return np.result_type(*set(dts)) if dts else np.dtype(float)


def as_sym(x, dtype = None):
    o, d = as_obj(x)
    r = mk(o, d)
    if dtype is not None and np.dtype(dtype) != d:
        r = r.astype(dtype)
    return r


# ---------------------------------------------------------------------------------------------------
# element casting


def cast(v, dt):
    """value v (normalised scalar) stored in an array of dtype dt"""
    k = dt.kind
    if k == 'f':
        if isinstance(v, SymNum):
            if v.k == 'i':
                return lift(v, 'r')
            if dt.itemsize == 4:
                m = None if v.lo is None or v.hi is None else max(abs(v.lo), abs(v.hi))
                if v.lsb is None or m is None or m >= Fraction(2)**(24 + v.lsb):
                    if core.PATH is not None:
                        core.PATH.idealised = True
            return v
        if isinstance(v, SymBool):
            return ite(v, 1.0, 0.0)
        if v is None:
            return math.nan
        return float(dt.type(v)) if dt.itemsize < 8 else float(v)
    if k in 'iu':
        if isinstance(v, SymBool):
            return b_to_num(v)
        info = np.iinfo(dt)
        if isinstance(v, SymNum):
            if v.nan is not None:
                if core.path().decide(v.nan):
                    return int(info.min)
                v = SymNum(v.e, v.k, None, v.lo, v.hi, v.lsb)
            v = n_trunc(v)
            if (v.lo is None or v.lo < info.min) or (v.hi is None or v.hi > info.max):
                if dt.itemsize < 8 or k == 'u':
                    inr = core.mkb(core.z3.And(v.e >= int(info.min), v.e <= int(info.max)))
                    if not core.path().decide(inr.e if is_sym(inr) else core.z3.BoolVal(inr)):
                        n = int(info.max) - int(info.min) + 1
                        v = SymNum((v.e - int(info.min)) % n + int(info.min), 'i', None, int(info.min), int(info.max))
                    else:
                        v = SymNum(v.e, 'i', None, info.min if v.lo is None else max(v.lo, int(info.min)),
                                   int(info.max) if v.hi is None else min(v.hi, int(info.max)))
            return v
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return int(info.min)
            v = math.trunc(v)
        v = int(v)
        if v < info.min or v > info.max:
            n = int(info.max) - int(info.min) + 1
            v = (v - int(info.min)) % n + int(info.min)
        return v
    if k == 'b':
        if isinstance(v, SymBool):
            return v
        return to_bool(v)
    return v


def cast_obj(o, src, dt):
    if src == dt:
        return o
    out = np.empty(o.shape, dtype = object)
    of, ff = out.reshape(-1), o.reshape(-1)
    for i in range(of.size):
        of[i] = cast(ff[i], dt)
    return out


def box(v, dt):
    """element as handed to the code under test"""
    if is_sym(v):
        return v
    if dt.kind in _NUMKINDS:
        return dt.type(v)
    return v


# ---------------------------------------------------------------------------------------------------
# elementwise operations


def _conc(v):
    return not is_sym(v)


def _minmax(op, skipnan):

    def f(a, b):
        if skipnan:
            na, nb = n_isnan(a), n_isnan(b)
            c = n_cmp(op, a, b) if is_sym(a) or is_sym(b) else ((a < b) if op == 'lt' else (a > b))
            return ite(na, b, ite(nb, a, ite(c, a, b)))
        na, nb = n_isnan(a), n_isnan(b)
        c = n_cmp(op, a, b) if is_sym(a) or is_sym(b) else ((a < b) if op == 'lt' else (a > b))
        r = ite(c, a, b)
        if na is not False:
            r = ite(na, math.nan, r)
        if nb is not False:
            r = ite(nb, math.nan, r)
        return r

    return f


def _bitw(bop, nop):

    def f(a, b):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return bop(a, b)
        return nop(a, b)

    return f


def _sin(x):
    return n_sincos(x)[0]


def _cos(x):
    return n_sincos(x)[1]


def _tan(x):
    s, c = n_sincos(x)
    return n_div(s, c) if is_sym(s) or is_sym(c) else s / c


def _sign(x):
    x = lift(x)
    one, zero = (1, 0) if x.k == 'i' else (1.0, 0.0)
    if x.nan is not None and core.path().decide(x.nan):
        return math.nan
    return ite(core.mkb(x.e > 0), one, ite(core.mkb(x.e < 0), -one, zero))


def uninterpreted(name):

    def f(*xs):
        """uninterpreted real function of symbolic arguments (equal arguments give equal results)"""
        p = core.path()
        es = [lift(x, 'r') for x in xs]
        for x in es:
            if x.nan is not None and p.decide(x.nan):
                return math.nan
        fn = core.z3.Function('uf_' + name, *([core.z3.RealSort()] * (len(es) + 1)))
        p.idealised = True
        r = SymNum(fn(*[x.e for x in es]), 'r')
        return r

    return f


def _hypot(a, b):
    return n_sqrt(core.n_add(n_mul(a, a) if is_sym(a) else a * a, n_mul(b, b) if is_sym(b) else b * b))


_RAD = Fraction(math.pi) / 180

EW = {
    'add': n_add,
    'subtract': lambda a, b: n_add(a, b, True),
    'multiply': n_mul,
    'true_divide': n_div,
    'divide': n_div,
    'floor_divide': n_floordiv,
    'remainder': n_mod,
    'mod': n_mod,
    'power': n_pow,
    'float_power': n_pow,
    'negative': n_neg,
    'positive': lambda a: a,
    'absolute': n_abs,
    'fabs': lambda a: n_abs(lift(a, 'r')),
    'sign': _sign,
    'minimum': _minmax('lt', False),
    'maximum': _minmax('gt', False),
    'fmin': _minmax('lt', True),
    'fmax': _minmax('gt', True),
    'equal': lambda a, b: n_cmp('eq', a, b),
    'not_equal': lambda a, b: n_cmp('ne', a, b),
    'less': lambda a, b: n_cmp('lt', a, b),
    'less_equal': lambda a, b: n_cmp('le', a, b),
    'greater': lambda a, b: n_cmp('gt', a, b),
    'greater_equal': lambda a, b: n_cmp('ge', a, b),
    'logical_and': lambda a, b: b_and(to_bool(a), to_bool(b)),
    'logical_or': lambda a, b: b_or(to_bool(a), to_bool(b)),
    'logical_xor': lambda a, b: b_xor(to_bool(a), to_bool(b)),
    'logical_not': lambda a: b_not(to_bool(a)),
    'bitwise_and': _bitw(b_and, lambda a, b: a & b),
    'bitwise_or': _bitw(b_or, lambda a, b: a | b),
    'bitwise_xor': _bitw(b_xor, lambda a, b: a ^ b),
    'invert': lambda a: b_not(a) if isinstance(a, SymBool) else n_add(n_neg(a), 1, True),
    'isnan': n_isnan,
    'isinf': lambda a: False,
    'isfinite': lambda a: b_not(n_isnan(a)),
    'floor': lambda a: lift(n_floor(a), 'r'),
    'ceil': lambda a: lift(n_ceil(a), 'r'),
    'trunc': lambda a: lift(n_trunc(a), 'r'),
    'rint': lambda a: lift(n_rint(a), 'r'),
    'sqrt': n_sqrt,
    'square': lambda a: n_mul(a, a),
    'reciprocal': lambda a: n_div(1.0, a),
    'sin': _sin,
    'cos': _cos,
    'tan': _tan,
    'radians': lambda a: n_mul(a, math.pi / 180.0),
    'deg2rad': lambda a: n_mul(a, math.pi / 180.0),
    'degrees': lambda a: n_mul(a, 180.0 / math.pi),
    'rad2deg': lambda a: n_mul(a, 180.0 / math.pi),
    'hypot': _hypot,
    'conjugate': lambda a: a,
    'arctan': core.n_atan,
    'arctan2': core.n_atan2,
    'arccos': core.n_acos,
    'arcsin': core.n_asin,
    'exp': uninterpreted('exp'),
    'log': uninterpreted('log'),
    'log10': uninterpreted('log10'),
}


@functools.lru_cache(maxsize = 4096)
def _res_dtype(ufname, specs):
    uf = getattr(np, ufname)
    args = []
    for isarr, d, v in specs:
        if isarr:
            args.append(np.empty((1,), dtype = d))
        else:
            args.append(v)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for a in args:
            if isinstance(a, nd):
                a[...] = 1
        try:
            r = uf(*args)
        except TypeError:
            raise
    return tuple(x.dtype for x in r) if isinstance(r, tuple) else np.asarray(r).dtype


def _spec(x):
    if isinstance(x, SymArray):
        if x.ndim:
            return (True, x._dt, None)
        return (False, None, x._dt.type(1))
    if isinstance(x, nd):
        d = infer(x) if x.dtype == object else x.dtype
        if x.ndim:
            return (True, d, None)
        return (False, None, d.type(1))
    if isinstance(x, SymBool):
        return (False, None, True)
    if isinstance(x, SymNum):
        return (False, None, 1 if x.k == 'i' else 1.0)
    if isinstance(x, (list, tuple)):
        return (True, as_obj(x)[1], None)
    if isinstance(x, float) and type(x) is float:
        return (False, None, 1.0)
    if type(x) is int and abs(x) < 100:
        return (False, None, 1)
    if isinstance(x, np.generic):
        return (False, None, x if x == x else type(x)(1))
    return (False, None, x)


_np_ufs = {}


def apply_ufunc(ufname, *inputs, out = None, where = True, dtype = None):
    """elementwise application; returns a SymArray, or a scalar when all inputs are scalars"""
    inputs = [as_sym(x) if isinstance(x, (list, tuple)) else x for x in inputs]
    if ufname == 'divmod':
        return apply_ufunc('floor_divide', *inputs), apply_ufunc('remainder', *inputs)
    if ufname == 'matmul':
        r = f_matmul(*inputs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if ufname not in EW:
        if any(has_sym(x) for x in inputs):
            raise Unsupported(f'ufunc {ufname} on symbolic operands')
        f = None
    else:
        f = EW[ufname]
    if any(x is None or isinstance(x, str) for x in inputs):
        if ufname == 'equal':
            return False
        if ufname == 'not_equal':
            return True
        raise TypeError(f'unsupported operand for {ufname}')
    rdt = _res_dtype(ufname, tuple(_spec(x) for x in inputs))
    if dtype is not None:
        rdt = norm_dtype(dtype)
    objs = [as_obj(x) for x in inputs]
    uf = getattr(np, ufname)
    scalar = all(o.ndim == 0 for o, _ in objs) and not (out is not None)
    if len(objs) == 1:
        b = objs[0][0]
        shape = b.shape
        flats = [b.reshape(-1)]
    else:
        bc = np.broadcast_arrays(*[o for o, _ in objs])
        shape = bc[0].shape
        flats = [x.reshape(-1) for x in bc]
    res = np.empty(shape, dtype = object)
    rf = res.reshape(-1)
    n = rf.size
    dts = [d for _, d in objs]
    wf = None
    if where is not True:
        wo, _ = as_obj(where)
        wf = np.broadcast_to(wo, shape).reshape(-1)
        base = None
        if out is not None:
            oo = out[0] if isinstance(out, tuple) else out
            base = as_obj(oo)[0].reshape(-1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all = 'ignore'):
            conc_idx = None
            for i in range(n):
                vs = [fl[i] for fl in flats]
                if wf is not None:
                    w = wf[i]
                    if not is_sym(w) and not w:
                        rf[i] = base[i] if base is not None else 0
                        continue
                sym = False
                for v in vs:
                    if isinstance(v, (SymNum, SymBool)):
                        sym = True
                        break
                if sym:
                    v = f(*vs)
                    v = cast(v, rdt)
                else:
                    v = uf(*[d.type(x) for d, x in zip(dts, vs)])
                    v = v.item() if isinstance(v, np.generic) else v
                    v = cast(v, rdt)
                if wf is not None and is_sym(w):
                    v = ite(w, v, base[i] if base is not None else 0)
                rf[i] = v
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArray):
            raw(o)[...] = cast_obj(res, rdt, o._dt)
            return o
        if any(is_sym(v) for v in rf):
            raise Unsupported('symbolic result written into a concrete array')
        o[...] = to_real(mk(res, rdt))
        return o
    if scalar:
        return box(res[()], rdt)
    return mk(res, rdt)


def array_op(name, a, b):
    return apply_ufunc(name, a, b)


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    if name == 'divide':
        name = 'true_divide'
    kw = dict(kwargs)
    out = kw.pop('out', None)
    if out is not None and isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if method == '__call__':
        for k in ('casting', 'order', 'subok'):
            kw.pop(k, None)
        return apply_ufunc(name, *inputs, out = out, **kw)
    if method == 'outer':
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return apply_ufunc(name, a2, b)
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        keepdims = kw.pop('keepdims', False)
        dtype = kw.pop('dtype', None)
        initial = kw.pop('initial', None)
        where = kw.pop('where', True)
        if where is not True:
            raise Unsupported('reduce with where')
        r = reduce_uf(name, as_sym(inputs[0]), axis, keepdims, dtype)
        if initial is not None and type(initial).__name__ != '_NoValueType':
            r = apply_ufunc(name, r, initial)
        return r
    if method == 'accumulate':
        return accumulate(name, as_sym(inputs[0]), kw.get('axis', 0))
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        idx_l = list(as_sym(idx)) if not isinstance(idx, tuple) else list(zip(*[list(as_sym(x)) for x in idx]))
        for n_, ix in enumerate(idx_l):
            v = vals if vals is None or np.ndim(vals) == 0 else vals[n_]
            ix = ix if not isinstance(ix, tuple) else tuple(ix)
            a[ix] = apply_ufunc(name, a[ix], v)
        return None
    raise Unsupported(f'ufunc method {name}.{method}')


# ---------------------------------------------------------------------------------------------------
# reductions


def _norm_axis(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % ndim for a in axis)
    axis = int(axis)
    if axis < -ndim or axis >= ndim:
        raise np.AxisError(axis, ndim)
    return (axis % ndim,)


def _reduce(a, axis, keepdims, fn, rdt):
    """fn maps a list of elements to one element"""
    o = raw(a)
    axes = _norm_axis(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in axes]
    t = o.transpose(rest + list(axes)).reshape([o.shape[i] for i in rest] +
                                               [int(np.prod([o.shape[i] for i in axes], dtype = int))])
    res = np.empty(t.shape[:-1], dtype = object)
    if t.ndim == 1:
        v = fn(list(t))
        if not keepdims:
            return box(v, rdt)
        res[()] = v
    else:
        for ix in np.ndindex(*t.shape[:-1]):
            res[ix] = fn(list(t[ix]))
    if keepdims:
        res = res.reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)])
    return mk(res, rdt)


def _binlist(ufname, dt):
    uf = getattr(np, ufname)
    f = EW[ufname]

    def g(vals):
        if not vals:
            if ufname == 'add':
                return cast(0, dt)
            if ufname == 'multiply':
                return cast(1, dt)
            if ufname in ('logical_and',):
                return True
            if ufname in ('logical_or',):
                return False
            raise ValueError(f'zero-size array to reduction operation {ufname} which has no identity')
        if ufname == 'logical_and':
            return b_and(*[to_bool(v) for v in vals])
        if ufname == 'logical_or':
            return b_or(*[to_bool(v) for v in vals])
        if not any(is_sym(v) for v in vals):
            with np.errstate(all = 'ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return norm(uf.reduce(np.array(vals, dtype = dt)))
        acc = cast(vals[0], dt)
        for v in vals[1:]:
            v = cast(v, dt)
            if is_sym(acc) or is_sym(v):
                acc = cast(f(acc, v), dt)
            else:
                acc = norm(uf(acc, v))
        return acc

    return g


@functools.lru_cache(maxsize = 1024)
def _reduce_dtype(ufname, dt):
    uf = getattr(np, ufname)
    return np.asarray(uf.reduce(np.ones((2,), dtype = dt))).dtype


def reduce_uf(ufname, a, axis, keepdims, dtype = None):
    dtype = norm_dtype(dtype)
    src = a._dt if dtype is None else dtype
    rdt = _reduce_dtype(ufname, src)
    return _reduce(a, axis, keepdims, _binlist(ufname, rdt), rdt)


def accumulate(ufname, a, axis = 0, dtype = None):
    dtype = norm_dtype(dtype)
    rdt = _reduce_dtype(ufname, a._dt if dtype is None else dtype)
    o = raw(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    o = np.moveaxis(o, axis, -1)
    res = np.empty(o.shape, dtype = object)
    f = _binlist(ufname, rdt)
    for ix in np.ndindex(*o.shape[:-1]):
        acc = None
        for j in range(o.shape[-1]):
            v = o[ix + (j,)]
            acc = cast(v, rdt) if j == 0 else f([acc, v])
            res[ix + (j,)] = acc
    return mk(np.moveaxis(res, -1, axis), rdt)


def _nan_filter(vals):
    """decides nan-ness of every element; returns those which are not nan"""
    out = []
    for v in vals:
        if isinstance(v, SymNum) and v.nan is not None:
            if core.path().decide(v.nan):
                continue
            v = SymNum(v.e, v.k, None, v.lo, v.hi, v.lsb)
        elif is_nan(v):
            continue
        out.append(v)
    return out


def _argext(op, skipnan = False):

    def g(vals):
        if not vals:
            raise ValueError('attempt to get argmin/argmax of an empty sequence')
        best = None
        bi = None
        for i, v in enumerate(vals):
            nan = n_isnan(v)
            if nan is not False:
                isn = bool(nan)
                if isn:
                    if skipnan:
                        continue
                    return i if bi is None or not is_sym(bi) or True else i
                if isinstance(v, SymNum):
                    v = SymNum(v.e, v.k, None, v.lo, v.hi, v.lsb)
            if best is None:
                best, bi = v, i
                continue
            c = n_cmp(op, v, best) if is_sym(v) or is_sym(best) else (v < best if op == 'lt' else v > best)
            best = ite(c, v, best)
            bi = ite(c, i, bi)
        if best is None:
            raise ValueError('All-NaN slice encountered')
        return bi

    return g


# ---------------------------------------------------------------------------------------------------
# the array class


def _concrete_mask(m):
    """real bool array from a bool SymArray, forking on symbolic elements"""
    o = raw(m)
    r = np.empty(o.shape, dtype = bool)
    rf, of = r.reshape(-1), o.reshape(-1)
    for i in range(rf.size):
        rf[i] = bool(of[i])
    return r


def _sym_in_key(k):
    return isinstance(k, (SymNum, SymBool, SymArray)) or isinstance(k, list) and any_sym_nested(k)


class SymArray(np.ndarray):

    def __array_finalize__(self, obj):
        if obj is None:
            self._dt = np.dtype(float)
        else:
            self._dt = getattr(obj, '_dt', None) or (np.dtype(float)
                                                     if not isinstance(obj, nd) or obj.dtype == object else obj.dtype)

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self._dt.itemsize * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    # ---- indexing
    def _prep(self, key):
        """returns key with concrete masks / concrete index arrays, plus position of a remaining symbolic int scalar"""
        tup = key if isinstance(key, tuple) else (key,)
        out = []
        for k in tup:
            if isinstance(k, (list, tuple)):
                k = as_sym(list(k)) if len(k) else np.array([], dtype = int)
            if isinstance(k, SymArray):
                if k._dt.kind == 'b':
                    k = _concrete_mask(k)
                elif k.ndim == 0:
                    k = norm(raw(k)[()])
                elif k._dt.kind in 'iu':
                    if not has_sym(k):
                        k = np.array(raw(k).tolist(), dtype = int).reshape(k.shape)
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            elif isinstance(k, SymBool):
                k = bool(k)
            elif isinstance(k, SymNum) and k.k != 'i':
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                                 'boolean arrays are valid indices')
            elif isinstance(k, slice):
                k = slice(*[core.path().concretise(v.e) if isinstance(v, SymNum) else v
                            for v in (k.start, k.stop, k.step)])
            out.append(k)
        return tuple(out), isinstance(key, tuple)

    def _axis_of(self, tup, pos):
        """axis of self addressed by component pos of an index tuple"""
        def width(k):
            if k is None:
                return 0
            if isinstance(k, nd) and not isinstance(k, SymArray) and k.dtype == bool:
                return k.ndim
            return 1

        ax = 0
        for i, k in enumerate(tup[:pos]):
            if k is Ellipsis:
                after = sum(width(q) for q in tup[pos:])
                ax = self.ndim - after
                # components between the ellipsis and pos
                between = sum(width(q) for q in tup[i + 1:pos])
                ax = self.ndim - after
                return ax
            ax += width(k)
        return ax

    def _sym_range(self, s, n):
        """feasible concrete values for symbolic index s on an axis of extent n, as (value, condition)"""
        lo = -n if s.lo is None else max(-n, int(s.lo))
        hi = n - 1 if s.hi is None else min(n - 1, int(s.hi))
        p = core.path()
        if (s.lo is None or s.lo < -n) or (s.hi is None or s.hi > n - 1):
            inr = core.z3.And(s.e >= -n, s.e <= n - 1)
            if not p.decide(inr):
                raise IndexError(f'index {s} is out of bounds for axis with size {n}')
        vals = []
        for v in range(lo, hi + 1):
            vals.append((v, core.mkb(s.e == v)))
        if not vals:
            raise IndexError('index out of bounds')
        return vals

    def __getitem__(self, key):
        tup, was_tuple = self._prep(key)
        for pos, k in enumerate(tup):
            if isinstance(k, SymNum):
                return self._get_sym(tup, pos)
            if isinstance(k, SymArray):
                return self._get_symarr(tup, pos)
        r = nd.__getitem__(raw(self), tup if was_tuple else tup[0])
        if isinstance(r, nd):
            return mk(r, self._dt)
        return box(r, self._dt)

    def _get_sym(self, tup, pos):
        s = tup[pos]
        n = self.shape[self._axis_of(tup, pos)]
        if core.PATH.opts.get('fork_index'):
            return self[tup[:pos] + (core.path().concretise(s.e),) + tup[pos + 1:]]
        vals = self._sym_range(s, n)
        acc = None
        for v, c in reversed(vals):
            r = self[tup[:pos] + (v,) + tup[pos + 1:]]
            acc = r if acc is None else sel(c, r, acc)
        return acc

    def _get_symarr(self, tup, pos):
        """integer index array with symbolic elements: merges when it is the only advanced index, else forks"""
        idx = tup[pos]
        adv = [k for i, k in enumerate(tup) if i != pos and (isinstance(k, (nd, SymNum)) or isinstance(k, int))]
        if adv:
            c = np.empty(idx.shape, dtype = int)
            for ix in np.ndindex(*idx.shape):
                v = raw(idx)[ix]
                c[ix] = core.path().concretise(v.e) if is_sym(v) else v
            return self[tup[:pos] + (c,) + tup[pos + 1:]]
        parts = []
        for v in raw(idx).reshape(-1):
            parts.append(as_sym(self[tup[:pos] + (v,) + tup[pos + 1:]]))
        # position of the indexed axis in the result
        axis = 0
        for i, k in enumerate(tup[:pos]):
            if k is Ellipsis:
                axis = None
                break
            axis += 1
        if axis is None:
            axis = self.ndim - sum(1 for k in tup[pos:] if k is not None)
        st = np.stack([raw(q) for q in parts], axis = axis) if parts else np.empty((0,), dtype = object)
        sh = st.shape[:axis] + idx.shape + st.shape[axis + 1:]
        return mk(st.reshape(sh), self._dt)

    def __setitem__(self, key, value):
        # boolean mask with symbolic elements and a scalar value merges without forking
        if isinstance(value, MASKED[0]):
            value = value.data
        if hasattr(value, 'to_numpy'):
            value = value.to_numpy()
        k0 = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if isinstance(k0, list) and k0 and any_sym_nested(k0):
            k0 = as_sym(k0)
        if isinstance(k0, SymArray) and k0._dt.kind == 'b' and has_sym(k0) and np.ndim(value) == 0 and k0.ndim > 0:
            v = cast(norm(value if not isinstance(value, SymArray) else raw(value)[()]), self._dt)
            o = raw(self)
            m = raw(k0)
            if m.shape != o.shape[:m.ndim]:
                raise IndexError('boolean index did not match indexed array')
            for ix in np.ndindex(*m.shape):
                c = m[ix]
                if not is_sym(c):
                    if c:
                        o[ix] = v
                elif m.ndim == o.ndim:
                    o[ix] = ite(c, v, o[ix])
                else:
                    sub = o[ix]
                    for jx in np.ndindex(*sub.shape):
                        sub[jx] = ite(c, v, sub[jx])
            return
        tup, was_tuple = self._prep(key)
        for pos, k in enumerate(tup):
            if isinstance(k, SymNum):
                n = self.shape[self._axis_of(tup, pos)]
                if core.PATH.opts.get('fork_index'):
                    self[tup[:pos] + (core.path().concretise(k.e),) + tup[pos + 1:]] = value
                    return
                for v, c in self._sym_range(k, n):
                    kk = tup[:pos] + (v,) + tup[pos + 1:]
                    old = self[kk]
                    if isinstance(value, SymArray) or np.ndim(old):
                        new = sel(c, as_sym(value, self._dt), as_sym(old))
                    else:
                        new = ite(c, cast(norm(value), self._dt), norm(old))
                    self[kk] = new
                return
            if isinstance(k, SymArray):
                # sequential element writes
                if len(tup) == 1:
                    vo = as_sym(value)
                    rest = self.shape[1:]
                    vb = np.broadcast_to(raw(vo), k.shape + rest)
                    for ix in np.ndindex(*k.shape):
                        w = vb[ix]
                        self[raw(k)[ix]] = mk(w, vo._dt) if isinstance(w, nd) else w
                    return
                advs = [q for q in tup if isinstance(q, (nd, SymNum, int))]
                if len(advs) == len(tup):
                    bc = np.broadcast_arrays(*[as_obj(q)[0] for q in tup])
                    vo = as_sym(value)
                    rest = self.shape[len(tup):]
                    vb = np.broadcast_to(raw(vo), bc[0].shape + rest)
                    for ix in np.ndindex(*bc[0].shape):
                        w = vb[ix]
                        self[tuple(q[ix] for q in bc)] = mk(w, vo._dt) if isinstance(w, nd) else w
                    return
                c = np.empty(k.shape, dtype = int)
                for ix in np.ndindex(*k.shape):
                    v = raw(k)[ix]
                    c[ix] = core.path().concretise(v.e) if is_sym(v) else v
                self[tup[:pos] + (c,) + tup[pos + 1:]] = value
                return
        if isinstance(value, SymArray):
            o = cast_obj(raw(value), value._dt, self._dt)
        elif is_sym(value):
            o = cast(value, self._dt)
        elif isinstance(value, (nd, list, tuple, range)):
            vo, vd = as_obj(value)
            o = cast_obj(vo, vd, self._dt)
        else:
            o = cast(norm(value), self._dt)
        if isinstance(o, nd) and o.ndim == 0:
            o = o[()]
        nd.__setitem__(raw(self), tup if was_tuple else tup[0], o)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(SymArray.any(apply_ufunc('equal', self, v)))

    def __bool__(self):
        if self.size == 1:
            return bool(to_bool(raw(self).reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            v = raw(self)[()]
            return v.__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __int__(self):
        return int(raw(self).reshape(-1)[0]) if self.size == 1 else nd.__int__(self)

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(raw(self).reshape(-1)[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f'SymArray(shape={self.shape}, dtype={self._dt})'

    __str__ = __repr__

    def __format__(self, spec):
        if self.size == 1:
            return format(raw(self).reshape(-1)[0], spec)
        return repr(self)

    # ---- methods
    def astype(self, dtype, order = None, casting = None, subok = None, copy = True):
        dt = norm_dtype(dtype)
        if dt.kind not in _NUMKINDS:
            if dt == object:
                return raw(self).copy()
            if dt.kind in 'SU' and not has_sym(self):
                return to_real(self).astype(dt)
            raise Unsupported(f'astype {dt}')
        o = cast_obj(raw(self), self._dt, dt)
        if o is raw(self) or np.shares_memory(o, raw(self)):
            if not copy:
                return self
            o = o.copy()
        return mk(o, dt)

    def item(self, *args):
        if args:
            return self[args[0]] if len(args) == 1 and not isinstance(args[0], tuple) and self.ndim == 1 else self[
                args if len(args) > 1 else args[0]]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return raw(self).reshape(-1)[0]

    def tolist(self):
        return raw(self).tolist()

    def copy(self, order = 'C'):
        return mk(raw(self).copy(), self._dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def sum(self, axis = None, dtype = None, out = None, keepdims = False, **kw):
        return reduce_uf('add', self, axis, keepdims, dtype)

    def prod(self, axis = None, dtype = None, out = None, keepdims = False, **kw):
        return reduce_uf('multiply', self, axis, keepdims, dtype)

    def min(self, axis = None, out = None, keepdims = False, **kw):
        return reduce_uf('minimum', self, axis, keepdims)

    def max(self, axis = None, out = None, keepdims = False, **kw):
        return reduce_uf('maximum', self, axis, keepdims)

    def any(self, axis = None, out = None, keepdims = False, **kw):
        return _reduce(self, axis, keepdims, _binlist('logical_or', np.dtype(bool)), np.dtype(bool))

    def all(self, axis = None, out = None, keepdims = False, **kw):
        return _reduce(self, axis, keepdims, _binlist('logical_and', np.dtype(bool)), np.dtype(bool))

    def mean(self, axis = None, dtype = None, out = None, keepdims = False, **kw):
        axes = _norm_axis(axis, self.ndim)
        n = int(np.prod([self.shape[i] for i in axes], dtype = int))
        s = reduce_uf('add', self, axis, keepdims, None if self._dt.kind == 'f' else float)
        r = apply_ufunc('true_divide', s, n)
        return r.astype(self._dt) if self._dt.kind == 'f' and isinstance(r, SymArray) else r

    def var(self, axis = None, **kw):
        if axis is not None:
            raise Unsupported('var with axis')
        m = self.mean()
        d = self - m
        return (d * d).mean()

    def std(self, axis = None, **kw):
        return apply_ufunc('sqrt', self.var(axis))

    def cumsum(self, axis = None, dtype = None, out = None):
        return accumulate('add', self, axis, dtype)

    def cumprod(self, axis = None, dtype = None, out = None):
        return accumulate('multiply', self, axis, dtype)

    def argmin(self, axis = None, out = None, **kw):
        return _reduce(self, axis, False, _argext('lt'), np.dtype('int64'))

    def argmax(self, axis = None, out = None, **kw):
        return _reduce(self, axis, False, _argext('gt'), np.dtype('int64'))

    def nonzero(self):
        m = _concrete_mask(self if self._dt.kind == 'b' else apply_ufunc('not_equal', self, 0))
        return tuple(mk(as_obj(x)[0], np.dtype('int64')) for x in m.nonzero())

    def clip(self, min = None, max = None, out = None, **kw):
        r = self
        if min is not None:
            r = apply_ufunc('maximum', r, min)
        if max is not None:
            r = apply_ufunc('minimum', r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, decimals = 0, out = None):
        if decimals == 0:
            return apply_ufunc('rint', self)
        m = 10.0**decimals
        return apply_ufunc('true_divide', apply_ufunc('rint', apply_ufunc('multiply', self, m)), m)

    def dot(self, b, out = None):
        return f_dot(self, b)

    def __matmul__(self, b):
        return f_matmul(self, b)

    def __rmatmul__(self, b):
        return f_matmul(b, self)

    def argsort(self, axis = -1, kind = None, order = None):
        return f_argsort(self, axis)

    def sort(self, axis = -1, kind = None, order = None):
        self[...] = f_sort(self, axis)

    def take(self, indices, axis = None, out = None, mode = 'raise'):
        if axis is None:
            return self.reshape(-1)[as_sym(indices) if not np.isscalar(indices) else indices]
        key = [slice(None)] * self.ndim
        key[axis] = indices
        return self[tuple(key)]

    def flatten(self, order = 'C'):
        return mk(raw(self).flatten(), self._dt)

    @property
    def flat(self):
        return self.reshape(-1)

    @flat.setter
    def flat(self, v):
        self[...] = as_sym(v).reshape(self.shape)

    def tobytes(self, order = 'C'):
        if has_sym(self):
            raise Unsupported('tobytes of symbolic array')
        return to_real(self).tobytes()

    def view(self, *a, **k):
        if a and (a[0] is nd or a[0] is SymArray or (isinstance(a[0], type) and issubclass(a[0], nd))):
            return nd.view(self, *a, **k)
        if not a and not k:
            return nd.view(self)
        raise Unsupported('view with dtype')

    def squeeze(self, axis = None):
        return mk(raw(self).squeeze(axis) if axis is not None else raw(self).squeeze(), self._dt)

    def conj(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling of symbolic array')

    def searchsorted(self, v, side = 'left', sorter = None):
        return f_searchsorted(self, v, side, sorter)

    def compress(self, condition, axis = None, out = None):
        if axis is None:
            return self.reshape(-1)[condition]
        return self[(slice(None),) * axis + (condition,)]

    def resize(self, *a, **k):
        raise Unsupported('resize')


def sel(c, a, b):
    """merge of two equal shaped arrays or scalars under scalar condition c"""
    if not isinstance(a, nd) and not isinstance(b, nd):
        return ite(c, norm(a), norm(b))
    a, b = as_sym(a), as_sym(b)
    dt = np.result_type(a._dt, b._dt)
    ao, bo = np.broadcast_arrays(raw(a), raw(b))
    res = np.empty(ao.shape, dtype = object)
    for ix in np.ndindex(*ao.shape):
        res[ix] = cast(ite(c, ao[ix], bo[ix]), dt)
    return mk(res, dt)


# ---------------------------------------------------------------------------------------------------
# numpy functions

FUNCS = {}


def fn(*names):

    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f

    return deco


@fn('where')
def f_where(c, x = None, y = None):
    if x is None and y is None:
        c = as_sym(c)
        return c.nonzero()
    co, cd = as_obj(c)
    xo, xd = as_obj(x)
    yo, yd = as_obj(y)
    sx, sy = _spec(x), _spec(y)
    rdt = _where_dtype(sx, sy)
    co, xo, yo = np.broadcast_arrays(co, xo, yo)
    res = np.empty(co.shape, dtype = object)
    for ix in np.ndindex(*co.shape):
        cc = to_bool(co[ix])
        if is_sym(cc):
            res[ix] = ite(cc, cast(xo[ix], rdt), cast(yo[ix], rdt))
        else:
            res[ix] = cast(xo[ix] if cc else yo[ix], rdt)
    return mk(res, rdt)


@functools.lru_cache(maxsize = 1024)
def _where_dtype(sx, sy):
    a = [np.ones((1,), dtype = d) if isarr else v for isarr, d, v in (sx, sy)]
    return np.where(np.array([True]), *a).dtype


@fn('nonzero')
def f_nonzero(a):
    return as_sym(a).nonzero()


@fn('flatnonzero')
def f_flatnonzero(a):
    return as_sym(a).reshape(-1).nonzero()[0]


@fn('argwhere')
def f_argwhere(a):
    nz = as_sym(a).nonzero()
    return f_stack(nz, axis = -1)


@fn('count_nonzero')
def f_count_nonzero(a, axis = None, keepdims = False):
    a = as_sym(a)

    def g(vals):
        acc = 0
        for v in vals:
            t = to_bool(v)
            if is_sym(t):
                acc = acc + b_to_num(t) if is_sym(acc) else n_add(b_to_num(t), acc)
            else:
                acc = acc + int(t)
        return acc

    r = _reduce(a, axis, keepdims, g, np.dtype('int64'))
    if axis is None and not keepdims and not is_sym(r):
        return int(r)
    return r


def _meth(name):

    def f(a, *args, **kw):
        return getattr(as_sym(a), name)(*args, **kw)

    return f


for _n in ('sum', 'prod', 'any', 'all', 'mean', 'cumsum', 'cumprod', 'argmin', 'argmax', 'clip', 'std', 'var', 'take'):
    FUNCS[_n] = _meth(_n)
FUNCS['min'] = FUNCS['amin'] = _meth('min')
FUNCS['max'] = FUNCS['amax'] = _meth('max')
FUNCS['around'] = FUNCS['round'] = FUNCS['round_'] = _meth('round')


def _nanred(op):

    def f(a, axis = None, keepdims = False, **kw):
        a = as_sym(a)
        rdt = a._dt if op in ('min', 'max') else _reduce_dtype('add', a._dt)
        if op == 'mean' and rdt.kind != 'f':
            rdt = np.dtype(float)

        def g(vals):
            vs = _nan_filter(vals)
            if not vs:
                if op == 'sum':
                    return cast(0, rdt)
                if not vals and op in ('min', 'max'):
                    raise ValueError('zero-size array to reduction operation which has no identity')
                return math.nan
            if op == 'sum':
                return _binlist('add', rdt)(vs)
            if op == 'mean':
                s = _binlist('add', rdt)(vs)
                return n_div(s, len(vs)) if is_sym(s) else s / len(vs)
            return _binlist('minimum' if op == 'min' else 'maximum', rdt)(vs)

        return _reduce(a, axis, keepdims, g, rdt)

    return f


for _n in ('min', 'max', 'sum', 'mean'):
    FUNCS['nan' + _n] = _nanred(_n)


@fn('nanargmin')
def f_nanargmin(a, axis = None, **kw):
    return _reduce(as_sym(a), axis, False, _argext('lt', True), np.dtype('int64'))


@fn('nanargmax')
def f_nanargmax(a, axis = None, **kw):
    return _reduce(as_sym(a), axis, False, _argext('gt', True), np.dtype('int64'))


@fn('diff')
def f_diff(a, n = 1, axis = -1, **kw):
    a = as_sym(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = apply_ufunc('not_equal' if a._dt.kind == 'b' else 'subtract', a[tuple(s1)], a[tuple(s2)])
    return a


def _dotv(u, v):
    acc = None
    for x, y in zip(u, v):
        t = x * y
        acc = t if acc is None else acc + t
    return 0 if acc is None else acc


@fn('dot')
def f_dot(a, b, out = None):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return apply_ufunc('multiply', a, b)
    a, b = as_sym(a), as_sym(b)
    dt = np.result_type(a._dt, b._dt)
    ao, bo = raw(a), raw(b)
    if bo.ndim == 1:
        if ao.shape[-1] != bo.shape[0]:
            raise ValueError(f'shapes {ao.shape} and {bo.shape} not aligned')
        res = np.empty(ao.shape[:-1], dtype = object)
        for ix in np.ndindex(*ao.shape[:-1]):
            res[ix] = cast(_dotv(ao[ix], bo), dt)
    else:
        bt = np.moveaxis(bo, -2, -1)
        if ao.shape[-1] != bt.shape[-1]:
            raise ValueError(f'shapes {ao.shape} and {bo.shape} not aligned')
        res = np.empty(ao.shape[:-1] + bt.shape[:-1], dtype = object)
        for ix in np.ndindex(*ao.shape[:-1]):
            for jx in np.ndindex(*bt.shape[:-1]):
                res[ix + jx] = cast(_dotv(ao[ix], bt[jx]), dt)
    if res.ndim == 0:
        r = box(res[()], dt)
    else:
        r = mk(res, dt)
    if out is not None:
        out[...] = r
        return out
    return r


@fn('matmul')
def f_matmul(a, b, **kw):
    a, b = as_sym(a), as_sym(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b)
    if b.ndim == 1:
        return f_dot(a, b)
    if b.ndim == 2:
        return f_dot(a, b)
    if a.ndim == 1:
        a2 = a.reshape((1,) + a.shape)
        return f_matmul(a2, b)[..., 0, :]
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    ao = np.broadcast_to(raw(a), sh + a.shape[-2:])
    bo = np.broadcast_to(raw(b), sh + b.shape[-2:])
    dt = np.result_type(a._dt, b._dt)
    res = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype = object)
    for ix in np.ndindex(*sh):
        res[ix] = raw(f_dot(mk(ao[ix], a._dt), mk(bo[ix], b._dt)))
    return mk(res, dt)


FUNCS['inner'] = lambda a, b: f_dot(a, b) if np.ndim(a) == 1 and np.ndim(b) == 1 else (_ for _ in ()).throw(
    Unsupported('inner'))


@fn('outer')
def f_outer(a, b, out = None):
    a, b = as_sym(a).reshape(-1), as_sym(b).reshape(-1)
    return apply_ufunc('multiply', a.reshape(-1, 1), b)


@fn('cross')
def f_cross(a, b, axisa = -1, axisb = -1, axisc = -1, axis = None):
    a, b = as_sym(a), as_sym(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    if axisa not in (-1, a.ndim - 1):
        a = mk(np.moveaxis(raw(a), axisa, -1), a._dt)
    if axisb not in (-1, b.ndim - 1):
        b = mk(np.moveaxis(raw(b), axisb, -1), b._dt)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross with mixed dimensions')
    r = f_stack([
        a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
        a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    ],
                axis = -1)
    if axisc not in (-1, r.ndim - 1):
        r = mk(np.moveaxis(raw(r), -1, axisc), r._dt)
    return r


@fn('linalg.norm')
def f_norm(x, ord = None, axis = None, keepdims = False):
    x = as_sym(x)
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    return apply_ufunc('sqrt', reduce_uf('add', apply_ufunc('multiply', x, x).astype(float), axis, keepdims))


@fn('isclose')
def f_isclose(a, b, rtol = 1.e-5, atol = 1.e-8, equal_nan = False):
    d = apply_ufunc('absolute', apply_ufunc('subtract', a, b))
    t = apply_ufunc('add', atol, apply_ufunc('multiply', rtol, apply_ufunc('absolute', b)))
    r = apply_ufunc('less_equal', d, t)
    # equal infinities
    r = apply_ufunc('logical_or', r, apply_ufunc('equal', a, b))
    if equal_nan:
        r = apply_ufunc('logical_or', r, apply_ufunc('logical_and', apply_ufunc('isnan', a), apply_ufunc('isnan', b)))
    return r


@fn('allclose')
def f_allclose(a, b, rtol = 1.e-5, atol = 1.e-8, equal_nan = False):
    r = f_isclose(a, b, rtol, atol, equal_nan)
    return r.all() if isinstance(r, SymArray) else r


@fn('array_equal')
def f_array_equal(a, b, equal_nan = False):
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return as_sym(apply_ufunc('equal', a, b)).all()


@fn('stack')
def f_stack(arrays, axis = 0, out = None, **kw):
    a = [as_sym(x) for x in arrays]
    dt = np.result_type(*[x._dt for x in a])
    return mk(np.stack([cast_obj(raw(x), x._dt, dt) for x in a], axis = axis), dt)


def _joined(np_f):

    def f(arrays, *args, **kw):
        kw.pop('dtype', None)
        kw.pop('out', None)
        kw.pop('casting', None)
        a = [as_sym(x) for x in arrays]
        dt = np.result_type(*[x._dt for x in a])
        return mk(np_f([cast_obj(raw(x), x._dt, dt) for x in a], *args, **kw), dt)

    return f


for _n in ('concatenate', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack'):
    FUNCS[_n] = _joined(getattr(np, _n))


def _struct(np_f):

    def f(a, *args, **kw):
        a = as_sym(a)
        args = [_deint(x) for x in args]
        kw = {k: _deint(v) for k, v in kw.items()}
        r = np_f(raw(a), *args, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(mk(x, a._dt) for x in r)
        return mk(r, a._dt) if isinstance(r, nd) else box(r, a._dt)

    return f


def _deint(x):
    if isinstance(x, SymArray):
        if has_sym(x):
            return np.array([core.path().concretise(v.e) if is_sym(v) else v for v in raw(x).reshape(-1)],
                            dtype = int).reshape(x.shape)
        return to_real(x)
    if isinstance(x, SymNum) and x.k == 'i':
        return core.path().concretise(x.e)
    if isinstance(x, (tuple, list)):
        return type(x)(_deint(v) for v in x)
    return x


for _n in ('reshape', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'flip', 'fliplr', 'flipud', 'roll',
           'tile', 'repeat', 'broadcast_to', 'diag', 'diagonal', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel',
           'rot90', 'split', 'array_split', 'triu', 'tril', 'trace', 'squeeze', 'delete'):
    FUNCS[_n] = _struct(getattr(np, _n))


@fn('delete')
def f_delete(a, obj, axis = None):
    a = as_sym(a)
    if isinstance(obj, SymArray) and obj._dt.kind == 'b':
        obj = _concrete_mask(obj)
    return mk(np.delete(raw(a), _deint(obj), axis = axis), a._dt)


@fn('insert')
def f_insert(a, obj, values, axis = None):
    a = as_sym(a)
    v = as_sym(values, a._dt)
    return mk(np.insert(raw(a), _deint(obj), raw(v) if v.ndim else raw(v)[()], axis = axis), a._dt)


@fn('append')
def f_append(a, values, axis = None):
    a, v = as_sym(a), as_sym(values)
    if axis is None:
        return FUNCS['concatenate']((a.reshape(-1), v.reshape(-1)))
    return FUNCS['concatenate']((a, v), axis = axis)


@fn('copy')
def f_copy(a, *args, **kw):
    return as_sym(a).copy()


@fn('copyto')
def f_copyto(dst, src, casting = None, where = True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


@fn('putmask')
def f_putmask(a, mask, values):
    a[...] = f_where(mask, values, a)


@fn('shape')
def f_shape(a):
    return as_sym(a).shape


@fn('ndim')
def f_ndim(a):
    return as_sym(a).ndim


@fn('size')
def f_size(a, axis = None):
    a = as_sym(a)
    return a.size if axis is None else a.shape[axis]


def _sort_perm(vals):
    """stable permutation sorting vals, deciding comparisons (nans last)"""
    def lt(a, b):
        na, nb = n_isnan(a), n_isnan(b)
        if is_sym(na):
            na = bool(na)
        if is_sym(nb):
            nb = bool(nb)
        if na:
            return False
        if nb:
            return True
        return bool(n_cmp('lt', a, b)) if is_sym(a) or is_sym(b) else a < b

    perm = []
    for i, v in enumerate(vals):
        j = len(perm)
        while j > 0 and lt(v, vals[perm[j - 1]]):
            j -= 1
        perm.insert(j, i)
    return perm


@fn('argsort')
def f_argsort(a, axis = -1, kind = None, order = None):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np.moveaxis(raw(a), axis, -1)
    res = np.empty(o.shape, dtype = object)
    for ix in np.ndindex(*o.shape[:-1]):
        for j, p in enumerate(_sort_perm(list(o[ix]))):
            res[ix + (j,)] = p
    return mk(np.moveaxis(res, -1, axis), np.dtype('int64'))


@fn('sort')
def f_sort(a, axis = -1, kind = None, order = None):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np.moveaxis(raw(a), axis, -1)
    res = np.empty(o.shape, dtype = object)
    for ix in np.ndindex(*o.shape[:-1]):
        row = list(o[ix])
        for j, p in enumerate(_sort_perm(row)):
            res[ix + (j,)] = row[p]
    return mk(np.moveaxis(res, -1, axis), a._dt)


@fn('lexsort')
def f_lexsort(keys, axis = -1):
    ks = [list(raw(as_sym(k))) for k in keys]
    perm = list(range(len(ks[0])))
    for k in ks:
        q = _sort_perm([k[i] for i in perm])
        perm = [perm[i] for i in q]
    return mk(as_obj(np.array(perm, dtype = int))[0], np.dtype('int64'))


@fn('unique')
def f_unique(a, return_index = False, return_inverse = False, return_counts = False, axis = None, **kw):
    a = as_sym(a)
    if axis is None:
        rows = [(v,) for v in raw(a).reshape(-1)]
        tail = ()
    else:
        o = np.moveaxis(raw(a), axis, 0)
        tail = o.shape[1:]
        rows = [tuple(r.reshape(-1)) if isinstance(r, nd) else (r,) for r in o]
    def lt(u, v):
        for x, y in zip(u, v):
            if is_sym(x) or is_sym(y):
                if bool(n_cmp('lt', x, y)):
                    return True
                if bool(n_cmp('gt', x, y)):
                    return False
            else:
                if x < y or (is_nan(y) and not is_nan(x)):
                    return True
                if x > y or (is_nan(x) and not is_nan(y)):
                    return False
        return False

    perm = []
    for i, v in enumerate(rows):
        j = len(perm)
        while j > 0 and lt(v, rows[perm[j - 1]]):
            j -= 1
        perm.insert(j, i)
    uniq, first, counts = [], [], []
    inv = [None] * len(rows)
    for i in perm:
        if not uniq or lt(uniq[-1], rows[i]):
            uniq.append(rows[i])
            first.append(i)
            counts.append(0)
        inv[i] = len(uniq) - 1
        counts[-1] += 1
        first[-1] = min(first[-1], i)
    o = np.empty((len(uniq),) + ((int(np.prod(tail, dtype = int)),) if axis is not None else ()), dtype = object)
    for i, u in enumerate(uniq):
        if axis is None:
            o[i] = u[0]
        else:
            for j, x in enumerate(u):
                o[i, j] = x
    if axis is not None:
        o = np.moveaxis(o.reshape((len(uniq),) + tail), 0, axis)
    r = mk(o, a._dt)
    i64 = np.dtype('int64')
    out = [r]
    if return_index:
        out.append(mk(as_obj(np.array(first, dtype = int))[0], i64))
    if return_inverse:
        out.append(mk(as_obj(np.array(inv, dtype = int))[0], i64))
    if return_counts:
        out.append(mk(as_obj(np.array(counts, dtype = int))[0], i64))
    return out[0] if len(out) == 1 else tuple(out)


@fn('searchsorted')
def f_searchsorted(a, v, side = 'left', sorter = None):
    a = as_sym(a)
    if sorter is not None:
        a = a[sorter]
    vals = list(raw(a))
    op = 'less' if side == 'left' else 'less_equal'

    def one(x):
        acc = 0
        for y in vals:
            c = apply_ufunc(op, y, x)
            acc = apply_ufunc('add', acc, b_to_num(norm(c)))
        return norm(acc)

    if np.ndim(v) == 0:
        return box(one(norm(v)), np.dtype('int64'))
    vo = as_sym(v)
    res = np.empty(vo.shape, dtype = object)
    for ix in np.ndindex(*vo.shape):
        res[ix] = one(raw(vo)[ix])
    return mk(res, np.dtype('int64'))


@fn('isin', 'in1d')
def f_isin(e, t, assume_unique = False, invert = False, **kw):
    e, t = as_sym(e), as_sym(t).reshape(-1)
    res = np.empty(e.shape, dtype = object)
    for ix in np.ndindex(*e.shape):
        v = raw(e)[ix]
        r = b_or(*[norm(apply_ufunc('equal', v, w)) for w in raw(t)]) if t.size else False
        res[ix] = b_not(r) if invert else r
    return mk(res, np.dtype(bool))


@fn('interp')
def f_interp(x, xp, fp, left = None, right = None, period = None):
    xp, fp = as_sym(xp), as_sym(fp)
    n = len(xp)

    def one(v):
        if bool(apply_ufunc('less', v, xp[0])):
            return fp[0] if left is None else left
        if bool(apply_ufunc('greater', v, xp[n - 1])):
            return fp[n - 1] if right is None else right
        for i in range(n - 1):
            if bool(apply_ufunc('less', v, xp[i + 1])):
                return fp[i] + (v - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
        return fp[n - 1]

    if np.ndim(x) == 0:
        return one(norm(x))
    xo = as_sym(x)
    res = np.empty(xo.shape, dtype = object)
    for ix in np.ndindex(*xo.shape):
        res[ix] = norm(one(raw(xo)[ix]))
    return mk(res, np.dtype(float))


@fn('bincount')
def f_bincount(x, weights = None, minlength = 0):
    x = as_sym(x)
    vals = [core.path().concretise(v.e) if is_sym(v) else int(v) for v in raw(x)]
    n = builtins.max([minlength] + [v + 1 for v in vals])
    r = fake_full((n,), 0, dtype = int if weights is None else float)
    for i, v in enumerate(vals):
        r[v] = r[v] + (1 if weights is None else weights[i])
    return r


@fn('meshgrid')
def f_meshgrid(*xi, indexing = 'xy', sparse = False, copy = True):
    a = [as_sym(x) for x in xi]
    r = np.meshgrid(*[raw(x).reshape(-1) for x in a], indexing = indexing, sparse = sparse)
    return [mk(x, y._dt) for x, y in zip(r, a)]


@fn('broadcast_arrays')
def f_broadcast_arrays(*args, **kw):
    a = [as_sym(x) for x in args]
    return [mk(x.copy(), y._dt) for x, y in zip(np.broadcast_arrays(*[raw(y) for y in a]), a)]


@fn('unravel_index')
def f_unravel_index(indices, shape, order = 'C'):
    r = []
    rem = indices
    for n in reversed([int(s) for s in shape]):
        r.append(rem % n)
        rem = rem // n
    return tuple(reversed(r))


@fn('ravel_multi_index')
def f_ravel_multi_index(multi, dims, mode = 'raise', order = 'C'):
    acc = 0
    for ix, n in zip(multi, dims):
        acc = acc * int(n) + ix
    return acc


@fn('linspace')
def f_linspace(start, stop, num = 50, endpoint = True, retstep = False, dtype = None, axis = 0):
    num = int(num)
    div = (num - 1) if endpoint else num
    s = as_sym(start)
    e = as_sym(stop)
    parts = []
    for i in range(num):
        if i == 0:
            v = apply_ufunc('multiply', s, 1.0)
        elif endpoint and i == num - 1:
            v = apply_ufunc('multiply', e, 1.0)
        else:
            v = apply_ufunc('add', s, apply_ufunc('multiply', apply_ufunc('subtract', e, s), Fraction_to_float(i, div)))
        parts.append(v)
    r = f_stack(parts, axis = axis) if parts else fake_full((0,), 0.0)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, apply_ufunc('true_divide', apply_ufunc('subtract', e, s), div)) if retstep else r


def Fraction_to_float(i, n):
    return i / n


@fn('nan_to_num')
def f_nan_to_num(x, copy = True, nan = 0.0, **kw):
    x = as_sym(x)
    return f_where(apply_ufunc('isnan', x), nan, x)


@fn('ediff1d')
def f_ediff1d(a, **kw):
    return f_diff(as_sym(a).reshape(-1))


@fn('average')
def f_average(a, axis = None, weights = None, **kw):
    a = as_sym(a)
    if weights is None:
        return a.mean(axis)
    w = as_sym(weights)
    return apply_ufunc('true_divide', (a * w).sum(axis), w.sum(axis))


@fn('median')
def f_median(a, axis = None, **kw):
    if axis is not None:
        raise Unsupported('median axis')
    s = f_sort(as_sym(a).reshape(-1))
    n = len(s)
    return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


@fn('select')
def f_select(condlist, choicelist, default = 0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, v, r)
    return r


@fn('extract')
def f_extract(condition, arr):
    return as_sym(arr).reshape(-1)[as_sym(condition).reshape(-1).astype(bool)]


@fn('union1d')
def f_union1d(a, b):
    return f_unique(FUNCS['concatenate']((as_sym(a).reshape(-1), as_sym(b).reshape(-1))))


@fn('intersect1d')
def f_intersect1d(a, b, **kw):
    u = f_unique(a)
    return u[f_isin(u, b)]


@fn('setdiff1d')
def f_setdiff1d(a, b, **kw):
    u = f_unique(a)
    return u[f_isin(u, b, invert = True)]


@fn('ndenumerate')
def f_ndenumerate(a):
    a = as_sym(a)
    for ix in np.ndindex(*a.shape):
        yield ix, a[ix]


@fn('result_type')
def f_result_type(*a):
    return np.result_type(*[x._dt if isinstance(x, SymArray) else (x.dtype if is_sym(x) else x) for x in a])


@fn('can_cast', 'common_type', 'min_scalar_type')
def f_cc(*a, **k):
    raise Unsupported('dtype inspection')


@fn('packbits')
def f_packbits(a, axis = None, bitorder = 'big'):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np.moveaxis(raw(a), axis, -1)
    n = o.shape[-1]
    m = (n + 7) // 8
    res = np.empty(o.shape[:-1] + (m,), dtype = object)
    for ix in np.ndindex(*o.shape[:-1]):
        for b in range(m):
            acc = 0
            for t in range(8):
                q = 8 * b + t
                if q < n:
                    w = 1 << (7 - t) if bitorder == 'big' else 1 << t
                    acc = norm(apply_ufunc('add', acc, ite(to_bool(o[ix + (q,)]), w, 0)))
            res[ix + (b,)] = acc
    return mk(np.moveaxis(res, -1, axis), np.dtype('uint8'))


@fn('unpackbits')
def f_unpackbits(a, axis = None, count = None, bitorder = 'big'):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np.moveaxis(raw(a), axis, -1)
    n = o.shape[-1] * 8
    res = np.empty(o.shape[:-1] + (n,), dtype = object)
    for ix in np.ndindex(*o.shape[:-1]):
        for q in range(n):
            v = o[ix + (q // 8,)]
            t = q % 8
            w = 1 << (7 - t) if bitorder == 'big' else 1 << t
            res[ix + (q,)] = norm(apply_ufunc('remainder', apply_ufunc('floor_divide', v, w), 2))
    r = mk(np.moveaxis(res, -1, axis), np.dtype('uint8'))
    if count is not None:
        s = [slice(None)] * r.ndim
        s[axis] = slice(0, count)
        r = r[tuple(s)]
    return r


@fn('divmod')
def f_divmod(a, b):
    return apply_ufunc('floor_divide', a, b), apply_ufunc('remainder', a, b)


@fn('linalg.det')
def f_det(a):
    a = as_sym(a)
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if a.shape == (3, 3):
        return f_dot(a[0], f_cross(a[1], a[2]))
    raise Unsupported('det')


@fn('apply_along_axis', 'apply_over_axes', 'vectorize', 'piecewise', 'histogram', 'percentile', 'linalg.svd',
    'linalg.inv', 'linalg.solve', 'einsum', 'tensordot', 'save')
def f_uns(*a, **k):
    raise Unsupported('numpy function not modelled')


@fn('savetxt')
def f_savetxt(fname, X, fmt = '%.18e', delimiter = ' ', newline = '\n', header = '', footer = '', comments = '# ', encoding = None):
    a = as_sym(X)
    if a.ndim == 1:
        a = a.reshape((-1, 1))
    if fmt != '%.18e' or a.ndim != 2 or header or footer:
        raise Unsupported('savetxt')
    text = newline.join(delimiter.join(format(a[i, j], '') for j in range(a.shape[1])) for i in range(a.shape[0])) + newline
    if hasattr(fname, 'write'):
        fname.write(text)
    else:
        with open(fname, 'w') as f:
            f.write(text)


def f_fromstring(text, dtype = float, count = -1, sep = ''):
    if not isinstance(text, str) or '\u27e6' not in text or sep != ' ':
        return np.fromstring(text, dtype = dtype, count = count, sep = sep)
    dt = norm_dtype(dtype)
    words = text.split()
    if count >= 0:
        if len(words) < count:
            raise Unsupported('fromstring with too few words')
        words = words[:count]
    values = []
    for w in words:
        t = core.untoken(w)
        if t is None:
            t = float(w) if dt.kind == 'f' else int(w)
        values.append(t)
    return as_sym(values).astype(dt)


for _n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):

    def _mklike(nm):

        def f(a, *args, dtype = None, order = None, subok = None, shape = None, **kw):
            a = as_sym(a)
            dt = a._dt if dtype is None else norm_dtype(dtype)
            v = {'zeros_like': 0, 'ones_like': 1, 'empty_like': None}.get(nm)
            if nm == 'full_like':
                v = args[0] if args else kw.get('fill_value')
            if v is None:
                v = empty_value(dt)
            return fake_full(a.shape if shape is None else shape, v, dtype = dt)

        return f

    FUNCS[_n] = _mklike(_n)


def _fname(func):
    m = getattr(func, '__module__', '') or ''
    n = func.__name__
    if m.startswith('numpy.linalg'):
        return 'linalg.' + n
    return n


def dispatch_function(func, args, kwargs):
    n = _fname(func)
    if n in FUNCS:
        kwargs = {k: v for k, v in kwargs.items() if not (k == 'out' and v is None)}
        return FUNCS[n](*args, **kwargs)
    if isinstance(func, np.ufunc):
        return dispatch_ufunc(func, '__call__', args, kwargs)
    # concrete contents only: run the real function
    sym = False

    def conv(x):
        nonlocal sym
        if isinstance(x, SymArray):
            if has_sym(x):
                sym = True
                return x
            return to_real(x)
        if is_sym(x):
            sym = True
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(conv(v) for v in x)
        return x

    a = conv(list(args))
    k = {q: conv(v) for q, v in kwargs.items()}
    if sym:
        raise Unsupported(f'numpy function {n} on symbolic operands')
    return wrap_out(func(*a, **k))


def wrap_out(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, nd) and r.dtype.kind in _NUMKINDS and type(r) is nd:
        return as_sym(r)
    if type(r) in (tuple, list):
        return type(r)(wrap_out(v) for v in r)
    return r


# ---------------------------------------------------------------------------------------------------
# creation functions and the stand-in numpy module


def empty_value(dt):
    """content of an uninitialised array: an arbitrary but definite value"""
    return {'f': 1.2345678e+33, 'i': 77, 'u': 77, 'b': True}.get(dt.kind, 0)


def _shape(s):
    if isinstance(s, (SymNum,)):
        return (core.path().concretise(s.e),)
    if isinstance(s, SymArray):
        return tuple(int(v) for v in s)
    if np.ndim(s) == 0:
        return (int(s),)
    return tuple(core.path().concretise(v.e) if isinstance(v, SymNum) else int(v) for v in s)


def fake_full(shape, fill_value, dtype = None, order = 'C', **kw):
    shape = _shape(shape)
    if dtype is None:
        fo, dt = as_obj(fill_value)
    else:
        dt = norm_dtype(dtype)
    if dt.kind not in _NUMKINDS:
        return np.full(shape, fill_value, dtype = dt)
    o = np.empty(shape, dtype = object)
    r = mk(o, dt)
    if np.ndim(fill_value) == 0:
        v = cast(norm(fill_value if not isinstance(fill_value, SymArray) else raw(fill_value)[()]), dt)
        raw(r)[...] = v if not isinstance(v, nd) else v
        if o.ndim == 0:
            raw(r)[()] = v
    else:
        r[...] = fill_value
    return r


class StrArray(nd):
    """array of text elements, which may be indexed with stand-in arrays of definite values"""

    def _key(self, key):
        one = lambda k: raw(k).astype(k._dt) if isinstance(k, SymArray) and not has_sym(k) else k
        return tuple(one(k) for k in key) if isinstance(key, tuple) else one(key)

    def __getitem__(self, key):
        return nd.__getitem__(self, self._key(key))

    def __setitem__(self, key, value):
        nd.__setitem__(self, self._key(key), value)


def _creator(v):

    def f(shape, dtype = float, order = 'C', **kw):
        dt = norm_dtype(dtype) if dtype is not None else np.dtype(float)
        if dt.kind not in _NUMKINDS:
            r = {0: np.zeros, 1: np.ones, None: np.empty}[v](_shape(shape), dtype = dt)
            return r.view(StrArray) if dt.kind in 'US' else r
        return fake_full(shape, v if v is not None else empty_value(dt), dtype = dt)

    return f


def fake_array(x, dtype = None, copy = True, order = None, subok = False, ndmin = 0, **kw):
    dt = norm_dtype(dtype)
    if isinstance(x, MASKED[0]):
        x = x.data
    if isinstance(x, SymArray):
        r = x if dt is None or dt == x._dt else x.astype(dt)
        r = r.copy() if copy and r is x else r
    elif dt is not None and dt.kind not in _NUMKINDS:
        return np.array(x, dtype = dt, copy = copy)
    else:
        if not any_sym_nested(x):
            if isinstance(x, (list, tuple)):
                x = _plain(x)
            rr = np.array(x, dtype = dt, copy = copy)
            if rr.dtype.kind not in _NUMKINDS:
                return rr
            r = as_sym(rr)
        else:
            r = as_sym(x)
            if dt is not None and dt != r._dt:
                r = r.astype(dt)
            elif isinstance(x, (list, tuple)):
                r = mk(cast_obj(raw(r), np.dtype(object), r._dt), r._dt)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _plain(x):
    return x


def fake_arange(*args, dtype = None, **kw):
    args = [core.path().concretise(a.e) if isinstance(a, SymNum) and a.k == 'i' else a for a in args]
    if any(is_sym(a) for a in args):
        raise Unsupported('arange of symbolic reals')
    return as_sym(np.arange(*args, dtype = norm_dtype(dtype), **kw))


def _dt_kw(kw):
    if 'dtype' in kw and kw['dtype'] is not None:
        kw['dtype'] = norm_dtype(kw['dtype'])
    return kw


MASKED = ((), None, None)  # filled in by the masked module: class, application of ufuncs, of other functions


class FakeUfunc:

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def _conv(self, inputs):
        return [as_sym(x) if isinstance(x, (list, tuple)) and any_sym_nested(x) else x for x in inputs]

    def __call__(self, *a, **k):
        if any(isinstance(x, MASKED[0]) for x in a):
            return MASKED[1](self.__name__ if self.__name__ != 'divide' else 'true_divide', a)
        a = self._conv(a)
        k = _dt_kw(k)
        out = k.get('out')
        if any(isinstance(x, (SymArray, SymNum, SymBool)) for x in a) or isinstance(
                out, SymArray) or isinstance(k.get('where'), SymArray) or (isinstance(out, tuple) and
                                                                            isinstance(out[0], SymArray)):
            return dispatch_ufunc(self._uf, '__call__', a, k)
        return self._uf(*a, **k)

    def _m(self, method, a, k):
        a = self._conv(a)
        if any(isinstance(x, (SymArray, SymNum, SymBool)) for x in a):
            return dispatch_ufunc(self._uf, method, a, _dt_kw(k))
        return getattr(self._uf, method)(*a, **k)

    def outer(self, *a, **k):
        return self._m('outer', a, k)

    def reduce(self, *a, **k):
        if len(a) > 1:
            k['axis'] = a[1]
            a = a[:1]
        return self._m('reduce', a, k)

    def accumulate(self, *a, **k):
        return self._m('accumulate', a, k)

    def at(self, *a, **k):
        return self._m('at', a, k)


class FakeFunc:

    def __init__(self, f):
        self._f = f
        self.__name__ = getattr(f, '__name__', 'f')

    def __call__(self, *a, **k):
        k = _dt_kw(k)
        n = _fname(self._f)
        if any(isinstance(x, MASKED[0]) for x in a):
            return MASKED[2](n, a, k)
        if n in FUNCS and (any(any_sym_nested(x) for x in a) or any(any_sym_nested(x) for x in k.values())):
            k.pop('out', None) if k.get('out', 0) is None else None
            return FUNCS[n](*a, **k)
        if any(any_sym_nested(x) for x in a) or any(any_sym_nested(x) for x in k.values()):
            a = [as_sym(x) if isinstance(x, (list, tuple)) and any(is_sym(v) for v in x) else x for x in a]
            return dispatch_function(self._f, a, k)
        return wrap_out(self._f(*a, **k))


class FakeNS:
    """stand-in for numpy or one of its submodules"""

    def __init__(self, mod, over):
        self.__dict__['_mod'] = mod
        self.__dict__['_over'] = over
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        c = self._cache
        if name in c:
            return c[name]
        a = getattr(self._mod, name)
        if isinstance(a, np.ufunc):
            a = FakeUfunc(a)
        elif isinstance(a, type) or not callable(a):
            pass
        else:
            a = FakeFunc(a)
        c[name] = a
        return a


def _scalar_type(real, k):

    class Meta(type):

        def __instancecheck__(cls, x):
            return isinstance(x, real) or (isinstance(x, SymNum) and x.k == k and real in
                                           (np.float64, np.int64))

        def __subclasscheck__(cls, x):
            return issubclass(x, real)

    return real


class _NdMeta(type):

    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray) or hasattr(type(x), '_stands_for_array')

    def __subclasscheck__(cls, x):
        return issubclass(x, np.ndarray)


class NdArray(metaclass = _NdMeta):
    """what code under test sees as numpy.ndarray: stand-ins for masked arrays count as instances"""

    def __new__(cls, *a, **k):
        return np.ndarray(*a, **k)


_over = {
    'ndarray': NdArray,
    'array': fake_array,
    'asarray': lambda x, dtype = None, order = None, **kw: fake_array(x, dtype = dtype, copy = False),
    'asanyarray': lambda x, dtype = None, **kw: fake_array(x, dtype = dtype, copy = False),
    'ascontiguousarray': lambda x, dtype = None, **kw: fake_array(x, dtype = dtype, copy = False),
    'zeros': _creator(0),
    'ones': _creator(1),
    'empty': _creator(None),
    'full': fake_full,
    'arange': fake_arange,
    'fromstring': f_fromstring,
    'eye': lambda *a, **k: as_sym(np.eye(*a, **_dt_kw(k))),
    'identity': lambda *a, **k: as_sym(np.identity(*a, **_dt_kw(k))),
    'ndenumerate': f_ndenumerate,
    'linalg': FakeNS(np.linalg, {}),
    'random': np.random,
    'ma': np.ma,
    'testing': np.testing,
    'seterr': np.seterr,
    'geterr': np.geterr,
    'errstate': np.errstate,
    'ndindex': np.ndindex,
    'dtype': lambda d: norm_dtype(d.dtype if isinstance(d, (SymNum, SymBool)) else d),
    'isscalar': lambda x: is_sym(x) or np.isscalar(x),
    'issubdtype': np.issubdtype,
    'can_cast': np.can_cast,
    'finfo': np.finfo,
    'iinfo': np.iinfo,
}

fake_np = FakeNS(np, _over)
