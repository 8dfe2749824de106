"""Switches the modules under test between real and symbolic numerics by replacing names in their globals."""
import ast
import builtins
import importlib
import inspect
import math
import pkgutil
import sys
import textwrap
import types

import numpy as np

import h5py
import shutil

from . import core, arr, h5stub, masked
from .core import SymNum, SymBool, is_sym, norm, lift


class _FakeMeta(type):

    def __instancecheck__(cls, x):
        return isinstance(x, cls._real_type) or cls._sym(x)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real_type)

    def __eq__(cls, o):
        return o is cls or o is cls._real_type

    def __hash__(cls):
        return hash(cls._real_type)

    def __repr__(cls):
        return repr(cls._real_type)


class FakeInt(int, metaclass = _FakeMeta):
    _real_type = int
    dtype = np.dtype('int64')

    def __new__(cls, x = 0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = norm(arr.raw(x).reshape(-1)[0]) if isinstance(x, arr.SymArray) else x
        if isinstance(x, SymNum):
            if x.nan is not None and core.path().decide(x.nan):
                raise ValueError('cannot convert float NaN to integer')
            return core.n_trunc(SymNum(x.e, x.k, None, x.lo, x.hi, x.lsb))
        if isinstance(x, SymBool):
            return core.b_to_num(x)
        t = core.untoken(x)
        if t is not None:
            if t.k == 'r':
                raise ValueError('invalid literal for int()')
            return t
        return int(x, *a)

    @classmethod
    def _sym(cls, x):
        return isinstance(x, SymNum) and x.k == 'i'


class FakeFloat(float, metaclass = _FakeMeta):
    _real_type = float
    dtype = np.dtype('float64')

    def __new__(cls, x = 0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = norm(arr.raw(x).reshape(-1)[0]) if isinstance(x, arr.SymArray) else x
        if isinstance(x, (SymNum, SymBool)):
            return lift(x, 'r')
        t = core.untoken(x)
        if t is not None:
            return lift(t, 'r')
        return float(x)

    @classmethod
    def _sym(cls, x):
        return isinstance(x, SymNum) and x.k == 'r'


class _FakeBoolMeta(_FakeMeta):
    pass


class FakeBool(int, metaclass = _FakeBoolMeta):
    _real_type = bool
    dtype = np.dtype(bool)

    def __new__(cls, x = False):
        if isinstance(x, np.ndarray) and x.size == 1 and isinstance(x, arr.SymArray):
            x = norm(arr.raw(x).reshape(-1)[0])
        if is_sym(x):
            return core.to_bool(x)
        return bool(x)

    @classmethod
    def _sym(cls, x):
        return isinstance(x, SymBool)


def _merge_minmax(op, real):

    def f(*args, **kw):
        vals = args
        if len(args) == 1:
            vals = list(args[0])
        if kw or not any(is_sym(v) for v in vals):
            return real(vals, **kw) if len(args) == 1 else real(*args, **kw)
        acc = norm(vals[0])
        for v in vals[1:]:
            v = norm(v)
            # python semantics: the later value replaces only when strictly better
            c = core.n_cmp(op, v, acc) if is_sym(v) or is_sym(acc) else (v < acc if op == 'lt' else v > acc)
            acc = core.ite(c, v, acc)
        return acc

    return f


fake_min = _merge_minmax('lt', min)
fake_max = _merge_minmax('gt', max)


class FakeMath(types.ModuleType):

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        return getattr(math, n)


fake_math = FakeMath()


def _m(name, f):
    real = getattr(math, name)

    def g(*a):
        a = [norm(arr.raw(x).reshape(-1)[0]) if isinstance(x, arr.SymArray) and x.size == 1 else norm(x) for x in a]
        if any(is_sym(x) for x in a):
            return f(*a)
        return real(*a)

    setattr(fake_math, name, g)


_m('floor', core.n_floor)
_m('ceil', core.n_ceil)
_m('trunc', core.n_trunc)
_m('sqrt', lambda x: core.n_sqrt(x, False))
_m('sin', arr._sin)
_m('cos', arr._cos)
_m('tan', arr._tan)
_m('fabs', lambda x: core.n_abs(lift(x, 'r')))
_m('isnan', core.n_isnan)
_m('isinf', lambda x: False)
_m('isfinite', lambda x: core.b_not(core.n_isnan(x)))
_m('radians', arr.EW['radians'])
_m('degrees', arr.EW['degrees'])
_m('pow', core.n_pow)
_m('hypot', arr._hypot)
for _n, _u in (('atan', 'arctan'), ('atan2', 'arctan2'), ('acos', 'arccos'), ('asin', 'arcsin'), ('exp', 'exp'),
               ('log', 'log'), ('log10', 'log10')):
    _m(_n, arr.EW[_u])


def _isclose(a, b, rel_tol = 1e-09, abs_tol = 0.0):
    a, b = norm(a), norm(b)
    if not is_sym(a) and not is_sym(b) and not is_sym(rel_tol) and not is_sym(abs_tol):
        return math.isclose(a, b, rel_tol = rel_tol, abs_tol = abs_tol)
    d = abs(a - b)
    return core.b_or(a == b, d <= abs(b) * rel_tol, d <= abs(a) * rel_tol, d <= abs_tol)


fake_math.isclose = _isclose


def fake_isinstance(x, t):
    return builtins.isinstance(x, t)


def fake_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SymBool):
        return FakeBool
    if isinstance(x, SymNum):
        return FakeInt if x.k == 'i' else FakeFloat
    t = type(x)
    if t is np.ndarray or t is arr.SymArray:
        return arr.NdArray
    return {int: FakeInt, float: FakeFloat, bool: FakeBool}.get(t, t)


_REPL = {
    'np': arr.fake_np,
    'numpy': arr.fake_np,
    'maths': fake_math,
    'math': fake_math,
    'h5py': h5stub.fake_h5py,
    'ma': masked.fake_ma,
}


class _FakeShutil(types.ModuleType):

    def __getattr__(self, n):
        return getattr(shutil, n)

    @staticmethod
    def copy(src, dst, *a, **kw):
        r = shutil.copy(src, dst, *a, **kw)
        h5stub.copyfile_hook(src, dst)
        return r


_REPL['shutil'] = _FakeShutil('shutil')
_BUILTINS = {'int': FakeInt, 'float': FakeFloat, 'bool': FakeBool, 'min': fake_min, 'max': fake_max, 'type': fake_type}

_MISSING = object()
_active = False
_saved = []
extra = {}  # module name -> {global name: replacement}, added by checks


class _IsTrue(ast.NodeTransformer):
    """compiled code has one bool type: 'x is True' there holds for any true value"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.comparators[0], ast.Constant) and \
                isinstance(node.comparators[0].value, bool) and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            node.ops = [ast.Eq() if isinstance(node.ops[0], ast.Is) else ast.NotEq()]
        return node


def _plain_jit(*args, **kw):
    """stands in for numba's decorators: the python function itself, with the meaning of 'is True' in compiled code"""
    if not (len(args) == 1 and callable(args[0])):
        return lambda f: _plain_jit(f)
    fn = args[0]
    try:
        src = textwrap.dedent(inspect.getsource(fn))
        if ' is True' in src or ' is False' in src or ' is not True' in src or ' is not False' in src:
            tree = _IsTrue().visit(ast.parse(src))
            f = tree.body[0]
            f.decorator_list = []
            ast.increment_lineno(tree, fn.__code__.co_firstlineno - 1)
            ast.fix_missing_locations(tree)
            ns = {}
            exec(compile(tree, fn.__code__.co_filename, 'exec'), fn.__globals__, ns)
            g = ns[fn.__name__]
            g.__module__ = fn.__module__
            fn = g
    except (OSError, SyntaxError):
        pass
    fn.py_func = fn
    return fn


def load_all():
    """imports every module of the package under test"""
    import numba
    numba.njit = numba.jit = _plain_jit
    import resqpy
    failed = []
    for m in pkgutil.walk_packages(resqpy.__path__, 'resqpy.'):
        if m.name in sys.modules:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError as e:
            failed.append((m.name, str(e)))
    return failed


def modules(prefixes = ('resqpy',)):
    return [
        m for n, m in list(sys.modules.items())
        if m is not None and hasattr(m, '__dict__') and
        (any(n == p or n.startswith(p + '.') for p in prefixes) or getattr(m, '_symbolic_globals', False))
    ]


def _for_pandas(x):
    """symbolic arrays become object arrays, which pandas can hold"""
    from symx import arr
    if isinstance(x, arr.SymArray):
        return arr.raw(x).copy() if arr.has_sym(x) else arr.to_real(x)
    if isinstance(x, dict):
        return {k: _for_pandas(v) for k, v in x.items()}
    if isinstance(x, core.SymNum) or isinstance(x, core.SymBool):
        return x
    return x


def _untext(x):
    """what a csv reader makes of a field in a numerical column which has tokens"""
    t = core.untoken(x) if isinstance(x, str) else None
    if t is not None or not isinstance(x, str):
        return x if t is None else t
    try:
        return float(x)
    except ValueError:
        return x


def _patch_pandas():
    import pandas as pd
    init, sinit, seti = pd.DataFrame.__init__, pd.Series.__init__, pd.DataFrame.__setitem__

    def frame_init(self, data = None, *a, **k):
        init(self, _for_pandas(data), *a, **k)

    def series_init(self, data = None, *a, **k):
        sinit(self, _for_pandas(data), *a, **k)

    def frame_set(self, key, value):
        seti(self, key, _for_pandas(value))

    read = pd.read_csv

    def read_csv(*a, **k):
        df = read(*a, **k)
        for i, col in enumerate(df.columns):
            v = df.iloc[:, i]
            if v.dtype == object and any(isinstance(x, str) and '\u27e6' in x for x in v):
                seti(df, col, np.array([_untext(x) for x in v] + [None], dtype = object)[:-1])
        return df

    to_np = pd.Series.to_numpy

    def to_numpy(self, dtype = None, *a, **k):
        if self.dtype == object and dtype not in (None, object) and \
                any(isinstance(x, (core.SymNum, core.SymBool)) for x in self.array):
            return arr.mk(np.array([x for x in self.array] + [None], dtype = object)[:-1], float).astype(dtype)
        return to_np(self, dtype, *a, **k)

    _patched.append((pd.Series, 'to_numpy', to_np))
    pd.Series.to_numpy = to_numpy
    _patched.append((pd, 'read_csv', read))
    pd.read_csv = read_csv

    for cls, nm, old, new in ((pd.DataFrame, '__init__', init, frame_init), (pd.Series, '__init__', sinit, series_init),
                              (pd.DataFrame, '__setitem__', seti, frame_set)):
        _patched.append((cls, nm, old))
        setattr(cls, nm, new)


_patched = []


def activate():
    global _active
    if _active:
        return
    _active = True
    if 'pandas' in sys.modules:
        _patch_pandas()
    for m in modules():
        g = m.__dict__
        for n, v in _REPL.items():
            cur = g.get(n, _MISSING)
            if cur is np or cur is math or cur is h5py or cur is shutil or cur is np.ma:
                _saved.append((g, n, cur))
                g[n] = v
        for n, v in _BUILTINS.items():
            if n not in g:
                _saved.append((g, n, _MISSING))
                g[n] = v
        for n, d in list(g.items()):  # tables of types
            if type(d) is dict and n[:2] != '__' and any(v is float for v in d.values()):
                for k, v in d.items():
                    if v is float:
                        _saved.append((d, k, v))
                        d[k] = FakeFloat
        for n, v in extra.get(m.__name__, {}).items():
            _saved.append((g, n, g.get(n, _MISSING)))
            g[n] = v


def deactivate():
    global _active
    if not _active:
        return
    _active = False
    while _patched:
        cls, nm, old = _patched.pop()
        setattr(cls, nm, old)
    for g, n, v in reversed(_saved):
        if v is _MISSING:
            g.pop(n, None)
        else:
            g[n] = v
    _saved.clear()


class concrete:
    """context: real numerics inside a symbolic run (object construction and the like)"""

    def __enter__(self):
        self.was = _active
        self.path = core.PATH
        deactivate()
        return self

    def __exit__(self, *a):
        if self.was:
            activate()
        return False
