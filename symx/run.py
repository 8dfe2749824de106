"""Cases, exploration, replay on the real code, evidence."""
import hashlib
import importlib
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

CASES = []


class Case:

    def __init__(self, prop, name, fn, bounds, tiers, opts):
        self.prop, self.name, self.fn, self.bounds, self.tiers, self.opts = prop, name, fn, bounds, tiers, opts


def case(prop, name = None, bounds = '', tier = 'quick', **opts):
    """registers a case: a body run symbolically over all values within its bounds.  tier 'thorough' cases run only
    in the thorough tier.  opts: params (list of dicts, one case each), max_paths, timeout_ms, fork_index ..."""

    def deco(fn):
        params = opts.pop('params', None)
        nm = name or fn.__name__
        if params is None:
            CASES.append(Case(prop, nm, fn, bounds, tier, dict(opts)))
        else:
            for p in params:
                p = dict(p)
                pt = p.pop('_tier', tier)
                suffix = ','.join(f'{k}={v}' for k, v in p.items())

                def body(c, _p = p):
                    return fn(c, **_p)

                CASES.append(Case(prop, f'{nm}[{suffix}]', body, bounds, pt, dict(opts)))
        return fn

    return deco


class Violated(BaseException):

    def __init__(self, label, detail = ''):
        self.label = label
        self.detail = detail


# ---------------------------------------------------------------------------------------------------
# contexts


class BaseCtx:
    symbolic = False

    def __init__(self):
        self._once = {}
        self._tmp = None
        self.obs = []
        self.labels = set()

    @property
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix = 'verif_')
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors = True)
            self._tmp = None

    # generic helpers usable in both modes
    def And(self, *bs):
        r = True
        for b in bs:
            r = r & self._tb(b)
        return r

    def Or(self, *bs):
        r = False
        for b in bs:
            r = r | self._tb(b)
        return r

    def Not(self, b):
        b = self._tb(b)
        return (not b) if isinstance(b, bool) else ~b

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def elements(self, a):
        """list of scalar elements of an array / nested list / scalar"""
        import numpy as np
        from . import arr
        if isinstance(a, arr.SymArray):
            return list(arr.raw(a).reshape(-1))
        if isinstance(a, np.ndarray):
            return list(a.reshape(-1).tolist())
        if isinstance(a, (list, tuple)):
            return [e for x in a for e in self.elements(x)]
        if isinstance(a, np.generic):
            return [a.item()]
        return [a]

    def shape(self, a):
        import numpy as np
        if isinstance(a, np.ndarray):
            return tuple(a.shape)
        if isinstance(a, (list, tuple)):
            return (len(a),) + (self.shape(a[0]) if len(a) else ())
        return ()


class ConcreteCtx(BaseCtx):
    """replays a body on the real code with concrete inputs"""

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.failures = []
        self.checked = 0

    def _tb(self, b):
        return bool(b)

    def _get(self, name):
        if name not in self.inputs:
            raise MissingInput(name)
        return self.inputs[name]

    def int(self, name, lo, hi):
        return int(self._get(name))

    def real(self, name, lo = None, hi = None, lsb = None, nan = False):
        return _unjson(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def _arr(self, name, shape, dtype):
        import numpy as np
        v = [_unjson(x) for x in self._get(name)]
        return np.array(v, dtype = dtype).reshape(shape)

    def ints(self, name, shape, lo, hi, dtype = 'int64'):
        return self._arr(name, shape, dtype)

    def reals(self, name, shape, lo = None, hi = None, lsb = None, nan = False, dtype = 'float64'):
        return self._arr(name, shape, dtype)

    def bools(self, name, shape):
        return self._arr(name, shape, 'bool')

    def choice(self, name, options):
        return options[int(self._get(name))]

    def array(self, x, dtype = None):
        import numpy as np
        return np.array(x, dtype = dtype)

    def zeros(self, shape, dtype = 'float64'):
        import numpy as np
        return np.zeros(shape, dtype = dtype)

    def assume(self, cond):
        if not bool(cond):
            raise Assumption()

    def fix(self, x):
        import numpy as np
        return bool(x) if isinstance(x, (bool, np.bool_)) else int(x)

    def check(self, label, cond):
        self.checked += 1
        self.labels.add(label)
        import numpy as np
        if isinstance(cond, (list, tuple)):
            cond = all(bool(x) for x in cond)
        if not bool(np.all(cond)):
            self.failures.append(label)

    def unreachable(self, label):
        self.check(label, False)

    def same(self, label, a, b):
        self.checked += 1
        self.labels.add(label)
        if self.shape(a) != self.shape(b):
            self.failures.append(f'{label}: shapes {self.shape(a)} and {self.shape(b)} differ')
            return
        for x, y in zip(self.elements(a), self.elements(b)):
            if x != y and not (x != x and y != y):
                self.failures.append(f'{label}: {x!r} is not {y!r}')
                return

    def close(self, label, a, b, tol = 1.0e-6):
        self.checked += 1
        self.labels.add(label)
        if self.shape(a) != self.shape(b):
            self.failures.append(f'{label}: shapes {self.shape(a)} and {self.shape(b)} differ')
            return
        for x, y in zip(self.elements(a), self.elements(b)):
            xn, yn = x != x, y != y
            if xn and yn:
                continue
            if xn or yn or not abs(float(x) - float(y)) <= tol * max(1.0, abs(float(y))):
                if x != y:
                    self.failures.append(f'{label}: {x!r} is not {y!r}')
                    return

    def le(self, label, a, b, tol = 1.0e-6):
        """a <= b elementwise (to within tolerance in floating point)"""
        self.checked += 1
        self.labels.add(label)
        la, lb = self.elements(a), self.elements(b)
        if len(lb) == 1:
            lb = lb * len(la)
        if len(la) == 1:
            la = la * len(lb)
        for x, y in zip(la, lb):
            if not float(x) <= float(y) + tol * max(1.0, abs(float(y))):
                self.failures.append(f'{label}: {x!r} exceeds {y!r}')
                return

    def raises(self, label, fn, exc = Exception):
        self.checked += 1
        self.labels.add(label)
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.failures.append(f'{label}: raised {type(e).__name__}')
            return False
        self.failures.append(f'{label}: no error raised')
        return False

    def record(self, label, value):
        self.obs.append((label, [_json(x) for x in self.elements(value)]))

    def once(self, key, fn):
        if key not in self._once:
            self._once[key] = fn()
        return self._once[key]

    def build(self, fn):
        return fn()

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def concrete(self):
        import contextlib
        return contextlib.nullcontext()


class Assumption(BaseException):
    pass


class MissingInput(BaseException):
    """the real run went beyond the point where the symbolic path stopped"""


def _json(x):
    import numpy as np
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if x is None or isinstance(x, str):
        return x
    return str(x)


def _unjson(x):
    if isinstance(x, str):
        return float(x)
    return x


def make_symctx():
    from . import core, arr, shim
    z3 = core.z3
    import numpy as np

    class SymCtx(BaseCtx):
        symbolic = True

        def __init__(self):
            super().__init__()
            self.reset()

        def reset(self):
            self.inputs = {}
            self.obs = []
            self.deferred = []

        def _tb(self, b):
            return core.to_bool(b) if not isinstance(b, arr.SymArray) else b.all()

        # ---- inputs
        def _int(self, name, lo, hi):
            p = core.path()
            v = z3.Int(name)
            if name in self.inputs:
                raise core.Unsupported(f'duplicate input name {name}')
            p.add(z3.And(v >= lo, v <= hi))
            if lo > hi:
                raise core.Infeasible('empty range')
            p.inputs.append((v, lo, hi, 'i'))
            return core.SymNum(v, 'i', None, lo, hi, 0)

        def int(self, name, lo, hi):
            s = self._int(name, lo, hi)
            self.inputs[name] = s
            return s

        def _real(self, name, lo, hi, lsb, nan):
            p = core.path()
            v = z3.Real(name)
            if name in self.inputs:
                raise core.Unsupported(f'duplicate input name {name}')
            p.inputs.append((v, lo, hi, 'r'))
            cons = []
            if lo is not None:
                cons.append(v >= core.zconst(lo, 'r'))
            if hi is not None:
                cons.append(v <= core.zconst(hi, 'r'))
            if cons:
                p.add(z3.And(*cons))
            nv = z3.Bool(name + '?nan') if nan else None
            if lsb is None:
                p.idealised = True
            return core.SymNum(v, 'r', nv, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi),
                               lsb)

        def real(self, name, lo = None, hi = None, lsb = None, nan = False):
            s = self._real(name, lo, hi, lsb, nan)
            self.inputs[name] = s
            return s

        def bool(self, name):
            s = core.SymBool(z3.Bool(name))
            self.inputs[name] = s
            return s

        def _arr(self, name, shape, dtype, mk):
            if name in self.inputs:
                raise core.Unsupported(f'duplicate input name {name}')
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            o = np.empty(shape, dtype = object)
            f = o.reshape(-1)
            for i in range(f.size):
                f[i] = mk(f'{name}_{i}')
            self.inputs[name] = list(f)
            return arr.mk(o, np.dtype(dtype))

        def ints(self, name, shape, lo, hi, dtype = 'int64'):
            p = core.path()

            def mk(n):
                v = z3.Int(n)
                p.add(z3.And(v >= lo, v <= hi))
                p.inputs.append((v, lo, hi, 'i'))
                return core.SymNum(v, 'i', None, lo, hi, 0)

            return self._arr(name, shape, dtype, mk)

        def reals(self, name, shape, lo = None, hi = None, lsb = None, nan = False, dtype = 'float64'):
            return self._arr(name, shape, dtype, lambda n: self._real(n, lo, hi, lsb, nan))

        def bools(self, name, shape):
            return self._arr(name, shape, 'bool', lambda n: core.SymBool(z3.Bool(n)))

        def choice(self, name, options):
            s = self._int(name, 0, len(options) - 1)
            self.inputs[name] = s
            return options[core.path().concretise(s.e)]

        def array(self, x, dtype = None):
            return arr.fake_array(x, dtype = dtype)

        def zeros(self, shape, dtype = 'float64'):
            return arr.fake_full(shape, 0, dtype = dtype)

        def assume(self, cond):
            self.flush()
            c = self._tb(cond)
            if core.is_sym(c):
                core.path().assume(c.e)
            elif not c:
                raise core.Infeasible('assumption')

        def fix(self, x):
            """concrete value of a symbolic int, forking over all its values"""
            x = core.norm(x)
            if core.is_sym(x) and isinstance(x, core.SymBool):
                return bool(x)
            return core.path().concretise(x.e) if core.is_sym(x) else int(x)

        # ---- obligations
        def _discharge(self, label, cond, variants = (), defer = False):
            """cond: SymBool or bool which must hold.  variants: stronger failure conditions to try when looking for a
            counterexample which survives floating point rounding"""
            p = core.path()
            self.labels.add(label)
            p.stats.obligations += 1
            if not core.is_sym(cond):
                if cond:
                    p.stats.simplified += 1
                    return
                # the path itself must be feasible for this to be a violation
                r = p.sat(*[v for v in variants])
                if r == 'unsat' and variants and p.sat() != 'unsat':
                    return
                if r == 'unsat':
                    raise core.Infeasible('path infeasible')
                if r == 'unknown':
                    raise Inconclusive(f'{label}: solver gave no answer on path feasibility')
                raise Candidate(label, self.extract(p.last_model))
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                p.stats.simplified += 1
                return
            if defer and not z3.is_false(e):
                # settled together at the end of the path (or before the next assumption): the path condition only
                # grows by decisions, all of whose outcomes are explored
                self.deferred.append((label, e))
                return
            self._settle(label, e, variants)

        def flush(self):
            d, self.deferred = self.deferred, []
            if not d:
                return
            p = core.path()
            if len(d) > 1:
                r = p.sat(z3.Not(z3.And(*[e for _, e in d])))
                if r == 'unsat':
                    return
                if r == 'sat':
                    m = p.last_model
                    for label, e in d:
                        if z3.is_false(m.eval(e, model_completion = True)):
                            self._settle(label, e, ())
            for label, e in d:
                self._settle(label, e, ())

        def _settle(self, label, e, variants):
            p = core.path()
            r = p.sat(z3.Not(e))
            if r == 'unsat':
                return
            if r == 'unknown':
                raise Inconclusive(f'{label}: solver gave no answer')
            first = self.extract(p.last_model)
            models = []
            for v in variants:
                # the failure must exceed the stated tolerance
                r2 = p.sat(v)
                if r2 == 'unsat':
                    return
                if r2 == 'unknown':
                    raise Inconclusive(f'{label}: solver gave no answer')
                models.append(self.extract(p.last_model))
                nice = self._nice(v)
                if nice:
                    models.insert(0, nice)
            nice = self._nice(z3.Not(e))
            if nice:
                models.append(nice)
            models.append(first)
            raise Candidate(label, models[0], models[1:])

        def _nice(self, neg):
            """a model whose real inputs are multiples of 1/4 (exact in floating point), when one is found quickly"""
            p = core.path()
            cons = []
            i = 0
            for s in self._flat_inputs():
                if isinstance(s, core.SymNum) and s.k == 'r':
                    iv = z3.Int(f'nice!{i}')
                    i += 1
                    cons.append(s.e == z3.ToReal(iv) / 4)
            if not cons:
                return None
            try:
                sv = z3.Solver()
                sv.set('timeout', 3000)
                sv.add(*p.constraints)
                sv.add(neg)
                sv.add(*cons)
                if sv.check() == z3.sat:
                    return self.extract(sv.model())
            except z3.Z3Exception:
                pass
            return None

        def _flat_inputs(self):
            for v in self.inputs.values():
                if isinstance(v, list):
                    yield from v
                else:
                    yield v

        def check(self, label, cond):
            if isinstance(cond, (list, tuple)):
                cond = self.And(*cond)
            c = self._tb(cond)
            self._discharge(label, c, defer = True)

        def unreachable(self, label):
            self._discharge(label, False)

        def _pairs(self, label, a, b):
            if self.shape(a) != self.shape(b):
                self._discharge(f'{label} (shape)', False)
                return []
            return list(zip(self.elements(a), self.elements(b)))

        def same(self, label, a, b):
            conds = []
            for x, y in self._pairs(label, a, b):
                conds.append(_same_elem(x, y))
            self._discharge(label, core.b_and(*conds), defer = True)

        def close(self, label, a, b, tol = 1.0e-6):
            conds, bad = [], []
            t = core.zconst(tol, 'r')
            for x, y in self._pairs(label, a, b):
                x, y = core.norm(x), core.norm(y)
                if not core.is_sym(x) and not core.is_sym(y):
                    if (x != x and y != y) or x == y:
                        continue
                    if x != x or y != y or not abs(x - y) <= tol * max(1.0, abs(y)):
                        conds.append(False)
                        bad.append(z3.BoolVal(True))
                    continue
                c = _same_elem(x, y)
                if c is True:
                    continue
                if c is False and (x is None or y is None or isinstance(x, str) or isinstance(y, str) or
                                   core.is_nan(x) or core.is_nan(y) or core.is_inf(x) or core.is_inf(y)):
                    conds.append(False)
                    bad.append(z3.BoolVal(True))
                    continue
                if c is False:
                    c = core.SymBool(z3.BoolVal(False))
                conds.append(c)
                if core.is_nan(x) or core.is_nan(y) or core.is_inf(x) or core.is_inf(y):
                    bad.append(z3.Not(c.e))
                    continue
                xl, yl = core.lift(x, 'r'), core.lift(y, 'r')
                if core.is_sym(x) and x.nan is not None or core.is_sym(y) and y.nan is not None:
                    xn = xl.nan if xl.nan is not None else z3.BoolVal(False)
                    yn = yl.nan if yl.nan is not None else z3.BoolVal(False)
                    bad.append(z3.Or(xn != yn, z3.And(z3.Not(xn), _far(xl.e, yl.e, t))))
                else:
                    bad.append(_far(xl.e, yl.e, t))
            if not conds:
                self.labels.add(label)
                core.path().stats.obligations += 1
                core.path().stats.simplified += 1
                return
            if not any(core.is_sym(x) for x in conds) and all(conds):
                self._discharge(label, True)
                return
            far = z3.Or(*bad) if bad else z3.BoolVal(False)
            # one element at a time is far easier for nonlinear arithmetic
            for c, bd in zip(conds, bad):
                self._discharge(label, c, variants = (bd,))

        def le(self, label, a, b, tol = 1.0e-6):
            la, lb = self.elements(a), self.elements(b)
            if len(lb) == 1:
                lb = lb * len(la)
            if len(la) == 1:
                la = la * len(lb)
            if len(la) != len(lb):
                self._discharge(f'{label} (size)', False)
            t = core.zconst(tol, 'r')
            for x, y in zip(la, lb):
                x, y = core.norm(x), core.norm(y)
                if not core.is_sym(x) and not core.is_sym(y):
                    self._discharge(label, x <= y + tol * max(1.0, abs(y)))
                    continue
                c = core.to_bool(x <= y)
                if core.is_nan(x) or core.is_nan(y) or core.is_inf(x) or core.is_inf(y):
                    self._discharge(label, c)
                    continue
                xl, yl = core.lift(x, 'r'), core.lift(y, 'r')
                self._discharge(label, c, variants = (xl.e > yl.e + 2 * t * (1 + z3.If(yl.e >= 0, yl.e, -yl.e)),))

        def raises(self, label, fn, exc = Exception):
            self.labels.add(label)
            core.path().stats.obligations += 1
            try:
                fn()
            except exc:
                core.path().stats.simplified += 1
                return True
            except Exception as e:
                core.path().stats.obligations -= 1
                self._discharge(f'{label}: raised {type(e).__name__}', False)
                return False
            core.path().stats.obligations -= 1
            self._discharge(f'{label}: no error raised', False)
            return False

        def record(self, label, value):
            self.obs.append((label, self.elements(value)))

        def once(self, key, fn):
            if key not in self._once:
                with shim.concrete():
                    self._once[key] = fn()
            return self._once[key]

        def build(self, fn):
            with shim.concrete():
                return fn()

        def sin(self, x):
            return core.n_sincos(x)[0] if core.is_sym(x) else math.sin(x)

        def cos(self, x):
            return core.n_sincos(x)[1] if core.is_sym(x) else math.cos(x)

        def sqrt(self, x):
            return core.n_sqrt(x) if core.is_sym(x) else math.sqrt(x)

        def concrete(self):
            return shim.concrete()

        # ---- models
        def value(self, model, s):
            if isinstance(s, core.SymBool):
                return bool(z3.is_true(model.eval(s.e, model_completion = True)))
            if isinstance(s, core.SymNum):
                if s.nan is not None and z3.is_true(model.eval(s.nan, model_completion = True)):
                    return 'nan'
                v = model.eval(s.e, model_completion = True)
                if s.k == 'i':
                    return v.as_long()
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                if not z3.is_rational_value(v):
                    v = z3.simplify(v)
                    if not z3.is_rational_value(v):
                        return None
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            return _json(s)

        def extract(self, model):
            out = {}
            for n, s in self.inputs.items():
                out[n] = [self.value(model, x) for x in s] if isinstance(s, list) else self.value(model, s)
            return out

        def extract_obs(self, model):
            out = []
            for n, els in self.obs:
                out.append((n, [self.value(model, x) for x in els]))
            return out

    def _far(x, y, t):
        d = x - y
        # |x - y| > tol * (1 + |y|), a little beyond the replay tolerance
        ay = z3.If(y >= 0, y, -y)
        b = 2 * t * (1 + ay)
        return z3.Or(d > b, -d > b)

    def _same_elem(x, y):
        x, y = core.norm(x), core.norm(y)
        if not core.is_sym(x) and not core.is_sym(y):
            return bool(x == y or (x != x and y != y))
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return False
        nx, ny = core.n_isnan(x) if not isinstance(x, core.SymBool) else False, core.n_isnan(y) if not isinstance(
            y, core.SymBool) else False
        if isinstance(x, (bool, core.SymBool)) and isinstance(y, (bool, core.SymBool)):
            return core.b_not(core.b_xor(x, y))
        if nx is False and ny is False:
            if not core.is_inf(x) and not core.is_inf(y):
                k = 'r' if core.kind(x) == 'r' or core.kind(y) == 'r' else 'i'
                d = z3.simplify(core.lift(x, k).e - core.lift(y, k).e, som = True)
                if z3.is_rational_value(d) or z3.is_int_value(d):
                    return d.as_fraction() == 0 if z3.is_rational_value(d) else d.as_long() == 0
            return x == y
        both = core.b_and(nx, ny)
        return core.b_or(both, core.to_bool(x == y))

    return SymCtx()


class Candidate(BaseException):

    def __init__(self, label, inputs, alternates = ()):
        self.label, self.inputs, self.alternates = label, inputs, list(alternates)


class Inconclusive(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------
# exploration of one case


class FuncTrace:

    def __init__(self):
        self.seen = set()
        self.root = os.path.join(REPO, 'resqpy') + os.sep

    def __call__(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(self.root):
                self.seen.add(co)

    def names(self):
        out = []
        for co in self.seen:
            if co.co_name.startswith('<'):
                continue
            out.append(f'{co.co_filename[len(REPO) + 1:]}:{co.co_qualname}')
        return sorted(out)


def explore(cs, deadline, tier, seed = 0, max_models = 24):
    """explores every feasible path of a case; returns a result dict"""
    import numpy as np
    from . import core, shim
    c = make_symctx()
    c.tier = tier
    z3 = core.z3
    sys.set_int_max_str_digits(0)
    z3_exc = (core.z3.Z3Exception,)
    st = core.Stats()
    ft = FuncTrace()
    t0 = time.time()
    stack = [[]]
    res = dict(case = cs.name,
               bounds = cs.bounds,
               status = 'held',
               candidates = [],
               models = [],
               message = '',
               idealised = False,
               rounded = False)
    max_paths = cs.opts.get('max_paths', 20000)
    timeout_ms = cs.opts.get('timeout_ms', 20000)
    warnings.simplefilter('ignore')
    reached = 0
    undecided = [0]

    def inconclusive(msg):
        """notes an undecided path; its inputs are still tried on the real code.  False: give up on the case"""
        if res['status'] == 'held':
            res['status'] = 'inconclusive'
        if not res['message']:
            res['message'] = msg
        undecided[0] += 1
        core.PATH = p
        try:
            for n in range(4):
                m = p.probe(tries = 2)
                if m is None:
                    m = p.last_model if p.sat() == 'sat' else None
                if m is not None:
                    res['models'].append(dict(inputs = c.extract(m), obs = None))
                p.constraints.append(z3.BoolVal(True))  # another seed for the next guess
        except Exception:
            pass
        core.PATH = None
        return undecided[0] < 6

    try:
        while stack:
            prefix = stack.pop()
            if time.time() > deadline:
                res['status'] = 'inconclusive'
                res['message'] = f'time limit reached with {len(stack) + 1} paths left'
                break
            if st.paths >= max_paths:
                res['status'] = 'inconclusive'
                res['message'] = f'path limit {max_paths} reached'
                break
            p = core.Path(prefix, st, timeout_ms = timeout_ms, seed = seed, tactic = cs.opts.get('tactic'), opts = cs.opts)
            core.PATH = p
            c.reset()
            shim.activate()
            if st.paths < 40:
                sys.setprofile(ft)
            done = False
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    cs.fn(c)
                    c.flush()
                done = True
            except Candidate as e:
                res['candidates'].append(dict(label = e.label, inputs = e.inputs, alternates = e.alternates))
                res['status'] = 'candidate'
            except core.Infeasible:
                st.infeasible_paths += 1
            except Inconclusive as e:
                if not inconclusive(str(e)):
                    break
            except (core.Unsupported, core.LimitReached) as e:
                r = p.sat()
                if r == 'unsat':
                    st.infeasible_paths += 1
                elif not inconclusive(f'{type(e).__name__}: {e} @ {_where(e)}'):
                    break
            except z3_exc as e:
                res['status'] = 'error'
                res['message'] = f'{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}'
                break
            except Exception as e:
                sys.setprofile(None)
                if os.environ.get('VERIF_TRACE'):
                    traceback.print_exc()
                r = p.sat()
                if r == 'unsat':
                    st.infeasible_paths += 1
                elif r == 'unknown':
                    if not inconclusive(f'exception on path of unknown feasibility: {e!r}'):
                        break
                else:
                    res['candidates'].append(
                        dict(label = f'unexpected {type(e).__name__}: {str(e)[:160]} @ {_where(e)}',
                             inputs = c.extract(p.last_model),
                             alternates = [],
                             exception = True))
                    res['status'] = 'candidate'
            finally:
                sys.setprofile(None)
                shim.deactivate()
                core.PATH = None
            if p.poisoned and done:
                done = False
                if not inconclusive(f'encoding left the modelled fragment: {p.poisoned} @ {_where(p.poisoned)}'):
                    break
            st.paths += 1
            if p.idealised:
                res['idealised'] = True
            if p.rounded:
                res['rounded'] = True
            stack.extend(p.pending)
            if res['candidates']:
                if len(res['candidates']) >= cs.opts.get('max_candidates', 3) or not stack:
                    break
                # look for a few more, different, failing paths before giving up
                if len(res['candidates']) >= 1 and st.paths > 400:
                    break
                continue
            if done:
                reached += 1
                # reachability twin: the path must have a model; sampled models are replayed on the real code
                n = reached
                if len(res['models']) < max_models or n % max(1, n // max_models) == 0 and len(
                        res['models']) < 4 * max_models:
                    core.PATH = p
                    m = p.probe(tries = 2, timeout = 200) if p.idealised else None
                    if m is not None:
                        r, p.last_model = 'sat', m
                    else:
                        r = p.sat()
                    if r == 'sat':
                        res['models'].append(dict(inputs = c.extract(p.last_model), obs = c.extract_obs(p.last_model)))
                    elif r == 'unsat':
                        st.infeasible_paths += 1
                        reached -= 1
                    core.PATH = None
    finally:
        c.cleanup()
    if res['candidates']:
        res['status'] = 'candidate'
    elif res['status'] == 'held' and reached == 0:
        res['status'] = 'inconclusive'
        res['message'] = 'vacuous: no path reaches the end of the case'
    elif res['status'] == 'held' and not c.labels:
        res['status'] = 'inconclusive'
        res['message'] = 'vacuous: no obligation was evaluated'
    res['reached'] = reached
    res['labels'] = sorted(c.labels)
    res['functions'] = ft.names()
    res['stats'] = st.as_dict()
    res['wall_s'] = round(time.time() - t0, 3)
    if len(res['models']) > max_models:
        step = len(res['models']) / max_models
        res['models'] = [res['models'][int(i * step)] for i in range(max_models)]
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(REPO)] or tb[-1:]
    s = f'{os.path.relpath(fr[-1].filename, REPO)}:{fr[-1].lineno}' if fr else '?'
    last = tb[-1] if tb else None
    if last is not None and not last.filename.startswith(REPO):
        s += f' ({os.path.basename(last.filename)}:{last.lineno})'
    return s


# ---------------------------------------------------------------------------------------------------
# replay on the real code (separate process, real numpy / numba)


def replay_worker():
    """entry point of the replay process: jobs on stdin (json), results on stdout (json)"""
    jobs = json.load(sys.stdin)
    out = []
    real_stdout = os.dup(1)
    os.dup2(2, 1)
    warnings.simplefilter('ignore')
    import_checks(jobs['check'])
    by_name = {(c.prop, c.name): c for c in CASES}
    ctxs = {}
    for job in jobs['jobs']:
        cs = by_name[(job['prop'], job['case'])]
        c = ConcreteCtx(job['inputs'])
        c.tier = job.get('tier', 'quick')
        prev = ctxs.get(cs.name)
        if prev is not None:
            c._once = prev._once
            c._tmp = prev._tmp
        r = dict(failures = [], exception = None, assumption_failed = False, obs = [])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                cs.fn(c)
        except (Assumption, MissingInput):
            r['assumption_failed'] = not c.failures
        except Exception as e:
            r['exception'] = f'{type(e).__name__}: {str(e)[:300]}'
            r['traceback'] = traceback.format_exc()[-2000:]
        r['failures'] = c.failures
        r['checked'] = c.checked
        r['obs'] = c.obs
        ctxs[cs.name] = c
        out.append(r)
    for c in ctxs.values():
        c.cleanup()
    os.write(real_stdout, json.dumps(out).encode())


def run_replay(check, jobs, timeout = 600):
    if not jobs:
        return []
    env = dict(os.environ)
    env.pop('NUMBA_DISABLE_JIT', None)
    cache = tempfile.mkdtemp(prefix = 'verif_numba_')
    env['NUMBA_CACHE_DIR'] = cache
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay-worker'],
                           input = json.dumps(dict(check = check, jobs = jobs)).encode(),
                           stdout = subprocess.PIPE,
                           stderr = subprocess.PIPE,
                           env = env,
                           timeout = timeout,
                           cwd = VERIF)
    except subprocess.TimeoutExpired:
        return None
    finally:
        shutil.rmtree(cache, ignore_errors = True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode(errors = 'replace')[-4000:])
        return None
    return json.loads(r.stdout)


def import_checks(prop):
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    m = importlib.import_module(prop.lower())
    for n, mod in list(sys.modules.items()):
        f = getattr(mod, '__file__', None)
        if f and os.path.dirname(os.path.abspath(f)) == os.path.join(VERIF, 'checks'):
            mod._symbolic_globals = True
    return m


def obs_differ(a, b, tol = 1.0e-6):
    """compares observations of the symbolic run (under a model) with those of the real code"""
    if len(a) != len(b):
        return f'{len(a)} observations against {len(b)}'
    for (la, va), (lb, vb) in zip(a, b):
        if la != lb or len(va) != len(vb):
            return f'{la}: {len(va)} values against {lb}: {len(vb)} values'
        for x, y in zip(va, vb):
            if x is None or y is None:
                continue
            if isinstance(x, str) or isinstance(y, str):
                if str(x) != str(y):
                    return f'{la}: {x!r} against {y!r}'
                continue
            if isinstance(x, bool) or isinstance(y, bool):
                if bool(x) != bool(y):
                    return f'{la}: {x!r} against {y!r}'
                continue
            if abs(float(x) - float(y)) > tol * max(1.0, abs(float(x))):
                return f'{la}: {x!r} against {y!r}'
    return None
