"""Symbolic scalars and path exploration (z3 backed).

A symbolic run executes the real python source of the code under test in CPython with operands that
are instances of SymNum / SymBool.  Arithmetic builds z3 terms; a truth test on a symbolic condition is
a decision: the explorer re-executes the body once for every feasible combination of decisions.
"""
import math
import numbers
from fractions import Fraction

from . import z3load

z3 = z3load.load()

import numpy as _np

_bool, _int, _float, _str = bool, int, float, str


class Control(BaseException):
    """Engine control flow; never caught by 'except Exception' in the code under test."""


class Unsupported(Control):
    """The code under test used something the encoding does not model."""


class Infeasible(Control):
    """The current path has been found to be infeasible (an assumption failed)."""


class LimitReached(Control):
    """A bound of the exploration was exceeded."""


PATH = None  # the current Path, or None when not in a symbolic run


def path():
    if PATH is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return PATH


class Stats:

    def __init__(self):
        self.paths = 0
        self.infeasible_paths = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.simplified = 0
        self.obligations = 0
        self.idealised = 0

    def as_dict(self):
        return dict(self.__dict__)


class Path:

    def __init__(self, prefix, stats, timeout_ms = 20000, seed = 0, tactic = None, opts = None):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        self.solver.set('timeout', timeout_ms)
        try:
            self.solver.set('random_seed', seed)
        except Exception:
            pass
        self.constraints = []
        self.known = {}
        self.keep = []
        self.fresh_n = 0
        self.cache = {}
        self.inputs = []
        self.poisoned = None
        self.idealised = False
        self.opts = opts or {}
        self.tokens = {}
        self.rounded = False

    # ---- solver
    def add(self, e):
        self.constraints.append(e)
        self.solver.add(e)

    def _check(self, make, constraints, timeout):
        import time
        t = time.time()
        self.stats.queries += 1
        r, m = z3.unknown, None
        try:
            s = make()
            s.set('timeout', timeout)
            s.add(*constraints)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        return r, m

    def sat(self, *extra):
        """returns 'sat' / 'unsat' / 'unknown'"""
        import time
        t = time.time()
        self.stats.queries += 1
        self.solver.set('timeout', min(self.timeout_ms, 5000))
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.last_model = self.solver.model()
        elif r == z3.unknown:
            cons = list(self.constraints) + list(extra)
            m = self.probe(*extra)
            if m is not None:
                r = z3.sat
            if r == z3.unknown:
                # a fresh non-incremental solver often succeeds, notably for nonlinear arithmetic
                r, m = self._check(z3.Solver, cons, self.timeout_ms)
            if r == z3.unknown:
                # last resort: purely real problems through the dedicated nonlinear procedure
                r, m = self._check(
                    lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver(), cons,
                    self.timeout_ms)
            self.last_model = m
            if r == z3.unknown:
                self.stats.unknown += 1
        return str(r)

    def probe(self, *extra, tries = 6, timeout = 400):
        """a model with the inputs fixed at simple values, when one of a few guesses succeeds, else None"""
        import random
        rnd = random.Random(len(self.constraints) * 7919 + len(self.trace))
        cons = list(self.constraints) + list(extra)
        for n in range(tries):
            fix = []
            for v, lo, hi, k in self.inputs:
                lo_ = -6 if lo is None else lo
                hi_ = 6 if hi is None else hi
                if k == 'i':
                    if n % 2 == 0:
                        continue  # leave the integers to the solver
                    fix.append(v == rnd.randint(int(lo_), int(hi_)))
                else:
                    a, b = max(lo_, -8), min(hi_, 8)
                    if a >= b:
                        a, b = lo_, hi_
                    q = Fraction(rnd.randint(0, 64), 64) * (Fraction(b) - Fraction(a)) + Fraction(a)
                    q = Fraction(round(q * 16), 16)
                    q = min(max(q, Fraction(lo_)), Fraction(hi_))
                    fix.append(v == z3.Q(q.numerator, q.denominator))
            if not fix:
                return None
            r, m = self._check(z3.Solver, cons + fix, timeout)
            if r == z3.sat:
                return m
        return None

    def fresh(self, sort, name = 'f'):
        self.fresh_n += 1
        n = f'{name}!{self.fresh_n}'
        return z3.Int(n) if sort == 'i' else (z3.Real(n) if sort == 'r' else z3.Bool(n))

    # ---- decisions
    def decide(self, e):
        """returns a concrete bool for z3 boolean expression e, forking if both are feasible"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        h = e.get_id()
        if h in self.known:
            return self.known[h] != neg
        self.stats.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            choice = self.prefix[i]
            if not isinstance(choice, _bool):
                raise Unsupported('non-deterministic re-execution (decision kind mismatch)')
            self.add(e if choice else z3.Not(e))
        else:
            if self.poisoned:
                raise self.poisoned
            t = self.sat(e)
            if t == 'unsat':
                choice = False
                self.add(z3.Not(e))
            else:
                f = self.sat(z3.Not(e))
                if f == 'unsat':
                    choice = True
                    self.add(e)
                else:
                    choice = True
                    self.stats.forks += 1
                    self.pending.append(self.trace + [False])
                    self.add(e)
        self.trace.append(choice)
        self.known[h] = choice
        self.keep.append(e)
        return choice != neg

    def concretise(self, e, lo = None, hi = None, limit = 200):
        """returns a concrete python int for the z3 int expression e, forking over all feasible values"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        h = e.get_id()
        if ('v', h) in self.known:
            return self.known[('v', h)]
        self.stats.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            choice = self.prefix[i]
            if not isinstance(choice, tuple):
                raise Unsupported('non-deterministic re-execution (decision kind mismatch)')
            v = choice[1]
        else:
            vals = []
            self.solver.push()
            n0 = len(self.constraints)
            try:
                while True:
                    r = self.sat()
                    if r == 'unsat':
                        break
                    if r != 'sat':
                        raise LimitReached('solver gave no answer while enumerating values')
                    v = self.last_model.eval(e, model_completion = True).as_long()
                    vals.append(v)
                    if len(vals) > limit:
                        raise LimitReached(f'more than {limit} values while concretising {e}')
                    self.solver.add(e != v)
                    self.constraints.append(e != v)
            finally:
                self.solver.pop()
                del self.constraints[n0:]
            if not vals:
                raise Infeasible('no feasible value')
            vals.sort()
            v = vals[0]
            for w in reversed(vals[1:]):
                self.stats.forks += 1
                self.pending.append(self.trace + [('=', w)])
        self.trace.append(('=', v))
        self.add(e == v)
        self.known[('v', h)] = v
        self.keep.append(e)
        return v

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.add(e)
        if z3.is_false(e):
            raise Infeasible('assumption false')
        i = len(self.trace)
        # record as a decision so that re-execution skips the feasibility query
        if i < len(self.prefix):
            self.trace.append(True)
            return
        if self.sat() == 'unsat':
            raise Infeasible('assumption unsatisfiable')
        self.trace.append(True)


# ---------------------------------------------------------------------------------------------------
# helpers


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def frac(x):
    return x if isinstance(x, (_int, Fraction)) else Fraction(x)


def _lsb_of(x):
    """exponent e such that concrete x is a multiple of 2**e, or None"""
    if isinstance(x, _int):
        return 0
    d = Fraction(x).denominator
    if d & (d - 1):
        return None
    return -(d.bit_length() - 1)


def zconst(x, k):
    if k == 'i':
        return z3.IntVal(_int(x))
    if isinstance(x, _int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}') if f.denominator != 1 else z3.RealVal(f.numerator)


def norm(x):
    """normalises a scalar to python bool/int/float or a symbolic value"""
    if isinstance(x, _np.generic):
        return x.item()
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return norm(x.view(_np.ndarray).item() if x.dtype != object else x.view(_np.ndarray)[()])
    return x


def is_nan(x):
    return isinstance(x, _float) and x != x


def is_inf(x):
    return isinstance(x, _float) and x in (math.inf, -math.inf)


_MAXMAG = 2**2000


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return path().decide(self.e)

    def __hash__(self):
        return 7

    def __str__(self):
        # text cannot be symbolic: each value is followed along a path of its own
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __repr__(self):
        return f'SymBool({self.e})'

    def _b(self, o):
        o = norm(o)
        if isinstance(o, SymBool):
            return o
        if isinstance(o, _bool):
            return o
        return None

    def __and__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = self._b(o)
        if b is None:
            return b_to_num(self) & o
        return b_and(self, b)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = self._b(o)
        if b is None:
            return b_to_num(self) | o
        return b_or(self, b)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        b = self._b(o)
        if b is None:
            return NotImplemented
        return b_xor(self, b)

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        o = norm(o)
        if isinstance(o, (SymBool, _bool)):
            return b_not(b_xor(self, o))
        if o is None:
            return False
        return b_to_num(self) == o

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __int__(self):
        return 1 if _bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if _bool(self) else 0.0

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    @property
    def dtype(self):
        return _np.dtype(bool)

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    def astype(self, t):
        from . import arr
        return arr.cast(self, arr.norm_dtype(t))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'lt',
           'le', 'gt', 'ge', 'neg', 'pow'):

    def _mk(nm):
        dn = f'__{nm}__'

        def f(self, *a):
            return getattr(b_to_num(self), dn)(*a)

        return f

    setattr(SymBool, f'__{_n}__', _mk(_n))


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(_bool(b))


def to_bool(x):
    """SymBool or python bool for a truth value of any scalar"""
    x = norm(x)
    if isinstance(x, (SymBool, _bool)):
        return x
    if isinstance(x, SymNum):
        return b_not(x == 0)
    return _bool(x)


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(a):
    if isinstance(a, SymBool):
        e = a.e
        if z3.is_not(e):
            return mkb(e.arg(0))
        return mkb(z3.Not(e))
    return not a


def b_and(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.e)
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(*out))


def b_or(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.e)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.Or(*out))


def b_xor(a, b):
    if not isinstance(a, SymBool):
        return b_not(b) if a else b
    if not isinstance(b, SymBool):
        return b_not(a) if b else a
    if a.e.eq(b.e):
        return False
    return mkb(z3.Xor(a.e, b.e))


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_to_num(b):
    if isinstance(b, SymBool):
        return SymNum(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)), 'i', None, 0, 1, 0)
    return 1 if b else 0


def ite(c, a, b):
    """merge of two scalars under a condition; numeric or boolean"""
    if not isinstance(c, SymBool):
        return a if c else b
    a, b = norm(a), norm(b)
    if a is b:
        return a
    ab = isinstance(a, (SymBool, _bool))
    bb = isinstance(b, (SymBool, _bool))
    if ab and bb:
        if not is_sym(a) and not is_sym(b):
            if a == b:
                return a
            return c if a else b_not(c)
        return mkb(z3.If(c.e, bexpr(a), bexpr(b)))
    if ab:
        a = b_to_num(a)
    if bb:
        b = b_to_num(b)
    if not is_sym(a) and not is_sym(b):
        if type(a) == type(b) and a == b:
            return a
        if is_nan(a) and is_nan(b):
            return a
    if not isinstance(a, (SymNum, _int, _float)) or not isinstance(b, (SymNum, _int, _float)):
        return a if path().decide(c.e) else b
    if is_inf(a) or is_inf(b):
        return a if path().decide(c.e) else b
    if is_nan(a) or is_nan(b):
        if is_nan(a) and is_nan(b):
            return a
        if is_nan(a):
            o = lift(b, 'r')
            return SymNum(o.e, 'r', _nor(c.e, z3.And(z3.Not(c.e), o.nan) if o.nan is not None else None), o.lo, o.hi,
                          o.lsb)
        o = lift(a, 'r')
        nc = z3.Not(c.e)
        return SymNum(o.e, 'r', _nor(nc, z3.And(c.e, o.nan) if o.nan is not None else None), o.lo, o.hi, o.lsb)
    k = 'r' if kind(a) == 'r' or kind(b) == 'r' else 'i'
    a, b = lift(a, k), lift(b, k)
    if a.e.eq(b.e) and a.nan is None and b.nan is None:
        return a
    nan = None
    if a.nan is not None or b.nan is not None:
        nan = z3.If(c.e, a.nan if a.nan is not None else z3.BoolVal(False),
                    b.nan if b.nan is not None else z3.BoolVal(False))
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    lsb = None if a.lsb is None or b.lsb is None else min(a.lsb, b.lsb)
    return SymNum(z3.If(c.e, a.e, b.e), k, nan, lo, hi, lsb)


def _nor(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


def kind(x):
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, (_bool, SymBool, _int)):
        return 'i'
    return 'r'


def lift(x, k = None):
    """SymNum for any finite numeric scalar, of kind k (or its own)"""
    if isinstance(x, SymBool):
        x = b_to_num(x)
    if isinstance(x, SymNum):
        if k == 'r' and x.k == 'i':
            return SymNum(z3.ToReal(x.e), 'r', x.nan, x.lo, x.hi, x.lsb)
        return x
    if isinstance(x, _bool):
        x = _int(x)
    if k is None:
        k = 'i' if isinstance(x, _int) else 'r'
    f = x if isinstance(x, _int) else Fraction(x)
    return SymNum(zconst(f, k), k, None, f, f, _lsb_of(f))


def _ok(x):
    return isinstance(x, (SymNum, SymBool, _bool, _int, _float, Fraction))


def _res(e, k, nan, lo, hi, lsb):
    """result of arithmetic; degrades exactness when not provably representable"""
    if k == 'r':
        if lsb is not None:
            if lo is None or hi is None:
                lsb = None
            else:
                m = max(abs(lo), abs(hi))
                sh = 53 + lsb
                if (sh >= 0 and m >= (1 << sh)) or sh < 0 and m * (1 << -sh) >= 1:
                    lsb = None
        if lsb is None and PATH is not None:
            PATH.idealised = True
    return SymNum(e, k, nan, lo, hi, lsb)


def _imul(a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        return None, None
    p = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return min(p), max(p)


def n_add(a, b, sub = False):
    """a + b or a - b for scalars of which at least one is symbolic"""
    if isinstance(a, SymBool):
        a = b_to_num(a)
    if isinstance(b, SymBool):
        b = b_to_num(b)
    for x, y, first in ((a, b, True), (b, a, False)):
        if isinstance(x, _float):
            if x != x:
                return x
            if x in (math.inf, -math.inf):
                if isinstance(y, SymNum) and y.nan is not None and path().decide(y.nan):
                    return math.nan
                return x if first or not sub else -x
    if not is_sym(b) and b == 0:
        return a if kind(b) == 'i' or a.k == 'r' else lift(a, 'r')
    if not is_sym(a) and a == 0 and not sub:
        return b if kind(a) == 'i' or b.k == 'r' else lift(b, 'r')
    k = 'r' if kind(a) == 'r' or kind(b) == 'r' else 'i'
    if sub and is_sym(a) and is_sym(b) and a.e.eq(b.e) and a.nan is None and b.nan is None:
        return 0 if k == 'i' else 0.0
    a, b = lift(a, k), lift(b, k)
    if sub:
        e = a.e - b.e
        lo = None if a.lo is None or b.hi is None else a.lo - b.hi
        hi = None if a.hi is None or b.lo is None else a.hi - b.lo
    else:
        e = a.e + b.e
        lo = None if a.lo is None or b.lo is None else a.lo + b.lo
        hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    lsb = None if a.lsb is None or b.lsb is None else min(a.lsb, b.lsb)
    return _res(e, k, _nor(a.nan, b.nan), lo, hi, lsb)


def n_mul(a, b):
    if isinstance(a, SymBool):
        if isinstance(b, _float) and b == b and not is_inf(b):
            return ite(a, b, 0.0)
        a = b_to_num(a)
    if isinstance(b, SymBool):
        if isinstance(a, _float) and a == a and not is_inf(a):
            return ite(b, a, 0.0)
        b = b_to_num(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, _float):
            if x != x:
                return x
            if x in (math.inf, -math.inf):
                p = path()
                if y.nan is not None and p.decide(y.nan):
                    return math.nan
                if p.decide(y.e == 0):
                    return math.nan
                return x if p.decide(y.e > 0) else -x
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and y.nan is None:
            if x == 0:
                return 0 if kind(x) == 'i' and y.k == 'i' else 0.0
            if x == 1:
                return y if kind(x) == 'i' else lift(y, 'r')
    k = 'r' if kind(a) == 'r' or kind(b) == 'r' else 'i'
    a, b = lift(a, k), lift(b, k)
    lo, hi = _imul(a, b)
    if a.e.eq(b.e) and lo is not None and lo < 0:
        lo = 0
    lsb = None if a.lsb is None or b.lsb is None else a.lsb + b.lsb
    return _res(a.e * b.e, k, _nor(a.nan, b.nan), lo, hi, lsb)


def n_neg(a):
    if isinstance(a, SymBool):
        a = b_to_num(a)
    return SymNum(-a.e, a.k, a.nan, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, a.lsb)


def n_div(a, b, np_sem = True):
    """true division; np_sem: numpy float semantics for a zero divisor, else ZeroDivisionError"""
    if isinstance(a, SymBool):
        a = b_to_num(a)
    if isinstance(b, SymBool):
        b = b_to_num(b)
    if is_nan(a) or is_nan(b):
        return math.nan
    if is_inf(b):
        if is_inf(a) or (isinstance(a, SymNum) and a.nan is not None and path().decide(a.nan)):
            return math.nan
        return 0.0
    if is_inf(a):
        p = path()
        if b.nan is not None and p.decide(b.nan):
            return math.nan
        return a if p.decide(b.e >= 0) else -a
    if isinstance(b, SymNum):
        p = path()
        if p.decide(z3.And(b.e == 0, z3.Not(b.nan)) if b.nan is not None else b.e == 0):
            if not np_sem:
                raise ZeroDivisionError('division by zero')
            a = lift(a)
            if a.nan is not None and p.decide(a.nan):
                return math.nan
            if p.decide(a.e == 0):
                return math.nan
            return math.inf if p.decide(a.e > 0) else -math.inf
        ar, br = lift(a, 'r'), lift(b, 'r')
        lo = hi = None
        if br.lo is not None and br.hi is not None and ar.lo is not None and ar.hi is not None and (br.lo > 0 or
                                                                                                     br.hi < 0):
            q = [Fraction(x) / Fraction(y) for x in (ar.lo, ar.hi) for y in (br.lo, br.hi)]
            lo, hi = min(q), max(q)
        return _res(ar.e / br.e, 'r', _nor(ar.nan, br.nan), lo, hi, None)
    if b == 0:
        if not np_sem:
            raise ZeroDivisionError('division by zero')
        p = path()
        if a.nan is not None and p.decide(a.nan):
            return math.nan
        if p.decide(a.e == 0):
            return math.nan
        return math.inf if p.decide(a.e > 0) == (math.copysign(1.0, b) > 0) else -math.inf
    ar = lift(a, 'r')
    f = Fraction(b)
    q = sorted([None if ar.lo is None else ar.lo / f, None if ar.hi is None else ar.hi / f],
               key = lambda v: (v is None, v)) if ar.lo is not None and ar.hi is not None else [None, None]
    m = abs(f.numerator)
    lsb = None
    if ar.lsb is not None and m & (m - 1) == 0 and f.denominator & (f.denominator - 1) == 0:
        lsb = ar.lsb - (m.bit_length() - 1) + (f.denominator.bit_length() - 1)
    return _res(ar.e / zconst(f, 'r'), 'r', ar.nan, q[0], q[1], lsb)


def n_floor(x):
    """floor as SymNum int"""
    if isinstance(x, SymBool):
        x = b_to_num(x)
    if x.k == 'i':
        return x
    lo = None if x.lo is None else math.floor(x.lo)
    hi = None if x.hi is None else math.floor(x.hi)
    if x.lsb is not None and x.lsb >= 0:
        pass
    return SymNum(z3.ToInt(x.e), 'i', x.nan, lo, hi, 0)


def n_ceil(x):
    return n_neg(n_floor(n_neg(lift(x))))


def n_trunc(x):
    if isinstance(x, SymBool):
        x = b_to_num(x)
    if x.k == 'i':
        return x
    if x.lo is not None and x.lo >= 0:
        return n_floor(x)
    if x.hi is not None and x.hi <= 0:
        return n_ceil(x)
    return ite(mkb(x.e >= 0), n_floor(x), n_ceil(x))


def n_rint(x):
    """round half to even, as SymNum int"""
    if isinstance(x, SymBool):
        x = b_to_num(x)
    if x.k == 'i':
        return x
    h = n_floor(n_add(x, 0.5))
    tie = z3.ToReal(h.e) == x.e + z3.RealVal('1/2')
    odd = h.e % 2 == 1
    return ite(mkb(z3.And(tie, odd)), n_add(h, 1, True), h)


def n_floordiv(a, b, np_sem = True):
    if isinstance(a, SymBool):
        a = b_to_num(a)
    if isinstance(b, SymBool):
        b = b_to_num(b)
    if kind(a) == 'r' or kind(b) == 'r':
        q = n_div(a, b, np_sem)
        return lift(n_floor(q), 'r') if is_sym(q) else (math.floor(q) if q == q and not is_inf(q) else q)
    a0, b0 = lift(a), lift(b)
    if is_sym(b):
        if path().decide(b0.e == 0):
            if np_sem:
                return 0
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        if np_sem:
            return 0
        raise ZeroDivisionError('integer division or modulo by zero')
    bpos = b0.lo is not None and b0.lo > 0
    if bpos:
        e = a0.e / b0.e
        lo = hi = None
        if a0.lo is not None and a0.hi is not None and b0.hi is not None:
            q = [x // y for x in (a0.lo, a0.hi) for y in (b0.lo, b0.hi)]
            lo, hi = min(q), max(q)
        return SymNum(e, 'i', None, lo, hi, 0)
    if is_sym(b):
        if not path().decide(b0.e > 0):
            return n_floordiv(n_neg(a0), SymNum(-b0.e, 'i', None, 1, None if b0.lo is None else -b0.lo, 0))
        return n_floordiv(a0, SymNum(b0.e, 'i', None, 1, b0.hi, 0))
    return n_floordiv(n_neg(a0), -b)


def n_mod(a, b, np_sem = True):
    if isinstance(a, SymBool):
        a = b_to_num(a)
    if isinstance(b, SymBool):
        b = b_to_num(b)
    if kind(a) == 'i' and kind(b) == 'i':
        b0 = lift(b)
        if b0.lo is not None and b0.lo > 0:
            a0 = lift(a)
            return SymNum(a0.e % b0.e, 'i', None, 0, None if b0.hi is None else b0.hi - 1, 0)
        q = n_floordiv(a, b, np_sem)
        if not is_sym(q) and q == 0 and not is_sym(b) and b == 0:
            return 0
        return n_add(a, n_mul(b, q) if is_sym(b) or is_sym(q) else b * q, True)
    q = n_floordiv(a, b, np_sem)
    if is_nan(q) or is_inf(q):
        return math.nan
    return n_add(a, n_mul(b, q) if is_sym(b) or is_sym(q) else b * q, True)


def n_abs(x):
    if isinstance(x, SymBool):
        return b_to_num(x)
    if x.lo is not None and x.lo >= 0:
        return x
    if x.hi is not None and x.hi <= 0:
        return n_neg(x)
    hi = None if x.lo is None or x.hi is None else max(abs(x.lo), abs(x.hi))
    zero = z3.IntVal(0) if x.k == 'i' else z3.RealVal(0)
    return SymNum(z3.If(x.e >= zero, x.e, -x.e), x.k, x.nan, 0, hi, x.lsb)


def n_cmp(op, a, b):
    """comparison of scalars, at least one symbolic"""
    if isinstance(a, SymBool) and isinstance(b, (SymBool, _bool)) or isinstance(b, SymBool) and isinstance(a, _bool):
        if op == 'eq':
            return b_not(b_xor(a, b))
        if op == 'ne':
            return b_xor(a, b)
    if isinstance(a, SymBool):
        a = b_to_num(a)
    if isinstance(b, SymBool):
        b = b_to_num(b)
    if is_nan(a) or is_nan(b):
        return op == 'ne'
    if is_inf(a) or is_inf(b):
        s = a if isinstance(a, SymNum) else b
        v = b if isinstance(a, SymNum) else a
        big = v > 0
        if op == 'eq':
            r = False
        elif op == 'ne':
            return True
        else:
            less = (isinstance(a, SymNum)) == big  # is a < b
            r = less if op in ('lt', 'le') else not less
        if s.nan is not None and r:
            return mkb(z3.Not(s.nan))
        return r
    k = 'r' if kind(a) == 'r' or kind(b) == 'r' else 'i'
    a0, b0 = lift(a), lift(b)
    nan = _nor(a0.nan, b0.nan)
    r = None
    if a0.hi is not None and b0.lo is not None:
        if a0.hi < b0.lo:
            r = op in ('lt', 'le', 'ne')
        elif a0.hi <= b0.lo:
            if op == 'le':
                r = True
            elif op == 'gt':
                r = False
    if r is None and a0.lo is not None and b0.hi is not None:
        if a0.lo > b0.hi:
            r = op in ('gt', 'ge', 'ne')
        elif a0.lo >= b0.hi:
            if op == 'ge':
                r = True
            elif op == 'lt':
                r = False
    if r is None and a0.e.eq(b0.e):
        r = op in ('eq', 'le', 'ge')
    if r is None:
        # comparing an integer term with a non-integer constant: keep it in integers
        if a0.k != b0.k:
            for x, y, swapped in ((a0, b0, False), (b0, a0, True)):
                if x.k == 'i' and y.lo is not None and y.lo == y.hi and not (swapped and y is not a0):
                    v = Fraction(y.lo)
                    o = op if not swapped else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
                    if v.denominator == 1:
                        r = _zcmp(o, x.e, z3.IntVal(v.numerator))
                    elif o in ('eq', 'ne'):
                        r = o == 'ne'
                    elif o in ('lt', 'le'):
                        r = x.e <= z3.IntVal(math.floor(v))
                    else:
                        r = x.e >= z3.IntVal(math.ceil(v))
                    break
    if r is None:
        r = _zcmp(op, lift(a0, k).e, lift(b0, k).e)
    if isinstance(r, _bool):
        if nan is None:
            return r
        if op == 'ne':
            return True if r else mkb(nan)
        return mkb(z3.Not(nan)) if r else False
    if nan is not None:
        r = z3.Or(nan, r) if op == 'ne' else z3.And(z3.Not(nan), r)
    return mkb(r)


def _zcmp(op, x, y):
    if op == 'eq':
        return x == y
    if op == 'ne':
        return x != y
    if op == 'lt':
        return x < y
    if op == 'le':
        return x <= y
    if op == 'gt':
        return x > y
    return x >= y


def n_isnan(x):
    if isinstance(x, SymNum):
        return False if x.nan is None else mkb(x.nan)
    return x != x


def n_pow(a, b):
    b = norm(b)
    if isinstance(b, SymNum):
        b = path().concretise(b.e) if b.k == 'i' else b
        if is_sym(b):
            raise Unsupported('symbolic exponent')
    if not is_sym(a):
        return a**b
    if isinstance(b, _float) and b == _int(b):
        r = n_pow(a, _int(b))
        return lift(r, 'r') if is_sym(r) else _float(r)
    if b == 0.5:
        return n_sqrt(a)
    if isinstance(b, _int):
        if b == 0:
            return 1 if a.k == 'i' else 1.0
        if b < 0:
            return n_div(1.0, n_pow(a, -b))
        r = a
        for _ in range(b - 1):
            r = n_mul(r, a)
        return r
    raise Unsupported(f'power {b}')


def n_sqrt(x, np_sem = True):
    if isinstance(x, SymBool):
        x = b_to_num(x)
    p = path()
    if x.nan is not None and p.decide(x.nan):
        return math.nan
    if not (x.lo is not None and x.lo >= 0):
        if p.decide(x.e < 0):
            if np_sem:
                return math.nan
            raise ValueError('math domain error')
    e = z3.simplify(lift(x, 'r').e)
    # constant?
    if z3.is_rational_value(e):
        return math.sqrt(_float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    key = ('sqrt', e.get_id())
    if key in p.cache:
        return p.cache[key]
    r = p.fresh('r', 'sqrt')
    p.add(z3.And(r >= 0, r * r == e))
    hi = None
    if x.hi is not None:
        hi = Fraction(math.isqrt(math.ceil(x.hi)) + 1)
    lo = 0 if x.lo is None or x.lo <= 0 else Fraction(math.isqrt(math.floor(x.lo)))
    s = _res(r, 'r', None, lo, hi, None)
    p.cache[key] = s
    p.keep.append(e)
    return s


def _linear(e):
    """(list of (coefficient, term), constant) of a real expression"""
    e = z3.simplify(e, som = True)
    terms, const = [], Fraction(0)
    todo = [(Fraction(1), e)]
    while todo:
        k, t = todo.pop()
        if z3.is_rational_value(t):
            const += k * Fraction(t.numerator_as_long(), t.denominator_as_long())
        elif z3.is_add(t):
            todo += [(k, u) for u in reversed(t.children())]
        elif z3.is_mul(t) and len(t.children()) == 2 and z3.is_rational_value(t.children()[0]):
            f, u = t.children()
            todo.append((k * Fraction(f.numerator_as_long(), f.denominator_as_long()), u))
        else:
            terms.append((k, t))
    return terms, const


def _snap(v):
    for w in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(v - w) < 1.0e-12:
            return w
    return v


def _angle_base(p, k, terms):
    """(sin, cos) of sum of coefficient times term, as a symbol pair shared by expressions differing in sign or a constant"""
    key = tuple((t.get_id(), round(float(c), 12)) for c, t in terms)
    neg = tuple((i, -c) for i, c in key)
    for sg, q in ((1, key), (-1, neg)):
        if ('sincos', q) in p.cache:
            s, c = p.cache['sincos', q]
            return (s if sg > 0 else -s), c
    p.keep += [t for _, t in terms]
    s, c = p.fresh('r', 'sin'), p.fresh('r', 'cos')
    p.add(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
    p.idealised = True
    r = p.cache['sincos', key] = (SymNum(s, 'r', None, -1, 1, None), SymNum(c, 'r', None, -1, 1, None))
    return r


def new_angle(name, key, lo, hi, make):
    """an angle in lo .. hi radians found by an inverse function; make(angle, sin, cos) gives what is known of it"""
    p = path()
    if ('angle', name) + key in p.cache:
        return p.cache[('angle', name) + key][0]
    a, s, c = p.fresh('r', name), p.fresh('r', 'sin'), p.fresh('r', 'cos')
    p.add(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1, a >= _rat(lo), a <= _rat(hi), *make(a, s, c)))
    p.idealised = True
    x = SymNum(a, 'r', None, Fraction(lo), Fraction(hi), None)
    p.cache[('angle', name) + key] = (x, a)
    p.cache['sincos', ((a.get_id(), 1.0),)] = (SymNum(s, 'r', None, -1, 1, None), SymNum(c, 'r', None, -1, 1, None))
    p.keep.append(a)
    return x


def _rat(v):
    f = Fraction(v)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def n_atan(q):
    q = lift(q, 'r')
    p = path()
    if q.nan is not None and p.decide(q.nan):
        return math.nan
    e = z3.simplify(q.e)
    p.keep.append(e)
    if z3.is_rational_value(e):
        return math.atan(_float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    return new_angle('atan', (e.get_id(),), -math.pi / 2, math.pi / 2, lambda a, s, c: [
        c > 0, s == e * c, (a > 0) == (e > 0), (a < 0) == (e < 0), (s > 0) == (e > 0), (s < 0) == (e < 0),
        (a > _rat(math.pi / 4)) == (e > 1), (a < _rat(-math.pi / 4)) == (e < -1)])


def n_acos(x):
    x = lift(x, 'r')
    p = path()
    if x.nan is not None and p.decide(x.nan):
        return math.nan
    e = z3.simplify(x.e)
    p.keep.append(e)
    if z3.is_rational_value(e):
        return math.acos(_float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    if p.decide(z3.Or(e < -1, e > 1)):
        return math.nan
    return new_angle('acos', (e.get_id(),), 0, math.pi, lambda a, s, c: [
        s >= 0, c == e, (a < _rat(math.pi / 2)) == (e > 0), (a > _rat(math.pi / 2)) == (e < 0), (a == 0) == (e == 1)])


def n_asin(x):
    x = lift(x, 'r')
    p = path()
    if x.nan is not None and p.decide(x.nan):
        return math.nan
    e = z3.simplify(x.e)
    p.keep.append(e)
    if z3.is_rational_value(e):
        return math.asin(_float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    if p.decide(z3.Or(e < -1, e > 1)):
        return math.nan
    return new_angle('asin', (e.get_id(),), -math.pi / 2, math.pi / 2, lambda a, s, c: [
        c >= 0, s == e, (a > 0) == (e > 0), (a < 0) == (e < 0)])


def n_atan2(y, x):
    y, x = lift(y, 'r'), lift(x, 'r')
    p = path()
    for v in (y, x):
        if v.nan is not None and p.decide(v.nan):
            return math.nan
    ye, xe = z3.simplify(y.e), z3.simplify(x.e)
    p.keep += [ye, xe]
    if p.decide(z3.And(ye == 0, xe == 0)):
        return 0.0
    r = p.fresh('r', 'rad')
    return new_angle('atan2', (ye.get_id(), xe.get_id()), -math.pi, math.pi, lambda a, s, c: [
        r > 0, s * r == ye, c * r == xe, (a > 0) == z3.Or(ye > 0, z3.And(ye == 0, xe < 0)), (a < 0) == (ye < 0),
        (a == 0) == z3.And(ye == 0, xe > 0)])


def n_sincos(x):
    x = lift(x, 'r')
    p = path()
    if x.nan is not None and p.decide(x.nan):
        return math.nan, math.nan
    terms, const = _linear(x.e)
    two_pi = 2 * math.pi
    kept = []
    for k, t in terms:
        n = float(k) / two_pi
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and abs(n - round(n)) < 1.0e-9:
            continue  # whole turns
        kept.append((k, t))
    for n, (k, t) in enumerate(kept):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            cond, u, v = t.children()
            rest = [_rat(const)] + [_rat(q) * w for m, (q, w) in enumerate(kept) if m != n]
            rs = z3.Sum(rest)
            sc = [n_sincos(SymNum(rs + _rat(k) * w, 'r', None, None, None, None)) for w in (u, v)]
            both = []
            for a in range(2):
                f, g = lift(sc[0][a], 'r'), lift(sc[1][a], 'r')
                both.append(SymNum(z3.If(cond, f.e, g.e), 'r', None, -1, 1, None))
            return tuple(both)
    fc = _float(const)
    s, c = _snap(math.sin(fc)), _snap(math.cos(fc))
    groups = []
    rest = []
    for k, t in kept:
        n = round(float(k))
        if abs(float(k) - n) < 1.0e-9 and 1 <= abs(n) <= 3 and ('sincos', ((t.get_id(), 1.0),)) in p.cache:
            groups += [(1 if n > 0 else -1, [(Fraction(1), t)])] * abs(n)
        else:
            rest.append((k, t))
    if rest:
        groups.append((1, rest))
    for sg, ts in groups:
        bs, bc = _angle_base(p, sg, ts)
        if sg < 0:
            bs = -bs
        s, c = n_add(n_mul(s, bc), n_mul(c, bs)), n_add(n_mul(c, bc), n_mul(s, bs), True)
    return s, c


class SymNum(numbers.Number):
    """a symbolic int (k == 'i') or real (k == 'r'), with optional nan condition and interval / exactness bounds"""
    __slots__ = ('e', 'k', 'nan', 'lo', 'hi', 'lsb')
    __array_priority__ = 1000

    def __init__(self, e, k, nan = None, lo = None, hi = None, lsb = None):
        self.e = e
        self.k = k
        self.nan = nan
        if lo is not None and abs(lo) > _MAXMAG:
            lo = None
        if hi is not None and abs(hi) > _MAXMAG:
            hi = None
        self.lo = lo
        self.hi = hi
        self.lsb = 0 if k == 'i' else lsb

    def __hash__(self):
        return 7

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return token(self, spec)

    def __bool__(self):
        return _bool(to_bool(self))

    def __index__(self):
        if self.k != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return path().concretise(self.e)

    def __int__(self):
        x = n_trunc(self)
        if self.nan is not None and path().decide(self.nan):
            raise ValueError('cannot convert float NaN to integer')
        return path().concretise(x.e)

    def __float__(self):
        if self.lo is not None and self.lo == self.hi:
            return _float(self.lo)
        p = path()
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return _float(e.as_long())
        if z3.is_rational_value(e):
            return _float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if self.k == 'i' and p.opts.get('float_concretise'):
            return _float(p.concretise(self.e))
        p.poisoned = Unsupported('symbolic number forced to a concrete float')
        raise p.poisoned

    def __floor__(self):
        return n_floor(self)

    def __ceil__(self):
        return n_ceil(self)

    def __trunc__(self):
        return n_trunc(self)

    def __round__(self, nd = None):
        if nd is None:
            return n_rint(self)
        if self.k == 'i':
            return self
        m = 10**nd
        return lift(n_rint(n_mul(self, m)), 'r') / m

    def __neg__(self):
        return n_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return n_abs(self)

    def _o(self, o):
        """returns normalised other operand, or None when not handled here"""
        if isinstance(o, _np.ndarray) and o.ndim:
            return None
        o = norm(o)
        if isinstance(o, _np.generic):
            o = o.item()
        return o if _ok(o) else None

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)

    # numpy-scalar-like conveniences
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        from . import arr
        return arr.cast(self, arr.norm_dtype(t))

    def is_integer(self):
        return mkb(z3.ToReal(z3.ToInt(self.e)) == self.e) if self.k == 'r' else True

    @property
    def dtype(self):
        return _np.dtype('int64') if self.k == 'i' else _np.dtype('float64')

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def sum(self, *a, **k):
        return self

    def any(self, *a, **k):
        return to_bool(self)

    def all(self, *a, **k):
        return to_bool(self)

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self


def _arith(name, fn, rev = False):

    def f(self, o):
        o0 = self._o(o)
        if o0 is None:
            return _defer(name, self, o, rev)
        np_sem = isinstance(o, (_np.generic, _np.ndarray)) or True
        return fn(o0, self) if rev else fn(self, o0)

    return f


def _defer(name, a, b, rev):
    if isinstance(b, _np.ndarray):
        from . import arr
        return arr.array_op(name, b, a) if rev else arr.array_op(name, a, b)
    return NotImplemented


SymNum.__add__ = _arith('add', n_add)
SymNum.__radd__ = _arith('add', n_add, True)
SymNum.__sub__ = _arith('subtract', lambda a, b: n_add(a, b, True))
SymNum.__rsub__ = _arith('subtract', lambda a, b: n_add(a, b, True), True)
SymNum.__mul__ = _arith('multiply', n_mul)
SymNum.__rmul__ = _arith('multiply', n_mul, True)
SymNum.__truediv__ = _arith('true_divide', n_div)
SymNum.__rtruediv__ = _arith('true_divide', n_div, True)
SymNum.__floordiv__ = _arith('floor_divide', n_floordiv)
SymNum.__rfloordiv__ = _arith('floor_divide', n_floordiv, True)
SymNum.__mod__ = _arith('remainder', n_mod)
SymNum.__rmod__ = _arith('remainder', n_mod, True)
SymNum.__pow__ = _arith('power', n_pow)
SymNum.__rpow__ = _arith('power', n_pow, True)


def _divmod(self, o):
    return self // o, self % o


SymNum.__divmod__ = _divmod
SymNum.__rdivmod__ = lambda self, o: (o // self, o % self)


def _cmpm(name, op):

    def f(self, o):
        o0 = self._o(o)
        if o0 is None:
            if isinstance(o, _np.ndarray):
                from . import arr
                return arr.array_op(name, self, o)
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        return n_cmp(op, self, o0)

    return f


SymNum.__eq__ = _cmpm('equal', 'eq')
SymNum.__ne__ = _cmpm('not_equal', 'ne')
SymNum.__lt__ = _cmpm('less', 'lt')
SymNum.__le__ = _cmpm('less_equal', 'le')
SymNum.__gt__ = _cmpm('greater', 'gt')
SymNum.__ge__ = _cmpm('greater_equal', 'ge')


def _bitop(nm):

    def f(self, o):
        o = norm(o)
        if isinstance(o, (SymBool, _bool)):
            o = b_to_num(o)
        if self.k != 'i':
            return NotImplemented
        # small non-negative ranges only
        a, b = lift(self), (lift(o) if isinstance(o, (_int, SymNum)) else None)
        if b is None:
            return NotImplemented
        if None in (a.lo, a.hi, b.lo, b.hi) or a.lo < 0 or b.lo < 0:
            raise Unsupported('bit operation on unbounded or negative integer')
        n = max(a.hi.bit_length() if isinstance(a.hi, _int) else _int(a.hi).bit_length(), _int(b.hi).bit_length(), 1)
        x, y = z3.Int2BV(a.e, n), z3.Int2BV(b.e, n)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[nm]
        hi = (1 << n) - 1
        return SymNum(z3.BV2Int(r), 'i', None, 0, hi, 0)

    return f


SymNum.__and__ = SymNum.__rand__ = _bitop('and')
SymNum.__or__ = SymNum.__ror__ = _bitop('or')
SymNum.__xor__ = SymNum.__rxor__ = _bitop('xor')

# ---------------------------------------------------------------------------------------------------
# text tokens: a symbolic number written as text becomes a unique token which float() / int() resolve


def token(x, spec = None):
    if PATH is None:
        return f'<sym {x.e}>'
    p = PATH
    v = x
    if spec:
        nd = None
        s = spec.strip()
        if s and s[-1] in 'f' and '.' in s:
            nd = _int(s[s.index('.') + 1:-1])
        elif s and s[-1] == 'f':
            nd = 6
        if nd is not None:
            # written to nd decimal places: value within half a unit in the last place
            key = ('fmt', x.e.get_id(), nd)
            if key not in p.cache:
                r = p.fresh('r', 'fmt')
                half = Fraction(1, 2 * 10**nd)
                xe = lift(x, 'r').e
                p.add(z3.And(r - xe <= zconst(half, 'r'), xe - r <= zconst(half, 'r')))
                p.keep.append(x.e)
                p.cache[key] = SymNum(r, 'r', x.nan, None if x.lo is None else x.lo - half,
                                      None if x.hi is None else x.hi + half, None)
                p.rounded = True
            v = p.cache[key]
    t = f'\u27e6{len(p.tokens)}\u27e7'
    for k, w in p.tokens.items():
        if w is v:
            return k
    p.tokens[t] = v
    return t


def untoken(s):
    """symbolic value for text holding exactly one token, else None"""
    if PATH is None or not isinstance(s, _str):
        return None
    s = s.strip()
    if '\u27e6' not in s:
        return None
    if s in PATH.tokens:
        return PATH.tokens[s]
    if s.startswith('-') and s[1:] in PATH.tokens:
        return -PATH.tokens[s[1:]]
    raise Unsupported(f'text mixes a symbolic number with other characters: {s!r}')
