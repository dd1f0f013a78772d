"""Symbolic scalars and the path-forking engine."""
import math
import time
import zlib
from fractions import Fraction

import numpy as np

from .z3load import z3

# ---------------------------------------------------------------- engine ----

_E = None            # the active engine (one path at a time)


class PathEnd(BaseException):
    """Abandon the current path (assumption false, or resource limit)."""


class Divergence(BaseException):
    """Re-execution of a recorded prefix did not reproduce its decisions."""


class EngineLimit(BaseException):
    pass


def engine():
    return _E


class Stats:
    FIELDS = ('paths', 'ended_early', 'decisions', 'forks', 'implied', 'queries',
              'unknown', 'realised', 'obligations', 'discharged',
              'solver_s', 'truncated')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    """Executes one path of a harness given a prefix of recorded decisions."""

    def __init__(self, prefix=(), stats=None, query_ms=20000, max_decisions=6000,
                 deadline=None):
        self.prefix = list(prefix)
        self.trace = []           # list of [value, forked]
        self.pending = []         # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.query_ms = query_ms
        self.stats = stats or Stats()
        self.inputs = {}          # name -> (kind, z3 var)
        self.ranges = {}          # name -> declared (lo, hi)
        self.model = None         # a model of the current path condition, if known
        self.decided = {}
        self.leaves = {}          # term id -> (names below it, term)
        self.keep = []
        self.dead = False
        self.flags = set()
        self.trig = []            # (argument term, sin var, cos var)
        self.fresh_n = 0
        self.max_decisions = max_decisions
        self.deadline = deadline

    # -- solver access ----------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, term):
        self.solver.add(term)
        if self.model is not None:
            v = self.model.eval(term, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def fresh(self, kind, hint='t'):
        self.fresh_n += 1
        name = '!%s%d' % (hint, self.fresh_n)
        return {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[kind](name)

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            return r
        return z3.sat

    def assume(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return
        self.add(term)
        if self.model is None and len(self.trace) >= len(self.prefix):
            if self.ensure_model() == z3.unsat:
                self.dead = True
                raise PathEnd('assumption')

    def feasible(self, term):
        """True/False/None: can term hold on this path?"""
        if self.model is not None and z3.is_true(self.model.eval(term, model_completion=True)):
            return True
        r = self._check(term)
        if r == z3.sat:
            return True
        if r == z3.unsat:
            return False
        return None

    def must(self, term):
        """True when term is entailed by the path condition."""
        return self.feasible(z3.Not(term)) is False

    def branch(self, term):
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        neg = False
        if z3.is_not(term):
            term, neg = term.arg(0), True
        key = term.get_id()
        if key in self.decided:
            v = self.decided[key]
            return (not v) if neg else v
        if neg:
            # recorded and replayed as the caller stated it: which side of a
            # negation the simplifier returns may differ between runs
            self.keep.append(term)
            term = z3.Not(term)
        i = len(self.trace)
        if i >= self.max_decisions or (self.deadline and time.time() > self.deadline):
            # cannot raise through C frames reliably; mark and steer to True
            self.flags.add('truncated')
            raise PathEnd('limit')
        self.keep.append(term)
        self.stats.decisions += 1
        h = self.fingerprint(term)
        if i < len(self.prefix):
            value, forked, ph = self.prefix[i]
            if ph != h:
                self.flags.add('diverged')
                raise Divergence()
            self.trace.append((value, forked, h))
            if forked:
                self.add(term if value else z3.Not(term))
        else:
            t_ok = f_ok = None
            if self.model is not None:
                v = self.model.eval(term, model_completion=True)
                if z3.is_true(v):
                    t_ok = True
                elif z3.is_false(v):
                    f_ok = True
            tm = fm = None
            if t_ok is None:
                r = self._check(term)
                t_ok = (r != z3.unsat)
                if r == z3.sat:
                    tm = self.solver.model()
            elif t_ok:
                tm = self.model
            if f_ok is None:
                if t_ok is False:
                    f_ok = True
                else:
                    r = self._check(z3.Not(term))
                    f_ok = (r != z3.unsat)
                    if r == z3.sat:
                        fm = self.solver.model()
            elif f_ok:
                fm = self.model
            if t_ok and f_ok:
                self.stats.forks += 1
                value = True
                self.pending.append(list(self.trace) + [(False, True, h)])
                self.trace.append((True, True, h))
                self.solver.add(term)
                self.model = tm
            else:
                self.stats.implied += 1
                value = bool(t_ok)
                self.trace.append((value, False, h))
                if self.model is None:
                    self.model = tm if value else fm
        self.decided[key] = (not value) if neg else value
        return value

    def fingerprint(self, t):
        """Identifies a decision across runs by the variables and numbers it
        is about.  Nothing finer is stable: the simplifier orders operands, and
        picks the sign of an inequality, by when terms were created."""
        memo = self.leaves
        stack = [t]
        while stack:
            n = stack[-1]
            k = n.get_id()
            if k in memo:
                stack.pop()
                continue
            kids = n.children()
            todo = [c for c in kids if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if not kids:
                name = str(n).lstrip('-')
                memo[k] = (frozenset() if name in ('0', '1', 'True', 'False') else frozenset([name]), n)
            elif len(kids) == 1:
                memo[k] = (memo[kids[0].get_id()][0], n)
            else:
                memo[k] = (frozenset().union(*[memo[c.get_id()][0] for c in kids]), n)
        return zlib.crc32(' '.join(sorted(memo[t.get_id()][0])).encode())

    # -- realisation --------------------------------------------------------
    def realise(self, term, why, limit=None):
        """Fork over the concrete values of term (all of them, or `limit`)."""
        n = 0
        while True:
            if self.ensure_model() != z3.sat and len(self.trace) >= len(self.prefix):
                raise PathEnd('realise')
            if self.model is None:
                r = self._check()
                self.model = self.solver.model() if r == z3.sat else None
                if self.model is None:
                    raise PathEnd('realise')
            # Deterministic candidate: previously tried values are excluded by
            # the path condition, so record the candidate inside the trace.
            i = len(self.trace)
            if i < len(self.prefix) and isinstance(self.prefix[i][2], tuple):
                cand = self.prefix[i][2][1]
            else:
                cand = self.model.eval(term, model_completion=True)
                if z3.is_int_value(cand):
                    cand = cand.as_long()
                else:
                    cand = (cand if z3.is_rational_value(cand) else cand.approx(12)).as_fraction()
                cand = str(cand)
            fr = Fraction(cand)
            n += 1
            val = z3.IntVal(int(fr)) if term.sort() == z3.IntSort() else z3.RealVal(str(fr))
            cond = z3.simplify(term == val)
            if z3.is_true(cond):
                return fr
            last = limit is not None and n >= limit
            tag = ('r', cand)
            if i < len(self.prefix):
                value, forked, ph = self.prefix[i]
                if ph != tag:
                    self.flags.add('diverged')
                    raise Divergence()
                self.trace.append((value, forked, tag))
                self.add(cond if value else z3.Not(cond))
                if value:
                    return fr
                continue
            other = True if last else self.feasible(z3.Not(cond))
            if other is False:
                self.trace.append((True, False, tag))
                return fr
            if last:
                self.flags.add('realised')
                self.stats.realised += 1
                self.trace.append((True, True, tag))
                self.add(cond)
                return fr
            self.pending.append(list(self.trace) + [(False, True, tag)])
            self.trace.append((True, True, tag))
            self.add(cond)
            return fr


def bounds(x):
    """(smallest, largest) value of a number on the current path; None where
    that is not established."""
    if not is_sym(x):
        return float(x), float(x)
    out = []
    for sense in ('minimize', 'maximize'):
        o = z3.Optimize()
        o.set('timeout', 5000)
        o.add(_E.solver.assertions())
        h = getattr(o, sense)(real_term(x))
        t0 = time.time()
        r = o.check()
        _E.stats.solver_s += time.time() - t0
        _E.stats.queries += 1
        v = None
        if r == z3.sat:
            e = z3.simplify(h.value())
            if z3.is_rational_value(e):
                v = float(e.as_fraction())
        out.append(v)
    return tuple(out)


def activate(eng):
    global _E
    _E = eng


# ---------------------------------------------------------------- helpers ---

def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def _isnanf(x):
    return isinstance(x, (float, np.floating)) and x != x


def _isinff(x):
    return isinstance(x, (float, np.floating)) and x in (math.inf, -math.inf)


def special(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (math.inf, -math.inf))


def to_frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.floating) and not isinstance(x, float):
        return Fraction(str(x))
    return Fraction(repr(float(x)))


def numlike(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction)) or is_sym(x)


def term_of(x):
    """z3 term (Int or Real sort) of a number."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return z3.RealVal(str(to_frac(x)))


def real_term(x):
    t = term_of(x)
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def bool_term(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return x.e != 0
    return z3.BoolVal(bool(x))


def wrap(t):
    """Wrap a z3 term, folding constants back to Python numbers."""
    if z3.is_bool(t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return t.as_long()
        return SymInt(t)
    return SymReal(t)


def _pair(a, b):
    ta, tb = term_of(a), term_of(b)
    if ta.sort() != tb.sort():
        if ta.sort() == z3.IntSort():
            ta = z3.ToReal(ta)
        else:
            tb = z3.ToReal(tb)
    return ta, tb


def ite(c, a, b):
    """Merge without forking where possible."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if z3.is_true(c.e):
        return a
    if z3.is_false(c.e):
        return b
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return wrap(z3.simplify(z3.If(c.e, bool_term(a), bool_term(b))))
    if numlike(a) and numlike(b) and not special(a) and not special(b):
        ta, tb = _pair(a, b)
        if ta.eq(tb):
            return a
        return wrap(z3.If(c.e, ta, tb))
    return a if bool(c) else b


def s_and(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if not isinstance(a, SymBool):
            return b if a else False
        if not isinstance(b, SymBool):
            return a if b else False
        return SymBool(z3.And(a.e, b.e))
    return a & b


def s_or(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if not isinstance(a, SymBool):
            return True if a else b
        if not isinstance(b, SymBool):
            return True if b else a
        return SymBool(z3.Or(a.e, b.e))
    return a | b


def s_not(a):
    if isinstance(a, SymBool):
        return SymBool(z3.Not(a.e))
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def s_min(a, b):
    if special(a) or special(b):
        if _isnanf(a) or _isnanf(b):
            return math.nan
        if _isinff(a):
            return b if a > 0 else a
        return a if b > 0 else b
    if not is_sym(a) and not is_sym(b):
        return b if b < a else a
    return ite(s_le(a, b), a, b)


def s_max(a, b):
    if special(a) or special(b):
        if _isnanf(a) or _isnanf(b):
            return math.nan
        if _isinff(a):
            return a if a > 0 else b
        return b if b > 0 else a
    if not is_sym(a) and not is_sym(b):
        return b if b > a else a
    return ite(s_ge(a, b), a, b)


def _cmp(op, a, b):
    if special(a) or special(b):
        if _isnanf(a) or _isnanf(b):
            return op == '!='
        fa = float(a) if not is_sym(a) else 0.0
        fb = float(b) if not is_sym(b) else 0.0
        return {'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb,
                '==': fa == fb, '!=': fa != fb}[op]
    ta, tb = _pair(a, b)
    r = {'<': lambda: ta < tb, '<=': lambda: ta <= tb, '>': lambda: ta > tb,
         '>=': lambda: ta >= tb, '==': lambda: ta == tb, '!=': lambda: ta != tb}[op]()
    if ta.eq(tb):
        return op in ('<=', '>=', '==')
    if z3.is_bool(r):
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
    return SymBool(r)


def s_le(a, b):
    return _cmp('<=', a, b)


def s_ge(a, b):
    return _cmp('>=', a, b)


def s_lt(a, b):
    return _cmp('<', a, b)


def s_gt(a, b):
    return _cmp('>', a, b)


def s_eq(a, b):
    return _cmp('==', a, b)


def _sign_fork(x):
    """-1, 0, 1 with forks."""
    if bool(s_gt(x, 0)):
        return 1
    if bool(s_eq(x, 0)):
        return 0
    return -1


def _arith(op, a, b):
    if special(a) or special(b):
        if _isnanf(a) or _isnanf(b):
            return math.nan
        if op == '+':
            if _isinff(a) and _isinff(b):
                return float(a) + float(b)
            return float(a) if _isinff(a) else float(b)
        if op == '-':
            return float(a) if _isinff(a) else -float(b)
        if op == '*':
            inf, other = (a, b) if _isinff(a) else (b, a)
            s = _sign_fork(other)
            return math.nan if s == 0 else float(inf) * s
        if op == '/':
            if _isinff(b):
                return math.nan if _isinff(a) else 0.0
            s = _sign_fork(b)
            return float(a) * (s or 1)
        return math.nan
    ta, tb = _pair(a, b)
    if op == '+':
        return wrap(_simp(ta + tb))
    if op == '-':
        return wrap(_simp(ta - tb))
    if op == '*':
        return wrap(_simp(ta * tb))
    if op == '/':
        if isinstance(b, SymBool) or is_sym(b):
            if bool(s_eq(b, 0)):
                s = _sign_fork(a) if is_sym(a) else (a > 0) - (a < 0)
                return math.nan if s == 0 else math.inf * s
        elif b == 0:
            s = _sign_fork(a) if is_sym(a) else (a > 0) - (a < 0)
            return math.nan if s == 0 else math.inf * s
        return wrap(_simp(real_term(a) / real_term(b)))
    if op == '//':
        if not is_sym(b) and b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if ta.sort() == z3.IntSort():
            if not is_sym(b) and b > 0 or is_sym(b) and bool(s_gt(b, 0)):
                return wrap(_simp(ta / tb))
            if is_sym(b) and bool(s_eq(b, 0)):
                raise ZeroDivisionError('integer division or modulo by zero')
            return wrap(_simp((-ta) / (-tb)))
        q = _arith('/', a, b)
        return s_floor(q, as_float=True)
    if op == '%':
        q = _arith('//', a, b)
        return _arith('-', a, _arith('*', q, b))
    raise NotImplementedError(op)


def _simp(t):
    # keep terms small, but avoid repeated whole-term simplification
    d = t.decl().kind()
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DIV):
        for i in range(t.num_args()):
            c = t.arg(i)
            if z3.is_rational_value(c) or z3.is_int_value(c):
                return z3.simplify(t)
    return t


def s_div(a, b):
    """numpy's division: never raises."""
    if is_sym(a) or is_sym(b):
        return _arith('/', a, b)
    try:
        return a / b
    except ZeroDivisionError:
        if isinstance(a, Fraction) or a == a:
            return math.nan if a == 0 else (math.inf if a > 0 else -math.inf)
        return math.nan


def s_floor(x, as_float=False):
    if not is_sym(x):
        return float(math.floor(x)) if as_float and not special(x) else (x if special(x) else math.floor(x))
    t = term_of(x)
    if t.sort() == z3.IntSort():
        return x
    r = z3.ToInt(t)
    return SymReal(z3.ToReal(r)) if as_float else wrap(r)


def s_trunc_int(x):
    """int(x)"""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return wrap(term_of(x))
    if isinstance(x, SymReal):
        t = x.e
        if _E is not None:
            if _E.must(t >= 0):
                return wrap(_simplify_toint(t))
            if _E.must(t <= 0):
                return wrap(-z3.ToInt(-t))
        return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return int(x)


def _simplify_toint(t):
    r = z3.simplify(z3.ToInt(t))
    return r


def s_rint(x):
    if not is_sym(x):
        return x if special(x) else float(np.rint(float(x)))
    t = real_term(x)
    r = z3.ToInt(t + z3.RealVal('1/2'))
    tie = z3.ToReal(r) == t + z3.RealVal('1/2')
    r2 = z3.If(z3.And(tie, r % 2 == 1), r - 1, r)
    return SymReal(z3.ToReal(r2))


def s_abs(x):
    if not is_sym(x):
        return abs(x)
    t = term_of(x)
    return wrap(z3.If(t >= 0, t, -t))


# ---------------------------------------------------------------- scalars ---

_SAVED = []


def _saved(k):
    return _SAVED[k]


class _Ops:
    __slots__ = ()

    def __reduce__(self):
        # saved and loaded within one path
        _SAVED.append(self)
        return _saved, (len(_SAVED) - 1,)

    def _bin(self, op, other, swap=False):
        if not numlike(other):
            if isinstance(other, np.ndarray):
                from .symnp import elementwise
                return elementwise(op, self, other, swap)
            return NotImplemented
        return _arith(op, other, self) if swap else _arith(op, self, other)

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __truediv__(self, o): return self._bin('/', o)
    def __rtruediv__(self, o): return self._bin('/', o, True)
    def __floordiv__(self, o): return self._bin('//', o)
    def __rfloordiv__(self, o): return self._bin('//', o, True)
    def __mod__(self, o): return self._bin('%', o)
    def __rmod__(self, o): return self._bin('%', o, True)

    def __divmod__(self, o):
        q = self._bin('//', o)
        return q, self - q * o

    def __pow__(self, o):
        if is_sym(o):
            o = Fraction(_E.realise(term_of(o), 'pow'))
        if isinstance(o, np.ndarray):
            from .symnp import elementwise
            return elementwise('**', self, o, False)
        f = to_frac(o) if not isinstance(o, Fraction) else o
        if f.denominator == 1:
            n = int(f)
            r = 1
            for _ in range(abs(n)):
                r = r * self
            return r if n >= 0 else 1 / r
        if f == Fraction(1, 2):
            return s_sqrt(self)
        return NotImplemented

    def __rpow__(self, o):
        e = Fraction(_E.realise(term_of(self), 'pow'))
        return o ** (int(e) if e.denominator == 1 else float(e))

    def _c(self, op, other):
        if not numlike(other):
            if isinstance(other, np.ndarray):
                from .symnp import elementwise
                return elementwise(op, self, other, False)
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        return _cmp(op, self, other)

    def __lt__(self, o): return self._c('<', o)
    def __le__(self, o): return self._c('<=', o)
    def __gt__(self, o): return self._c('>', o)
    def __ge__(self, o): return self._c('>=', o)
    def __eq__(self, o): return self._c('==', o)
    def __ne__(self, o): return self._c('!=', o)

    def __hash__(self):
        return 7

    def __neg__(self): return _arith('*', self, -1)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)

    def __float__(self):
        return float(_E.realise(real_term(self), 'float()', limit=3))

    def __int__(self):
        return int(_E.realise(term_of(s_trunc_int(self)), 'int()', limit=40))

    def __index__(self):
        t = term_of(self)
        if t.sort() != z3.IntSort():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(_E.realise(t, 'index', limit=40))

    def __trunc__(self): return s_trunc_int(self)
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return -s_floor(-self)

    def __round__(self, n=None):
        if n is None:
            return s_trunc_int(s_rint(self))
        m = 10 ** n
        return s_rint(self * m) / m

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<%s>' % type(self).__name__

    __str__ = __repr__

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


    # numpy object-ufunc method protocol
    def sqrt(self): return s_sqrt(self)
    def sin(self): return s_sin(self)
    def cos(self): return s_cos(self)
    def tan(self): return s_tan(self)
    def arctan(self): return s_arctan(self)
    def arcsin(self): return s_arcsin(self)
    def radians(self): return s_radians(self)
    deg2rad = radians
    def degrees(self): return self * 180 / Fraction(repr(math.pi))
    rad2deg = degrees
    def rint(self): return s_rint(self)
    def floor(self): return s_floor(self, True)
    def ceil(self): return -s_floor(-self, True)
    def trunc(self): return SymReal(real_term(s_trunc_int(self)))
    def fabs(self): return s_abs(self)
    def conjugate(self): return self
    def isnan(self): return False
    def square(self): return self * self
    def item(self): return self
    def copy(self): return self
    def is_integer(self):
        return wrap(z3.IsInt(real_term(self))) if isinstance(self, SymReal) else True

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    # numpy-scalar-like attributes the repository code may touch
    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    @property
    def size(self): return 1

    def astype(self, dtype, *a, **k):
        from .symnp import cast
        return cast(self, np.dtype(dtype))


TOKENS = {}      # numerals standing for symbolic values in text files


class SymNum(_Ops):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _E.branch(self.e != 0)


class SymInt(SymNum):
    __slots__ = ()
    __hash__ = _Ops.__hash__

    def __and__(self, o):
        # a run of low bits
        if isinstance(o, (int, np.integer)) and o >= 0 and (o & (o + 1)) == 0:
            return self % int(o + 1)
        return NotImplemented
    __rand__ = __and__

    def __lshift__(self, o):
        if isinstance(o, (int, np.integer)):
            return self * (1 << int(o))
        return NotImplemented

    def __rshift__(self, o):
        if isinstance(o, (int, np.integer)):
            return self // (1 << int(o))
        return NotImplemented


class SymReal(SymNum):
    __slots__ = ()
    __hash__ = _Ops.__hash__


class SymBool(_Ops):
    __slots__ = ('e',)
    __hash__ = _Ops.__hash__

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _E.branch(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            from .symnp import elementwise
            return elementwise('&', self, o, False)
        if isinstance(o, (bool, np.bool_, SymBool)):
            return s_and(self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            from .symnp import elementwise
            return elementwise('|', self, o, False)
        if isinstance(o, (bool, np.bool_, SymBool)):
            return s_or(self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, bool_term(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def any(self, *a, **k): return self
    def all(self, *a, **k): return self


# ---------------------------------------------------------------- maths -----

def folded(x):
    """Symbolic constants as floats."""
    if is_sym(x):
        t = z3.simplify(real_term(x), som=True)
        if z3.is_rational_value(t):
            return float(t.as_fraction())
    return x


def s_sqrt(x):
    x = folded(x)
    if not is_sym(x):
        if special(x):
            return float(np.sqrt(x))
        return math.sqrt(x) if x >= 0 else math.nan
    if bool(s_lt(x, 0)):
        return math.nan
    for arg, r in _E.__dict__.setdefault('sqrts', []):
        if arg.eq(real_term(x)):
            return SymReal(r)
    r = _E.fresh('real', 'sqrt')
    t = real_term(x)
    _E.sqrts.append((t, r))
    _E.solver.add(r >= 0, r * r == t)
    _E.model = None
    return SymReal(r)


PI = Fraction(repr(math.pi))


def _sincos(x):
    t = z3.simplify(real_term(x), som=True)
    for arg, s, c in _E.trig:
        if arg.eq(t):
            return s, c
    for arg, s, c in _E.trig:
        d = z3.simplify(arg - t, som=True)
        if z3.is_rational_value(d):
            k = d.as_fraction() / PI
            if k.denominator == 1:
                # same angle up to a multiple of half a turn
                return (s, c) if k % 2 == 0 else (-s, -c)
            continue
        m = z3.simplify(arg + t, som=True)
        if z3.is_rational_value(m) and m.as_fraction() == 0:
            return -s, c
        if _linear_equal(arg, t):
            return s, c
        if _linear_equal(arg, -t):
            return -s, c
    s, c = _E.fresh('real', 'sin'), _E.fresh('real', 'cos')
    _E.solver.add(s * s + c * c == 1)
    if z3.is_rational_value(t) and t.as_fraction() == 0:
        _E.solver.add(s == 0, c == 1)
    _E.trig.append((t, s, c))
    _E.model = None
    return s, c


def _linear_equal(a, b):
    """Entailed equality of two angle terms, asked of the linear part only."""
    hook = getattr(_E, 'angle_equal', None)
    return bool(hook and hook(a, b))


def s_sin(x):
    x = folded(x)
    if not is_sym(x):
        return math.sin(x)
    return SymReal(_sincos(x)[0])


def s_cos(x):
    x = folded(x)
    if not is_sym(x):
        return math.cos(x)
    return SymReal(_sincos(x)[1])


def s_tan(x):
    x = folded(x)
    if not is_sym(x):
        return math.tan(x)
    s, c = _sincos(x)
    return SymReal(s) / SymReal(c)


def s_arctan(x):
    x = folded(x)
    if not is_sym(x):
        return math.atan(x)
    t = real_term(x)
    for arg, a in _E.__dict__.setdefault('atans', []):
        if arg.eq(t):
            return SymReal(a)
    a = _E.fresh('real', 'atan')
    s, c = _E.fresh('real', 'sin'), _E.fresh('real', 'cos')
    _E.solver.add(s * s + c * c == 1, c > 0, s == t * c)
    _E.trig.append((a, s, c))
    _E.atans.append((t, a))
    _E.model = None
    return SymReal(a)


def s_arcsin(x):
    x = folded(x)
    if not is_sym(x):
        return math.asin(x) if -1 <= x <= 1 else math.nan
    t = real_term(x)
    for arg, a in _E.__dict__.setdefault('asins', []):
        if arg.eq(t):
            return SymReal(a)
    a = _E.fresh('real', 'asin')
    s, c = _E.fresh('real', 'sin'), _E.fresh('real', 'cos')
    _E.solver.add(s * s + c * c == 1, c >= 0, s == t)
    _E.trig.append((a, s, c))
    _E.asins.append((t, a))
    _E.model = None
    return SymReal(a)


def s_arctan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return math.atan2(y, x)
    ty, tx = real_term(y), real_term(x)
    a = _E.fresh('real', 'atan2')
    s, c = _E.fresh('real', 'sin'), _E.fresh('real', 'cos')
    r = _E.fresh('real', 'hyp')
    _E.solver.add(s * s + c * c == 1, r > 0, r * s == ty, r * c == tx)
    _E.trig.append((a, s, c))
    _E.model = None
    return SymReal(a)


def s_radians(x):
    if not is_sym(x):
        return math.radians(x)
    return x * Fraction(repr(math.pi)) / 180
