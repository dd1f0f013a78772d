"""Scenario contexts: the same harness text runs symbolically and concretely."""
import importlib
import math
import traceback
from fractions import Fraction

import numpy as np

TOL = 1e-7


class AssumeFailed(Exception):
    """Concrete mode: the inputs do not satisfy the scenario's bounds."""


class Violated(Exception):
    def __init__(self, label, detail=''):
        super().__init__('%s %s' % (label, detail))
        self.label = label
        self.detail = detail


class Scenario:
    def __init__(self, name, fn, params, tier, covers, bounds):
        self.name, self.fn, self.params = name, fn, params
        self.tier, self.covers, self.bounds = tier, covers, bounds


class Registry(list):
    """Per-property list of scenarios; used as a decorator factory."""

    def scenario(self, bounds, tier='quick', covers=(), **params):
        def deco(fn):
            name = fn.__name__
            if params:
                name += '[' + ','.join('%s=%s' % (k, _short(v)) for k, v in sorted(params.items())) + ']'
            self.append(Scenario(name, fn, params, tier, tuple(covers), bounds))
            return fn
        return deco


def _short(v):
    s = str(v).replace(' ', '')
    return s if len(s) < 40 else s[:37] + '...'


class Base:
    symbolic = False

    def mod(self, name):
        return importlib.import_module(name)

    def script(self, path):
        """A script of the repository as a module (not run as main)."""
        from . import loader
        return loader.load_script(path, self.symbolic)

    def cover(self, label):
        self.covered.add(label)

    # -- derived conveniences, written in terms of the primitive operations --
    def reals(self, name, n, lo, hi, **k):
        return [self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def check_all(self, label, pairs):
        for p in pairs:
            self.check(label, p)

    def check_seq(self, label, got, want, tol=TOL):
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.check(label, False, 'length %d, expected %d' % (len(got), len(want)))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            self.close(label + '[%d]' % i, g, w, tol)


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.covered = set()
        self.observed = []
        self.n_checks = 0
        self.np = np

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None, nan=False):
        v = self._get(name, lo if lo is not None else 0)
        if v == 'nan':
            return math.nan
        return float(Fraction(v))

    def int(self, name, lo, hi):
        return int(Fraction(self._get(name, lo)))

    def angle(self, name, lo, hi):
        """An angle in degrees, strictly inside (-180, 180).  Its input is the
        tangent of the half angle, which fixes sine and cosine algebraically."""
        return math.degrees(2 * math.atan(self.real(name, math.tan(math.radians(lo) / 2), None)))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        return options[int(Fraction(self._get(name, 0)))]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, label, cond, detail=''):
        self.n_checks += 1
        if not bool(cond):
            raise Violated(label, detail)

    def close(self, label, a, b, tol=TOL):
        self.n_checks += 1
        a, b = float(a), float(b)
        if a != a or b != b:
            if (a != a) != (b != b):
                raise Violated(label, 'got %r expected %r' % (a, b))
            return
        if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
            if a != b:
                raise Violated(label, 'got %r expected %r' % (a, b))
            return
        if abs(a - b) > tol * max(1.0, abs(b)):
            raise Violated(label, 'got %r expected %r' % (a, b))

    def identity(self, label, a, b, tol=TOL):
        self.close(label, a, b, tol)

    def same_bool(self, label, a, b):
        self.check(label, bool(a) == bool(b), 'got %r expected %r' % (a, b))

    def observe(self, label, value):
        self.observed.append((label, _obs(value)))

    def text(self, v):
        """A number as written in a text file."""
        return repr(v)

    def farray(self, vals, shape=None, dtype='f8'):
        a = np.array([float(v) for v in vals], dtype=dtype)
        return a.reshape(shape) if shape is not None else a

    def iarray(self, vals, dtype='i8', shape=None):
        a = np.array([int(v) for v in vals], dtype=dtype)
        return a.reshape(shape) if shape is not None else a

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def implies(self, a, b):
        return (not a) or b

    def isnan(self, x):
        return x != x

    def decide(self, c):
        return bool(c)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)


def _obs(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [_obs(x) for x in v.reshape(-1).tolist()]
    if isinstance(v, (list, tuple)):
        return [_obs(x) for x in v]
    return str(v)


def run_concrete(scn, inputs):
    """Execute a scenario on the real code; classify the outcome."""
    import warnings
    from . import loader
    loader.forget()
    ctx = ConcreteCtx(inputs)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            scn.fn(ctx, **scn.params)
        except AssumeFailed:
            return {'status': 'assume'}
        except Violated as v:
            return {'status': 'violation', 'label': v.label, 'detail': str(v.detail)[:500]}
        except Exception as e:
            return {'status': 'exception', 'label': type(e).__name__,
                    'detail': (str(e)[:300] + ' @ ' + _where(e))}
    return {'status': 'ok', 'observed': ctx.observed, 'covered': sorted(ctx.covered),
            'checks': ctx.n_checks}


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/glmtools/' in f.filename or '/examples/' in f.filename] or tb
    return '%s:%s' % (fr[-1].filename.split('/glmtools/')[-1], fr[-1].name)


def exception_in_code(e):
    """True when the exception was raised in, or propagated through, glmtools
    or a library it called (as opposed to the harness text itself)."""
    tb = traceback.extract_tb(e.__traceback__)
    return any('/glmtools/' in f.filename or '/examples/' in f.filename for f in tb)


# ---------------------------------------------------------------- symbolic --

class SymCtx(Base):
    symbolic = True

    def __init__(self, eng):
        from . import core, symnp
        self.core, self.S = core, symnp
        self.eng = eng
        self.covered = set()
        self.observed = []
        self.obligations = []
        self.np = symnp.symnp
        core.TOKENS.clear()

    def _declare(self, name, kind, lo=None, hi=None):
        z3 = self.core.z3
        if name in self.eng.inputs:
            raise ValueError('duplicate input ' + name)
        v = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[kind](name)
        self.eng.inputs[name] = (kind, v)
        self.eng.ranges[name] = (lo, hi)
        return v

    def real(self, name, lo=None, hi=None, nan=False):
        z3 = self.core.z3
        if nan:
            isn = self._declare(name + '?nan', 'bool')
            if self.eng.branch(isn):
                self.eng.inputs[name] = ('nan', None)
                return math.nan
        v = self._declare(name, 'real', lo, hi)
        if lo is not None:
            self.eng.solver.add(v >= self.core.term_of(Fraction(repr(float(lo)))))
        if hi is not None:
            self.eng.solver.add(v <= self.core.term_of(Fraction(repr(float(hi)))))
        self.eng.model = None
        return self.core.SymReal(v)

    def int(self, name, lo, hi):
        v = self._declare(name, 'int', lo, hi)
        self.eng.solver.add(v >= lo, v <= hi)
        self.eng.model = None
        if lo == hi:
            return lo
        return self.core.SymInt(v)

    def angle(self, name, lo, hi):
        core = self.core
        t = self.real(name, math.tan(math.radians(lo) / 2), math.tan(math.radians(hi) / 2)).e
        a, sn, cs = (self.eng.fresh('real', k) for k in ('deg', 'sin', 'cos'))
        self.eng.solver.add(a >= core.term_of(Fraction(repr(float(lo)))), a <= core.term_of(Fraction(repr(float(hi)))),
                            sn * (1 + t * t) == 2 * t, cs * (1 + t * t) == 1 - t * t,
                            z3_and_sign(core.z3, t, a))
        self.eng.trig.append((core.z3.simplify(core.s_radians(core.SymReal(a)).e, som=True), sn, cs))
        self.eng.model = None
        return core.SymReal(a)

    def bool(self, name):
        return self.core.SymBool(self._declare(name, 'bool'))

    def choice(self, name, options):
        options = list(options)
        v = self._declare(name, 'int')
        self.eng.solver.add(v >= 0, v < len(options))
        self.eng.model = None
        for i in range(len(options) - 1):
            if self.eng.branch(v == i):
                return options[i]
        return options[-1]

    def assume(self, cond):
        self.eng.assume(self.core.bool_term(cond))

    def check(self, label, cond, detail=''):
        self.obligations.append((label, self.core.bool_term(cond), str(detail)))

    def close(self, label, a, b, tol=TOL):
        core, z3 = self.core, self.core.z3
        a, b = _item(a), _item(b)
        if not core.is_sym(a) and not core.is_sym(b):
            try:
                a, b = float(a), float(b)
            except (TypeError, ValueError):
                return self.check(label, a == b, 'got %r expected %r' % (a, b))
            if a != a or b != b:
                return self.check(label, (a != a) == (b != b), 'got %r expected %r' % (a, b))
            if core.special(a) or core.special(b):
                return self.check(label, a == b, 'got %r expected %r' % (a, b))
            return self.check(label, abs(a - b) <= tol * max(1.0, abs(b)),
                              'got %r expected %r' % (a, b))
        if core.special(a) or core.special(b):
            return self.check(label, False, 'got %r expected %r' % (a, b))
        if not core.numlike(a) or not core.numlike(b):
            return self.check(label, False, 'got %r expected %r' % (a, b))
        ta, tb = core._pair(a, b)
        if ta.eq(tb):
            return self.check(label, True)
        if ta.sort() == z3.IntSort():
            return self.check(label, core.SymBool(ta == tb))
        d = z3.simplify(ta - tb, som=True)
        if z3.is_rational_value(d) and abs(d.as_fraction()) <= Fraction(tol):
            return self.check(label, True)
        # twice the replay tolerance, so a counterexample is not a rounding artefact;
        # the tolerance is relative to max(1, |expected|) as in the replay
        t = core.term_of(Fraction(repr(2 * tol)))
        one = z3.RealVal(1)
        mag = z3.If(tb >= 0, tb, -tb)
        bound = t * z3.If(mag > one, mag, one)
        self.check(label, core.SymBool(z3.And(d <= bound, -d <= bound)))

    def identity(self, label, a, b, tol=TOL):
        """Exact equality, which implies closeness.  Refuted equality that the
        real code meets within `tol` is inconclusive."""
        core = self.core
        ta, tb = core._pair(a, b)
        self.obligations.append((label, ta == tb, 'soft'))

    def same_bool(self, label, a, b):
        self.check(label, self.core.SymBool(self.core.bool_term(a) == self.core.bool_term(b)))

    def observe(self, label, value):
        self.observed.append((label, value))

    def text(self, v):
        if not self.core.is_sym(v):
            return repr(v)
        # a numeral that occurs nowhere else; the builtins float and int give back the value
        t = str(700000001 + 2 * len(self.core.TOKENS)) + ('' if isinstance(v, self.core.SymInt) else '.25')
        self.core.TOKENS[t] = v
        return t

    def farray(self, vals, shape=None, dtype='f8'):
        vals = list(vals)
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = self.S.cast(v, np.dtype('f8'))
        a = a.reshape(shape) if shape is not None else a
        return a.view(self.S.SymArray)

    def iarray(self, vals, dtype='i8', shape=None):
        vals = list(vals)
        if not any(self.core.is_sym(v) for v in vals):
            a = np.array(vals, dtype=dtype)
            return a.reshape(shape) if shape is not None else a
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        a = a.reshape(shape) if shape is not None else a
        return a.view(self.S.SymArray)

    def and_(self, *c):
        return self.core.SymBool(self.core.z3.And([self.core.bool_term(x) for x in c]))

    def or_(self, *c):
        return self.core.SymBool(self.core.z3.Or([self.core.bool_term(x) for x in c]))

    def not_(self, c):
        return self.core.SymBool(self.core.z3.Not(self.core.bool_term(c)))

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def isnan(self, x):
        return (not self.core.is_sym(x)) and x != x

    def decide(self, c):
        """Fork on a condition inside the oracle."""
        return bool(c)

    def min(self, a, b):
        return self.core.s_min(a, b)

    def max(self, a, b):
        return self.core.s_max(a, b)


def z3_and_sign(z3, t, a):
    return z3.And((t > 0) == (a > 0), (t < 0) == (a < 0))


def _item(x):
    if isinstance(x, np.ndarray):
        return x.reshape(-1).view(np.ndarray)[0] if x.dtype == object else x.reshape(-1)[0].item()
    if hasattr(x, 'dims') and hasattr(x, 'values'):
        return _item(np.asarray(x.values))
    return x
