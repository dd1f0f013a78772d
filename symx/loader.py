"""Loads the repository's packages from the current working tree.

Symbolic mode compiles every glmtools source file afresh and executes it with
`numpy`, `pyclipper` and a few builtins replaced by their symbolic stand-ins.
Concrete mode is the ordinary import machinery.  Both add the `lmatools`
stand-in package, because that dependency is not installed here.
"""
import builtins
import importlib.abc
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
STUBS = os.path.join(HERE, 'stubs')

# modules whose float constants are taken as exact rationals
EXACT = ('glmtools.io.lightning_ellipse',)

sources = {}       # module name -> path, as executed
_compiled = {}     # path -> code, within one process


def setup_concrete():
    sys.dont_write_bytecode = True
    for p in (STUBS, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


class _SymMeta(type):
    def __instancecheck__(cls, x):
        from .core import SymInt, SymReal
        if isinstance(x, cls.real):
            return True
        return isinstance(x, {int: SymInt, float: SymReal}[cls.real])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __call__(cls, *a, **k):
        from .core import is_sym, s_trunc_int, SymReal, real_term
        from .symnp import SymArray
        if len(a) == 1:
            x = a[0]
            if isinstance(x, str):
                from .core import TOKENS
                v = TOKENS.get(x.strip())
                if v is None:
                    return cls.real(x)
                if cls.real is float:
                    return v if isinstance(v, SymReal) else SymReal(real_term(v))
                if isinstance(v, SymReal):
                    return cls.real(x)        # not an integer: raises
                return v
            if hasattr(x, 'dims') and hasattr(x, 'values'):
                x = x.values
            import numpy as np
            if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
                x = x.reshape(-1).view(np.ndarray)[0]
            if is_sym(x):
                if cls.real is int:
                    return s_trunc_int(x)
                return x if isinstance(x, SymReal) else SymReal(real_term(x))
            return cls.real(x)
        return cls.real(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


def _mk(real):
    import numpy as np

    class T(metaclass=_SymMeta):
        pass
    T.real = real
    T.dtype = np.dtype(real)
    T.np_dtype = np.dtype(real)
    T.__name__ = real.__name__
    return T


def _sym_minmax(name):
    real = getattr(builtins, name)
    from .core import s_min, s_max, is_sym, numlike
    f = {'min': s_min, 'max': s_max}[name]

    def mm(*a, **k):
        if k:
            return real(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if items and any(is_sym(v) for v in items) and all(numlike(v) for v in items):
            r = items[0]
            for v in items[1:]:
                r = f(r, v)
            return r
        return real(items)
    return mm


def _sym_isinstance(real_isinstance):
    import numbers
    import numpy as np
    from .core import is_sym, SymInt, SymReal, SymBool

    def isinst(x, t):
        if is_sym(x):
            ts = t if real_isinstance(t, tuple) else (t,)
            for c in ts:
                if real_isinstance(x, SymInt) and c in (np.integer, numbers.Integral, numbers.Number, int):
                    return True
                if real_isinstance(x, SymReal) and c in (np.floating, numbers.Real, numbers.Number, float, np.float64):
                    return True
                if real_isinstance(x, SymBool) and c in (bool, np.bool_):
                    return True
        return real_isinstance(x, t)
    return isinst


def symbolic_builtins():
    from . import symnp as S
    from . import rewrite
    from .pyclip import make_module as make_clip
    d = dict(vars(builtins))
    real_import = builtins.__import__
    clip = make_clip()
    from .interp import make_module as make_interp
    interp = make_interp()

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == 'numpy':
                return S.symnp
            if name.startswith('numpy.') and not fromlist:
                return S.symnp
            if name == 'pyclipper':
                return clip
            if name == 'scipy.interpolate' and fromlist:
                return interp
            if name == 'math':
                return _symmath()
        return real_import(name, globals, locals, fromlist, level)
    d['__import__'] = imp
    d['int'] = _mk(int)
    d['float'] = _mk(float)
    d['min'] = _sym_minmax('min')
    d['max'] = _sym_minmax('max')
    d['isinstance'] = _sym_isinstance(isinstance)
    d.update(rewrite.HELPERS)
    return d


_math_mod = None


def _symmath():
    global _math_mod
    if _math_mod is None:
        import math
        import types
        from . import core
        from .symnp import _UN
        m = types.ModuleType('math')
        m.__dict__.update({k: v for k, v in vars(math).items() if not k.startswith('__')})

        def one(name, f):
            real = getattr(math, name)

            def g(x):
                return f(x) if core.is_sym(x) else real(x)
            return g
        for n, u in (('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
                     ('atan', 'arctan'), ('asin', 'arcsin'), ('radians', 'radians'),
                     ('fabs', 'fabs'), ('isnan', 'isnan'), ('isfinite', 'isfinite')):
            setattr(m, n, one(n, _UN[u]))
        m.floor = one('floor', core.s_floor)
        m.ceil = one('ceil', lambda x: -core.s_floor(-x))
        _math_mod = m
    return _math_mod


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.bi = symbolic_builtins()

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in ('glmtools', 'lmatools'):
            return None
        rel = os.path.join(REPO if top == 'glmtools' else STUBS, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            return importlib.util.spec_from_file_location(
                name, os.path.join(rel, '__init__.py'), loader=self,
                submodule_search_locations=[rel])
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(name, rel + '.py', loader=self)
        if os.path.isdir(rel):
            return importlib.util.spec_from_file_location(
                name, None, loader=self, submodule_search_locations=[rel])
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = self.bi
        path = module.__spec__.origin
        if not path or not os.path.exists(path):
            return
        if module.__name__.split('.')[0] == 'glmtools':
            sources[module.__name__] = path
        if path not in _compiled:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            from . import rewrite
            _compiled[path] = compile(rewrite.rewrite(src, path, module.__name__ in EXACT), path, 'exec', dont_inherit=True)
        exec(_compiled[path], module.__dict__)


def forget():
    """Drops the loaded modules, so that the next import starts afresh."""
    for k in [k for k in sys.modules if k.split('.')[0] in ('glmtools', 'lmatools')]:
        del sys.modules[k]


def load_script(rel, symbolic):
    """Executes a script with any files it opens by relative name, and any
    logging it sets up, kept away from the caller."""
    import logging
    import shutil
    import tempfile
    import types
    path = os.path.join(REPO, rel)
    with open(path, encoding='utf-8') as f:
        src = f.read()
    m = types.ModuleType('script_' + os.path.basename(rel)[:-3])
    m.__file__ = path
    if symbolic:
        from . import rewrite
        m.__dict__['__builtins__'] = next(f.bi for f in sys.meta_path if isinstance(f, Finder))
        code = compile(rewrite.rewrite(src, path, False), path, 'exec', dont_inherit=True)
    else:
        code = compile(src, path, 'exec', dont_inherit=True)
    here, scratch = os.getcwd(), tempfile.mkdtemp(prefix='symx')
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    os.chdir(scratch)
    try:
        exec(code, m.__dict__)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch)
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)
    return m


def setup_symbolic():
    sys.dont_write_bytecode = True
    if STUBS not in sys.path:
        sys.path.insert(0, STUBS)
    forget()
    sys.meta_path.insert(0, Finder())
    from . import xrpatch
    xrpatch.apply()
