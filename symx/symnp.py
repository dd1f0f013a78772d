"""numpy containers of symbolic scalars, and the numpy stand-in module the
repository sources see.  Everything that is not about element values (shapes,
views, indexing, broadcasting, sorting, grouping) is the real numpy."""
import math
import operator
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import (SymNum, SymBool, SymInt, SymReal, is_sym, ite, s_and, s_or,
                   s_not, s_min, s_max, s_div, wrap, term_of, real_term, z3)

_PY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': s_div,
       '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
       '==': operator.eq, '!=': operator.ne, '&': s_and, '|': s_or}


def elementwise(op, a, b, swap):
    f = _PY[op]
    if isinstance(b, SymArray):
        b = b.view(np.ndarray)
    if not isinstance(b, np.ndarray):
        return NotImplemented
    out = np.empty(b.shape, dtype=object)
    flat, src = out.reshape(-1), b.reshape(-1)
    for i in range(src.size):
        x = src[i]
        flat[i] = f(x, a) if swap else f(a, x)
    return finish(out)


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object or x.dtype.hasobject
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    return False


def any_symbolic(arr):
    """True if an object array really contains a symbolic element."""
    return any(is_sym(v) for v in arr.reshape(-1).tolist()) if arr.dtype == object else False


def _is_boolish(v):
    return isinstance(v, (bool, np.bool_, SymBool))


def finish(out):
    """Give an object result its natural type."""
    if not isinstance(out, np.ndarray):
        return out
    if out.dtype != object:
        return out
    if out.ndim == 0:
        return out.item() if type(out) is np.ndarray else out.view(np.ndarray)[()]
    flat = out.reshape(-1).tolist()
    if flat and all(isinstance(v, (bool, np.bool_)) for v in flat):
        return np.asarray(out.view(np.ndarray), dtype=bool)
    if out.size and not all(_is_boolish(v) or core.numlike(v) for v in flat):
        return out.view(np.ndarray) if not any(is_sym(v) for v in flat) else out.view(SymArray)
    return out.view(SymArray)


def concretise_bool(a):
    """Object array of (symbolic) booleans -> real boolean array, by forking."""
    a = np.asarray(a)
    if a.dtype == bool:
        return a
    out = np.zeros(a.shape, dtype=bool)
    f, s = out.reshape(-1), a.reshape(-1)
    for i in range(s.size):
        f[i] = bool(s[i])
    return out


def concretise_index(key):
    def one(k):
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, SymNum):
            return operator.index(k)
        if isinstance(k, slice):
            def o(v):
                return operator.index(v) if isinstance(v, SymNum) else v
            return slice(o(k.start), o(k.stop), o(k.step))
        if isinstance(k, list) and has_sym(k):
            k = np.array(k, dtype=object)
        if isinstance(k, np.ndarray) and k.dtype == object:
            kk = k.view(np.ndarray)
            flat = kk.reshape(-1).tolist()
            if flat and all(_is_boolish(v) for v in flat):
                return concretise_bool(kk)
            out = np.zeros(kk.shape, dtype=np.intp)
            of = out.reshape(-1)
            for i, v in enumerate(flat):
                of[i] = operator.index(v)
            return out
        return k
    if isinstance(key, tuple):
        return tuple(one(k) for k in key)
    return one(key)


def cast(x, dt):
    """Value conversion performed by astype / float() / int()."""
    k = dt.kind
    if k == 'O':
        return x
    if k == 'f':
        if isinstance(x, SymReal):
            return x
        if is_sym(x):
            return SymReal(real_term(x))
        return float(x) if not isinstance(x, (bool, np.bool_)) else float(x)
    if k in 'iu':
        if not is_sym(x):
            if isinstance(x, Fraction):
                return int(x)
            return int(np.asarray(x).astype(dt))
        r = core.s_trunc_int(x)
        if not is_sym(r):
            return int(np.asarray(r).astype(dt))
        info = np.iinfo(dt)
        inside = z3.And(r.e >= int(info.min), r.e <= int(info.max))
        e = core.engine()
        if e is not None and e.must(inside):
            return r
        span = int(info.max) - int(info.min) + 1
        t = (r.e - int(info.min)) % span + int(info.min)
        return SymInt(t)
    if k == 'b':
        if isinstance(x, SymBool):
            return x
        return (x != 0) if core.numlike(x) else bool(x)
    return dt.type(x)


class SymArray(np.ndarray):
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dtype) if not (isinstance(dtype, type) and dtype is object) else np.dtype(object)
        if dt.kind == 'O':
            return self.copy() if copy else self
        if self.dtype != object or dt.kind not in 'fiub':
            return np.ndarray.astype(self.view(np.ndarray), dtype, copy=copy)
        base = self.view(np.ndarray)
        if dt.kind == 'b' and not any_symbolic(base):
            return base.astype(bool)
        if dt.kind in 'iu' and not any_symbolic(base):
            return base.astype(dt)
        out = np.empty(self.shape, dtype=object)
        src = base.reshape(-1)
        vals = [cast(v, dt) for v in src.tolist()]
        for i, v in enumerate(vals):
            out.reshape(-1)[i] = v
        return finish(out) if dt.kind == 'b' else out.view(SymArray)

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, concretise_index(key) if not isinstance(key, str) else key)
        return r

    def __setitem__(self, key, value):
        if isinstance(value, SymArray):
            value = value.view(np.ndarray)
        base = self.view(np.ndarray)
        if isinstance(key, np.ndarray) and key.dtype == object and key.shape == self.shape \
                and key.size and all(_is_boolish(v) for v in key.reshape(-1).tolist()) \
                and (np.ndim(value) == 0):
            v = value.item() if isinstance(value, np.ndarray) else value
            kf = key.view(np.ndarray).reshape(-1).tolist()
            bf = base.reshape(-1).tolist()
            out = np.empty(len(bf), dtype=object)
            for i, (m, b) in enumerate(zip(kf, bf)):
                out[i] = ite(m, v, b)
            base[...] = out.reshape(base.shape)
            return
        base[concretise_index(key) if not isinstance(key, str) else key] = value

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _ufunc(ufunc, method, inputs, kwargs)

    def __array_wrap__(self, out, context=None, *a):
        return finish(out)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).view(np.ndarray)[0])
        return np.ndarray.__bool__(self)

    def __float__(self):
        return float(self.reshape(-1).view(np.ndarray)[0])

    def __int__(self):
        return int(self.reshape(-1).view(np.ndarray)[0])

    def mean(self, axis=None, dtype=None, out=None, **k):
        if self.dtype == object:
            n = self.size if axis is None else self.shape[axis]
            return self.sum(axis=axis, **k) / n
        return np.ndarray.mean(self, axis=axis, **k)

    def _argext(self, better, axis):
        base = self.view(np.ndarray)
        if axis is None:
            v = base.reshape(-1)
            best = 0
            for i in range(1, v.size):
                if core._isnanf(v[best]):
                    break
                if core._isnanf(v[i]) or bool(better(v[i], v[best])):
                    best = i
            return best
        return np.apply_along_axis(lambda v: v.view(SymArray)._argext(better, None), axis, base)

    def argmin(self, axis=None, out=None, **k):
        return self._argext(operator.lt, axis)

    def argmax(self, axis=None, out=None, **k):
        return self._argext(operator.gt, axis)

    def round(self, decimals=0, out=None):
        return _map1(lambda v: core.s_rint(v) if decimals == 0 else round(v, decimals), self)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = symnp.maximum(r, min)
        if max is not None:
            r = symnp.minimum(r, max)
        return r

    def std(self, axis=None, ddof=0, **k):
        return symnp.sqrt(self.var(axis=axis, ddof=ddof))

    def var(self, axis=None, ddof=0, **k):
        m = self.mean(axis=axis)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis) / (n - ddof)


def base_of(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if is_sym(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return x


def _map1(f, a):
    a = base_of(np.asanyarray(a))
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1).tolist()):
        of[i] = f(v)
    if out.ndim == 0:
        return out[()]
    return finish(out)


def _map2(f, a, b):
    a, b = base_of(a), base_of(b)
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a.astype(object)
    b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b.astype(object)
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, (x, y) in enumerate(zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())):
        of[i] = f(x, y)
    if out.ndim == 0:
        return out[()]
    return finish(out)


def _npf(name):
    f = getattr(np, name)

    def g(x):
        return f(x) if not is_sym(x) else getattr(x, name)()
    return g


def _concrete_math(name):
    f = getattr(np, name)

    def g(x):
        if is_sym(x):
            m = getattr(x, name, None)
            if m is None:
                return float(f(float(x)))
            return m()
        with np.errstate(all='ignore'):
            return f(float(x)).item() if not isinstance(x, int) or name not in ('conjugate',) else x
    return g


def _isnan(x):
    return False if is_sym(x) else (isinstance(x, (float, np.floating)) and x != x)


def _isfinite(x):
    return True if is_sym(x) else not core.special(x)


def _sign(x):
    if is_sym(x):
        return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))
    return float(np.sign(x))


_UN = {'isnan': _isnan, 'isfinite': _isfinite,
       'isinf': lambda x: False if is_sym(x) else core._isinff(x),
       'logical_not': lambda x: s_not(x) if _is_boolish(x) else s_not(x != 0),
       'invert': s_not, 'absolute': core.s_abs, 'fabs': core.s_abs, 'sign': _sign,
       'negative': operator.neg, 'positive': lambda x: x,
       'sqrt': core.s_sqrt, 'sin': core.s_sin, 'cos': core.s_cos, 'tan': core.s_tan,
       'arctan': core.s_arctan, 'arcsin': core.s_arcsin,
       'radians': core.s_radians, 'deg2rad': core.s_radians,
       'rint': core.s_rint, 'floor': lambda x: core.s_floor(x, True),
       'ceil': lambda x: -core.s_floor(-x, True) if is_sym(x) else (x if core.special(x) else float(math.ceil(x))),
       'trunc': lambda x: x.trunc() if is_sym(x) else float(np.trunc(x)),
       'square': lambda x: x * x, 'conjugate': lambda x: x,
       'reciprocal': lambda x: s_div(1.0, x)}
for _n in ('degrees', 'rad2deg', 'exp', 'log', 'log10', 'log2', 'arccos', 'sinh', 'cosh', 'tanh'):
    _UN[_n] = _concrete_math(_n)


def _truth(x):
    return x if _is_boolish(x) else (x != 0)


def _heav(x, h):
    return ite(x < 0, 0.0, ite(x > 0, 1.0, h))


def _fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return s_min(a, b)


def _fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return s_max(a, b)


def _floordiv(a, b):
    try:
        return a // b
    except ZeroDivisionError:
        return s_div(a, b) if isinstance(a, float) or isinstance(b, float) else 0


def _mod(a, b):
    try:
        return a % b
    except ZeroDivisionError:
        return math.nan


_BIN = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
        'true_divide': s_div, 'divide': s_div, 'floor_divide': _floordiv,
        'remainder': _mod, 'mod': _mod,
        'power': operator.pow, 'float_power': operator.pow,
        'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt,
        'greater_equal': operator.ge, 'equal': operator.eq, 'not_equal': operator.ne,
        'logical_and': lambda a, b: s_and(_truth(a), _truth(b)),
        'logical_or': lambda a, b: s_or(_truth(a), _truth(b)),
        'bitwise_and': s_and, 'bitwise_or': s_or,
        'logical_xor': lambda a, b: _truth(a) ^ _truth(b), 'bitwise_xor': operator.xor,
        'minimum': s_min, 'maximum': s_max, 'fmin': _fmin, 'fmax': _fmax,
        'arctan2': core.s_arctan2, 'heaviside': _heav,
        'hypot': lambda a, b: core.s_sqrt(a * a + b * b)}


def _store(out, res):
    o = out[0] if isinstance(out, tuple) else out
    r = base_of(res)
    if o.dtype == bool:
        r = concretise_bool(np.asarray(r))
    if isinstance(o, SymArray):
        o.view(np.ndarray)[...] = r
    else:
        if isinstance(r, np.ndarray) and r.dtype == object and o.dtype != object \
                and any_symbolic(r):
            # symbolic results into a concrete container: realise
            o[...] = r.astype(o.dtype)
        else:
            o[...] = r
    return o


def _ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    dtype = kwargs.pop('dtype', None)
    if method == '__call__':
        if where is not True:
            w = concretise_bool(np.asanyarray(where))
            if out is None or (isinstance(out, tuple) and out[0] is None):
                full = _ufunc(ufunc, method, inputs, dict(kwargs))
                return full
            o = out[0] if isinstance(out, tuple) else out
            bi = [np.broadcast_to(base_of(x if isinstance(x, np.ndarray) or is_sym(x) else np.asarray(x)), o.shape)
                  for x in inputs]
            for idx in zip(*np.nonzero(np.broadcast_to(w, o.shape))):
                v = (_UN.get(name) or _BIN.get(name))(*[b[idx] for b in bi])
                o[idx] = v
            return o
        if len(inputs) == 1 and name in _UN:
            res = _map1(_UN[name], inputs[0])
        elif len(inputs) == 2 and name in _BIN:
            for x in inputs:
                if not isinstance(x, (np.ndarray, list, tuple)) and not core.numlike(x) \
                        and getattr(x, '__array_ufunc__', 1) is not 1 \
                        and not isinstance(x, (np.generic, str)):
                    return NotImplemented
            res = _map2(_BIN[name], *inputs)
        else:
            res = getattr(ufunc, method)(*[base_of(x) for x in inputs], **kwargs)
            res = tuple(finish(r) for r in res) if isinstance(res, tuple) else finish(res)
        if dtype is not None and isinstance(res, SymArray):
            res = res.astype(dtype)
        if out is not None and not (isinstance(out, tuple) and out[0] is None):
            return _store(out, res)
        return res
    if method == 'reduce':
        a = base_of(inputs[0])
        axis = kwargs.get('axis', inputs[1] if len(inputs) > 1 else 0)
        keepdims = kwargs.get('keepdims', False)
        initial = kwargs.get('initial', np._NoValue)
        f = _BIN.get(name)
        if f is not None and name in ('add', 'multiply', 'minimum', 'maximum', 'fmin', 'fmax',
                                      'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'):
            if where is not True:
                w = concretise_bool(np.asanyarray(where))
            res = _reduce(name, f, a, axis, keepdims, initial, where if where is True else w)
        else:
            res = finish(ufunc.reduce(a, **kwargs))
        if out is not None and not (isinstance(out, tuple) and out[0] is None):
            return _store(out, res)
        return res
    if method == 'at':
        a, ind = inputs[0], concretise_index(inputs[1])
        b = [base_of(x) for x in inputs[2:]]
        f = _BIN.get(name)
        tgt = base_of(a)
        ia = np.arange(tgt.size).reshape(tgt.shape)[ind]
        flatix = np.ravel(ia)
        vals = np.broadcast_to(np.asarray(b[0], dtype=object), np.shape(ia)).reshape(-1).tolist() if b else None
        for j, ix in enumerate(flatix.tolist()):
            pos = np.unravel_index(ix, tgt.shape)
            tgt[pos] = f(tgt[pos], vals[j])
        return None
    if method == 'accumulate':
        a = base_of(inputs[0])
        f = _BIN[name]
        axis = kwargs.get('axis', 0)
        b = np.moveaxis(a, axis, 0).astype(object)
        outl = [b[0]]
        for i in range(1, b.shape[0]):
            outl.append(base_of(_map2(f, outl[-1], b[i])))
        return finish(np.moveaxis(np.array(outl, dtype=object), 0, axis))
    if method == 'outer':
        a, b = (np.asarray(base_of(x), dtype=object) for x in inputs)
        return _map2(_BIN[name], a.reshape(a.shape + (1,) * b.ndim), b)
    res = getattr(ufunc, method)(*[base_of(x) for x in inputs], **kwargs)
    return finish(res)


_IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False,
          'bitwise_and': True, 'bitwise_or': False}


def _reduce(name, f, a, axis, keepdims, initial, where):
    a = np.asarray(a)
    if where is not True:
        where = np.broadcast_to(where, a.shape)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    wb = None if where is True else np.transpose(where, rest + list(axes)).reshape(b.shape)
    out = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        vals = b[idx].tolist()
        if wb is not None:
            vals = [v for v, k in zip(vals, wb[idx].tolist()) if k]
        if initial is not np._NoValue and initial is not None:
            acc = initial
        elif name in _IDENT:
            acc = _IDENT[name]
            if vals and name in ('add', 'multiply'):
                acc, vals = vals[0], vals[1:]
                if isinstance(acc, SymBool):
                    acc = wrap(term_of(acc))
        else:
            if not vals:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            acc, vals = vals[0], vals[1:]
        for v in vals:
            acc = f(acc, v)
        if name in ('logical_and', 'logical_or') and not _is_boolish(acc):
            acc = _truth(acc)
        out[idx] = acc
    if keepdims:
        shp = [1 if i in axes else a.shape[i] for i in range(a.ndim)]
        return finish(out.reshape(shp)) if shp else out[()]
    if out.ndim == 0:
        return out[()]
    return finish(out)


# ------------------------------------------------------- numpy stand-in -----

def to_symarray(x):
    """Anything -> SymArray of objects (floats become Python floats)."""
    if isinstance(x, SymArray):
        return x
    a = np.asarray(base_of(x) if not isinstance(x, (list, tuple)) else x,
                   dtype=object if has_sym(x) else None)
    if a.dtype != object:
        a = a.astype(object)
    return a.view(SymArray)


def _sdtype(dtype):
    """Structured dtype with every numeric field widened to object."""
    dt = np.dtype(dtype)
    if dt.names is None:
        return dt
    fields = []
    for n in dt.names:
        f = dt.fields[n][0]
        base, shape = (f.subdtype if f.subdtype else (f, ()))
        if base.names is not None:
            base = _sdtype(base)
        elif base.kind in 'fiu':
            base = np.dtype(object)
        fields.append((n, base, shape) if shape else (n, base))
    return np.dtype(fields)


def _floaty(dtype):
    if dtype is None:
        return True
    if hasattr(dtype, 'np_dtype'):
        dtype = dtype.np_dtype
    return np.dtype(dtype).kind == 'f'


def _dt(dtype):
    if hasattr(dtype, 'np_dtype'):
        return dtype.np_dtype
    return dtype


def _filled(shape, value):
    a = np.empty(_shape(shape), dtype=object)
    a.reshape(-1)[...] = value
    return a.view(SymArray)


def _shape(shape):
    if is_sym(shape):
        return operator.index(shape)
    if isinstance(shape, (tuple, list)):
        return tuple(operator.index(s) for s in shape)
    if isinstance(shape, np.ndarray):
        return tuple(operator.index(s) for s in shape.tolist()) if shape.ndim else int(shape)
    return shape


def _ctor(fill):
    def ctor(shape, dtype=None, order='C', **k):
        dtype = _dt(dtype)
        if _floaty(dtype):
            return _filled(shape, fill)
        d = np.dtype(dtype)
        if d.names is not None:
            a = np.empty(_shape(shape), dtype=_sdtype(d))
            return _fill_struct(a, fill)
        real = {0.0: np.zeros, 1.0: np.ones}.get(fill, np.zeros)
        r = real(_shape(shape), dtype=dtype)
        return r
    return ctor


def _fill_struct(a, fill):
    for n in a.dtype.names:
        if a.dtype[n].names is None and (a[n].dtype == object or a[n].dtype.kind in 'fiu'):
            a[n] = fill
    return a.view(SymArray)


zeros = _ctor(0.0)
ones = _ctor(1.0)
empty = _ctor(math.nan)


def full(shape, fill_value, dtype=None, **k):
    dtype = _dt(dtype)
    if is_sym(fill_value) or isinstance(fill_value, float) or (dtype is not None and _floaty(dtype)):
        return _filled(shape, fill_value if is_sym(fill_value) else float(fill_value))
    return np.full(_shape(shape), fill_value, dtype=dtype, **k)


def _like(fill):
    def like(a, dtype=None, order='K', subok=True, shape=None, **k):
        dtype = _dt(dtype)
        arr = a.data if hasattr(a, 'dims') and hasattr(a, 'data') else np.asanyarray(a)
        shp = arr.shape if shape is None else _shape(shape)
        if dtype is None:
            d = arr.dtype
            if d == object:
                return _filled(shp, fill)
            if d.names is not None:
                return _fill_struct(np.empty(shp, dtype=_sdtype(d)), fill)
            dtype = d
        d = np.dtype(dtype)
        if d == object:
            return _filled(shp, fill)
        if d.names is not None:
            return _fill_struct(np.empty(shp, dtype=_sdtype(d)), fill)
        if d.kind == 'f':
            return _filled(shp, fill)
        return {0.0: np.zeros, 1.0: np.ones}.get(fill, np.zeros)(shp, dtype=d)
    return like


zeros_like = _like(0.0)
ones_like = _like(1.0)
empty_like = _like(math.nan)


def full_like(a, fill_value, dtype=None, **k):
    arr = np.asanyarray(a)
    if dtype is None and arr.dtype.kind in 'iub' and not is_sym(fill_value):
        return np.full(arr.shape, fill_value, dtype=arr.dtype)
    return full(arr.shape, fill_value, dtype=dtype)


def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    dtype = _dt(dtype)
    if hasattr(obj, 'dims') and hasattr(obj, 'values'):
        obj = obj.values
    if isinstance(obj, types.GeneratorType):
        a = np.empty((), dtype=object)
        a[()] = obj
        return a
    if isinstance(obj, (list, tuple)):
        obj = type(obj)(v.values if hasattr(v, 'dims') and hasattr(v, 'values') else v for v in obj) \
            if type(obj) in (list, tuple) else obj
    if dtype is not None and np.dtype(dtype).names is not None:
        d = _sdtype(dtype)
        if isinstance(obj, np.ndarray) and obj.dtype == d:
            return obj.copy() if copy else obj
        return np.array(obj, dtype=d).view(SymArray)
    if has_sym(obj):
        if isinstance(obj, np.ndarray):
            a = obj.copy() if copy else obj
            if a.dtype.names is None:
                a = a.view(SymArray) if a.dtype == object and not isinstance(a, SymArray) and _numeric(a) else a
        else:
            a = _nested(obj)
        if dtype is not None and np.dtype(dtype).kind in 'fiub' and isinstance(a, SymArray):
            a = a.astype(dtype, copy=False) if a.dtype == object else a
        while a.ndim < ndmin:
            a = a[None]
        return a
    r = np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin)
    if dtype is not None and r.dtype.kind == 'f':
        return r.astype(object).view(SymArray)
    return r


def _numeric(a):
    return all(core.numlike(v) for v in a.reshape(-1).tolist())


def _nested(obj):
    if is_sym(obj):
        return base_of(obj).view(SymArray)
    conv = [np.asarray(_nested(v)) if isinstance(v, (list, tuple, np.ndarray)) or is_sym(v)
            else np.asarray(v) for v in obj] if not isinstance(obj, np.ndarray) else obj
    if isinstance(conv, np.ndarray):
        return conv.astype(object).view(SymArray)
    shp = conv[0].shape if conv else ()
    out = np.empty((len(conv),) + shp, dtype=object)
    for i, c in enumerate(conv):
        if c.shape != shp:
            raise ValueError('setting an array element with a sequence. The requested array has '
                             'an inhomogeneous shape')
        out[i] = c.view(np.ndarray) if c.ndim else c[()]
    return out.view(SymArray)


def asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, np.ndarray) and dtype is None:
        return obj
    return array(obj, dtype=dtype, copy=False)


asanyarray = asarray
ascontiguousarray = asarray


def fromiter(it, dtype, count=-1, **k):
    dtype = _dt(dtype)
    items = list(it)
    if count is not None and count >= 0:
        items = items[:count]
    d = np.dtype(dtype)
    if d.names is not None:
        a = np.empty(len(items), dtype=_sdtype(d))
        for i, v in enumerate(items):
            a[i] = tuple(v)
        return a.view(SymArray)
    if has_sym(items):
        return _nested(items).astype(dtype) if items else _filled(0, 0.0)
    r = np.fromiter(items, dtype)
    return r.astype(object).view(SymArray) if r.dtype.kind == 'f' else r


def arange(*a, dtype=None, **k):
    a = [operator.index(v) if isinstance(v, SymInt) else v for v in a]
    dtype = _dt(dtype)
    r = np.arange(*a, dtype=dtype, **k)
    return r.astype(object).view(SymArray) if r.dtype.kind == 'f' else r


def linspace(start, stop, num=50, endpoint=True, **k):
    if is_sym(start) or is_sym(stop):
        n = num - 1 if endpoint else num
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = start + (stop - start) * Fraction(i, n) if n else start
        return out.view(SymArray)
    r = np.linspace(start, stop, num, endpoint, **k)
    return r


def where(cond, *ab):
    if not ab:
        return nonzero(cond)
    x, y = ab
    if hasattr(cond, 'dims') or hasattr(x, 'dims') or hasattr(y, 'dims'):
        return np.where(cond, x, y)
    if not any(has_sym(v) for v in (cond, x, y)):
        return np.where(cond, x, y)
    arrs = np.broadcast_arrays(*[np.asarray(base_of(v), dtype=object) for v in (cond, x, y)])
    out = np.empty(arrs[0].shape, dtype=object)
    of = out.reshape(-1)
    for i, (c, p, q) in enumerate(zip(*[a.reshape(-1).tolist() for a in arrs])):
        of[i] = ite(c if _is_boolish(c) else (c != 0), p, q)
    if out.ndim == 0:
        return out.view(SymArray)
    return finish(out)


def nonzero(a):
    if isinstance(a, SymArray) or has_sym(a):
        a = np.asarray(base_of(a), dtype=object)
        a = concretise_bool(a)
    return np.nonzero(a)


def searchsorted(a, v, side='left', sorter=None):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(a, v, side=side, sorter=sorter)
    a = to_symarray(a)
    if sorter is not None:
        a = a[sorter]
    edges = a.view(np.ndarray).tolist()

    def one(x):
        n = 0
        for e in edges:
            c = (e < x) if side == 'left' else (e <= x)
            if not bool(c):
                break
            n += 1
        return n
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        b = np.asarray(base_of(v) if isinstance(v, np.ndarray) else v, dtype=object)
        return np.array([one(x) for x in b.reshape(-1).tolist()], dtype=np.intp).reshape(b.shape)
    return one(v)


def digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return np.digitize(x, bins, right)
    b = to_symarray(bins)
    bl = b.view(np.ndarray).tolist()
    if len(bl) > 1 and bool(bl[0] > bl[-1]):
        r = len(bl) - searchsorted(b[::-1], x, side='right' if right else 'left')
        return r
    return searchsorted(b, x, side='left' if right else 'right')


def clip(a, lo, hi, **k):
    r = symnp.maximum(a, lo) if lo is not None else a
    return symnp.minimum(r, hi) if hi is not None else r


def nan_to_num(x, copy=True, nan=0.0, **k):
    return _map1(lambda v: nan if _isnan(v) else v, x)


def meshgrid(*xi, **k):
    r = np.meshgrid(*xi, **k)
    return [v.view(SymArray) if v.dtype == object else v for v in r]


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def iterable(x):
    return False if is_sym(x) else np.iterable(x)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if has_sym(a) or has_sym(b):
        return symnp.abs(symnp.subtract(a, b)) <= atol + rtol * symnp.abs(b)
    return np.isclose(a, b, rtol, atol, equal_nan)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(symnp.all(r))


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(ar):
        return np.unique(ar, return_index, return_inverse, return_counts, axis, **k)
    a = np.asarray(base_of(ar), dtype=object).reshape(-1)
    order = sorted(range(a.size), key=_Key.of(a.tolist()))
    vals, idx, inv, cnt = [], [], np.zeros(a.size, dtype=np.intp), []
    for j in order:
        if vals and bool(vals[-1] == a[j]):
            cnt[-1] += 1
        else:
            vals.append(a[j])
            idx.append(j)
            cnt.append(1)
        inv[j] = len(vals) - 1
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    res = [out.view(SymArray)]
    if return_index:
        res.append(np.array(idx, dtype=np.intp))
    if return_inverse:
        res.append(inv)
    if return_counts:
        res.append(np.array(cnt, dtype=np.intp))
    return res[0] if len(res) == 1 else tuple(res)


class _Key:
    @staticmethod
    def of(vals):
        class K:
            __slots__ = ('i',)

            def __init__(self, i):
                self.i = i

            def __lt__(self, o):
                return bool(vals[self.i] < vals[o.i])
        return K


def in1d(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.in1d(a, b, **k)
    bl = np.asarray(base_of(b), dtype=object).reshape(-1).tolist()

    def one(x):
        r = False
        for v in bl:
            r = s_or(r, x == v)
        return r
    r = _map1(one, np.asarray(base_of(a), dtype=object).reshape(-1))
    if k.get('invert'):
        r = symnp.logical_not(r)
    return r


def isin(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.isin(a, b, **k)
    return in1d(a, b, **k).reshape(np.shape(a))


def concatenate(arrs, axis=0, **k):
    arrs = list(arrs)
    return np.concatenate([base_of(a) if isinstance(a, np.ndarray) else np.asarray(base_of(a)) if not has_sym(a)
                           else base_of(_nested(a)) for a in arrs], axis=axis, **k)


def interp(x, xp, fp, *a, **k):
    return _map1(lambda v: float(np.interp(float(v), xp, fp)), x)


def _bincount(x, weights=None, minlength=0):
    x = concretise_index(x)
    if weights is None or not has_sym(weights):
        return np.bincount(x, weights, minlength)
    n = max(int(x.max()) + 1 if len(x) else 0, minlength)
    out = _filled(n, 0.0)
    for i, w in zip(x, weights):
        out[i] = out[i] + w
    return out


def _select(condlist, choicelist, default=0):
    if not any(has_sym(v) for v in list(condlist) + list(choicelist)):
        return np.select(condlist, choicelist, default)
    out = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = where(c, v, out)
    return out


def _ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    if not any(has_sym(v) for v in multi_index) or mode != 'raise' or order not in 'CF':
        return np.ravel_multi_index(tuple(concretise_index(v) for v in multi_index), dims, mode, order)
    pairs = list(zip(multi_index, dims))
    out = 0
    for i, n in (pairs if order == 'C' else pairs[::-1]):
        i = asarray(i)
        if not bool(symnp.all((i >= 0) & (i < n))):
            raise ValueError('invalid entry in coordinates array')
        out = out * n + i
    return out


def _unravel_index(indices, shape, order='C'):
    if not has_sym(indices):
        return np.unravel_index(indices, shape, order)
    i = asarray(indices)
    total = 1
    for n in shape:
        total *= n
    if not bool(symnp.all((i >= 0) & (i < total))):
        raise ValueError('index is out of bounds for array')
    out = []
    for n in (tuple(shape)[::-1] if order == 'C' else tuple(shape)):
        out.append(i % n)
        i = i // n
    return tuple(out[::-1] if order == 'C' else out)


def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        m = concretise_bool(where)
        dst[m] = np.broadcast_to(src, dst.shape)[m]


def _argmin(a, axis=None, **k):
    return to_symarray(a).argmin(axis=axis) if has_sym(a) else np.argmin(a, axis=axis, **k)


def _argmax(a, axis=None, **k):
    return to_symarray(a).argmax(axis=axis) if has_sym(a) else np.argmax(a, axis=axis, **k)


def _nanred(f):
    def red(a, axis=None, **k):
        if not has_sym(a):
            return getattr(np, 'nan' + f)(a, axis=axis, **k)
        b = np.asarray(base_of(a), dtype=object)
        w = ~np.vectorize(_isnan, otypes=[bool])(b) if b.size else np.ones(b.shape, bool)
        if f in ('min', 'max'):
            op = {'min': 'fmin', 'max': 'fmax'}[f]
            return _reduce(op, _BIN[op], b, axis, False, np._NoValue, True)
        return _reduce('add', operator.add, b, axis, False, np._NoValue, w)
    return red


def _bool_fold(name):
    def red(a, axis=None, out=None, keepdims=False, **k):
        if hasattr(a, 'dims') or not has_sym(a):
            return getattr(np, name)(a, axis=axis)
        u = {'any': 'logical_or', 'all': 'logical_and'}[name]
        return _reduce(u, _BIN[u], np.asarray(base_of(a), dtype=object), axis, keepdims,
                       np._NoValue, True)
    return red


def _round(a, decimals=0, out=None):
    if not has_sym(a):
        return np.round(a, decimals)
    return _map1(lambda v: core.s_rint(v) if decimals == 0 else round(v, decimals), a)


def isrealobj(x):
    return True


def _float64(x=0.0):
    return cast(x, np.dtype('f8')) if is_sym(x) else (asarray(x, dtype='f8') if has_sym(x) else np.float64(x))


class UfuncProxy:
    """Routes ufunc calls with symbolic scalars or lists through SymArray."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __getattr__(self, n):
        v = getattr(self._uf, n)
        if n in ('reduce', 'accumulate', 'at', 'outer', 'reduceat'):
            def call(*a, **k):
                if any(has_sym(x) for x in a):
                    return _ufunc(self._uf, n, tuple(_nested(x) if isinstance(x, (list, tuple)) and has_sym(x)
                                                     and not (n == 'at' and isinstance(x, tuple))
                                                     else x for x in a), k)
                return v(*a, **k)
            return call
        return v

    def __call__(self, *a, **k):
        if any(has_sym(x) for x in a if not isinstance(x, np.ndarray)) or \
                any(isinstance(x, np.ndarray) and x.dtype == object for x in a):
            if not any(hasattr(x, 'dims') for x in a):
                a = tuple(_nested(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a)
                n = self._uf.nin
                if len(a) > n:
                    k['out'] = a[n:]
                    a = a[:n]
                return _ufunc(self._uf, '__call__', a, k)
        return self._uf(*a, **k)


def _generic(f):
    def call(*a, **k):
        a = tuple(_nested(x) if isinstance(x, (list, tuple)) and not any(isinstance(v, (np.ndarray, slice)) for v in x)
                  and has_sym(x) else (base_of(x) if is_sym(x) else x) for x in a)
        r = f(*a, **k)
        if isinstance(r, tuple):
            return tuple(finish(v) if isinstance(v, np.ndarray) and v.dtype == object else v for v in r)
        if isinstance(r, list):
            return [v.view(SymArray) if isinstance(v, np.ndarray) and v.dtype == object else v for v in r]
        if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
            if r.ndim == 0:
                return r[()]
            return r.view(SymArray) if _numeric(r) else r
        return r
    call.__name__ = getattr(f, '__name__', 'f')
    return call


_OVER = dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
             ones_like=ones_like, empty_like=empty_like, full_like=full_like, array=array,
             asarray=asarray, asanyarray=asanyarray, ascontiguousarray=ascontiguousarray,
             asfarray=lambda a, dtype='f8': asarray(a, dtype=dtype),
             fromiter=fromiter, arange=arange, linspace=linspace, where=where,
             nonzero=nonzero, flatnonzero=lambda a: nonzero(np.ravel(a))[0],
             argwhere=lambda a: np.transpose(nonzero(a)),
             searchsorted=searchsorted, digitize=digitize, clip=clip,
             nan_to_num=nan_to_num, meshgrid=meshgrid, isscalar=isscalar, iterable=iterable,
             isclose=isclose, allclose=allclose, unique=unique, in1d=in1d, isin=isin,
             interp=interp, bincount=_bincount, select=_select,
             ravel_multi_index=_ravel_multi_index, unravel_index=_unravel_index, copyto=_copyto, argmin=_argmin, argmax=_argmax,
             nansum=_nanred('sum'), nanmin=_nanred('min'), nanmax=_nanred('max'),
             any=_bool_fold('any'), all=_bool_fold('all'), sometrue=_bool_fold('any'),
             alltrue=_bool_fold('all'),
             round=_round, around=_round, round_=_round, isrealobj=isrealobj, float64=None)


class _DTypeProxy:
    pass


class SymNumpy(types.ModuleType):
    """Stand-in for the numpy module inside the repository sources."""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        if name in _OVER and _OVER[name] is not None:
            v = _OVER[name]
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc):
                v = UfuncProxy(v)
            elif name == 'concatenate':
                v = _generic(concatenate)
            elif callable(v) and not isinstance(v, type) and not isinstance(v, types.ModuleType):
                v = _generic(v)
        c[name] = v
        return v


symnp = SymNumpy()
