"""Small patches that let xarray and pandas carry symbolic element arrays."""
import numpy as np

from .core import is_sym, numlike, SymBool, SymNum
from .symnp import SymArray, has_sym, any_symbolic, concretise_index, concretise_bool


def _symlike(a):
    return isinstance(a, np.ndarray) and a.dtype == object and \
        (isinstance(a, SymArray) or any_symbolic(a))


def apply():
    import xarray as xr
    from xarray.core import variable as V, indexing
    orig = V.as_compatible_data

    def as_compatible_data(data, fastpath=False):
        if isinstance(data, (xr.DataArray, xr.Variable)):
            return orig(data, fastpath)
        if is_sym(data):
            o = np.empty((), dtype=object)
            o[()] = data
            return o.view(SymArray)
        if isinstance(data, (list, tuple)) and has_sym(data):
            from .symnp import _nested
            return _nested(data)
        v = getattr(data, 'values', data)
        if _symlike(v):
            return v if isinstance(v, SymArray) else v.view(SymArray)
        if isinstance(v, np.ndarray) and v.dtype == object and v.size \
                and all(numlike(q) for q in v.reshape(-1).tolist()):
            return v.view(SymArray)
        return orig(data, fastpath)

    for mod in _modules_with('as_compatible_data', orig):
        mod.as_compatible_data = as_compatible_data

    orig_item = V._as_array_or_item

    def _as_array_or_item(data):
        d = data
        if isinstance(d, (indexing.PandasIndexingAdapter,)):
            d = np.asarray(d)
        if isinstance(d, np.ndarray) and d.dtype == object and (isinstance(d, SymArray) or any_symbolic(d)):
            return d if isinstance(d, SymArray) else d.view(SymArray)
        return orig_item(data)
    for mod in _modules_with('_as_array_or_item', orig_item):
        mod._as_array_or_item = _as_array_or_item

    orig_bi = V.Variable._broadcast_indexes

    def _fix(k):
        if isinstance(k, (xr.Variable, xr.DataArray)):
            d = k.data if not isinstance(k, xr.DataArray) else k.variable.data
            if isinstance(d, np.ndarray) and d.dtype == object and any_boolish(d):
                return xr.Variable(k.dims, concretise_bool(d.view(np.ndarray)))
            if _symlike(d):
                return xr.Variable(k.dims, concretise_index(d.view(np.ndarray)))
            return k
        return concretise_index(k)

    def _broadcast_indexes(self, key):
        if isinstance(key, dict):
            return orig_bi(self, {kk: _fix(v) for kk, v in key.items()})
        if isinstance(key, tuple):
            return orig_bi(self, tuple(_fix(v) for v in key))
        return orig_bi(self, _fix(key))
    V.Variable._broadcast_indexes = _broadcast_indexes

    _reductions()

    # Dataset.isel / DataArray.isel with boolean symbolic masks reach here too
    import pandas as pd
    def vals(self_values):
        return self_values

    # pandas Series of symbolic values: hand back SymArrays
    for cls in (pd.Series,):
        p = cls.values

        def getv(self, _p=p):
            v = _p.fget(self)
            if isinstance(v, np.ndarray) and v.dtype == object and any_symbolic(v):
                return v.view(SymArray)
            return v
        cls.values = property(getv)


def _reductions():
    """sum/mean/min/max of Datasets and their groups keep symbolic variables,
    skipping missing values as they do for floats."""
    import operator
    import xarray as xr
    from xarray.core import duck_array_ops as dao
    from .symnp import _reduce, _BIN, _isnan

    def wrap_agg(name, orig):
        def agg(values, axis=None, skipna=None, **kw):
            if not _symlike(values) or axis == ():
                return orig(values, axis=axis, skipna=skipna, **kw)
            b = values.view(np.ndarray)
            skip = skipna is None or skipna
            keep = np.array([not (skip and _isnan(v)) for v in b.reshape(-1).tolist()], bool).reshape(b.shape)
            kd = kw.get('keepdims', False)
            if isinstance(axis, list):
                axis = tuple(axis)
            if name in ('min', 'max'):
                op = {'min': 'minimum', 'max': 'maximum'}[name]
                if skip:
                    op = {'min': 'fmin', 'max': 'fmax'}[name]
                return _reduce(op, _BIN[op], b, axis, kd, np._NoValue, True)
            total = _reduce('add', operator.add, b, axis, kd, np._NoValue, keep)
            if name == 'sum':
                return total
            n = np.sum(keep, axis=axis, keepdims=kd)
            return total / np.where(n > 0, n, np.nan)
        agg.__name__ = name
        return agg

    for name in ('sum', 'mean', 'min', 'max'):
        setattr(dao, name, wrap_agg(name, getattr(dao, name)))

    orig = xr.Dataset.reduce

    def reduce(self, func, dim=None, *, keep_attrs=None, keepdims=False, numeric_only=False, **kw):
        if numeric_only:
            other = [k for k, v in self.data_vars.items()
                     if v.dtype == object and not _symlike(v.variable._data)]
            if any(v.dtype == object for v in self.data_vars.values()):
                return orig(self.drop_vars(other), func, dim, keep_attrs=keep_attrs, keepdims=keepdims,
                            numeric_only=False, **kw)
        return orig(self, func, dim, keep_attrs=keep_attrs, keepdims=keepdims, numeric_only=numeric_only, **kw)
    xr.Dataset.reduce = reduce


def any_boolish(a):
    l = a.reshape(-1).tolist()
    return bool(l) and all(isinstance(v, (bool, np.bool_, SymBool)) for v in l)


def _modules_with(name, obj):
    import sys
    return [m for k, m in list(sys.modules.items())
            if k.startswith('xarray') and getattr(m, name, None) is obj]
