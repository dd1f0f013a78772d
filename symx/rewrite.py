"""Source rewriting applied before execution: subscripts and membership tests
go through helpers, so that plain arrays can be indexed with symbolic masks
and dictionaries or sets looked up with symbolic keys.  The meaning of a
program over concrete values is unchanged."""
import ast
from fractions import Fraction

import numpy as np

from .core import is_sym, numlike

GET, STORE, IN, RAT = '__symx_get__', '__symx_store__', '__symx_in__', '__symx_rat__'


def _symkey(k):
    if is_sym(k):
        return True
    return isinstance(k, tuple) and any(_symkey(v) for v in k)


def _keylike(k):
    return (numlike(k) and not isinstance(k, str)) or isinstance(k, tuple)


def _eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return bool(a == b)


def find(d, k):
    """The key of the hashed container `d` equal to `k`, as (found, key)."""
    if not _keylike(k):
        return (k in d), k
    if not _symkey(k) and not any(_symkey(x) for x in d):
        return (k in d), k
    for x in d:
        if x is k or (_keylike(x) and _eq(x, k)):
            return True, x
    return False, k


def getitem(a, k):
    t = type(a)
    if t is np.ndarray or (isinstance(a, np.ndarray) and a.dtype != object):
        from .symnp import concretise_index
        return a[concretise_index(k)]
    if isinstance(a, dict):
        return a[find(a, k)[1]]
    if t in (list, tuple, str, range) and is_sym(k):
        return a[k.__index__()]
    return a[k]


def contains(x, c):
    if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys',):
        return find(c, x)[0]
    if is_sym(x) and isinstance(c, np.ndarray):
        return any(bool(x == v) for v in np.asarray(c).reshape(-1).tolist())
    return x in c


class Store:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return getitem(self.a, k)

    def __setitem__(self, k, v):
        a = self.a
        if isinstance(a, dict):
            a[find(a, k)[1]] = v
            return
        from .symnp import concretise_index
        a[concretise_index(k)] = v

    def __delitem__(self, k):
        a = self.a
        del a[find(a, k)[1] if isinstance(a, dict) else k]


def store(a):
    if isinstance(a, dict) or type(a) in (np.ndarray, list):
        return Store(a)
    return a


class T(ast.NodeTransformer):
    def _key(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(ast.Name('slice', ast.Load()), [s.lower or n, s.upper or n, s.step or n], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._key(e) for e in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in node.slice.elts):
                return node
            return ast.Call(ast.Name(GET, ast.Load()), [node.value, self._key(node.slice)], [])
        node.value = ast.Call(ast.Name(STORE, ast.Load()), [node.value], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(ast.Name(IN, ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return r
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


class Exact(ast.NodeTransformer):
    """Float literals become exact rationals."""

    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.Call(ast.Name(RAT, ast.Load()), [ast.Constant(repr(node.value))], [])
        return node


def rewrite(src, path, exact=False):
    tree = ast.parse(src, path)
    new = T().visit(tree)
    if exact:
        new = Exact().visit(new)
    # locations: a rewritten node takes its nearest located ancestor's
    ast.fix_missing_locations(new)
    return new


HELPERS = {GET: getitem, STORE: store, IN: contains, RAT: Fraction}
