"""Runs the real mqt.qudits modules on symbolic values.

While active, the names ``np``, ``math``, ``cmath`` and directly imported numeric functions in every mqt.qudits module
(and in the property modules) are replaced by wrappers that accept symbolic numbers; the source code executed is the
code in /repo, unmodified.  Everything is restored on exit.
"""
from __future__ import annotations

import builtins
import cmath
import importlib
import math
import pkgutil
import sys
from contextlib import contextmanager
from fractions import Fraction

import numpy as np
import scipy.linalg

from . import core, sym
from .core import I
from .sym import S, Unsupported, to_s


# ------------------------------------------------------------------ arrays
def _index(k):
    """symbolic integers in an index are enumerated by the solver."""
    if isinstance(k, BArr):
        return k.force()
    if isinstance(k, I):
        return k.value()
    if isinstance(k, (list, tuple)) and builtins.any(isinstance(x, (I, list)) for x in k):
        return type(k)(_index(x) for x in k)
    return k


class LB:
    """A comparison that is decided (and splits the path) only when its truth value is asked for."""

    __slots__ = ("f", "v")
    __array_ufunc__ = None

    def __init__(self, f):
        self.f, self.v = f, None

    def __bool__(self):
        if self.v is None:
            self.v = builtins.bool(self.f())
        return self.v

    def __invert__(self):
        return not self

    def __int__(self):
        return builtins.int(builtins.bool(self))

    __index__ = __int__

    def __eq__(self, o):
        return builtins.bool(self) == builtins.bool(o)

    def __hash__(self):
        return hash(builtins.bool(self))


class LNum:
    """A number computed only when it is compared or printed."""

    __slots__ = ("f", "v")
    __array_ufunc__ = None

    def __init__(self, f):
        self.f, self.v = f, None

    def get(self):
        if self.v is None:
            self.v = self.f()
        return self.v


def _lnum_ops():
    import operator as op

    def val(x):
        return x.get() if isinstance(x, LNum) else x

    def bind(name, f, lazy):
        def left(self, o):
            return LNum(lambda: f(self.get(), val(o))) if lazy else f(self.get(), val(o))

        def right(self, o):
            return LNum(lambda: f(val(o), self.get()))

        setattr(LNum, f"__{name}__", left)
        if lazy:
            setattr(LNum, f"__r{name}__", right)

    for n, f in (("add", op.add), ("sub", op.sub), ("mul", op.mul), ("truediv", op.truediv)):
        bind(n, f, True)
    for n, f in (("lt", op.lt), ("le", op.le), ("gt", op.gt), ("ge", op.ge), ("eq", op.eq), ("ne", op.ne), ("floordiv", op.floordiv), ("mod", op.mod), ("pow", op.pow)):
        bind(n, f, False)
    for n, f in (("int", builtins.int), ("float", builtins.float), ("bool", builtins.bool), ("index", op.index), ("str", builtins.str),
                 ("repr", builtins.repr), ("hash", hash), ("abs", abs), ("neg", op.neg)):
        setattr(LNum, f"__{n}__", lambda self, f=f: f(self.get()))


_lnum_ops()


class BArr(np.ndarray):
    """Object array of undecided comparisons."""

    def force(self):
        return np.array([builtins.bool(x) for x in np.asarray(self).ravel()], dtype=bool).reshape(self.shape)

    def any(self, axis=None, **k):
        return self.force().any(axis, **k) if axis is not None else builtins.any(builtins.bool(x) for x in np.asarray(self).ravel())

    def all(self, axis=None, **k):
        return self.force().all(axis, **k) if axis is not None else builtins.all(builtins.bool(x) for x in np.asarray(self).ravel())

    def sum(self, *a, **k):
        return self.force().sum(*a, **k)

    def nonzero(self):
        return self.force().nonzero()

    def astype(self, dtype=None, *a, **k):
        return self.force().astype(dtype, *a, **k)

    def tolist(self):
        return self.force().tolist()

    def __array_ufunc__(self, uf, method, *xs, **k):
        return getattr(uf, method)(*(x.force() if isinstance(x, BArr) else x for x in xs), **k)


def _compare(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return getattr(np.ndarray, op)(self, o)
        out = np.empty(self.shape, dtype=object)
        fl, src = out.reshape(-1), np.asarray(self).reshape(-1)
        for i in range(src.size):
            x = src[i]
            fl[i] = LB(lambda x=x: getattr(to_s(x), op)(o))
        return out.view(BArr)

    return f


class SArr(np.ndarray):
    """Object array of symbolic numbers."""

    __lt__, __le__, __gt__, __ge__ = (_compare(f"__{o}__") for o in ("lt", "le", "gt", "ge"))

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _index(k))

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, _index(k), v)

    def astype(self, dtype=None, *a, **k):
        if dtype is not None and _is_int_dtype(dtype):
            return np.array([core.symbolic_int(to_s(x)) for x in self.ravel()], dtype=int).reshape(self.shape)
        return self.copy()

    def round(self, *a, **k):
        return self.copy()

    @property
    def real(self):
        return _map(lambda x: to_s(x).real, self)

    @property
    def imag(self):
        return _map(lambda x: to_s(x).imag, self)

    def conj(self):
        return _map(lambda x: to_s(x).conjugate(), self)

    conjugate = conj

    def __abs__(self):
        return _map(lambda x: core.absolute(to_s(x)), self)

    def all(self, *a, **k):
        if a or k:
            return self._bools().all(*a, **k)
        return builtins.all(builtins.bool(x) for x in self.ravel())

    def any(self, *a, **k):
        if a or k:
            return self._bools().any(*a, **k)
        return builtins.any(builtins.bool(x) for x in self.ravel())

    def _bools(self):
        return np.array([builtins.bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)

    def trace(self, *a, **k):
        if a or k or self.ndim != 2:
            return _wrap(np.trace(self.view(np.ndarray), *a, **k))
        return sum((self[i, i] for i in range(min(self.shape))), to_s(0))

    def sum(self, axis=None, **k):
        if axis is None and not k:
            return sum(self.ravel().tolist(), to_s(0))
        return np.ndarray.sum(self, axis=axis, **k)

    def dot(self, o):
        return np.matmul(self, o) if np.ndim(o) and np.ndim(self) else self * o


def _is_int_dtype(dt):
    try:
        return np.issubdtype(np.dtype(dt) if not isinstance(dt, type) else dt, np.integer) or dt is builtins.int
    except TypeError:
        return False


def _conv(x):
    """elements to S."""
    return x if isinstance(x, S) else to_s(x.value() if isinstance(x, I) else x)


def sarr(a):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1)
    src = a.reshape(-1)
    for i in range(src.size):
        v = _conv(src[i])
        if v is NotImplemented:
            raise Unsupported(f"array element {src[i]!r}")
        fl[i] = v
    return fl.reshape(a.shape).view(SArr)


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    fl, src = out.reshape(-1), np.asarray(a).reshape(-1)
    for i in range(src.size):
        fl[i] = f(src[i])
    return fl.reshape(a.shape).view(SArr)


def is_sym(x):
    if isinstance(x, (S, I)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and not isinstance(x, BArr)
    if isinstance(x, (list, tuple)):
        return builtins.any(is_sym(y) for y in x)
    return False


def _contains_array(x):
    return isinstance(x, np.ndarray) or (isinstance(x, (list, tuple)) and builtins.any(_contains_array(y) for y in x))


def _unary(name, f):
    real = getattr(np, name)

    def g(x, *a, **k):
        if not is_sym(x):
            return real(x, *a, **k)
        if isinstance(x, (S, I)):
            return f(_conv(x))
        x = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
        if x.shape == ():
            return f(_conv(x.item()))
        return _map(lambda e: f(_conv(e)), x)

    g.__name__ = name
    return g


def _binary(name, f):
    real = getattr(np, name)

    def g(x, y, *a, **k):
        if not is_sym(x) and not is_sym(y):
            return real(x, y, *a, **k)
        if not isinstance(x, (np.ndarray, list, tuple)) and not isinstance(y, (np.ndarray, list, tuple)):
            return f(_conv(x), _conv(y))
        bx, by = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
        out = np.empty(bx.shape, dtype=object)
        for i in np.ndindex(bx.shape):
            out[i] = f(_conv(bx[i]), _conv(by[i]))
        return out.view(SArr)

    return g


def _close(a, b, rtol=1e-5, atol=1e-8):
    a, b = _conv(a), _conv(b)
    if max(rtol, atol) > 1e-3 and not (is_sym(rtol) or is_sym(atol)):
        # a tolerance that is no rounding allowance
        return builtins.bool(core.absolute(a - b) <= core.absolute(b) * to_s(rtol) + to_s(atol))
    return core.decide_eq(a, b)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):  # noqa: FBT002
    if not is_sym(a) and not is_sym(b):
        return np.isclose(a, b, rtol, atol)
    if not isinstance(a, (np.ndarray, list)) and not isinstance(b, (np.ndarray, list)):
        return _close(a, b, rtol, atol)
    ba, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return np.array([_close(x, y, rtol, atol) for x, y in zip(ba.ravel(), bb.ravel())]).reshape(ba.shape)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):  # noqa: FBT002
    if not is_sym(a) and not is_sym(b):
        return np.allclose(a, b, rtol, atol)
    ba, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return builtins.all(_close(x, y, rtol, atol) for x, y in zip(ba.ravel(), bb.ravel()))


def _numeric_dtype(dtype):
    """True when an array of this dtype should hold symbolic numbers."""
    if dtype is None or dtype is object:
        return True
    if dtype in (_Float, _Complex, builtins.float, builtins.complex):
        return True
    if dtype in (_Int, builtins.int, builtins.bool, builtins.str):
        return False
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return False
    return k in "fcO"


def _real_dtype(dtype):
    return {_Float: builtins.float, _Complex: builtins.complex, _Int: builtins.int}.get(dtype, dtype)


def _zeros(shape, dtype=None, *a, **k):
    if not _numeric_dtype(dtype):
        return np.zeros(_shape(shape), _real_dtype(dtype), *a, **k)
    return sarr(np.zeros(_shape(shape)))


def _ones(shape, dtype=None, *a, **k):
    if not _numeric_dtype(dtype):
        return np.ones(_shape(shape), _real_dtype(dtype), *a, **k)
    return sarr(np.ones(_shape(shape)))


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    if isinstance(s, S):
        return core.symbolic_int(s)
    return int(s)


def _eye(n, m=None, *a, dtype=None, **k):
    n = _shape(n)
    return sarr(np.eye(n, None if m is None else _shape(m), *a, **k))


def _identity(n, dtype=None, **k):
    return _eye(n)


def _array(x, dtype=None, *a, **k):
    if dtype is not None and not _numeric_dtype(dtype):
        return np.array(x, _real_dtype(dtype), *a, **k)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return sarr(np.array(x)) if not isinstance(x, SArr) else x.copy()
    if dtype is None and not is_sym(x):
        r = np.array(x, *a, **k)
        if r.dtype.kind in "fc":
            return sarr(r)
        return r
    if not is_sym(x):
        return sarr(np.array(x))
    if dtype is None and _all_i(x):
        # symbolic integers: keep them integers (every value is explored)
        return np.array(_ints(x))
    return sarr(np.array(x, dtype=object))


def _all_i(x):
    if isinstance(x, (list, tuple)):
        return builtins.all(_all_i(y) for y in x)
    return isinstance(x, (I, builtins.int, np.integer))


def _ints(x):
    if isinstance(x, (list, tuple)):
        return [_ints(y) for y in x]
    return x.value() if isinstance(x, I) else int(x)


def _asarray(x, dtype=None, *a, **k):
    if isinstance(x, SArr):
        return x
    return _array(x, dtype)


def _diag(x, k=0):
    if is_sym(x):
        x = np.asarray(x, dtype=object)
        if x.ndim == 1:
            n = len(x) + abs(k)
            out = _zeros((n, n))
            for i in range(len(x)):
                out[i + max(-k, 0), i + max(k, 0)] = _conv(x[i])
            return out
        return np.diag(np.asarray(x).view(np.ndarray), k).copy().view(SArr)
    r = np.diag(x, k)
    return sarr(r) if r.dtype.kind in "fc" else r


def _fill_diagonal(a, val, wrap=False):  # noqa: FBT002
    if isinstance(a, BArr):
        np.fill_diagonal(np.asarray(a), val, wrap)
    elif a.dtype == object:
        for i in range(min(a.shape)):
            a[i, i] = _conv(val if not isinstance(val, (list, tuple, np.ndarray)) else val[i])
    else:
        np.fill_diagonal(a, val, wrap)


def _outer(a, b, *x):
    if not is_sym(a) and not is_sym(b):
        r = np.outer(a, b)
        return sarr(r) if r.dtype.kind in "fc" else r
    a, b = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
    out = np.empty((len(a), len(b)), dtype=object)
    for i in range(len(a)):
        for j in range(len(b)):
            out[i, j] = _conv(a[i]) * _conv(b[j])
    return out.view(SArr)


def _kron(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.kron(a, b)
    a, b = sarr(a), sarr(b)
    return _wrap(np.kron(a.view(np.ndarray), b.view(np.ndarray)))


def _wrap(x):
    return x.view(SArr) if isinstance(x, np.ndarray) and x.dtype == object else x


def _matmul(a, b, *x, **k):
    if not is_sym(a) and not is_sym(b):
        return np.matmul(a, b)
    return _wrap(np.matmul(sarr(a).view(np.ndarray), sarr(b).view(np.ndarray)))


def _dot(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.dot(a, b)
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    return _matmul(a, b)


def _sum(x, axis=None, **k):
    if not is_sym(x):
        return np.sum(x, axis=axis, **k)
    x = sarr(x) if not isinstance(x, SArr) else x
    return x.sum(axis=axis, **k)


def _prod(x, *a, **k):
    if not is_sym(x):
        return np.prod(x, *a, **k)
    if a or k:
        return _wrap(np.prod(np.asarray(sarr(x), dtype=object).view(np.ndarray), *a, **k))
    if _all_i(list(np.asarray(x, dtype=object).ravel())):
        r = 1
        for e in np.asarray(x, dtype=object).ravel():
            r = r * e
        return r
    r = to_s(1)
    for e in np.asarray(x, dtype=object).ravel():
        r = r * _conv(e)
    return r


def _trace(x, *a, **k):
    if not is_sym(x):
        return np.trace(x, *a, **k)
    return sarr(x).trace(*a, **k)


def _count_nonzero(x, axis=None, **k):
    if isinstance(x, BArr):
        if axis is not None:
            return np.count_nonzero(x.force(), axis=axis, **k)
        els = np.asarray(x).ravel()
        return LNum(lambda: builtins.sum(builtins.bool(e) for e in els))
    if not is_sym(x):
        return np.count_nonzero(x, axis=axis, **k)
    if axis is not None:
        raise Unsupported("count_nonzero with axis")
    return builtins.sum(1 for e in np.asarray(x, dtype=object).ravel() if builtins.bool(_conv(e)))


def _issubdtype(a, b):
    if a == np.dtype(object) or a is object:
        return True
    return np.issubdtype(a, b)


def _like(f):
    def g(x, dtype=None, **k):
        return f(np.shape(x), dtype)

    return g


def _round(x, *a, **k):
    if not is_sym(x):
        return np.round(x, *a, **k)
    nd = a[0] if a else k.get("decimals", 0)
    if isinstance(x, np.ndarray):
        return np.array([v.round(nd) if isinstance(v, S) else v for v in x.ravel()], dtype=object).reshape(x.shape)
    return x.round(nd) if isinstance(x, S) else x


# ------------------------------------------------------------------ linear algebra
def _rational(a):
    """list of lists of Fractions when every entry is a rational constant."""
    if builtins.all(x.is_rational() for x in a.ravel()):
        return [[Fraction(x.rational()) for x in r] for r in a]
    return None


def _eliminate(m, b):
    """m x = b with rational m; b rows of symbolic numbers; returns (det, x or None)."""
    n = len(m)
    m = [list(r) for r in m]
    b = [list(r) for r in b]
    d = Fraction(1)
    for i in range(n):
        k = next((k for k in range(i, n) if m[k][i]), None)
        if k is None:
            return Fraction(0), None
        if k != i:
            m[i], m[k], b[i], b[k] = m[k], m[i], b[k], b[i]
            d = -d
        p = m[i][i]
        d *= p
        m[i] = [x / p for x in m[i]]
        b[i] = [x * to_s(1 / p) for x in b[i]]
        for k in range(n):
            if k != i and m[k][i]:
                f = m[k][i]
                m[k] = [x - f * y for x, y in zip(m[k], m[i])]
                b[k] = [x - to_s(f) * y for x, y in zip(b[k], b[i])]
    return d, b


def det(a):
    if not is_sym(a):
        return np.linalg.det(a)
    a = sarr(a)
    n = a.shape[0]
    r = _rational(a)
    if r is not None:
        return to_s(_eliminate(r, [[] for _ in range(n)])[0])
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = to_s(0)
    for j in range(n):
        if a[0, j].n:
            minor = np.delete(np.delete(a.view(np.ndarray), 0, 0), j, 1)
            r = r + a[0, j] * det(minor) * to_s(-1 if j % 2 else 1)
    return r


def solve(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.linalg.solve(a, b)
    a, b = sarr(a), sarr(b)
    n = a.shape[0]
    # unitary up to a factor: A^-1 = A^dagger / s
    g = _matmul(a.conj().T, a)
    s = g[0, 0]
    if builtins.all((g[i, j] - (s if i == j else to_s(0))).is_zero() for i in range(n) for j in range(n)):
        x = _matmul(a.conj().T, b)
        return _map(lambda e: e / s, x)
    r = _rational(a)
    if r is not None:
        d, x = _eliminate(r, [[y] for y in b] if b.ndim == 1 else [list(y) for y in b])
        if x is None:
            raise np.linalg.LinAlgError("Singular matrix")
        return sarr([y[0] for y in x] if b.ndim == 1 else x)
    d = det(a)
    if n > 4:
        raise Unsupported("solve of a large symbolic system")
    adj = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a.view(np.ndarray), i, 0), j, 1)
            adj[j, i] = (det(minor) if n > 1 else to_s(1)) * to_s(-1 if (i + j) % 2 else 1)
    x = _matmul(adj.view(SArr), b)
    if core.const_num(d) is not None and abs(core.const_num(d)) < 1e-300:
        raise np.linalg.LinAlgError("Singular matrix")
    return _map(lambda e: e / d, x)


def inv(a):
    if not is_sym(a):
        return np.linalg.inv(a)
    return solve(a, _eye(np.shape(a)[0]))


def matrix_power(a, k):
    if not is_sym(a):
        return np.linalg.matrix_power(a, k)
    if k < 0:
        a, k = inv(a), -k
    r = _eye(np.shape(a)[0])
    for _ in range(k):
        r = _matmul(r, a)
    return r


def norm(x, ord=None, axis=None, keepdims=False):  # noqa: A002
    if not is_sym(x):
        return np.linalg.norm(x, ord, axis, keepdims)
    nd = np.ndim(x) if axis is None else 1 if isinstance(axis, builtins.int) else 2
    if ord not in (None, 2 if nd == 1 else "fro") or keepdims:
        raise Unsupported("norm of this kind")
    if isinstance(axis, builtins.int):
        v = np.moveaxis(np.asarray(sarr(x), dtype=object).view(np.ndarray), axis, -1)
        out = np.empty(v.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = norm(v[i])
        return out.view(SArr)
    if axis is not None:
        raise Unsupported("norm of this kind")
    tot = to_s(0)
    for e in np.asarray(x, dtype=object).ravel():
        e = _conv(e)
        tot = tot + e * e.conjugate()
    return sym.sqrt(tot)


def expm(a):
    if not is_sym(a):
        return scipy.linalg.expm(a)
    a = sarr(a)
    n = a.shape[0]
    if builtins.all(a[i, j].is_zero() for i in range(n) for j in range(n) if i != j):
        out = _zeros((n, n))
        for i in range(n):
            out[i, i] = sym.exp(a[i, i])
        return out
    # a = f * M with a common scalar f and a constant matrix M
    f = None
    m = np.zeros((n, n), dtype=complex)
    mexact = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            x = a[i, j]
            if f is None and x.n:
                pls = {(k[0], k[1]) for k in x.n}
                if len(pls) == 1:
                    p, g = next(iter(pls))
                    f = S({(p, g, 0): 1}) if (p or g) else to_s(1)
    if f is None:
        f = to_s(1)
    for i in range(n):
        for j in range(n):
            x = a[i, j]
            if x.n:
                (key,) = f.n
                c = S()
                for k, v in x.n.items():
                    if (k[0], k[1]) != (key[0], key[1]):
                        raise Unsupported("expm of this matrix")
                    c = c + S({((), (), k[2]): v}, x.d)
                mexact[i, j] = c
                m[i, j] = complex(c)
            else:
                mexact[i, j] = S()
    # f*M = -i f * (iM); eigenvalues of iM must be rational (times pi) so that the exponentials are monomials
    h = 1j * m
    if not np.allclose(h, h.conj().T):
        raise Unsupported("expm of a non anti-hermitian matrix")
    ev = np.linalg.eigvalsh(h)
    vals = []
    for e in ev:
        fr = Fraction(float(e)).limit_denominator(64)
        if abs(float(fr) - e) > 1e-9:
            raise Unsupported("expm: irrational spectrum")
        if not builtins.any(fr == v for v in vals):
            vals.append(fr)
    hm = _map(lambda x: x * to_s(1j), mexact.view(SArr))
    out = _zeros((n, n))
    # Lagrange projectors
    eye = _eye(n)
    check = _eye(n)
    for v in vals:
        check = _matmul(check, hm - eye * to_s(v))
        p = _eye(n)
        for w in vals:
            if w != v:
                p = _matmul(p, (hm - eye * to_s(w)) * to_s(Fraction(1) / (v - w)))
        out = out + p * sym.exp(f * to_s(v) * to_s(-1j))
    if builtins.any(x.n for x in check.ravel()):
        raise Unsupported("expm: minimal polynomial check failed")
    return out


class _Linalg:
    det = staticmethod(det)
    solve = staticmethod(solve)
    inv = staticmethod(inv)
    matrix_power = staticmethod(matrix_power)
    norm = staticmethod(norm)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


def _full(shape, v, dtype=None, *a, **k):
    if not is_sym(v) and not _numeric_dtype(dtype):
        return np.full(_shape(shape), v, _real_dtype(dtype), *a, **k)
    out = _zeros(shape)
    for i in np.ndindex(out.shape):
        out[i] = _conv(v)
    return out


def _vdot(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.vdot(a, b)
    return _sum(sarr(a).ravel().conj() * sarr(b).ravel())


STORE: dict = {}


def _save(f, x, *a, **k):
    """symbolic matrices written to a file are kept by file name."""
    if not is_sym(x):
        return np.save(f, x, *a, **k)
    n = builtins.str(f)
    n = n if n.endswith(".npy") else n + ".npy"
    with open(n, "wb"):
        pass
    STORE[n] = sarr(x)
    return None


def _load(f, *a, **k):
    if builtins.str(f) in STORE:
        return STORE[builtins.str(f)].copy()
    return np.load(f, *a, **k)


class _NP:
    full = staticmethod(_full)
    vdot = staticmethod(_vdot)
    save = staticmethod(_save)
    load = staticmethod(_load)
    linalg = _Linalg()
    zeros = staticmethod(_zeros)
    ones = staticmethod(_ones)
    empty = staticmethod(_zeros)
    zeros_like = staticmethod(_like(_zeros))
    ones_like = staticmethod(_like(_ones))
    eye = staticmethod(_eye)
    identity = staticmethod(_identity)
    array = staticmethod(_array)
    asarray = staticmethod(_asarray)
    diag = staticmethod(_diag)
    fill_diagonal = staticmethod(_fill_diagonal)
    outer = staticmethod(_outer)
    kron = staticmethod(_kron)
    matmul = staticmethod(_matmul)
    dot = staticmethod(_dot)
    sum = staticmethod(_sum)
    prod = staticmethod(_prod)
    trace = staticmethod(_trace)
    count_nonzero = staticmethod(_count_nonzero)
    issubdtype = staticmethod(_issubdtype)
    isclose = staticmethod(_isclose)
    allclose = staticmethod(_allclose)
    round = staticmethod(_round)
    around = staticmethod(_round)
    abs = staticmethod(_unary("abs", core.absolute))
    absolute = staticmethod(_unary("absolute", core.absolute))
    angle = staticmethod(_unary("angle", core.angle))
    sqrt = staticmethod(_unary("sqrt", sym.sqrt))
    cos = staticmethod(_unary("cos", sym.cos))
    sin = staticmethod(_unary("sin", sym.sin))
    tan = staticmethod(_unary("tan", lambda x: x.tan()))
    exp = staticmethod(_unary("exp", sym.exp))
    floor = staticmethod(_unary("floor", core.floor))
    real = staticmethod(_unary("real", lambda x: x.real))
    imag = staticmethod(_unary("imag", lambda x: x.imag))
    conj = staticmethod(_unary("conj", lambda x: x.conjugate()))
    conjugate = conj
    arccos = staticmethod(_unary("arccos", core.arccos))
    arcsin = staticmethod(_unary("arcsin", core.arcsin))
    arctan2 = staticmethod(_binary("arctan2", core.arctan2))
    mod = staticmethod(_binary("mod", core.mod))
    isnan = staticmethod(_unary("isnan", lambda x: False))

    def __getattr__(self, n):
        return getattr(np, n)


class _Math:
    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def _u(name, f):
        real = getattr(math, name)
        return staticmethod(lambda x, *a: f(x) if isinstance(x, S) else real(x, *a))


for _n, _f in (
    ("sqrt", sym.sqrt),
    ("cos", sym.cos),
    ("sin", sym.sin),
    ("exp", sym.exp),
    ("floor", core.floor),
    ("acos", core.arccos),
    ("asin", core.arcsin),
):
    setattr(_Math, _n, _Math._u(_n, _f))


def _math_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        return _close(a, b)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _fmod(a, b):
    if is_sym(a) or is_sym(b):
        a, b = _conv(a), _conv(b)
        return core.mod(a, b) if core.sign_of(a) >= 0 else -core.mod(-a, b)
    return math.fmod(a, b)


_Math.isclose = staticmethod(_math_isclose)
_Math.fmod = staticmethod(_fmod)
_Math.atan2 = staticmethod(lambda y, x: core.arctan2(y, x) if is_sym(y) or is_sym(x) else math.atan2(y, x))


class _Cmath:
    def __getattr__(self, n):
        return getattr(cmath, n)

    exp = staticmethod(lambda x: sym.exp(x) if isinstance(x, S) else cmath.exp(x))
    sqrt = staticmethod(lambda x: sym.sqrt(x) if isinstance(x, S) else cmath.sqrt(x))
    phase = staticmethod(lambda x: core.angle(x) if isinstance(x, S) else cmath.phase(x))


def _floor(x):
    return core.floor(x) if isinstance(x, S) else math.floor(x)


# ------------------------------------------------------------------ builtins
class _MetaFloat(type):
    def __getattr__(cls, name):
        return getattr(builtins.float, name)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, S) and (x.is_real()))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, *a):
        if a and isinstance(a[0], S):
            if not a[0].is_real():
                raise TypeError("can't convert complex to float")
            return a[0]
        if a and isinstance(a[0], str) and a[0] in TOKENS:
            return TOKENS[a[0]]
        if a and isinstance(a[0], I):
            return builtins.float(a[0].value())
        return builtins.float(*a)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class _Float(metaclass=_MetaFloat):
    pass


class _MetaComplex(type):
    def __getattr__(cls, name):
        return getattr(builtins.complex, name)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.complex, S))

    def __call__(cls, *a):
        if len(a) == 2 and (isinstance(a[0], S) or isinstance(a[1], S)):
            return to_s(a[0]) + to_s(a[1]) * to_s(1j)
        if a and isinstance(a[0], S):
            return a[0]
        return builtins.complex(*a)

    def __eq__(cls, o):
        return o is cls or o is builtins.complex

    def __hash__(cls):
        return hash(builtins.complex)


class _Complex(metaclass=_MetaComplex):
    pass


class _MetaInt(type):
    def __getattr__(cls, name):
        return getattr(builtins.int, name)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, I))

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], I):
            return a[0]
        if a and isinstance(a[0], S):
            return core.symbolic_int(a[0])
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class _Int(metaclass=_MetaInt):
    pass


TOKENS: dict = {}


def token(x):
    """how a symbolic number is written into text; reading it back gives the number again."""
    c = core.const_num(x)
    if c is not None and abs(c.imag) < 1e-15:
        return builtins.str(c.real)
    t = f"Sym{len(TOKENS)}x"
    for k, v in TOKENS.items():
        if (v - x).is_zero():
            return k
    TOKENS[t] = x
    return t


def _eval(expr, g=None, l=None):
    env = dict(g or {})
    env.update({k: v for k, v in TOKENS.items() if isinstance(expr, builtins.str) and k in expr})
    return builtins.eval(expr, env, l or {})  # noqa: S307


def _prange(*a):
    return range(*[x.value() if isinstance(x, I) else x for x in a])


NP, MATH, CMATH = _NP(), _Math(), _Cmath()
REPL = {
    id(np): NP,
    id(math): MATH,
    id(cmath): CMATH,
    id(np.matmul): _matmul,
    id(np.linalg.det): det,
    id(np.linalg.solve): solve,
    id(np.linalg.inv): inv,
    id(scipy.linalg.expm): expm,
    id(math.floor): _floor,
    id(math.sqrt): MATH.sqrt,
    id(np.kron): _kron,
    id(np.outer): _outer,
    id(np.trace): _trace,
    id(np.dot): _dot,
    id(np.angle): NP.angle,
    id(np.array): _array,
    id(np.zeros): _zeros,
    id(np.eye): _eye,
    id(np.identity): _identity,
    id(np.exp): NP.exp,
    id(np.sqrt): NP.sqrt,
    id(np.cos): NP.cos,
    id(np.sin): NP.sin,
    id(math.cos): MATH.cos,
    id(math.sin): MATH.sin,
    id(cmath.exp): CMATH.exp,
    id(np.abs): NP.abs,
    id(np.isclose): _isclose,
    id(np.allclose): _allclose,
    id(np.linalg): NP.linalg,
    id(np.linalg.norm): norm,
    id(np.mod): NP.mod,
    id(np.arctan2): NP.arctan2,
}
BUILTINS = {"float": _Float, "complex": _Complex, "int": _Int, "eval": _eval}

_loaded = False


def load_all():
    """import every mqt.qudits module so that all of them can be patched."""
    global _loaded
    if _loaded:
        return
    import mqt.qudits

    for m in pkgutil.walk_packages(mqt.qudits.__path__, "mqt.qudits."):
        try:
            importlib.import_module(m.name)
        except Exception:  # noqa: BLE001, S110
            pass
    _loaded = True


EXTRA: list = []  # further modules (property harnesses, reference models) to patch


def _modules():
    for name, m in list(sys.modules.items()):
        if m is not None and (name.startswith("mqt.qudits") or name in EXTRA or name.startswith("props.")):
            yield m


@contextmanager
def active(overrides=None):
    """overrides: {(module name, attribute): value} further stubs for this run."""
    load_all()
    saved = []
    try:
        for m in _modules():
            d = m.__dict__
            for k, v in list(d.items()):
                r = REPL.get(id(v))
                if r is not None:
                    saved.append((d, k, v, True))
                    d[k] = r
            for k, v in BUILTINS.items():
                saved.append((d, k, d.get(k), k in d))
                d[k] = v
        for (mn, at), v in (overrides or {}).items():
            d = sys.modules[mn].__dict__
            saved.append((d, at, d.get(at), at in d))
            d[at] = v
        yield
    finally:
        for d, k, v, had in reversed(saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        TOKENS.clear()
        STORE.clear()
