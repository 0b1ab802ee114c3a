"""Symbolic numbers.

A value of class S is a finite sum of terms

    c * zeta_N^k * (product of plain variables) * exp(i * sum_j q_j * theta_j) * exp(i*pi * sum_m r_m * K_m)

with c rational, theta_j real angle variables, K_m integer variables (r_m is kept modulo 2), and plain variables
that are the angles themselves, PI, free real or complex numbers, or square roots with a defining polynomial.
The representation is a normal form for functions of the variables, so two expressions are equal for all values
exactly if their difference is the empty sum (up to square-root variables, for which this is only sufficient).
"""
from __future__ import annotations

import cmath
import math
import re
from fractions import Fraction
from functools import lru_cache

import numpy as np

UNIT = 192  # exponents of exp(i*theta) are multiples of 1/UNIT


class Unsupported(Exception):
    """The engine cannot represent an operation: the path is undecided."""


class Leak(Unsupported):
    """A symbolic value was about to be turned into a concrete one."""


# ----------------------------------------------------------------------------- cyclotomic basis
def _poly_divmod(a, b):
    a = a[:]
    q = [0] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b) and any(a):
        c = a[-1] // b[-1]
        s = len(a) - len(b)
        q[s] = c
        for i, x in enumerate(b):
            a[s + i] -= c * x
        while a and a[-1] == 0:
            a.pop()
        if not a:
            break
    return q, a


@lru_cache(None)
def cyclotomic(n):
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            p, r = _poly_divmod(p, cyclotomic(d))
            assert not any(r)
            while p[-1] == 0:
                p.pop()
    return tuple(p) if not isinstance(p, tuple) else p


def cyclo(n):
    return list(cyclotomic(n))


# patch the cached helper to work with tuples
_orig_divmod = _poly_divmod


def _poly_divmod(a, b):  # noqa: F811
    return _orig_divmod(list(a), list(b))


class _R:
    N = 48
    red: list = []
    zeta: list = []


def set_ring(n: int) -> None:
    """Choose the cyclotomic field Q(zeta_n); n must be a multiple of 8."""
    if _R.red and _R.N == n:
        return
    assert n % 8 == 0
    phi = list(cyclotomic(n))
    deg = len(phi) - 1
    red = []
    for k in range(n):
        if k < deg:
            red.append(((k, 1),))
        else:
            # zeta^k = zeta * zeta^(k-1)
            prev = dict(red[k - 1])
            new = {}
            for e, c in prev.items():
                if e + 1 < deg:
                    new[e + 1] = new.get(e + 1, 0) + c
                else:
                    for i in range(deg):
                        if phi[i]:
                            new[i] = new.get(i, 0) - c * phi[i]
            red.append(tuple((e, c) for e, c in new.items() if c))
    _R.N = n
    _R.red = red
    _R.zeta = [cmath.exp(2j * math.pi * k / n) for k in range(n)]
    _mulcache.clear()
    _conjcache.clear()


# ----------------------------------------------------------------------------- variables
class Var:
    __slots__ = ("id", "name", "kind", "conj", "square", "lo", "hi")
    # kinds: 'angle', 'pi', 'real', 'cplx', 'sqrt', 'int'


VARS: list[Var] = []
_KINDS: list[str] = []


def reset_vars():
    VARS.clear()
    v = new_var("PI", "pi")
    assert v.id == 0
    _conjcache.clear()


def new_var(name, kind):
    v = Var()
    v.id, v.name, v.kind, v.conj, v.square = len(VARS), name, kind, None, None
    VARS.append(v)
    if v.id < len(_KINDS):
        if _KINDS[v.id] != kind:
            # the products cached on earlier paths depend on the kinds of the variables
            _KINDS[v.id:] = [kind]
            _mulcache.clear()
    else:
        _KINDS.append(kind)
    return v


# ----------------------------------------------------------------------------- monomials
# key = (plain, group, k) with plain = ((var, exp), ...) sorted, group = ((var, exp_in_units), ...) sorted
ONE = ((), (), 0)
_mulcache: dict = {}
_conjcache: dict = {}


def _merge_plain(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


def _merge_group(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    out = []
    for v, e in d.items():
        if VARS[v].kind == "int":
            e %= 2 * UNIT
        if e:
            out.append((v, e))
    return tuple(sorted(out))


def _mulkey(x, y):
    r = _mulcache.get((x, y))
    if r is None:
        p = _merge_plain(x[0], y[0])
        g = _merge_group(x[1], y[1])
        k = (x[2] + y[2]) % _R.N
        r = tuple(((p, g, e), c) for e, c in _R.red[k])
        if len(_mulcache) > 2_000_000:
            _mulcache.clear()
        _mulcache[x, y] = r
    return r


def _needs_sqrt_reduction(p):
    return any(e >= 2 and VARS[v].kind == "sqrt" for v, e in p)


class S:
    __slots__ = ("d", "n")

    def __init__(self, n=None, d=1):
        self.n = n if n is not None else {}
        self.d = d

    # ---- construction
    @staticmethod
    def const(x):
        if isinstance(x, S):
            return x
        return to_s(x)

    def _norm(self):
        if self.d != 1:
            g = self.d
            for v in self.n.values():
                g = math.gcd(g, v)
                if g == 1:
                    break
            if g != 1:
                self.n = {k: v // g for k, v in self.n.items()}
                self.d //= g
        return self

    # ---- tests
    def is_zero(self):
        return not self.n

    def is_const(self):
        return all(k[0] == () and k[1] == () for k in self.n)

    def is_rational(self):
        return all(k == ONE for k in self.n)

    def rational(self):
        return Fraction(self.n.get(ONE, 0), self.d)

    def is_plain(self):
        return all(k[1] == () for k in self.n)

    # ---- arithmetic
    def __add__(self, o):
        if not isinstance(o, S):
            if isinstance(o, np.ndarray):
                return NotImplemented
            o = to_s(o)
            if o is NotImplemented:
                return o
        if not self.n:
            return o
        if not o.n:
            return self
        if self.d == o.d:
            n = dict(self.n)
            for k, v in o.n.items():
                t = n.get(k, 0) + v
                if t:
                    n[k] = t
                else:
                    del n[k]
            return S(n, self.d)
        g = math.gcd(self.d, o.d)
        a, b = o.d // g, self.d // g
        n = {k: v * a for k, v in self.n.items()}
        for k, v in o.n.items():
            t = n.get(k, 0) + v * b
            if t:
                n[k] = t
            else:
                del n[k]
        return S(n, self.d * a)._norm()

    __radd__ = __add__

    def __neg__(self):
        return S({k: -v for k, v in self.n.items()}, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = to_s(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = to_s(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if not isinstance(o, S):
            if isinstance(o, np.ndarray):
                return NotImplemented
            o = to_s(o)
            if o is NotImplemented:
                return o
        if not self.n or not o.n:
            return S()
        n = {}
        red = False
        for x, a in self.n.items():
            for y, b in o.n.items():
                ab = a * b
                for k, c in _mulkey(x, y):
                    t = n.get(k, 0) + ab * c
                    if t:
                        n[k] = t
                    else:
                        del n[k]
        r = S(n, self.d * o.d)._norm()
        if len(VARS) > 1 and any(k[0] and _needs_sqrt_reduction(k[0]) for k in r.n):
            r = _reduce_sqrt(r)
        return r

    __rmul__ = __mul__

    def inverse(self):
        if not self.n:
            raise ZeroDivisionError("division by zero")
        if self.is_const():
            return _const_inverse(self)
        if len(self.n) == 1:
            ((p, g, k), v), = self.n.items()
            if p and all(a == 0 for a, _ in p):
                pi_inv = S({(tuple((a, -e) for a, e in p), (), 0): 1})
                return pi_inv * S({((), g, k): v}, self.d).inverse()
            if not p:
                r = S({}, abs(v))
                g2 = tuple((a, (-e) % (2 * UNIT) if VARS[a].kind == "int" else -e) for a, e in g)
                for e, c in _R.red[(-k) % _R.N]:
                    r.n[((), g2, e)] = c * self.d * (1 if v > 0 else -1)
                return r._norm()
            if p and all(VARS[x].kind == "sqrt" and e == 1 for x, e in p):
                out = S({(p, (), 0): 1}) * S({((), g, k): v}, self.d).inverse()
                for x, _ in p:
                    out = out * VARS[x].square.inverse()
                return out
        # common group factor times constant
        gs = {k[1] for k in self.n}
        if len(gs) == 1 and all(k[0] == () for k in self.n):
            g = next(iter(gs))
            c = S({((), (), k[2]): v for k, v in self.n.items()}, self.d)
            return c.inverse() * S({((), g, 0): 1}).inverse()
        gp = {(k[0], k[1]) for k in self.n}
        if len(gp) == 1:
            (p, g), = gp
            if p and all(VARS[x].kind == "sqrt" for x, _ in p):
                c = S({((), g, k[2]): v for k, v in self.n.items()}, self.d)
                return c.inverse() * S({(p, (), 0): 1}).inverse()
        if INVERSES[0]:
            return inv_var(self)
        raise Unsupported(f"division by {self!r}")

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = to_s(o)
        if o is NotImplemented:
            return o
        if o.is_const():
            return self * o.inverse()
        q = quotient(self, o)
        if q is not None:
            return q
        return self * o.inverse()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return to_s(o) / self

    def __pow__(self, e):
        if isinstance(e, S):
            if not e.is_rational():
                raise Unsupported("symbolic exponent")
            e = e.rational()
        elif isinstance(e, (float, np.floating)):
            e = _as_fraction(float(e))
        elif isinstance(e, (int, np.integer)):
            e = Fraction(int(e))
        elif isinstance(e, complex) and e.imag == 0:
            e = _as_fraction(e.real)
        else:
            raise Unsupported(f"power {e!r}")
        if e.denominator == 1:
            e = int(e)
            b = self if e >= 0 else self.inverse()
            r, m = to_s(1), abs(e)
            while m:
                if m & 1:
                    r = r * b
                b = b * b
                m >>= 1
            return r
        if e == Fraction(1, 2):
            return sqrt(self)
        if e == Fraction(-1, 2):
            return sqrt(self).inverse()
        raise Unsupported(f"power {e}")

    def __rpow__(self, b):
        if isinstance(b, (int, float)) and abs(float(b) - math.e) < 1e-15:
            return exp(self)
        if self.is_rational():
            return to_s(b) ** self.rational()
        raise Unsupported("symbolic exponent")

    def conjugate(self):
        n = {}
        for k, v in self.n.items():
            ck = _conjcache.get(k)
            if ck is None:
                p = tuple(sorted((VARS[a].conj if VARS[a].conj is not None else a, e) for a, e in k[0]))
                g = tuple((a, (-e) % (2 * UNIT) if VARS[a].kind == "int" else -e) for a, e in k[1])
                ck = tuple(((p, g, e), c) for e, c in _R.red[(-k[2]) % _R.N])
                _conjcache[k] = ck
            for kk, c in ck:
                t = n.get(kk, 0) + v * c
                if t:
                    n[kk] = t
                else:
                    del n[kk]
        return S(n, self.d)

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * HALF

    @property
    def imag(self):
        return (self - self.conjugate()) * (to_s(-1j) * HALF)

    @property
    def T(self):  # noqa: N802
        return self

    def is_real(self):
        return (self - self.conjugate()).is_zero()

    def item(self):
        return self

    # ---- numeric
    def eval(self, env):
        """env: list of numeric values indexed by variable id."""
        tot = 0j
        for (p, g, k), v in self.n.items():
            t = _R.zeta[k] * v
            for a, e in p:
                t *= env[a] ** e
            ph = 0.0
            for a, e in g:
                ph += env[a] * e * (math.pi if VARS[a].kind == "int" else 1.0)
            tot += t * cmath.exp(1j * ph / UNIT)
        return tot / self.d

    def const_value(self):
        return self.eval([math.pi] + [0.0] * (len(VARS) - 1)) if self.is_const() else None

    def __complex__(self):
        if self.is_const():
            return complex(self.const_value())
        if self.is_plain() and all(all(a == 0 for a, _ in k[0]) for k in self.n):
            return complex(self.eval([math.pi] * len(VARS)))
        raise Leak(f"complex({self!r})")

    def __float__(self):
        c = complex(self)
        if abs(c.imag) > 1e-12 * max(1.0, abs(c.real)):
            raise TypeError("can't convert complex to float")
        return c.real

    def __int__(self):
        from . import core

        return core.symbolic_int(self)

    def __index__(self):
        if self.is_rational() and self.rational().denominator == 1:
            return int(self.rational())
        raise TypeError("not an integer")

    __trunc__ = __int__

    def __floor__(self):
        from . import core

        return core.floor(self)

    def __bool__(self):
        from . import core

        return not core.decide_eq(self, to_s(0))

    def __abs__(self):
        return absolute(self)

    def __round__(self, nd=None):
        if nd is None:
            from . import core

            return core.symbolic_int(self + HALF)
        return self.round(nd)

    def round(self, nd=0, *a, **k):
        from . import core

        return core.rounded(self, nd)

    def rint(self):
        return self

    def __mod__(self, m):
        from . import core

        return core.mod(self, to_s(m))

    def __rmod__(self, a):
        from . import core

        return core.mod(to_s(a), self)

    def __floordiv__(self, m):
        from . import core

        m = to_s(m)
        return (self - core.mod(self, m)) / m

    def __divmod__(self, m):
        return self // m, self % m

    # ---- comparisons (decided by the path explorer)
    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = to_s(o)
        if o is NotImplemented:
            return False
        from . import core

        return core.decide_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return _cmp(self, o, "<")

    def __le__(self, o):
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        return _cmp(self, o, ">")

    def __ge__(self, o):
        return _cmp(self, o, ">=")

    def __hash__(self):
        return hash((self.d, frozenset(self.n.items())))

    # ---- methods numpy calls on object arrays
    def exp(self):
        return exp(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def sqrt(self):
        return sqrt(self)

    def arctan2(self, o):
        from . import core

        return core.arctan2(self, to_s(o))

    def arccos(self):
        from . import core

        return core.arccos(self)

    def arcsin(self):
        from . import core

        return core.arcsin(self)

    def floor(self):
        from . import core

        return core.floor(self)

    def square(self):
        return self * self

    def deg2rad(self):
        return self * PI / 180

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if not self.n:
            return "0"
        out = []
        for (p, g, k), v in sorted(self.n.items(), key=lambda t: str(t[0]))[:12]:
            s = str(Fraction(v, self.d))
            if k:
                s += f"*z^{k}"
            for a, e in p:
                s += f"*{VARS[a].name}" + (f"^{e}" if e != 1 else "")
            if g:
                s += "*e(" + "+".join(
                    f"{Fraction(e, UNIT)}{'pi*' if VARS[a].kind == 'int' else ''}{VARS[a].name}" for a, e in g
                ) + ")"
            out.append(s)
        if len(self.n) > 12:
            out.append("...")
        return " + ".join(out)

    def __str__(self):
        from . import shim

        return shim.token(self)

    def __format__(self, spec):
        m = re.fullmatch(r"[+ ]?0?\d*\.(\d+)([feEgG]?)", spec)
        if m:
            return str(self.round(int(m[1]) - (m[2] not in ("f", "e", "E"))))
        if spec and not re.fullmatch(r"[<>^]?\d*", spec):
            raise Unsupported(f"formatting with {spec!r}")
        return str(self)


def _cmp(a, b, op):
    if isinstance(b, np.ndarray):
        return NotImplemented
    b = to_s(b)
    if b is NotImplemented:
        return b
    from . import core

    return core.decide_cmp(a, b, op)


HALF = None
PI = None


# ----------------------------------------------------------------------------- numbers
def _as_fraction(x: float) -> Fraction:
    f = Fraction(x)
    if f.denominator <= 1 << 24:
        return f
    g = f.limit_denominator(5040)
    if g and abs(float(g) - x) <= 4e-15 * abs(x):
        return g
    return f


@lru_cache(4096)
def _float_to_s_parts(x: float):
    """classify a float: ('q', Fraction) or ('pi', Fraction) or ('sqrt', sign, Fraction)."""
    f = Fraction(x)
    if f.denominator <= 1 << 24:
        return ("q", f)
    g = f.limit_denominator(5040)
    if g and abs(float(g) - x) <= 4e-15 * abs(x):
        return ("q", g)
    y = x / math.pi
    g = Fraction(y).limit_denominator(1440)
    if g and abs(float(g) - y) <= 4e-15 * abs(y):
        return ("pi", g)
    sq = x * x
    g = Fraction(sq).limit_denominator(1000)
    if g and abs(float(g) - sq) <= 8e-15 * abs(sq):
        try:
            r = sqrt_rational(g)
        except Unsupported:
            r = None
        if r is not None:
            return ("sqrt", 1 if x > 0 else -1, g)
    # cos/sin of rational multiples of pi
    if abs(x) <= 1:
        y = math.acos(x) / math.pi
        g = Fraction(y).limit_denominator(_R.N)
        if (_R.N * g / 2).denominator == 1 and abs(math.cos(float(g) * math.pi) - x) < 4e-14:
            return ("cos", g)
    return ("q", f)


def to_s(x):
    if isinstance(x, S):
        return x
    if isinstance(x, (bool, np.bool_)):
        return S({ONE: 1}) if x else S()
    if isinstance(x, (int, np.integer)):
        return S({ONE: int(x)}) if x else S()
    if isinstance(x, Fraction):
        return S({ONE: x.numerator}, x.denominator) if x else S()
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == 0:
            return S()
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan or inf")
        t = _float_to_s_parts(x)
        if t[0] == "q":
            return S({ONE: t[1].numerator}, t[1].denominator)
        if t[0] == "pi":
            return S({(((0, 1),), (), 0): t[1].numerator}, t[1].denominator)
        if t[0] == "cos":
            return cos(PI * to_s(t[1]))
        return sqrt_rational(t[2]) * to_s(t[1])
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if x.imag and x.real:
            k = round(cmath.phase(x) / (2 * math.pi) * _R.N)
            if abs(x - abs(x) * _R.zeta[k % _R.N]) < 3e-14 * abs(x):
                m = abs(x)
                if abs(m - 1) < 1e-13:
                    m = 1.0
                try:
                    return to_s(m) * root(Fraction(2 * k, _R.N))
                except Unsupported:
                    pass
        r = to_s(x.real)
        if x.imag:
            r = r + to_s(x.imag) * root(Fraction(1, 2))
        return r
    if isinstance(x, np.ndarray) and x.shape == ():
        return to_s(x.item())
    return NotImplemented


def root(q: Fraction):
    """exp(i*pi*q)."""
    k = q * _R.N / 2
    if k.denominator != 1:
        raise Unsupported(f"exp(i*pi*{q}) outside Q(zeta_{_R.N})")
    return S({((), (), e): c for e, c in _R.red[int(k) % _R.N]})


def _factor(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def sqrt_rational(q: Fraction):
    if q < 0:
        return sqrt_rational(-q) * root(Fraction(1, 2))
    if q == 0:
        return S()
    n = q.numerator * q.denominator
    out = to_s(Fraction(1, q.denominator))
    for p, e in _factor(n).items():
        out = out * to_s(p ** (e // 2))
        if e % 2:
            if p == 2:
                out = out * (root(Fraction(1, 4)) + root(Fraction(-1, 4)))
            else:
                if _R.N % p:
                    out = out * sqrt_var(to_s(p))
                    continue
                g = S()
                for a in range(1, p):
                    leg = pow(a, (p - 1) // 2, p)
                    leg = 1 if leg == 1 else -1
                    g = g + root(Fraction(2 * a, p)) * to_s(leg)
                if p % 4 == 3:
                    g = g * root(Fraction(-1, 2))
                if complex(g).real < 0:
                    g = -g
                out = out * g
    return out


def _const_inverse(x):
    if x.is_rational():
        return to_s(1 / x.rational())
    deg = len(list(cyclotomic(_R.N))) - 1
    # solve x*y = 1 in the basis
    a = [[Fraction(0)] * deg for _ in range(deg)]
    for j in range(deg):
        col = x * S({((), (), j): 1})
        for k, v in col.n.items():
            a[k[2]][j] = Fraction(v, col.d)
    b = [Fraction(0)] * deg
    b[0] = Fraction(1)
    # try a subfield shortcut: conj product
    nrm = x * x.conjugate()
    if nrm.is_rational():
        return x.conjugate() * to_s(1 / nrm.rational())
    for i in range(deg):
        piv = next(r for r in range(i, deg) if a[r][i])
        a[i], a[piv] = a[piv], a[i]
        b[i], b[piv] = b[piv], b[i]
        inv = 1 / a[i][i]
        a[i] = [z * inv for z in a[i]]
        b[i] *= inv
        for r in range(deg):
            if r != i and a[r][i]:
                f = a[r][i]
                a[r] = [z - f * w for z, w in zip(a[r], a[i])]
                b[r] -= f * b[i]
    out = S()
    for j, v in enumerate(b):
        if v:
            out = out + S({((), (), j): v.numerator}, v.denominator)
    return out


def _reduce_sqrt(x):
    out = S()
    for (p, g, k), v in x.n.items():
        fac = None
        np_ = []
        for a, e in p:
            if VARS[a].kind == "sqrt" and e >= 2:
                t = VARS[a].square ** (e // 2)
                fac = t if fac is None else fac * t
                if e % 2:
                    np_.append((a, 1))
            else:
                np_.append((a, e))
        term = S({(tuple(np_), g, k): v}, x.d)
        out = out + (term if fac is None else term * fac)
    return out


# ----------------------------------------------------------------------------- elementary functions
def linear_form(x):
    """x as {var: Fraction} over plain degree-1 terms; PI*int products appear as key (0, var). None if not linear."""
    out = {}
    for (p, g, k), v in x.n.items():
        if g or k:
            return None
        if p == ():
            key = None
        elif len(p) == 1 and p[0][1] == 1:
            key = p[0][0]
        elif len(p) == 2 and p[0] == (0, 1) and p[1][1] == 1 and VARS[p[1][0]].kind == "int":
            key = (0, p[1][0])
        else:
            return None
        out[key] = Fraction(v, x.d)
    return out


def exp_i(x):
    """exp(i*x) for a real linear form x."""
    if any(VARS[v].kind == "abs" for k in x.n for v, _ in k[0]):
        from . import core

        x = core.resolve_abs(x)
    f = linear_form(x)
    if f is None:
        raise Unsupported(f"exp(i*({x!r}))")
    g = []
    r = to_s(1)
    for key, c in f.items():
        if key is None:
            raise Unsupported(f"exp(i*({x!r})): rational angle")
        if isinstance(key, tuple):
            e = c * UNIT
            if e.denominator != 1:
                raise Unsupported("exponent granularity")
            e = int(e) % (2 * UNIT)
            if e:
                g.append((key[1], e))
        elif key == 0:
            r = r * root(c)
        elif VARS[key].kind == "angle":
            e = c * UNIT
            if e.denominator != 1:
                raise Unsupported("exponent granularity")
            g.append((key, int(e)))
        elif VARS[key].kind == "arc" and c.denominator == 1:
            u = VARS[key].square if c > 0 else VARS[key].square.conjugate()
            for _ in range(abs(int(c))):
                r = r * u
        else:
            raise Unsupported(f"exp(i*({x!r}))")
    return r * S({((), tuple(sorted(g)), 0): 1})


def exp(x):
    if not isinstance(x, S):
        x = to_s(x)
    y = x * to_s(-1j)
    if y.is_zero():
        return to_s(1)
    return exp_i(y)


def cos(x):
    e = exp_i(to_s(x))
    return (e + e.conjugate()) * HALF


def sin(x):
    e = exp_i(to_s(x))
    return (e - e.conjugate()) * (to_s(-1j) * HALF)


_sqrtvars: dict = {}


INVERSES = [False]  # reciprocals of general values as variables (instances that ask for it)
_invvars: dict = {}


def inv_var(x):
    """1/x as a new variable; assertions multiply it out (clear_inverses). Requires x != 0."""
    g = 0
    for c in x.n.values():
        g = math.gcd(g, c)
    if next(iter(sorted(x.n.items())))[1] < 0:
        g = -g
    cont = Fraction(g, x.d)
    prim = S({k: c // g for k, c in x.n.items()}, 1)
    key = frozenset(prim.n.items())
    v = _invvars.get(key)
    if v is None or v.id >= len(VARS) or VARS[v.id] is not v:
        v = new_var(f"inv#{len(VARS)}", "inv")
        v.square = prim
        _invvars[key] = v
        if not prim.is_real():
            w = new_var(f"inv#{len(VARS)}", "inv")
            w.square = prim.conjugate()
            _invvars[frozenset(w.square.n.items())] = w
            v.conj, w.conj = w.id, v.id
    return S({(((v.id, 1),), (), 0): 1}) * to_s(1 / cont)


def clear_inverses(x):
    """a value that vanishes exactly when x does, without reciprocals."""
    while True:
        ids = {v for k in x.n for v, _ in k[0] if VARS[v].kind == "inv"}
        if not ids:
            return x
        i = max(ids)
        top = max(dict(k[0]).get(i, 0) for k in x.n)
        pw = [to_s(1)]
        for _ in range(top):
            pw.append(pw[-1] * VARS[i].square)
        out = S()
        for k, c in x.n.items():
            e = dict(k[0])
            m = e.pop(i, 0)
            out = out + S({(tuple(sorted(e.items())), k[1], k[2]): c}, x.d) * pw[top - m]
        x = out


def sqrt_var(sq):
    """non-negative square root of a real, non-negative ring element as a new variable."""
    key = (sq.d, frozenset(sq.n.items()))
    v = _sqrtvars.get(key)
    if v is None or v.id >= len(VARS) or VARS[v.id] is not v:
        v = new_var(f"sqrt#{len(VARS)}", "sqrt")
        v.square = sq
        _sqrtvars[key] = v
    return S({(((v.id, 1),), (), 0): 1})


def sqrt(x):
    x = to_s(x)
    if x.is_zero():
        return x
    if x.is_rational():
        return sqrt_rational(x.rational())
    if x.is_const():
        v = complex(x)
        if abs(v.imag) < 1e-12:
            # try c*root
            for m in (1, 2, 3, 5, 6, 7, 10):
                t = v.real / math.sqrt(m)
        g = _const_sqrt(x)
        if g is not None:
            return g
    from . import core

    return core.sqrt_positive(x)


def _const_sqrt(x):
    return None


def absolute(x):
    if x.is_zero():
        return x
    from . import core

    return core.absolute(x)


# ----------------------------------------------------------------------------- exact division
def _gvec(g):
    return tuple(sorted((v, e) for v, e in g.items() if e))


def _gadd(a, b, m):
    """group key a plus m times vector b."""
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + m * e
    out = []
    for v, e in d.items():
        if VARS[v].kind == "int":
            e %= 2 * UNIT
        if e:
            out.append((v, e))
    return tuple(sorted(out))


def _pivot(g):
    for v, e in g:
        if VARS[v].kind == "angle":
            return v, e
    return None


def _buckets(x, g):
    """the terms of x by cosets of g; None if some coset has one power of g only (then no binomial in g divides x)."""
    var, e = _pivot(g)
    buckets = {}
    rests = {}
    for (p, h, k), v in x.n.items():
        r = rests.get(h)
        if r is None:
            ex = 0
            for a, q in h:
                if a == var:
                    ex = q
                    break
            m = ex // e
            r = rests[h] = (m, _gadd(h, g, -m))
        m, rest = r
        b = buckets.setdefault(rest, {})
        s = b.get(m)
        if s is None:
            s = b[m] = {}
        s[(p, rest, k)] = v
    for b in buckets.values():
        if len(b) < 2:
            return None
    return [{m: S(t, x.d) for m, t in b.items()} for b in buckets.values()]


def divide_by_binomial(x, g, c, buckets=None):
    """x / (1 + c*t) with t the group monomial g (pivot exponent positive), c constant; None if it does not divide."""
    if buckets is None:
        buckets = _buckets(x, g)
        if buckets is None:
            return None
    out = []
    zero = S()
    for coeffs in buckets:
        lo, hi = min(coeffs), max(coeffs)
        prev = zero
        for m in range(lo, hi + 1):
            q = coeffs.get(m, zero) - c * prev
            if m == hi:
                if q.n:
                    return None
                break
            prev = q
            if q.n:
                out.append((m, q))
    tot = S()
    for m, q in out:
        tot = tot + S({(p, _gadd(h, g, m), k): v for (p, h, k), v in q.n.items()}, q.d)
    return tot


def half(g):
    out = []
    for v, e in g:
        if VARS[v].kind == "int":
            if e % 2:
                return None
            out.append((v, e // 2))
        else:
            if e % 2:
                return None
            out.append((v, e // 2))
    return tuple(out)


def mono(g):
    return S({((), tuple(g), 0): 1})


def _binomial_coeffs():
    return [(k, root(Fraction(2 * k, _R.N))) for k in range(_R.N)]


def factor_trig(x, full=False):
    """x = rest * prod of cos(f_i), f_i = half-group form + rational multiple of pi.

    Returns (rest, [(g, q)]) where a factor (g, q) stands for cos(g/2-form + q*pi) with g given as the halved group.
    """
    key = (frozenset(x.n.items()), x.d, tuple((v, VARS[v].kind) for v in sorted({v for k in x.n for v, _ in k[1]})), _R.N)
    r = _FAC.get(key)
    if r is None:
        if len(_FAC) > 20000:
            _FAC.clear()
        r = _FAC[key] = _factor_trig(x)
    return r[0], list(r[1])


_FAC: dict = {}


def _factor_trig(x):
    factors = []
    cur = x
    guard = 0
    while guard < 40:
        guard += 1
        gs = sorted({k[1] for k in cur.n})
        if len(gs) == 1:
            break
        found = False
        # candidate directions: differences to the lexicographically extreme groups
        cands = []
        base = gs[0]
        for other in gs[1:]:
            d = _gadd(other, base, -1)
            cands.append(d)
        for i in range(1, min(len(gs), 6)):
            for other in gs[i + 1 : i + 6]:
                cands.append(_gadd(other, gs[i], -1))
        seen = set()
        for d in cands:
            pv = _pivot(d)
            if pv is None:
                continue
            if pv[1] < 0:
                d = _gadd((), d, -1)
            if d in seen:
                continue
            seen.add(d)
            if half(d) is None:
                continue
            bk = _buckets(cur, d)
            if bk is None:
                continue
            for c, q in _candidate_consts(cur, d):
                y = divide_by_binomial(cur, d, c, bk)
                if y is None:
                    continue
                # 1 + c t with c = exp(i pi 2q'), t = exp(i 2 f): = 2 exp(i(f+q pi)) cos(f + q pi)
                h = half(d)
                cur = y * mono(h) * root(q) * to_s(2)
                factors.append((h, q))
                found = True
                break
            if found:
                break
        if not found:
            break
    return cur, factors


def _candidate_consts(x, d):
    """(c, q) with c = exp(2 pi i q) a root of unity such that 1 + c t may divide x."""
    out = []
    for k in (0, _R.N // 2, _R.N // 4, 3 * _R.N // 4):
        out.append((root(Fraction(2 * k, _R.N)), Fraction(k, _R.N)))
    rest = [k for k in range(_R.N) if k not in (0, _R.N // 2, _R.N // 4, 3 * _R.N // 4)]
    if len(x.n) <= 8:
        for k in rest:
            if (Fraction(k, _R.N) * _R.N / 2).denominator == 1:
                out.append((root(Fraction(2 * k, _R.N)), Fraction(k, _R.N)))
    return out


def quotient(a, b):
    """exact a/b if b is a monomial times cos factors that all divide a; None otherwise."""
    if b.is_zero():
        raise ZeroDivisionError
    if a.is_zero():
        return a
    if len(b.n) == 1 and next(iter(b.n))[0]:
        # a monomial in plain variables that every term of a contains
        (p, g, k), v = next(iter(b.n.items()))
        r = {}
        for (pa, ga, ka), c in a.n.items():
            e = dict(pa)
            if any(e.get(x, 0) < n for x, n in p):
                break
            for x, n in p:
                e[x] -= n
            kk = (tuple(sorted((x, n) for x, n in e.items() if n)), ga, ka)
            r[kk] = r.get(kk, 0) + c
        else:
            return S(r, a.d) * S({((), g, k): v}, b.d).inverse()
    rest, factors = factor_trig(b)
    x = a
    for h, q in factors:
        c = root(2 * q)
        y = divide_by_binomial(x, _gadd(h, h, 1), c)
        if y is None:
            return None
        x = y * mono(h) * root(q) * to_s(2)
    try:
        return x * rest.inverse()
    except Unsupported:
        return None


def form_of(h, q):
    """the linear form of a factor (h, q) as an S."""
    out = PI * to_s(q)
    for v, e in h:
        if VARS[v].kind == "int":
            out = out + PI * S({(((v, 1),), (), 0): e}, UNIT)
        else:
            out = out + S({(((v, 1),), (), 0): e}, UNIT)
    return out


def init(n=48):
    global HALF, PI
    reset_vars()
    _sqrtvars.clear()
    _invvars.clear()
    set_ring(n)
    HALF = S({ONE: 1}, 2)
    PI = S({(((0, 1),), (), 0): 1})


init()
