"""Signs of trigonometric polynomials: which outcomes does the solver leave over the cosines and sines of the angles."""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

from . import sym
from .sym import VARS, Unsupported

TIMEOUT = 400  # ms per query


def rational(a):
    f = Fraction(a).limit_denominator(5040)
    if abs(float(f) - a) < 1e-14:
        return f
    return Fraction(a).limit_denominator(10**10)


def num(f):
    return z3.Q(f.numerator, f.denominator)


class Trig:
    def __init__(self, p):
        self.p = p
        self.solver = z3.SolverFor("QF_NRA")
        self.solver.set("timeout", TIMEOUT)
        self.cs, self.plain = {}, {}

    def bounds(self, v):
        zv = self.p.zvars.get(v)
        for kind, t, lo, hi in self.p.inputs.values():
            if kind == "angle" and zv is not None and t.eq(zv):
                return float(lo) / 2, float(hi) / 2
        return None

    def pair(self, v):
        """cosine and sine of half the angle"""
        r = self.cs.get(v)
        if r is None:
            c, s = z3.Real(f"c{v}"), z3.Real(f"s{v}")
            r = self.cs[v] = (c, s)
            self.solver.add(c * c + s * s == 1)
            b = self.bounds(v)
            for t, f in ((c, 0.0), (s, math.pi / 2)):
                lo, hi = -1.0, 1.0
                if b is not None and b[1] - b[0] < 2 * math.pi:
                    ends = [math.cos(b[0] - f), math.cos(b[1] - f)]
                    k0, k1 = math.ceil((b[0] - f) / math.pi + 1e-9), math.floor((b[1] - f) / math.pi - 1e-9)
                    ends += [1.0 if k % 2 == 0 else -1.0 for k in range(k0, k1 + 1)]
                    lo, hi = min(ends), max(ends)
                self.solver.add(t >= num(rational(lo)), t <= num(rational(hi)))
        return r

    def power(self, v, e):
        """(re, im) of exp(i e/UNIT angle)"""
        k, r = divmod(abs(e) * 2, sym.UNIT)
        if r:
            raise Unsupported("exponent")
        key = (v, k)
        out = self.plain.get(key)
        if out is None:
            c, s = self.pair(v)
            re, im = None, None
            for _ in range(k):
                re, im = (c, s) if re is None else (re * c - im * s, re * s + im * c)
            out = self.plain[key] = (re, im)
        return out if e > 0 else (out[0], -out[1])

    def other(self, v):
        out = self.plain.get(v)
        if out is not None:
            return out
        k = VARS[v]
        w = z3.Real(f"w{v}")
        if k.kind == "pi":
            w = num(Fraction(math.pi))
        elif k.kind == "real":
            lo, hi = next(((lo, hi) for kind, t, lo, hi in self.p.inputs.values() if kind == "real" and t.eq(self.p.zvars[v])), (None, None))
            if lo is not None:
                self.solver.add(w >= num(Fraction(lo)), w <= num(Fraction(hi)))
        elif k.kind == "sqrt":
            self.solver.add(w > 0, w * w == self.term(k.square))
        elif k.kind == "inv":
            self.solver.add(w * self.term(k.square) == 1)
        else:
            raise Unsupported(k.kind)
        self.plain[v] = w
        return w

    def term(self, x):
        by = {}
        n = sym._R.N
        for (p, g, k), c in x.n.items():
            by[p, g] = by.get((p, g), 0) + c / x.d * sym._R.zeta[k % n]
        out = []
        for (p, g), a in by.items():
            re, im = num(rational(a.real)), num(rational(a.imag))
            zr, zi = abs(a.real) < 1e-14, abs(a.imag) < 1e-14
            if g:
                pr, pi = None, None
                for v, e in g:
                    if VARS[v].kind != "angle" or VARS[v].square is not None:
                        raise Unsupported("phase")
                    y = self.power(v, e)
                    pr, pi = y if pr is None else (pr * y[0] - pi * y[1], pr * y[1] + pi * y[0])
                t = [] if zr else [re * pr]
                if not zi:
                    t.append(-im * pi)
            else:
                t = [] if zr else [re]
            for y in t:
                for v, e in p:
                    if e < 0:
                        raise Unsupported("negative power")
                    w = self.other(v)
                    for _ in range(e):
                        y = y * w
                out.append(y)
        return z3.Sum(out) if out else num(Fraction(0))

    def can(self, c):
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.p.stats["solver_s"] += time.time() - t
        self.p.stats["queries"] += 1
        return r != z3.unsat


def decide(p, x, why):
    """+1 or -1: the sign of a real value that does not vanish identically (its zero set left out)"""
    from .core import Infeasible

    tr = p.__dict__.get("trigs")
    if tr is None:
        tr = p.__dict__["trigs"] = Trig(p)
    try:
        t = tr.term(x)
    except Unsupported:
        return 1 if p.guess(why) else -1
    p.stats["decisions"] += 1
    if p.pos < len(p.prefix):
        val = p.prefix[p.pos]
        p._take(val, True)
    else:
        up, down = tr.can(t > 0), tr.can(t < 0)
        if not up and not down:
            raise Infeasible
        val = up
        if up and down:
            p.open.append(p.trail + [False])
        p._take(val, False)
    tr.solver.add(t > 0 if val else t < 0)
    if len([1 for k in x.n if k[1]]):
        p.over = True
        if len(p.notes) < 3:
            p.notes.append(why)
    return 1 if val else -1
