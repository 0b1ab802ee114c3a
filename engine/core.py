"""Path exploration: every data-dependent decision of the executed code is put to z3.

A run executes the real function on symbolic values.  Whenever the code needs the truth value of a comparison of
symbolic values the explorer asks z3 which outcomes are possible under the path condition, takes one, remembers the
other, and re-executes the harness until no outcome is left.
"""
from __future__ import annotations

import math
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import sym, trig  # noqa: E402
from .sym import S, Unsupported, VARS, to_s  # noqa: E402

# angles are measured in a unit in which pi is 355/113 (small coefficients keep the linear arithmetic fast); model
# values are scaled back by PI_SCALE, so statements that are homogeneous in angles and pi are exact
PI_Q = Fraction(math.pi).limit_denominator(10**13)
PI_SCALE = 1.0
SMALL = Fraction(1, 1000)


class Infeasible(BaseException):
    """The path condition became unsatisfiable (an assumption excludes this path)."""


class Budget(Exception):
    """Path or time budget used up."""


def q(x):
    x = Fraction(x)
    return z3.RatVal(x.numerator, x.denominator)


class Path:
    """The state of one execution."""

    def __init__(self, prefix=(), stats=None, deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []  # decisions taken
        self.open = []  # alternatives (prefixes) left
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.atoms = []
        self.zvars = {}
        self.generic = []  # S values assumed not to be tiny
        self.notes = []
        self.over = False  # some decision was taken without a constraint
        self.stats = stats if stats is not None else {"queries": 0, "solver_s": 0.0, "decisions": 0}
        self.deadline = deadline
        self.inputs = {}  # name -> description
        self.ints = {}
        self.model = None  # a model of everything added so far
        self.memo = {}
        self.rounding = False
        self.trig = False  # signs of trigonometric polynomials are put to the solver
        self.sharp = 0.0  # tolerance of instances that keep the strips around thresholds

    # -------------------------------------------------------------- z3
    def check(self, *extra):
        if self.model is not None and all(self._true(e) for e in extra):
            self.stats["queries"] += 1
            return z3.sat
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.sat:
            self.model = self.solver.model()
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        return r

    def _true(self, c):
        return z3.is_true(self.model.eval(c, model_completion=True))

    def add(self, c):
        self.solver.add(c)
        self.atoms.append(c)
        if self.model is not None and not self._true(c):
            self.model = None

    def zvar(self, vid):
        v = self.zvars.get(vid)
        if v is None:
            k = VARS[vid]
            if k.kind == "int":
                v = z3.Int(f"k{vid}_{k.name}")
            elif k.kind == "pi":
                v = q(PI_Q)
            elif k.kind == "arc":
                v = q(Fraction(k.lo))
            else:
                v = z3.Real(f"v{vid}_{k.name}")
            self.zvars[vid] = v
            if k.kind == "sqrt":
                self.add(v >= 0)
        return v

    def z(self, x):
        """z3 term of a real polynomial in the plain variables; None if x is not one."""
        tot = []
        for (p, g, k), c in x.n.items():
            if g or k:
                return None
            t = q(Fraction(c, x.d))
            for v, e in p:
                if v == 0:
                    t = t * q(PI_Q**e)
                    continue
                if VARS[v].kind in ("cplx", "inv") or e < 0:
                    return None
                zv = self.zvar(v)
                if VARS[v].kind == "int":
                    zv = z3.ToReal(zv)
                for _ in range(e):
                    t = t * zv
            tot.append(t)
        if not tot:
            return q(0)
        return z3.simplify(z3.Sum(tot)) if len(tot) > 1 else tot[0]

    # -------------------------------------------------------------- decisions
    def _take(self, val, forced):
        self.trail.append(val)
        self.pos += 1

    def branch(self, cond, free=False):
        """truth value of the z3 condition on this path."""
        self.stats["decisions"] += 1
        if isinstance(cond, bool):
            return cond
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            if not free:
                self.add(cond if val else z3.Not(cond))
            self._take(val, True)
            return val
        if free:
            self.open.append(self.trail + [False])
            self._take(True, False)
            return True
        t = self.check(cond)
        if t == z3.unsat:
            self._take(False, True)
            self.add(z3.Not(cond))
            return False
        f = self.check(z3.Not(cond))
        if f == z3.unsat:
            self._take(True, True)
            self.add(cond)
            return True
        if t == z3.unknown or f == z3.unknown:
            self.over = True
        self.open.append(self.trail + [False])
        self._take(True, False)
        self.add(cond)
        return True

    def guess(self, why):
        """a decision the encoding cannot express: both outcomes are explored, unconstrained."""
        self.over = True
        self.notes.append(why)
        return self.branch(None, free=True)

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible
        self.add(cond)
        if self.check() == z3.unsat:
            raise Infeasible

    def nonneg_or_not(self, form):
        return self.branch(self.z(form) >= 0)


CUR: Path | None = None


def path() -> Path:
    if CUR is None:
        raise Unsupported("symbolic value outside an execution")
    return CUR


# ------------------------------------------------------------------ numeric points
def env_from_model(p: Path, model):
    env = []
    rng = random.Random(7)
    for v in VARS:
        if v.kind == "pi":
            env.append(math.pi)
        elif v.kind == "arc":
            env.append(v.lo)
        elif v.kind == "cplx":
            if v.conj is not None and v.conj < v.id:
                env.append(complex(env[v.conj]).conjugate())
            else:
                env.append(complex(rng.uniform(-1, 1), rng.uniform(-1, 1)))
        elif v.kind == "angle" and v.square is not None:
            z = complex(v.square.eval(env))
            env.append(math.atan2(z.imag, z.real))
        elif v.kind == "sqrt" and v.square is not None:
            sq = v.square.eval(env)
            env.append(math.sqrt(max(0.0, sq.real)))
        elif v.kind == "inv":
            env.append(1 / v.square.eval(env))
        elif v.id in p.zvars:
            m = model.eval(p.zvars[v.id], model_completion=True)
            env.append(z3num(m) * (PI_SCALE if v.kind in ("angle", "abs") else 1))
        else:
            env.append(rng.uniform(0.1, 0.9))
    return env


def z3num(m):
    if z3.is_int_value(m):
        return m.as_long()
    if z3.is_rational_value(m):
        return float(Fraction(m.numerator_as_long(), m.denominator_as_long()))
    if z3.is_algebraic_value(m):
        return float(m.approx(20).as_fraction())
    if z3.is_true(m):
        return True
    if z3.is_false(m):
        return False
    raise Unsupported(f"model value {m}")


def points(p: Path, n=3, seed=0, extra=()):
    """up to n points satisfying the path condition, spread over its interior."""
    out = []
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*p.atoms)
    s.add(*extra)
    rng = random.Random(seed)

    def chk(*a):
        t = time.time()
        r = s.check(*a)
        p.stats["solver_s"] += time.time() - t
        p.stats["queries"] += 1
        return r

    if chk() != z3.sat:
        return out
    inputs = [i for i in p.inputs.values() if i[0] in ("real", "angle")]
    for a in range(n):
        s.push()
        for _, zv, lo, hi in inputs:
            lo_, hi_ = Fraction(lo), Fraction(hi)
            done = False
            for _ in range(3):
                t = lo_ + (hi_ - lo_) * Fraction(rng.randint(30, 970), 1000)
                if chk(zv == q(t)) == z3.sat:
                    s.add(zv == q(t))
                    done = True
                    break
            if not done:
                # an interval of the feasible region
                for w in (Fraction(1, 8), Fraction(1, 64), Fraction(1, 512)):
                    if chk() != z3.sat:
                        break
                    m = s.model().eval(zv, model_completion=True)
                    try:
                        c = Fraction(z3num(m))
                    except Unsupported:
                        break
                    for sg in (1, -1):
                        t = c + sg * w * (hi_ - lo_)
                        if lo_ <= t <= hi_ and chk(zv == q(t)) == z3.sat:
                            s.add(zv == q(t))
                            done = True
                            break
                    if done:
                        break
        if chk() == z3.sat:
            env = env_from_model(p, s.model())
            bad = False
            for g in p.generic:
                try:
                    if abs(g.eval(env)) < 1e-3:
                        bad = True
                except Exception:  # noqa: BLE001
                    pass
            out.append((bad, env, s.model()))
        s.pop()
    out.sort(key=lambda t: t[0])
    return out


# ------------------------------------------------------------------ decisions on S
def const_num(x):
    """numeric value of a constant S, or None."""
    if x.is_const():
        return complex(x.const_value())
    if all(k[1] == () for k in x.n) and all(all(v == 0 for v, _ in k[0]) for k in x.n):
        return complex(x.eval([math.pi] * len(VARS)))
    # square roots of constants
    ids = {v for k in x.n for v, _ in k[0]}
    if all(k[1] == () for k in x.n) and all(
        VARS[v].kind in ("pi", "arc") or (VARS[v].kind == "sqrt" and const_num(VARS[v].square) is not None) for v in ids
    ):
        env = [0.0] * len(VARS)
        env[0] = math.pi
        for v in sorted(ids):
            if VARS[v].kind == "arc":
                env[v] = VARS[v].lo
            elif VARS[v].kind == "sqrt":
                env[v] = math.sqrt(max(0.0, const_num(VARS[v].square).real))
        return complex(x.eval(env))
    return None


def decide_eq(a, b):
    d = a - b
    if not d.n:
        return True
    c = const_num(d)
    if c is not None:
        return abs(c) < 1e-14
    p = path()
    if len(d.n) == 1:
        (pl, _, _), = d.n
        if len(pl) == 1 and VARS[pl[0][0]].kind == "sqrt":
            return decide_eq(VARS[pl[0][0]].square, to_s(0))
    zt = p.z(d)
    if zt is not None:
        return p.branch(zt == 0)
    # a non-constant function of the angles: zero only on a set the strata treat separately
    r, f = sym.factor_trig(d)
    if f and const_num(r * r.conjugate()) is not None:
        for h, qq in f:
            form = sym.form_of(h, qq)
            # cos(form) == 0 iff form = pi/2 + pi*K
            if _cos_can_vanish(p, form):
                k = sym.new_var(f"z{len(VARS)}", "int")
                zk = p.zvar(k.id)
                zf = p.z(form)
                hit = zf == q(PI_Q) * (z3.ToReal(zk) + q(Fraction(1, 2)))
                if p.branch(hit):
                    return True
        return False
    p.generic.append(d)
    return False


def _cos_can_vanish(p, form):
    zf = p.z(form)
    if zf is None:
        return False
    k = z3.Int("cv")
    r = p.check(zf == q(PI_Q) * (z3.ToReal(k) + q(Fraction(1, 2))))
    return r != z3.unsat


def cos_sign(form):
    """sign (+1/-1) of cos(form) on this path, the zero set excluded when it is not forced."""
    p = path()
    key = ("cos", tuple(sorted(form.n.items())), form.d)
    r = p.memo.get(key)
    if r is None:
        r = p.memo[key] = _cos_sign(p, form)
    return r


def int_part(p, zt, width):
    """the integer k with zt in [k*width, (k+1)*width) up to the boundary, if the path leaves only one; else None."""
    if p.check() != z3.sat:
        raise Infeasible
    m = p.model.eval(zt, model_completion=True)
    if not z3.is_rational_value(m):
        return None
    k = math.floor(Fraction(m.numerator_as_long(), m.denominator_as_long()) / width)
    if p.check(z3.Or(zt < q(k * width), zt > q((k + 1) * width))) != z3.unsat:
        return None
    return k


def _cos_sign(p, form):
    zf = p.z(form)
    if zf is None:
        return 1 if p.guess(f"sign of cos({form!r})") else -1
    k = int_part(p, zf + q(PI_Q / 2), PI_Q)
    if k is not None:
        p.generic.append(sym.cos(form))
        return 1 if k % 2 == 0 else -1
    k = sym.new_var(f"s{len(VARS)}", "int")
    zk = p.zvar(k.id)
    # form in [-pi/2 + pi k, pi/2 + pi k]
    p.add(z3.And(zf >= q(PI_Q) * (z3.ToReal(zk) - q(Fraction(1, 2))), zf <= q(PI_Q) * (z3.ToReal(zk) + q(Fraction(1, 2)))))
    p.generic.append(sym.cos(form))
    if p.check() != z3.sat:
        raise Infeasible
    even = p.branch(zk % 2 == 0)
    return 1 if even else -1


def split_positive(x):
    """x = unit * factors..., returns (rest, [forms of cos factors], positive plain part)."""
    rest, fac = sym.factor_trig(x)
    forms = [sym.form_of(h, qq) for h, qq in fac]
    pos = to_s(1)
    # common square-root variables are non-negative
    if rest.n:
        common = None
        for k in rest.n:
            s = {(v, e) for v, e in k[0] if VARS[v].kind == "sqrt"}
            common = s if common is None else common & s
        for v, e in common or ():
            sv = S({(((v, e),), (), 0): 1})
            pos = pos * sv
            rest = S(
                {(tuple(t for t in k[0] if t != (v, e)), k[1], k[2]): c for k, c in rest.n.items()}, rest.d
            )
    return rest, forms, pos


def unit_of(rest):
    """(exp_i-linear form t, positive const m) with rest = m*exp(i t) for a single monomial; None otherwise."""
    gs = {(k[0], k[1]) for k in rest.n}
    if len(gs) != 1:
        return None
    (pl, g), = gs
    if pl:
        return None
    c = S({((), (), k[2]): v for k, v in rest.n.items()}, rest.d)
    ph = const_phase(c)
    if ph is None:
        return None
    t = PI_S() * to_s(ph)
    for v, e in g:
        if VARS[v].kind == "int":
            t = t + PI_S() * S({(((v, 1),), (), 0): e}, sym.UNIT)
        else:
            t = t + S({(((v, 1),), (), 0): e}, sym.UNIT)
    m = c * sym.root(-ph)
    return t, m


def PI_S():
    return sym.PI


def const_phase(c):
    """q with c = |c| exp(i pi q) if the phase is a multiple of 2pi/N, else None."""
    z = complex(c.const_value())
    k = round(math.atan2(z.imag, z.real) / math.pi * sym._R.N / 2)
    ph = Fraction(2 * k, sym._R.N)
    m = c * sym.root(-ph)
    return ph if m.is_real() else None


def sign_of(x):
    """sign of a real S (+1, -1 or 0)."""
    c = const_num(x)
    if c is not None:
        return 0 if abs(c) < 1e-15 else (1 if c.real > 0 else -1)
    p = path()
    zt = p.z(x)
    if zt is not None:
        if p.branch(zt == 0):
            return 0
        return 1 if p.branch(zt > 0) else -1
    rest, forms, _ = split_positive(x)
    if const_num(rest) is not None:
        s = 1 if const_num(rest).real > 0 else -1
        for f in forms:
            s *= cos_sign(f)
        return s
    gs = {k[1] for k in rest.n}
    if len(gs) == 1:
        # a phase that must be +-1 because x is real: integer variables
        u = unit_of(rest)
        if u is not None:
            t, m = u
            s = cos_sign(t)
            for f in forms:
                s *= cos_sign(f)
            return s
    p.generic.append(x)
    if p.trig:
        return trig.decide(p, x, f"sign of {x!r}")
    return 1 if p.guess(f"sign of {x!r}") else -1


def lazy_abs(x, lf):
    """|x| of a linear form; the sign is only decided when the value enters a trigonometric function."""
    p = path()
    if p.check(lf < 0) == z3.unsat:
        return x
    if p.check(lf > 0) == z3.unsat:
        return -x
    tab = p.__dict__.setdefault("absvars", {})
    key = (tuple(sorted(x.n.items())), x.d)
    neg = -x
    v = tab.get(key) or tab.get((tuple(sorted(neg.n.items())), neg.d))
    if v is None:
        v = sym.new_var(f"b{len(VARS)}", "abs")
        v.square = x
        tab[key] = v
        zv = p.zvar(v.id)
        p.add(zv == z3.If(lf >= 0, lf, -lf))
    return S({(((v.id, 1),), (), 0): 1})


def resolve_abs(x):
    """replace lazy absolute values in x by the form or its negative, deciding the sign."""
    p = path()
    while True:
        ids = sorted({v for k in x.n for v, _ in k[0] if VARS[v].kind == "abs"}, reverse=True)
        if not ids:
            return x
        v = VARS[ids[0]]
        r = v.square if p.branch(p.z(v.square) >= 0) else -v.square
        out = S()
        for (pl, g, k), c in x.n.items():
            e = dict(pl).get(v.id, 0)
            t = S({(tuple(y for y in pl if y[0] != v.id), g, k): c}, x.d)
            for _ in range(e):
                t = t * r
            out = out + t
        x = out


def absolute(x):
    if not x.n:
        return x
    c = const_num(x)
    if c is not None:
        if x.is_real():
            return x if c.real >= 0 else -x
        n = x * x.conjugate()
        if n.is_rational():
            return sym.sqrt_rational(n.rational())
        u = unit_of(x)
        if u is not None:
            return u[1]
        return sqrt_positive(n)
    if x.is_real():
        lf = path().z(x)
        if lf is not None:
            return lazy_abs(x, lf)
    rest, forms, pos = split_positive(x)
    out = pos
    for f in forms:
        e = sym.cos(f)
        out = out * e if cos_sign(f) > 0 else out * (-e)
    if rest.is_const():
        return out * absolute(rest)
    u = unit_of(rest)
    if u is not None:
        return out * u[1]
    n = rest * rest.conjugate()
    if n.is_const():
        return out * sym.sqrt(n)
    return out * sqrt_positive(n)


def sqrt_positive(x):
    """square root of a real non-negative ring element."""
    if not x.n:
        return x
    c = const_num(x)
    if c is not None and c.real < 0:
        if abs(c) < 1e-14:
            return to_s(0)
        raise Unsupported("sqrt of a negative number")
    rest, fac = sym.factor_trig(x)
    out = to_s(1)
    cnt = {}
    for f in fac:
        cnt[f] = cnt.get(f, 0) + 1
    for (h, qq), m in cnt.items():
        f = sym.form_of(h, qq)
        if m // 2:
            e = sym.cos(f)
            if cos_sign(f) < 0:
                e = -e
            for _ in range(m // 2):
                out = out * e
        if m % 2:
            rest = rest * sym.cos(f)
    if rest.is_rational():
        return out * sym.sqrt_rational(rest.rational())
    if len(rest.n) == 1:
        ((pl, gr, k), c), = rest.n.items()
        if not gr and not k and c > 0 and all(e % 2 == 0 and VARS[v].kind in ("real", "angle", "abs") for v, e in pl):
            out = out * sym.sqrt_rational(Fraction(c, rest.d))
            for v, e in pl:
                b = absolute(S({(((v, 1),), (), 0): 1}))
                for _ in range(e // 2):
                    out = out * b
            return out
    # pull the rational content out
    g = 0
    for v in rest.n.values():
        g = math.gcd(g, v)
    cont = Fraction(g, rest.d)
    prim = S({k: v // g for k, v in rest.n.items()}, 1)
    try:
        r = sym.sqrt_rational(cont)
    except Unsupported:
        r, prim = to_s(1), rest
    return out * r * sym.sqrt_var(prim)


def real_direction(a):
    """t (linear form) and real b with a = b*exp(i t); None if not recognised."""
    gs = sorted({k[1] for k in a.n})
    lo, hi = gs[0], gs[-1]
    mid = sym.half(sym._gadd(lo, hi, 1))
    cands = []
    if mid is not None:
        cands.append(mid)
    for mid in cands:
        t = sym.form_of(mid, 0)
        b = a * sym.mono(sym._gadd((), mid, -1))
        r = b.conjugate()
        # b / conj(b) constant root of unity?
        for k in range(sym._R.N):
            ph = Fraction(2 * k, sym._R.N)
            if (r * sym.root(ph) - b).is_zero():
                # b = e^{i pi ph/2} * real
                try:
                    half = sym.root(-ph / 2)
                except Unsupported:
                    continue
                return t + PI_S() * to_s(ph / 2), b * half
    return None


def principal(t):
    """the representative of the linear form t in (-pi, pi]."""
    p = path()
    zt = p.z(t)
    if zt is None:
        raise Unsupported(f"principal value of {t!r}")
    c = const_num(t)
    if c is not None:
        k = math.ceil((c.real - math.pi) / (2 * math.pi) - 1e-12)
        return t - PI_S() * to_s(2 * k)
    key = ("pv", tuple(sorted(t.n.items())), t.d)
    r = p.memo.get(key)
    if r is None:
        r = p.memo[key] = _principal(p, t, zt)
    return r


def _principal(p, t, zt):
    k = int_part(p, zt + q(PI_Q), 2 * PI_Q)
    if k is not None and p.check(zt == q((2 * k - 1) * PI_Q)) == z3.unsat:
        return t - PI_S() * to_s(2 * k)
    v = sym.new_var(f"a{len(VARS)}", "int")
    zk = z3.ToReal(p.zvar(v.id))
    x = zt - q(2 * PI_Q) * zk
    p.add(z3.And(x > q(-PI_Q), x <= q(PI_Q)))
    val = _unique_int(p, v.id)
    if val is not None:
        return t - PI_S() * to_s(2 * val)
    return t - PI_S() * S({(((v.id, 1),), (), 0): 2})


def _unique_int(p, vid):
    zk = p.zvar(vid)
    if p.check() != z3.sat:
        raise Infeasible
    m = p.model.eval(zk, model_completion=True)
    if p.check(zk != m) == z3.unsat:
        return m.as_long()
    return None


def opaque_angle(a):
    """an angle the encoding has no closed form for: any value in (-pi, pi] (over-approximation)."""
    if not OPAQUE:
        raise Unsupported(f"angle({a!r})")
    p = path()
    tab = p.__dict__.setdefault("opaques", {})
    key = (tuple(sorted(a.n.items())), a.d)
    v = tab.get(key)
    if v is None:
        v = sym.new_var(f"o{len(VARS)}", "angle")
        v.square = a
        tab[key] = v
        zv = p.zvar(v.id)
        p.add(z3.And(zv > q(-PI_Q), zv <= q(PI_Q)))
        p.over = True
    return S({(((v.id, 1),), (), 0): 1})


OPAQUE = True


def arc(a, c):
    """the argument of a constant that is no multiple of pi: exp(i*arc) is a/|a|."""
    p = path()
    tab = p.__dict__.setdefault("arcs", {})
    key = (tuple(sorted(a.n.items())), a.d)
    v = tab.get(key)
    if v is None:
        try:
            unit = a * absolute(a).inverse()
        except Unsupported:
            return to_s(math.atan2(c.imag, c.real))
        v = sym.new_var(f"c{len(VARS)}", "arc")
        v.square, v.lo = unit, math.atan2(c.imag, c.real)
        tab[key] = v
    return S({(((v.id, 1),), (), 0): 1})


def angle(a):
    a = to_s(a)
    if not a.n:
        return to_s(0)
    c = const_num(a)
    if c is not None:
        u = unit_of(a) if a.is_const() else None
        if u is not None:
            return principal(u[0])
        return arc(a, c)
    rest, forms, pos = split_positive(a)
    sgn = 1
    t = None
    u = unit_of(rest)
    if u is not None:
        t = u[0]
        for f in forms:
            sgn *= cos_sign(f)
    else:
        rd = real_direction(rest)
        if rd is None:
            return opaque_angle(a)
        t, b = rd
        for f in forms:
            sgn *= cos_sign(f)
        s = sign_of(b)
        if s == 0:
            return to_s(0)
        sgn *= s
    path().generic.append(a)
    if sgn < 0:
        t = t + PI_S()
    return principal(t)


def arctan2(y, x):
    y, x = to_s(y), to_s(x)
    return angle(x + y * to_s(1j))


def _arc(x, off):
    c = const_num(x)
    if c is not None:
        try:
            y = sym.sqrt(to_s(1) - x * x)
            return angle(x + y * to_s(1j)) if off else angle(y + x * to_s(1j))
        except Unsupported:
            return to_s((math.acos if off else math.asin)(max(-1.0, min(1.0, c.real))))
    rest, fac = sym.factor_trig(x)
    r = const_num(rest)
    if len(fac) == 1 and r is not None and abs(abs(r.real) - 1) < 1e-12:
        f = sym.form_of(*fac[0])
        if r.real < 0:
            f = f + PI_S()
        # acos(cos f) = |principal(f)|
        a = absolute(principal(f))
        return a if off else PI_S() * sym.HALF - a
    raise Unsupported(f"arccos({x!r})")


def arccos(x):
    return _arc(x, True)


def arcsin(x):
    return _arc(x, False)


def decide_cmp(a, b, op):
    d = a - b
    if not d.is_real():
        raise TypeError(f"'{op}' not supported between complex values")
    c = const_num(d)
    if c is not None:
        v = c.real if abs(c.real) > 1e-15 else 0.0
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
    p = path()
    if p.sharp:
        for x, thr, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
            t = const_num(thr)
            if t is not None and abs(t) > 1e-12:
                r = _sharp(p, x, t.real, o)
                if r is not None:
                    return r
    zt = p.z(d)
    if zt is not None and not any(VARS[v].kind == "sqrt" for k in d.n for v, _ in k[0]):
        for x, thr, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
            t = const_num(thr)
            if t is not None and 0 < abs(t) <= 1e-3 and not x.is_const():
                return _generic_linear(p, x, t.real, o)
        return p.branch({"<": zt < 0, "<=": zt <= 0, ">": zt > 0, ">=": zt >= 0}[op])
    # comparison of a function of the angles with a tiny threshold: generic position
    for x, thr, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
        t = const_num(thr)
        if t is not None and abs(t) <= 1e-3:
            s = sign_of(x)
            p.generic.append(x)
            return (s > 0) if o[0] == ">" else (s < 0)
        if t is not None and x.n:
            sc = _interval(x)
            if sc is not None:
                lo, hi = sc
                if o in ("<", "<=") and hi < t.real - 1e-12:
                    return True
                if o in (">", ">=") and hi < t.real - 1e-12:
                    return False
    return p.guess(f"{a!r} {op} {b!r}")


def _sharp(p, x, t, o):
    """x against the constant t without leaving anything out: a linear form, or a multiple of the cosine of one."""
    if any(VARS[v].kind not in ("angle", "pi", "real") for k in x.n for v, _ in k[0]):
        return None
    zx = p.z(x)
    if zx is not None:
        zt = q(Fraction(t))
        return p.branch({"<": zx < zt, "<=": zx <= zt, ">": zx > zt, ">=": zx >= zt}[o])
    rest, forms, pos = split_positive(x)
    c, m = const_num(rest), const_num(pos)
    if c is None or m is None or len(forms) != 1 or abs(c.imag) > 1e-12:
        return None
    c = c.real * m.real
    if abs(t) >= abs(c):
        return (t < 0) if o[0] == ">" else (t > 0)
    zf = p.z(forms[0])
    if zf is None or p.check() != z3.sat:
        return None
    f0 = z3num(p.model.eval(zf, model_completion=True)) * PI_SCALE
    k = round(f0 / (math.pi / 2))
    zd = zf - q(PI_Q * Fraction(k, 2))
    one = q(Fraction(1, 2))
    if p.check(z3.Or(zd > one, zd < -one)) != z3.unsat:
        return None
    if k % 2 == 0:
        sg = c if k % 4 == 0 else -c
        if abs(t) > 0.8 * abs(c):
            return None
        above = sg > t and sg > 0
        return above if o[0] == ">" else not above
    sg = -1 if k % 4 == 1 else 1  # cos(k pi/2 + d) = sg sin(d)
    e = math.asin(t / c) * sg
    up = (c > 0) == (sg > 0)  # x grows with d
    ze = q(Fraction(e))
    return p.branch((zd > ze) if (o[0] == ">") == up else (zd < ze))


def sharp_bound(p, d):
    """an upper bound of |d| on this path by its gradient, None if it cannot be had."""
    if any(k[0] for k in d.n):
        return None
    ids = {v for k in d.n for v, _ in k[1]}
    if any(VARS[v].kind != "angle" for v in ids) or p.check() != z3.sat:
        return None
    m = p.model
    env = env_from_model(p, m)
    w = {}
    for v in ids:
        z = p.zvar(v)
        z0 = m.eval(z, model_completion=True)
        for r in (1e-7, 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2):
            rr = q(Fraction(r))
            if p.check(z3.Or(z - z0 > rr, z0 - z > rr)) == z3.unsat:
                w[v] = r
                break
        else:
            return None
    tot = abs(d.eval(env))
    for k, c in d.n.items():
        tot += abs(c) / d.d * sum(abs(e) / sym.UNIT * w[v] for v, e in k[1])
    return tot


def rounded(x, nd):
    """x rounded to nd digits: the same number, or where the instance asks for it x plus any error that rounding makes."""
    if CUR is None or not CUR.rounding or isinstance(x, (int, Fraction)):
        return x
    c = const_num(x)
    if c is not None:
        return to_s(round(c.real, nd)) if abs(c.imag) < 1e-15 else x
    v = sym.new_var(f"round{len(VARS)}", "angle")
    z = CUR.zvar(v.id)
    h = q(Fraction(1, 2 * 10**nd) if nd >= 0 else Fraction(10**-nd, 2))
    CUR.add(z3.And(z >= -h, z <= h))
    return x + S({(((v.id, 1),), (), 0): 1})


GENERIC_M = Fraction(1, 200)


def _generic_linear(p, x, t, o):
    """x against a tiny threshold t: the strip 0 < |x| < min(1/200, 50 t) is left out."""
    zx = p.z(x)
    m = q(min(GENERIC_M, 50 * Fraction(abs(t))))
    up, lo = p.check(zx >= m) != z3.unsat, p.check(zx <= -m) != z3.unsat
    if not up and not lo:
        tt = q(Fraction(abs(t)))
        if p.check(z3.Or(zx > tt, zx < -tt)) != z3.unsat:
            zt = q(Fraction(t))
            return p.branch({"<": zx < zt, "<=": zx <= zt, ">": zx > zt, ">=": zx >= zt}[o])
        v = 0.0 - t
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[o]
    if up and lo:
        up = p.branch(zx > 0)
    p.add(zx >= m if up else zx <= -m)
    return up if o[0] == ">" else not up


def _interval(x):
    """|x| <= sum |c|: a coarse bound for functions of angles only."""
    tot = 0.0
    for (p, g, k), v in x.n.items():
        if p:
            return None
        tot += abs(v) / x.d
    return -tot, tot


def mod(x, m):
    mc = const_num(m)
    if mc is None:
        raise Unsupported("symbolic modulus")
    if mc.real <= 0:
        raise Unsupported("modulus not positive")
    c = const_num(x)
    if c is not None:
        k = math.floor(c.real / mc.real + 1e-13)
        return x - m * to_s(k)
    p = path()
    zx, zm = p.z(x), p.z(m)
    if zx is None:
        raise Unsupported(f"({x!r}) mod ({m})")
    w = z3.simplify(zm)
    if z3.is_rational_value(w):
        w = Fraction(w.numerator_as_long(), w.denominator_as_long())
        k = int_part(p, zx, w)
        if k is not None and p.check(zx == q((k + 1) * w)) == z3.unsat:
            return x - m * to_s(k)
    v = sym.new_var(f"m{len(VARS)}", "int")
    zk = z3.ToReal(p.zvar(v.id))
    r = zx - zm * zk
    p.add(z3.And(r >= 0, r < zm))
    val = _unique_int(p, v.id)
    if val is not None:
        return x - m * to_s(val)
    return x - m * S({(((v.id, 1),), (), 0): 1})


def floor(x):
    c = const_num(x)
    if c is not None:
        return math.floor(c.real + 1e-12)
    p = path()
    zx = p.z(x)
    if zx is None:
        raise Unsupported(f"floor({x!r})")
    v = sym.new_var(f"f{len(VARS)}", "int")
    zk = z3.ToReal(p.zvar(v.id))
    p.add(z3.And(zk <= zx, zx < zk + 1))
    val = _unique_int(p, v.id)
    if val is not None:
        return to_s(val)
    return S({(((v.id, 1),), (), 0): 1})


def enumerate_int(zk):
    """a concrete value of the z3 integer zk on this path (every feasible one is explored)."""
    p = path()
    for _ in range(10000):
        # a deterministic candidate so that replays of the prefix agree
        if p.check() != z3.sat:
            raise Infeasible
        lo = _min_int(p, zk)
        if p.branch(zk == lo):
            return lo
    raise Unsupported("unbounded integer")


def _min_int(p, zk):
    p.check()
    m = p.model.eval(zk, model_completion=True).as_long()
    lo = m
    step = 1
    while p.check(zk < lo) == z3.sat:
        lo = p.model.eval(zk, model_completion=True).as_long()
        step += 1
        if step > 500:
            raise Unsupported("integer unbounded below")
    return lo


def symbolic_int(x):
    c = const_num(x)
    if c is not None:
        return int(c.real + (1e-12 if c.real >= 0 else -1e-12))
    p = path()
    neg = p.branch(p.z(x) < 0)
    k = floor(-x if neg else x)
    if isinstance(k, S):
        kc = const_num(k)
        if kc is None:
            (pl, _, _), = k.n
            k = enumerate_int(p.zvar(pl[0][0]))
        else:
            k = int(round(kc.real))
    return -k if neg else k


def resolve_ints(xs):
    """replace integer variables occurring in the values by constants, exploring every feasible residue."""
    p = path()
    ids = sorted({v for x in xs for k in x.n for v, _ in (*k[0], *k[1]) if VARS[v].kind == "int"})
    if not ids:
        return xs
    sub = {}
    for v in ids:
        val = _unique_int(p, v)
        if val is None:
            val = enumerate_int(p.zvar(v))
        sub[v] = val
    return [subst_int(x, sub) for x in xs]


def resolve_fixed(xs):
    """replace angles that the path condition fixes (coincidences such as a == 0) by their value."""
    p = path()
    ids = sorted({v for x in xs for k in x.n for v, _ in (*k[0], *k[1]) if VARS[v].kind == "angle"})
    sub = {}
    for v in ids:
        zv = p.zvar(v)
        if p.check() != z3.sat:
            return xs
        m = p.model.eval(zv, model_completion=True)
        try:
            f = Fraction(m.numerator_as_long(), m.denominator_as_long()) / PI_Q
        except Exception:  # noqa: BLE001
            continue
        fr = f.limit_denominator(48)
        if abs(fr - f) > Fraction(1, 10**12) or p.check(zv != m) != z3.unsat:
            continue
        sub[v] = fr
    if not sub:
        return xs
    out = []
    for x in xs:
        y = S()
        for (pl, g, k), c in x.n.items():
            f = to_s(1)
            for a, e in pl:
                if a in sub:
                    for _ in range(e):
                        f = f * PI_S() * to_s(sub[a])
            for a, e in g:
                if a in sub:
                    f = f * sym.root(Fraction(e, sym.UNIT) * sub[a] % 2)
            y = y + S({(tuple(t for t in pl if t[0] not in sub), tuple(t for t in g if t[0] not in sub), k): c}, x.d) * f
        out.append(y)
    return out


def subst_int(x, sub):
    out = S()
    for (p, g, k), v in x.n.items():
        f = to_s(1)
        np_ = []
        ng = []
        for a, e in p:
            if a in sub:
                f = f * to_s(sub[a] ** e)
            else:
                np_.append((a, e))
        for a, e in g:
            if a in sub:
                f = f * sym.root(Fraction(e * sub[a], sym.UNIT) % 2)
            else:
                ng.append((a, e))
        out = out + S({(tuple(np_), tuple(ng), k): v}, x.d) * f
    return out


# ------------------------------------------------------------------ symbolic integers
class I:  # noqa: E742
    """A symbolic Python int (z3 Int). Comparisons are decided by z3; C-level uses explore every value."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(o):
        if isinstance(o, I):
            return o.t
        if isinstance(o, bool) or not isinstance(o, int):
            try:
                import numpy as np

                if isinstance(o, np.integer):
                    return z3.IntVal(int(o))
            except ImportError:
                pass
            if isinstance(o, bool):
                return z3.IntVal(int(o))
            return None
        return z3.IntVal(o)

    def value(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        return enumerate_int(self.t)

    def _bin(self, o, f, cf):
        t = I.lift(o)
        if t is None:
            return cf(self.value(), o)
        return I(z3.simplify(f(self.t, t)))

    def _rbin(self, o, f, cf):
        t = I.lift(o)
        if t is None:
            return cf(o, self.value())
        return I(z3.simplify(f(t, self.t)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._rbin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._rbin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __neg__(self):
        return I(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if path().branch(self.t >= 0) else -self

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return I(z3.simplify(self.t % o))
        return self.value() % (o.value() if isinstance(o, I) else o)

    def __rmod__(self, o):
        return o % self.value()

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return I(z3.simplify(self.t / o))
        return self.value() // (o.value() if isinstance(o, I) else o)

    def __rfloordiv__(self, o):
        return o // self.value()

    def __truediv__(self, o):
        return self.value() / o

    def __rtruediv__(self, o):
        return o / self.value()

    def __pow__(self, o):
        return self.value() ** o

    def __rpow__(self, o):
        return o ** self.value()

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return not self.__eq__(o)

    def _cmp(self, o, f, cf):
        t = I.lift(o)
        if t is None:
            return cf(self.value(), o)
        r = z3.simplify(f(self.t, t))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return path().branch(r)

    def __bool__(self):
        return self.__ne__(0)

    def __index__(self):
        return self.value()

    def __int__(self):
        return self.value()

    def __float__(self):
        return float(self.value())

    def __complex__(self):
        return complex(self.value())

    def __hash__(self):
        return hash(self.value())

    def __repr__(self):
        return f"I({self.t})"

    def __str__(self):
        return str(self.value())

    def __format__(self, spec):
        return format(self.value(), spec)

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
