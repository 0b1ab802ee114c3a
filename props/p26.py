"""Fidelity and sparsity measures."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.twodit.variational_twodit_compilation import sparsifier as spf
from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import distance_measures as dm
from mqt.qudits.exceptions.circuiterror import ShapeMismatchError
from props import localutil as lu

ENCODED = ["size_check", "fidelity_on_operator", "fidelity_on_unitares", "fidelity_on_density_operator", "naive_state_fidelity", "manhattan_norm", "frobenius_norm", "compute_f", "density"]
BOUNDS = "arbitrary complex matrices and vectors of dimension 1..4 (fidelity_on_operator at dimension 3: two cyclic diagonals and a corner); unitaries as products of rotations and phases with symbolic angles; shapes up to 3x3 for the rejected ones"
ASSUMPTIONS = ["values are compared through their squares, where the code takes a square root", "a quotient is decided by multiplying with its denominator, taken as non-zero", "strictly positive entries for the norms"]


def mat(ctx, n, m, tag):
    return np.array([[ctx.cplx(f"{tag}{a}{b}") for b in range(m)] for a in range(n)])


def herm(ctx, n, tag):
    out = spec.zeros(n)
    for a in range(n):
        out[a, a] = ctx.real(f"{tag}{a}", 0.01, 1)
        for b in range(a):
            out[a, b] = ctx.cplx(f"{tag}{a}{b}")
            out[b, a] = out[a, b].conjugate()
    return out


def unitary(ctx, n, tag):
    u = spec.eye(n)
    for k in range(n - 1):
        u = spec.rot(n, k, k + 1, ctx.angle(f"{tag}t{k}", -1, 1), ctx.angle(f"{tag}p{k}", -1, 1)) @ u
        u = spec.virtrz(n, k, ctx.angle(f"{tag}v{k}", -1, 1)) @ u
    return u


def dot(a, b):
    """sum of conj(a) b over all entries."""
    return sum((np.conjugate(x) * y for x, y in zip(np.asarray(a).ravel(), np.asarray(b).ravel())), 0)


def tr2(a, b):
    """trace of the product."""
    return sum((a[i, j] * b[j, i] for i in range(a.shape[0]) for j in range(a.shape[0])), 0)


def same(ctx, x, y, label):
    ctx.equal(np.array([x]), np.array([y]), label)


def masked(ctx, n, tag, shift):
    """arbitrary entries on one cyclic diagonal and in one corner."""
    m = mat(ctx, n, n, tag)
    for i in range(n):
        for j in range(n):
            if (j - i) % n != shift and (i, j) != (0, n - 1):
                m[i, j] = 0 * m[i, j]
    return m


def h_operator(ctx, n, shift=None):
    a, b = (mat(ctx, n, n, "a"), mat(ctx, n, n, "b")) if shift is None else (masked(ctx, n, "a", shift[0]), masked(ctx, n, "b", shift[1]))
    f = dm.fidelity_on_operator(a, b)
    z = dot(a, b)
    same(ctx, f * f * dot(a, a) * dot(b, b), z * np.conjugate(z), "fidelity of operators")
    g = dm.fidelity_on_operator(b, a)
    same(ctx, f * f, g * g, "symmetric")
    ph = spec.expi(ctx.angle("p", -1, 1))
    g = dm.fidelity_on_operator(ph * a, b)
    same(ctx, f * f, g * g, "unchanged by a phase")
    g = dm.fidelity_on_operator(ph * a, 3 * a)
    same(ctx, g * g, 1.0, "full for operators equal up to a factor")


def h_unitary(ctx, n):
    a, b = mat(ctx, n, n, "a"), mat(ctx, n, n, "b")
    f = dm.fidelity_on_unitares(a, b)
    z = dot(a, b)
    same(ctx, f * f * n * n, z * np.conjugate(z), "fidelity of unitaries")
    g = dm.fidelity_on_unitares(b, a)
    same(ctx, f * f, g * g, "symmetric")
    ph = spec.expi(ctx.angle("p", -1, 1))
    u = unitary(ctx, n, "u")
    same(ctx, dm.fidelity_on_unitares(ph * u, u), 1.0, "full for unitaries equal up to a phase")
    g = dm.fidelity_on_unitares(u @ a, ph * (u @ b))
    same(ctx, f * f, g * g, "unchanged by a common unitary and a phase")


def h_density(ctx, n):
    a, b = herm(ctx, n, "a"), herm(ctx, n, "b")
    f = dm.fidelity_on_density_operator(a, b)
    z = tr2(a, b)
    same(ctx, f * f * tr2(a, a) * tr2(b, b), z * z, "fidelity of density operators")
    g = dm.fidelity_on_density_operator(b, a)
    same(ctx, f * f, g * g, "symmetric")
    g = dm.fidelity_on_density_operator(a, a)
    same(ctx, g * g, 1.0, "full for equal operators")


def h_state(ctx, n):
    a, b = mat(ctx, n, 1, "a")[:, 0], mat(ctx, n, 1, "b")[:, 0]
    f = dm.naive_state_fidelity(a, b)
    z = dot(a, b)
    same(ctx, f, z * np.conjugate(z), "fidelity of states")
    same(ctx, dm.naive_state_fidelity(b, a), f, "symmetric")
    ph = spec.expi(ctx.angle("p", -1, 1))
    same(ctx, dm.naive_state_fidelity(ph * a, b), f, "unchanged by a phase")


def h_shapes(ctx, sa, sb):
    a, b = np.ones(sa), np.ones(sb)
    ok = sa == sb and sa[0] == sa[1]
    ctx.check(dm.size_check(a, b) is ok, "shapes that fit", f"{sa} {sb}")
    for f in (dm.fidelity_on_operator, dm.fidelity_on_unitares, dm.fidelity_on_density_operator):
        _, e = ctx.raises(f, a, b)
        ctx.check((e is None) == ok and (ok or isinstance(e, ShapeMismatchError)), f"shapes accepted by {f.__name__}", f"{sa} {sb} {e}")
    _, e = ctx.raises(dm.naive_state_fidelity, np.ones(sa[0]), np.ones(sb[0]))
    ctx.check((e is None) == (sa[0] == sb[0]), "lengths of states", f"{e}")


def h_norms(ctx, n, m):
    x = np.array([[ctx.real(f"x{i}{j}", 0.01, 1) for j in range(m)] for i in range(n)])
    s1, s2 = sum(x.ravel().tolist()), sum(v * v for v in x.ravel().tolist())
    same(ctx, spf.manhattan_norm(x), s1, "sum of magnitudes")
    f2 = spf.frobenius_norm(x)
    same(ctx, f2 * f2, s2, "sum of squares")
    if n * m > 1:
        f = spf.compute_f(x)
        k = np.sqrt(0 * x[0, 0] + n * m)
        same(ctx, f * (k - 1) * f2, s1 - f2, "sparsity measure")
        y = spf.compute_f(2 * x)
        same(ctx, y * (k - 1) * f2, s1 - f2, "sparsity is independent of the scale")
        one = np.array(0 * x)
        one[0, m - 1] = x[0, m - 1]
        same(ctx, spf.compute_f(one), 0.0, "a single entry is as sparse as can be")
        same(ctx, spf.compute_f(0 * x + x[0, 0]), 1.0, "a constant matrix is not sparse")
    ctx.check(spf.density(x) == 1, "no small entries")
    y = np.array(x)
    y[0, 0] = 0 * y[0, 0]
    want = 0 if n * m == 1 else (n * m - 1) / (n * m)
    ctx.check(abs(spf.density(y) - want) < 1e-12, "share of entries that do not vanish", str(spf.density(y)))


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, /, **kw):
        out.append(Instance(name, f, inverses=True, **kw))

    for n in (1, 2):
        add(f"operator/{n}", h_operator, n=n)
        add(f"density/{n}", h_density, n=n)
    if th:
        add("density/3", h_density, n=3)
    for i, j in itertools.product(range(3), repeat=2):
        add(f"operator/3/{i}{j}", h_operator, n=3, shift=(i, j))
    for n in (1, 2, 3, 4):
        add(f"unitary/{n}", h_unitary, n=n)
        add(f"state/{n}", h_state, n=n)
    sh = list(itertools.product((1, 2, 3), repeat=2))
    for sa in sh:
        for sb in sh:
            add(f"shapes/{sa}{sb}", h_shapes, sa=sa, sb=sb)
    for n, m in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
        add(f"norms/{n}{m}", h_norms, n=n, m=m)
    return out
