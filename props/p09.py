"""Angle reductions and rotation costs."""
from __future__ import annotations

import numpy as np
from engine.harness import Instance
from engine import spec
from mqt.qudits.compiler.compilation_minitools import local_compilation_minitools as lm
from mqt.qudits.quantum_circuit import QuantumCircuit

ENCODED = ["regulate_theta", "new_mod", "pi_mod", "phi_cost", "theta_cost", "R.__init__ / cost", "Rz.__init__ / cost", "swap_elements"]
BOUNDS = "angles: all reals in [-12pi, 12pi]; pairs of angles in [-6pi, 6pi]"
PI = spec.PI


def same(ctx, x, y, k, label):
    """x and y agree modulo 2*pi*k."""
    ctx.equal(np.array([spec.expi(x / k)]), np.array([spec.expi(y / k)]), label)


def h_regulate(ctx, lo, hi):
    a = ctx.angle("a", lo, hi)
    r = lm.regulate_theta(a)
    same(ctx, r, a, 2, "regulated angle equivalent modulo 4pi")
    ctx.check(r >= 0.2 * PI - 1e-9 or r <= -0.2 * PI + 1e-9, "regulated angle away from zero")
    ctx.check(r > -4 * PI and r < 4.2 * PI + 1e-9, "regulated angle in range")
    # reducing again changes nothing in the operator
    same(ctx, lm.regulate_theta(r), a, 2, "regulated twice")


def h_newmod(ctx, lo, hi):
    a = ctx.angle("a", lo, hi)
    r = lm.new_mod(a)
    same(ctx, r, a, 1, "reduced angle equivalent modulo 2pi")
    ctx.check(r > -2 * PI - 1e-9 and r < 2 * PI + 1e-9, "reduced angle in range")
    ctx.check(r >= -1e-9 if a >= 0 else r <= 1e-9, "sign of the reduced angle")


def h_pimod(ctx, lo, hi):
    a = ctx.angle("a", lo, hi)
    r = lm.pi_mod(a)
    same(ctx, r, a, 1, "reduced angle equivalent modulo 2pi")
    ctx.check(r >= -PI - 1e-9 and r <= PI + 1e-9, "reduced angle in [-pi, pi]")


def h_newmod_b(ctx, num, den):
    b = PI * num / den
    a = ctx.angle("a", -4, 4)
    r = lm.new_mod(a, b)
    same(ctx, r * (2 * PI) / b, a * (2 * PI) / b, 1, "reduced modulo another period")
    ctx.check(r > -b - 1e-9 and r < b + 1e-9, "reduced value in range")


def h_cost(ctx, lo, hi):
    a = ctx.angle("a", lo, hi)
    c = lm.theta_cost(a)
    ctx.check(c >= 0, "cost not negative")
    ctx.close(lm.theta_cost(-a), c, "cost symmetric")
    u = a / PI if a >= 0 else -a / PI
    k = ctx.int("k", 0, 40)  # nearest half integer multiple
    ctx.assume(2 * u >= k - 0.5)
    ctx.assume(2 * u <= k + 0.5)
    d = u - k / 2
    d = d if d >= 0 else -d
    ctx.close(c * 10000, 4 * u + d, "cost formula")
    p = lm.phi_cost(a)
    ctx.close(p * 10000, u, "phase cost formula")


def h_mono(ctx, lo, hi):
    a, b = ctx.angle("a", lo, hi), ctx.angle("b", lo, hi)
    ua, ub = (a if a >= 0 else -a), (b if b >= 0 else -b)
    ctx.assume(ub - ua > 0.01)
    ctx.check(lm.theta_cost(b) > lm.theta_cost(a), "longer rotation is dearer")
    ctx.check(lm.phi_cost(b) > lm.phi_cost(a), "longer phase is dearer")


def h_gate(ctx, d, la, lb):
    """a rotation keeps its operator whatever angle it was given, and is charged for the angle it uses."""
    c = QuantumCircuit(1, [d], 0)
    th, ph = ctx.angle("th", -9, 9), ctx.angle("ph", -9, 9)
    g = c.r(0, [la, lb, th, ph])
    a, b = min(la, lb), max(la, lb)
    ctx.equal(g.to_matrix(), spec.rot(d, a, b, th, ph), "rotation")
    ctx.close(g.cost, lm.theta_cost(g.theta), "cost of the rotation")
    z = c.rz(0, [la, lb, th])
    ctx.equal(z.to_matrix(), spec.rz(d, a, b, th), "phase rotation")
    ctx.check(z.cost >= 0, "cost of the phase rotation")
    ctx.check((g.lev_a, g.lev_b) == (a, b), "ordered levels")
    ctx.check((g.original_lev_a, g.original_lev_b) == (la, lb), "levels as given")


def h_swap(ctx, n):
    l = list(range(n))
    i, j = ctx.choice("i", range(n)), ctx.choice("j", range(n))
    r = lm.swap_elements(list(l), i, j)
    want = list(l)
    want[i], want[j] = want[j], want[i]
    ctx.check(r == want, "swapped elements")


def instances(tier):
    out = []
    n = 12 if tier == "quick" else 24
    for lo in range(-n, n, 4):
        out.append(Instance(f"regulate/{lo}", h_regulate, lo=lo, hi=lo + 4))
        out.append(Instance(f"newmod/{lo}", h_newmod, lo=lo, hi=lo + 4))
        out.append(Instance(f"pimod/{lo}", h_pimod, lo=lo, hi=lo + 4))
    for lo in range(-6, 6, 2):
        out.append(Instance(f"cost/{lo}", h_cost, lo=lo, hi=lo + 2, max_paths=600))
    for lo in (-6, -4, -2, 0, 2, 4):
        out.append(Instance(f"mono/{lo}", h_mono, lo=lo, hi=lo + 2, max_paths=600))
    out.append(Instance("mono/wide", h_mono, lo=-3, hi=3, max_paths=3000, seconds=60))
    for num, den in ((1, 1), (1, 2), (4, 1), (3, 1)):
        out.append(Instance(f"newmod_b/{num}/{den}", h_newmod_b, num=num, den=den))
    for d, la, lb in ((2, 0, 1), (2, 1, 0), (3, 2, 0), (3, 1, 2), (4, 3, 1)):
        out.append(Instance(f"gate/{d}/{la}{lb}", h_gate, d=d, la=la, lb=lb))
    out.append(Instance("swap", h_swap, n=4))
    return out
