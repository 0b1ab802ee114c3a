"""Single-qudit gate matrices."""
from __future__ import annotations

import numpy as np
from engine.harness import Instance
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit

ENCODED = ["R", "Rh", "Rz", "VirtRz", "S", "H", "X", "Z", "NoiseX", "NoiseY", "Perm", "GellMann", "RandU(shape)",
           "regulate_theta", "MatrixFactory.generate_matrix"]
BOUNDS = "dimensions 2..5 (quick) / 2..8 (thorough), every ordered level pair, theta, phi in [-8pi, 8pi]"
ASSUMPTIONS = []


def circ(d):
    return QuantumCircuit(1, [d], 0)


def pair(ctx, d):
    a = ctx.choice("a", range(d))
    b = ctx.choice("b", [x for x in range(d)])
    ctx.assume(a != b)
    return a, b


def h_r(ctx, d):
    a, b = pair(ctx, d)
    th, ph = ctx.angle("theta", -8, 8), ctx.angle("phi", -8, 8)
    g = circ(d).r(0, [a, b, th, ph])
    ctx.equal(g.to_matrix(), spec.rot(d, min(a, b), max(a, b), th, ph), "rotation matrix")


def h_rz(ctx, d):
    a, b = pair(ctx, d)
    ph = ctx.angle("phi", -8, 8)
    g = circ(d).rz(0, [a, b, ph])
    ctx.equal(g.to_matrix(), spec.rz(d, min(a, b), max(a, b), ph), "z rotation matrix")


def h_virtrz(ctx, d):
    a = ctx.choice("a", range(d))
    ph = ctx.angle("phi", -8, 8)
    g = circ(d).virtrz(0, [a, ph])
    ctx.equal(g.to_matrix(), spec.virtrz(d, a, ph), "virtual rotation matrix")


def h_rh(ctx, d):
    a, b = pair(ctx, d)
    g = circ(d).rh(0, [a, b])
    m = spec.eye(d)
    lo, hi = min(a, b), max(a, b)
    s = 1j / np.sqrt(2)
    # R(-pi, 0) R(pi/2, pi/2)
    m[lo, lo], m[lo, hi], m[hi, lo], m[hi, hi] = s, s, s, -s
    ctx.equal(g.to_matrix(), m, "two-level Hadamard matrix")


def h_const(ctx, d):
    c = circ(d)
    w = [spec.expi(2 * np.pi * k / d) for k in range(d)]
    hm = spec.zeros(d)
    xm = spec.zeros(d)
    zm = spec.zeros(d)
    for i in range(d):
        xm[(i + 1) % d, i] = 1.0
        zm[i, i] = w[i]
        for j in range(d):
            hm[i, j] = w[(i * j) % d] / np.sqrt(d)
    ctx.equal(c.h(0).to_matrix(), hm, "Hadamard matrix")
    ctx.equal(c.x(0).to_matrix(), xm, "shift matrix")
    ctx.equal(c.z(0).to_matrix(), zm, "clock matrix")
    if d in (2, 3, 5, 7, 11):
        sm = spec.zeros(d)
        for i in range(d):
            # d = 2 is the qubit phase gate
            sm[i, i] = (1.0, 1j)[i] if d == 2 else w[(i * (i + 1) // 2) % d]
        ctx.equal(c.s(0).to_matrix(), sm, "phase gate matrix")


def h_noise(ctx, d):
    a, b = pair(ctx, d)
    c = circ(d)
    lo, hi = min(a, b), max(a, b)
    m = spec.eye(d)
    m[lo, lo] = m[hi, hi] = 0.0
    m[lo, hi] = m[hi, lo] = 1.0
    ctx.equal(c.noisex(0, [a, b]).to_matrix(), m, "level flip matrix")
    m = spec.eye(d)
    m[lo, lo] = m[hi, hi] = 0.0
    m[lo, hi], m[hi, lo] = -1j, 1j
    ctx.equal(c.noisey(0, [a, b]).to_matrix(), m, "level flip with phase matrix")


def h_perm(ctx, d):
    p = []
    for i in range(d):
        v = ctx.int(f"p{i}", 0, d - 1)
        for w in p:
            ctx.assume(v != w)
        p.append(v)
    p = [int(v) if not ctx.symbolic else v.value() for v in p]
    g = circ(d).pm(0, p)
    ctx.equal(g.to_matrix(), spec.perm_matrix(p), "permutation matrix")


def h_gell(ctx, d):
    a, b = pair(ctx, d)
    ctx.assume(a < b)
    t = ctx.choice("type", ["s", "a", "z"])
    from mqt.qudits.quantum_circuit.gates import GellMann

    m = GellMann(circ(d), "g", 0, [a, b, t], d).to_matrix()
    e = spec.zeros(d)
    if t == "s":
        e[a, b] = e[b, a] = 1.0
    elif t == "a":
        e[a, b], e[b, a] = -1j, 1j
    else:
        for k in range(b):
            e[k, k] = np.sqrt(2 / (b * (b + 1)))
        e[b, b] = -b * np.sqrt(2 / (b * (b + 1)))
    ctx.equal(m, e, "generator matrix")


def h_custom(ctx, d):
    u = spec.zeros(d)
    for i in range(d):
        for j in range(d):
            u[i, j] = ctx.cplx(f"u{i}{j}")
    g = circ(d).cu_one(0, u)
    ctx.equal(g.to_matrix(), u, "custom matrix")
    gd = circ(d).cu_one(0, u).dag()
    ctx.equal(gd.to_matrix(), spec.dagger(u), "adjoint of a custom matrix")


RING = {2: 48, 3: 48, 4: 48, 5: 240, 6: 48, 7: 168, 8: 48, 9: 72, 10: 240, 11: 264, 12: 48}


def instances(tier):
    ds = range(2, 6) if tier == "quick" else range(2, 9)
    out = []
    for d in ds:
        for n in ("r", "rz", "virtrz", "rh", "noise", "gell", "custom"):
            out.append(Instance(f"{n}/d{d}", globals()["h_" + n], d=d, max_paths=400))
        if d <= (4 if tier == "quick" else 5):
            out.append(Instance(f"perm/d{d}", h_perm, d=d, max_paths=400))
    for d in (range(2, 8) if tier == "quick" else range(2, 13)):
        out.append(Instance(f"const/d{d}", h_const, d=d, ring=RING[d]))
    return out
