"""Gate constructors shared by several properties: name -> (arity, builder).

builder(ctx, circuit, lines, tag) appends one gate with symbolic parameters through the public interface and returns
(gate, matrix) where matrix is the reference operator on the gate's own lines in ascending order.
"""
from __future__ import annotations

import numpy as np
from engine import spec


def _pair(ctx, d, tag):
    a = ctx.choice(tag + "a", range(d - 1))
    b = ctx.choice(tag + "b", range(1, d))
    ctx.assume(a < b)
    return a, b


def g_r(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a, b = fixed or _pair(ctx, d, tag)
    th, ph = ctx.angle(tag + "th", -4, 4), ctx.angle(tag + "ph", -2, 2)
    return c.r(q, [a, b, th, ph], controls), spec.rot(d, a, b, th, ph)


def g_rz(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a, b = fixed or _pair(ctx, d, tag)
    ph = ctx.angle(tag + "ph", -4, 4)
    return c.rz(q, [a, b, ph], controls), spec.rz(d, a, b, ph)


def g_virtrz(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a = ctx.choice(tag + "l", range(d)) if fixed is None else fixed
    ph = ctx.angle(tag + "ph", -4, 4)
    return c.virtrz(q, [a, ph], controls), spec.virtrz(d, a, ph)


def g_rh(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a, b = fixed or _pair(ctx, d, tag)
    m = spec.eye(d)
    s = 1j / np.sqrt(2)
    m[a, a], m[a, b], m[b, a], m[b, b] = s, s, s, -s
    return c.rh(q, [a, b], controls), m


def g_x(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    m = spec.zeros(d)
    for i in range(d):
        m[(i + 1) % d, i] = 1.0
    return c.x(q, controls), m


def g_z(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    m = spec.zeros(d)
    for i in range(d):
        m[i, i] = spec.expi(2 * np.pi * i / d)
    return c.z(q, controls), m


def g_h(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    m = spec.zeros(d)
    for i in range(d):
        for j in range(d):
            m[i, j] = spec.expi(2 * np.pi * ((i * j) % d) / d) / np.sqrt(d)
    return c.h(q, controls), m


def g_s(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    m = spec.zeros(d)
    for i in range(d):
        m[i, i] = (1.0, 1j)[i] if d == 2 else spec.expi(2 * np.pi * ((i * (i + 1) // 2) % d) / d)
    return c.s(q, controls), m


def g_pm(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    p = fixed or [(i + 1) % d if i + 1 < d else 0 for i in range(d)]
    return c.pm(q, list(p)), spec.perm_matrix(p)


def g_noisex(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a, b = fixed or _pair(ctx, d, tag)
    m = spec.eye(d)
    m[a, a] = m[b, b] = 0.0
    m[a, b] = m[b, a] = 1.0
    return c.noisex(q, [a, b], controls), m


def g_noisey(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a, b = fixed or _pair(ctx, d, tag)
    m = spec.eye(d)
    m[a, a] = m[b, b] = 0.0
    m[a, b], m[b, a] = -1j, 1j
    return c.noisey(q, [a, b], controls), m


def g_noisez(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    a = ctx.choice(tag + "l", range(d)) if fixed is None else fixed
    m = spec.eye(d)
    m[a, a] = -1.0
    return c.noisez(q, a, controls), m


def g_cuone(ctx, c, q, tag, controls=None, fixed=None):
    d = c.dimensions[q]
    u = spec.zeros(d)
    for i in range(d):
        for j in range(d):
            u[i, j] = ctx.cplx(f"{tag}u{i}{j}")
    return c.cu_one(q, u, controls), u


SINGLE = {
    "r": g_r,
    "rz": g_rz,
    "virtrz": g_virtrz,
    "rh": g_rh,
    "x": g_x,
    "z": g_z,
    "h": g_h,
    "s": g_s,
    "pm": g_pm,
    "noisex": g_noisex,
    "noisey": g_noisey,
    "noisez": g_noisez,
    "cuone": g_cuone,
}
NO_CONTROLS = {"pm"}


def g_cx(ctx, c, q, tag, fixed=None):
    d0, d1 = c.dimensions[q[0]], c.dimensions[q[1]]
    if fixed is None:
        a, b = _pair(ctx, d1, tag)
        k = ctx.choice(tag + "k", range(d0))
    else:
        a, b, k = fixed
    ph = ctx.angle(tag + "ph", 0, 2)
    return c.cx(list(q), [a, b, k, ph]), spec.cex(d0, d1, a, b, k, ph, q[0] < q[1])


def g_csum(ctx, c, q, tag, fixed=None):
    d0, d1 = c.dimensions[q[0]], c.dimensions[q[1]]
    m = spec.zeros(d0 * d1)
    for i in range(d0):
        for x in range(d1):
            y = (x + i) % d1
            if q[0] < q[1]:
                m[i * d1 + y, i * d1 + x] = 1.0
            else:
                m[y * d0 + i, x * d0 + i] = 1.0
    return c.csum(list(q)), m


def g_ls(ctx, c, q, tag, fixed=None):
    lo, hi = (c.dimensions[x] for x in sorted(q))
    th = ctx.angle(tag + "th", 0, 2)
    m = spec.eye(lo * hi)
    for i in range(min(lo, hi)):
        m[i * hi + i, i * hi + i] = spec.expi(-th)
    return c.ls(list(q), [th]), m


def g_ms(ctx, c, q, tag, fixed=None):
    lo, hi = (c.dimensions[x] for x in sorted(q))
    th = ctx.angle(tag + "th", 0, 2)

    def basis(d):
        vs = []
        for s in (1.0, -1.0):
            v = np.zeros(d, dtype=complex)
            v[0], v[1] = 1 / np.sqrt(2), s / np.sqrt(2)
            vs.append((v, int(s)))
        for k in range(2, d):
            v = np.zeros(d, dtype=complex)
            v[k] = 1.0
            vs.append((v, 0))
        return vs

    m = spec.zeros(lo * hi)
    for u, x in basis(lo):
        for v, y in basis(hi):
            w = np.kron(u, v)
            s = (x + y) ** 2
            e = 1.0 if s == 0 else spec.expi(-th * s / 4)
            m = m + e * np.outer(w, w.conj())
    return c.ms(list(q), [th]), m


def g_cutwo(ctx, c, q, tag, fixed=None):
    lo, hi = (c.dimensions[x] for x in sorted(q))
    u = spec.zeros(lo * hi)
    for i in range(lo * hi):
        for j in range(lo * hi):
            u[i, j] = ctx.cplx(f"{tag}u{i}_{j}")
    return c.cu_two(list(q), u), u


TWO = {"cx": g_cx, "csum": g_csum, "ls": g_ls, "ms": g_ms, "cutwo": g_cutwo}
RING = {2: 48, 3: 48, 4: 48, 5: 240, 6: 48, 7: 168, 8: 48}
