"""Gate parameters: accepted ones give a unitary of the right size."""
from __future__ import annotations

import numpy as np
from engine.core import z3
from engine.harness import Instance, zi
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit

ENCODED = ["validate_parameter of R, Rh, Rz, VirtRz, NoiseX, NoiseY, Perm, CEx, LS, MS", "gate constructors", "to_matrix"]
BOUNDS = "dimensions 2..4 (thorough 2..6); levels symbolic in [-2, d+1]; angles in [-9pi, 9pi] (CEx, LS, MS: [-pi, 3pi])"
ASSUMPTIONS = ["levels are given as integers and angles as floats, as documented"]


def unitary(ctx, m, n):
    ctx.check(np.shape(m) == (n, n), "matrix size", str(np.shape(m)))
    ctx.equal(np.matmul(m, spec.dagger(m)), spec.eye(n), "unitarity")


def pair_gate(ctx, d, kind):
    c = QuantumCircuit(1, [d], 0)
    a, b = ctx.int("a", -2, d + 1), ctx.int("b", -2, d + 1)
    valid = z3.And(zi(a) >= 0, zi(a) < d, zi(b) >= 0, zi(b) < d, zi(a) != zi(b))

    def build():
        if kind == "r":
            g = c.r(0, [a, b, ctx.angle("th", -9, 9), ctx.angle("ph", -9, 9)])
        elif kind == "rz":
            g = c.rz(0, [a, b, ctx.angle("th", -9, 9)])
        else:
            g = getattr(c, kind)(0, [a, b])
        return g

    g, e = ctx.raises(build)
    ctx.check_z(lambda: valid if e is None else z3.Not(valid), "accepted exactly when the levels are valid", repr(e)[:100])
    if e is None:
        unitary(ctx, g.to_matrix(), d)


def virtrz(ctx, d):
    c = QuantumCircuit(1, [d], 0)
    a = ctx.int("a", -2, d + 1)
    valid = z3.And(zi(a) >= 0, zi(a) < d)
    g, e = ctx.raises(lambda: c.virtrz(0, [a, ctx.angle("ph", -9, 9)]))
    ctx.check_z(lambda: valid if e is None else z3.Not(valid), "accepted exactly when the level is valid", repr(e)[:100])
    if e is None:
        unitary(ctx, g.to_matrix(), d)


def perm(ctx, d, n):
    c = QuantumCircuit(1, [d], 0)
    p = [ctx.int(f"p{i}", -1, d) for i in range(n)]
    valid = z3.And(z3.BoolVal(n == d), *[z3.And(zi(x) >= 0, zi(x) < d) for x in p], z3.Distinct(*[zi(x) for x in p]) if n > 1 else z3.BoolVal(True))
    g, e = ctx.raises(lambda: c.pm(0, list(p)))
    ctx.check_z(lambda: valid if e is None else z3.Not(valid), "accepted exactly when a permutation", repr(e)[:100])
    if e is None:
        unitary(ctx, g.to_matrix(), d)


def cex(ctx, da, db, order):
    dims = [da, db]
    c = QuantumCircuit(2, dims, 0)
    q = [0, 1] if order else [1, 0]
    dc, dt = dims[q[0]], dims[q[1]]
    a, b, k = ctx.int("a", -1, dt), ctx.int("b", -1, dt), ctx.int("k", 0, dc - 1)
    ph = ctx.angle("ph", -1, 3)
    m, e = ctx.raises(lambda: c.cx(q, [a, b, k, ph]).to_matrix())
    valid = z3.And(zi(a) >= 0, zi(b) < dt, zi(a) < zi(b))
    inside = bool(0 <= ph) and bool(ph <= 2 * np.pi)
    if e is None:
        ctx.check(inside, "angle outside the range rejected")
        ctx.check_z(lambda: valid, "levels outside the range rejected")
        unitary(ctx, m, da * db)
    else:
        ctx.check_z(lambda: z3.Not(valid) if inside else z3.BoolVal(True), "valid parameters accepted", repr(e)[:100])


def twoq(ctx, da, db, kind):
    c = QuantumCircuit(2, [da, db], 0)
    th = ctx.angle("th", -1, 3)
    m, e = ctx.raises(lambda: getattr(c, kind)([0, 1], [th]).to_matrix())
    inside = bool(0 <= th) and bool(th <= 2 * np.pi)
    ctx.check((e is None) == inside, "accepted exactly when the angle is in [0, 2pi]", repr(e)[:100])
    if e is None:
        unitary(ctx, m, da * db)


def fixed(ctx, d, kind):
    c = QuantumCircuit(1, [d], 0)
    m, e = ctx.raises(lambda: getattr(c, kind)(0).to_matrix())
    prime = d in (2, 3, 5, 7, 11)
    ctx.check((e is None) == (kind != "s" or prime), "defined exactly for the documented dimensions", repr(e)[:100])
    if e is None:
        unitary(ctx, m, d)


RING = {2: 48, 3: 48, 4: 48, 5: 240, 6: 48, 7: 168, 8: 48, 9: 72, 10: 240, 11: 264}


def instances(tier):
    out = []
    for d in range(2, 5 if tier == "quick" else 7):
        for k in ("r", "rz", "rh", "noisex", "noisey"):
            out.append(Instance(f"{k}/d{d}", pair_gate, d=d, kind=k, max_paths=900, seconds=60))
        out.append(Instance(f"virtrz/d{d}", virtrz, d=d))
    for d, n in ((2, 2), (3, 3), (3, 2), (2, 3), (3, 4)) + (((4, 4),) if tier == "thorough" else ()):
        out.append(Instance(f"perm/d{d}/n{n}", perm, d=d, n=n, max_paths=1500, seconds=60))
    for da, db in ((2, 2), (2, 3), (3, 2), (3, 3)) + (((3, 4), (4, 2)) if tier == "thorough" else ()):
        for o in (True, False):
            out.append(Instance(f"cex/{da}x{db}/{o}", cex, da=da, db=db, order=o, max_paths=600))
        for k in ("ls", "ms"):
            out.append(Instance(f"{k}/{da}x{db}", twoq, da=da, db=db, kind=k))
    for d in range(2, 8 if tier == "quick" else 12):
        for k in ("h", "x", "z", "s"):
            out.append(Instance(f"{k}/d{d}", fixed, d=d, kind=k, ring=RING[d]))
    return out
