"""Two-qudit and multi-qudit gate matrices."""
from __future__ import annotations

import numpy as np
from engine.harness import Instance
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit

ENCODED = ["CEx", "CSum", "LS", "MS", "CustomTwo", "CustomMulti", "from_dirac_to_basis", "GellMann", "MatrixFactory.generate_matrix"]
BOUNDS = "dimension pairs 2..4 x 2..4 (thorough 2..5), both line orders, adjacent and separated lines, every level triple, angle in [0, 2pi]"
ASSUMPTIONS = ["the matrix of a custom two- or multi-qudit gate is given in ascending line order"]


def circ(ctx, da, db, order, sep):
    """lines of the two operands; returns circuit, [first, second]."""
    dims = [da, db] if order else [db, da]
    mid = [2] if sep else []
    dims = [dims[0], *mid, dims[1]]
    lo, hi = 0, len(dims) - 1
    return QuantumCircuit(len(dims), dims, 0), ([lo, hi] if order else [hi, lo])


def h_cex(ctx, da, db, order, sep):
    c, t = circ(ctx, da, db, order, sep)
    a = ctx.choice("lev_a", range(db))
    b = ctx.choice("lev_b", range(db))
    ctx.assume(a < b)
    k = ctx.choice("ctrl", range(da))
    phi = ctx.angle("phi", 0, 2)
    g = c.cx(t, [a, b, k, phi])
    ctx.equal(g.to_matrix(), spec.cex(da, db, a, b, k, phi, order), "controlled exchange")


def h_cex_default(ctx, da, db, order, sep):
    c, t = circ(ctx, da, db, order, sep)
    ctx.equal(c.cx(t).to_matrix(), spec.cex(da, db, 0, 1, 1, 0.0, order), "default controlled exchange")


def h_csum(ctx, da, db, order, sep):
    c, t = circ(ctx, da, db, order, sep)
    m = spec.zeros(da * db)
    for i in range(da):
        for x in range(db):
            y = (x + i) % db
            if order:
                m[i * db + y, i * db + x] = 1.0
            else:
                m[y * da + i, x * da + i] = 1.0
    ctx.equal(c.csum(t).to_matrix(), m, "controlled sum")


def h_ls(ctx, da, db, order, sep):
    c, t = circ(ctx, da, db, order, sep)
    th = ctx.angle("theta", 0, 2)
    m = spec.eye(da * db)
    lo, hi = (da, db) if order else (db, da)
    for i in range(min(da, db)):
        m[i * hi + i, i * hi + i] = spec.expi(-th)
    ctx.equal(c.ls(t, [th]).to_matrix(), m, "light shift gate")


def h_ms(ctx, da, db, order, sep):
    c, t = circ(ctx, da, db, order, sep)
    th = ctx.angle("theta", 0, 2)
    lo, hi = (da, db) if order else (db, da)
    # exp(-i theta/4 (Xa + Xb)^2); eigenvectors of the two-level X are |+>, |->, (others 0)
    def basis(d):
        vs = []
        for s in (1.0, -1.0):
            v = np.zeros(d, dtype=complex)
            v[0], v[1] = 1 / np.sqrt(2), s / np.sqrt(2)
            vs.append((v, int(s)))
        for k in range(2, d):
            v = np.zeros(d, dtype=complex)
            v[k] = 1.0
            vs.append((v, 0))
        return vs

    m = spec.zeros(da * db)
    for u, x in basis(lo):
        for v, y in basis(hi):
            w = np.kron(u, v)
            s = (x + y) ** 2
            e = 1.0 if s == 0 else spec.expi(-th * s / 4)
            m = m + e * np.outer(w, w.conj())
    ctx.equal(c.ms(t, [th]).to_matrix(), m, "Molmer-Sorensen gate")


def h_custom(ctx, dims, lines):
    c = QuantumCircuit(len(dims), list(dims), 0)
    n = 1
    for x in lines:
        n *= dims[x]
    u = spec.zeros(n)
    for i in range(n):
        for j in range(n):
            u[i, j] = ctx.cplx(f"u{i}_{j}")
    g = c.cu_two(list(lines), u) if len(lines) == 2 else c.cu_multi(list(lines), u)
    ctx.equal(g.to_matrix(), u, "custom matrix")
    ctx.equal(g.dag().to_matrix(), spec.dagger(u), "adjoint of a custom matrix")


def instances(tier):
    top = 4 if tier == "quick" else 5
    out = []
    for da in range(2, top + 1):
        for db in range(2, top + 1):
            for order in (True, False):
                for sep in (False, True):
                    t = f"/{da}x{db}/{'asc' if order else 'desc'}{'/sep' if sep else ''}"
                    kw = {"da": da, "db": db, "order": order, "sep": sep}
                    if not sep or (da <= 3 and db <= 3):
                        out.append(Instance("cex" + t, h_cex, max_paths=300, **kw))
                    out.append(Instance("cexdef" + t, h_cex_default, **kw))
                    out.append(Instance("csum" + t, h_csum, ring=240, **kw))
                    out.append(Instance("ls" + t, h_ls, **kw))
                    out.append(Instance("ms" + t, h_ms, **kw))
    for dims, lines in (((2, 3), (0, 1)), ((3, 2), (1, 0)), ((2, 2, 2), (0, 2)), ((2, 3, 2), (0, 1, 2))):
        out.append(Instance(f"custom/{dims}/{lines}", h_custom, dims=dims, lines=lines))
    return out
