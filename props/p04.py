"""A gate on some lines acts as the identity on the others."""
from __future__ import annotations

from engine.harness import Instance
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit
from props.gates import SINGLE, TWO

ENCODED = ["Gate.to_matrix", "Gate.reference_lines", "MatrixFactory.generate_matrix",
           "MatrixFactory.apply_identities_and_controls", "MatrixFactory.wrap_in_identities"]
BOUNDS = "registers of 1..4 lines with dimensions 2..3 (thorough 2..4, up to 5 lines), every choice and order of lines, arbitrary (symbolic) matrices"


def h_one(ctx, dims, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    g, m = SINGLE["cuone"](ctx, c, q, "g")
    ctx.equal(g.to_matrix(identities=0), m, "own matrix")
    ctx.equal(g.to_matrix(identities=1), m, "own lines")
    ctx.equal(g.to_matrix(identities=2), spec.embed(dims, [q], m), "register matrix")


def h_two(ctx, dims, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    g, m = TWO["cutwo"](ctx, c, q, "g")
    lo, hi = min(q), max(q)
    sub = dims[lo:hi + 1]
    ctx.equal(g.to_matrix(identities=0), m, "own matrix")
    ctx.equal(g.to_matrix(identities=1), spec.embed(sub, [0, hi - lo], m), "spanned lines")
    ctx.equal(g.to_matrix(identities=2), spec.embed(dims, [lo, hi], m), "register matrix")
    ctx.check(bool(g.is_long_range) == (hi - lo > 1), "long-range flag")
    ctx.check(sorted(g.reference_lines) == [lo, hi], "lines")


def h_multi(ctx, dims, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    n = 1
    for x in q:
        n *= dims[x]
    u = spec.zeros(n)
    for i in range(n):
        for j in range(n):
            u[i, j] = ctx.cplx(f"u{i}_{j}")
    g = c.cu_multi(list(q), u)
    s = sorted(q)
    lo, hi = s[0], s[-1]
    ctx.equal(g.to_matrix(identities=0), u, "own matrix")
    ctx.equal(g.to_matrix(identities=1), spec.embed(dims[lo:hi + 1], [x - lo for x in s], u), "spanned lines")
    ctx.equal(g.to_matrix(identities=2), spec.embed(dims, s, u), "register matrix")
    ctx.check(bool(g.is_long_range) == any(b - a > 1 for a, b in zip(s[:-1], s[1:])), "long-range flag")


def h_kind(ctx, name, dims, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    if name in SINGLE:
        g, m = SINGLE[name](ctx, c, q, "g", None, *([(0, 1)] if name in ("r", "rz", "rh", "noisex", "noisey") else []))
        ctx.equal(g.to_matrix(identities=2), spec.embed(dims, [q], m), "register matrix")
    else:
        g, m = TWO[name](ctx, c, q, "g", *([(0, 1, 1)] if name == "cx" else []))
        ctx.equal(g.to_matrix(identities=2), spec.embed(dims, sorted(q), m), "register matrix")


def instances(tier):
    out = []
    regs = [(2,), (3,), (2, 3), (3, 2), (2, 3, 2), (3, 2, 4), (2, 2, 3, 2)]
    if tier == "thorough":
        regs += [(4, 3), (3, 4, 2), (2, 3, 4), (2, 2, 2, 2, 2), (3, 2, 3, 2), (5, 2)]
    for dims in regs:
        for q in range(len(dims)):
            out.append(Instance(f"one/{dims}/{q}", h_one, dims=dims, q=q))
            for r in range(len(dims)):
                if r != q and dims[q] * dims[r] <= (6 if tier == "quick" else 12):
                    out.append(Instance(f"two/{dims}/{q}{r}", h_two, dims=dims, q=(q, r)))
    for dims, q in (((2, 2, 2), (0, 1, 2)), ((2, 2, 2), (2, 0, 1)), ((2, 2, 2, 2), (0, 1, 3)), ((2, 2, 3, 2), (3, 0, 1)),
                    ((2, 2, 2, 2), (0, 2, 3)), ((3, 2, 2, 2), (1, 2, 3))):
        out.append(Instance(f"multi/{dims}/{q}", h_multi, dims=dims, q=q))
    for n in SINGLE:
        if n != "cuone":
            for dims, q in (((3, 2), 0), ((2, 2, 3), 1), ((2, 3, 3), 2)):
                out.append(Instance(f"kind/{n}/{dims}/{q}", h_kind, name=n, dims=dims, q=q))
    for n in TWO:
        if n != "cutwo":
            for dims, q in (((3, 2), (0, 1)), ((2, 2, 3), (2, 0)), ((2, 3, 3), (0, 2)), ((2, 3, 2, 2), (2, 1)), ((2, 2, 3), (1, 2))):
                out.append(Instance(f"kind/{n}/{dims}/{q}", h_kind, name=n, dims=dims, q=q))
    return out
