"""Controlled gates: semantics and validation."""
from __future__ import annotations

from engine.core import z3
from engine.harness import Instance, zi
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
from props.gates import NO_CONTROLS, SINGLE

ENCODED = ["Gate.control", "Gate.reference_lines", "Gate.check_long_range", "MatrixFactory.apply_identities_and_controls"]
BOUNDS = "registers of 2..4 lines with dimensions 2..3, 1..3 controls on any lines in any order, all control levels; validation over symbolic lines in [-2, n+1] and levels in [-2, 5]"


def h_sem(ctx, dims, q, ctl, name, late):
    c = QuantumCircuit(len(dims), list(dims), 0)
    levels = [ctx.choice(f"lev{i}", range(dims[x])) for i, x in enumerate(ctl)]
    fixed = [(0, 1)] if name in ("r", "rz", "rh", "noisex", "noisey") else []
    if late:
        g, m = SINGLE[name](ctx, c, q, "g", None, *fixed)
        r = g.control(list(ctl), list(levels))
        ctx.check(r is g, "control returns the gate")
    else:
        g, m = SINGLE[name](ctx, c, q, "g", ControlData(list(ctl), list(levels)), *fixed)
    lines = sorted([*ctl, q])
    lo, hi = lines[0], lines[-1]
    sub = dims[lo:hi + 1]
    want = spec.controlled(sub, [x - lo for x in ctl], levels, [q - lo], m)
    ctx.equal(g.to_matrix(identities=2), spec.controlled(dims, ctl, levels, [q], m), "register matrix")
    ctx.equal(g.to_matrix(identities=1), want, "spanned lines")
    ctx.equal(g.to_matrix(identities=0), want, "own matrix")
    ctx.check(sorted(g.reference_lines) == lines, "lines")
    ctx.check(g.gate_type == (GateTypes.TWO if len(lines) == 2 else GateTypes.MULTI), "gate type")
    ctx.check(bool(g.is_long_range) == any(b - a > 1 for a, b in zip(lines[:-1], lines[1:])), "long-range flag")


def h_valid(ctx, dims, q, n, via):
    """a control list is accepted exactly when it is meaningful."""
    c = QuantumCircuit(len(dims), list(dims), 0)
    idx = [ctx.int(f"i{k}", -2, len(dims) + 1) for k in range(n)]
    lev = [ctx.int(f"l{k}", -2, max(dims) + 1) for k in range(n)]
    for a in range(n):
        for b in range(a):
            ctx.assume(idx[a] != idx[b])
    valid = z3.And(*[
        z3.Or(*[z3.And(zi(i) == k, zi(l) >= 0, zi(l) < d) for k, d in enumerate(dims) if k != q])
        for i, l in zip(idx, lev)
    ])
    if via == "method":
        g = c.x(q)
        r, e = ctx.raises(g.control, idx, lev)
    else:
        r, e = ctx.raises(c.x, q, ControlData(idx, lev))
    ctx.check_z(lambda: valid if e is None else z3.Not(valid), "accepted exactly when valid", f"error {e!r}")


def h_mismatch(ctx, dims, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    g = c.x(q)
    ctl = [i for i in range(len(dims)) if i != q]
    _, e = ctx.raises(g.control, ctl, [0] * (len(ctl) + 1))
    ctx.check(e is not None, "more levels than lines rejected")
    _, e = ctx.raises(g.control, ctl, [0] * (len(ctl) - 1)) if len(ctl) > 1 else (None, ValueError())
    ctx.check(e is not None, "fewer levels than lines rejected")
    g2 = c.csum([0, 1])
    _, e = ctx.raises(g2.control, [2], [0]) if len(dims) > 2 else (None, ValueError())
    ctx.check(e is not None, "controls on a two-qudit gate rejected")


def instances(tier):
    out = []
    sets = [((2, 3), 0, (1,)), ((2, 3), 1, (0,)), ((3, 2, 2), 1, (0,)), ((3, 2, 2), 1, (2, 0)), ((2, 2, 3), 2, (0,)),
            ((2, 3, 2), 0, (2,)), ((2, 3, 2), 2, (0, 1)), ((2, 2, 2), 0, (2, 1))]
    if tier == "thorough":
        sets += [((2, 2, 2, 3), 1, (3, 0)), ((2, 2, 2, 2), 3, (0, 1, 2)), ((3, 2, 2, 2), 2, (3, 0)), ((4, 3), 1, (0,)),
                 ((2, 3, 4), 1, (2,)), ((2, 2, 2, 2), 0, (3,)), ((2, 2, 2, 2), 1, (3, 2, 0))]
    for dims, q, ctl in sets:
        for late in (False, True):
            out.append(Instance(f"cuone/{dims}/{q}/{ctl}/{late}", h_sem, dims=dims, q=q, ctl=ctl, name="cuone", late=late))
    for n in SINGLE:
        if n not in NO_CONTROLS and n != "cuone":
            for dims, q, ctl in sets[:4]:
                out.append(Instance(f"{n}/{dims}/{q}/{ctl}", h_sem, dims=dims, q=q, ctl=ctl, name=n, late=False))
    for dims, q in (((2, 3), 0), ((3, 2), 1), ((2, 3, 2), 1)):
        for n in (1, 2) if len(dims) > 2 else (1,):
            for via in ("method", "constructor"):
                out.append(Instance(f"valid/{dims}/{q}/{n}/{via}", h_valid, dims=dims, q=q, n=n, via=via, max_paths=1500, seconds=60))
    out.append(Instance("mismatch", h_mismatch, dims=(2, 3, 2), q=1))
    return out
