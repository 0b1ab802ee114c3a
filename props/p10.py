"""Logical local decompositions."""
from __future__ import annotations

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.onedit.mapping_un_aware_transpilation.log_local_adaptive_decomp import LogAdaptiveDecomposition, LogLocAdaPass
from mqt.qudits.compiler.onedit.mapping_un_aware_transpilation.log_local_qr_decomp import LogLocQRPass
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.gates import R, VirtRz
from props import localutil as lu
from props.gates import SINGLE, TWO

ENCODED = ["LogLocQRPass.transpile/transpile_gate", "QrDecomp.execute", "LogLocAdaPass.transpile/transpile_gate",
           "LogAdaptiveDecomposition.execute/dfs/z_extraction", "NAryTree", "cost_calculator", "LevelGraph", "R/VirtRz/Gate.dag"]
BOUNDS = ("dimensions 2..4 (adaptive 2..3 for arbitrary unitaries); unitary = rotations with angles in {0}, (0.2pi,pi), "
          "(0,0.2pi), {pi/2}, {pi} times a diagonal of symbolic phases; circuits of up to 5 gates on two lines; angles around the thresholds of the code: one rotation or phase by (-0.015pi,0.015pi), alone or on a permutation")
ASSUMPTIONS = [
    "angle regulation inside the gate constructors keeps the operator (decided by P01, P06, P09); it is the identity here where noted",
    "instances ending in /c use a constant cost per rotation: the claim there is for the product, not the choice of branch",
]
PASS = {"qr": LogLocQRPass, "ada": LogLocAdaPass}


def unit_cost(x):
    return 1.0


CONST_COST = {**lu.NO_REGULATE_R, ("mqt.qudits.quantum_circuit.gates.r", "theta_cost"): unit_cost,
              ("mqt.qudits.compiler.compilation_minitools.local_compilation_minitools", "theta_cost"): unit_cost}


def check_gates(ctx, seq, d, q=0):
    for g in seq:
        ctx.check(isinstance(g, (R, VirtRz)), "elementary gates only", type(g).__name__)
        ctx.check(g.target_qudits == q, "line of a gate")
        if isinstance(g, R):
            ctx.check(0 <= g.lev_a < g.lev_b < d, "levels of a rotation")


def decide(ctx, which, gate, u, d, edges, mapping):
    g = lu.graph(d, edges, mapping, gate.parent_circuit)
    be = lu.Backend([g])
    before = lu.snapshot(g)
    ulist = np.array(gate.to_matrix(identities=0), copy=True)
    seq = PASS[which](be).transpile_gate(gate)
    check_gates(ctx, seq, d)
    ctx.equal(lu.product(seq, d), u, "product of the decomposition")
    ctx.check(be.energy_level_graphs[0] is g and lu.snapshot(g) == before, "backend graph unchanged")
    ctx.equal(gate.to_matrix(identities=0), ulist, "the decomposed gate is unchanged")


def h_unitary(ctx, d, pattern, which, edges, mapping, diag=True):
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.qr_order(d) if which == "qr" else lu.ada_order(d), diag)
    decide(ctx, which, c.cu_one(0, u), u, d, edges, mapping)


def h_tiny(ctx, d, kind, base, which):
    c = lu.circ(d)
    u = lu.tiny(ctx, d, kind) @ lu.base_op(d, base)
    decide(ctx, which, c.cu_one(0, u), u, d, lu.GRAPHS[d]["path"], list(range(d)))


def h_builtin(ctx, kind, d, which, edges, mapping, fixed=None):
    c = lu.circ(d)
    gate, m = SINGLE[kind](ctx, c, 0, "g", fixed=fixed)
    decide(ctx, which, gate, m, d, edges, mapping)


def h_bounded(ctx, d, pattern, limit):
    """the adaptive search under a given cost limit, every rotation at the same cost."""
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.ada_order(d))
    g = lu.graph(d, lu.GRAPHS[d]["path"], list(range(d)), c)
    seq, cost, _ = LogAdaptiveDecomposition(c.cu_one(0, u), g, (limit, limit), d).execute()
    if not seq:
        ctx.check(cost[1] > limit, "nothing found is reported as such")
        return
    check_gates(ctx, seq, d)
    ctx.check(cost[1] <= limit + 1e-9, "cost within the limit")
    ctx.equal(lu.product([x.dag() for x in reversed(seq)], d), u, "product of the decomposition")


def h_dag(ctx, d, pattern, which):
    """the gate is marked as inverted."""
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.qr_order(d) if which == "qr" else lu.ada_order(d), True)
    gate = c.cu_one(0, spec.dagger(u)).dag()
    decide(ctx, which, gate, u, d, lu.GRAPHS[d]["path"], list(range(d)))


def h_circuit(ctx, dims, which, layout):
    """a whole circuit: local gates are replaced in place, everything else stays as it is."""
    c = QuantumCircuit(len(dims), list(dims), 0)
    want = []
    for i, (name, lines, controls, fixed) in enumerate(layout):
        n = len(c.instructions)
        if name in SINGLE:
            SINGLE[name](ctx, c, lines, f"g{i}", controls and ControlData(*controls), fixed)
        else:
            TWO[name](ctx, c, lines, f"g{i}", fixed)
        ctx.check(len(c.instructions) == n + 1, "gate recorded")
    ops = list(c.instructions)
    mats = [g.to_matrix(identities=2) for g in ops]
    be = lu.Backend([lu.graph(d, lu.GRAPHS[d]["path"], list(range(d)), c) for d in dims])
    out = PASS[which](be).transpile(c)
    # the input is as before
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)), "input circuit unchanged")
    want = spec.eye(int(np.prod(dims)))
    for m in mats:
        want = m @ want
    got = spec.eye(int(np.prod(dims)))
    rest = []
    for g in out.instructions:
        got = g.to_matrix(identities=2) @ got
        if len(g.reference_lines) > 1:
            rest.append((type(g).__name__, tuple(g.reference_lines), str(g.control_info["controls"] and g.control_info["controls"].indices)))
        else:
            ctx.check(isinstance(g, (R, VirtRz)), "elementary gates only", type(g).__name__)
    keep = [(type(g).__name__, tuple(g.reference_lines), str(g.control_info["controls"] and g.control_info["controls"].indices))
            for g in ops if len(g.reference_lines) > 1]
    ctx.check(rest == keep, "other gates kept in order", f"{rest} {keep}")
    ctx.check([tuple(out.dimensions)] == [tuple(dims)] and out.num_qudits == len(dims), "same register")
    ctx.equal(got, want, "operator of the transpiled circuit")


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, ov=lu.NO_REGULATE, **kw):
        out.append(Instance(name, f, overrides=ov, seconds=300 if th else 40, max_paths=2000 if th else 300, **kw))

    P = {d: lu.GRAPHS[d]["path"] for d in (2, 3, 4)}
    for which in ("qr", "ada"):
        for d in (2, 3):
            for s in lu.patterns(d, which):
                heavy = which == "ada" and s.count("g") > 1 and d == 3
                if not heavy or th:
                    add(f"{which}/{d}/{s}", h_unitary, d=d, pattern=s, which=which, edges=P[d], mapping=list(range(d)))
                if heavy:
                    add(f"{which}/{d}/{s}/c", h_bounded, ov=CONST_COST, d=d, pattern=s, limit=3.0)
        # angles around the thresholds of the code
        for d in (2, 3, 4) if which == "qr" else (2, 3):
            for kind in lu.tinies(d):
                for base in ("", "p") if d < 4 else ("",):
                    add(f"{which}/tiny/{d}/{'-'.join(map(str, kind))}/{base}", h_tiny, ov=lu.NO_REGULATE_R, sharp=lu.SHARP, d=d, kind=kind, base=base, which=which)
        # without phases, small angles, quarter turns
        for d, s in ((2, "g"), (2, "p"), (2, "0"), (2, "s"), (2, "h"), (3, "g00"), (3, "00g"), (3, "000"), (3, "0p0"), (3, "h00"), (3, "s00"), (3, "0h0")):
            add(f"{which}/nd/{d}/{s}", h_unitary, d=d, pattern=s, which=which, edges=P[d], mapping=list(range(d)), diag=False)
        for d, s in ((2, "s"), (2, "h"), (3, "s0p"), (3, "0s0"), (3, "hh0") if which == "qr" else (3, "h00")):
            add(f"{which}/x/{d}/{s}", h_unitary, d=d, pattern=s, which=which, edges=P[d], mapping=list(range(d)))
        # the logical passes must not depend on the graph or the placement
        for gname, mp in (("star1", [0, 1, 2]), ("star2", [2, 0, 1]), ("tri", [1, 0, 2]), ("path", [0, 2, 1]), ("path", [2, 1, 0])):
            for s in ("0g0", "gg0") if which == "qr" else ("g00",):
                add(f"{which}/{gname}{''.join(map(str, mp))}/{s}", h_unitary, d=3, pattern=s, which=which, edges=lu.GRAPHS[3][gname], mapping=mp)
        for d in (2, 3, 4) if which == "qr" or th else (2, 3):
            for name in sorted(set(SINGLE) - {"cuone"}):
                if name == "s" and d == 4:
                    continue
                if name == "h" and d > 2 and which == "ada":
                    continue
                if d == 4 and name in ("r", "rh", "rz", "noisex", "noisey"):
                    for ab in ((0, 1), (0, 3), (1, 2), (1, 3)):
                        add(f"{which}/{name}/{d}/{ab[0]}{ab[1]}", h_builtin, ov=lu.NO_REGULATE_R, kind=name, d=d, which=which, edges=P[d], mapping=list(range(d)), fixed=ab)
                    continue
                add(f"{which}/{name}/{d}", h_builtin, ov=lu.NO_REGULATE_R, ring=240 if (name, d) == ("h", 4) else 48, kind=name, d=d, which=which, edges=P[d], mapping=list(range(d)))
        add(f"{which}/dag/2", h_dag, d=2, pattern="g", which=which)
        add(f"{which}/dag/3", h_dag, d=3, pattern="0g0" if which == "qr" else "g00", which=which)
        L = {
            "mix": ((2, 3), [("r", 0, None, (0, 1)), ("csum", [0, 1], None, None), ("virtrz", 1, None, 2), ("rh", 1, None, (0, 2))]),
            "swapd": ((3, 2), [("h", 1, None, None), ("cx", [1, 0], None, (0, 2, 1)), ("x", 0, None, None)]),
            "ctrl": ((2, 3), [("x", 1, None, None), ("rz", 1, ([0], [1]), (0, 2)), ("z", 0, None, None)]),
            "ctrl2": ((3, 2), [("h", 1, ([0], [2]), None), ("noisex", 0, None, (0, 2)), ("x", 1, None, None)]),
            "only2": ((2, 2), [("ms", [0, 1], None, None), ("ls", [1, 0], None, None)]),
            "three": ((2, 2, 2), [("x", 2, None, None), ("x", 1, ([0, 2], [1, 0]), None), ("h", 0, None, None), ("cx", [2, 0], None, (0, 1, 1))]),
        }
        for k, (dims, layout) in L.items():
            add(f"{which}/circuit/{k}", h_circuit, ov=lu.NO_REGULATE_R, dims=dims, which=which, layout=layout)
    if True:
        pats = ["000000", "g00000", "0g0000", "00g000", "000g00", "0000g0", "00000g", "p00p0p", "ppp000", "00gg00", "0gg000"]
        if th:
            pats = [s for s in lu.patterns(4, "qr") if s.count("g") <= 4]
        for s in pats:
            add(f"qr/4/{s}", h_unitary, ov=lu.NO_REGULATE_R, d=4, pattern=s, which="qr", edges=P[4], mapping=list(range(4)))
    return out
