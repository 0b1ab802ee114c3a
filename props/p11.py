"""Physical QR decomposition."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.onedit.mapping_aware_transpilation.phy_local_qr_decomp import PhyLocQRPass, PhyQrDecomp
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.gates import R, VirtRz
from props import localutil as lu
from props.gates import SINGLE

ENCODED = ["PhyLocQRPass.transpile/transpile_gate", "PhyQrDecomp.execute", "cost_calculator", "route_states2rotate_basic",
           "gate_chain_condition", "graph_rule_ongate", "LevelGraph.swap_nodes", "R/VirtRz/Gate.dag"]
BOUNDS = ("dimensions 2..4; connected graphs listed by name (quick: a selection), all placements for dimension 3 "
          "(selection for 4); unitary = rotations with angles in {0}, (0.2pi,pi), {pi} times symbolic phases; angles around the thresholds of the code: one rotation or phase by (-0.015pi,0.015pi), alone or on a permutation")
ASSUMPTIONS = ["angle regulation inside the gate constructors keeps the operator (decided by P01, P06, P09)"]


def check_physical(ctx, seq, d, g, q=0, label="transition offered by the device"):
    phys = {frozenset((g.nodes[a]["lpmap"], g.nodes[b]["lpmap"])) for a, b in g.edges}
    for x in seq:
        ctx.check(isinstance(x, (R, VirtRz)), "elementary gates only", type(x).__name__)
        ctx.check(x.target_qudits == q, "line of a gate")
        if isinstance(x, R):
            ctx.check(frozenset((x.lev_a, x.lev_b)) in phys, label, f"{x.lev_a} {x.lev_b} not in {sorted(map(sorted, phys))}")


def to_physical(u, mapping):
    p = spec.perm_matrix(list(mapping))
    return p @ u @ p.T


def run(ctx, gate, u, d, edges, mapping):
    g = lu.graph(d, edges, mapping, gate.parent_circuit)
    be = lu.Backend([g])
    before = lu.snapshot(g)
    seq = PhyLocQRPass(be).transpile_gate(gate)
    check_physical(ctx, seq, d, g)
    ctx.equal(lu.product(seq, d), to_physical(u, mapping), "product of the physical decomposition")
    ctx.check(be.energy_level_graphs[0] is g and lu.snapshot(g) == before, "graph and placement unchanged")


def h_unitary(ctx, d, pattern, edges, mapping, diag=True):
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.qr_order(d), diag)
    run(ctx, c.cu_one(0, u), u, d, edges, mapping)


def h_tiny(ctx, d, kind, base, edges, mapping):
    c = lu.circ(d)
    u = lu.tiny(ctx, d, kind) @ lu.base_op(d, base)
    run(ctx, c.cu_one(0, u), u, d, edges, mapping)


def h_builtin(ctx, kind, d, edges, mapping, fixed=None):
    c = lu.circ(d)
    gate, m = SINGLE[kind](ctx, c, 0, "g", fixed=fixed)
    run(ctx, gate, m, d, edges, mapping)


def h_stored(ctx, d, pattern, edges, mapping, tiny=None):
    """phases stored on the graph are realised before the gate."""
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.qr_order(d))
    g = lu.graph(d, edges, mapping, c)
    g.phase_storing_setup()
    z = spec.eye(d)
    for i in range(d):
        ph = ctx.angle(f"s{i}", 0.1, 1.9) if tiny is None else ctx.angle("small", -0.015, 0.015) if i == tiny else 0.0
        g.nodes[i]["phase_storage"] = ph
        z[i, i] = spec.expi(-ph)
    seq, _, _ = PhyQrDecomp(c.cu_one(0, u), g).execute()
    check_physical(ctx, seq, d, g)
    ctx.equal(lu.product([x.dag() for x in reversed(seq)], d), to_physical(spec.dagger(z) @ u, mapping), "product with the stored phases first")
    for i in range(d):
        ctx.equal(np.array([spec.expi(-g.nodes[i]["phase_storage"])]), np.array([z[i, i]]), "stored phases restored")


def h_circuit(ctx, dims, specs, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    per = {i: spec.eye(d) for i, d in enumerate(dims)}
    order = []
    for i, (kind, q, fixed) in enumerate(layout):
        if isinstance(q, list):
            order.append(c.csum(q))
        else:
            _, m = SINGLE[kind](ctx, c, q, f"g{i}", fixed=fixed)
            order.append((q, m))
    be = lu.Backend([lu.graph(d, lu.GRAPHS[d][gn], mp, c) for d, (gn, mp) in zip(dims, specs)])
    out = PhyLocQRPass(be).transpile(c)
    # between two other gates, the local gates of a line multiply to the mapped operator
    i = 0
    acc = dict(per)
    for g in [*out.instructions, None]:
        if g is not None and isinstance(g.target_qudits, int):
            q = g.target_qudits
            check_physical(ctx, [g], dims[q], be.energy_level_graphs[q], q)
            acc[q] = g.to_matrix(identities=0) @ acc[q]
            continue
        want = dict(per)
        while i < len(order) and isinstance(order[i], tuple):
            want[order[i][0]] = order[i][1] @ want[order[i][0]]
            i += 1
        for q, d in enumerate(dims):
            ctx.equal(acc[q], to_physical(want[q], specs[q][1]), f"local gates of line {q}")
        if g is not None:
            ctx.check(i < len(order) and type(order[i]) is type(g) and order[i].target_qudits == g.target_qudits, "other gates in place")
            i += 1
        acc = dict(per)
    ctx.check(i == len(order), "no gate lost")


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, ov=lu.NO_REGULATE_R, **kw):
        out.append(Instance(name, f, overrides=ov, seconds=300 if th else 40, max_paths=2000 if th else 300, **kw))

    for mp in ((0, 1), (1, 0)):
        for s in lu.patterns(2, "qr"):
            add(f"2/{mp[0]}{mp[1]}/{s}", h_unitary, d=2, pattern=s, edges=lu.GRAPHS[2]["path"], mapping=mp)
    pats = lu.patterns(3, "qr") if th else ["000", "0g0", "0p0", "g00", "00g", "p0g", "gp0", "ggg", "ggp"]
    for gn, ed in lu.GRAPHS[3].items():
        for mp in itertools.permutations(range(3)):
            for s in pats:
                if not th and s not in ("000", "0g0", "ggg") and mp not in ((0, 1, 2), (0, 2, 1), (2, 0, 1)):
                    continue
                add(f"3/{gn}/{''.join(map(str, mp))}/{s}", h_unitary, d=3, pattern=s, edges=ed, mapping=mp)
    for gn, ed in lu.GRAPHS[4].items():
        maps = list(itertools.permutations(range(4))) if th else [(0, 1, 2, 3), (0, 2, 1, 3), (3, 1, 0, 2), (2, 3, 0, 1)]
        for mp in maps:
            for s in ("g00000", "00g000", "0000g0", "00000g", "000g00", "0p0000") + (("0gg000", "00gg00", "000gg0") if th else ()):
                add(f"4/{gn}/{''.join(map(str, mp))}/{s}", h_unitary, d=4, pattern=s, edges=ed, mapping=mp)
    for d, gn, mp in ((2, "path", (1, 0)), (3, "path", (0, 1, 2)), (3, "star1", (0, 2, 1)), (3, "star2", (2, 0, 1)), (4, "path", (1, 0, 2, 3)), (4, "star", (0, 1, 2, 3))):
        for kind in lu.tinies(d):
            for base in ("", "p") if d < 4 else ("",):
                add(f"tiny/{d}/{gn}/{'-'.join(map(str, kind))}/{base}", h_tiny, sharp=lu.SHARP, d=d, kind=kind, base=base, edges=lu.GRAPHS[d][gn], mapping=mp)
    for d in (2, 3):
        for gn in lu.GRAPHS[d]:
            for kind in ("h", "x", "z", "s", "rh", "r", "rz", "virtrz", "noisex", "noisey", "noisez", "pm"):
                mp = (1, 0) if d == 2 else (0, 2, 1)
                add(f"builtin/{kind}/{d}/{gn}", h_builtin, kind=kind, d=d, edges=lu.GRAPHS[d][gn], mapping=mp)
    for kind, ab in (("r", (0, 3)), ("r", (1, 3)), ("rz", (0, 2)), ("rh", (0, 3)), ("x", None), ("z", None), ("pm", None), ("h", None)):
        for gn in ("path", "star", "cycle"):
            add(f"builtin/{kind}{ab or ''}/4/{gn}", h_builtin, ring=240 if kind == "h" else 48, kind=kind, d=4, edges=lu.GRAPHS[4][gn], mapping=(0, 2, 1, 3), fixed=ab)
    for gn, mp in (("path", (0, 1, 2)), ("star1", (0, 2, 1)), ("star2", (1, 2, 0))):
        for i in range(3):
            for s in ("000", "0p0"):
                add(f"stored/{gn}/{s}/tiny{i}", h_stored, sharp=lu.SHARP, d=3, pattern=s, edges=lu.GRAPHS[3][gn], mapping=mp, tiny=i)
        add(f"stored/{gn}", h_stored, d=3, pattern="0g0", edges=lu.GRAPHS[3][gn], mapping=mp)
    add("circuit/a", h_circuit, dims=(3, 2), specs=[("star1", (0, 2, 1)), ("path", (1, 0))], layout=[("h", 1, None), ("rh", 0, (0, 2)), ("csum", [0, 1], None), ("x", 0, None), ("z", 1, None)])
    add("circuit/b", h_circuit, dims=(2, 3), specs=[("path", (0, 1)), ("path", (2, 0, 1))], layout=[("x", 0, None), ("csum", [1, 0], None), ("noisex", 1, (0, 2)), ("s", 1, None), ("csum", [0, 1], None), ("h", 0, None)])
    return out
