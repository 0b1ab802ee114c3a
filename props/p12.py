"""Physical adaptive decomposition."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.onedit.mapping_aware_transpilation.phy_local_adaptive_decomp import PhyAdaptiveDecomposition, PhyLocAdaPass
from mqt.qudits.compiler.onedit.mapping_aware_transpilation.phy_local_qr_decomp import PhyQrDecomp
from mqt.qudits.quantum_circuit import QuantumCircuit
from props import localutil as lu
from props.gates import SINGLE
from props.p10 import CONST_COST
from props.p11 import check_physical

ENCODED = ["PhyLocAdaPass.transpile/transpile_gate", "PhyAdaptiveDecomposition.execute/dfs/z_extraction/store_routing_phases",
           "PhyQrDecomp.execute", "NAryTree/Node", "cost_calculator", "route_states2rotate_basic", "gate_chain_condition",
           "graph_rule_ongate", "graph_rule_update", "LevelGraph.swap_nodes/swap_node_attr_simple", "R/VirtRz/Gate.dag"]
BOUNDS = ("dimensions 2..3 for arbitrary unitaries (quick: a selection of zero patterns for the larger graphs, thorough: all), "
          "dimension 4 for single rotations; named connected graphs, all placements for dimension 3; angles in {0}, (0.2pi,pi), "
          "{pi}; stored phases in (0.1pi,1.9pi); angles around the thresholds of the code: one rotation or phase by (-0.015pi,0.015pi), alone or on a permutation")
ASSUMPTIONS = [
    "angle regulation inside the gate constructors keeps the operator (decided by P01, P06, P09)",
    "instances ending in /c give every rotation the same cost: the claim there is for product, couplings and placement",
]


def couplings(g):
    return sorted(tuple(sorted((g.nodes[a]["lpmap"], g.nodes[b]["lpmap"]))) for a, b in g.edges)


def phases(g, d):
    m = spec.eye(d)
    for i in range(d):
        m[i, i] = spec.expi(-g.nodes[i].get("phase_storage", 0))
    return m


def check_after(ctx, seq, u, d, g0, g1, map0, z0, kept, label="product between the placements"):
    """seq implements u from placement map0 with pending phases z0 to the placement and phases of g1."""
    p0 = spec.perm_matrix(list(map0))
    map1 = g1.log_phy_map
    ctx.check(sorted(map1) == list(range(d)), "final placement is a permutation", str(map1))
    ctx.check(couplings(g1) == g0, "physical couplings unchanged", f"{couplings(g1)} {g0}")
    check_physical(ctx, seq, d, g1)
    p1 = spec.perm_matrix(list(map1))
    z1 = phases(g1, d)
    if not kept:
        ctx.equal(z1, spec.eye(d), "no phase left behind")
    ctx.equal(lu.product(seq, d), p1 @ spec.dagger(z1) @ u @ z0 @ p0.T, label)


def run(ctx, gate, u, d, edges, mapping, vrz):
    g = lu.graph(d, edges, mapping, gate.parent_circuit)
    be = lu.Backend([g])
    c0 = couplings(g)
    before = lu.snapshot(g)
    seq = PhyLocAdaPass(be, vrz).transpile_gate(gate)
    ctx.equal(gate.to_matrix(identities=0), u, "the decomposed gate is unchanged")
    if be.energy_level_graphs[0] is not g:
        ctx.check(lu.snapshot(g) == before, "the graph before is left as it was")
        ctx.equal(phases(g, d), spec.eye(d), "no phase stored on the graph before")
    check_after(ctx, seq, u, d, c0, be.energy_level_graphs[0], mapping, spec.eye(d), vrz)


def h_unitary(ctx, d, pattern, edges, mapping, vrz=False, diag=True):
    c = lu.circ(d)
    u = spec.dagger(lu.unitary(ctx, d, pattern, lu.ada_order(d), diag))
    run(ctx, c.cu_one(0, u), u, d, edges, mapping, vrz)


def h_tiny(ctx, d, kind, base, edges, mapping, vrz):
    c = lu.circ(d)
    u = lu.tiny(ctx, d, kind) @ lu.base_op(d, base)
    run(ctx, c.cu_one(0, u), u, d, edges, mapping, vrz)


def h_builtin(ctx, kind, d, edges, mapping, vrz=False, fixed=None):
    c = lu.circ(d)
    gate, m = SINGLE[kind](ctx, c, 0, "g", fixed=fixed)
    run(ctx, gate, m, d, edges, mapping, vrz)


def h_two(ctx, d, kinds, edges, mapping, vrz):
    """two gates after each other: placement and phases left by the first are taken up by the second."""
    c = lu.circ(d)
    g = lu.graph(d, edges, mapping, c)
    be = lu.Backend([g])
    c0 = couplings(g)
    total = spec.eye(d)
    seq = []
    for i, (kind, fixed) in enumerate(kinds):
        gate, m = SINGLE[kind](ctx, c, 0, f"g{i}", fixed=fixed)
        seq += PhyLocAdaPass(be, vrz[i]).transpile_gate(gate)
        total = m @ total
        check_after(ctx, seq, total, d, c0, be.energy_level_graphs[0], mapping, spec.eye(d), vrz[i], f"product after gate {i + 1}")


def h_cost(ctx, d, pattern, edges, mapping):
    """never dearer than the QR decomposition under the same cost model."""
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.ada_order(d))
    gate = c.cu_one(0, u)
    g = lu.graph(d, edges, mapping, c)
    _, alg, tot = PhyQrDecomp(gate, g).execute()
    seq, best, _ = PhyAdaptiveDecomposition(gate, g, (alg, tot), d).execute()
    ctx.check(best[1] <= tot + 1e-9, "cost at most that of the QR decomposition")


def h_limit(ctx, d, pattern, edges, mapping, limit):
    """under an arbitrary limit: a sequence within it, or nothing and an infinite cost."""
    c = lu.circ(d)
    u = lu.unitary(ctx, d, pattern, lu.ada_order(d))
    g = lu.graph(d, edges, mapping, c)
    c0 = couplings(g)
    seq, best, g1 = PhyAdaptiveDecomposition(c.cu_one(0, u), g, (limit, limit), d).execute()
    if best[1] > limit + 1e-9:
        ctx.check(not seq, "nothing returned beyond the limit")
        return
    check_after(ctx, seq, spec.dagger(u), d, c0, g1, mapping, spec.eye(d), False)


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, ov=lu.NO_REGULATE_R, **kw):
        out.append(Instance(name, f, overrides=ov, seconds=300 if th else 60, max_paths=2000 if th else 300, **kw))

    for mp in ((0, 1), (1, 0)):
        for s in ("0", "g", "p", "h"):
            for vrz in (False, True):
                add(f"2/{mp[0]}{mp[1]}/{s}/{'v' if vrz else 'n'}", h_unitary, d=2, pattern=s, edges=lu.GRAPHS[2]["path"], mapping=mp, vrz=vrz)
    for gn, ed in lu.GRAPHS[3].items():
        for mp in itertools.permutations(range(3)):
            for s in ("000", "g00", "0g0", "00g", "p00", "0p0", "00p"):
                for vrz in (False, True) if th or mp in ((0, 1, 2), (0, 2, 1), (2, 0, 1)) else (False,):
                    add(f"3/{gn}/{''.join(map(str, mp))}/{s}/{'v' if vrz else 'n'}", h_unitary, d=3, pattern=s, edges=ed, mapping=mp, vrz=vrz)
            for s in ("0mm", "m0m", "0gp", "g0p", "pg0", "gp0", "pgp") + (("mm0", "mmm", "0gg", "g0g", "gg0") if th else ()):
                add(f"3/{gn}/{''.join(map(str, mp))}/{s}/c", h_unitary, ov=CONST_COST, d=3, pattern=s, edges=ed, mapping=mp, vrz=False)
            if th or mp in ((0, 1, 2), (0, 2, 1)):
                for s in ("g00", "0g0", "0gp", "p0p"):
                    add(f"cost/3/{gn}/{''.join(map(str, mp))}/{s}", h_cost, d=3, pattern=s, edges=ed, mapping=mp)
                add(f"limit/3/{gn}/{''.join(map(str, mp))}", h_limit, ov=CONST_COST, d=3, pattern="0m0", edges=ed, mapping=mp, limit=2.0)
                add(f"limit0/3/{gn}/{''.join(map(str, mp))}", h_limit, ov=CONST_COST, d=3, pattern="0m0", edges=ed, mapping=mp, limit=0.5)
    for s in ("0mm", "m0m") if th else ("0pg", "m0p"):
        add(f"3x/path/201/{s}/v", h_unitary, d=3, pattern=s, edges=lu.GRAPHS[3]["path"], mapping=(2, 0, 1), vrz=True)
        add(f"3x/star1/021/{s}/n", h_unitary, d=3, pattern=s, edges=lu.GRAPHS[3]["star1"], mapping=(0, 2, 1), vrz=False)
    for d, gn, mp in ((2, "path", (1, 0)), (3, "path", (0, 1, 2)), (3, "star1", (0, 2, 1)), (3, "star2", (2, 0, 1))):
        for kind in lu.tinies(d):
            for base in ("", "p"):
                for vrz in (False, True) if gn in ("path", "star1") else (False,):
                    add(f"tiny/{d}/{gn}/{'-'.join(map(str, kind))}/{base}/{'v' if vrz else 'n'}", h_tiny, sharp=lu.SHARP, d=d, kind=kind, base=base, edges=lu.GRAPHS[d][gn], mapping=mp, vrz=vrz)
    for d in (2, 3):
        for gn in lu.GRAPHS[d]:
            for kind in ("h", "x", "z", "s", "rh", "r", "rz", "virtrz", "noisex", "noisey", "noisez", "pm"):
                if kind == "h" and d > 2 and not th:
                    continue
                mp = (1, 0) if d == 2 else (0, 2, 1)
                add(f"builtin/{kind}/{d}/{gn}", h_builtin, ov=CONST_COST if d > 2 else lu.NO_REGULATE_R, kind=kind, d=d, edges=lu.GRAPHS[d][gn], mapping=mp)
    for kind, ab in (("r", (0, 3)), ("r", (1, 3)), ("rz", (0, 2)), ("rh", (0, 3)), ("noisex", (1, 3)), ("z", None)):
        for gn in ("path", "star", "cycle"):
            add(f"builtin/{kind}{ab or ''}/4/{gn}", h_builtin, ov=CONST_COST, kind=kind, d=4, edges=lu.GRAPHS[4][gn], mapping=(0, 2, 1, 3), fixed=ab)
    for i, (kinds, vrz) in enumerate([
        ([("rh", (0, 2)), ("virtrz", 1)], (False, False)),
        ([("rh", (0, 2)), ("virtrz", 1)], (True, False)),
        ([("virtrz", 0), ("rh", (0, 1))], (True, True)),
        ([("virtrz", 0), ("rh", (0, 1))], (True, False)),
        ([("noisex", (0, 2)), ("noisey", (1, 2))], (True, True)),
        ([("noisey", (0, 1)), ("x", None)], (True, False)),
        ([("z", None), ("noisex", (1, 2)), ("rh", (0, 1))], (True, True, False)),
        ([("x", None), ("z", None), ("x", None)], (False, True, False)),
    ]):
        for gn, mp in (("path", (0, 1, 2)), ("path", (1, 0, 2)), ("star1", (0, 2, 1)), ("star2", (2, 0, 1)), ("tri", (1, 2, 0))):
            add(f"two/{i}/{gn}{mp[0]}", h_two, ov=CONST_COST, d=3, kinds=kinds, edges=lu.GRAPHS[3][gn], mapping=mp, vrz=vrz)
    return out
