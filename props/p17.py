"""Removal of phase rotations at the start and the end of a circuit."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.onedit.local_phases_transpilation.remove_phase_rotations import ZRemovalOptPass
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.gates import Rz, VirtRz, Z
from props import localutil as lu
from props.gates import SINGLE, TWO

ENCODED = ["ZRemovalOptPass.transpile/remove_initial_rz/remove_trailing_rz_sequence/remove_rz_gates", "Gate.to_matrix", "MatrixFactory.generate_matrix"]
BOUNDS = "circuits of up to 5 gates on 1..3 lines of dimension 2..3; phases symbolic, the other gates arbitrary complex matrices, rotations with symbolic angles, or fixed gates"
ASSUMPTIONS = ["angle regulation in the constructors keeps the operator (P01, P06, P09)"]
OV = {**lu.NO_REGULATE_R, ("mqt.qudits.quantum_circuit.gates.rz", "regulate_theta"): lu.same_angle}
PHASE = (Rz, VirtRz, Z)


def arbitrary(ctx, n, tag):
    return np.array([[ctx.cplx(f"{tag}m{a}{b}") for b in range(n)] for a in range(n)])


def make(ctx, c, i, item):
    name, lines, controls, fixed = (*item, None, None)[:4]
    tag = f"g{i}"
    if name == "cu":
        return c.cu_one(lines, arbitrary(ctx, c.dimensions[lines], tag), controls and ControlData(*controls))
    if name == "cu2":
        return c.cu_two(lines, arbitrary(ctx, int(np.prod([c.dimensions[q] for q in lines])), tag))
    if name in SINGLE:
        return SINGLE[name](ctx, c, lines, tag, controls and ControlData(*controls), fixed)[0]
    return TWO[name](ctx, c, lines, tag, fixed)[0]


def final(c, n):
    v = spec.zeros(n)[:, 0]
    v[0] = 1.0
    for g in c.instructions:
        v = g.to_matrix(identities=2) @ v
    return v


def decide(ctx, dims, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    for i, item in enumerate(layout):
        make(ctx, c, i, item)
    n = int(np.prod(dims))
    ops = list(c.instructions)
    for i, g in enumerate(ops):
        g.vp_mark = i
    want = final(c, n)
    out = ZRemovalOptPass(None).transpile(c)
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)), "input circuit unchanged")
    got = final(out, n)
    for k in range(n):
        ctx.close(got[k] * got[k].conjugate(), want[k] * want[k].conjugate(), f"probability of outcome {k}")
    # only phase rotations are gone, everything else is there in the same order
    left = [g.vp_mark for g in out.instructions]
    ctx.check(left == sorted(set(left)), "order of the gates left", str(left))
    for i, g in enumerate(ops):
        ctx.check(i in left or isinstance(g, PHASE), "only phase rotations are removed", type(g).__name__)
    for g in out.instructions:
        ctx.check(type(g) is type(ops[g.vp_mark]) and g.reference_lines == ops[g.vp_mark].reference_lines, "gates left as they were")
    # phases that nothing else on the line precedes or follows are removed
    if all(len(g.reference_lines) == 1 for g in ops):
        for q in range(len(dims)):
            mine = [g for g in ops if q in g.reference_lines]
            ctx.check(not mine or not isinstance(ops[[m for m in left if q in ops[m].reference_lines][0]], PHASE) if any(not isinstance(g, PHASE) for g in mine) else not [m for m in left if q in ops[m].reference_lines], "removable phases are removed")


AL = {
    "v": ("virtrz", 0, None, 0), "w": ("virtrz", 1, None, 1), "z": ("rz", 0, None, (0, 1)), "y": ("z", 1),
    "u": ("cu", 0), "r": ("cu", 1), "e": ("csum", [0, 1]), "f": ("cx", [1, 0], None, (0, 1, 1)),
    "k": ("virtrz", 1, ([0], [1]), 1), "l": ("z", 0, ([1], [1])), "c": ("cu", 1, ([0], [1])), "b": ("cu2", [0, 1]),
}


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, **kw):
        out.append(Instance(name, decide, overrides=OV, seconds=300 if th else 60, max_paths=2000 if th else 300, **kw))

    for d in (2, 3):
        for n in range(5):
            for s in map("".join, itertools.product("vzu", repeat=n)):
                if n < 4 or th or s in ("vuvu", "uvuv", "vzuv", "uzvu", "vuzv"):
                    add(f"1/{d}/{s or '-'}", dims=(d,), layout=[("virtrz", 0, None, 1) if x == "v" else AL[x] for x in s])
    for s in map("".join, itertools.product("vwyurefklc", repeat=3)):
        if not set(s) & set("vwykl") or s.count("u") + s.count("r") + s.count("c") > 1:
            continue
        if th or len(set(s)) == 3:
            add(f"2/{s}", dims=(2, 2), layout=[AL[x] for x in s])
    for s in ("vbw", "bvw", "wbvb", "kbv", "bkl", "vkbw", "bkw", "blv", "wvb"):
        add(f"2b/{s}", dims=(2, 2), layout=[AL[x] for x in s])
    for s in ("vwefw", "ewvfk", "kefvw", "lrkvw", "ruvwl", "vewvz", "wuzly", "vrkul", "krvlw", "ulkrv"):
        add(f"5/{s}", dims=(3, 2), layout=[AL[x] for x in s])
    for k, (dims, lay) in enumerate([
        ((2, 2, 2), [("virtrz", 2, None, 1), ("csum", [2, 0]), ("virtrz", 2, None, 1), ("cu", 1), ("rz", 1, None, (0, 1))]),
        ((2, 3, 2), [("virtrz", 2, ([0, 1], [1, 2]), 1), ("cu", 0), ("virtrz", 2, ([0, 1], [1, 2]), 1), ("x", 1)]),
        ((2, 3, 2), [("cu", 0), ("z", 1, ([0, 2], [1, 0])), ("cu", 1), ("z", 2)]),
        ((2, 2, 2), [("x", 0), ("virtrz", 1, ([0], [1]), 1), ("h", 2), ("virtrz", 1, ([2], [1]), 1), ("h", 1)]),
        ((2, 2, 2), [("h", 1), ("csum", [0, 2]), ("virtrz", 1, ([0], [1]), 1), ("h", 0), ("virtrz", 1, None, 1)]),
        ((2, 2, 2), [("virtrz", 0, None, 1), ("h", 0), ("virtrz", 1, None, 1), ("h", 1), ("virtrz", 2, None, 0)]),
        ((2, 2, 2), [("h", 0), ("h", 1), ("h", 2), ("rz", 1, None, (0, 1)), ("h", 1)]),
        ((2, 2, 2), [("h", 0), ("h", 1), ("virtrz", 2, None, 0), ("rz", 0, ([2], [1]), (0, 1)), ("h", 0)]),
    ]):
        add(f"3/{k}", dims=dims, layout=lay)
    return out
