"""Propagation of phase rotations."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.onedit.local_phases_transpilation.propagate_virtrz import ZPropagationOptPass
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.gates import R, VirtRz
from props import localutil as lu
from props.gates import SINGLE, TWO

ENCODED = ["ZPropagationOptPass.transpile/remove_z/propagate_z/find_intervals_with_same_target_qudits", "pi_mod (instances ending in /m)", "R/VirtRz constructors and to_matrix"]
BOUNDS = "sequences of up to 5 gates on 1..2 lines of dimension 2..4, every level pair (in either order), angles in (-4pi,4pi) and (-2pi,2pi)"
ASSUMPTIONS = ["angle regulation in the constructors keeps the operator (P01, P06, P09); so does pi_mod (P09), left out except in instances ending in /m"]
M = "mqt.qudits.compiler.onedit.local_phases_transpilation.propagate_virtrz"
MOD = lu.NO_REGULATE_R
OV = {**MOD, (M, "pi_mod"): lu.same_angle}


def make(ctx, c, i, item):
    name, lines, controls, fixed = (*item, None, None)[:4]
    tag = f"g{i}"
    dag = name.startswith("-")
    name = name.lstrip("-")
    if name in SINGLE:
        g, _ = SINGLE[name](ctx, c, lines, tag, controls and ControlData(*controls), fixed)
    else:
        g, _ = TWO[name](ctx, c, lines, tag, fixed)
    if dag:
        g.dag()
    return g


def total(c, n):
    m = spec.eye(n)
    for g in c.instructions:
        m = g.to_matrix(identities=2) @ m
    return m


def kind(g):
    return (type(g).__name__, tuple(g.reference_lines))


def decide(ctx, dims, layout, back):
    c = QuantumCircuit(len(dims), list(dims), 0)
    for i, item in enumerate(layout):
        make(ctx, c, i, item)
    n = int(np.prod(dims))
    ops = list(c.instructions)
    want = total(c, n)
    out = (ZPropagationOptPass(None, back) if back is not None else ZPropagationOptPass(None)).transpile(c)
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)), "input circuit unchanged")
    ctx.equal(total(c, n), want, "operator of the input circuit unchanged")
    ctx.equal_phase(total(out, n), want, "operator of the circuit with moved phases")
    for q in range(len(dims)):
        a = [g for g in ops if q in g.reference_lines and not isinstance(g, VirtRz)]
        b = [g for g in out.instructions if q in g.reference_lines and not isinstance(g, VirtRz)]
        ctx.check([kind(g) for g in a] == [kind(g) for g in b], "other gates and their order per line", f"{[kind(g) for g in a]} {[kind(g) for g in b]}")
        for x, y in zip(a, b):
            if isinstance(x, R):
                ctx.check({x.lev_a, x.lev_b} == {y.lev_a, y.lev_b}, "levels of a rotation")
                ctx.close(abs(x.to_matrix(identities=0)[x.lev_a, x.lev_b]) ** 2, abs(y.to_matrix(identities=0)[x.lev_a, x.lev_b]) ** 2, "angle of a rotation")
    if len(dims) == 1 and all(isinstance(g, (R, VirtRz)) and not g.dagger for g in ops) and len(ops) > 1:
        where = [isinstance(g, VirtRz) for g in out.instructions]
        front = back is None or back
        ctx.check(where == sorted(where, reverse=front), "phases are moved to the end asked for", str(where))


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, ov=OV, **kw):
        out.append(Instance(name, decide, overrides=ov, seconds=300 if th else 60, max_paths=2000 if th else 300, **kw))

    pairs = {2: [(0, 1), (1, 0)], 3: [(0, 1), (1, 2), (0, 2), (2, 0), (2, 1), (1, 0)], 4: [(0, 2), (1, 3), (2, 3), (3, 0)]}
    for back in (True, False, None):
        bn = {True: "b", False: "f", None: "n"}[back]
        for d in (2, 3, 4):
            for n in range(5 if d < 4 else 4):
                for s in map("".join, itertools.product("rv", repeat=n)):
                    if back is None and n > 2:
                        continue
                    for shift in range(3 if n == 2 or th else 2 if n < 4 else 1):
                        k = shift
                        lay = []
                        for x in s:
                            k += 1
                            lay.append(("r", 0, None, pairs[d][k % len(pairs[d])]) if x == "r" else ("virtrz", 0, None, k % d))
                        add(f"{bn}/1/{d}/{s or '-'}/{shift}", dims=(d,), layout=lay, back=back)
        # symbolic levels, with the real reduction of phases
        for d in (2, 3):
            add(f"{bn}/lev/{d}/rv", dims=(d,), layout=[("r", 0), ("virtrz", 0)], back=back)
            add(f"{bn}/lev/{d}/vr", dims=(d,), layout=[("virtrz", 0), ("r", 0)], back=back)
            add(f"{bn}/rv/m/{d}", ov=MOD, dims=(d,), layout=[("r", 0, None, (0, d - 1)), ("virtrz", 0, None, d - 1)], back=back)
            add(f"{bn}/vr/m/{d}", ov=MOD, dims=(d,), layout=[("virtrz", 0, None, 0), ("r", 0, None, (0, d - 1))], back=back)
            add(f"{bn}/lev/{d}/vrv", dims=(d,), layout=[("virtrz", 0), ("r", 0), ("virtrz", 0)], back=back)
            add(f"{bn}/lev/{d}/vvr", dims=(d,), layout=[("virtrz", 0), ("virtrz", 0), ("r", 0)], back=back)
        if th:
            add(f"{bn}/vvr/m", ov=MOD, dims=(3,), layout=[("virtrz", 0, None, 1), ("virtrz", 0, None, 1), ("r", 0, None, (0, 1))], back=back)
        if back is None:
            continue
        # other gates in between
        for i, other in enumerate([("x", 0), ("h", 0), ("z", 0), ("s", 0), ("rz", 0, None, (0, 1)), ("rh", 0, None, (0, 1)), ("-r", 0, None, (0, 1)), ("-virtrz", 0, None, 1),
                                   ("noisex", 0, None, (0, 1)), ("pm", 0)]):
            for j, lay in enumerate(([other, ("virtrz", 0, None, 0)], [("virtrz", 0, None, 1), other, ("r", 0, None, (0, 1))], [("r", 0, None, (0, 1)), ("virtrz", 0, None, 1), other],
                                     [("virtrz", 0, None, 0), ("r", 0, None, (0, 1)), other, ("r", 0, None, (1, 0)), ("virtrz", 0, None, 1)])):
                for d in (2, 3):
                    add(f"{bn}/other/{other[0]}{i}/{j}/{d}", dims=(d,), layout=lay, back=back)
        # two lines
        for k, (dims, lay) in enumerate([
            ((2, 3), [("virtrz", 0, None, 0), ("r", 1, None, (0, 2)), ("virtrz", 1, None, 2), ("r", 0, None, (0, 1))]),
            ((2, 3), [("virtrz", 1, None, 0), ("r", 1, None, (0, 2)), ("csum", [0, 1]), ("virtrz", 1, None, 2), ("r", 1, None, (0, 1))]),
            ((2, 2), [("virtrz", 1, None, 0), ("virtrz", 0, None, 1), ("csum", [1, 0]), ("r", 1, None, (0, 1)), ("virtrz", 1, None, 0)]),
            ((2, 2), [("virtrz", 1, None, 0), ("r", 1, ([0], [1]), (0, 1)), ("virtrz", 1, None, 1), ("r", 1, None, (0, 1))]),
            ((3, 2), [("r", 1, None, (0, 1)), ("virtrz", 1, ([0], [2]), 1), ("r", 1, None, (0, 1)), ("virtrz", 1, None, 0)]),
            ((3, 2), [("r", 0, None, (0, 1)), ("cx", [0, 1], None, (0, 1, 2)), ("virtrz", 0, None, 2), ("r", 0, None, (1, 2)), ("r", 1, None, (0, 1))]),
            ((2, 2), [("virtrz", 0, None, 0), ("ms", [0, 1]), ("virtrz", 0, None, 1), ("r", 0, None, (0, 1)), ("virtrz", 1, None, 1)]),
            ((2, 2), [("r", 0, None, (0, 1)), ("r", 1, None, (0, 1)), ("r", 0, None, (0, 1)), ("virtrz", 0, None, 1), ("virtrz", 1, None, 0)]),
            ((3, 2), [("virtrz", 0, None, 1), ("r", 0, None, (1, 2)), ("x", 1, ([0], [2])), ("r", 0, None, (0, 1)), ("virtrz", 0, None, 1)]),
        ]):
            add(f"{bn}/2/{k}", dims=dims, layout=lay, back=back)
        # every mixture of four gates over two lines
        al = {"a": ("virtrz", 0, None, 0), "b": ("virtrz", 1, None, 1), "r": ("r", 0, None, (0, 1)), "t": ("r", 1, None, (0, 1)), "e": ("csum", [0, 1]), "k": ("r", 1, ([0], [1]), (0, 1))}
        for s in map("".join, itertools.product("abrtek", repeat=3)):
            if ("a" in s or "b" in s) and (th or len(set(s)) == 3):
                add(f"{bn}/mix/{s}", dims=(2, 2), layout=[al[x] for x in s], back=back)
    return out
