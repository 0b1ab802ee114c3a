"""Per-line view of a circuit and fusion of local gates."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
from mqt.qudits.core.lanes import Lanes
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.gates import CustomOne
from props import localutil as lu
from props.p17 import make

ENCODED = ["Lanes.pre_process_ops/create_lanes/find_consecutive_singles/extract_instructions/extract_lane/replace_gates_in_lane/next_is_local",
           "NaiveLocResynthOptPass.transpile", "QuantumCircuit.copy/set_instructions", "CustomOne"]
BOUNDS = "sequences of up to 6 gates on 1..3 lines of dimension 2..3, symbolic choice of the gates, every local matrix arbitrary complex"
ASSUMPTIONS = ["no gate object occurs twice in a circuit"]


def pick(ctx, c, n, menu, mid=()):
    """n gates, each an arbitrary choice from the menu, with fixed ones after the first."""
    seq = [menu[int(ctx.choice(f"k{i}", range(len(menu))))] for i in range(n)]
    for i, item in enumerate([*seq[:1], *mid, *seq[1:]]):
        make(ctx, c, i, item)
    return list(c.instructions)


def same_seq(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def short(gs):
    return str([(type(g).__name__, g.reference_lines) for g in gs])


def h_lanes(ctx, dims, n, menu, mid=()):
    c = QuantumCircuit(len(dims), list(dims), 0)
    ops = pick(ctx, c, n, menu, mid)
    lanes = Lanes(c)
    ctx.check(same_seq(c.instructions, ops), "input circuit unchanged")
    for q in range(len(dims)):
        mine = [g for g in ops if q in g.reference_lines]
        if not mine:
            ctx.check(not lanes.index_dict.get(q), "line without gates")
            continue
        ctx.check(same_seq(lanes.extract_lane(q), mine), "gates of a line in order", short(lanes.extract_lane(q)))
        groups = [[t[1] for t in grp] for grp in lanes.consecutive_view[q]]
        ctx.check(same_seq([g for grp in groups for g in grp], mine), "groups of a line in order", str([short(x) for x in groups]))
        for grp in groups:
            ctx.check(len(grp) == 1 or all(len(g.reference_lines) == 1 for g in grp), "groups hold local gates only")
        for a, b in zip(groups, groups[1:]):
            ctx.check(len(a[-1].reference_lines) > 1 or len(b[0].reference_lines) > 1, "runs of local gates are not split")
        for i, g in enumerate(mine):
            if len(g.reference_lines) == 1:
                want = i + 1 < len(mine) and len(mine[i + 1].reference_lines) == 1
                ctx.check(bool(lanes.next_is_local(g)) == want, "next gate of the line is local", f"{i} {short(mine)}")
    flat = lanes.extract_instructions()
    ctx.check(len(flat) == len(ops) and {id(g) for g in flat} == {id(g) for g in ops}, "flattening keeps every gate once", short(flat))
    for q in range(len(dims)):
        ctx.check(same_seq([g for g in flat if q in g.reference_lines], [g for g in ops if q in g.reference_lines]), "flattening keeps the order on every line", f"{short(flat)} {short(ops)}")


def h_replace(ctx, dims, n, menu, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    ops = pick(ctx, c, n, menu)
    mine = [g for g in ops if q in g.reference_lines]
    ctx.assume(len(mine) > 0)
    lanes = Lanes(c)
    a = int(ctx.choice("a", range(n)))
    b = int(ctx.choice("b", range(n)))
    ctx.assume(a <= b < len(mine))
    ctx.assume(all(len(g.reference_lines) == 1 for g in mine[a : b + 1]))
    others = {p: lanes.extract_lane(p) for p in range(len(dims)) if p != q and any(p in g.reference_lines for g in ops)}
    new = CustomOne(c, "new", q, np.eye(dims[q]), dims[q])
    lanes.replace_gates_in_lane(q, a, b, new)
    want = mine[:a] + [new] + mine[b + 1 :]
    ctx.check(same_seq(lanes.extract_lane(q), want), "gates of the line after a replacement", short(lanes.extract_lane(q)))
    for p, gs in others.items():
        ctx.check(same_seq(lanes.extract_lane(p), gs), "other lines after a replacement")
    flat = lanes.extract_instructions()
    ctx.check(same_seq([g for g in flat if q in g.reference_lines], want), "flattening after a replacement", short(flat))


def backend(dims, maps=None):
    return lu.Backend([lu.graph(d, lu.GRAPHS[d]["path"], (maps or {}).get(i, range(d))) for i, d in enumerate(dims)])


def h_fuse(ctx, dims, n, menu, maps=None, mid=()):
    c = QuantumCircuit(len(dims), list(dims), 0)
    ops = pick(ctx, c, n, menu, mid)
    mats = {id(g): np.array(g.to_matrix(identities=0), copy=True) for g in ops}
    out = NaiveLocResynthOptPass(backend(dims, maps)).transpile(c)
    ctx.check(same_seq(c.instructions, ops), "input circuit unchanged")
    ctx.check(out.dimensions == list(dims), "dimensions of the circuit")
    got = list(out.instructions)
    ent = [g for g in ops if len(g.reference_lines) > 1]
    ctx.check(len([g for g in got if len(g.reference_lines) > 1]) == len(ent) and {id(g) for g in got if len(g.reference_lines) > 1} == {id(g) for g in ent}, "other gates kept once")
    # on every line: the same entangling gates in order, and between them local gates with the same product
    for q, d in enumerate(dims):
        want, have = [spec.eye(d)], [spec.eye(d)]
        for g in ops:
            if q in g.reference_lines:
                if len(g.reference_lines) > 1:
                    want += [g, spec.eye(d)]
                else:
                    want[-1] = mats[id(g)] @ want[-1]
        run = 0
        for g in got:
            if q in g.reference_lines:
                if len(g.reference_lines) > 1:
                    have += [g, spec.eye(d)]
                    run = 0
                else:
                    have[-1] = g.to_matrix(identities=0) @ have[-1]
                    run += 1
                    ctx.check(run == 1, "runs of local gates become one gate")
        ctx.check(same_seq(want[1::2], have[1::2]), "entangling gates of a line in order", short(got))
        for i, (x, y) in enumerate(zip(want[0::2], have[0::2])):
            ctx.equal(y, x, f"local gates of line {q}, run {i}")
    for g in ops:
        ctx.equal(g.to_matrix(identities=0), mats[id(g)], "gates of the input circuit unchanged")


def h_operator(ctx, dims, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    for i, item in enumerate(layout):
        make(ctx, c, i, item)
    n = int(np.prod(dims))

    def total(x):
        m = spec.eye(n)
        for g in x.instructions:
            m = g.to_matrix(identities=2) @ m
        return m

    out = NaiveLocResynthOptPass(backend(dims)).transpile(c)
    ctx.equal(total(out), total(c), "operator of the fused circuit")


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, **kw):
        out.append(Instance(name, f, overrides=lu.NO_REGULATE_R, points=1, seconds=600 if th else 60, max_paths=40000 if th else 6000, **kw))

    L = {"0": ("cu", 0), "1": ("cu", 1), "2": ("cu", 2), "a": ("csum", [0, 1]), "b": ("cx", [1, 0], None, (0, 1, 1)), "c": ("csum", [2, 0]), "d": ("csum", [1, 2]),
         "k": ("x", 0, ([1], [1])), "m": ("z", 2, ([0], [1])), "t": ("x", 1, ([0, 2], [1, 1])), "r": ("r", 0, None, (0, 1)), "v": ("virtrz", 1, None, 0)}
    for dims, menu, n in (((2,), "0r", 5), ((2, 2), "01ak", 4), ((2, 3), "01bv", 4), ((2, 2, 2), "012ac", 3), ((2, 2, 2), "12dmt", 3), ((3, 2, 2), "02ktm", 3)):
        items = [L[x] for x in menu]
        for k in range(n + 1 + th):
            add(f"lanes/{menu}/{k}", h_lanes, dims=dims, n=k, menu=items)
            add(f"fuse/{menu}/{k}", h_fuse, dims=dims, n=k, menu=items)
    for dims, menu, n in (((2, 2), "01a", 3), ((2, 2, 2), "02c", 3), ((2, 2), "01k", 3)):
        for q in range(len(dims)):
            add(f"replace/{menu}/{q}", h_replace, dims=dims, n=n, menu=[L[x] for x in menu], q=q)
    # longer ones with the ends chosen freely and a fixed middle
    for mid in ("ac", "da", "ct", "kd", "0a1", "2d0", "t0"):
        fix = [L[x] for x in mid]
        for f, nm in ((h_lanes, "lanes"), (h_fuse, "fuse")):
            add(f"{nm}/mid/{mid}", f, dims=(2, 2, 2), n=3, menu=[L[x] for x in "012dc"], mid=fix)
    add("fuse/maps", h_fuse, dims=(2, 3), n=3, menu=[L[x] for x in "01a"], maps={0: [1, 0], 1: [2, 0, 1]})
    for s in ("001a01", "0a0b0a", "10k01k", "aa01bb", "rvarvb", "0101a0"):
        add(f"op2/{s}", h_operator, dims=(2, 2), layout=[L[x] for x in s])
    for s in ("0a1d2c", "2c0t1m", "012t01", "d2m0a1", "1a2c0d"):
        add(f"op3/{s}", h_operator, dims=(2, 2, 2), layout=[("h", L[x][1]) if x in "01" else L[x] for x in s])
    return out

