"""The verifier of decompositions and the small simulators."""
from __future__ import annotations

import itertools
import math

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.compilation_minitools import naive_unitary_verifier as nv
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.gates import CustomOne, CustomTwo
from props import localutil as lu
from props import p16

ENCODED = ["UnitaryVerifier.__init__/get_perm_matrix/verify", "mini_unitary_sim", "mini_sim", "phy_sdit_sim", "Gate.to_matrix of the gates in the sequence"]
BOUNDS = ("dimensions 2..4 (and pairs 22, 23, 32 without placements), up to 3 gates with symbolic angles, every pair of placements for dimension 2 and 3 (a selection for 4); "
          "correct targets with an arbitrary phase; wrong targets: any phase of (0.05pi,1.95pi) on one level, any rotation by (0.1pi,1.9pi) between levels above 0, rotations by fixed angles with level 0, a wrong final placement")
ASSUMPTIONS = ["every gate of the list acts on all lines of the target (the verifier multiplies matrices of the target's size)", "the first entry of the compared product is not zero (the verifier divides by it; numpy then rejects)", "the operator of a gate is the one decided by P01 to P05", "the strip between the tolerance 1e-4 of the verifier and the errors listed is not claimed either way"]
OV = {**lu.NO_REGULATE_R, ("mqt.qudits.quantum_circuit.gates.rz", "regulate_theta"): lu.same_angle}


def build(ctx, dims, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    n = math.prod(dims)
    m = spec.eye(n)
    for i, item in enumerate(layout):
        g = p16.make(ctx, c, i, (*item, None, None, None)[:4])
        m = g.to_matrix(identities=2) @ m
    return c, list(c.instructions), m


def target(c, dims, m):
    other = QuantumCircuit(len(dims), list(dims), 0)
    return other.cu_one(0, m) if len(dims) == 1 else other.cu_two([0, 1], m)


def wrong(ctx, n, kind):
    """an operator that is no phase."""
    k, *a = kind
    if k == "phase":
        m = spec.eye(n)
        m[a[0], a[0]] = spec.expi(ctx.angle("w", 0.05, 1.95))
        return m
    if k == "rot":
        return spec.rot(n, a[0], a[1], ctx.angle("w", 0.1, 1.9), ctx.angle("v", -1, 1))
    return spec.rot(n, a[0], a[1], a[2] * np.pi / 6, ctx.angle("v", -1, 1))


def h_verify(ctx, dims, layout, maps, kind):
    n = math.prod(dims)
    c, seq, m = build(ctx, dims, layout)
    inv = spec.dagger(m)
    if maps:
        nodes, p0, p1 = maps
        a, b = between(nodes, p0), between(nodes, p1)
        t = a.T @ inv @ b
    else:
        t = inv
    t = t * spec.expi(ctx.angle("ph", -1, 1))
    ok = kind is None
    if not ok:
        t = t @ wrong(ctx, n, kind)
    g = target(c, dims, t)
    ver = nv.UnitaryVerifier(seq, g, list(dims), *(list(x) for x in maps or ()))
    ctx.check(bool(ver.verify()) == ok, "accepts exactly the correct decompositions", f"{'rejected' if ok else 'accepted'}")
    ctx.check(bool(ver.verify()) == ok, "same answer again")
    ctx.equal(g.to_matrix(identities=0), t, "target unchanged")


def between(nodes, mp):
    """maps nodes[i] to mp[i]."""
    out = spec.zeros(len(mp))
    for x, y in zip(nodes, mp):
        out[y, x] = 1
    return out


def h_wrong_map(ctx, d, layout, p0, p1, p2):
    """a final placement that is not the one reached."""
    c, seq, m = build(ctx, (d,), layout)
    nodes = range(d)
    t = between(nodes, p0).T @ spec.dagger(m) @ between(nodes, p1)
    ver = nv.UnitaryVerifier(seq, target(c, (d,), t), [d], list(nodes), list(p0), list(p2))
    # the first entry must not vanish for the quotient to exist; such targets are rejected as not-a-number by numpy
    with np.errstate(all="ignore"):
        ctx.check(bool(ver.verify()) == (p1 == p2), "accepts only the right placement")


def h_sim(ctx, dims, layout, maps):
    c, _, m = build(ctx, dims, layout)
    ctx.equal(nv.mini_unitary_sim(c, c.instructions), m, "operator of the circuit")
    ctx.equal(nv.mini_unitary_sim(c, c.instructions[1:]) @ c.instructions[0].to_matrix(identities=2), m, "operator of a part")
    ctx.equal(nv.mini_sim(c), m[:, 0], "state of the circuit")
    if maps:
        c.set_mapping([list(maps)])
        ctx.equal(nv.phy_sdit_sim(c), m[:, maps[0]], "physical state of the circuit")
    ctx.equal(nv.mini_unitary_sim(c, []), spec.eye(math.prod(dims)), "no gates")


SEQ1 = {
    2: [[("r", 0, None, (0, 1))], [("r", 0, None, (0, 1)), ("rz", 0, None, (0, 1))], [("virtrz", 0, None, 1), ("r", 0, None, (0, 1)), ("virtrz", 0, None, 0)]],
    3: [[("r", 0, None, (0, 2))], [("r", 0, None, (0, 1)), ("virtrz", 0, None, 2)], [("rz", 0, None, (1, 2)), ("r", 0, None, (1, 2)), ("r", 0, None, (0, 1))]],
    4: [[("r", 0, None, (1, 3))], [("r", 0, None, (0, 2)), ("virtrz", 0, None, 3)]],
}
# the verifier multiplies the matrices of the gates as they are: all of them act on every line of the target
SEQ2 = [
    [("cx", [0, 1])],
    [("ls", [0, 1]), ("cx", [1, 0])],
    [("csum", [0, 1]), ("r", 1, ([0], [1]), (0, 1))],
]


def kinds(n):
    out = [None] + [("phase", k) for k in range(n)] + [("rot", a, b) for a in range(1, n) for b in range(a + 1, n)]
    return out + [("fix", 0, b, m) for b in range(1, n) for m in (1, 5)]


def instances(tier):
    out = []
    th = tier == "thorough"
    add = lambda name, f, /, **kw: out.append(Instance(name, f, overrides=OV, **kw))
    for d, layouts in SEQ1.items():
        perms = list(itertools.permutations(range(d)))
        for li, layout in enumerate(layouts):
            for kind in kinds(d):
                k = "-".join(map(str, kind)) if kind else "right"
                add(f"plain/{d}/{li}/{k}", h_verify, dims=(d,), layout=layout, maps=None, kind=kind)
                pairs = [(a, b) for a in perms for b in perms]
                if d == 4 or not th:
                    pairs = pairs[:: {2: 1, 3: 7, 4: 83}[d]] if kind is None or not th else pairs[::31]
                for a, b in pairs:
                    nodes = tuple(range(d)) if (len(pairs) + sum(a[:2])) % 2 else tuple(range(d))[::-1]
                    add(f"placed/{d}/{li}/{k}/{''.join(map(str, a + b))}", h_verify, dims=(d,), layout=layout, maps=(nodes, a, b), kind=kind)
            for p0 in perms[:: 1 if d < 4 else 5]:
                for p1 in perms[:: 1 if d < 4 else 7]:
                    for p2 in perms:
                        # a vanishing first entry makes the quotient undefined, only placements that keep it are used
                        if p2[0] == p1[0] and (d < 4 or p2 != p1) and (th or li == 0):
                            add(f"map/{d}/{li}/{''.join(map(str, p0 + p1 + p2))}", h_wrong_map, d=d, layout=layout, p0=p0, p1=p1, p2=p2)
            add(f"sim/{d}/{li}", h_sim, dims=(d,), layout=layout, maps=perms[-2])
    for dims in ((2, 2), (2, 3), (3, 2)):
        t = "".join(map(str, dims))
        for li, layout in enumerate(SEQ2):
            for kind in kinds(math.prod(dims)):
                if kind and not th and (kind[1] + kind[-1] + li) % 3:
                    continue
                k = "-".join(map(str, kind)) if kind else "right"
                add(f"pair/{t}/{li}/{k}", h_verify, dims=dims, layout=layout, maps=None, kind=kind)
            add(f"sim/{t}/{li}", h_sim, dims=dims, layout=layout, maps=None)
    return out
