"""Tensor-network simulation."""
from __future__ import annotations

import itertools
import math

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.simulation import MQTQuditProvider
from props import localutil as lu
from props import p16
from props.gates import SINGLE, TWO

ENCODED = ["TNSim.run/execute/__contract_circuit/__apply_gate", "QuantumCircuit.simulate", "Job/JobResult", "Gate.to_matrix", "MatrixFactory.generate_matrix", "tensornetwork's contraction (executed on the symbolic tensors)"]
BOUNDS = ("registers of 1..4 lines with dimensions 2..4; one and two gates with arbitrary complex matrices on every choice of lines in every order, with up to two controls at every level; "
          "sequences of up to 4 such gates on selected lines; the built-in gates with symbolic angles on selected lines")
ASSUMPTIONS = ["the operator of a gate is the one decided by P01 to P05"]
OV = {**lu.NO_REGULATE_R, ("mqt.qudits.quantum_circuit.gates.rz", "regulate_theta"): lu.same_angle}


def arbitrary(ctx, n, tag):
    return np.array([[ctx.cplx(f"{tag}m{a}{b}") for b in range(n)] for a in range(n)])


def add(ctx, c, i, item):
    """one gate and its operator on the register."""
    lines, controls = item[1], item[2] if len(item) > 2 else None
    dims = list(c.dimensions)
    if item[0] != "cu":
        g = p16.make(ctx, c, i, (*item, None, None, None)[:4])
        return g.to_matrix(identities=2)
    lines = [lines] if isinstance(lines, int) else list(lines)
    n = math.prod(dims[q] for q in lines)
    u = arbitrary(ctx, n, f"g{i}")
    cd = controls and ControlData(*controls)
    if len(lines) == 1:
        c.cu_one(lines[0], u, cd)
    elif len(lines) == 2:
        c.cu_two(lines, u, cd)
    else:
        c.cu_multi(lines, u, cd)
    # matrices of custom gates on several lines are in register order
    order = sorted(lines)
    if controls:
        return spec.controlled(dims, list(controls[0]), list(controls[1]), order, u)
    return spec.embed(dims, order, u)


def h_sim(ctx, dims, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    n = math.prod(dims)
    want = spec.zeros(n, 1)
    want[0, 0] = 1
    for i, item in enumerate(layout):
        want = add(ctx, c, i, item) @ want
    gates = list(c.instructions)
    backend = MQTQuditProvider().get_backend("tnsim")
    job = backend.run(c)
    got = np.asarray(job.result().get_state_vector())
    ctx.equal(got.reshape(-1), want[:, 0], "final state")
    ctx.check(got.shape == (1, n), "shape of the state", str(got.shape))
    ctx.check(list(job.result().get_counts()) == [], "no counts without shots")
    ctx.check(len(c.instructions) == len(gates) and all(a is b for a, b in zip(c.instructions, gates)), "circuit unchanged")
    # again, and through the circuit
    again = np.asarray(backend.run(c).result().get_state_vector())
    ctx.equal(again.reshape(-1), want[:, 0], "final state of a second run")
    ctx.equal(np.asarray(c.simulate()).reshape(-1), want[:, 0], "final state by simulate")


def instances(tier):
    out = []
    th = tier == "thorough"

    def inst(dims, layout, tag, **kw):
        out.append(Instance(f"{tag}/{''.join(map(str, dims))}/" + ";".join(show(x) for x in layout), h_sim, overrides=OV, dims=dims, layout=layout, **kw))

    def show(x):
        l = x[1] if isinstance(x[1], int) else "-".join(map(str, x[1]))
        return f"{x[0]}@{l}" + (f"c{x[2][0]}{x[2][1]}".replace(" ", "") if len(x) > 2 and x[2] else "")

    regs = [(2,), (3,), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3)] + ([(4,), (3, 3), (4, 2), (2, 2, 2, 2), (3, 2, 3), (2, 3, 2, 2)] if th else [(2, 2, 2, 2)])
    for dims in regs:
        k = len(dims)
        for m in (1, 2, 3):
            for lines in itertools.permutations(range(k), m):
                if math.prod(dims[q] for q in lines) > 8 and not th:
                    continue
                rest = [q for q in range(k) if q not in lines]
                arg = lines[0] if m == 1 else list(lines)
                # the ground state reaches only one column: a first layer of arbitrary local gates reaches all
                pre = [("cu", q) for q in range(k)] if math.prod(dims) <= 12 else []
                inst(dims, [*pre, ("cu", arg)], "one")
                if m == 1 and rest:
                    for nc in (1, 2):
                        for cs in itertools.permutations(rest, nc):
                            for lv in itertools.product(*[range(dims[q]) for q in cs]):
                                if nc == 1 or th or (sum(lv) + cs[0]) % 3 == 0:
                                    inst(dims, [*pre, ("cu", arg, (list(cs), list(lv)))], "ctl")
    seqs = [
        ((2, 3, 2), [("cu", 0), ("cu", [0, 2]), ("cu", 2, ([0], [1])), ("cu", [2, 1])]),
        ((2, 2, 2), [("cu", [2, 0]), ("cu", 1, ([2, 0], [1, 0])), ("cu", [0, 1])]),
        ((3, 2), [("cu", 0), ("cu", [1, 0]), ("cu", 1, ([0], [2])), ("cu", 0)]),
        ((2, 3), [("cu", [0, 1]), ("cu", 1), ("cu", 0, ([1], [2])), ("cu", [1, 0])]),
    ]
    for dims, lay in seqs:
        for i in range(1, len(lay) + 1):
            inst(dims, lay[:i], "seq")
            if i > 1:
                inst(dims, lay[:i][::-1], "seq")
    for dims in ((2, 3), (3, 2), (3, 2, 2)) + (((2, 3, 3), (4, 2)) if th else ()):
        for nm in SINGLE:
            for q in range(len(dims)):
                inst(dims, [("cu", 0), ("cu", 1), (nm, q)], "gate", ring=240)
                if q == 1:
                    inst(dims, [("cu", 0), ("cu", 1), (nm, q, ([0], [1]))], "gate", ring=240)
        for nm in TWO:
            for pr in itertools.permutations(range(len(dims)), 2):
                inst(dims, [("cu", 0), ("cu", 1), (nm, list(pr))], "gate", ring=240)
    return out
