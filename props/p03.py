"""The adjoint of a gate."""
from __future__ import annotations

import copy

import numpy as np
import scipy.stats
from engine.harness import Instance
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from props.gates import NO_CONTROLS, SINGLE, TWO

ENCODED = ["Gate.dag", "Gate.to_matrix", "MatrixFactory.generate_matrix", "MatrixFactory.apply_identities_and_controls",
           "MatrixFactory.wrap_in_identities", "all gate classes"]
BOUNDS = "every gate kind; one, two and three lines of dimensions 2..3; controls on either side; up to three applications of dag"


def levels(ctx, g):
    for ids in (0, 1, 2):
        ctx  # noqa: B018
        yield ids


def h_single(ctx, name, dims, q, controls):
    c = QuantumCircuit(len(dims), list(dims), 0)
    cd = ControlData(*[list(x) for x in controls]) if controls else None
    g, m = SINGLE[name](ctx, c, q, "g", cd)
    lines = sorted([*(controls[0] if controls else []), q])
    if controls:
        full = spec.controlled(dims, controls[0], controls[1], [q], m)
        fulld = spec.controlled(dims, controls[0], controls[1], [q], spec.dagger(m))
    else:
        full = spec.embed(dims, [q], m)
        fulld = spec.embed(dims, [q], spec.dagger(m))
    name0 = (list(g.reference_lines), g.target_qudits)
    h = g.dag()
    ctx.equal(h.to_matrix(identities=2), fulld, "adjoint on the register")
    if not controls:
        ctx.equal(h.to_matrix(identities=0), spec.dagger(m), "adjoint on its own line")
    h2 = h.dag()
    ctx.equal(h2.to_matrix(identities=2), full, "adjoint applied twice")
    ctx.equal(h2.dag().to_matrix(identities=2), fulld, "adjoint applied three times")
    ctx.check((list(g.reference_lines), g.target_qudits) == name0, "lines unchanged")


def h_two(ctx, name, dims, q):
    c = QuantumCircuit(len(dims), list(dims), 0)
    g, m = TWO[name](ctx, c, q, "g")
    full = spec.embed(dims, sorted(q), m)
    fulld = spec.embed(dims, sorted(q), spec.dagger(m))
    ctx.equal(g.dag().to_matrix(identities=0), spec.dagger(m), "adjoint on its own lines")
    ctx.equal(g.to_matrix(identities=2), fulld, "adjoint on the register")
    ctx.equal(g.dag().to_matrix(identities=2), full, "adjoint applied twice")
    ctx.equal(g.dag().to_matrix(identities=0), spec.dagger(m), "adjoint applied three times")


def h_control_after(ctx, name, dims, q, controls):
    """controls attached after taking the adjoint."""
    c = QuantumCircuit(len(dims), list(dims), 0)
    g, m = SINGLE[name](ctx, c, q, "g")
    g.dag()
    g.control([*controls[0]], [*controls[1]])
    ctx.equal(g.to_matrix(identities=2), spec.controlled(dims, controls[0], controls[1], [q], spec.dagger(m)),
              "controlled adjoint")


class Draws:
    """replaces the generator of random unitaries: every draw is another arbitrary matrix."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def __call__(self, dim, *a, **k):
        self.n += 1
        return np.array([[self.ctx.cplx(f"u{self.n}_{i}{j}") for j in range(int(dim))] for i in range(int(dim))])


def h_random(ctx, dims, q):
    """a random gate is one gate: the same matrix at every use, and its adjoint the adjoint of it."""
    draws = Draws(ctx)
    cls = type(scipy.stats.unitary_group)
    keep = cls.rvs
    cls.rvs = lambda self, dim, *a, **k: draws(dim)
    try:
        c = QuantumCircuit(len(dims), list(dims), 0)
        g, other = c.randu(list(q)), c.randu(list(q))
        m = g.to_matrix(identities=0)
        ctx.equal(g.to_matrix(identities=0), m, "the same matrix at every use")
        ctx.equal(g.to_matrix(identities=2), spec.embed(dims, sorted(q), m), "on the register")
        o = other.to_matrix(identities=0)
        ctx.check(draws.n == 2 and (o is not m), "each gate has a matrix of its own", str(draws.n))
        ctx.equal(copy.deepcopy(g).to_matrix(identities=0), m, "a copy is the same gate")
        h = g.dag()
        ctx.equal(h.to_matrix(identities=0), spec.dagger(m), "adjoint")
        ctx.equal(h.dag().to_matrix(identities=0), m, "adjoint applied twice")
        ctx.equal(other.to_matrix(identities=0), o, "other gates keep theirs")
    finally:
        cls.rvs = keep


def instances(tier):
    out = []
    for dims, q in (((2,), (0,)), ((3,), (0,)), ((2, 3), (1,)), ((2, 3), (0, 1)), ((2, 2), (0, 1)), ((2, 2, 2), (0, 1))):
        out.append(Instance(f"random/{dims}/{q}", h_random, dims=dims, q=q))
    kw = {"ring": 48, "max_paths": 150}
    for n in SINGLE:
        for d in (2, 3) if tier == "quick" else (2, 3, 4):
            if n == "s" and d == 4:
                continue
            out.append(Instance(f"{n}/d{d}", h_single, name=n, dims=(d,), q=0, controls=None, **kw))
        out.append(Instance(f"{n}/2x3", h_single, name=n, dims=(2, 3), q=1, controls=None, **kw))
        if n not in NO_CONTROLS:
            cs = [((2, 3), 1, ((0,), (1,))), ((3, 2), 0, ((1,), (0,)))]
            if tier == "thorough":
                cs += [((2, 2, 3), 2, ((0, 1), (1, 0))), ((3, 2, 2), 1, ((2, 0), (1, 2))), ((2, 2, 2), 0, ((2,), (1,)))]
            for dims, q, ctl in cs:
                if n == "cuone" and dims[q] > 2:
                    pass
                out.append(Instance(f"{n}/{dims}/q{q}/c{ctl}", h_single, name=n, dims=dims, q=q, controls=ctl, **kw))
            out.append(Instance(f"{n}/controlafter", h_control_after, name=n, dims=(2, 3), q=0, controls=((1,), (2,)), **kw))
    for n in TWO:
        for dims, q in (((2, 3), (0, 1)), ((2, 3), (1, 0)), ((2, 2, 3), (0, 2)), ((3, 2, 2), (2, 0)), ((2, 2, 2), (1, 2))):
            if n == "cutwo" and dims != (2, 3) and tier == "quick" and len(dims) == 3 and dims != (2, 2, 2):
                continue
            out.append(Instance(f"{n}/{dims}/{q}", h_two, name=n, dims=dims, q=q, **kw))
    return out
