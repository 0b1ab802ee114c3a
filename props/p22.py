"""State preparation."""
from __future__ import annotations

import itertools
import math

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.state_compilation import retrieve_state as rs
from mqt.qudits.compiler.state_compilation import state_preparation as sp
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.gates import R, Rz
from props import p13, p23

ENCODED = ["StatePrep.compile_state/synthesis/retrieve_local_sequence", "get_angles", "find_complex_number (decided by itself)", "create_decision_tree", "normalize", "get_node_contributions", "cut_branches", "normalize_all",
           "dd_reduction_hashing", "dd_reduction_aggregation", "generate_uniform_state and its entry generators", "verify_normalized_state", "R", "Rz", "Gate.control"]
BOUNDS = ("registers of total dimension up to 6 (thorough 8): every pattern of vanishing amplitudes and of equal subtrees; the weights of a node are cos and sin products of angles in (0.1pi,0.4pi) "
          "or all equal, the phases of the amplitudes are arbitrary or absent; GHZ and W states for the registers listed")
ASSUMPTIONS = [
    "equality of two subtree hashes is decided by the normal form of their weights; the instances enumerate which subtrees are equal",
    "the phase of a quotient by a positive number is that of the numerator (find_complex_number is decided separately)",
    "rotations below 1e-5 are left out by the code; the strata of the angles exclude them",
]
M = "mqt.qudits.compiler.state_compilation.state_preparation"
OVER = {**p13.NO_REG, (M, "find_complex_number"): lambda x, c: c}


def run(ctx, circuit, dims):
    """state reached by the circuit from the ground state."""
    n = int(np.prod(dims))
    v = spec.zeros(n, 1)
    v[0, 0] = 1
    for g in circuit.instructions:
        ctx.check(isinstance(g, (R, Rz)), "gates used", type(g).__name__)
        line = g.target_qudits
        d = dims[line]
        rot = spec.rot(d, g.lev_a, g.lev_b, g.theta, g.phi) if isinstance(g, R) else spec.rz(d, g.lev_a, g.lev_b, g.phi)
        ci = g.control_info["controls"]
        if ci is None:
            m = spec.embed(dims, [line], rot)
        else:
            ctx.check(line not in ci.indices and len(set(ci.indices)) == len(ci.indices), "controls of a rotation", f"{ci} {line}")
            m = spec.controlled(dims, list(ci.indices), list(ci.ctrl_states), [line], rot)
        v = m @ v
    return v[:, 0]


def h_prep(ctx, dims, shape, wmode, phase, approx=False):
    vec = p23.vector(ctx, dims, shape, wmode, phase)
    c = QuantumCircuit(len(dims), list(dims), 0)
    state = np.array(vec, dtype=object) if ctx.symbolic else np.array(vec, dtype=complex)
    prep = sp.StatePrep(c, state.copy(), approx)
    out = prep.compile_state()
    ctx.check(len(c.instructions) == 0, "the circuit passed in is unchanged")
    ctx.check(list(out.dimensions) == list(dims), "register of the result")
    v = run(ctx, out, dims)
    if not approx:
        ctx.equal_phase(v, np.array(vec, dtype=object if ctx.symbolic else complex), "state reached")
    else:
        amp = sum(v[i] * (vec[i].conjugate() if hasattr(vec[i], "conjugate") else vec[i]) for i in range(len(vec)))
        f = amp * amp.conjugate()
        ctx.check((f.real if not hasattr(f, "n") else f) >= 0.99 - 1e-9, "fidelity of the approximated state")


def h_number(ctx):
    """scaling by a positive real keeps the phase."""
    a = ctx.real("a", 0.01, 1)
    u, v = ctx.real("u", -1, 1), ctx.real("v", -1, 1)
    c = (u + 1j * v) * a * a
    x = a + 0j if not ctx.symbolic else a
    z = sp.find_complex_number(x, c)
    ctx.equal(np.array([z]), np.array([u + 1j * v]), "quotient")


def h_uniform(ctx, dims, kind):
    v = np.asarray(rs.generate_uniform_state(list(dims), kind))
    n = int(np.prod(dims))
    want = [0] * n
    keys = []
    for idx in itertools.product(*[range(d) for d in dims]):
        nz = [x for x in idx if x]
        if kind == "ghz":
            keys.append(len(set(idx)) == 1)
        elif kind == "qudit-w-state":
            keys.append(len(nz) == 1)
        else:
            keys.append(len(nz) == 1 and nz[0] == 1)
    k = sum(keys)
    want = np.array([(1 / math.sqrt(k) if x else 0) for x in keys], dtype=complex)
    ctx.equal(v, want, "uniform state")
    ctx.check(rs.verify_normalized_state(v), "normalized")
    c = QuantumCircuit(len(dims), list(dims), 0)
    out = sp.StatePrep(c, np.array(v), False).compile_state()
    ctx.equal_phase(run(ctx, out, dims), want, "state reached")


def instances(tier):
    out = []

    def add(name, f, /, **kw):
        out.append(Instance(name, f, overrides=OVER, **kw))

    out.append(Instance("number", h_number))
    for kind in ("ghz", "qudit-w-state", "embedded-w-state"):
        for dims in ((2, 2), (3, 2), (2, 3), (2, 2, 2), (3, 3), (4, 3)) + (((2, 3, 2), (3, 2, 2), (3, 3, 3)) if tier == "thorough" else ()):
            add(f"uniform/{kind}/{''.join(map(str, dims))}", h_uniform, dims=dims, kind=kind, ring=240)
    for dims in ((2,), (3,), (4,), (2, 2), (2, 3), (3, 2)) + (((5,), (2, 4), (4, 2), (2, 2, 2)) if tier == "thorough" else ()):
        for i, shape in enumerate(p23.shapes(dims)):
            t = p23.text(shape)
            for wmode in ("free", "equal"):
                for phase in (True, False):
                    add(f"prep/{''.join(map(str, dims))}/{t}/{wmode}{'/p' if phase else ''}", h_prep, dims=dims, shape=shape, wmode=wmode, phase=phase, ring=48)
    for dims in ((2,), (3,), (2, 2)) + (((2, 3), (3, 2)) if tier == "thorough" else ()):
        for shape in p23.shapes(dims):
            for wmode in ("tiny01", "tiny11", "tiny02", "tiny12"):
                out.append(Instance(f"tiny/{''.join(map(str, dims))}/{p23.text(shape)}/{wmode}", h_prep, overrides=OVER, sharp=6e-5, dims=dims, shape=shape, wmode=wmode, phase=False, ring=48))
    for dims in ((2,), (3,), (2, 2), (2, 3)) + (((3, 2), (2, 2, 2)) if tier == "thorough" else ()):
        for shape in p23.shapes(dims):
            for k in range(4):
                add(f"approx/{''.join(map(str, dims))}/{p23.text(shape)}/q{k}", h_prep, dims=dims, shape=shape, wmode=f"q{k}", phase=True, approx=True)
    return out
