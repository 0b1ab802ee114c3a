"""Compilation of circuits to a backend."""
from __future__ import annotations

import functools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler import QuditCompiler
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.gates import CEx, CustomTwo, R, Rh, Rz, VirtRz
from mqt.qudits.simulation import MQTQuditProvider
from props import localutil as lu
from props.gates import SINGLE, TWO
from props.p10 import CONST_COST
from props.p12 import phases
from props.p14 import BLOCKS

ENCODED = ["QuditCompiler.compile/compile_O0/compile_O1/compile_O2", "QuantumCircuit.compileO0/compileO1", "PhyLocQRPass", "PhyLocAdaPass", "PhyEntQRCEXPass.transpile_gate/transpile",
           "LogLocQRPass", "LogEntQRCEXPass/EntangledQRCEX", "NaiveLocResynthOptPass", "Lanes", "PhyQrDecomp", "PhyAdaptiveDecomposition",
           "FakeIonTraps2Trits (its energy graphs)"]
BOUNDS = ("circuits of 1..5 gates on 1..3 lines of dimension 2..3 with symbolic angles; named graphs and placements, and the built-in "
          "two-qutrit backend; at most one arbitrary rotation per fused run and line; no gates on three or more lines")
ASSUMPTIONS = [
    "angle regulation keeps the operator (P01, P06, P09); every rotation costs the same in the symbolic runs (the cost is P12's and P19's subject)",
    "controlled building blocks are replaced by gates with the operator P13 shows they have; counterexamples are replayed with the real code",
    "circuits use all levels of the device (dimension of a line = number of nodes of its graph)",
    "two-qudit gates are decomposed without regard to the couplings by design; the claim on transitions is for local gates",
]
OV = {**CONST_COST, **BLOCKS}
LOCAL = (R, VirtRz)
ANY = (R, Rz, Rh, VirtRz, CEx)


def build(ctx, dims, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    want = spec.eye(int(np.prod(dims)))
    for i, (name, lines, controls, fixed) in enumerate(layout):
        if name == "cu":
            d = dims[lines]
            m = lu.unitary(ctx, d, fixed, lu.qr_order(d), True, f"g{i}")
            c.cu_one(lines, m)
            want = spec.embed(list(dims), [lines], m) @ want
        elif name in SINGLE:
            _, m = SINGLE[name](ctx, c, lines, f"g{i}", controls and ControlData(*controls), fixed)
            if controls:
                want = spec.controlled(list(dims), controls[0], controls[1], [lines], m) @ want
            else:
                want = spec.embed(list(dims), [lines], m) @ want
        else:
            _, m = TWO[name](ctx, c, lines, f"g{i}", fixed)
            want = spec.embed(list(dims), sorted(lines), m) @ want
    return c, want


def total(c, n):
    m = spec.eye(n)
    for g in c.instructions:
        m = g.to_matrix(identities=2) @ m
    return m


def placement(maps):
    return functools.reduce(np.kron, [spec.perm_matrix(list(m)) for m in maps])


def compile_with(how, be, c):
    if isinstance(how, str):
        return getattr(QuditCompiler(), f"compile_{how}")(be, c)
    return QuditCompiler().compile(be, c, list(how))


def decide(ctx, how, be, c, want, dims, maps, label=""):
    n = int(np.prod(dims))
    ops = list(c.instructions)
    mats = [np.array(g.to_matrix(identities=0), copy=True) for g in ops]
    graphs = list(be.energy_level_graphs)
    before = [lu.snapshot(g) for g in graphs]
    out = compile_with(how, be, c)
    # what was given is as before
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)), f"{label}input circuit unchanged")
    for g, m in zip(ops, mats):
        ctx.equal(g.to_matrix(identities=0), m, f"{label}gates of the input circuit unchanged")
    ctx.check(len(be.energy_level_graphs) == len(graphs) and all(a is b for a, b in zip(be.energy_level_graphs, graphs)), f"{label}backend keeps its graphs")
    ctx.check([lu.snapshot(g) for g in graphs] == before, f"{label}graphs of the backend unchanged")
    for g, d in zip(graphs, dims):
        ctx.equal(phases(g, d), spec.eye(d), f"{label}no phase left on the graphs of the backend")
    # what was made
    kinds = (*ANY, CustomTwo) if ctx.symbolic else ANY
    for g in out.instructions:
        ctx.check(isinstance(g, kinds), f"{label}elementary gates only", type(g).__name__)
    ctx.check(out.dimensions == list(dims) and out.num_qudits == len(dims), f"{label}dimensions of the circuit")
    final = out.mappings
    ctx.check(final is not None and len(final) == len(dims) and all(sorted(m) == list(range(d)) for m, d in zip(final, dims)), f"{label}placement reported", str(final))
    if not isinstance(how, str) and "LogLocQRPass" in how:
        ctx.equal_phase(total(out, n), want, f"{label}operator of the compiled circuit", tol=1e-4)
    else:
        ctx.equal_phase(total(out, n), placement(final) @ want @ placement(maps).T, f"{label}operator of the compiled circuit", tol=1e-4)
    return out


def local_only(ctx, out, dims, be):
    for g in out.instructions:
        if isinstance(g.target_qudits, int):
            graph = be.energy_level_graphs[g.target_qudits]
            phys = {frozenset((graph.nodes[a]["lpmap"], graph.nodes[b]["lpmap"])) for a, b in graph.edges}
            ctx.check(isinstance(g, LOCAL), "local gates become rotations and phases", type(g).__name__)
            if isinstance(g, R):
                ctx.check(frozenset((g.lev_a, g.lev_b)) in phys, "transition offered by the backend", f"{g.lev_a} {g.lev_b}")


def h_compile(ctx, how, dims, specs, layout, twice=False):
    c, want = build(ctx, dims, layout)
    be = lu.Backend([lu.graph(d, lu.GRAPHS[d][gn], mp, c) for d, (gn, mp) in zip(dims, specs)])
    maps = [mp for _, mp in specs]
    out = decide(ctx, how, be, c, want, dims, maps)
    if all(len(g.reference_lines) == 1 for g in c.instructions) and (isinstance(how, str) or "LogLocQRPass" not in how):
        local_only(ctx, out, dims, be)
    if twice:
        decide(ctx, how, be, c, want, dims, maps, "second compilation: ")


def h_builtin_backend(ctx, how, bname, dims, layout):
    c, want = build(ctx, dims, layout)
    be = MQTQuditProvider().get_backend(bname)
    decide(ctx, how, be, c, want, dims, [g.log_phy_map for g in be.energy_level_graphs][: len(dims)])


def h_shortcut(ctx, how, bname, dims, layout):
    """the methods of the circuit do the same as the compiler."""
    c, want = build(ctx, dims, layout)
    ops = list(c.instructions)
    out = getattr(c, f"compile{how}")(bname)
    maps = [g.log_phy_map for g in MQTQuditProvider().get_backend(bname).energy_level_graphs][: len(dims)]
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)), "input circuit unchanged")
    n = int(np.prod(dims))
    ctx.equal_phase(total(out, n), placement(out.mappings) @ want @ placement(maps).T, "operator of the compiled circuit", tol=1e-4)


ADA = ("PhyLocAdaPass", "PhyEntQRCEXPass")
LOG = ("LogLocQRPass", "LogEntQRCEXPass")
HOWS = {"O0": "O0", "O1": "O1", "O2": "O2", "ada": ADA, "log": LOG}


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, ring=144, **kw):
        out.append(Instance(name, f, overrides=OV, ring=ring, seconds=600 if th else 60, max_paths=2000 if th else 300, **kw))

    # one line
    one3 = [("path", (0, 1, 2)), ("path", (1, 0, 2)), ("star1", (0, 2, 1)), ("star2", (2, 0, 1)), ("tri", (1, 2, 0))]
    lay1 = {
        "r": [("r", 0, None, (0, 2))],
        "rh-vr": [("rh", 0, None, (0, 2)), ("virtrz", 0, None, 1)],
        "vr-x": [("virtrz", 0, None, 2), ("x", 0, None, None)],
        "z-nx-rz": [("z", 0, None, None), ("noisex", 0, None, (1, 2)), ("rz", 0, None, (0, 1))],
        "x-r": [("x", 0, None, None), ("r", 0, None, (0, 1))],
        "cu": [("cu", 0, None, "0m0")],
        "h": [("h", 0, None, None)],
        "none": [],
    }
    for hn, how in HOWS.items():
        for gn, mp in one3:
            for ln, lay in lay1.items():
                if hn in ("O2", "ada") and ln == "h" and not th:
                    continue
                add(f"1/{hn}/{gn}{''.join(map(str, mp))}/{ln}", h_compile, how=how, dims=(3,), specs=[(gn, mp)], layout=lay, twice=ln in ("rh-vr", "x-r"))
        for mp in ((0, 1), (1, 0)):
            for ln, lay in {"r-x": [("r", 0, None, (0, 1)), ("x", 0, None, None)], "vr-h-vr": [("virtrz", 0, None, 0), ("h", 0, None, None), ("virtrz", 0, None, 1)],
                            "cu-s": [("cu", 0, None, "m"), ("s", 0, None, None)]}.items():
                add(f"1/{hn}/2p{mp[0]}/{ln}", h_compile, how=how, dims=(2,), specs=[("path", mp)], layout=lay)
    # two and more lines
    S = {2: [("path", (0, 1)), ("path", (1, 0))], 3: [("path", (0, 1, 2)), ("star1", (0, 2, 1)), ("path", (1, 2, 0))]}
    lay2 = {
        "csum": ((2, 2), [("csum", [0, 1], None, None)]),
        "csum10": ((2, 3), [("csum", [1, 0], None, None)]),
        "cx": ((2, 3), [("cx", [0, 1], None, (0, 2, 1))]),
        "cx10": ((3, 2), [("cx", [1, 0], None, (1, 2, 0))]),
        "ls": ((2, 2), [("ls", [0, 1], None, None)]),
        "ms": ((2, 2), [("ms", [1, 0], None, None)]),
        "loc-cx-loc": ((2, 3), [("virtrz", 1, None, 0), ("rh", 1, None, (0, 2)), ("cx", [1, 0], None, (0, 1, 2)), ("virtrz", 1, None, 1), ("x", 0, None, None)]),
        "both": ((3, 2), [("r", 0, None, (1, 2)), ("virtrz", 1, None, 0), ("csum", [0, 1], None, None), ("z", 0, None, None), ("rz", 1, None, (0, 1))]),
        "ctl": ((2, 3), [("x", 0, ([1], [2]), None), ("virtrz", 1, None, 2)]),
        "ctl2": ((3, 2), [("h", 1, None, None), ("r", 1, ([0], [1]), (0, 1))]),
        "csum-x-csum": ((2, 2), [("csum", [0, 1], None, None), ("x", 0, None, None), ("virtrz", 0, None, 1), ("csum", [0, 1], None, None)]),
        "three": ((2, 2, 2), [("h", 0, None, None), ("csum", [0, 2], None, None), ("virtrz", 2, None, 1), ("csum", [2, 1], None, None)]),
        "apart": ((2, 3, 2), [("x", 2, None, None), ("cx", [2, 0], None, (0, 1, 1)), ("rh", 1, None, (0, 2)), ("virtrz", 0, None, 1)]),
    }
    for hn, how in HOWS.items():
        for ln, (dims, lay) in lay2.items():
            for k in range(3):
                if not th and k == 2 and all(d == 2 for d in dims):
                    continue
                specs = [S[d][(k + i) % len(S[d])] for i, d in enumerate(dims)]
                add(f"2/{hn}/{ln}/{k}", h_compile, how=how, dims=dims, specs=specs, layout=lay, twice=ln == "loc-cx-loc")
    for hn, how in HOWS.items():
        for ln, lay in {
            "loc": [("rh", 0, None, (1, 2)), ("virtrz", 0, None, 0), ("r", 1, None, (0, 2))],
            "cx": [("virtrz", 1, None, 1), ("cx", [0, 1], None, (1, 2, 2)), ("x", 0, None, None)],
            "csum": [("csum", [1, 0], None, None), ("virtrz", 1, None, 2)],
        }.items():
            add(f"trits/{hn}/{ln}", h_builtin_backend, how=how, bname="faketraps2trits", dims=(3, 3), layout=lay)
            if hn in ("O0", "O1") and ln != "csum":
                add(f"shortcut/{hn}/{ln}", h_shortcut, how=hn, bname="faketraps2trits", dims=(3, 3), layout=lay)
    return out
