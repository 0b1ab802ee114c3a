"""The decision-diagram simulator: symbolic execution of the compiled extension's LLVM IR."""
from __future__ import annotations

import itertools
import math

import numpy as np
from engine import cpp, llvm, spec
from engine.harness import Instance
from engine.sym import S
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.simulation import MQTQuditProvider
from mqt.qudits.simulation.backends import misim
from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
from props.gates import SINGLE, TWO

ENCODED = ["stateVectorSimulation/readCircuit/parse_noise_model/generateCircuit/getGate/ddsimulator (src/python/bindings.cpp)",
           "dd::MDDPackage makeZeroState/makeGateDD/makeDDNode/normalize/multiply/add/conjugateTranspose/cex/csum/getVector, unique and compute tables, ComplexNumbers, ComplexTable, ComplexCache (include/dd)",
           "dd gate matrices (include/dd/GateMatrixDefinitions.hpp)", "MISim.execute"]
BOUNDS = ("registers of one or two lines of dimension 2..7 and of three or four lines of dimension 2..4; circuits of 1..4 gates of the supported set with up to two symbolic angles in an open quadrant each "
          "(other angles fixed), all level pairs and control levels; every outcome of the error draws for symbolic error probabilities")
ASSUMPTIONS = ["the LLVM IR clang emits at -O1 for the current sources is what runs; a stand-in for pybind11 passes the attributes of the Python objects on",
               "doubles are exact numbers: constants below 1e-9 that serve as tolerances count as zero, two values are equal when they are identically equal on the path (points where different expressions happen to agree are left out), distinct values fall into distinct table buckets",
               "std::random_device and the clock return fixed numbers; the draws are decided against symbolic probabilities"]
QUICK_SECONDS = 450.0
RING = {2: 48, 3: 48, 4: 48, 5: 240, 6: 48, 7: 336}


def simulate(ctx, circuit, noise=None):
    """the real Python backend over the extension built from the current sources"""
    kept = misim.state_vector_simulation
    misim.state_vector_simulation = cpp.symbolic if ctx.symbolic else cpp.native
    try:
        backend = MQTQuditProvider().get_backend("misim")
        return backend.execute(circuit) if noise is None else backend.execute(circuit, noise)
    finally:
        misim.state_vector_simulation = kept


def add(ctx, c, i, item):
    """one gate of a layout: (name, lines, fixed parameters, angle ranges, dagger, controls) -> operator on the register"""
    name, lines, fixed, rng, dag, ctl = (*item, None, None, None, None)[:6]
    dims = tuple(c.dimensions)

    def ang(key, default):
        r = (rng or {}).get(key, default)
        return r * np.pi if not isinstance(r, tuple) else ctx.angle(f"{key}{i}", *r, open_=True)

    controls = ControlData([x for x, _ in ctl], [l for _, l in ctl]) if ctl else None
    d = dims[lines[0]]
    if name == "r":
        th, ph = ang("th", (0, 1)), ang("ph", (0, 0.5))
        g, m = c.r(lines[0], [*fixed, th, ph], controls), spec.rot(d, *fixed, th, ph)
    elif name == "rz":
        ph = ang("ph", (0, 1))
        g, m = c.rz(lines[0], [*fixed, ph], controls), spec.rz(d, *fixed, ph)
    elif name == "virtrz":
        ph = ang("ph", (0, 0.5))
        g, m = c.virtrz(lines[0], [fixed[0], ph], controls), spec.virtrz(d, fixed[0], ph)
    elif name == "cx":
        ph = ang("ph", (0, 0.5))
        g, m = c.cx(list(lines), [*fixed, ph]), spec.cex(d, dims[lines[1]], *fixed, ph, lines[0] < lines[1])
    elif name == "rdesc":
        g, m = c.r(lines[0], [d - 1, 0, ang("th", 0.3), ang("ph", 0.2)]), spec.rot(d, 0, d - 1, ang("th", 0.3), ang("ph", 0.2))
    elif name == "rzdesc":
        g, m = c.rz(lines[0], [d - 1, 0, ang("th", 0.3)]), spec.rz(d, 0, d - 1, ang("th", 0.3))
    elif name in TWO:
        g, m = TWO[name](ctx, c, list(lines), f"g{i}")
    else:
        g, m = SINGLE[name](ctx, c, lines[0], f"g{i}", controls, fixed)
    if dag:
        g.dag()
        m = spec.dagger(m)
    if ctl:
        return spec.controlled(dims, [x for x, _ in ctl], [l for _, l in ctl], list(lines), m)
    return spec.embed(dims, sorted(lines), m)


def run(ctx, dims, layout):
    """(circuit, operators of its gates)"""
    c = QuantumCircuit(len(dims), list(dims), 0)
    return c, [add(ctx, c, i, item) for i, item in enumerate(layout)]


def start(ctx, dims):
    v = np.zeros(math.prod(dims), dtype=complex)
    v[0] = 1.0
    return v.astype(object) if ctx.symbolic else v


def h_sim(ctx, dims, layout):
    c, ops = run(ctx, dims, layout)
    v = start(ctx, dims)
    for m in ops:
        v = m @ v
    out = simulate(ctx, c)
    ctx.check(np.shape(out) == (1, math.prod(dims)), "shape of the result")
    ctx.equal(np.asarray(out).reshape(-1), v, "final state")


def h_refuse(ctx, dims, layout):
    """a gate the simulator need not know: an error or the right state"""
    c, ops = run(ctx, dims, layout)
    v = start(ctx, dims)
    for m in ops:
        v = m @ v
    out, exc = ctx.raises(simulate, ctx, c)
    ctx.check(not isinstance(exc, cpp.Crash), "no crash")
    if exc is None:
        ctx.equal(np.asarray(out).reshape(-1), v, "final state")


def errors(c, g, item, mode, dims):
    """lines of a mode and the two error operators on each"""
    lines = {"local": g.reference_lines, "all": range(c.num_qudits), "nonlocal": g.reference_lines, "control": None, "target": None}[mode]
    if lines is None:
        t = g.target_qudits
        lines = [t[0]] if mode == "control" else [t[1]]
    out = []
    for q in lines:
        d = dims[q]
        if g.qasm_tag in ("rxy", "rz", "virtrz"):
            a, b = item[2] if g.qasm_tag != "virtrz" else (item[2][0], item[2][0] + 1)
            if g.qasm_tag == "virtrz" and a == d - 1:
                a, b = d - 2, d - 1
            x, z = spec.rot(d, a, b, np.pi, np.pi / 2), spec.rz(d, a, b, np.pi)
        else:
            x, z = spec.perm_matrix([(k + 1) % d for k in range(d)]), spec.zeros(d)
            for k in range(d):
                z[k, k] = spec.expi(2 * np.pi * k / d)
        out.append((spec.embed(dims, [q], x), spec.embed(dims, [q], z)))
    return out


def h_noise(ctx, dims, layout, noise, sure=None):
    """noise: list of (gate tags, mode); one entry of the model each, with probabilities of their own"""
    c, ops = run(ctx, dims, layout)
    model, add_to = NoiseModel(), {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
                                   "control": "add_nonlocal_quantum_error_on_control", "target": "add_nonlocal_quantum_error_on_target"}
    for k, (tags, mode) in enumerate(noise):
        px = ctx.real(f"px{k}", 0, 1) if sure is None else sure[0]
        pz = ctx.real(f"pz{k}", 0, 1) if sure is None else sure[1]
        getattr(model, add_to[mode])(Noise(px, pz), list(tags))
    states = [start(ctx, dims)]
    for g, item, m in zip(c.instructions, layout, ops):
        states = [m @ v for v in states]
        for tags, mode in noise:
            if g.qasm_tag not in tags:
                continue
            more = []
            for v in states:
                for ex, ez in itertools.product((0, 1) if sure is None else (sure[0],), (0, 1) if sure is None else (sure[1],)):
                    w = v
                    for x, z in errors(c, g, item, mode, dims) if ex or ez else ():
                        w = x @ w if ex else w
                        w = z @ w if ez else w
                    more.append(w)
            states = more
    out = np.asarray(simulate(ctx, c, model)).reshape(-1)
    for v in states:
        if all(same(x, y) for x, y in zip(out, v)):
            return ctx.equal(out, v, "final state")
    ctx.equal(out, states[0], "final state with errors")


def same(x, y):
    d = x - y
    if isinstance(d, S):
        return llvm.zero(d)
    return abs(d) < 1e-9


def instances(tier):
    cpp.build()
    out, names = [], set()
    full = tier == "thorough"
    Q, F = (0, 0.5), (0, 2)

    def put(name, dims, layout, fn=h_sim, **kw):
        ring = math.lcm(*(RING.get(d, 48) for d in dims))
        name = f"{name}/{'x'.join(map(str, dims))}"
        assert name not in names, name
        names.add(name)
        kw.setdefault("seconds", 200 if full else 60)
        out.append(Instance(name, fn, dims=dims, layout=layout, ring=ring, inverses=True, **kw))

    # one line
    for d in range(2, 8):
        pairs = list(itertools.combinations(range(d), 2))
        some = pairs if full or d <= 4 else [p for k, p in enumerate(pairs) if k % 3 == d % 3]
        sup = [("r", (0,), (0, d - 1), {"ph": 0.5})]
        for g in ("x", "z", "h", "s"):
            if g == "s" and d in (4, 6):
                continue
            for dag in (False, True):
                put(f"one-{g}{'dg' if dag else ''}", (d,), [*sup, (g, (0,), None, None, dag)])
                if d > 2 and g != "h":
                    put(f"mid-{g}{'dg' if dag else ''}", (d,), [("x", (0,)), ("r", (0,), (1, d - 1), {"ph": 0.5}), ("x", (0,)) if d > 4 else ("r", (0,), (0, 1), {"th": 0.5, "ph": 0.0}), (g, (0,), None, None, dag)])
        for a, b in some:
            first = [("x", (0,))] * a
            dag = (a + b) % 2 == 1
            put(f"rh{a}{b}", (d,), [*first, ("r", (0,), (a, b), {"ph": 0.5}), ("rh", (0,), (a, b), None, dag)])
            put(f"r{a}{b}", (d,), [*first, ("r", (0,), (a, b), {"th": (0, 1)}, dag)])
            put(f"rback{a}{b}", (d,), [*first, *[("x", (0,))] * (b - a), ("r", (0,), (a, b), {"th": (1, 2), "ph": (0.5, 1)}, not dag)])
            put(f"rz{a}{b}", (d,), [*first, ("r", (0,), (a, b), {"th": 0.5, "ph": 0.5}), ("rz", (0,), (a, b), {"ph": (0, 1)}, dag)])
        for a in range(d):
            put(f"v{a}", (d,), [("h", (0,)), ("virtrz", (0,), (a,), {"ph": Q}, a % 2 == 1)])
        put("r-r", (d,), [*sup, ("r", (0,), (0, d - 1), {"ph": 0.0, "th": Q})])
        put("h-rz", (d,), [("h", (0,)), ("rz", (0,), (0, d - 1), {"ph": Q})])
        put("h-r", (d,), [("h", (0,)), ("r", (0,), (0, d - 1), {"ph": 0.25, "th": Q}, d % 2 == 1)])
        if full:
            put("r-ph", (d,), [*sup, ("r", (0,), (0, d - 1), {"ph": Q, "th": 0.5})])
            put("h-h", (d,), [*sup, ("h", (0,)), ("z", (0,)), ("h", (0,), None, None, True)])
    # several lines: a gate on each of them
    small = [(2, 2), (2, 3), (3, 2), (4, 2), (2, 5), (3, 3), (2, 3, 2), (3, 2, 2)]
    if full:
        small += [(2, 7), (6, 2), (5, 3), (4, 3), (2, 2, 3), (2, 4, 2), (3, 3, 2), (2, 2, 2, 2), (3, 2, 2, 2)]
    for dims in small:
        n = len(dims)
        for q in range(n):
            o = (q + 1) % n
            d, e = dims[q], dims[o]
            spread = [("r", (o,), (0, e - 1), {"ph": 0.5})]
            put(f"reg-r{q}", dims, [*spread, ("r", (q,), (0, d - 1), {"th": Q, "ph": 0.0})])
            put(f"reg-h{q}", dims, [*spread, ("h", (q,)), ("virtrz", (q,), (d - 1,), {"ph": 0.5})])
            put(f"reg-x{q}", dims, [*spread, ("x", (q,), None, None, q % 2 == 1), ("z", (q,)), ("rz", (q,), (0, 1), {"ph": 0.5})])
        for a, b in itertools.permutations(range(n), 2):
            da, db = dims[a], dims[b]
            spread = [("r", (a,), (0, da - 1), {"ph": 0.5})]
            two = [("r", (a,), (0, da - 1), {"ph": 0.5}), ("h", (b,))]
            for dag in (False, True):
                put(f"csum{a}{b}{'dg' if dag else ''}", dims, [*spread, ("x", (b,)), ("csum", (a, b), None, None, dag)])
            put(f"csum2-{a}{b}", dims, [("h", (a,)), ("r", (b,), (0, db - 1), {"ph": 0.5}), ("csum", (a, b))])
            levels = range(da) if full else {0, da - 1}
            for l in levels:
                for x, y in itertools.combinations(range(db), 2) if full else {(0, 1), (0, db - 1), (db - 2, db - 1)}:
                    dag = (x + y + l) % 2 == 0
                    pre = [("x", (b,))] * x
                    put(f"cx{a}{b}-{x}{y}{l}", dims, [*spread, *pre, ("cx", (a, b), (x, y, l), {"ph": Q}, dag)])
            put(f"bell{a}{b}", dims, [*two, ("cx", (a, b), (0, 1, da - 1), {"ph": 0.0}), ("r", (b,), (0, 1), {"th": 0.5, "ph": 0.0})])
    put("chain", (2, 2, 2), [("h", (0,)), ("csum", (0, 1)), ("csum", (1, 2)), ("r", (2,), (0, 1), {"th": Q, "ph": 0.0})])
    put("chain", (3, 2, 3), [("r", (0,), (0, 2), {"ph": 0.5}), ("csum", (0, 2)), ("csum", (2, 1)), ("z", (2,))])
    for dims in itertools.product(range(2, 8), repeat=2):
        if dims in small:
            continue
        (da, db), k = dims, sum(dims) % 2
        put("wide-csum01", dims, [("r", (0,), (da - 2 if k else 0, da - 1), {"ph": 0.5}), ("x", (1,)), ("csum", (0, 1), None, None, k == 1)] if not k else [*[("x", (0,))] * (da - 2), ("r", (0,), (da - 2, da - 1), {"ph": 0.5}), ("csum", (0, 1), None, None, da % 2 == 0)])
        put("wide-csum10", dims, [("r", (1,), (0, db - 1), {"ph": 0.5}), ("csum", (1, 0), None, None, da % 2 == 1)])
        put("wide-cx01", dims, [("r", (0,), (0, da - 1), {"ph": 0.5}), ("cx", (0, 1), (0, db - 1, da - 1), {"ph": Q}, k == 0)])
        put("wide-cx10", dims, [("r", (1,), (0, db - 1), {"ph": 0.5}), *[("x", (0,))] * (da - 2), ("cx", (1, 0), (da - 2, da - 1, db - 1), {"ph": Q}, k == 1)])
    for dims in [(2, 4), (3, 3), (3, 2)]:
        put("meet", dims, [("r", (0,), (0, 1), {"th": 0.5, "ph": 0.25}), ("h", (1,)), ("csum", (1, 0)), ("h", (1,))])
        put("meet-v", dims, [("h", (0,)), ("virtrz", (0,), (1,), {"ph": Q}), ("r", (1,), (0, 1), {"th": 0.5, "ph": 0.5}), ("csum", (1, 0)), ("h", (1,))])
    put("product", (2, 3, 2), [("r", (0,), (0, 1), {"ph": 0.5}), ("r", (2,), (0, 1), {"th": 0.5, "ph": 0.0}), ("csum", (0, 2)), ("csum", (0, 1))])
    # controlled gates
    for dims, q, ctl in [((2, 2), 0, [(1, 1)]), ((3, 2), 1, [(0, 2)]), ((2, 3, 2), 1, [(0, 1), (2, 0)])]:
        pre = [("h", (x,)) for x, _ in ctl]
        put(f"control-{q}{''.join(str(x) for x, _ in ctl)}", dims, [*pre, ("r", (q,), (0, 1), {"ph": 0.5}), ("x", (q,), None, None, False, ctl)])
    # gates it does not know
    for name, dims, item in [("pm", (3,), ("pm", (0,))), ("ls", (2, 2), ("ls", (0, 1))), ("ms", (3, 2), ("ms", (0, 1))), ("noisex", (2,), ("noisex", (0,), (0, 1))),
                             ("noisey", (3,), ("noisey", (0,), (0, 1))), ("cuone", (2,), ("cuone", (0,))), ("r", (3,), ("rdesc", (0,))), ("rz", (4,), ("rzdesc", (0,))), ("x", (8,), ("x", (0,))), ("h", (9,), ("h", (0,)))]:
        put(f"refuse-{name}", dims, [("r", (0,), (0, 1)) if dims[0] < 8 else ("z", (0,)), item], h_refuse)
    # errors
    for dims in [(2,), (3,)] + ([(5,)] if full else []):
        d = dims[0]
        for name, gate, tag in [("x", ("x", (0,)), "x"), ("h", ("h", (0,)), "h"), ("r", ("r", (0,), (0, d - 1), {"ph": 0.5}), "rxy"), ("rz", ("rz", (0,), (d - 2, d - 1), {"ph": Q}), "rz"),
                                *[(f"v{a}", ("virtrz", (0,), (a,), {"ph": Q}), "virtrz") for a in range(d)]]:
            for mode in ("local", "all"):
                pre = [("r", (0,), (0, 1), {"th": 0.5, "ph": 0.5}), ("z", (0,))] if tag in ("rz", "virtrz", "x") else []
                put(f"noise-{name}-{mode}", dims, [*pre, gate], h_noise, noise=[((tag,), mode)])
    for dims in [(3, 2), (2, 3)] + ([(2, 2)] if full else []):
        for a, b in ((0, 1), (1, 0)):
            pre = [("r", (a,), (0, dims[a] - 1), {"ph": 0.5})]
            for mode in ("local", "all", "nonlocal", "control", "target"):
                put(f"noise-csum{a}{b}-{mode}", dims, [*pre, ("csum", (a, b))], h_noise, noise=[(("csum",), mode)])
                if full or dims == ((2, 3) if mode in ("local", "target") else (3, 2)):
                    put(f"noise-cx{a}{b}-{mode}", dims, [*pre, ("cx", (a, b), (0, 1, 1), {"ph": 0.25})], h_noise, noise=[(("cx",), mode)])
        put("noise-two", dims, [("h", (0,)), ("x", (1,)), ("csum", (0, 1))], h_noise, noise=[(("x",), "local"), (("csum",), "target")])
        put("noise-other", dims, [("r", (0,), (0, 1), {"ph": 0.5}), ("x", (1,))], h_noise, noise=[(("csum", "z"), "all")])
        for sure in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if full or dims == (2, 3):
                put(f"noise-sure{sure[0]}{sure[1]}", dims, [("r", (0,), (0, 1), {"ph": 0.5}), ("x", (1,)), ("csum", (0, 1))], h_noise, noise=[(("x",), "local"), (("csum",), "control")], sure=sure)
    return out
