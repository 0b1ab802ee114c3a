"""Noisy circuits."""
from __future__ import annotations

import itertools

import numpy as np
from engine.harness import Instance
from engine.sym import S
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.gates import NoiseX, NoiseY, VirtRz, X, Z
from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, NoisyCircuitFactory, SubspaceNoise
from props import localutil as lu
from props.p16 import make

ENCODED = ["NoisyCircuitFactory.generate_circuit/_apply_noise/_get_qudits_for_mode/_apply_depolarizing_noise/_apply_dephasing_noise/_dynamic_subspace_noise_info_rectification",
           "NoiseModel.add_*", "Noise/SubspaceNoise.add_noise/add_noises", "QuantumCircuit.x/z/noisex/noisey/noisez"]
BOUNDS = "circuits of 1..3 gates on 1..3 lines of dimension 2..4 with symbolic angles, every mode, error probabilities symbolic in [0,1], every outcome of every draw"
ASSUMPTIONS = ["the generator of random numbers returns each option of choice() with the probability given to it; independence of the draws is decided by P30",
               "mathematical noise consists of X^a Z^b with probability p/d^2 each (as in the code and the tutorial), subspace noise of X, Y or Z on the levels with p/4 each"]


def const_zero(x):
    return (isinstance(x, S) and not x.n) or (not isinstance(x, S) and abs(x) < 1e-12)


def same(x, y):
    d = x - y
    return const_zero(d) if isinstance(d, S) else abs(d) < 1e-9


class Draws:
    """stand-in for the generator: every option with a probability that is not zero is explored."""

    def __init__(self, ctx):
        self.ctx, self.n, self.weight = ctx, 0, 1.0

    def choice(self, options, size=None, replace=True, p=None, **kw):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        ps = [1 / len(opts)] * len(opts) if p is None else list(p)
        self.ctx.check(len(ps) == len(opts), "one probability per option")
        self.ctx.close(sum(ps), 1.0, "probabilities sum to one")
        for x in ps:
            self.ctx.check(x >= -1e-12, "probabilities are not negative")
        live = [i for i, x in enumerate(ps) if not const_zero(x)]
        k = int(self.ctx.choice(f"draw{self.n}", live)) if len(live) > 1 else live[0]
        self.n += 1
        self.weight = self.weight * ps[k]
        o = opts[k]
        return np.array(o) if isinstance(o, (tuple, list)) else o


# what the model asks for -------------------------------------------------------------------------------------------
def affected(c, g, mode):
    multi = len(g.reference_lines) > 1
    if mode == "local":
        return list(g.reference_lines)
    if mode == "all":
        return list(range(c.num_qudits))
    if mode == "nonlocal":
        return list(g.reference_lines) if multi else None
    if mode == "target":
        return [g.target_qudits] if isinstance(g.target_qudits, int) else list(g.target_qudits[1:])
    if mode == "control":
        if len(g.reference_lines) != 2:
            return None
        return list(g.get_control_lines) if isinstance(g.target_qudits, int) else [g.target_qudits[0]]
    return None


def outcomes(c, g, entry, q):
    """list of draws on line q; each is a list of (errors, probability)."""
    d = c.dimensions[q]
    kind, pd, pz, levels = entry
    if kind == "math":
        out = []
        for a, b in itertools.product(range(d), repeat=2):
            out.append(([("x",)] * a + [("z",)] * b, pd / (d * d) if (a, b) != (0, 0) else 1 - (d * d - 1) * pd / (d * d)))
        return [out]
    if kind == "dynamic":
        levels = [(min(g.lev_a, g.lev_b), max(g.lev_a, g.lev_b))]
    dep, deph = [], []
    for a, b in levels:
        dep.append([([], 1 - 3 * pd / 4), ([("nx", a, b)], pd / 4), ([("nz", b)], pd / 4), ([("ny", a, b)], pd / 4)])
        deph += [[([("nz", k)], pz), ([], 1 - pz)] for k in range(d) if k not in (a, b)]
    return dep + deph


def describe(ctx, g):
    if isinstance(g, X):
        return ("x",)
    if isinstance(g, Z):
        return ("z",)
    if isinstance(g, NoiseX):
        return ("nx", min(g.lev_a, g.lev_b), max(g.lev_a, g.lev_b))
    if isinstance(g, NoiseY):
        return ("ny", min(g.lev_a, g.lev_b), max(g.lev_a, g.lev_b))
    if isinstance(g, VirtRz):
        m = np.array(g.to_matrix(identities=0))
        lev = g.lev_a
        ctx.close(m[lev, lev], -1.0, "phase of a level error")
        return ("nz", lev)
    return (type(g).__name__,)


def parses(draws, found):
    """all ways to read the errors found on a line as outcomes of the draws; yields probabilities."""
    if not draws:
        if not found:
            yield 1.0
        return
    for errs, p in draws[0]:
        if found[: len(errs)] == errs:
            for rest in parses(draws[1:], found[len(errs) :]):
                yield p * rest


def weights(lines):
    if not lines:
        yield 1.0
        return
    for p in lines[0]:
        for rest in weights(lines[1:]):
            yield p * rest


def h_noise(ctx, dims, layout, model, zero=False):
    """model: list of (mode, kind, gates, levels)."""
    c = QuantumCircuit(len(dims), list(dims), 0)
    for i, item in enumerate(layout):
        make(ctx, c, i, item)
    ops = list(c.instructions)
    nm = NoiseModel()
    entries = {}
    adders = {"local": nm.add_quantum_error_locally, "all": nm.add_all_qudit_quantum_error, "nonlocal": nm.add_nonlocal_quantum_error,
              "target": nm.add_nonlocal_quantum_error_on_target, "control": nm.add_nonlocal_quantum_error_on_control}
    for k, (mode, kind, tags, levels) in enumerate(model):
        pd, pz = (0.0, 0.0) if zero else (ctx.real(f"p{k}", 0, 1), ctx.real(f"z{k}", 0, 1))
        noise = Noise(pd, pz) if kind == "math" else SubspaceNoise(pd, pz, list(levels) if levels and kind != "dynamic" else [])
        if kind == "single":
            noise = SubspaceNoise(pd, pz, levels[0])
        adders[mode](noise, list(tags))
        for t in tags:
            entries.setdefault(t, []).append((mode, (kind, pd, pz, [tuple(sorted(x)) for x in levels] if levels else None)))
    fac = NoisyCircuitFactory(nm, c)
    draws = Draws(ctx)
    fac.rng = draws
    bad = any(affected(c, g, mode) is None for g in ops for mode, _ in entries.get(g.qasm_tag, []))
    far = any(e[0] in ("sub", "single") and any(x >= dims[q] for a in e[3] for x in a) for g in ops for mode, e in entries.get(g.qasm_tag, []) for q in affected(c, g, mode) or [])
    if bad or far:
        _, e = ctx.raises(fac.generate_circuit)
        ctx.check(isinstance(e, (ValueError, IndexError)), "a mode or level that does not apply is rejected", str(e))
        return
    out = fac.generate_circuit()
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)) and c.number_gates == len(ops), "input circuit unchanged")
    ctx.check(out is not c and out.dimensions == list(dims) and out.num_qudits == len(dims), "dimensions of the circuit")
    ctx.check(out.number_gates == len(out.instructions), "number of gates")
    if zero:
        ctx.check(len(out.instructions) == len(ops), "no errors with probability zero")
    MARKLESS[0] = not any(hasattr(x, "vp_mark") for x in out.instructions)
    # the ideal gates, each followed by its errors
    rest = list(out.instructions)
    expected = []
    for g in ops:
        ctx.check(bool(rest), "ideal gates in order")
        h = rest.pop(0)
        ctx.check(h is not g, "gates are copied")
        ctx.check(type(h) is type(g) and h.reference_lines == g.reference_lines and h.dagger == g.dagger, "ideal gates in order", type(h).__name__)
        ctx.equal(h.to_matrix(identities=2), g.to_matrix(identities=2), "operator of an ideal gate")
        want = {}
        for mode, e in entries.get(g.qasm_tag, []):
            for q in affected(c, g, mode):
                want.setdefault(q, []).extend(outcomes(c, g, e, q))
        expected.append((g, want))
        # errors: single-line gates without control; taken greedily up to the number the model allows on a line
        most = {q: sum(max(len(errs) for errs, _ in d) for d in ds) for q, ds in want.items()}
        found = {q: [] for q in want}
        nxt = ops[len(expected)] if len(expected) < len(ops) else None
        while rest and (nxt is None or not is_copy(rest[0], nxt)):
            x = rest.pop(0)
            ctx.check(isinstance(x.target_qudits, int) and len(x.reference_lines) == 1 and x.target_qudits in most, "errors only on the named lines", f"{type(x).__name__} {x.reference_lines}")
            found[x.target_qudits].append(describe(ctx, x))
        for q, f in found.items():
            ctx.check(len(f) <= most[q], "number of errors on a line", str(f))
        per = [list(parses(ds, found[q])) for q, ds in want.items()]
        ctx.check(all(per), "errors are those of the model", str(found))
        expected[-1] = list(weights(per))
    ctx.check(not rest, "no further gates", str([type(x).__name__ for x in rest]))
    ctx.check(any(same(draws.weight, w) for w in weights(expected)), "probability of the errors", f"{draws.weight}")


def is_copy(x, g):
    """layouts name every ideal gate so that errors (which carry the names of the circuit's methods) differ."""
    if getattr(x, "vp_mark", None) is not None:
        return x.vp_mark == getattr(g, "vp_mark", None)
    return MARKLESS[0] and type(x) is type(g) and x.reference_lines == g.reference_lines and str(getattr(x, "_params", None)) == str(getattr(g, "_params", None))


MARKLESS = [False]


def h_marked(ctx, dims, layout, model, zero=False):
    global make
    base = make

    def marked(ctx2, c, i, item):
        g = base(ctx2, c, i, item)
        g.vp_mark = i
        return g

    make = marked
    try:
        h_noise(ctx, dims, layout, model, zero)
    finally:
        make = base


def h_model(ctx, kind):
    """what the model accepts."""
    n = Noise(ctx.real("p", 0, 1), ctx.real("q", 0, 1))
    a, b, x, y = (int(ctx.choice(k, range(3))) for k in "abxy")
    if kind == "levels":
        s, e = ctx.raises(SubspaceNoise, n.probability_depolarizing, n.probability_dephasing, [(a, b), (x, y)])
        ok = a != b and x != y and {a, b} != {x, y}
        ctx.check((e is None) == ok and (ok or isinstance(e, ValueError)), "levels of a subspace error", f"{a}{b} {x}{y} {e}")
        if ok:
            ctx.check(set(s.subspace_w_probs) == {tuple(sorted((a, b))), tuple(sorted((x, y)))}, "subspaces recorded")
            for v in s.subspace_w_probs.values():
                ctx.close(v.probability_depolarizing, n.probability_depolarizing, "probability recorded")
                ctx.close(v.probability_dephasing, n.probability_dephasing, "probability recorded")
    elif kind == "dynamic":
        ctx.assume(a != b)
        s = SubspaceNoise(0.1, 0.2, [])
        _, e = ctx.raises(s.add_noise, a, b, n)
        ctx.check(isinstance(e, ValueError), "no further subspace beside a dynamic one")
        s = SubspaceNoise(0.1, 0.2, (a, b))
        _, e = ctx.raises(s.add_noise, -2, -1, n)
        ctx.check(isinstance(e, ValueError), "no dynamic subspace beside another one")
    else:
        ctx.assume(a != b and x != y)
        m = NoiseModel()
        m.add_quantum_error_locally(SubspaceNoise(0.1, 0.2, (a, b)), ["x", "z"])
        m.add_quantum_error_locally(n, ["h"])
        m.add_all_qudit_quantum_error(n, ["h"])
        _, e = ctx.raises(m.add_quantum_error_locally, n, ["h"])
        ctx.check(isinstance(e, ValueError), "one mathematical error per gate and mode")
        _, e = ctx.raises(m.add_quantum_error_locally, SubspaceNoise(0.3, 0.4, (x, y)), ["x"])
        ok = {a, b} != {x, y}
        ctx.check((e is None) == ok, "further subspace of the same gate", f"{a}{b} {x}{y}")
        ctx.check(sorted(m.basis_gates) == ["h", "x", "z"], "gates of the model")
        ctx.check(set(m.quantum_errors["h"]) == {"local", "all"}, "modes of the model")
        got = {k: (v.probability_depolarizing, v.probability_dephasing) for k, v in m.quantum_errors["x"]["local"].subspace_w_probs.items()}
        want = {tuple(sorted((a, b))): (0.1, 0.2)}
        if ok:
            want[tuple(sorted((x, y)))] = (0.3, 0.4)
        ctx.check(got == want, "subspaces of a gate", str(got))


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f=h_marked, **kw):
        out.append(Instance(name, f, overrides=lu.NO_REGULATE_R, points=1, seconds=600 if th else 60, max_paths=20000 if th else 4000, **kw))

    math = lambda mode, *tags: (mode, "math", tags, None)  # noqa: E731
    one = {"x": ("x", 0), "rxy": ("r", 0, None, (0, 1)), "virtrz": ("virtrz", 0, None, 1), "h": ("h", 0), "-s": ("-s", 0), "rz": ("rz", 0, None, (0, 1))}
    for tag, item in one.items():
        for d in (2, 3) if tag != "-s" else (2,):
            for mode in ("local", "all", "target"):
                add(f"math/{tag}/{d}/{mode}", dims=(d,), layout=[item], model=[math(mode, tag.lstrip("-"))])
            for lv in ([(0, 1)],) + (([(0, 2)], [(2, 1)], [(0, 1), (1, 2)]) if d == 3 else ()):
                add(f"sub/{tag}/{d}/{lv[0][0]}{lv[0][1]}{len(lv)}", dims=(d,), layout=[item], model=[("local", "sub", (tag.lstrip("-"),), lv)])
        add(f"none/{tag}", dims=(3,), layout=[item], model=[math("local", "csum")])
        for mode in ("nonlocal", "control"):
            add(f"reject/{tag}/{mode}", dims=(3,), layout=[item], model=[math(mode, tag.lstrip("-"))])
    add("math/x/4", dims=(4,), layout=[("x", 0)], model=[math("local", "x")])
    add("single/4", dims=(4,), layout=[("x", 0)], model=[("local", "single", ("x",), [(3, 1)])])
    for lv in ([(0, 1), (2, 3)], [(0, 1), (0, 2)], [(3, 1), (1, 2)]):
        add("pairs/4/" + "".join(f"{a}{b}" for a, b in lv), dims=(4,), layout=[("x", 0)], model=[("local", "sub", ("x",), lv)])
    add("pairs/34", dims=(3, 4), layout=[("ls", [0, 1])], model=[("target", "sub", ("ls",), [(0, 3), (1, 2)])])
    add("far/3", dims=(3,), layout=[("x", 0)], model=[("local", "sub", ("x",), [(0, 3)])])
    add("far/23", dims=(3, 2), layout=[("csum", [0, 1])], model=[("nonlocal", "sub", ("csum",), [(1, 2)])])
    # gates on several lines
    two = {"csum": ("csum", [1, 0]), "cx": ("cx", [0, 1], None, (0, 1, 1)), "ls": ("ls", [0, 1]), "ms": ("ms", [1, 0])}
    for tag, item in two.items():
        for mode in ("local", "nonlocal", "target", "control"):
            add(f"two/{tag}/{mode}", dims=(2, 2), layout=[item], model=[math(mode, tag)])
            add(f"two/sub/{tag}/{mode}", dims=(3, 2), layout=[item], model=[(mode, "sub", (tag,), [(0, 1)])])
    for mode in ("local", "nonlocal", "target", "control", "all"):
        add(f"ctl/{mode}", dims=(2, 3), layout=[("x", 1, ([0], [1]))], model=[(mode, "sub", ("x",), [(1, 0)])])
        add(f"ctl10/{mode}", dims=(2, 2), layout=[("r", 0, ([1], [1]), (0, 1))], model=[math(mode, "rxy")])
        if mode != "all":
            add(f"apart/{mode}", dims=(2, 2, 2), layout=[("csum", [2, 0])], model=[(mode, "sub", ("csum",), [(0, 1)])])
        add(f"multi/{mode}", dims=(2, 2, 2), layout=[("z", 1, ([2, 0], [1, 1]))], model=[(mode, "sub", ("z",), [(0, 1)])])
    add("multi/math/target", dims=(2, 2, 2), layout=[("z", 1, ([0, 2], [1, 1]))], model=[math("target", "z")])
    # levels taken from the gate
    for tag, item, lv in (("rxy", ("r", 0, None, (0, 2)), None), ("rxy", ("r", 0, None, (2, 1)), None), ("rz", ("rz", 0, None, (1, 2)), None), ("rh", ("rh", 0, None, (0, 1)), None)):
        add(f"dynamic/{tag}/{item[3][0]}{item[3][1]}", dims=(3,), layout=[item], model=[("local", "dynamic", (tag,), None)])
    for mode in ("target", "control", "nonlocal"):
        add(f"dynamic/cx/{mode}", dims=(2, 3) if mode == "target" else (2, 2), layout=[("cx", [0, 1], None, (0, 1 if mode != "target" else 2, 1))], model=[(mode, "dynamic", ("cx",), None)])
    # several modes, several gates
    add("modes/2", dims=(2, 2), layout=[("csum", [0, 1])], model=[("target", "sub", ("csum",), [(0, 1)]), math("control", "csum")])
    add("modes/3", dims=(2, 3), layout=[("cx", [1, 0], None, (0, 1, 2))], model=[("nonlocal", "dynamic", ("cx",), None), ("local", "sub", ("rxy",), [(0, 1)])])
    add("seq/1", dims=(2, 2), layout=[("x", 0), ("csum", [0, 1]), ("z", 1)], model=[("local", "sub", ("x", "z"), [(0, 1)]), ("target", "sub", ("csum",), [(0, 1)])])
    add("seq/2", dims=(2, 2), layout=[("x", 0), ("x", 0)], model=[math("local", "x")])
    add("seq/3", dims=(3, 2), layout=[("r", 0, None, (1, 2)), ("h", 1), ("r", 0, None, (0, 1))], model=[("local", "dynamic", ("rxy",), None)])
    add("seq/4", dims=(2, 2), layout=[("z", 0), ("x", 1, ([0], [1])), ("h", 1)], model=[("control", "sub", ("x",), [(0, 1)]), math("local", "h")])
    add("seq/5", dims=(2, 3), layout=[("virtrz", 1, None, 2), ("-r", 1, None, (0, 1)), ("rh", 0, None, (0, 1))], model=[("all", "sub", ("rxy",), [(0, 1)])])
    for k, (dims, lay) in enumerate([((2, 2), [("x", 0), ("csum", [0, 1]), ("r", 1, None, (0, 1))]), ((3, 2), [("x", 1, ([0], [2])), ("virtrz", 0, None, 1), ("ms", [0, 1])])]):
        tags = ["x", "csum", "rxy", "virtrz", "ms"]
        add(f"zero/{k}", dims=dims, layout=lay, model=[math("local", *tags)], zero=True)
        add(f"zero/sub/{k}", dims=dims, layout=lay, model=[("all", "sub", tags, [(0, 1)])], zero=True)
    for kind in ("levels", "dynamic", "gates"):
        add(f"model/{kind}", h_model, kind=kind)
    return out
