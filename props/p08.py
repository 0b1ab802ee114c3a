"""Writing a circuit to QASM and reading it back."""
from __future__ import annotations

import os
import tempfile

from engine.harness import Instance
import numpy as np

from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components import QuantumRegister
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from props.gates import NO_CONTROLS, SINGLE, TWO

ENCODED = ["QuantumCircuit.to_qasm/from_qasm/save_to_file/load_from_file", "Gate.__qasm__", "QASM.parse_ditqasm2_str",
           "QASM.parse_gate/parse_qreg/parse_creg", "QuantumRegister.from_map", "gate constructors"]
BOUNDS = "circuits of 1..4 gates over 1..3 registers (1..4 lines, dimensions 2..4), every gate kind with and without controls, symbolic angles"
ASSUMPTIONS = ["angles are printed and read back exactly (Python's shortest float representation); the symbolic run passes them as tokens",
               "gates with a matrix as parameter are only exported together with a file that stores it"]


def compare(ctx, c, k, ms):
    ctx.check(list(k.dimensions) == list(c.dimensions), "dimensions")
    ctx.check(k.num_qudits == c.num_qudits, "number of lines")
    ctx.check([(r.label, r.size, list(r.dimensions)) for r in k.quantum_registers]
              == [(r.label, r.size, list(r.dimensions)) for r in c.quantum_registers], "registers")
    ctx.check(k.sitemap == c.sitemap and k.inverse_sitemap == c.inverse_sitemap, "site maps")
    ctx.check(len(k.instructions) == len(c.instructions), "number of gates")
    ctx.check(k.number_gates == c.number_gates, "gate counter")
    for g, h, m in zip(c.instructions, k.instructions, ms):
        ctx.check(type(g) is type(h), "gate kind")
        ctx.check(h.target_qudits == g.target_qudits, "target lines")
        ctx.check(h.get_control_lines == g.get_control_lines, "control lines")
        ctx.equal(h.to_matrix(identities=2), m, "operator of a gate")
    ctx.check(k.to_qasm() == c.to_qasm(), "exported again")


def circ(sizes, dims):
    if sizes is None:
        return QuantumCircuit(len(dims), list(dims), 0)
    c = QuantumCircuit()
    k = 0
    for i, n in enumerate(sizes):
        c.append(QuantumRegister(("alpha", "b2", "c_x")[i], n, list(dims[k:k + n])))
        k += n
    return c


PAIRS = ("r", "rz", "rh", "noisex", "noisey")


def h_rt(ctx, sizes, dims, kinds, free=False):
    c = circ(sizes, dims)
    ms = []
    for i, k in enumerate(kinds):
        name, q = k[0], k[1]
        if name in SINGLE:
            cd = None
            if len(k) > 2:
                lev = [ctx.choice(f"l{i}{j}", range(dims[x])) for j, x in enumerate(k[2])]
                cd = ControlData(list(k[2]), lev)
            _, m = SINGLE[name](ctx, c, q, f"g{i}", cd, *([(0, dims[q] - 1)] if name in PAIRS and not free else []))
            ms.append(spec.controlled(dims, k[2], lev, [q], m) if cd else spec.embed(dims, [q], m))
        else:
            _, m = TWO[name](ctx, c, list(q), f"g{i}", *([(0, dims[q[1]] - 1, dims[q[0]] - 1)] if name == "cx" and not free else []))
            ms.append(spec.embed(dims, sorted(q), m))
    text = c.to_qasm()
    n = QuantumCircuit()
    n.from_qasm(text)
    compare(ctx, c, n, ms)
    # reading into a circuit that already holds something replaces it
    o = QuantumCircuit(2, [5, 2], 0)
    o.x(0)
    o.from_qasm(text)
    compare(ctx, c, o, ms)


def h_file(ctx, dims, kinds):
    c = circ(None, dims)
    ms = []
    for i, (name, q) in enumerate(kinds):
        _, m = SINGLE[name](ctx, c, q, f"g{i}", None, *([(0, dims[q] - 1)] if name in PAIRS else []))
        ms.append(spec.embed(dims, [q], m))
    with tempfile.TemporaryDirectory() as d:
        f = c.save_to_file("prog", d)
        ctx.check(os.path.dirname(f) == d and f.endswith("prog.qasm"), "file name")
        n = QuantumCircuit()
        n.load_from_file(f)
    compare(ctx, c, n, ms)


def h_text(ctx, nums):
    """angles written as expressions of pi, levels as integers, comments and blank lines."""
    a = ctx.choice("a", range(len(nums)))
    text, val = nums[a]
    prog = f"""DITQASM 2.0;
// a comment
qreg field [2][3,4];
qreg matter [1];
/* short */
creg meas[3];

/* longer
x field[0];
*/
rxy (0, 2, {text}, pi/2) field[0];
rz (1,3,{text}) field[1];
virtrz (1, {text}) matter[0];
x matter[0] ctl field[0] field[1] [2, 3];
cx (0, 1, 2, pi/3) field[0], field[1];
measure field[0] -> meas[0];
"""
    c = QuantumCircuit()
    c.from_qasm(prog)
    dims = [3, 4, 2]
    ctx.check(list(c.dimensions) == dims, "dimensions")
    ctx.check(len(c.instructions) == 5, "number of gates")
    pi = spec.PI
    x2 = spec.zeros(2)
    x2[0, 1] = x2[1, 0] = 1.0
    want = [
        spec.embed(dims, [0], spec.rot(3, 0, 2, val, pi / 2)),
        spec.embed(dims, [1], spec.rz(4, 1, 3, val)),
        spec.embed(dims, [2], spec.virtrz(2, 1, val)),
        spec.controlled(dims, [0, 1], [2, 3], [2], x2),
        spec.embed(dims, [0, 1], spec.cex(3, 4, 0, 1, 2, pi / 3, True)),
    ]
    for g, m in zip(c.instructions, want):
        ctx.equal(g.to_matrix(identities=2), m, "operator of a gate")


def h_bad(ctx, line):
    c = QuantumCircuit()
    _, e = ctx.raises(c.from_qasm, "DITQASM 2.0;\nqreg q [2][3,3];\n" + line + "\n")
    ctx.check(e is not None, "malformed program rejected", line)


def h_dag(ctx, name, dims, q):
    """the inverse of a gate survives the round trip."""
    c = QuantumCircuit(len(dims), list(dims), 0)
    if name in SINGLE:
        g, m = SINGLE[name](ctx, c, q, "g", None, *([(0, 1)] if name in PAIRS else []))
        lines = [q]
    else:
        g, m = TWO[name](ctx, c, list(q), "g", *([(0, 1, 1)] if name == "cx" else []))
        lines = sorted(q)
    g.dag()
    n = QuantumCircuit()
    n.from_qasm(c.to_qasm())
    ctx.equal(n.instructions[0].to_matrix(identities=2), spec.embed(dims, lines, spec.dagger(m)), "operator of an inverted gate")


def h_levels(ctx, dims, q, ctl, name):
    """control levels and indices of several digits."""
    c = circ(None, dims)
    n = dims[ctl]
    lev = ctx.choice("lev", range(n))
    cd = ControlData([ctl], [lev])
    _, m = SINGLE[name](ctx, c, q, "g", cd, *([(0, dims[q] - 1)] if name in PAIRS else []))
    k = QuantumCircuit()
    k.from_qasm(c.to_qasm())
    h = k.instructions[0]
    ctx.check(h.target_qudits == q and h.get_control_lines == [ctl], "lines of a gate")
    ci = h.control_info["controls"]
    ctx.check(list(ci.indices) == [ctl] and list(ci.ctrl_states) == [lev], "control levels of a gate", str(ci))
    ctx.check(list(k.dimensions) == list(dims), "dimensions")
    ctx.check(k.to_qasm() == c.to_qasm(), "exported again")


def h_wide(ctx, n, name):
    """registers with many lines."""
    c = QuantumCircuit()
    c.append(QuantumRegister("a", n, [2] * n))
    c.append(QuantumRegister("b", 2, [3, 11]))
    q = ctx.choice("q", (1, 9, 10, n))
    ctl = ctx.choice("c", (0, 9, 10, n + 1))
    ctx.assume(ctl != q)
    d = (list(c.dimensions))[q]
    lev = ctx.choice("l", [0, c.dimensions[ctl] - 1])
    t = ctx.angle("t", 0.1, 1.9)
    g = c.r(q, [0, d - 1, t, 0.5], ControlData([ctl], [lev])) if name == "r" else c.cx([q, ctl], [0, 1, lev, t])
    k = QuantumCircuit()
    k.from_qasm(c.to_qasm())
    h = k.instructions[0]
    ctx.check(type(h) is type(g) and h.target_qudits == g.target_qudits and h.get_control_lines == g.get_control_lines, "lines of a gate")
    if name == "r":
        ci = h.control_info["controls"]
        ctx.check(list(ci.ctrl_states) == [lev], "control levels of a gate")
    a, b = h._params, g._params
    ctx.check(len(a) == len(b) and list(a[:2]) == list(b[:2]), "levels of a gate")
    ctx.equal(np.array(list(a[2:]), dtype=object if ctx.symbolic else float), np.array(list(b[2:]), dtype=object if ctx.symbolic else float), "parameters of a gate")
    ctx.check([(r.label, r.size, list(r.dimensions)) for r in k.quantum_registers] == [("a", n, [2] * n), ("b", 2, [3, 11])], "registers")
    ctx.check(list(k.dimensions) == list(c.dimensions) and k.sitemap == c.sitemap, "register")


def instances(tier):
    out = all_instances(tier)
    for x in out:
        # the text has to carry every digit of an angle
        x.rounding, x.replay_tol = True, 1e-10
    return out


def all_instances(tier):
    out = []
    for name in ("x", "r", "virtrz", "h"):
        for dims, q, ctl in (((3, 12), 0, 1), ((14, 2), 1, 0), ((2, 11, 3), 0, 1)):
            out.append(Instance(f"levels/{name}/{dims}/{q}{ctl}", h_levels, dims=dims, q=q, ctl=ctl, name=name))
    for name in ("r", "cx"):
        for n in (11, 13):
            out.append(Instance(f"wide/{name}/{n}", h_wide, n=n, name=name, max_paths=400))
    names = [n for n in SINGLE if n != "cuone"]
    for n in names:
        for dims, q in (((3,), 0), ((2, 3), 1), ((4, 2), 0)) if n != "s" else (((3,), 0), ((2, 3), 1)):
            out.append(Instance(f"single/{n}/{dims}/{q}", h_rt, sizes=None, dims=dims, kinds=[(n, q)], free=True, max_paths=300))
        if n not in NO_CONTROLS:
            for sizes, dims, q, ctl in ((None, (2, 3), 0, (1,)), ((1, 2), (3, 2, 2), 1, (0,)), ((2, 1), (2, 3, 2), 1, (2, 0)),
                                        (None, (2, 2, 3), 0, (2,)), ((1, 1, 1), (2, 2, 3), 2, (1, 0))):
                out.append(Instance(f"ctl/{n}/{sizes}/{dims}/{q}/{ctl}", h_rt, sizes=sizes, dims=dims, kinds=[(n, q, ctl)]))
    for n in TWO:
        if n != "cutwo":
            for sizes, dims, q in ((None, (2, 3), (0, 1)), (None, (3, 2), (1, 0)), ((1, 2), (2, 3, 2), (2, 0)), ((1, 1, 1), (3, 2, 3), (0, 2)), ((2, 1), (2, 4, 2), (2, 1))):
                out.append(Instance(f"two/{n}/{sizes}/{dims}/{q}", h_rt, sizes=sizes, dims=dims, kinds=[(n, q)], free=True, max_paths=300))
    progs = [[("h", 0), ("cx", (0, 1)), ("r", 1), ("virtrz", 0)], [("rz", 1), ("x", 0, (1,)), ("ls", (1, 0)), ("z", 0)],
             [("noisex", 0), ("rh", 1, (0,)), ("csum", (1, 0)), ("pm", 1)], [("noisey", 1), ("s", 0), ("ms", (0, 1)), ("noisez", 1)]]
    for i, p in enumerate(progs):
        for sizes in (None, (1, 1)) if i else (None,):
            out.append(Instance(f"prog/{i}/{sizes}", h_rt, sizes=sizes, dims=(3, 4) if sizes else (3, 2), kinds=p))
    out.append(Instance("file/0", h_file, dims=(3, 2), kinds=[("r", 0), ("x", 1), ("rz", 1)]))
    out.append(Instance("file/custom", h_file, dims=(3, 2), kinds=[("cuone", 0), ("h", 1), ("cuone", 1)]))
    pi = spec.PI
    nums = [("pi", pi), ("pi/2", pi / 2), ("-pi/4", -pi / 4), ("2*pi/3", 2 * pi / 3), ("0.5*pi", pi / 2), ("(pi)/6" if False else "pi/6", pi / 6), ("-pi", -pi), ("3*pi/4", 3 * pi / 4), ("1.0*pi", pi)]
    out.append(Instance("text", h_text, nums=nums))
    for i, l in enumerate(("x q[0]", "foo;", "qreg;", "gate_matrix g a { x a; }", "x q[2];", "x r[0];")):
        out.append(Instance(f"bad/{i}", h_bad, line=l))
    for n in ("h", "x", "z", "r", "virtrz", "pm", "cx", "csum", "ls", "ms"):
        two = n in TWO
        out.append(Instance(f"dag/{n}", h_dag, name=n, dims=(3, 3) if two else (3, 2), q=(0, 1) if two else 0))
    return out
