"""Logical entangling QR compilation."""
from __future__ import annotations

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.twodit.entanglement_qr.log_ent_qr_cex_decomp import EntangledQRCEX, LogEntQRCEXPass
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
from mqt.qudits.quantum_circuit.gates import CEx, CustomTwo, R, Rh, Rz, VirtRz
from props import localutil as lu
from props import p13
from props.gates import SINGLE, TWO

ENCODED = ["LogEntQRCEXPass.transpile/transpile_gate", "EntangledQRCEX.execute/get_gate_matrix", "CRotGen/PSwapGen/CZRotGen (instances without /b)",
           "Gate.to_matrix/dag of the gates involved", "MatrixFactory.generate_matrix"]
BOUNDS = ("dimension pairs 22, 23, 32 for arbitrary unitaries given as products of rotations of neighbouring rows (angles in {0}, "
          "(0.2pi,0.8pi), {pi}) times symbolic phases; built-in two-qudit gates and controlled gates for the pairs listed; circuits of up to 5 gates")
ASSUMPTIONS = [
    "angle regulation keeps the operator (decided by P01, P06, P09), so does reducing a phase by pi_mod (P09)",
    "instances ending in /b replace the controlled building blocks by gates with the operator P13 shows they have; counterexamples are replayed with the real blocks",
    "rounding of phases to 6 digits and of entries to 15 digits is taken as exact, phases below 1e-4 as absent; replays compare with tolerance 1e-4",
]
M = "mqt.qudits.compiler.twodit.entanglement_qr.log_ent_qr_cex_decomp"
PLAIN = {**p13.NO_REG, (M, "pi_mod"): lu.same_angle}


def block(kind):
    def build(circuit, idx):
        dims = [circuit.dimensions[q] for q in idx]

        def make(i, theta, phi=None, *rest):
            m = p13.op(dims, [0, 1], i, kind, theta, phi)
            return [CustomTwo(circuit, "block", list(idx), m, dims)]

        return make

    return build


class CRot:
    def __init__(self, circuit, idx):
        self.permute_crot_101_as_list = block("rot")(circuit, idx)


class PSwap:
    def __init__(self, circuit, idx):
        self.permute_pswap_101_as_list = block("rot")(circuit, idx)


class CZRot:
    def __init__(self, circuit, idx):
        self.z_from_crot_101_list = block("z")(circuit, idx)
        self.z_pswap_101_as_list = block("z")(circuit, idx)


BLOCKS = {**PLAIN, (M, "CRotGen"): CRot, (M, "PSwapGen"): PSwap, (M, "CZRotGen"): CZRot}


def total(seq, n):
    m = spec.eye(n)
    for g in seq:
        m = g.to_matrix(identities=2) @ m
    return m


def check_kinds(ctx, seq, lines):
    kinds = (R, Rz, Rh, VirtRz, CEx, CustomTwo) if ctx.symbolic else (R, Rz, Rh, VirtRz, CEx)
    for g in seq:
        ctx.check(isinstance(g, kinds), "elementary gates only", type(g).__name__)
        ctx.check(set(g.reference_lines) <= set(lines), "lines of a gate", str(g.reference_lines))


def decide(ctx, gate, want, dims, lines):
    """want: operator on the whole register."""
    m0 = np.array(gate.to_matrix(identities=2), copy=True)
    seq = LogEntQRCEXPass.transpile_gate(gate)
    check_kinds(ctx, seq, lines)
    ctx.equal_phase(total(seq, int(np.prod(dims))), want, "operator of the decomposition", tol=1e-4)
    ctx.equal(gate.to_matrix(identities=2), m0, "the decomposed gate is unchanged")


def h_unitary(ctx, dims, pattern, diag, lines=None, reg=None):
    reg = list(reg or dims)
    lines = list(lines or [0, 1])
    c = QuantumCircuit(len(reg), reg, 0)
    n = int(np.prod(dims))
    u = lu.unitary(ctx, n, pattern, lu.qr_order(n), False)
    if diag:
        dm = spec.eye(n)
        for i, k in enumerate(diag):
            dm[i, i] = spec.expi(ctx.angle(f"d{i}", -1, 1)) if k == "a" else -1.0 if k == "-" else 1.0
        u = u @ dm
    gate = c.cu_two(lines, u)
    decide(ctx, gate, spec.embed(reg, sorted(lines), u), reg, lines)


def h_builtin(ctx, kind, dims, lines, fixed=None, reg=None):
    reg = list(reg or dims)
    c = QuantumCircuit(len(reg), reg, 0)
    gate, m = TWO[kind](ctx, c, list(lines), "g", fixed)
    decide(ctx, gate, spec.embed(reg, sorted(lines), m), reg, lines)


def h_tiny(ctx, dims, kind):
    c = QuantumCircuit(2, list(dims), 0)
    u = lu.tiny(ctx, int(np.prod(dims)), kind)
    decide(ctx, c.cu_two([0, 1], u), u, list(dims), [0, 1])


def h_dag(ctx, kind, dims, lines, fixed=None):
    c = QuantumCircuit(2, list(dims), 0)
    gate, m = TWO[kind](ctx, c, list(lines), "g", fixed)
    decide(ctx, gate.dag(), spec.embed(list(dims), sorted(lines), spec.dagger(m)), list(dims), lines)


def h_control(ctx, kind, reg, q, ctl, level, fixed=None):
    c = QuantumCircuit(len(reg), list(reg), 0)
    gate, m = SINGLE[kind](ctx, c, q, "g", ControlData([ctl], [level]), fixed)
    decide(ctx, gate, spec.controlled(list(reg), [ctl], [level], [q], m), list(reg), [q, ctl])


def h_circuit(ctx, dims, layout):
    c = QuantumCircuit(len(dims), list(dims), 0)
    want = spec.eye(int(np.prod(dims)))
    for i, (name, lines, controls, fixed) in enumerate(layout):
        if name in SINGLE:
            g, _ = SINGLE[name](ctx, c, lines, f"g{i}", controls and ControlData(*controls), fixed)
        else:
            g, _ = TWO[name](ctx, c, lines, f"g{i}", fixed)
        want = g.to_matrix(identities=2) @ want
    ops = list(c.instructions)
    out = LogEntQRCEXPass(None).transpile(c)
    ctx.check(len(c.instructions) == len(ops) and all(a is b for a, b in zip(c.instructions, ops)), "input circuit unchanged")
    keep = [g for g in ops if len(g.reference_lines) != 2]
    rest = [g for g in out.instructions if any(g is k for k in keep)]
    ctx.check(len(rest) == len(keep) and all(a is b for a, b in zip(rest, keep)), "other gates kept in order")
    check_kinds(ctx, [g for g in out.instructions if not any(g is k for k in keep)], range(len(dims)))
    ctx.equal_phase(total(out.instructions, int(np.prod(dims))), want, "operator of the transpiled circuit", tol=1e-4)


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, ov=PLAIN, ring=48, **kw):
        out.append(Instance(name, f, overrides=ov, ring=ring, seconds=600 if th else 60, max_paths=2000 if th else 300, **kw))

    pats = [s.replace("g", "m") for s in lu.patterns(4, "qr")]
    for s in pats:
        if th or not ("m" in s and "p" in s) or s in ("mp0000", "0mp000", "mmp00m", "mpm0pm"):
            add(f"22/{s}/b", h_unitary, ov=BLOCKS, dims=(2, 2), pattern=s, diag="aaaa")
            if "p" in s or th:
                add(f"22n/{s}/b", h_unitary, ov=BLOCKS, dims=(2, 2), pattern=s, diag="")
    for s in ("000000", "m00000", "0m0000", "00m000", "0000m0", "p00000", "0p0000", "00p000", "000p00", "g00000", "mm0000"):
        add(f"22/{s}", h_unitary, ring=96, dims=(2, 2), pattern=s, diag="")
    for k in ("a000", "0a00", "00a0", "000a", "-0a0", "a0a0", "aaaa"):
        add(f"22/diag/{k}", h_unitary, ring=96, dims=(2, 2), pattern="000000", diag=k)
    for dims in ((2, 2), (2, 3)):
        for kind in lu.tinies(int(np.prod(dims))):
            if th or kind[0] == "p" or kind[-1] == 0 and (dims == (2, 2) or kind[2] - kind[1] in (1, 3)):
                add(f"tiny/{dims[0]}{dims[1]}/{'-'.join(map(str, kind))}/b", h_tiny, ov=BLOCKS, sharp=3e-4 if dims == (2, 2) else 4e-4, dims=dims, kind=kind)
    for kind in lu.tinies(4):
        if kind[-1] == 0 and kind[0] == "r":
            add(f"tiny/22/{'-'.join(map(str, kind))}", h_tiny, ring=96, sharp=3e-4, dims=(2, 2), kind=kind)
    n = 15
    for i in range(n):
        s = "0" * i + "m" + "0" * (n - 1 - i)
        for dims in ((2, 3), (3, 2)):
            add(f"{dims[0]}{dims[1]}/{s}/b", h_unitary, ov=BLOCKS, dims=dims, pattern=s, diag="a00a00")
            add(f"{dims[0]}{dims[1]}/{s.replace('m', 'p')}/b", h_unitary, ov=BLOCKS, dims=dims, pattern=s.replace("m", "p"), diag="")
    for dims in ((2, 3), (3, 2)):
        for s in ("mm0000000000000", "mmmmm0000000000", "00000mmmm000000", "000000000mmm000", "000mm000m000000", "mmmmmmmmm000000", "00000mmmmmmmmm0"):
            if th or s.count("m") < 6:
                add(f"{dims[0]}{dims[1]}/{s}/b", h_unitary, ov=BLOCKS, dims=dims, pattern=s, diag="aaaaaa" if th else "0000a0")
    # other lines, registers with further lines
    for dims, lines, reg in (((2, 2), (1, 0), (2, 2)), ((2, 3), (1, 0), (2, 3)), ((2, 3), (0, 2), (2, 2, 3)), ((3, 2), (2, 1), (2, 3, 2)), ((2, 2), (2, 0), (2, 3, 2))):
        n = int(np.prod(dims))
        s = "0m" + "0" * (n * (n - 1) // 2 - 2)
        add(f"lines/{''.join(map(str, reg))}/{''.join(map(str, lines))}/b", h_unitary, ov=BLOCKS, dims=dims, pattern=s, diag="a" + "0" * (n - 1), lines=lines, reg=reg)
        if reg != (2, 3, 2):
            add(f"lines/{''.join(map(str, reg))}/{''.join(map(str, lines))}", h_unitary, dims=dims, pattern=s, diag="", lines=lines, reg=reg)
    for dims in ((2, 2), (2, 3), (3, 2), (3, 3)):
        for lines in ((0, 1), (1, 0)):
            for kind in ("csum", "ls", "ms", "cx"):
                tag = f"{kind}/{dims[0]}{dims[1]}/{lines[0]}{lines[1]}"
                if kind == "ms" and dims == (3, 3):
                    continue  # ninths of angles of nested roots
                fixed = (0, dims[lines[1]] - 1, dims[lines[0]] - 1) if kind == "cx" else None
                add(f"builtin/{tag}/b", h_builtin, ov=BLOCKS, ring=144, kind=kind, dims=dims, lines=lines, fixed=fixed)
                if dims == (2, 2):
                    add(f"builtin/{tag}", h_builtin, ring=96, kind=kind, dims=dims, lines=lines, fixed=fixed)
                    add(f"dag/{tag}/b", h_dag, ov=BLOCKS, ring=144, kind=kind, dims=dims, lines=lines, fixed=fixed)
    for reg in ((2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2)):
        for q, ctl in ((0, len(reg) - 1), (len(reg) - 1, 0)):
            for kind, fixed in (("r", (0, 1)), ("x", None), ("virtrz", 1), ("rz", (0, 1)), ("h", None)):
                add(f"control/{kind}/{''.join(map(str, reg))}/{q}{ctl}/b", h_control, ov=BLOCKS, ring=144, kind=kind, reg=reg, q=q, ctl=ctl, level=reg[ctl] - 1, fixed=fixed)
    for i, (dims, layout) in enumerate([
        ((2, 2), [("h", 0, None, None), ("csum", [0, 1], None, None), ("rz", 1, None, (0, 1))]),
        ((2, 2), [("cx", [1, 0], None, (0, 1, 0)), ("x", 1, None, None), ("csum", [1, 0], None, None)]),
        ((2, 3), [("virtrz", 1, None, 2), ("csum", [1, 0], None, None), ("rh", 1, None, (0, 2)), ("x", 0, ([1], [2]), None)]),
        ((2, 2, 2), [("x", 1, ([0, 2], [1, 0]), None), ("csum", [2, 0], None, None), ("h", 1, None, None), ("x", 0, ([1], [1]), None)]),
    ]):
        add(f"circuit/{i}/b", h_circuit, ov=BLOCKS, ring=144, dims=dims, layout=layout)
    return out
