"""Registers and gate bookkeeping of a circuit."""
from __future__ import annotations

from engine.harness import Instance
from engine import spec
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.components import ClassicRegister, QuantumRegister
from props.gates import SINGLE, TWO

ENCODED = ["QuantumCircuit.__init__/append/append_classic/reset/copy/replace_gate/set_instructions/set_mapping",
           "add_gate_decorator", "QuantumRegister", "ClassicRegister"]
BOUNDS = "up to 3 registers of 1..3 lines, dimensions 2..4, every order of appending; up to 4 gates"


def h_regs(ctx, sizes, mixed):
    """symbolic dimensions; lines numbered consecutively in the order of appending."""
    regs = []
    want = []
    for r, n in enumerate(sizes):
        dims = [ctx.int(f"d{r}_{i}", 2, 5) for i in range(n)]
        want += dims
        regs.append(QuantumRegister(f"reg{r}", n, list(dims)))
    if mixed:
        c = QuantumCircuit(regs[0])
        rest = regs[1:]
    else:
        c = QuantumCircuit()
        rest = regs
    for r in rest:
        c.append(r)
    ctx.check(c.num_qudits == sum(sizes), "number of lines")
    ctx.check(len(c.dimensions) == sum(sizes), "number of dimensions")
    for a, b in zip(c.dimensions, want):
        ctx.check(a == b, "dimension of a line")
    k = 0
    for r, reg in enumerate(regs):
        for i in range(sizes[r]):
            ctx.check(reg[i] == k, "line of a register element")
            line, d = c.sitemap[f"reg{r}", i]
            ctx.check(line == k, "site map line")
            ctx.check(d == want[k], "site map dimension")
            ctx.check(c.inverse_sitemap[k] == (f"reg{r}", i), "inverse site map")
            k += 1
        ctx.check(reg[0:sizes[r]] == list(range(k - sizes[r], k)), "register slice")
    ctx.check(len(c.sitemap) == k and len(c.inverse_sitemap) == k, "no further lines")


def h_classic(ctx, sizes):
    c = QuantumCircuit(1, [2], 0)
    k = 0
    for r, n in enumerate(sizes):
        reg = ClassicRegister(f"m{r}", n)
        c.append_classic(reg)
        for i in range(n):
            ctx.check(reg[i] == k, "classical line of a register element")
            ctx.check(c.classic_site_map[f"m{r}", i] == (k,), "classical site map")
            ctx.check(c.cl_inverse_sitemap[k] == (f"m{r}", i), "classical inverse site map")
            k += 1
    ctx.check(c.num_cl == k, "number of classical lines")


def h_ctor(ctx, n, dims):
    c = QuantumCircuit(n, dims, 0)
    ctx.check(list(c.dimensions) == (list(dims) if dims else [2] * n), "dimensions")
    ctx.check(c.num_qudits == n, "number of lines")
    if dims:
        dims2 = list(dims)
        c2 = QuantumCircuit(n, dims2, 0)
        ctx.check(c2.dimensions == list(dims), "dimensions of a second circuit")
        ctx.check(c.dimensions == list(dims), "dimensions of the first circuit")


def build(ctx, c, kinds):
    gs, ms = [], []
    for i, (k, q) in enumerate(kinds):
        if k in SINGLE:
            g, m = SINGLE[k](ctx, c, q, f"g{i}", None, *([(0, 1)] if k in ("r", "rz", "rh", "noisex", "noisey") else [1] if k == "virtrz" else []))
            ms.append(spec.embed(c.dimensions, [q], m))
        else:
            g, m = TWO[k](ctx, c, list(q), f"g{i}", *([(0, 1, 1)] if k == "cx" else []))
            ms.append(spec.embed(c.dimensions, sorted(q), m))
        gs.append(g)
    return gs, ms


def h_instr(ctx, dims, kinds):
    """gates are recorded once each, in order, for the lines they were given."""
    c = QuantumCircuit(len(dims), list(dims), 0)
    gs, ms = build(ctx, c, kinds)
    ctx.check(len(c.instructions) == len(kinds) and c.number_gates == len(kinds), "number of gates")
    for g, h, m in zip(gs, c.instructions, ms):
        ctx.check(g is h, "order of gates")
        ctx.equal(h.to_matrix(identities=2), m, "operator of a gate")
    c.gellmann(0, [0, 1, "s"])
    ctx.check(c.number_gates == len(kinds), "generators are not recorded")
    # a copy is independent
    k = c.copy()
    ctx.check(k is not c and len(k.instructions) == len(kinds), "copy")
    for g, h, m in zip(c.instructions, k.instructions, ms):
        ctx.check(g is not h, "copied gates are new")
        ctx.equal(h.to_matrix(identities=2), m, "operator of a copied gate")
    k.instructions[0].dag()
    k.x(0)
    ctx.check(len(c.instructions) == len(kinds) and c.number_gates == len(kinds), "copy independent")
    ctx.equal(c.instructions[0].to_matrix(identities=2), ms[0], "operator after changing the copy")


def h_replace(ctx, dims, kinds, new):
    c = QuantumCircuit(len(dims), list(dims), 0)
    gs, _ = build(ctx, c, kinds)
    other = QuantumCircuit(len(dims), list(dims), 0)
    ns, _ = build(ctx, other, new)
    i = ctx.choice("i", range(len(kinds)))
    c.replace_gate(i, ns)
    want = gs[:i] + ns + gs[i + 1:]
    ctx.check(len(c.instructions) == len(want) and all(a is b for a, b in zip(c.instructions, want)), "replaced in place")
    ctx.check(c.number_gates == len(want), "number of gates after replacing")
    seq = list(ns)
    r = c.set_instructions(seq)
    ctx.check(r is c and len(c.instructions) == len(ns) and all(a is b for a, b in zip(c.instructions, ns)), "set instructions")
    ctx.check(c.number_gates == len(ns), "number of gates after setting")
    seq.append(None)
    ctx.check(len(c.instructions) == len(ns), "set instructions keeps its own list")
    c.set_mapping([[0, 1]])
    ctx.check(c.mappings == [[0, 1]], "mapping")
    c.reset()
    ctx.check(c.num_qudits == 0 and c.dimensions == [] and c.instructions == [] and c.number_gates == 0
              and not c.sitemap and not c.inverse_sitemap and c.num_cl == 0, "reset")


def instances(tier):
    out = []
    for s in ((1,), (2,), (3,), (1, 2), (2, 1), (3, 2), (1, 1, 2), (2, 2, 2)):
        for m in (False, True):
            out.append(Instance(f"regs/{s}/{m}", h_regs, sizes=s, mixed=m))
        out.append(Instance(f"classic/{s}", h_classic, sizes=s))
    for n, d in ((1, [3]), (2, [3, 2]), (3, [2, 4, 3]), (3, None), (1, None)):
        out.append(Instance(f"ctor/{n}/{d}", h_ctor, n=n, dims=d))
    seqs = [[("r", 0), ("cx", (1, 0)), ("virtrz", 1)], [("h", 1), ("csum", (0, 1)), ("x", 0), ("rz", 1)],
            [("cuone", 0), ("ls", (0, 1)), ("noisex", 1)], [("z", 0), ("ms", (1, 0)), ("rh", 1), ("pm", 0)]]
    for i, s in enumerate(seqs):
        for dims in ((2, 3), (3, 2)):
            out.append(Instance(f"instr/{i}/{dims}", h_instr, dims=dims, kinds=s))
        out.append(Instance(f"replace/{i}", h_replace, dims=(3, 3), kinds=s, new=seqs[(i + 1) % 4], max_paths=800))
        out.append(Instance(f"replace0/{i}", h_replace, dims=(3, 3), kinds=s, new=[], max_paths=800))
    return out
