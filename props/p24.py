"""Reduced states, counts and remapping of results."""
from __future__ import annotations

import itertools
import math

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.visualisation import mini_quantum_information as mq
from mqt.qudits.visualisation import plot_information as pi

ENCODED = ["get_density_matrix_from_counts", "partial_trace", "remap_result", "state_labels", "plot_state", "plot_counts", "from_dirac_to_basis"]
BOUNDS = ("registers of 1..4 lines with dimensions 2..4 (11 and 12 for counts), every set of kept lines (in register order), every placement; arbitrary complex matrices and vectors; arbitrary counts adding up to 100")
ASSUMPTIONS = ["drawing itself (matplotlib) is replaced by a recorder", "counting the shots (collections.Counter) is that of Python for symbolic counts; counterexamples are replayed with lists of shots"]
M = "mqt.qudits.visualisation.mini_quantum_information"


class Recorder:
    seen: list = []

    def __init__(self, labels, counts, errors, title="", xlabel="", ylabel=""):
        self.args = (labels, counts, errors)

    def generate_histogram(self):
        Recorder.seen.append(self.args)


def digits(dims):
    return list(itertools.product(*[range(d) for d in dims]))


def h_trace(ctx, dims, keep, order):
    n = math.prod(dims)
    rho = np.array([[ctx.cplx(f"r{a}_{b}") for b in range(n)] for a in range(n)])
    before = rho.copy()
    got = mq.partial_trace(rho, list(order), list(dims))
    kd = [dims[i] for i in keep]
    m = math.prod(kd)
    want = spec.zeros(m)
    ds = digits(dims)
    pos = {x: i for i, x in enumerate(digits(kd))}
    for a, x in enumerate(ds):
        for b, y in enumerate(ds):
            if all(x[i] == y[i] for i in range(len(dims)) if i not in keep):
                i, j = pos[tuple(x[k] for k in keep)], pos[tuple(y[k] for k in keep)]
                want[i, j] = want[i, j] + rho[a, b]
    ctx.equal(got, want, "partial trace")
    ctx.equal(rho, before, "the argument is unchanged")


def counts_for(ctx, n):
    """counts adding up to 100; symbolic ones reach the code through Counter, concrete ones as a list of shots."""
    cs = [ctx.real(f"c{i}", 0, 100) for i in range(n - 1)]
    if ctx.symbolic:
        ctx.assume(sum(cs) <= 100)
        cs.append(100 - sum(cs))
        return cs, [0] * 100
    cs = [round(x) for x in cs]
    while sum(cs) > 100:
        cs[cs.index(max(cs))] -= 1
    cs.append(100 - sum(cs))
    shots = [i for i, k in enumerate(cs) for _ in range(k)]
    return cs, shots[1::2] + shots[::2]


def h_counts(ctx, dims):
    n = math.prod(dims)
    c = QuantumCircuit(len(dims), list(dims), 0)
    cs, shots = counts_for(ctx, n)
    keep = mq.Counter
    if ctx.symbolic:
        mq.Counter = lambda _: dict(enumerate(cs))
    try:
        rho = mq.get_density_matrix_from_counts(shots, c)
    finally:
        mq.Counter = keep
    want = spec.zeros(n)
    for i in range(n):
        want[i, i] = cs[i] / 100
    ctx.equal(rho, want, "density matrix of the counts")


def mapped(dims, maps, x):
    return tuple(m[i] for m, i in zip(maps, x))


def h_remap(ctx, dims, maps, kind):
    n = math.prod(dims)
    c = QuantumCircuit(len(dims), list(dims), 0)
    if maps is not None:
        c.set_mapping([list(m) for m in maps])
    v = [ctx.real(f"v{i}", 0, 1) if kind == "counts" else ctx.cplx(f"v{i}") for i in range(n)]
    arg = list(v) if kind == "counts" else np.array([v] if kind == "row" else v)
    got = np.asarray(pi.remap_result(arg, c))
    ds = digits(dims)
    pos = {x: i for i, x in enumerate(ds)}
    want = [v[pos[mapped(dims, maps or [range(d) for d in dims], x)]] for x in ds]
    ctx.equal(got, np.array([want] if kind == "row" else want), "result of the logical level is that of the physical one")
    ctx.equal(np.array(arg), np.array([v] if kind == "row" else v), "the argument is unchanged")


def h_plot(ctx, dims, maps):
    n = math.prod(dims)
    c = QuantumCircuit(len(dims), list(dims), 0)
    if maps is not None:
        c.set_mapping([list(m) for m in maps])
    ds = digits(dims)
    pos = {x: i for i, x in enumerate(ds)}
    old = pi.HistogramWithErrors
    pi.HistogramWithErrors = Recorder
    Recorder.seen.clear()
    try:
        ph = [spec.expi(ctx.angle(f"a{i}", -1, 1)) for i in range(n)]
        am = [ctx.real(f"m{i}", 0.01, 1) for i in range(n)]
        out = pi.plot_state(np.array([[x * y for x, y in zip(am, ph)]]), c)
        order = [pos[mapped(dims, maps or [range(d) for d in dims], x)] for x in ds]
        ctx.equal(np.asarray(out) ** 2, np.array([am[i] ** 2 for i in order]), "magnitudes of the logical state")
        shots = [i for i in range(n) for _ in range(i * i % 7)]
        out2 = pi.plot_counts(shots, c)
        ctx.equal(np.asarray(out2), np.array([float(i * i % 7) for i in order]), "counts of the logical state")
        for (labels, counts, _), res in zip(Recorder.seen, (out, out2)):
            ctx.check(list(labels) == ["".join(map(str, x)) for x in ds], "labels are the digits of the basis states")
            ctx.equal(np.asarray(counts), np.asarray(res), "values drawn")
        ctx.check(len(Recorder.seen) == 2, "one histogram for each call")
    finally:
        pi.HistogramWithErrors = old


def placements(dims, full):
    ps = [list(itertools.permutations(range(d))) for d in dims]
    al = list(itertools.product(*ps))
    if full or len(al) <= 40:
        return al
    return al[::max(1, len(al) // 40)]


def instances(tier):
    out = []
    th = tier == "thorough"
    for dims in ((2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 4), (4, 3), (5, 2), (2, 2, 2, 2)) + (((2, 3, 4), (2, 5, 2), (3, 4, 2), (2, 3, 2, 2)) if th else ()):
        for k in range(len(dims) + 1):
            for keep in itertools.combinations(range(len(dims)), k):
                if k:
                    order = keep
                    out.append(Instance(f"trace/{''.join(map(str, dims))}/{''.join(map(str, order))}", h_trace, dims=dims, keep=keep, order=order))
    for dims in ((2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (11,), (2, 11), (12,)) + (((11, 2), (4, 3), (2, 3, 2), (3, 11)) if th else ()):
        out.append(Instance(f"counts/{'.'.join(map(str, dims))}", h_counts, dims=dims))
    for dims in ((2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 3, 2)) + (((5,), (4, 3), (3, 2, 3), (2, 4, 2)) if th else ()):
        for maps in [None, *placements(dims, th)]:
            t = "none" if maps is None else "-".join("".join(map(str, m)) for m in maps)
            for kind in ("row", "flat", "counts"):
                out.append(Instance(f"remap/{t}/{''.join(map(str, dims))}/{kind}", h_remap, dims=dims, maps=maps, kind=kind))
    for dims in ((2,), (3,), (2, 3), (3, 2)):
        for maps in [None, *placements(dims, th)]:
            t = "none" if maps is None else "-".join("".join(map(str, m)) for m in maps)
            out.append(Instance(f"plot/{t}/{''.join(map(str, dims))}", h_plot, dims=dims, maps=maps))
    return out
