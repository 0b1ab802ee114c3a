"""Shared pieces for the local compilation passes: symbolic unitaries, energy graphs, sequences of gates."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from mqt.qudits.core import LevelGraph
from mqt.qudits.quantum_circuit import QuantumCircuit

PI = spec.PI


def qr_order(d):
    """pairs of rows in the order in which columns are cleared bottom-up with neighbouring rows."""
    return [(r - 1, r) for c in range(d) for r in range(d - 1, c, -1)]


def ada_order(d):
    return [(r, r2) for r in range(d) for r2 in range(r + 1, d)]


def strata(n, kinds="0gp"):
    return ["".join(s) for s in itertools.product(kinds, repeat=n)]


def patterns(d, which):
    """zero patterns that occur when a column is cleared in the given order (the others only repeat them)."""
    import re

    out = [""]
    for c in range(d - 1):
        n = d - 1 - c
        col = [x for x in strata(n) if re.fullmatch("0*[gp]*" if which == "qr" else "0*p?[0g]*", x)]
        out = [a + b for a in out for b in col]
    return out


def unitary(ctx, d, pattern, order, diag=True, tag="u"):
    """product of inverse rotations in `order` times a diagonal; the pattern gives each angle's stratum:
    0 -> 0, p -> pi, h -> pi/2, g -> in (0.2pi, pi), m -> in (0.2pi, 0.8pi), s -> in (0, 0.2pi), a -> in (0, pi)."""
    m = spec.eye(d)
    for i, ((a, b), k) in enumerate(zip(order, pattern)):
        if k == "0":
            continue
        ph = ctx.angle(f"{tag}f{i}", -1, 1)
        th = PI if k == "p" else PI / 2 if k == "h" else ctx.angle(f"{tag}t{i}", 0.2 if k in "gm" else 0, 0.2 if k == "s" else 0.8 if k == "m" else 1, open_=True)
        m = m @ spec.dagger(spec.rot(d, a, b, th, ph))
    if diag:
        dm = spec.eye(d)
        for i in range(d):
            dm[i, i] = spec.expi(ctx.angle(f"{tag}d{i}", -1, 1))
        m = m @ dm
    return m


def tiny(ctx, d, kind):
    """an operator within a few hundredths of a phase or of a diagonal: one rotation or one phase by an angle of
    (-0.015pi, 0.015pi), the angle arbitrary and the strips around the thresholds of the code included."""
    k, *a = kind
    if k == "r":
        return spec.rot(d, a[0], a[1], ctx.angle("small", -0.015, 0.015), a[2] * PI / 12)
    m = spec.eye(d)
    m[a[0], a[0]] = spec.expi(ctx.angle("small", -0.015, 0.015))
    return m


def tinies(d):
    return [("r", a, b, f) for a in range(d) for b in range(a + 1, d) for f in (0, 7)] + [("p", i) for i in range(d)]


SHARP = 6e-4


def base_op(d, base):
    """a fixed permutation with phases the small angle comes on top of."""
    return spec.rot(d, 0, d - 1, PI, PI / 6) if base else spec.eye(d)


def graph(d, edges, mapping, circuit=None, ancilla=()):
    nodes = list(range(d))
    g = LevelGraph([(a, b, {"delta_m": 0, "sensitivity": 1}) for a, b in edges], nodes, list(mapping), [0], 0, circuit)
    return g


class Backend:
    """minimal stand-in holding the energy graphs of the qudits."""

    def __init__(self, graphs):
        self._g = list(graphs)

    @property
    def energy_level_graphs(self):
        return self._g


GRAPHS = {
    2: {"path": [(0, 1)]},
    3: {"path": [(0, 1), (1, 2)], "star1": [(0, 1), (0, 2)], "star2": [(0, 2), (1, 2)], "tri": [(0, 1), (1, 2), (0, 2)]},
    4: {"path": [(0, 1), (1, 2), (2, 3)], "star": [(0, 1), (0, 2), (0, 3)], "star3": [(3, 0), (3, 1), (3, 2)],
        "cycle": [(0, 1), (1, 2), (2, 3), (0, 3)], "zig": [(0, 2), (2, 1), (1, 3)], "bip": [(0, 2), (0, 3), (1, 2), (1, 3)]},
}


def snapshot(g):
    return (sorted((n, sorted((k, str(v)) for k, v in a.items() if k != "phase_storage")) for n, a in g.nodes(data=True)),
            sorted(tuple(sorted(e)) for e in g.edges))


def product(gates, d):
    m = spec.eye(d)
    for g in gates:
        m = g.to_matrix(identities=0) @ m
    return m


def circ(d, n=1):
    return QuantumCircuit(n, [d] * n, 0)


def same_angle(x):
    return x


# the reduction of angles in the gate constructors keeps the operator (decided by P01, P06 and P09); without it the
# paths do not split on the ranges of every phase
NO_REGULATE = {("mqt.qudits.quantum_circuit.gates.virt_rz", "regulate_theta"): same_angle}
NO_REGULATE_R = {**NO_REGULATE, ("mqt.qudits.quantum_circuit.gates.r", "regulate_theta"): same_angle}
