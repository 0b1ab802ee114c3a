"""Building blocks of the entangling compilation."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.twodit.blocks.crot import CRotGen
from mqt.qudits.compiler.twodit.blocks.czrot import CZRotGen
from mqt.qudits.compiler.twodit.blocks.pswap import PSwapGen
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.gates import CEx, R, Rh, Rz, VirtRz
from props import localutil as lu

ENCODED = ["CRotGen.permute_crot_101_as_list/crot_101_as_list", "PSwapGen.permute_pswap_101_as_list/pswap_101_as_list_phases/_no_phases",
           "CZRotGen.z_from_crot_101_list/z_pswap_101_as_list", "Gate.to_matrix of R, Rz, Rh, VirtRz, CEx", "MatrixFactory.generate_matrix"]
BOUNDS = "dimension pairs from 2..4 (thorough 2..5), both line orders, every row index, theta in (-4pi,4pi), phase in (-2pi,2pi)"
ASSUMPTIONS = ["angle regulation inside the gate constructors keeps the operator (decided by P01, P06, P09)"]
NO_REG = {**lu.NO_REGULATE_R, ("mqt.qudits.quantum_circuit.gates.rz", "regulate_theta"): lu.same_angle}


def rows(i, dims, idx, reg):
    """global basis states of the rows i and i+1 of the block, for every state of the other lines."""
    dt = dims[idx[1]]
    others = [q for q in range(len(dims)) if q not in idx]
    out = []
    for rest in itertools.product(*(range(dims[q]) for q in others)):
        pair = []
        for j in (i, i + 1):
            lv = dict(zip(others, rest))
            lv[idx[0]], lv[idx[1]] = divmod(j, dt)
            n = 0
            for q, d in enumerate(dims):
                n = n * d + lv[q]
            pair.append(n)
        out.append(pair)
    return out


def op(dims, idx, i, kind, theta, phi):
    n = int(np.prod(dims))
    m = spec.eye(n)
    for a, b in rows(i, dims, idx, None):
        if kind == "rot":
            r = spec.rot(2, 0, 1, theta, phi)
            m[a, a], m[a, b], m[b, a], m[b, b] = r[0, 0], r[0, 1], r[1, 0], r[1, 1]
        else:
            m[a, a], m[b, b] = spec.expi(-theta / 2), spec.expi(theta / 2)
    return m


def decide(ctx, c, seq, dims, idx, want):
    m = spec.eye(int(np.prod(dims)))
    for g in seq:
        ctx.check(isinstance(g, (R, Rz, Rh, VirtRz, CEx)), "elementary gates only", type(g).__name__)
        ctx.check(set(g.reference_lines) <= set(idx), "lines of a gate", str(g.reference_lines))
        m = g.to_matrix(identities=2) @ m
    ctx.equal(m, want, "operator of the block")
    ctx.check(len(c.instructions) == 0, "the circuit is left alone")


def h_block(ctx, dims, idx, i, kind):
    c = QuantumCircuit(len(dims), list(dims), 0)
    theta = ctx.angle("theta", -4, 4)
    phi = ctx.angle("phi", -2, 2) if kind in ("crot", "pswap") else None
    if kind == "crot":
        seq = CRotGen(c, list(idx)).permute_crot_101_as_list(i, theta, phi)
    elif kind == "pswap":
        seq = PSwapGen(c, list(idx)).permute_pswap_101_as_list(i, theta, phi)
    elif kind == "zrot":
        seq = CZRotGen(c, list(idx)).z_from_crot_101_list(i, theta)
    else:
        seq = CZRotGen(c, list(idx)).z_pswap_101_as_list(i, theta)
    decide(ctx, c, seq, dims, idx, op(dims, idx, i, "rot" if phi is not None else "z", theta, phi))


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, ov=NO_REG, **kw):
        out.append(Instance(name, f, overrides=ov, seconds=600 if th else 100, max_paths=2000 if th else 300, **kw))

    top = 6 if th else 5
    for d1, d2 in itertools.product(range(2, top), repeat=2):
        for idx in ((0, 1), (1, 0)):
            dims = (d1, d2)
            dt = dims[idx[1]]
            for i in range(d1 * d2 - 1):
                cross = (i + 1) % dt == 0
                for kind in ("pswap", "zswap") if cross else ("crot", "zrot"):
                    if not th and idx == (1, 0) and d1 * d2 > 9:
                        continue
                    add(f"{kind}/{d1}{d2}/{idx[0]}{idx[1]}/{i}", h_block, ring=48, dims=dims, idx=idx, i=i, kind=kind)
    for dims, idx in (((2, 3, 2), (0, 2)), ((2, 2, 3), (2, 0)), ((3, 2, 2), (1, 2)), ((2, 2, 2), (0, 1))):
        n = dims[idx[0]] * dims[idx[1]]
        for i in range(n - 1):
            cross = (i + 1) % dims[idx[1]] == 0
            add(f"three/{''.join(map(str, dims))}/{idx[0]}{idx[1]}/{i}", h_block, dims=dims, idx=idx, i=i, kind="pswap" if cross else "crot")
    # the real angle regulation
    for kind, i in (("crot", 0), ("zrot", 2), ("pswap", 1), ("zswap", 1)):
        add(f"reg/{kind}", h_block, ov=lu.NO_REGULATE, dims=(2, 2), idx=(0, 1), i=i, kind=kind)
    return out
