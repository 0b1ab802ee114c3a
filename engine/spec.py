"""Reference definitions, written from the textbook conventions and independent of the code under test.

The same code runs on plain numbers and, when the shim is active, on symbolic ones.
"""
from __future__ import annotations

import itertools

import numpy as np

PI = float(np.pi)


def zeros(n, m=None):
    return np.zeros((n, n if m is None else m), dtype=complex)


def eye(n):
    return np.eye(n, dtype=complex)


def expi(x):
    return np.exp(1j * x)


def dagger(m):
    return m.conj().T


def rot(d, a, b, theta, phi):
    """exp(-i theta/2 (cos phi X_ab + sin phi Y_ab)) with a < b."""
    m = eye(d)
    c, s = np.cos(theta / 2), np.sin(theta / 2)
    m[a, a] = c
    m[b, b] = c
    m[a, b] = -1j * s * expi(-phi)
    m[b, a] = -1j * s * expi(phi)
    return m


def rz(d, a, b, phi):
    m = eye(d)
    m[a, a] = expi(-phi / 2)
    m[b, b] = expi(phi / 2)
    return m


def virtrz(d, a, phi):
    m = eye(d)
    m[a, a] = expi(-phi)
    return m


def embed(dims, lines, u):
    """u acts on `lines` (first one most significant); identity elsewhere; line 0 most significant."""
    n = int(np.prod(dims))
    out = zeros(n)
    sub = [dims[x] for x in lines]
    rest = [i for i in range(len(dims)) if i not in lines]
    strides = []
    acc = 1
    for d in reversed(dims):
        strides.insert(0, acc)
        acc *= d

    def idx(digs, ls):
        return sum(strides[k] * v for k, v in zip(ls, digs))

    states = list(itertools.product(*[range(d) for d in sub]))
    for r in itertools.product(*[range(dims[k]) for k in rest]):
        off = idx(r, rest)
        for i, si in enumerate(states):
            for j, sj in enumerate(states):
                out[off + idx(si, lines), off + idx(sj, lines)] = u[i, j]
    return out


def controlled(dims, ctrl, levels, lines, u):
    """u on `lines` when every control line holds its level, identity otherwise (on the whole register)."""
    n = int(np.prod(dims))
    full = embed(dims, lines, u)
    out = eye(n)
    states = list(itertools.product(*[range(d) for d in dims]))
    on = [all(s[c] == v for c, v in zip(ctrl, levels)) for s in states]
    for i in range(n):
        for j in range(n):
            if on[i] and on[j]:
                out[i, j] = full[i, j]
    return out


def perm_matrix(p):
    """column k of the result is the basis vector p[k]."""
    m = zeros(len(p))
    for k, v in enumerate(p):
        m[v, k] = 1.0
    return m


def product(ms, n):
    """the operator of applying ms in order: last one leftmost."""
    out = eye(n)
    for m in ms:
        out = m @ out
    return out


def cex(d0, d1, a, b, c, phi, first=True):
    """controlled exchange with matrix on (control, target); first=False puts the target line first."""
    n = d0 * d1
    e = eye(d1)
    e[a, a] = 0.0
    e[b, b] = 0.0
    e[a, b] = -1j * expi(-phi)
    e[b, a] = -1j * expi(phi)
    out = zeros(n)
    for i in range(d0):
        blk = e if i == c else eye(d1)
        for x in range(d1):
            for y in range(d1):
                if first:
                    out[i * d1 + x, i * d1 + y] = blk[x, y]
                else:
                    out[x * d0 + i, y * d0 + i] = blk[x, y]
    return out


def circuit(dims):
    """a circuit on len(dims) qudits through the public interface."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    return QuantumCircuit(len(dims), list(dims), 0)


def gate_local(gate):
    """the matrix a gate reports for its own lines."""
    return gate.to_matrix(identities=0)


def state_index(dims, s):
    k = 0
    for d, v in zip(dims, s):
        k = k * d + v
    return k


def all_states(dims):
    return list(itertools.product(*[range(d) for d in dims]))
