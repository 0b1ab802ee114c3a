"""Decision trees of states."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.core import micro_dd as dd


def frac(x):
    return Fraction(x).limit_denominator(10**7)


# ---- families of states: a shape is None (vanishing), "." (an amplitude) or a list of (class, shape) per child
def shapes(dims):
    """every pattern of vanishing amplitudes and of equal subtrees."""
    if not dims:
        return ["."]
    sub = shapes(dims[1:])
    leaf = len(dims) == 1
    out = []
    for nz in itertools.product((0, 1), repeat=dims[0]):
        k = sum(nz)
        if not k:
            continue
        for part in ([list(range(k))] if leaf else partitions(k)):
            for pick in itertools.product(sub, repeat=max(part) + 1):
                it = iter(part)
                node = []
                for x in nz:
                    if x:
                        cl = next(it)
                        node.append((cl, pick[cl]))
                    else:
                        node.append(None)
                out.append(tuple(node))
    return out


def partitions(k):
    def go(i, cur, m):
        if i == k:
            yield list(cur)
            return
        for x in range(m + 1):
            cur.append(x)
            yield from go(i + 1, cur, max(m, x + 1))
            cur.pop()

    return list(go(0, [], 0))


def text(shape):
    if shape == ".":
        return ""
    return "(" + "".join("0" if c is None else "abcdefgh"[c[0]] + text(c[1]) for c in shape) + ")"


def vector(ctx, dims, shape, wmode, phase):
    """amplitudes of a state of this shape with the weights of a node on the sphere."""
    cnt = [0]

    def angle(lo, hi):
        cnt[0] += 1
        if wmode[:4] == "tiny" and hi > 0:
            # one weight close to zero or one, the others equal
            return ctx.angle(f"t{cnt[0]}", *((0, 0.015) if wmode[4] == "0" else (0.485, 0.5)), True) if cnt[0] == int(wmode[5]) else spec.PI / 4
        return ctx.angle(f"t{cnt[0]}", lo, hi, True)

    def weights(k):
        if wmode == "equal":
            return [1 / math.sqrt(k)] * k if not ctx.symbolic else [np.sqrt(1 / k)] * k
        if wmode[0] == "q":
            # rational points of the sphere, one of them small
            cnt[0] += 1
            one, two = [1], [399 / 401, 40 / 401] if (cnt[0] + int(wmode[1])) % 2 else [40 / 401, 399 / 401]
            if int(wmode[1]) >= 2 and cnt[0] % 2:
                two = [3 / 5, 4 / 5]
            w = {1: one, 2: two, 3: [two[0], two[1] * 3 / 5, two[1] * 4 / 5]}[k]
            return [frac(x) for x in w] if ctx.symbolic else w
        out, rest = [], 1
        for _ in range(k - 1):
            a = angle(0.1, 0.4)
            out.append(rest * np.cos(a))
            rest = rest * np.sin(a)
        return [*out, rest]

    def go(i, sh):
        if i == len(dims):
            return [spec.expi(angle(-0.9, 0.9)) if phase else 1]
        size = int(np.prod(dims[i + 1:]))
        ws = iter(weights(sum(c is not None for c in sh)))
        seen = {}
        v = []
        for c in sh:
            if c is None:
                v += [0] * size
                continue
            if c[0] not in seen:
                seen[c[0]] = go(i + 1, c[1])
            w = next(ws)
            v += [w * x for x in seen[c[0]]]
        return v

    return go(0, shape)


ENCODED = ["MicroDDNode", "create_decision_tree", "build_decision_tree", "normalize", "get_node_contributions", "cut_branches", "remove_children", "normalize_all", "dd_approximation",
           "dd_reduction_hashing", "dd_reduction_aggregation", "dd_reduction", "count_nodes_after", "unique_weights"]
BOUNDS = ("registers of total dimension up to 6 (thorough 8): every pattern of vanishing amplitudes and of equal subtrees; weights of a node are cos and sin products of angles in (0.1pi,0.4pi), or all equal, "
          "or fixed rational points of the sphere (cutting), phases of the amplitudes arbitrary; norm 1 or 3/2; cutting with the tolerances 0.005, 0.01, 0.1, 0.3")
ASSUMPTIONS = ["equality of two subtree hashes is decided by the normal form of their weights; the instances enumerate which subtrees are equal",
               "cutting and contributions are decided for rational magnitudes with arbitrary phases, since they sort by probability"]


def paths(root, dims):
    """product of the weights along the path of every basis state; missing branches are zero."""
    out = []

    def go(node, i, w):
        if i == len(dims):
            out.append(w)
            return
        size = int(np.prod(dims[i + 1:]))
        if len(node.children) != dims[i]:
            out.extend([0] * size * dims[i])
            return
        for c in node.children:
            go(c, i + 1, w * c.weight)

    go(root, 0, root.weight)
    return out


def merged_paths(root, dims):
    """the same through the merged subtrees."""
    out = []

    def go(node, i, w):
        if i == len(dims):
            out.append(w)
            return
        size = int(np.prod(dims[i + 1:]))
        if len(node.children) != dims[i]:
            out.extend([0] * size * dims[i])
            return
        for k, c in enumerate(node.children):
            go(node.children[node.children_index[k]], i + 1, w * c.weight)

    go(root, 0, root.weight)
    return out


def nodes(root, dims, merged=False):
    """inner nodes with their depth and the basis states through them (merged: only representatives)."""
    out = []

    def go(node, i, lo, hi):
        if i == len(dims):
            return
        out.append((node, i, lo, hi))
        if len(node.children) == dims[i]:
            step = (hi - lo) // dims[i]
            for k, c in enumerate(node.children):
                if not merged or node.children_index[k] == k:
                    go(c, i + 1, lo + k * step, lo + (k + 1) * step)

    go(root, 0, 0, int(np.prod(dims)))
    return out


def arr(x):
    return np.array([0 + y for y in x], dtype=object) if any(hasattr(y, "n") or isinstance(y, Fraction) for y in x) else np.array(x, dtype=complex)


def abs2(x):
    return x * x.conjugate() if hasattr(x, "conjugate") else x * x


def sphere(ctx, root, dims, label):
    for node, i, _, _ in nodes(root, dims):
        if len(node.children) == dims[i]:
            ctx.equal(arr([sum(abs2(c.weight) for c in node.children)]), arr([1]), f"{label}: weights of a node are normalized")


def make(ctx, dims, shape, wmode, phase, scale=False):
    vec = vector(ctx, dims, shape, wmode, phase)
    if scale:
        vec = [(Fraction(3, 2) if ctx.symbolic else 1.5) * x for x in vec]
    vec = [0 + x if ctx.symbolic and not hasattr(x, "n") else x for x in vec]
    labels = list(range(len(dims)))
    data = np.array([x + 0 * spec.expi(0) for x in vec], dtype=object) if ctx.symbolic else np.array(vec, dtype=complex)
    root, count = dd.create_decision_tree(labels, list(dims), data)
    return vec, root, count


def h_tree(ctx, dims, shape, wmode, phase, scale):
    vec, root, count = make(ctx, dims, shape, wmode, phase, scale)
    n, total = 1, 1
    for d in dims:
        n *= d
        total += n
    ctx.check(count == [total], "number of nodes of the full tree", str(count))
    ctx.equal(arr(paths(root, dims)), arr(vec), "weights along the paths")
    sphere(ctx, root, dims, "tree")
    ctx.equal(arr([root.weight * root.weight]), arr([sum(abs2(x) for x in vec)]), "weight of the root is the norm")
    for node, i, lo, hi in nodes(root, dims):
        if len(node.children) != dims[i]:
            for x in vec[lo:hi]:
                ctx.equal(arr([x]), arr([0]), "amplitudes below a closed branch")
        if i:
            ctx.check(node.value == i - 1, "line of a node", str(node.value))
    ws = dd.unique_weights(root)
    for node, i, _, _ in nodes(root, dims):
        for c in node.children:
            ctx.check(c.weight in ws, "set of weights")
    # merging of equal subtrees
    same = dd.dd_reduction(root, list(dims))
    ctx.check(same is root, "reduction in place")
    ctx.equal(arr(paths(root, dims)), arr(vec), "weights along the paths after reduction")
    ctx.equal(arr(merged_paths(root, dims)), arr(vec), "weights along the paths through merged subtrees")
    for node, i, lo, hi in nodes(root, dims, merged=True):
        if len(node.children) != dims[i]:
            continue
        idx = node.children_index
        ctx.check(len(idx) == dims[i] and all(idx[j] == j for j in idx) and all(j <= k for k, j in enumerate(idx)), "representatives of the children", str(idx))
        live = [k for k, c in enumerate(node.children) if abs(c.weight) != 0]
        ctx.check(node.reduced == (len(live) > 1 and len({idx[k] for k in live}) == 1), "a node is reduced when its live children agree", f"{idx} {live} {node.reduced}")
    if wmode == "equal" and not scale:
        shared(ctx, root, shape)
    # nodes left
    left = [0]
    dd.count_nodes_after(root, left, list(dims))

    def want(node, i):
        if i == len(dims) or len(node.children) != dims[i]:
            return 1
        live = [k for k, c in enumerate(node.children) if abs(c.weight) != 0]
        ks = [node.children_index[k] for k in live]
        if len(live) > 1 and len(set(ks)) == 1:
            return 1 + want(node.children[ks[0]], i + 1)
        return 1 + sum(want(node.children[node.children_index[k]], i + 1) for k in range(dims[i]))

    ctx.check(left == [want(root, 0)], "number of nodes after the reduction", str(left))


def shared(ctx, node, shape):
    """children with the same amplitudes have the same representative."""
    if shape == ".":
        return
    for a, (k, x) in enumerate(zip(node.children_index, shape)):
        for b, y in enumerate(shape):
            if x is not None and y is not None and x[0] == y[0] and x[1] != ".":
                ctx.check(node.children_index[b] == k, "equal children share a representative", f"{node.children_index} {a} {b}")
    for k, (x, c) in enumerate(zip(shape, node.children)):
        if x is not None and node.children_index[k] == k:
            shared(ctx, c, x[1])


def num(x):
    """a probability without unknowns as a number."""
    return x if isinstance(x, (int, float, Fraction)) else complex(x).real


def h_cut(ctx, dims, shape, wmode, tol, local):
    vec, root, _ = make(ctx, dims, shape, wmode, True)
    pr = [num(abs2(x)) for x in vec]
    labels = list(range(len(dims)))
    contrib = dd.get_node_contributions(root, labels)
    ctx.check(len(contrib) == len(dims), "one list of contributions per line")
    seen = {}
    for k, lst in enumerate(contrib):
        ps = [num(p) for _, p in lst]
        ctx.check(all(x <= y + 1e-12 for x, y in zip(ps, ps[1:])), "contributions in ascending order")
        for node, p in lst:
            ctx.check(id(node) not in seen, "a node is listed once")
            seen[id(node)] = (k, num(p))
    for node, i, lo, hi in nodes(root, dims):
        if len(node.children) != dims[i]:
            continue
        step = (hi - lo) // dims[i]
        for k, c in enumerate(node.children):
            p = sum(pr[lo + k * step:lo + (k + 1) * step])
            ctx.check((id(c) in seen) == (p > 1e-15), "nodes of non-zero probability are listed")
            if id(c) in seen:
                ctx.check(seen[id(c)][0] == i and abs(seen[id(c)][1] - p) < 1e-9, "contribution of a node", f"{seen[id(c)]} {i} {p}")
    # edges below the local tolerance
    small = set()
    for node, i, lo, hi in nodes(root, dims):
        if len(node.children) == dims[i]:
            step = (hi - lo) // dims[i]
            for k, c in enumerate(node.children):
                if num(abs2(c.weight)) < tol - 1e-9:
                    small |= set(range(lo + k * step, lo + (k + 1) * step))
                elif abs(num(abs2(c.weight)) - tol) < 1e-9:
                    ctx.assume(False)
    if local:
        dd.dd_approximation(root, list(dims), tol)
    else:
        dd.cut_branches(contrib, tol)
        dd.normalize_all(root, list(dims))
    got = paths(root, dims)
    kept = [k for k, x in enumerate(got) if not is_zero(x)]
    for k, x in enumerate(got):
        if is_zero(x):
            continue
        ctx.equal(arr([x]), arr([vec[k]]), "amplitudes that remain are the original ones")
    gone = sum(p for k, p in enumerate(pr) if k not in kept)
    if local:
        ctx.check({k for k, p in enumerate(pr) if p > 1e-15 and k not in kept} == {k for k in small if pr[k] > 1e-15}, "branches below the tolerance are removed", f"{kept} {small}")
    else:
        ctx.check(gone < tol + 1e-12, "probability removed", str(gone))
        # nothing more could go: the least likely of the remaining amplitudes would exceed the tolerance
        if len(dims) == 1 and kept:
            ctx.check(gone + min(pr[k] for k in kept) >= tol - 1e-12, "branches are removed up to the tolerance")
    ctx.equal(arr([root.weight * root.weight]), arr([Fraction(0) + sum(abs2(vec[k]) for k in kept)]), "weight of the root is the norm that remains")
    if kept:
        sphere(ctx, root, dims, "after cutting")


def is_zero(x):
    return x.is_zero() if hasattr(x, "is_zero") else abs(x) < 1e-14


def instances(tier):
    out = []

    def add(name, f, /, **kw):
        out.append(Instance(name, f, **kw))

    th = tier == "thorough"
    for dims in ((2,), (3,), (2, 2), (2, 3), (3, 2)) + (((4,), (5,), (2, 4), (4, 2), (2, 2, 2)) if th else ()):
        for j, shape in enumerate(shapes(dims)):
            for wmode in ("free", "equal"):
                add(f"tree/{''.join(map(str, dims))}/{text(shape)}/{wmode}", h_tree, dims=dims, shape=shape, wmode=wmode, phase=(wmode == "free"), scale=False)
            if th or j % 5 == 0:
                add(f"tree/{''.join(map(str, dims))}/{text(shape)}/norm", h_tree, dims=dims, shape=shape, wmode="equal", phase=True, scale=True)
    for dims in ((2,), (3,), (2, 2), (2, 3)) + (((3, 2), (2, 2, 2)) if th else ()):
        for j, shape in enumerate(shapes(dims)):
            for k in range(4):
                for t, tol in enumerate((0.005, 0.01, 0.1, 0.3)):
                    for local in (False, True):
                        if th or (j + k + t + local) % 4 == 0 or len(dims) == 1:
                            add(f"cut/{''.join(map(str, dims))}/{text(shape)}/q{k}/{tol}{'/local' if local else ''}", h_cut, dims=dims, shape=shape, wmode=f"q{k}", tol=tol, local=local)
    return out
