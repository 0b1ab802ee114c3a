"""The tree of decomposition steps."""
from __future__ import annotations

import itertools

import numpy as np
from engine.harness import Instance
from mqt.qudits.core import NAryTree
from mqt.qudits.exceptions import NodeNotFoundError

ENCODED = ["NAryTree.add/find_node/depth/max_depth/size_refresh/total_size/found_checker/min_cost_decomp/retrieve_decomposition/is_empty", "Node.__init__/add"]
BOUNDS = "all trees of 1..5 nodes (thorough 6) and a selection with 6..8, with arbitrary real costs and arbitrary finished leaves"
ASSUMPTIONS = ["only leaves are marked as finished, as the decomposition search does"]


def build(ctx, parents, keys):
    t = NAryTree()
    n = len(parents) + 1
    cost = [ctx.real(f"c{i}", 0, 10) for i in range(n)]
    dec = [ctx.real(f"e{i}", 0, 10) for i in range(n)]
    rot = [f"rotation {i}" for i in range(n)]
    gr = [f"graph {i}" for i in range(n)]
    ctx.check(t.is_empty(), "a new tree is empty")
    t.add(keys[0], rot[0], None, gr[0], cost[0], dec[0], (0, 0), [])
    for i, p in enumerate(parents, 1):
        t.add(keys[i], rot[i], f"matrix {i}", gr[i], cost[i], dec[i], (i, i), [f"pulse {i}"], keys[p])
    ctx.check(not t.is_empty(), "a tree with nodes is not empty")
    return t, cost, dec, gr


def family(parents):
    n = len(parents) + 1
    kids = {i: [j for j, p in enumerate(parents, 1) if p == i] for i in range(n)}
    up = {0: [0]}
    for j, p in enumerate(parents, 1):
        up[j] = [*up[p], j]
    return n, kids, up


def height(kids, i):
    return 1 + max(height(kids, k) for k in kids[i]) if kids[i] else 0


def decide(ctx, parents, keys):
    n, kids, up = family(parents)
    t, cost, dec, gr = build(ctx, parents, keys)
    # shape
    ctx.check(t.size == n and t.total_size == n, "number of nodes", f"{t.size} {n}")
    for i in range(n):
        node = t.find_node(t.root, keys[i])
        ctx.check(node is not None and node.key == keys[i] and node.graph == gr[i] and node.rotation == f"rotation {i}", "a node is found by its key")
        ctx.check([k.key for k in node.children] == [keys[k] for k in kids[i]], "children of a node in order")
        ctx.check(t.depth(keys[i]) == height(kids, i), "depth below a node", f"{t.depth(keys[i])}")
        if i:
            ctx.check(node.parent_key == keys[parents[i - 1]] and node.PI_PULSES == [f"pulse {i}"] and node.u_of_level == f"matrix {i}", "content of a node")
    ctx.check(t.find_node(t.root, 12345) is None, "an unknown key is not found")
    _, e = ctx.raises(t.depth, 12345)
    ctx.check(isinstance(e, NodeNotFoundError), "depth of an unknown key")
    _, e = ctx.raises(t.add, 77, None, None, None, 0, 0, (0, 0), [], 12345)
    ctx.check(isinstance(e, NodeNotFoundError) and t.total_size == n, "adding below an unknown key")
    # result
    leaves = [i for i in range(n) if not kids[i]]
    fin = {}
    for i in leaves:
        fin[i] = ctx.bool(f"f{i}")
        if fin[i]:
            t.find_node(t.root, keys[i]).finished = True
    done = [i for i in leaves if fin[i]]
    path, best, graph = t.retrieve_decomposition(t.root)
    if not done:
        ctx.check(path == [] and best == (np.inf, np.inf), "nothing finished, nothing returned")
        return
    ends = [i for i in done if path and path[-1].key == keys[i]]
    ctx.check(len(ends) == 1, "the branch ends in a finished node")
    e = ends[0]
    ctx.check([x.key for x in path] == [keys[i] for i in up[e]], "the branch leads from the root to that node")
    ctx.close(best[0], cost[e], "cost reported")
    ctx.close(best[1], dec[e], "cost of the decomposition reported")
    ctx.check(graph == gr[e], "graph of the branch")
    for i in done:
        ctx.check(cost[e] <= cost[i], "no finished branch is cheaper")
    # asking again gives the same
    path2, best2, _ = t.retrieve_decomposition(t.root)
    ctx.check([x.key for x in path2] == [x.key for x in path], "the same branch when asked again")
    ctx.check(len(path) == len(up[e]), "the branch returned first is left as it was")


def trees(n):
    return itertools.product(*(range(i) for i in range(1, n)))


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, ps, keys=None):
        out.append(Instance(name, decide, parents=list(ps), keys=keys or list(range(len(ps) + 1)), points=1, seconds=600 if th else 60, max_paths=20000))

    for n in range(1, 7 if th else 6):
        for ps in trees(n):
            add(f"{n}/{''.join(map(str, ps)) or '-'}", ps)
    for ps in ((0, 0, 0, 0, 0), (0, 1, 2, 3, 4), (0, 0, 1, 1, 2), (0, 1, 1, 0, 4), (0, 0, 1, 2, 3, 4), (0, 0, 0, 1, 1, 3), (0, 1, 1, 3, 3, 0), (0, 1, 0, 3, 0, 5, 2)):
        add(f"x/{''.join(map(str, ps))}", ps, [(7 * i) % 11 for i in range(len(ps) + 1)])
    return out
