"""Energy-level graphs, placements and routing."""
from __future__ import annotations

import itertools

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.compilation_minitools import local_compilation_minitools as lm
from mqt.qudits.compiler.onedit.local_operation_swap import swap_routine as sr
from mqt.qudits.core import LevelGraph
from mqt.qudits.quantum_circuit.gates import R, VirtRz
from props import localutil as lu

ENCODED = ["LevelGraph.__init__/swap_nodes/swap_node_attributes/update_list/swap_node_attr_simple/distance_nodes/log_phy_map/fst_inode/is_irnode/get_vrz_gates",
           "route_states2rotate_basic", "cost_calculator", "gate_chain_condition", "graph_rule_ongate", "graph_rule_update", "find_logic_from_phys", "rotation_cost_calc", "R"]
BOUNDS = ("all connected labelled graphs on 2..4 nodes (4 nodes: quick uses 3 placements each, thorough all 24), every initial node for up to 3 nodes, every pair of levels; "
          "stored phases in (0.1pi,1.9pi), rotation angles symbolic")
ASSUMPTIONS = ["angle regulation keeps the operator (P01, P06, P09)", "shortest paths are those of networkx, run concretely on each graph"]


def connected(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(n - 1, len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            seen, todo = {0}, [0]
            while todo:
                x = todo.pop()
                for a, b in es:
                    for u, v in ((a, b), (b, a)):
                        if u == x and v not in seen:
                            seen.add(v)
                            todo.append(v)
            if len(seen) == n:
                yield es


def make(ctx, c, d, edges, mapping, init, phases):
    es = [(a, b, {"delta_m": i, "sensitivity": i + 1}) for i, (a, b) in enumerate(edges)]
    g = LevelGraph(es, list(range(d)), list(mapping), [init], 0, c)
    ph = {}
    if phases:
        g.phase_storing_setup()
        for i in range(d):
            ph[mapping[i]] = ctx.angle(f"s{i}", 0.1, 1.9)
            g.nodes[i]["phase_storage"] = ph[mapping[i]]
    return g, ph


def coupling(g):
    """the physical device behind the placement: weights, role and phase of the physical levels."""
    e = {tuple(sorted((g.nodes[a]["lpmap"], g.nodes[b]["lpmap"]))): (x["delta_m"], x["sensitivity"]) for a, b, x in g.edges(data=True)}
    return sorted(e.items()), sorted((x["lpmap"], x["level"]) for _, x in g.nodes(data=True))


def same_device(ctx, g0, g1, ph, label):
    ctx.check(coupling(g0) == coupling(g1), f"{label}: physical couplings, weights and roles", f"{coupling(g0)} {coupling(g1)}")
    ctx.check(sorted(g1.nodes) == sorted(g0.nodes), f"{label}: nodes")
    for _, x in g1.nodes(data=True):
        if ph:
            ctx.equal(np.array([spec.expi(x["phase_storage"])]), np.array([spec.expi(ph[x["lpmap"]])]), f"{label}: phase of a physical level")


def bfs(edges, src):
    dist, todo = {src: 0}, [src]
    while todo:
        x = todo.pop(0)
        for a, b in edges:
            for u, v in ((a, b), (b, a)):
                if u == x and v not in dist:
                    dist[v] = dist[x] + 1
                    todo.append(v)
    return dist


def full(g):
    return coupling(g), [(n, sorted((k, v) for k, v in x.items() if k != "phase_storage")) for n, x in sorted(g.nodes(data=True))]


def h_swap(ctx, d, edges, mapping, init):
    c = lu.circ(d)
    g, ph = make(ctx, c, d, edges, mapping, init, True)
    a, b = int(ctx.choice("a", range(d))), int(ctx.choice("b", range(d)))
    ctx.assume(a != b)
    before = full(g)
    h = g.swap_nodes(a, b)
    ctx.check(full(g) == before, "swapping leaves the graph as it was")
    same_device(ctx, g, g, ph, "original")
    want = list(mapping)
    want[a], want[b] = want[b], want[a]
    ctx.check(h.log_phy_map == want, "placement after a swap", f"{h.log_phy_map} {want}")
    ctx.check(g.log_phy_map == list(mapping), "placement before a swap")
    same_device(ctx, g, h, ph, "swapped")
    back = h.swap_nodes(a, b)
    ctx.check(full(back) == before, "swapping twice restores the graph")
    k = int(ctx.choice("k", range(d)))
    if k != a:
        h2 = h.swap_nodes(a, k)
        want[a], want[k] = want[k], want[a]
        ctx.check(h2.log_phy_map == want, "placement after two swaps")
        same_device(ctx, g, h2, ph, "swapped twice")
    # distances on the placement are those of the device
    dist = {p: bfs([k for k, _ in coupling(g)[0]], p) for p in range(d)}
    for x in range(d):
        for y in range(d):
            ctx.check(g.distance_nodes(x, y) == dist[mapping[x]][mapping[y]], "distance of levels")
            ctx.check(h.distance_nodes(x, y) == dist[h.log_phy_map[x]][h.log_phy_map[y]], "distance of levels after a swap")
        ctx.check(sr.find_logic_from_phys(mapping[x], h.log_phy_map[x], g) == [x, list(mapping).index(h.log_phy_map[x])], "logical level on a physical one")
    ctx.check(h.nodes[h.fst_inode]["lpmap"] == mapping[init], "ground level of the device")
    # exchanging only the stored phases
    g.swap_node_attr_simple(a, b)
    ph2 = dict(ph)
    ph2[mapping[a]], ph2[mapping[b]] = ph2[mapping[b]], ph2[mapping[a]]
    same_device(ctx, h, g, ph2, "phases exchanged")
    ctx.check(g.log_phy_map == list(mapping), "placement after exchanging phases")


def diag(d, ph):
    m = spec.eye(d)
    for i in range(d):
        m[i, i] = spec.expi(-ph.get(i, 0))
    return m


def h_route(ctx, d, edges, mapping, init, phases):
    c = lu.circ(d)
    g, ph = make(ctx, c, d, edges, mapping, init, phases)
    s, t = int(ctx.choice("s", range(d))), int(ctx.choice("t", range(d)))
    ctx.assume(s != t)
    th, phi = ctx.angle("th", 0.2, 0.9), ctx.angle("phi", -1, 1)
    gate = R(c, "R", 0, [s, t, th, phi], d)
    before = full(g)
    total, pulses, new, pcost, gcost = sr.cost_calculator(gate, g, 3)
    ctx.check(full(g) == before, "routing leaves the graph as it was")
    same_device(ctx, g, g, ph, "original")
    same_device(ctx, g, new, ph, "routed")
    # couplings, neighbours, length
    cp = [k for k, _ in coupling(g)[0]]
    dist = {p: bfs(cp, p) for p in range(d)}
    for x in pulses:
        ctx.check(isinstance(x, R) and x.target_qudits == 0, "pulses are rotations")
        ctx.check(tuple(sorted((x.lev_a, x.lev_b))) in cp, "pulse on an allowed transition", f"{x.lev_a} {x.lev_b}")
    nm = new.log_phy_map
    ctx.check(sorted(nm) == list(range(d)), "placement is a permutation")
    ctx.check(tuple(sorted((nm[s], nm[t]))) in cp, "levels are neighbours after routing", f"{nm} {s} {t}")
    ctx.check(len(pulses) == dist[mapping[s]][mapping[t]] - 1, "number of pulses is the distance less one", str(len(pulses)))
    m = lu.product(pulses, d)
    for lv in range(d):
        z = m[nm[lv], mapping[lv]]
        ctx.close(z * z.conjugate(), 1.0, "pulses move every level to its new place")
    # stored phases are compensated by the pulses
    if phases:
        g0, _ = make(ctx, c, d, edges, mapping, init, False)
        _, bare, _, _, _ = sr.cost_calculator(gate, g0, 3)
        dm = diag(d, ph)
        ctx.equal(m, spec.dagger(dm) @ lu.product(bare, d) @ dm, "pulses under stored phases")
    # undone step by step
    h = new
    for x in reversed(pulses):
        a, b = sr.find_logic_from_phys(x.lev_a, x.lev_b, h)
        h = h.swap_nodes(a, b)
    ctx.check(h.log_phy_map == list(mapping), "undoing the swaps restores the placement")
    # cost
    i0 = mapping[init]

    def penalty(p, q):
        return min(dist[i0][p], dist[i0][q]) + 1

    want = 0
    for x in pulses:
        want = want + penalty(x.lev_a, x.lev_b) * lm.theta_cost(x.theta)
    ctx.close(pcost * 1e4, want * 1e4, "cost of the pulses")
    ctx.close(gcost * 1e4, penalty(nm[s], nm[t]) * lm.theta_cost(gate.theta) * 1e4, "cost of the rotation")
    ctx.close(total * 1e4, 3 * (pcost + gcost) * 1e4, "total cost")
    # the rotation between the pulses and their inverses is the logical one
    if s < t and not phases:
        f = -phi if nm[s] > nm[t] else phi
        rot = sr.gate_chain_condition(pulses, R(c, "R", 0, [nm[s], nm[t], th, f], d))
        seq = [*pulses, rot, *[R(c, "R", 0, [x.lev_a, x.lev_b, x.theta, -x.phi], d) for x in reversed(pulses)]]
        p = spec.perm_matrix(list(mapping))
        ctx.equal(lu.product(seq, d), p @ spec.rot(d, s, t, th, phi) @ p.T, "rotation between the pulses and back")


def h_ongate(ctx, d, mapping):
    """a rotation under stored phases acts as the plain one in the frame of the phases."""
    c = lu.circ(d)
    g, ph = make(ctx, c, d, lu.GRAPHS[d]["path"], mapping, 0, True)
    a, b = int(ctx.choice("a", range(d))), int(ctx.choice("b", range(d)))
    ctx.assume(a != b)
    gate = R(c, "R", 0, [a, b, ctx.angle("th", -1, 1), ctx.angle("phi", -1, 1)], d)
    got = sr.graph_rule_ongate(gate, g)
    dm = diag(d, ph)
    ctx.equal(got.to_matrix(identities=0), spec.dagger(dm) @ gate.to_matrix(identities=0) @ dm, "rotation in the frame of the stored phases")
    same_device(ctx, g, g, ph, "graph")
    g0, _ = make(ctx, c, d, lu.GRAPHS[d]["path"], mapping, 0, False)
    ctx.equal(sr.graph_rule_ongate(gate, g0).to_matrix(identities=0), gate.to_matrix(identities=0), "rotation without stored phases")


def h_update(ctx, d, mapping, sign, fsign):
    """a pi pulse moves the stored phases; every other rotation leaves them."""
    c = lu.circ(d)
    g, ph = make(ctx, c, d, lu.GRAPHS[d]["path"], mapping, 0, True)
    a, b = int(ctx.choice("a", range(d))), int(ctx.choice("b", range(d)))
    ctx.assume(a != b)
    if sign is None:
        th = ctx.angle("th", 0.1, 0.9) if fsign > 0 else ctx.angle("th", 1.1, 1.9)
        sr.graph_rule_update(R(c, "R", 0, [a, b, th, np.pi / 2], d), g)
        same_device(ctx, g, g, ph, "other rotations")
        return
    gate = R(c, "R", 0, [a, b, sign * np.pi, fsign * np.pi / 2], d)
    sr.graph_rule_update(gate, g)
    x = spec.eye(d)
    x[a, a] = x[b, b] = 0.0
    x[a, b] = x[b, a] = 1.0
    got = {g.nodes[i]["lpmap"]: g.nodes[i]["phase_storage"] for i in range(d)}
    ctx.equal(diag(d, got), x @ diag(d, ph) @ gate.to_matrix(identities=0), "phases after a pi pulse")
    ctx.check(g.log_phy_map == list(mapping), "placement after a pi pulse")


def h_vrz(ctx, d, mapping, tiny=None):
    c = lu.circ(d)
    g, _ = make(ctx, c, d, lu.GRAPHS[d]["path"], mapping, 0, False)
    ctx.check(g.get_vrz_gates() == [], "no phases stored")
    g.phase_storing_setup()
    ph = {}
    for i in range(d):
        if tiny is not None:
            ph[mapping[i]] = ctx.angle("small", -0.015, 0.015) if i == tiny else 0.0
            g.nodes[i]["phase_storage"] = ph[mapping[i]]
            continue
        ph[mapping[i]] = ctx.angle(f"s{i}", -1.95, -0.05) if i == 1 else ctx.angle(f"s{i}", 0.05, 1.95)
        g.nodes[i]["phase_storage"] = ph[mapping[i]]
    seq = g.get_vrz_gates()
    ctx.check(all(isinstance(x, VirtRz) and x.target_qudits == 0 for x in seq), "phases as gates")
    ctx.equal(lu.product(seq, d), diag(d, ph), "stored phases as gates")


def instances(tier):
    out = []
    th = tier == "thorough"

    def add(name, f, **kw):
        out.append(Instance(name, f, overrides=lu.NO_REGULATE_R, points=1, seconds=600 if th else 60, max_paths=3000, **kw))

    for n in (2, 3, 4):
        for gi, es in enumerate(connected(n)):
            maps = list(itertools.permutations(range(n)))
            if n == 4 and not th:
                maps = [maps[(5 * gi + k) % 24] for k in (0, 9, 14)]
            for mi, mp in enumerate(maps):
                for init in range(n) if n < 4 else ((gi + mi) % 4,):
                    tag = f"{n}/{gi}/{''.join(map(str, mp))}/{init}"
                    if n < 4 or mi == 0 or th:
                        add(f"swap/{tag}", h_swap, d=n, edges=es, mapping=mp, init=init)
                    add(f"route/{tag}", h_route, d=n, edges=es, mapping=mp, init=init, phases=False)
                    if n < 4 or mi == 0 or th:
                        add(f"phases/{tag}", h_route, d=n, edges=es, mapping=mp, init=init, phases=True)
    for d, mps in ((2, [(0, 1), (1, 0)]), (3, list(itertools.permutations(range(3)))), (4, [(0, 1, 2, 3), (2, 0, 3, 1)])):
        for mp in mps:
            m = "".join(map(str, mp))
            add(f"ongate/{m}", h_ongate, d=d, mapping=mp)
            add(f"vrz/{m}", h_vrz, d=d, mapping=mp)
            for i in range(d):
                add(f"vrz/{m}/tiny{i}", h_vrz, d=d, mapping=mp, tiny=i, sharp=2e-3)
            for sg, fs in itertools.product((1, -1, None), (1, -1)):
                add(f"update/{m}/{sg}/{fs}", h_update, d=d, mapping=mp, sign=sg, fsign=fs)
    five = [[(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (0, 2), (0, 3), (0, 4)], [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)], [(0, 2), (2, 4), (4, 1), (1, 3)], [(2, 0), (2, 1), (2, 3), (3, 4)]]
    for k, es in enumerate(five):
        for mp in ((0, 1, 2, 3, 4), (3, 0, 4, 1, 2)):
            add(f"route/5/{k}/{mp[0]}", h_route, d=5, edges=es, mapping=mp, init=k % 5, phases=False)
            add(f"swap/5/{k}/{mp[0]}", h_swap, d=5, edges=es, mapping=mp, init=k % 5)
    return out
