"""Ansatz of the variational compilers."""
from __future__ import annotations

import itertools
import math
import threading

import numpy as np
from engine import spec
from engine.harness import Instance
from mqt.qudits.compiler.compilation_minitools import gate_expand_to_circuit
from mqt.qudits.compiler.twodit.variational_twodit_compilation import layered_compilation as lc
from mqt.qudits.compiler.twodit.variational_twodit_compilation import sparsifier as spf
from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import ansatz_gen as ag
from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import ansatz_solve_n_search as ss
from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import instantiate as ai
from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_gen_utils import Primitive
from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import Optimizer
from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import optimizer as om
from mqt.qudits.compiler.twodit.variational_twodit_compilation.parametrize import generic_sud, params_splitter
from mqt.qudits.exceptions import FidelityReachError
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.quantum_circuit.gates import LS, MS, CustomOne

ENCODED = ["params_splitter", "generic_sud", "reindex", "gate_expand_to_circuit", "prepare_ansatz", "ms_ansatz/ls_ansatz/cu_ansatz", "ansatz_decompose", "create_ms_instance/create_ls_instance/create_cu_instance",
           "variational_compile", "apply_rotations", "instantiate_rotations", "Optimizer.set_class_variables/bounds_assigner/return_bounds/obj_fun_core/objective_fnc_ms/_ls/_cu/solve_anneal (the minimiser replaced)", "binary_search_compile", "run", "sparsify (the minimiser replaced)"]
BOUNDS = ("dimensions 2..4 of the single-qudit ansatz, dimension pairs 22, 23, 32, 33, 0..2 layers, arbitrary real parameters, primitives MS, LS and an arbitrary complex matrix (also inverted, and on other lines); registers of two and three lines, adjacent or not, in both orders; "
          "layer searches up to 6 layers with arbitrary real errors")
ASSUMPTIONS = ["the operator of MS and LS is the one decided by P02", "the numerical minimiser (dual annealing) is outside; it is replaced by an arbitrary result", "the operator of a gate on some lines of a register is the one decided by P01 and P02"]
KIND = {"MS": (ag.ms_ansatz, ai.create_ms_instance), "LS": (ag.ls_ansatz, ai.create_ls_instance), "CU": (ag.cu_ansatz, ai.create_cu_instance)}


def rdiag(d, a, b, t):
    """exp(i t (|a><a| - |b><b|))"""
    m = spec.eye(d)
    m[a, a], m[b, b] = spec.expi(t), spec.expi(-t)
    return m


def rreal(d, a, b, t):
    """exp(i t (-i|a><b| + i|b><a|))"""
    m = spec.eye(d)
    m[a, a] = m[b, b] = np.cos(t)
    m[a, b], m[b, a] = np.sin(t), -np.sin(t)
    return m


def sud(p, d):
    m = spec.eye(d)
    for k in range(d - 1):
        m = m @ rdiag(d, k, d - 1, p[k * d + k])
    for a in range(d - 1):
        for b in range(a + 1, d):
            m = m @ rdiag(d, a, b, p[b * d + a]) @ rreal(d, a, b, p[a * d + b])
    return m


def params(ctx, n, free=None):
    """n parameters; only those in free are arbitrary, the others are fixed multiples of pi/12."""
    return [ctx.angle(f"p{i}", -1, 2) if free is None or i in free else np.pi * ((i * 5 + 2) % 12) / 12 for i in range(n)]


def h_sud(ctx, d, free):
    p = params(ctx, d * d - 1, free)
    u = generic_sud(p, d)
    ctx.equal(u, sud(p, d), "single-qudit ansatz")
    ctx.equal(u @ spec.dagger(np.asarray(u)), spec.eye(d), "unitary")


def h_split(ctx, dims, layers):
    n = [d * d - 1 for d in dims]
    p = params(ctx, sum(n) * layers)
    got = params_splitter(p, list(dims))
    ctx.check([len(x) for x in got] == n * layers, "lengths of the parts")
    flat = [y for x in got for y in x]
    ctx.equal(np.array(flat + [0]), np.array([*p, 0]), "every parameter once, in order")
    for extra in range(1, sum(n)):
        _, e = ctx.raises(params_splitter, [0.0] * (sum(n) * layers + extra), list(dims))
        ctx.check(isinstance(e, ValueError), "parameters that do not fit are rejected", str(extra))
    for bad in ([2], [2, 2, 2], []):
        _, e = ctx.raises(params_splitter, [], bad)
        ctx.check(isinstance(e, ValueError), "two dimensions are required")


def primitive(ctx, kind, c, dims):
    """the gate and its operator."""
    if kind == "MS":
        g = MS(c, "MS", [0, 1], [np.pi / 2], list(dims))
    elif kind == "LS":
        t = np.pi / 2 if 2 in dims else (2 * np.pi / 3 if 3 in dims else np.pi)
        g = LS(c, "LS", [0, 1], [t], list(dims))
    else:
        n = math.prod(dims)
        g = QuantumCircuit(2, list(dims), 0).cu_two([0, 1], np.array([[ctx.cplx(f"u{a}{b}") for b in range(n)] for a in range(n)]))
    return g, g.to_matrix(identities=0)


def want_ansatz(p, u, dims):
    m = spec.eye(math.prod(dims))
    step = sum(d * d - 1 for d in dims)
    for k in range(len(p) // step):
        if k:
            m = m @ u
        q = p[k * step:(k + 1) * step]
        a, b = q[:dims[0] ** 2 - 1], q[dims[0] ** 2 - 1:]
        m = m @ spec.embed(dims, [0], sud(a, dims[0])) @ spec.embed(dims, [1], sud(b, dims[1]))
    return m


def h_ansatz(ctx, kind, dims, layers, free):
    c = QuantumCircuit(2, list(dims), 0)
    p = params(ctx, sum(d * d - 1 for d in dims) * layers, free)
    g, u = primitive(ctx, kind, c, dims)
    old = Primitive.CUSTOM_PRIMITIVE
    Primitive.set_class_variables(g)
    try:
        make, inst = KIND[kind]
        got = make(p, list(dims))
        want = want_ansatz(p, u, dims)
        ctx.equal(got, want, "matrix of the ansatz")
        seq = inst(c, p, list(dims))
        check_gates(ctx, seq, kind, layers, want, u, g)
        # through the compiler, with the parameters the search returns
        target = QuantumCircuit(2, list(dims), 0).cx([0, 1]) if dims != (3, 3) else QuantumCircuit(2, list(dims), 0).csum([0, 1])
        keep = lc.binary_search_compile
        lc.binary_search_compile = lambda n, t: (n, 0.0, p)
        try:
            out = lc.variational_compile(target, 0.2, kind, 3, g)
        finally:
            lc.binary_search_compile = keep
        check_gates(ctx, out.instructions, kind, layers, want, u, g)
        ctx.check(list(out.dimensions) == list(dims) and len(target.parent_circuit.instructions) == 1, "circuits")
        ctx.check((Optimizer.SINGLE_DIM_0, Optimizer.SINGLE_DIM_1) == tuple(dims) and Optimizer.OBJ_FIDELITY == 0.2 and Optimizer.MAX_NUM_LAYERS == 3, "settings of the search")
        ctx.equal(Optimizer.TARGET_GATE, target.to_matrix(), "target of the search")
    finally:
        Primitive.set_class_variables(old)


def check_gates(ctx, seq, kind, layers, want, u, g):
    m = spec.eye(want.shape[0])
    for x in seq:
        if isinstance(x, CustomOne):
            m = x.to_matrix(identities=2) @ m
        else:
            ctx.check(type(x) is type(g) and list(x.reference_lines) == [0, 1], "primitive", f"{type(x).__name__} {x.reference_lines}")
            ctx.equal(x.to_matrix(identities=0), u, "operator of the primitive")
            m = u @ m
    ctx.check(len(seq) == 3 * layers - 1, "number of gates", str(len(seq)))
    ctx.equal(m, want, "operator of the gates")


def h_lines(ctx, kind, dims, lines, layers, free, how="plain"):
    """variational compilation of a gate on some lines of a larger register."""
    asc = sorted(lines)
    two = [dims[q] for q in asc]
    n = math.prod(two)
    reg = QuantumCircuit(len(dims), list(dims), 0)
    other = [q for q in range(len(dims)) if q not in lines]
    reg.x(other[0])
    target = reg.cu_two(list(lines), np.array([[(3 * a - 2 * b) % 7 + 1j * ((a + 5 * b) % 4) for b in range(n)] for a in range(n)]) / n)
    if how == "dagger":
        target = target.dag()
    p = params(ctx, sum(d * d - 1 for d in two) * layers, free)
    if kind == "CU":
        small = QuantumCircuit(2, two, 0)
        home, at = {"lines": (reg, asc), "back": (reg, list(lines))}.get(how, (small, [0, 1]))
        prim = home.cu_two(at, np.array([[ctx.cplx(f"u{a}{b}") if a == 0 else (a * 2 + b) % 5 - 1j * (b % 3) for b in range(n)] for a in range(n)]))
        if how == "dagger":
            prim = prim.dag()
        u = prim.to_matrix(identities=0)
    else:
        prim, u = primitive(ctx, kind, QuantumCircuit(2, two, 0), two)
    before = len(reg.instructions)
    old, keep = Primitive.CUSTOM_PRIMITIVE, lc.binary_search_compile
    seen = []
    lc.binary_search_compile = lambda k, t: (seen.append((k, t)), (k, 0.0, p))[1]
    try:
        out = lc.variational_compile(target, 0.2, kind, 3, prim if kind == "CU" else None)
        made = KIND[kind][0](p, [Optimizer.SINGLE_DIM_0, Optimizer.SINGLE_DIM_1])
    finally:
        lc.binary_search_compile = keep
        Primitive.set_class_variables(old)
    want = want_ansatz(p, u, two)
    ctx.equal(made, want, "matrix of the ansatz")
    ctx.check(len(seen) == 1 and seen[0][1] == kind, "one search", str(seen))
    ctx.equal(spec.embed(dims, asc, Optimizer.TARGET_GATE), target.to_matrix(identities=2), "target of the search, in ascending order of its lines")
    m = spec.eye(math.prod(dims))
    for x in out.instructions:
        m = x.to_matrix(identities=2) @ m
    ctx.equal(m, spec.embed(dims, asc, want), "operator of the compiled circuit")
    ctx.check(list(out.dimensions) == list(dims) and len(reg.instructions) == before, "circuits")


def h_sparsify(ctx, dims, lines, free, how="plain"):
    """sparsification of a gate on some lines of a register: the rotations the search found, on the lines of the gate."""
    asc = sorted(lines)
    two = [dims[q] for q in asc]
    n = math.prod(two)
    reg = QuantumCircuit(len(dims), list(dims), 0)
    g = reg.cu_two(list(lines), np.array([[ctx.cplx(f"m{a}{b}") if a == b or b == 0 else (a * 2 + b) % 5 - 1j * (b % 3) for b in range(n)] for a in range(n)]))
    if how == "dagger":
        g = g.dag()
    m = g.to_matrix(identities=0)
    p = params(ctx, 2 * sum(d * d - 1 for d in two), free)
    before = len(reg.instructions)
    seen = []

    class Result:
        x, fun, success = p, 0.0, True

    def minimiser(f, x0, args=(), bounds=None, **kw):
        f(x0, *args)
        seen.append((x0, bounds))
        # parameters of further layers have no effect
        Result.x = np.array([*p, *[0.3] * (len(x0) - len(p))])
        return Result

    keep, rotate = spf.minimize, spf.apply_rotations
    spf.minimize = minimiser
    spf.apply_rotations = lambda *a: (seen.append(a), np.array([[1.0, 0.5], [0.25, 0.1j]]))[1]
    try:
        out = spf.sparsify(g)
    finally:
        spf.minimize, spf.apply_rotations = keep, rotate
    ctx.check(len(seen) == 2, "one search", str(len(seen)))
    (mm, thetas, dd), (x0, bounds) = seen
    ctx.equal(mm, m, "matrix whose density is minimised")
    ctx.check(list(dd) == two and thetas is x0 and len(x0) == len(bounds) >= len(p), "parameters of the search")
    q = params_splitter(p, two)
    e = [spec.embed(two, [i % 2], sud(q[i], two[i % 2])) for i in range(4)]
    want = e[0] @ e[1] @ m @ e[2] @ e[3]
    ctx.equal(apply_direct(spf, m, p, two), want, "matrix with rotations on both sides")
    tot = spec.eye(math.prod(dims))
    for x in out.instructions:
        tot = x.to_matrix(identities=2) @ tot
    ctx.equal(tot, spec.embed(dims, asc, want), "operator of the sparsified circuit")
    ctx.check(list(out.dimensions) == list(dims) and len(reg.instructions) == before, "circuits")


def apply_direct(mod, m, p, dims):
    return mod.apply_rotations(m, p, list(dims))


def h_timeout(ctx, kind):
    """a search whose time is over gives no result, whatever was found before, and does not disturb the next one."""
    err, tol = ctx.real("e", 0, 1), 0.25
    Optimizer.set_class_variables(np.eye(4), tol, 2, 2)
    keep = (om.dual_annealing, om.ms_ansatz, om.ls_ansatz, om.cu_ansatz, om.fidelity_on_unitares, threading.Timer)
    fire, state = [], {"expire": False}
    started = threading.Event()

    class Timer:
        daemon = True

        def __init__(self, interval, function, args=None, kwargs=None):
            fire.append(lambda: function(*(args or ()), **(kwargs or {})))

        def start(self):
            started.set()

        def cancel(self):
            pass

        join = is_alive = cancel

    def minimiser(f, bounds):
        v = None
        if state["expire"]:
            if started.wait(5):
                fire[-1]()
            v = f(["late"])
        else:
            v = f(["p"])

        class Result:
            x, fun = ["late" if state["expire"] else "p"], v

        return Result

    om.dual_annealing = minimiser
    om.ms_ansatz = om.ls_ansatz = om.cu_ansatz = lambda p, d: "a"
    om.fidelity_on_unitares = lambda a, b: 1 - err
    threading.Timer = Timer
    try:
        first = ss.run(1, kind)
        started.clear()
        state["expire"] = True
        f, x = ss.run(1, kind)
        hit = bool(err < tol)
        state["expire"] = False
        last = ss.run(1, kind)
    finally:
        om.dual_annealing, om.ms_ansatz, om.ls_ansatz, om.cu_ansatz, om.fidelity_on_unitares, threading.Timer = keep
        Optimizer.timer_var = False
        Optimizer.set_class_variables(np.eye(4))
    if hit:
        ctx.check(x == ["late"], "a solution found is kept", str(x))
    else:
        ctx.check(len(x) == 0 or x == ["late"], "nothing of an earlier search is returned", str(x))
        r, e = ctx.raises(lambda: bool(f > tol))
        ctx.check(r is True, "a search without solution is not a success", repr(f))
    for k, (g, y) in enumerate((first, last)):
        ctx.check(y == ["p"], "the search before and after it work", str((k, y)))
        ctx.close(g, err, "error found")


def h_sparse(ctx, dims, free):
    n = math.prod(dims)
    c = QuantumCircuit(2, list(dims), 0)
    m = np.array([[ctx.cplx(f"m{a}{b}") for b in range(n)] for a in range(n)])
    g = c.cu_two([0, 1], m)
    p = params(ctx, 2 * sum(d * d - 1 for d in dims), free)
    got = spf.apply_rotations(m, p, list(dims))
    q = params_splitter(p, list(dims))
    e = [spec.embed(dims, [i % 2], sud(q[i], dims[i % 2])) for i in range(4)]
    want = e[0] @ e[1] @ m @ e[2] @ e[3]
    ctx.equal(got, want, "matrix with rotations on both sides")
    seq = spf.instantiate_rotations(c, g, p)
    tot = spec.eye(n)
    for x in seq:
        tot = x.to_matrix(identities=2) @ tot
    ctx.equal(tot, want, "operator of the gates")
    ctx.check(len(seq) == 5 and sum(isinstance(x, CustomOne) for x in seq) == 4, "gates")


def h_bounds(ctx, dims, layers):
    Optimizer.set_class_variables(np.eye(2), 0.1, *dims)
    b = Optimizer.return_bounds(layers)
    want = []
    for _ in range(layers + 2):
        for d in dims:
            for r in range(d):
                for s in range(d):
                    if (r, s) != (d - 1, d - 1):
                        want.append((0, 2 * np.pi) if r == s else (0, np.pi) if r > s else (0, np.pi / 2))
    ctx.check(len(b) == len(want) and all(abs(x[0] - y[0]) + abs(x[1] - y[1]) < 1e-12 for x, y in zip(b, want)), "bounds of the parameters")
    ctx.check(Optimizer.MAX_NUM_LAYERS == 2 * dims[0] * dims[1], "default number of layers")


def h_expand(ctx, dims, target):
    d = dims[target]
    g = np.array([[ctx.cplx(f"g{a}{b}") for b in range(d)] for a in range(d)])
    ctx.equal(gate_expand_to_circuit(g, len(dims), target, list(dims)), spec.embed(dims, [target], g), "gate on a line")
    for bad in (len(dims), len(dims) + 1):
        _, e = ctx.raises(gate_expand_to_circuit, g, len(dims), bad, list(dims))
        ctx.check(isinstance(e, ValueError), "lines outside the register")
    _, e = ctx.raises(gate_expand_to_circuit, g, 0, -1, [])
    ctx.check(isinstance(e, ValueError), "empty register")


def h_objective(ctx, n, timer):
    """the objective is one minus the fidelity; below the goal it stores the parameters and stops."""
    f = ctx.real("f", 0, 1)
    tol = ctx.real("tol", 0, 1)
    Optimizer.set_class_variables(np.eye(n), tol, 2, 2)
    keep, Optimizer.timer_var = om.fidelity_on_unitares, timer
    seen = []
    om.fidelity_on_unitares = lambda a, b: (seen.append((a, b)), f)[1]
    try:
        a = object()
        r, e = ctx.raises(Optimizer.obj_fun_core, a, ["x"])
        if isinstance(e, FidelityReachError):
            ctx.check_z(lambda: ctx.p.z(1 - f) < ctx.p.z(tol), "stops below the goal") if ctx.symbolic else ctx.check(1 - f < tol, "stops below the goal")
            ctx.check(Optimizer.X_SOLUTION == ["x"], "parameters stored")
            ctx.close(Optimizer.FUN_SOLUTION, 1 - f, "error stored")
        else:
            ctx.check_z(lambda: ctx.p.z(1 - f) >= ctx.p.z(tol), "goes on above the goal") if ctx.symbolic else ctx.check(1 - f >= tol, "goes on above the goal")
            if timer:
                ctx.check(isinstance(e, TimeoutError), "stops when the time is over")
            else:
                ctx.check(e is None, "value returned")
                ctx.close(r, 1 - f, "error")
        ctx.check(all(x is a and y is Optimizer.TARGET_GATE for x, y in seen), "fidelity with the target")
    finally:
        om.fidelity_on_unitares, Optimizer.timer_var = keep, False
        Optimizer.set_class_variables(np.eye(n))


def h_search(ctx, top, mono):
    """the layer search, for arbitrary errors of the layers."""
    tol = ctx.real("tol", 0.1, 0.5)
    err = [ctx.real(f"e{i}", 0, 1) for i in range(top + 1)]
    if mono:
        for a, b in zip(err, err[1:]):
            ctx.assume(a >= b)
    Optimizer.set_class_variables(np.eye(2), tol, 2, 2)
    keep, ran = ss.run, []
    ss.run = lambda k, kind: (ran.append((k, kind)), (err[k], [k]))[1]
    try:
        layer, e, x = ss.binary_search_compile(top, "LS")
    finally:
        ss.run = keep
        Optimizer.set_class_variables(np.eye(2))
    ctx.check(all(0 <= k <= top and t == "LS" for k, t in ran) and len({k for k, _ in ran}) == len(ran), "layers tried", str(ran))
    ctx.check(len(ran) <= top.bit_length() + 1, "number of layers tried", str(ran))
    good = [k for k, _ in ran if err[k] <= tol]
    if x:
        ctx.check(x == [layer] and layer in good, "result is a layer that reaches the goal", f"{layer} {good}")
        ctx.close(e, err[layer], "error of the result")
        ctx.check(layer == min(good), "least layer found")
        if mono:
            ctx.check(all(not bool(err[k] <= tol) for k in range(layer)), "least layer that reaches the goal")
    else:
        ctx.check(not good, "no result only if no layer tried reaches the goal")
        if mono:
            ctx.check(not bool(err[top] <= tol), "no result only if no layer reaches the goal")
    _, e = ctx.raises(ss.binary_search_compile, -1, "LS")
    ctx.check(isinstance(e, ValueError), "negative numbers of layers")


def h_run(ctx, kind, how):
    """one layer search: the result of the minimiser reaches the caller and no timer is left."""
    err, tol = ctx.real("e", 0, 1), 0.25
    Optimizer.set_class_variables(np.eye(4), tol, 2, 2)
    keep = (om.dual_annealing, om.ms_ansatz, om.ls_ansatz, om.cu_ansatz, om.fidelity_on_unitares)
    calls = []

    def minimiser(f, bounds):
        calls.append((f, bounds))
        v = f(["p"])

        class Result:
            x, fun = ["p"], v

        return Result

    seen = []
    om.dual_annealing = minimiser
    before = set(threading.enumerate())
    om.ms_ansatz = lambda p, d: (seen.append(("MS", p, d)), "a")[1]
    om.ls_ansatz = lambda p, d: (seen.append(("LS", p, d)), "a")[1]
    om.cu_ansatz = lambda p, d: (seen.append(("CU", p, d)), "a")[1]
    om.fidelity_on_unitares = lambda a, b: 1 - err
    try:
        f, x = ss.run(how, kind)
    finally:
        left = [t for t in threading.enumerate() if t not in before and isinstance(t, threading.Timer) and not t.finished.is_set()]
        for t in left:
            t.cancel()
        om.dual_annealing, om.ms_ansatz, om.ls_ansatz, om.cu_ansatz, om.fidelity_on_unitares = keep
        want = Optimizer.return_bounds(how)
        Optimizer.set_class_variables(np.eye(4))
    ctx.check(x == ["p"], "parameters found")
    ctx.close(f, err, "error found")
    ctx.check(seen == [(kind, ["p"], [2, 2])], "ansatz used", str(seen))
    ctx.check(len(calls) == 1 and calls[0][1] == want, "bounds of the search")
    ctx.check(not left, "no timer is left running")


def instances(tier):
    out = []
    th = tier == "thorough"
    add = lambda name, f, /, **kw: out.append(Instance(name, f, **kw))
    for d in (2, 3):
        add(f"sud/{d}", h_sud, d=d, free=None)
    for d in (3, 4):
        for i in range(d * d - 1):
            add(f"sud/{d}/{i}", h_sud, d=d, free={i, (i + 4) % (d * d - 1)})
    for dims in ((2, 2), (2, 3), (3, 2), (3, 3)):
        t = "".join(map(str, dims))
        step = sum(d * d - 1 for d in dims)
        for k in (0, 1, 2, 3):
            add(f"split/{t}/{k}", h_split, dims=dims, layers=k)
            add(f"bounds/{t}/{k}", h_bounds, dims=dims, layers=k)
        for kind in KIND:
            for layers in (1, 2, 3):
                n = step * layers
                if kind == "CU" and layers == 3 and dims != (2, 2):
                    continue
                picks = range(n) if th else range(layers, n, 5 if dims == (2, 2) else 5 + 4 * layers)
                for i in picks:
                    add(f"ansatz/{kind}/{t}/{layers}/{i}", h_ansatz, kind=kind, dims=dims, layers=layers, free={i, (i + 7) % n}, ring=144)
        for i in (range(2 * step) if th else range(0, 2 * step, 3 if dims == (2, 2) else 8)):
            add(f"sparse/{t}/{i}", h_sparse, dims=dims, free={i, (i + 7) % (2 * step)})
    for dims, lines in (((3, 2, 2), (1, 2)), ((3, 2, 2), (2, 1)), ((2, 2, 3), (0, 2)), ((3, 2, 2), (2, 0)), ((2, 3), (1, 0)), ((2, 3, 2), (1, 2))):
        t = "".join(map(str, dims)) + "/" + "".join(map(str, lines))
        step = sum(dims[q] ** 2 - 1 for q in lines)
        if len(dims) > 2:
            for kind in KIND:
                for how in ("plain", "dagger", "lines", "back"):
                    if kind != "CU" and how != "plain":
                        continue
                    for i in (range(2 * step) if th else (1, step + 2)):
                        add(f"lines/{kind}/{t}/{how}/{i}", h_lines, kind=kind, dims=dims, lines=lines, layers=2, free={i, (i + 7) % (2 * step)}, how=how, ring=144)
        for how in ("plain", "dagger"):
            for i in (range(2 * step) if th else (2, step + 1)):
                add(f"sparsify/{t}/{how}/{i}", h_sparsify, dims=dims, lines=lines, free={i, (i + 7) % (2 * step)}, how=how)
    for kind in KIND:
        add(f"timeout/{kind}", h_timeout, kind=kind)
    for dims in ((2, 3), (3, 2), (2, 3, 2), (3, 2, 4)):
        for q in range(len(dims)):
            add(f"expand/{''.join(map(str, dims))}/{q}", h_expand, dims=dims, target=q)
    for timer in (False, True):
        add(f"objective/{timer}", h_objective, n=2, timer=timer)
    for top in range(9 if th else 7):
        for mono in (False, True):
            add(f"search/{top}/{mono}", h_search, top=top, mono=mono)
    for kind in KIND:
        for k in (0, 1, 2):
            add(f"run/{kind}/{k}", h_run, kind=kind, how=k)
    return out
