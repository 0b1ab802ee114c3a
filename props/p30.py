"""Shots of noisy simulations."""
from __future__ import annotations

import copy
import itertools
import multiprocessing
import multiprocessing.pool
import os
import types

import numpy as np
from engine.harness import Instance
from engine.sym import S
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.simulation import MQTQuditProvider
from mqt.qudits.simulation.backends import stochastic_sim as st
from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise
from mqt.qudits.simulation.noise_tools import noisy_circuit_factory as nf

ENCODED = ["stochastic_simulation", "stochastic_execution_tn/_mi", "measure_state", "generate_seed", "NoisyCircuitFactory.__init__/_initialize_rng/generate_circuit (its draws)"]
BOUNDS = ("up to 4 shots (13 for the order of results), every division into chunks and every assignment of chunks to two worker processes, every clock (readings advance by 0 or 1 ms), circuits of one or two noisy gates on a qubit or qutrit; "
          "state vectors of 1..4 arbitrary amplitudes")
ASSUMPTIONS = ["the worker pool is replaced by one that copies each chunk as a whole (as pickling does) and runs it", "random streams are stand-ins: two streams give the same numbers exactly if they start from the same seed or state; streams without a seed are all different",
               "the decision-diagram simulator (C++) is replaced by a fixed vector: only the sampling around it is decided"]


class Env:
    """clock, process numbers and random streams of one run."""

    def __init__(self, ctx, options=2):
        self.ctx, self.options = ctx, options
        self.now, self.reads, self.pid, self.fresh = 1_000_000, 0, 100, itertools.count()
        self.used, self.shot, self.values = {}, None, {}
        self.calls = []

    def clock(self):
        if self.reads < 6:
            self.now += int(self.ctx.choice(f"tick{self.reads}", [0, 1]))
        else:
            self.now += 1
        self.reads += 1
        return self.now

    def draw(self, key, n, p=None):
        self.calls.append((self.shot, n, p))
        self.used.setdefault(self.shot, set()).add(key)
        if key not in self.values:
            live = {1: [0], 2: sorted({0, n - 1})}.get(self.options, range(n))
            self.values[key] = int(self.ctx.choice("draw" + str(len(self.values)), live))
        return self.values[key] % n


class Stream:
    """stand-in for a generator; copies continue with the same numbers."""

    def __init__(self, env, seed):
        self.env, self.pos, self.kids = env, 0, 0
        if seed is None:
            self.seed = ("fresh", next(env.fresh))
        elif isinstance(seed, np.random.SeedSequence):
            self.seed = ("seq", str(seed.entropy), tuple(seed.spawn_key))
        elif isinstance(seed, Stream):
            self.seed = ("of", *seed.seed)
        else:
            self.seed = ("seed", int(seed))

    def __deepcopy__(self, memo):
        new = object.__new__(Stream)
        memo[id(self)] = new
        new.env, new.pos, new.kids, new.seed = self.env, self.pos, self.kids, self.seed
        return new

    def _key(self):
        self.pos += 1
        return (self.seed, self.pos)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            o = opts[self.env.draw(self._key(), len(opts), p)]
            return np.array(o) if isinstance(o, (tuple, list)) else o
        return np.array([opts[self.env.draw(self._key(), len(opts), p)] for _ in range(int(np.prod(size)))]).reshape(size)

    def integers(self, low, high=None, size=None, **kw):
        # numbers from a large range: different draws give different numbers
        f = lambda: hash((self._key(), "int")) % (2**62)
        return f() if size is None else np.array([f() for _ in range(int(np.prod(size)))]).reshape(size)

    def spawn(self, n):
        out = []
        for _ in range(n):
            s = Stream(self.env, None)
            s.seed = ("kid", self.seed, self.kids)
            self.kids += 1
            out.append(s)
        return out


class Pool:
    """every division into chunks; a chunk is copied as a whole and run by one of the workers."""

    def __init__(self, env, processes=None, initializer=None, initargs=(), *a, **kw):
        self.env, self.n = env, 0
        if initializer is not None:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    close = join = terminate = lambda self: None

    def _run(self, func, items, star, chunksize):
        env, out, items = self.env, [], list(items)
        size = chunksize or (env.ctx.choice("chunk", range(1, len(items) + 1)) if len(items) < 5 else 4)
        for k, i in enumerate(range(0, len(items), int(size))):
            part = copy.deepcopy((func, items[i:i + int(size)]))
            env.pid = 101 + (int(env.ctx.choice(f"worker{k}", [0, 1])) if k else 0)
            for x in part[1]:
                env.shot = len(out)
                out.append(part[0](*x) if star else part[0](x))
        env.shot = None
        return out

    def map(self, func, items, chunksize=None):
        return self._run(func, items, False, chunksize)

    def starmap(self, func, items, chunksize=None):
        return self._run(func, items, True, chunksize)

    def imap(self, func, items, chunksize=1):
        return iter(self._run(func, items, False, chunksize))

    def map_async(self, func, items, chunksize=None, **kw):
        r = self._run(func, items, False, chunksize)
        return types.SimpleNamespace(get=lambda timeout=None: r, wait=lambda timeout=None: None)

    def starmap_async(self, func, items, chunksize=None, **kw):
        r = self._run(func, items, True, chunksize)
        return types.SimpleNamespace(get=lambda timeout=None: r, wait=lambda timeout=None: None)


class Fake:
    """a module with some functions replaced."""

    def __init__(self, mod, **kw):
        self.__dict__.update(kw)
        self._mod = mod

    def __getattr__(self, name):
        return getattr(self.__dict__["_mod"], name)

    def __deepcopy__(self, memo):
        return self


class Patched:
    def __init__(self, env):
        import time

        clock = Fake(time, time=lambda: env.clock() / 1000, time_ns=lambda: env.clock() * 10**6, monotonic=lambda: env.clock() / 1000, perf_counter=lambda: env.clock() / 1000)
        proc = Fake(os, getpid=lambda: env.pid)
        self.todo = [(multiprocessing, "Pool", lambda *a, **k: Pool(env, *a, **k)), (multiprocessing, "cpu_count", lambda: 2), (np.random, "default_rng", lambda seed=None: Stream(env, seed))]
        for m in (st, nf):
            for name, new in (("time", clock), ("os", proc)):
                if hasattr(m, name):
                    self.todo.append((m, name, new))
            if hasattr(m, "default_rng"):
                self.todo.append((m, "default_rng", lambda seed=None: Stream(env, seed)))

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n, _ in self.todo]
        for m, n, v in self.todo:
            setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v in self.old:
            setattr(m, n, v)
        return False


def setup(kind, dims, gates, noise):
    c = QuantumCircuit(len(dims), list(dims), 0)
    for g, q in gates:
        getattr(c, g)(q)
    nm = NoiseModel()
    nm.add_quantum_error_locally(noise, sorted({g.qasm_tag for g in c.instructions}))
    b = MQTQuditProvider().get_backend({"tn": "tnsim", "dd": "misim"}[kind])
    b.noise_model = nm
    return b, c


def h_shots(ctx, kind, dims, gates, shots, full=False, math_=False):
    noise = Noise(0.5, 0.0) if math_ else SubspaceNoise(0.5, 0.5, (0, 1))
    b, c = setup(kind, dims, gates, noise)
    n = int(np.prod(dims))
    v = np.full((1, n), 1 / np.sqrt(n), dtype=complex)
    b.execute = lambda *a, **k: v
    b.shots, b.full_state_memory = shots, full
    env = Env(ctx)
    with Patched(env):
        res = st.stochastic_simulation(b, c)
    ctx.check(len(res) == shots, "one result per shot", str(len(res)))
    for i, j in itertools.combinations(range(shots), 2):
        both = env.used.get(i, set()) & env.used.get(j, set())
        ctx.check(not both, "no random number is used for two shots", f"shots {i} and {j}")
    if full:
        ctx.check(all(np.shape(x) == (1, n) for x in res), "state vectors")
    else:
        ctx.check(all(0 <= int(x) < n for x in res), "outcomes", str(res))
        # every shot has drawn its own outcome from all states
        for i in range(shots):
            mine = [(k, p) for s, k, p in env.calls if s == i and k == n and p is not None and len(list(p)) == n]
            ctx.check(any(abs(sum(abs(x - 1 / n) for x in p)) < 1e-9 for _, p in mine), "outcome drawn with the probabilities of the state", f"shot {i}")


def h_order(ctx, kind, shots):
    """result k belongs to call k, whatever the chunks."""
    b, c = setup(kind, (2,), [("x", 0)], SubspaceNoise(0.0, 0.0, (0, 1)))
    count = []

    def execute(*a, **k):
        count.append(0)
        return np.array([[len(count), 0]])

    b.execute = execute
    b.shots, b.full_state_memory = shots, True
    env = Env(ctx, options=1)
    with Patched(env):
        res = st.stochastic_simulation(b, c)
    ctx.check([int(x[0, 0]) for x in res] == list(range(1, shots + 1)), "one result per shot in order", str([int(x[0, 0]) for x in res]))


def h_measure(ctx, n):
    """outcome k is drawn with probability |v_k|^2."""
    v = np.array([[ctx.cplx(f"v{k}") for k in range(n)]]) if n > 1 else np.array([[ctx.cplx("v0")]])
    env = Env(ctx, options=0)
    with Patched(env):
        k = st.measure_state(v)
    ctx.check(0 <= int(k) < n, "outcome")
    ctx.check(len(env.calls) == 1 and env.calls[0][1] == n, "one draw among all states", str(env.calls))
    p = list(env.calls[0][2]) if env.calls[0][2] is not None else [1 / n] * n
    w = [x * np.conj(x) for x in v.ravel()]
    tot = sum(w)
    ctx.equal(np.array([x * tot for x in w]) if any_norm(ctx, p, w) else np.array(w), np.array([x * tot for x in p]) if any_norm(ctx, p, w) else np.array(p), "probabilities of the outcomes")
    ctx.check(int(k) == env.values[next(iter(env.values))], "outcome drawn is the one returned")


def any_norm(ctx, p, w):
    """whether the probabilities were divided by their sum."""
    d = sum(p[1:], p[0]) - 1
    return not d.n if isinstance(d, S) else abs(d) < 1e-9


def instances(tier):
    out = []
    th = tier == "thorough"
    add = lambda name, f, /, **kw: out.append(Instance(name, f, **kw))
    for kind in ("tn", "dd"):
        for shots in (2, 3, 4) if th else (2, 3):
            for full in (False, True):
                for dims, gates in (((2,), (("x", 0),)), ((3,), (("x", 0),)), ((2,), (("x", 0), ("z", 0)))):
                    if (len(gates) > 1 or dims == (3,)) and shots > 2 and not th:
                        continue
                    t = f"{''.join(map(str, dims))}{''.join(g for g, _ in gates)}"
                    add(f"shots/{kind}/{t}/{shots}/{'full' if full else 'outcome'}", h_shots, kind=kind, dims=dims, gates=gates, shots=shots, full=full, max_paths=60000 if th else 3000)
        add(f"math/{kind}", h_shots, kind=kind, dims=(2,), gates=(("x", 0),), shots=2, math_=True, max_paths=3000)
        for shots in (1, 2, 4, 13):
            add(f"order/{kind}/{shots}", h_order, kind=kind, shots=shots, max_paths=3000)
    for n in (1, 2, 3, 4):
        add(f"measure/{n}", h_measure, n=n)
    return out
