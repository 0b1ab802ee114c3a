"""Harnesses: one function per obligation, executed symbolically and, for replay, on plain numbers."""
from __future__ import annotations

import cmath
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core, shim, sym
from .core import Budget, I, Infeasible, Path, z3
from .sym import S, Unsupported, to_s

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOL = 1e-6
QTOL = Fraction(1, 10**9)


class Instance:
    def __init__(self, name, func, /, ring=48, max_paths=200, seconds=40, points=2, overrides=None, inverses=False, sharp=0.0, rounding=False, replay_tol=None, **kw):
        self.name, self.func, self.kw = name, func, kw
        self.ring, self.max_paths, self.seconds, self.points = ring, max_paths, seconds, points
        self.overrides, self.inverses, self.sharp = overrides, inverses, sharp
        self.rounding, self.replay_tol = rounding, replay_tol  # rounding to digits leaves an arbitrary error; tolerance of replays


class Failed(Exception):
    """A checked assertion does not hold."""

    def __init__(self, label, detail="", diffs=None, cond=None):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail, self.diffs, self.cond = label, detail, diffs, cond


def zi(x):
    """z3 term of an integer that may be symbolic."""
    return x.t if isinstance(x, I) else z3.IntVal(int(x))


class Skip(BaseException):
    """A concrete input outside the assumptions."""


def _shape_of(x):
    return np.shape(x) if not isinstance(x, (S, I)) else ()


class BaseCtx:
    def log(self, *a):
        pass


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, p: Path, inst):
        self.p, self.inst = p, inst
        self.checked = 0
        self.terms = 0

    # ---- inputs
    def angle(self, name, lo=0.0, hi=2.0, open_=False):
        """an angle in [lo*pi, hi*pi]."""
        v = sym.new_var(name, "angle")
        zv = self.p.zvar(v.id)
        lo_, hi_ = Fraction(lo).limit_denominator(1000) * core.PI_Q, Fraction(hi).limit_denominator(1000) * core.PI_Q
        if open_:
            self.p.add(z3.And(zv > core.q(lo_), zv < core.q(hi_)))
        else:
            self.p.add(z3.And(zv >= core.q(lo_), zv <= core.q(hi_)))
        self.p.inputs[name] = ("angle", zv, lo_, hi_)
        return S({(((v.id, 1),), (), 0): 1})

    def real(self, name, lo, hi):
        v = sym.new_var(name, "real")
        zv = self.p.zvar(v.id)
        self.p.add(z3.And(zv >= core.q(Fraction(lo)), zv <= core.q(Fraction(hi))))
        self.p.inputs[name] = ("real", zv, Fraction(lo), Fraction(hi))
        return S({(((v.id, 1),), (), 0): 1})

    def cplx(self, name):
        a = sym.new_var(name, "cplx")
        b = sym.new_var(name + "*", "cplx")
        a.conj, b.conj = b.id, a.id
        self.p.inputs[name] = ("cplx", a.id, None, None)
        return S({(((a.id, 1),), (), 0): 1})

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self.p.add(z3.And(t >= lo, t <= hi))
        self.p.inputs[name] = ("int", t, lo, hi)
        return I(t)

    def bool(self, name):
        return self.p.branch(self._bool(name))

    def _bool(self, name):
        t = z3.Bool(name)
        self.p.inputs[name] = ("bool", t, None, None)
        return t

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1).value()]

    def assume(self, cond):
        if isinstance(cond, (S, I)):
            cond = bool(cond)
        if not cond:
            raise Infeasible

    # ---- assertions
    def equal(self, impl, spec, label="result"):
        if _shape_of(impl) != _shape_of(spec):
            raise Failed(label, f"shape {_shape_of(impl)} instead of {_shape_of(spec)}")
        a = [shim._conv(x) for x in np.asarray(impl, dtype=object).ravel()]
        b = [shim._conv(x) for x in np.asarray(spec, dtype=object).ravel()]
        self._discharge(a, b, label)

    def close(self, x, y, label, tol=1e-6):
        """real quantities that agree under the conditions of this path."""
        d = shim._conv(x) - shim._conv(y)
        zt = self.p.z(d) if d.is_real() else None
        if zt is None:
            return self._discharge([shim._conv(x)], [shim._conv(y)], label)
        return self.check_z(lambda: z3.And(zt <= core.q(Fraction(tol)), zt >= core.q(-Fraction(tol))), label, "values differ")

    def equal_phase(self, impl, spec, label="result", tol=TOL):
        """equal up to one unit complex factor (spec unitary or a vector)."""
        if _shape_of(impl) != _shape_of(spec):
            raise Failed(label, f"shape {_shape_of(impl)} instead of {_shape_of(spec)}")
        m = shim._matmul(impl, shim.sarr(spec).conj().T) if np.ndim(impl) == 2 else None
        if m is None:
            a = [shim._conv(x) for x in np.asarray(impl, dtype=object).ravel()]
            b = [shim._conv(x) for x in np.asarray(spec, dtype=object).ravel()]
            ov = sum((x.conjugate() * y for x, y in zip(a, b)), to_s(0))
            na = sum((x.conjugate() * x for x in a), to_s(0))
            nb = sum((x.conjugate() * x for x in b), to_s(0))
            self._discharge([ov * ov.conjugate(), na], [na * nb, nb], label)
            return
        n = m.shape[0]
        ph = m[0, 0]
        l, r = [], []
        for i in range(n):
            for j in range(n):
                l.append(m[i, j])
                r.append(ph if i == j else to_s(0))
        l.append(ph * ph.conjugate())
        r.append(to_s(1))
        self._discharge(l, r, label, phase=True)

    def _discharge(self, a, b, label, phase=False):
        p = self.p
        diffs = [x - y for x, y in zip(a, b)]
        if any(sym.VARS[v].kind == "abs" for d in diffs for k in d.n for v, _ in k[0]):
            a, b = [core.resolve_abs(x) for x in a], [core.resolve_abs(x) for x in b]
            diffs = [x - y for x, y in zip(a, b)]
        raw = [not d.n for d in diffs]
        if any(sym.VARS[v].kind == "inv" for d in diffs for k in d.n for v, _ in k[0]):
            diffs = [sym.clear_inverses(d) for d in diffs]
        if p.sharp and any(d.n for d in diffs):
            bounds = [core.sharp_bound(p, d) if d.n else 0.0 for d in diffs]
            diffs = [to_s(0) if e is not None and e < p.sharp else d for d, e in zip(diffs, bounds)]
        if any(d.n for d in diffs):
            diffs = core.resolve_ints(diffs)
        if any(d.n for d in diffs):
            try:
                diffs = core.resolve_fixed(diffs)
            except Unsupported:
                pass
        # one linear query over the monomials: is there an entry where |impl - spec| can exceed the tolerance?
        key = {}
        cs = []
        disj = []

        def var(k):
            v = key.get(k)
            if v is None:
                i = len(key)
                v = (z3.Real(f"re{i}"), z3.Real(f"im{i}"))
                key[k] = v
                if not k[0]:
                    cs.extend([v[0] >= -1, v[0] <= 1, v[1] >= -1, v[1] <= 1])
            return v

        def lin(s, part):
            t = [core.q(Fraction(c, s.d)) * var(k)[part] for k, c in s.n.items()]
            return z3.Sum(t) if t else core.q(0)

        n = 0
        for x, y, d, same in zip(a, b, diffs, raw):
            size = len(x.n) + len(y.n)
            self.terms += size
            for part in (0, 1):
                if same and n + size <= 400 and x.n:
                    e = lin(x, part) - lin(y, part)
                    n += size
                else:
                    e = lin(d, part)
                disj.append(z3.Or(e > core.q(QTOL), e < core.q(-QTOL)))
        s = z3.Solver()
        s.set("timeout", 30000)
        s.add(*cs)
        s.add(z3.Or(*disj) if len(disj) > 1 else disj[0])
        t = time.time()
        r = s.check()
        p.stats["solver_s"] += time.time() - t
        p.stats["queries"] += 1
        self.checked += 1
        p.stats["assertions"] = p.stats.get("assertions", 0) + 1
        if r == z3.unsat:
            return
        raise Failed(label, "values differ", diffs=[d for d in diffs if d.n])

    def check(self, cond, label, detail=""):
        """a boolean claim; a symbolic comparison inside cond was decided by the solver on this path."""
        self.checked += 1
        self.p.stats["assertions"] = self.p.stats.get("assertions", 0) + 1
        if isinstance(cond, (S, I)):
            cond = bool(cond)
        if not cond:
            raise Failed(label, str(detail)[:300])

    def check_z(self, build, label, detail=""):
        """claim over symbolic integers/reals: build() returns a z3 condition that must be valid on this path."""
        c = build()
        self.checked += 1
        self.p.stats["assertions"] = self.p.stats.get("assertions", 0) + 1
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Failed(label, detail)
            return
        r = self.p.check(z3.Not(c))
        if r == z3.unsat:
            return
        raise Failed(label, detail, cond=z3.Not(c))

    def raises(self, fn, *a, **k):
        """call fn; returns (result, None) or (None, exception)."""
        try:
            return fn(*a, **k), None
        except (Unsupported, Budget, Failed):
            raise
        except Exception as e:  # noqa: BLE001
            return None, e


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, vals, tol=TOL):
        self.vals = vals
        self.used = {}
        self.tol = tol

    def _get(self, name, default):
        v = self.vals.get(name, default)
        self.used[name] = v
        return v

    def angle(self, name, lo=0.0, hi=2.0, open_=False):
        return float(self._get(name, (lo + hi) / 2 * math.pi * 0.7))

    def real(self, name, lo, hi):
        return float(self._get(name, (lo + hi) / 2))

    def cplx(self, name):
        v = self._get(name, [0.3, 0.4])
        return complex(v[0], v[1])

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, True))

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1)]

    def assume(self, cond):
        if not cond:
            raise Skip

    def equal(self, impl, spec, label="result"):
        if np.shape(impl) != np.shape(spec):
            raise Failed(label, f"shape {np.shape(impl)} instead of {np.shape(spec)}")
        d = np.max(np.abs(np.asarray(impl, dtype=complex) - np.asarray(spec, dtype=complex))) if np.size(impl) else 0.0
        if not d < self.tol:
            raise Failed(label, f"off by {d:.3g}")

    def equal_phase(self, impl, spec, label="result", tol=TOL):
        if np.shape(impl) != np.shape(spec):
            raise Failed(label, f"shape {np.shape(impl)} instead of {np.shape(spec)}")
        a = np.asarray(impl, dtype=complex).ravel()
        b = np.asarray(spec, dtype=complex).ravel()
        tol = max(tol, self.tol)
        k = int(np.argmax(np.abs(b)))
        ph = a[k] / b[k]
        ok = abs(abs(ph) - 1) < tol and np.max(np.abs(a - ph * b)) < tol
        if not ok:
            raise Failed(label, "differs by more than a global phase")

    def check(self, cond, label, detail=""):
        if not cond:
            raise Failed(label, str(detail)[:300])

    def close(self, x, y, label, tol=1e-6):
        if not abs(x - y) <= tol:
            raise Failed(label, f"{x} instead of {y}")

    def check_z(self, build, label, detail=""):
        c = build()
        if isinstance(c, z3.ExprRef):
            c = z3.is_true(z3.simplify(c))
        if not c:
            raise Failed(label, detail)

    def raises(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Failed:
            raise
        except Exception as e:  # noqa: BLE001
            return None, e


# ------------------------------------------------------------------ running
def values_at(p: Path, env, model):
    out = {}
    for name, (kind, h, _, _) in p.inputs.items():
        if kind == "angle":
            out[name] = core.z3num(model.eval(h, model_completion=True)) * core.PI_SCALE
        elif kind == "real":
            out[name] = core.z3num(model.eval(h, model_completion=True))
        elif kind in ("int", "bool"):
            out[name] = core.z3num(model.eval(h, model_completion=True))
        else:
            c = complex(env[h])
            out[name] = [c.real, c.imag]
    return out


def run_concrete(inst, vals):
    """None if the real code satisfies the harness at vals, else (label, detail); 'skip' outside the assumptions."""
    ctx = ConcCtx(vals, inst.replay_tol or inst.sharp or TOL)
    try:
        inst.func(ctx, **inst.kw)
    except Skip:
        return "skip"
    except Failed as e:
        return e.label, e.detail
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "mqt" in f.filename), "")
        if not where:
            return "harness", f"{type(e).__name__}: {e} :: {tb[-1].filename}:{tb[-1].lineno}"
        return "raised", f"{type(e).__name__} in {where}: {str(e)[:160]}"
    return None


def run_instance(inst, tier, seed):
    t0 = time.time()
    res = {
        "name": inst.name,
        "paths": 0,
        "proved": 0,
        "undecided": [],
        "violations": [],
        "replays": 0,
        "pruned": 0,
        "complete": True,
        "samples": [],
        "over": 0,
        "guesses": [],
        "terms": 0,
    }
    stats = {"queries": 0, "solver_s": 0.0, "decisions": 0, "assertions": 0}
    stack = [[]]
    deadline = t0 + inst.seconds
    while stack:
        if res["paths"] >= inst.max_paths or time.time() > deadline:
            res["complete"] = False
            break
        prefix = stack.pop()
        sym.init(inst.ring)
        sym.INVERSES[0] = inst.inverses
        p = Path(prefix, stats, deadline)
        p.sharp, p.rounding = inst.sharp, inst.rounding
        core.CUR = p
        ctx = SymCtx(p, inst)
        status, info, diffs, cond = "ok", "", None, None
        try:
            with shim.active(inst.overrides):
                inst.func(ctx, **inst.kw)
        except Infeasible:
            status = "pruned"
        except Failed as e:
            status, info, diffs, cond = "failed", str(e), e.diffs, e.cond
        except Budget:
            status, info = "undecided", "time"
        except (Unsupported, RecursionError, MemoryError) as e:
            status, info = "undecided", f"{type(e).__name__}: {str(e)[:200]}"
        except z3.Z3Exception as e:
            status, info = "undecided", f"z3: {e}"
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            status = "raised"
            info = f"{type(e).__name__}: {str(e)[:160]} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        stack.extend(p.open)
        res["terms"] += ctx.terms
        if status == "pruned":
            res["pruned"] += 1
            core.CUR = None
            continue
        if status == "ok" and ctx.checked == 0:
            status, info = "undecided", "no assertion reached"
        res["paths"] += 1
        if p.over:
            res["over"] += 1
            for n in p.notes[:2]:
                if len(res["guesses"]) < 5:
                    res["guesses"].append(n[:160])
        # concrete executions of the unpatched code at points the solver picks on this path
        npts = inst.points if status == "ok" else 6
        extra = (cond,) if cond is not None else ()
        try:
            pts = core.points(p, npts, seed + res["paths"], extra)
        except (Unsupported, z3.Z3Exception):
            pts = []
        if status == "failed" and diffs:
            sc = []
            for bad, env, model in pts:
                try:
                    m = max(abs(d.eval(env)) for d in diffs)
                except Exception:  # noqa: BLE001
                    m = 0.0
                sc.append((bad, -m, env, model))
            sc.sort(key=lambda t: (t[0], t[1]))
            pts = [(b, e, m) for b, _, e, m in sc]
        core.CUR = None
        found = False
        for bad, env, model in pts:
            if bad and status == "ok":
                continue
            vals = values_at(p, env, model)
            r = run_concrete(inst, vals)
            if r == "skip":
                continue
            res["replays"] += 1
            if r is not None and r[0] != "harness":
                res["violations"].append({"label": r[0], "detail": r[1], "inputs": vals, "symbolic": info})
                found = True
                break
            if r is not None:
                res["undecided"].append(f"harness error at {vals}: {r[1]}")
                if os.environ.get("VERIF_DEBUG"):
                    print(inst.name, r)
            if len(res["samples"]) < 2:
                res["samples"].append({"inputs": vals, "outcome": "holds"})
        if status == "ok":
            res["proved"] += 1
        elif not found:
            res["undecided"].append(f"{status}: {info}")
        if len(res["violations"]) >= 3:
            res["complete"] = False
            break
    res["stats"] = stats
    res["wall"] = time.time() - t0
    return res


def _worker(args):
    i, tier, seed = args
    inst = _INST[i]
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:  # noqa: BLE001, S110
        pass
    try:
        devnull = open(os.devnull, "w")
        if not os.environ.get("VERIF_DEBUG"):
            sys.stdout = devnull
        return i, run_instance(inst, tier, seed)
    except BaseException as e:  # noqa: BLE001
        return i, {"name": inst.name, "crash": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-600:]}"}


_INST = []


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(f):
        for k in json.load(open(f)):
            if k.get("property") == prop and k.get("status") == "known":
                out.append(k)
    return out


def run_property(prop, module, tier, seed, only=None, jobs=None):
    import re

    global _INST
    t0 = time.time()
    shim.load_all()
    shim.EXTRA.extend([module.__name__, "engine.spec"])
    insts = module.instances(tier)
    if only:
        insts = [i for i in insts if re.search(only, i.name)]
    _INST = insts
    names = [i.name for i in insts]
    assert len(set(names)) == len(names), "instance names must be distinct"
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (getattr(module, "QUICK_SECONDS", 300.0) if tier == "quick" else 3000.0)
    results = [None] * len(insts)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    if jobs == 1:
        for i in range(len(insts)):
            _, results[i] = _worker((i, tier, seed))
            sys.stdout = sys.__stdout__
    else:
        order = sorted(range(len(insts)), key=lambda i: -insts[i].seconds)
        results = _pool(order, jobs, tier, seed, t0 + budget)
    if os.environ.get("VERIF_TIMES"):
        for i, r in sorted(zip(insts, results), key=lambda x: -((x[1] or {}).get("wall") or 0)):
            print(f"  time {i.name}: {(r or {}).get('wall', -1):.1f} s, {(r or {}).get('paths')} paths")
    return report(prop, module, tier, seed, insts, results, time.time() - t0)


def _pool(order, jobs, tier, seed, deadline):
    """one forked process per instance with a hard time limit."""
    results = [None] * len(_INST)
    running = {}
    todo = list(order)
    while todo or running:
        while todo and len(running) < jobs and time.time() < deadline:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    _, out = _worker((i, tier, seed))
                    with os.fdopen(w, "w") as f:
                        f.write(json.dumps(out, default=str))
                except BaseException:  # noqa: BLE001
                    code = 1
                os._exit(code)
            os.close(w)
            os.set_blocking(r, False)
            running[i] = [pid, r, b"", time.time()]
        if time.time() >= deadline:
            todo = []
        done = []
        for i, st in running.items():
            pid, r, _, start = st
            eof = False
            try:
                while True:
                    c = os.read(r, 1 << 20)
                    if not c:
                        eof = True
                        break
                    st[2] += c
            except BlockingIOError:
                pass
            if eof:
                os.waitpid(pid, 0)
                os.close(r)
                try:
                    results[i] = json.loads(st[2])
                except ValueError:
                    results[i] = {"name": _INST[i].name, "crash": "worker died"}
                done.append(i)
            elif time.time() - start > _INST[i].seconds * 1.6 + 15 or time.time() > deadline + 20:
                import signal

                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                results[i] = {"name": _INST[i].name, "crash": "hard time limit"}
                done.append(i)
        for i in done:
            del running[i]
        if not done:
            time.sleep(0.01)
    return results


def report(prop, module, tier, seed, insts, results, wall):
    import fnmatch

    kf = known_findings(prop)
    viol, known, undecided, crashes, samples = [], [], [], [], []
    tot = {"paths": 0, "proved": 0, "replays": 0, "queries": 0, "solver_s": 0.0, "decisions": 0, "assertions": 0,
           "over": 0, "terms": 0}
    incomplete, notrun = [], []
    for inst, r in zip(insts, results):
        if r is None:
            notrun.append(inst.name)
            continue
        if "crash" in r:
            crashes.append(f"{r['name']}: {r['crash']}")
            continue
        for k in ("paths", "proved", "replays", "over", "terms"):
            tot[k] += r[k]
        for k in ("queries", "solver_s", "decisions", "assertions"):
            tot[k] += r["stats"].get(k, 0)
        if not r["complete"]:
            incomplete.append(inst.name)
        for u in r["undecided"]:
            undecided.append(f"{inst.name}: {u}")
        if r["samples"] and len(samples) < 6:
            samples.append({"instance": inst.name, **r["samples"][-1]})
        for v in r["violations"]:
            v["instance"] = inst.name
            hit = next(
                (k for k in kf if fnmatch.fnmatch(inst.name, k["instance"]) and fnmatch.fnmatch(
                    f"{v['label']}: {v['detail']}", k.get("failure", "*"))),
                None,
            )
            (known if hit else viol).append((hit, v))
    for k in kf:
        hits = [v for h, v in known if h is k]
        if hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    code = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    for _, v in viol[:10]:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(json.dumps([prop, v["instance"], v["inputs"]], default=str).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}_{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, **v}, f, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  instance {v['instance']}: {v['label']}: {v['detail']}  inputs {json.dumps(v['inputs'], default=str)[:400]}")
        code = 1
    n_ok = sum(1 for r in results if r and "crash" not in r and not r["undecided"] and not r["violations"] and r["complete"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["decisions"],
            "traces_validated_against_impl": tot["replays"],
            "samples": samples or [{"note": "none"}],
            "harness_instances": len(insts),
            "instances_decided": n_ok,
            "paths_proved": tot["proved"],
            "paths_with_unconstrained_decisions": tot["over"],
            "assertions_discharged": tot["assertions"],
            "monomials_in_assertions": tot["terms"],
            "solver_queries": tot["queries"],
            "solver_seconds": round(tot["solver_s"], 3),
            "undecided": undecided[:40],
            "undecided_count": len(undecided),
            "incomplete_instances": incomplete[:40],
            "not_run": notrun[:40],
            "crashed": crashes[:20],
            "functions_encoded": getattr(module, "ENCODED", []),
            "bounds": getattr(module, "BOUNDS", ""),
            "known_findings_seen": [f"{v['instance']}: {v['label']}" for _, v in known][:40],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "violations": len(viol),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {tier}: {len(insts)} instances, {n_ok} decided, {tot['paths']} paths ({tot['proved']} proved), "
        f"{len(undecided)} undecided, {len(incomplete)} incomplete, {len(notrun)} not run, {len(crashes)} crashed, "
        f"{tot['replays']} replays, {len(viol)} violations, {len(known)} known, {tot['queries']} queries "
        f"{tot['solver_s']:.1f}s solver, {wall:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for u in undecided[:60]:
            print("  undecided", u)
        for u in crashes:
            print("  crash", u)
        for u in incomplete:
            print("  incomplete", u)
        for inst, r in sorted(zip(insts, results), key=lambda t: -((t[1] or {}).get("wall") or 0))[:8]:
            if r and "wall" in r:
                print(f"  {r['wall']:.1f}s {inst.name} paths {r['paths']} guesses {r['guesses']}")
    return code


COMMON_ASSUMPTIONS = [
    "floating-point numbers are treated as exact reals; literals are recognised as rationals, multiples of pi or square roots",
    "comparisons against tolerances below 1e-3 are taken at generic position: the strips of that width around exact coincidences are outside the claim (the coincidences themselves are separate strata where listed; instances named tiny keep the thresholds exact for one small angle)",
]
