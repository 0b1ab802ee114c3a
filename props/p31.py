"""Jobs and run options."""
from __future__ import annotations

import time as real_time

import numpy as np
from engine.harness import Instance
from mqt.qudits.exceptions import JobError, JobTimeoutError
from mqt.qudits.quantum_circuit import QuantumCircuit
from mqt.qudits.simulation import MQTQuditProvider
from mqt.qudits.simulation.backends import misim, tnsim
from mqt.qudits.simulation.jobs import Job, JobResult, JobStatus
from mqt.qudits.simulation.jobs import job as jm
from mqt.qudits.simulation.noise_tools import NoiseModel
from props.p30 import Fake

ENCODED = ["Job (id, status queries, wait_for_final_state, result)", "JobStatus", "JobResult", "Backend.__init__/set_options/options", "TNSim.run", "MISim.run", "Innsbruck01.run"]
BOUNDS = "status histories of up to 4 polls over all statuses, arbitrary real times between polls and arbitrary timeouts; two runs with every combination of options given or not (shots an arbitrary number from 50 to 400)"
ASSUMPTIONS = ["the clock does not run backwards", "execution of the circuit and of the shots is replaced by a recorder"]
FINAL = ("done", "cancelled", "error")


class Stop(Exception):
    pass


class J(Job):
    """a job whose statuses follow a given history."""

    def __init__(self, ctx, n):
        super().__init__(None, "id")
        self.ctx, self.n, self.seen = ctx, n, []

    def status(self):
        k = len(self.seen)
        if k == self.n:
            raise Stop
        s = list(JobStatus)[int(self.ctx.choice(f"status{k}", range(len(JobStatus))))]
        self.seen.append(s)
        return s


def h_wait(ctx, n, timeout, callback):
    job = J(ctx, n)
    t, log, called = [ctx.real("t0", 0, 1)], [], []
    limit = ctx.real("limit", 0, 3) if timeout else None
    pause = ctx.real("pause", 0, 1)

    def clock():
        # readings are never earlier than before
        t.append(t[-1] + ctx.real(f"dt{len(t)}", 0, 1))
        log.append("t")
        return t[-1]

    def sleep(x):
        ctx.close(x, pause, "seconds between polls")
        log.append("s")

    fake = Fake(real_time, time=clock, monotonic=clock, perf_counter=clock, sleep=sleep)
    keep, jm.time = jm.time, fake
    try:
        kw = {"callback": lambda i, s, j: called.append((i, s, j))} if callback else {}
        _, e = ctx.raises(job.wait_for_final_state, timeout=limit, wait=pause, **kw)
    finally:
        jm.time = keep
    fin = [str(s.value) in FINAL for s in job.seen]
    ctx.check(not any(fin[:-1]), "polling ends with the first final status", [s.value for s in job.seen])
    if e is None:
        ctx.check(fin[-1], "waiting returns only when the status is final", [s.value for s in job.seen])
    elif isinstance(e, Stop):
        ctx.check(not any(fin), "waiting ends when the status is final", [s.value for s in job.seen])
    else:
        ctx.check(isinstance(e, JobTimeoutError) and timeout, "only a time-out interrupts the waiting", repr(e))
        ctx.check(not fin[-1], "no time-out once the status is final")
    if timeout and isinstance(e, JobTimeoutError):
        ctx.check(t[-1] - t[1] >= limit, "no time-out before the time is over")
    elif timeout and e is None and len(t) > 2:
        ctx.check(t[-1] - t[1] < limit, "time-out when the time is over")
    if callback:
        polls = [s for s, f in zip(job.seen, fin) if not f]
        if isinstance(e, JobTimeoutError):
            polls = polls[:-1]
        ctx.check([s for _, s, _ in called] == polls and all(i == "id" and j is job for i, _, j in called), "callback with every status seen", [s.value for _, s, _ in called])
    ctx.check(log.count("s") >= len(job.seen) - 1, "a pause between polls", str(log))


def h_status(ctx):
    s = list(JobStatus)[int(ctx.choice("s", range(len(JobStatus))))]

    class K(Job):
        def status(self):
            return s

    j = K(None, "id")
    ctx.check(j.done() == (s.value == "done") and j.running() == (s.value == "running") and j.cancelled() == (s.value == "cancelled"), "status queries", s.value)
    ctx.check(j.in_final_state() == s.is_final == (s.value in FINAL), "final states", s.value)
    ctx.check((s in JobStatus.non_final_states()) == (not s.is_final), "states that are not final", s.value)
    for text in (s.value, s.value.upper(), s.value.capitalize()):
        ctx.check(JobStatus.from_string(text) is s, "status from its name", text)
    _, e = ctx.raises(JobStatus.from_string, s.value + "x")
    ctx.check(isinstance(e, ValueError), "unknown names are rejected")
    ctx.check(len({str(x) for x in JobStatus}) == len(JobStatus) and str(s) == s.description, "descriptions")


def h_ids(ctx, n):
    """ids of jobs made at arbitrary times by one process."""
    now = [1000]

    def clock():
        now[0] += int(ctx.choice(f"tick{len(now)}", [0, 1]))
        now.append(0)
        return now[0] / 1000

    keep = getattr(jm, "time", None)
    if keep is not None:
        jm.time = Fake(real_time, time=clock, time_ns=lambda: int(clock() * 10**9), monotonic=clock, perf_counter=clock)
    try:
        b = MQTQuditProvider().get_backend("tnsim")
        jobs = [Job(b) for _ in range(n)]
    finally:
        if keep is not None:
            jm.time = keep
    ctx.check(len({j.job_id() for j in jobs}) == n, "every job has its own id", [j.job_id() for j in jobs])
    ctx.check(all(j.backend() is b for j in jobs) and Job(b, "mine").job_id() == "mine", "backend and given id")
    _, e = ctx.raises(Job(None).backend)
    ctx.check(isinstance(e, JobError), "job without backend")
    r = JobResult(np.array([1.0]), [3])
    jobs[0].set_result(r)
    ctx.check(jobs[0].result() is r and r.get_counts() == [3] and list(r.get_state_vector()) == [1.0], "result")


OPTIONS = ("shots", "memory", "full_state_memory", "noise_model", "file_path", "file_name")
DEFAULT = {"shots": 50, "memory": False, "full_state_memory": False, "noise_model": None, "file_path": None, "file_name": None}


def value(ctx, name, tag):
    if name == "shots":
        return 50 + int(ctx.choice(f"shots{tag}", [0, 1, 350]))
    if name in {"memory", "full_state_memory"}:
        return True
    if name == "noise_model":
        return NoiseModel()
    return f"{name}{tag}"


def h_options(ctx, name, stored, runs, at_creation):
    """stored: option set through set_options; runs: options given to each run."""
    make = lambda names, tag: {o: value(ctx, o, tag) for o in names if o == "noise_model" or ctx.choice(f"given_{o}{tag}", [False, True])}
    base = dict(DEFAULT)
    mine = make(at_creation, "c")
    b = MQTQuditProvider().get_backend(name, **mine)
    base.update(mine)
    if stored:
        s = make(stored, "s")
        _, e = ctx.raises(b.set_options, **s)
        ctx.check(e is None, "options can be set", repr(e))
        base.update(s)
        _, e = ctx.raises(b.set_options, no_such_option=1)
        ctx.check(isinstance(e, AttributeError), "unknown options are rejected")
    c = QuantumCircuit(1, [2], 0)
    vec = np.array([[1.0, 0.0]])
    b.execute = lambda *a, **k: vec
    b.outcome = []
    log = []

    def shots(backend, circuit):
        log.append((circuit, {o: getattr(backend, o) for o in OPTIONS}))
        return ["counts"]

    keep = [(m, m.stochastic_simulation) for m in (tnsim, misim)]
    try:
        for m, _ in keep:
            m.stochastic_simulation = shots
        for k, names in enumerate(runs):
            now = make(names, f"r{k}")
            want = {**base, **now}
            log.clear()
            job = b.run(c, **now)
            got = {o: getattr(b, o) for o in OPTIONS}
            ctx.check(got == want, "a run uses the options of the backend and its own", f"run {k}: {got} instead of {want}")
            res = job.result()
            if name != "innsbruck01":
                noisy = want["noise_model"] is not None
                ctx.check(len(log) == (1 if noisy else 0) and all(x is c and o == want for x, o in log), "shots are taken exactly with a noise model")
                ctx.check(list(res.get_counts()) == (["counts"] if noisy else []) and res.get_state_vector() is vec, "result")
            ctx.check(job.backend() is b, "backend of the job")
            ctx.check({o: b.options.get(o, DEFAULT[o]) for o in OPTIONS} == base, "a run leaves the options of the backend", f"{b.options}")
    finally:
        for m, f in keep:
            m.stochastic_simulation = f


def instances(tier):
    out = []
    th = tier == "thorough"
    add = lambda name, f, /, **kw: out.append(Instance(name, f, **kw))
    for n in range(1, 6 if th else 4):
        for timeout in (False, True):
            for cb in (False, True):
                add(f"wait/{n}/{'limit' if timeout else 'open'}/{'cb' if cb else '-'}", h_wait, n=n, timeout=timeout, callback=cb, max_paths=20000)
    add("status", h_status)
    for n in (2, 3):
        add(f"ids/{n}", h_ids, n=n)
    for name in ("tnsim", "misim", "innsbruck01"):
        a, f = ("shots", "memory", "full_state_memory"), ("file_path", "file_name", "shots")
        for k, (stored, runs, made) in enumerate((
            ((), (a, a), ()), ((), (("noise_model", "shots"), ()), ()), ((), (("noise_model",), ("shots",), ("noise_model",)), ()), ((), (f, f), ()), (a, (a,), ()), (f, ((), f), ()),
            (("noise_model",), (("shots",), ()), ()), ((), (a, ()), a), (("shots",), (("shots",), ()), ("shots", "memory")),
        )):
            add(f"options/{name}/{k}", h_options, name=name, stored=stored, runs=runs, at_creation=made, max_paths=5000)
    return out
