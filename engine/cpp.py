"""The C++ extension of the current tree: its IR for symbolic execution and a native build for replays."""
from __future__ import annotations

import atexit
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from . import core, llvm, sym
from .core import I
from .sym import S, Unsupported, to_s

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NONE, INT, FLOAT, LIST, STR, DICT, OBJ, TUPLE, CPLX = range(9)
REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ["-std=c++17", f"-I{HERE}/cpp/stubs", f"-I{REPO}/include", "-DNDEBUG", "-w", f'-DVP_BINDINGS="{REPO}/src/python/bindings.cpp"',
         "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno", "-fno-builtin-cos", "-fno-builtin-sin", "-fno-builtin-fmod", "-ffinite-math-only",
           "-S", "-emit-llvm"]
STATE: dict = {}


class Crash(Exception):
    pass


def build():
    """compile the current sources; called once, before the instances are run in parallel"""
    if STATE:
        return
    sys.setrecursionlimit(20000)
    d = tempfile.mkdtemp(prefix="vcpp")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    src = f"{HERE}/cpp/harness.cpp"
    a = subprocess.Popen(["clang++", *FLAGS, *IRFLAGS, src, "-o", f"{d}/h.ll"], stderr=subprocess.PIPE, text=True)
    b = subprocess.Popen(["clang++", *FLAGS, "-DVP_NATIVE", "-O1", "-fPIC", "-shared", src, "-o", f"{d}/h.so"], stderr=subprocess.PIPE, text=True)
    for p in (a, b):
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError("the C++ sources do not compile: " + err[:2000])
    with open(f"{d}/h.ll") as f:
        STATE["vm"] = llvm.VM(f.read())
    STATE["so"] = f"{d}/h.so"


def vm():
    return STATE["vm"]


# ----------------------------------------------------------------------------- Python objects as records
GATE = ("qasm_tag", "dagger", "gate_type", "_dimensions", "_target_qudits", "_params", "_controls_data", "dimensions", "target_qudits", "params", "control_info")
CONTROLS = ("indices", "ctrl_states")
NOISE = ("probability_depolarizing", "probability_dephasing")


class Builder:
    """records made through the entry points, called either on the interpreter or on the native library"""

    def __init__(self, call, real):
        self.call, self.real = call, real

    def name(self, s):
        v = self.call("vp_make", STR)
        for ch in s:
            self.call("vp_chr", v, ord(ch))
        return v

    def obj(self, x, attrs):
        v = self.call("vp_make", OBJ)
        for a, fn in attrs:
            try:
                y = getattr(x, a)
            except AttributeError:
                continue
            self.call("vp_attr", v, self.name(a), fn(y))
        return v

    def seq(self, kind, items):
        v = self.call("vp_make", kind)
        for x in items:
            self.call("vp_push", v, x)
        return v

    def value(self, x):
        if x is None:
            return self.call("vp_make", NONE)
        if isinstance(x, I):
            x = x.value()
        if isinstance(x, (bool, np.bool_, int, np.integer)):
            return self.call("vp_int", int(x))
        if isinstance(x, (float, np.floating, S)):
            return self.real(x)
        if isinstance(x, str):
            return self.name(x)
        if isinstance(x, list):
            return self.seq(LIST, [self.value(y) for y in x])
        if isinstance(x, tuple):
            return self.seq(TUPLE, [self.value(y) for y in x])
        return self.call("vp_make", OBJ)

    def enum(self, x):
        return self.obj(x, [("name", self.value)])

    def controls(self, x):
        return self.value(x) if x is None else self.obj(x, [(a, self.value) for a in CONTROLS])

    def gate(self, g):
        special = {"gate_type": self.enum, "_controls_data": self.controls}
        return self.obj(g, [(a, special.get(a, self.value)) for a in GATE])

    def circuit(self, c):
        return self.obj(c, [("_num_qudits", self.value), ("num_qudits", self.value), ("_dimensions", self.value), ("dimensions", self.value),
                            ("instructions", lambda gs: self.seq(LIST, [self.gate(g) for g in gs]))])

    def errors(self, table):
        v = self.call("vp_make", DICT)
        for gate, modes in table.items():
            w = self.call("vp_make", DICT)
            for mode, noise in modes.items():
                n = self.value(noise) if isinstance(noise, dict) else self.obj(noise, [(a, self.value) for a in NOISE])
                self.call("vp_item", w, self.value(mode), n)
            self.call("vp_item", v, self.name(gate), w)
        return v

    def noise(self, m):
        return self.obj(m, [("quantum_errors", self.errors)])


# ----------------------------------------------------------------------------- the two ways to run it
def symbolic(circuit, noise_model):
    """stateVectorSimulation on the interpreter"""
    m = vm()
    m.boot()
    b = Builder(m.call, lambda x: m.call("vp_float", to_s(x) if not isinstance(x, S) else x))
    c, n = b.circuit(circuit), b.noise(noise_model)
    try:
        out = m.call("vp_simulate", c, n)
        size = m.call("vp_size", out)
        return [llvm.val(m.call("vp_re", out, k)) + llvm.val(m.call("vp_im", out, k)) * sym.root(llvm.Fraction(1, 2)) for k in range(size)]
    except llvm.CppException as e:
        raise RuntimeError(f"C++ exception {e.tinfo}") from None


def _lib():
    if "lib" not in STATE:
        lib = ctypes.CDLL(STATE["so"])
        P, L, D = ctypes.c_void_p, ctypes.c_long, ctypes.c_double
        for f, res, args in (("vp_int", P, [L]), ("vp_float", P, [D]), ("vp_make", P, [ctypes.c_int]), ("vp_chr", None, [P, ctypes.c_int]), ("vp_push", None, [P, P]),
                             ("vp_attr", None, [P, P, P]), ("vp_item", None, [P, P, P]), ("vp_size", L, [P]), ("vp_re", D, [P, L]), ("vp_im", D, [P, L]),
                             ("vp_try", ctypes.c_int, [P, P, ctypes.POINTER(P)])):
            fn = getattr(lib, f)
            fn.restype, fn.argtypes = res, args
        STATE["lib"] = lib
    return STATE["lib"]


def native(circuit, noise_model):
    """stateVectorSimulation of a native build of the same sources, in a process of its own because it may crash"""
    lib = _lib()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            b = Builder(lambda f, *a: getattr(lib, f)(*a), lambda x: lib.vp_float(float(x)))
            c, n = b.circuit(circuit), b.noise(noise_model)
            out = ctypes.c_void_p()
            if lib.vp_try(c, n, ctypes.byref(out)):
                data = b"E"
            else:
                data = b"V" + np.array([complex(lib.vp_re(out, k), lib.vp_im(out, k)) for k in range(lib.vp_size(out))]).tobytes()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Crash("the simulator crashed")
    if data[:1] == b"E":
        raise RuntimeError("C++ exception")
    return list(np.frombuffer(data[1:], dtype=complex))
