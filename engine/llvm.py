"""Symbolic execution of the LLVM IR of the C++ extension.

The IR of the current sources is translated, function by function, to Python over a byte-addressed memory whose cells
hold Python integers (integers, pointers) and exact numbers of the engine (doubles).  Integers are concrete on every
path; comparisons of doubles are decided like those of the Python code, by z3 under the path condition.
"""
from __future__ import annotations

import copy
import math
import re
import struct
from fractions import Fraction

from . import core, sym
from .sym import S, Unsupported, to_s

M64 = (1 << 64) - 1
TINY = 1e-9  # constants below are tolerances of the code: exact comparison takes them for zero

TOK = re.compile(
    r'\s*(?:(%"[^"]*"|%[-\w.$]+)|([@$]"[^"]*"|[@$][-\w.$]+)|(c"[^"]*")|(0x[KMLHR]?[0-9A-Fa-f]+)'
    r'|(-?\d+\.\d+e[+-]?\d+)|(-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.)|("[^"]*")|([(){}\[\]<>,=*!#:]))'
)


class CppException(Exception):
    def __init__(self, ptr, tinfo):
        super().__init__(f"C++ exception {tinfo}")
        self.ptr, self.tinfo = ptr, tinfo


# ----------------------------------------------------------------------------- types
class T:
    __slots__ = ("kind", "bits", "n", "elem", "elems", "packed", "_size", "_align", "_offs")

    def __init__(self, kind, bits=0, n=0, elem=None, elems=None, packed=False):
        self.kind, self.bits, self.n, self.elem, self.elems, self.packed = kind, bits, n, elem, elems, packed
        self._size = self._align = self._offs = None


class Toks:
    def __init__(self, text):
        self.t = []
        pos = 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if m is None:
                if text[pos:].strip() == "":
                    break
                raise Unsupported(f"IR token at {text[pos:pos + 40]!r}")
            self.t.append((m.lastindex, m.group(m.lastindex)))
            pos = m.end()
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise Unsupported(f"IR: expected {v!r}, got {self.peek()!r}")

    def skip_parens(self):
        d = 0
        while True:
            v = self.next()
            d += v == "("
            d -= v == ")"
            if d == 0:
                return


SKIP = {
    "noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned",
    "immarg", "dead_on_unwind", "writable", "inreg", "nofree", "nest", "noreturn", "nounwind", "allocptr", "swiftself",
    "tail", "musttail", "notail", "fastcc", "ccc", "coldcc", "local_unnamed_addr", "unnamed_addr", "dso_local",
    "inbounds", "nuw", "nsw", "exact", "disjoint", "nneg", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn",
    "fast", "volatile", "samesign", "hidden", "internal", "linkonce_odr", "private", "weak_odr", "external", "weak",
    "protected", "available_externally", "appending", "thread_local", "noinline",
}
SKIP_P = {"dereferenceable", "dereferenceable_or_null", "nofpclass", "range", "captures", "memory", "initializes", "allocsize"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.tlines = {}
        self.funcs = {}  # name -> (params, ret type text, lines)
        self.globals = {}  # name -> (type, init tokens or None, constant)
        self.ctors = []
        self.aliases = {}
        self._parse(text)
        self.code = {}

    # ---- module level
    def _parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        glines = []
        while i < n:
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                k, v = ln.split(" = type ", 1)
                self.tlines[k] = v
            elif ln.startswith("@"):
                glines.append(ln)
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                head = ln
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
                self.funcs["@" + m.group(1)] = (head, lines[i + 1 : j])
                i = j
            i += 1
        for ln in glines:
            self._global(ln)

    def _global(self, ln):
        ln = re.sub(r", (align \d+|comdat(\([^)]*\))?|section \"[^\"]*\")", "", ln)
        t = Toks(ln)
        name = t.next()
        t.need("=")
        ext = False
        while True:
            v = t.peek()
            if v in ("global", "constant"):
                t.next()
                break
            if v == "alias":
                t.next()
                self._type(t)
                t.need(",")
                self._type(t)
                self.aliases[name] = t.next()
                return
            if v == "external":
                ext = True
            t.next()
            if t.peek() == "(":
                t.skip_parens()
        ty = self._type(t)
        if name == "@llvm.global_ctors":
            self.ctors = re.findall(r"ptr (@[-\w.$]+), ptr", ln)
            return
        self.globals[name] = (ty, None if ext else t)

    def _type(self, t):
        ty = self._base(t)
        while t.peek() == "*":
            t.next()
            ty = T("ptr", 64)
        return ty

    def _base(self, t):
        v = t.next()
        if re.fullmatch(r"i\d+", v):
            return T("int", int(v[1:]))
        if v in ("double", "ptr", "void", "float", "x86_fp80", "metadata", "token", "label", "opaque"):
            if v == "ptr" and t.peek() == "addrspace":
                raise Unsupported("addrspace")
            return T(v, {"double": 64, "ptr": 64, "float": 32, "x86_fp80": 80}.get(v, 0))
        if v.startswith("%"):
            ty = self.types.get(v)
            if ty is None:
                ty = self.types[v] = self._type(Toks(self.tlines[v]))
            return ty
        if v == "[":
            k = int(t.next())
            t.need("x")
            e = self._type(t)
            t.need("]")
            return T("arr", n=k, elem=e)
        packed = False
        if v == "<":
            if t.peek() != "{":
                raise Unsupported("vector type")
            t.next()
            packed, v = True, "{"
        if v == "{":
            el = []
            while t.peek() != "}":
                el.append(self._type(t))
                t.eat(",")
            t.need("}")
            if packed:
                t.need(">")
            return T("struct", elems=el, packed=packed)
        raise Unsupported(f"IR type {v!r}")

    def size(self, ty):
        if ty._size is None:
            k = ty.kind
            if k == "int":
                ty._size = max(1, 1 << ((ty.bits + 7) // 8 - 1).bit_length())
                ty._align = min(ty._size, 16)
            elif k in ("double", "ptr"):
                ty._size = ty._align = 8
            elif k == "float":
                ty._size = ty._align = 4
            elif k == "x86_fp80":
                ty._size = ty._align = 16
            elif k == "arr":
                ty._size = ty.n * self.size(ty.elem)
                ty._align = ty.elem._align
            elif k == "struct":
                o, al, offs = 0, 1, []
                for e in ty.elems:
                    s = self.size(e)
                    a = 1 if ty.packed else e._align
                    al = max(al, a)
                    o = -(-o // a) * a
                    offs.append(o)
                    o += s
                ty._size, ty._align, ty._offs = -(-o // al) * al, al, offs
            else:
                raise Unsupported(f"size of {k}")
        return ty._size


def f64_const(v):
    if v.startswith("0x"):
        return struct.unpack("<d", struct.pack("<Q", int(v[2:], 16)))[0]
    return float(v)


def f80_const(v):
    b = int(v[3:], 16)
    m, e = b & M64, b >> 64
    return math.ldexp(m, (e & 0x7FFF) - 16383 - 63) * (-1 if e >> 15 else 1)


# ----------------------------------------------------------------------------- code generation
class Gen:
    """Python source of one function."""

    def __init__(self, mod, vm, name):
        self.mod, self.vm, self.name = mod, vm, name
        self.consts = {}
        self.names = {}

    def var(self, v):
        r = self.names.get(v)
        if r is None:
            r = self.names[v] = f"v{len(self.names)}"
        return r

    def k(self, obj):
        key = f"K{len(self.consts)}"
        self.consts[key] = obj
        return key

    def attrs(self, t):
        while True:
            v = t.peek()
            if v in SKIP:
                t.next()
            elif v in SKIP_P:
                t.next()
                if t.peek() == "(":
                    t.skip_parens()
            elif v == "align":
                t.next()
                if t.peek() == "(":
                    t.skip_parens()
                else:
                    t.next()
            elif v in ("sret", "byval", "elementtype"):
                t.next()
                t.skip_parens()
            elif v == "#":
                t.next()
                t.next()
            else:
                return

    def value(self, t, ty):
        """expression for the operand of type ty"""
        kd = t.kind()
        v = t.peek()
        if kd == 1:
            t.next()
            return self.var(v)
        if kd == 2:
            t.next()
            return str(self.vm.addr(v))
        if kd == 6:
            t.next()
            if ty.kind == "int":
                return str(int(v) & ((1 << ty.bits) - 1))
            return repr(float(v))
        if kd in (4, 5):
            t.next()
            if ty.kind == "x86_fp80":
                return repr(f80_const(v))
            return repr(f64_const(v))
        if v in ("true", "false"):
            t.next()
            return "1" if v == "true" else "0"
        if v == "null":
            t.next()
            return "0"
        if v in ("undef", "poison", "zeroinitializer"):
            t.next()
            return self.zero(ty)
        if v in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "add", "sub", "trunc", "icmp"):
            t.next()
            return self.constexpr(t, v)
        if v == "{" or v == "[":
            t.next()
            close = "}" if v == "{" else "]"
            out = []
            while t.peek() != close:
                e = self.mod._type(t)
                out.append(self.value(t, e))
                t.eat(",")
            t.next()
            return "(" + ",".join(out) + ",)"
        raise Unsupported(f"IR operand {v!r}")

    def zero(self, ty):
        if ty.kind in ("int", "ptr"):
            return "0"
        if ty.kind == "double":
            return "0.0"
        if ty.kind == "x86_fp80":
            return "0.0"
        if ty.kind == "struct":
            return "(" + ",".join(self.zero(e) for e in ty.elems) + ",)"
        if ty.kind == "arr":
            return "(" + ",".join(self.zero(ty.elem) for _ in range(ty.n)) + ",)"
        raise Unsupported("zero")

    def constexpr(self, t, op):
        self.attrs(t)
        if t.peek() == "inrange":
            t.next()
            t.skip_parens()
        t.need("(")
        if op == "getelementptr":
            self.attrs(t)
            e = self.gep(t, ")")
            t.need(")")
            return e
        if op in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            ty = self.mod._type(t)
            v = self.value(t, ty)
            t.need("to")
            self.mod._type(t)
            t.need(")")
            return v
        if op in ("add", "sub"):
            ty = self.mod._type(t)
            a = self.value(t, ty)
            t.need(",")
            ty = self.mod._type(t)
            b = self.value(t, ty)
            t.need(")")
            return f"(({a}{'+' if op == 'add' else '-'}{b})&{M64})"
        raise Unsupported(f"constant expression {op}")

    def gep(self, t, end):
        ty = self.mod._type(t)
        t.need(",")
        pt = self.mod._type(t)
        base = self.value(t, pt)
        off, parts = 0, []
        first = True
        while t.peek() == ",":
            if t.t[t.i + 1][1] == "!":
                break
            t.next()
            if t.peek() == "inrange":
                t.next()
            it = self.mod._type(t)
            idx = self.value(t, it)
            if first:
                s = self.mod.size(ty)
                first = False
            elif ty.kind == "struct":
                self.mod.size(ty)
                k = int(idx)
                off += ty._offs[k]
                ty = ty.elems[k]
                continue
            else:
                ty = ty.elem
                s = self.mod.size(ty)
            if idx.isdigit():
                k = int(idx)
                if it.bits < 64 and k >> (it.bits - 1):
                    k -= 1 << it.bits
                elif it.bits == 64 and k >> 63:
                    k -= 1 << 64
                off += k * s
            else:
                if it.bits < 64:
                    h = 1 << (it.bits - 1)
                    idx = f"(({idx}^{h})-{h})"
                parts.append(f"{idx}*{s}" if s != 1 else idx)
        e = "+".join([base, *parts])
        if off:
            e += f"+{off}" if off > 0 else f"-{-off}"
        return f"(({e})&{M64})" if (parts or off) else base

    # ---- whole function
    def generate(self):
        head, lines = self.mod.funcs[self.name]
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        t = Toks(re.sub(r"\) [^()]*(personality.*)?\{$", ")", head[m.end() - 1 :].split(" personality ")[0]))
        t.need("(")
        params = []
        while t.peek() != ")":
            self.mod._type(t)
            self.attrs(t)
            if t.kind() == 1:
                params.append(self.var(t.next()))
            else:
                params.append(self.var(f"%{len(params)}"))
            t.eat(",")
        # blocks
        blocks, cur, curname = [], [], None
        entry = str(len(params)) if params else "0"
        curname = entry
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            if not ln.startswith(" "):
                lab = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                if lab:
                    if cur or blocks or True:
                        if cur:
                            blocks.append((curname, cur))
                    curname, cur = lab.group(1), []
                    continue
            s = ln.strip()
            if s.startswith("switch "):
                while not lines[i].strip().startswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            elif " invoke " in " " + s and (s.startswith("invoke ") or "= invoke " in s):
                s += " " + lines[i].strip()
                i += 1
            elif "= landingpad " in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            cur.append(s)
        blocks.append((curname, cur))
        self.bidx = {n: k for k, (n, _) in enumerate(blocks)}
        # phi tables
        self.phis = {}
        for n, ins in blocks:
            ph = []
            for s in ins:
                mm = re.match(r"(%\S+) = phi (.*)$", s)
                if not mm:
                    break
                tt = Toks(self.strip(mm.group(2)))
                self.attrs(tt)
                ty = self.mod._type(tt)
                src = {}
                while tt.eat("["):
                    val = self.value(tt, ty)
                    tt.need(",")
                    src[tt.next()[1:].strip('"')] = val
                    tt.need("]")
                    if not tt.eat(","):
                        break
                ph.append((self.var(mm.group(1)), src))
            self.phis[n.strip('"')] = ph
        bodies = []
        for n, ins in blocks:
            out = []
            for s in ins:
                if re.match(r"%\S+ = phi ", s):
                    continue
                out += self.instr(self.strip(s), n.strip('"'))
            bodies.append(out)
        # source
        src = [f"def F({','.join(params)}):", " b=0"]
        if len(bodies) == 1:
            src += [" " + x for x in bodies[0]]
        else:
            src.append(" while 1:")

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    for x in bodies[lo]:
                        src.append(" " * ind + x)
                    return
                mid = (lo + hi) // 2
                src.append(" " * ind + f"if b<{mid}:")
                tree(lo, mid, ind + 1)
                src.append(" " * ind + "else:")
                tree(mid, hi, ind + 1)

            tree(0, len(bodies), 2)
        return "\n".join(src), self.consts

    META = re.compile(r",? ![\w.]+ ![\w.]+| #\d+|, !srcloc.*$|,? !\w+ !\{\}")

    def strip(self, s):
        return self.META.sub("", s)

    def goto(self, src, dst):
        """statements that go from block src to block dst"""
        dst = dst.strip('"')
        ph = self.phis[dst]
        out = ""
        if ph:
            ps = [(v, m[src]) for v, m in ph if v != m[src]]
            if ps:
                out = ",".join(v for v, _ in ps) + "=" + ",".join(e for _, e in ps) + ";"
        return out + f"b={self.bidx[dst]}"

    def instr(self, s, blk):
        t = Toks(s)
        res = None
        if t.kind() == 1 and t.peek(1) == "=":
            res = self.var(t.next())
            t.next()
        while t.peek() in ("tail", "musttail", "notail"):
            t.next()
        op = t.next()
        mod = self.mod
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            self.attrs(t)
            ty = mod._type(t)
            a = self.value(t, ty)
            t.need(",")
            b = self.value(t, ty)
            n = ty.bits
            m, h = (1 << n) - 1, 1 << (n - 1)
            if op in ("add", "sub", "mul"):
                e = f"({a}{ {'add': '+', 'sub': '-', 'mul': '*'}[op] }{b})&{m}"
            elif op in ("and", "or", "xor"):
                e = f"{a}{ {'and': '&', 'or': '|', 'xor': '^'}[op] }{b}"
            elif op == "shl":
                e = f"({a}<<{b})&{m}"
            elif op == "lshr":
                e = f"{a}>>{b}"
            elif op == "ashr":
                e = f"((({a}^{h})-{h})>>{b})&{m}"
            elif op == "udiv":
                e = f"{a}//{b}"
            elif op == "urem":
                e = f"{a}%{b}"
            else:
                e = f"{op}({a},{b},{n})"
            return [f"{res}={e}"]
        if op == "icmp":
            pred = t.next()
            ty = mod._type(t)
            a = self.value(t, ty)
            t.need(",")
            b = self.value(t, ty)
            c = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[pred]
            if pred[0] == "s":
                h = 1 << ((ty.bits or 64) - 1)
                a = str(int(a) ^ h) if a.isdigit() else f"({a}^{h})"
                b = str(int(b) ^ h) if b.isdigit() else f"({b}^{h})"
            return [f"{res}=1 if {a}{c}{b} else 0"]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            self.attrs(t)
            ty = mod._type(t)
            a = self.value(t, ty)
            t.need(",")
            b = self.value(t, ty)
            if ty.kind == "x86_fp80":
                c = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op]
                return [f"{res}={a}{c}{b}"]
            return [f"{res}={op}({a},{b})"]
        if op == "fneg":
            self.attrs(t)
            ty = mod._type(t)
            return [f"{res}=fneg({self.value(t, ty)})"]
        if op == "fcmp":
            self.attrs(t)
            pred = t.next()
            ty = mod._type(t)
            a = self.value(t, ty)
            t.need(",")
            b = self.value(t, ty)
            return [f"{res}=fcmp({pred!r},{a},{b})"]
        if op == "load":
            self.attrs(t)
            if t.peek() == "atomic":
                t.next()
            self.attrs(t)
            ty = mod._type(t)
            t.need(",")
            pt = mod._type(t)
            p = self.value(t, pt)
            return [f"{res}={self.load(ty, p)}"]
        if op == "store":
            self.attrs(t)
            if t.peek() == "atomic":
                t.next()
            self.attrs(t)
            ty = mod._type(t)
            v = self.value(t, ty)
            t.need(",")
            pt = mod._type(t)
            p = self.value(t, pt)
            return self.store(ty, p, v)
        if op == "getelementptr":
            self.attrs(t)
            return [f"{res}={self.gep(t, None)}"]
        if op == "alloca":
            ty = mod._type(t)
            n = "1"
            if t.eat(",") and t.peek() != "align":
                it = mod._type(t)
                n = self.value(t, it)
            return [f"{res}=alloca({mod.size(ty)}*{n})"]
        if op == "br":
            if t.peek() == "label":
                t.next()
                return [self.goto(blk, t.next()[1:]), "continue"]
            ty = mod._type(t)
            c = self.value(t, ty)
            t.need(",")
            t.need("label")
            a = t.next()[1:]
            t.need(",")
            t.need("label")
            b = t.next()[1:]
            return [f"if {c}:", " " + self.goto(blk, a), "else:", " " + self.goto(blk, b), "continue"]
        if op == "switch":
            ty = mod._type(t)
            c = self.value(t, ty)
            t.need(",")
            t.need("label")
            d = t.next()[1:]
            t.need("[")
            out, kw = [], "if"
            while t.peek() != "]":
                it = mod._type(t)
                v = self.value(t, it)
                t.need(",")
                t.need("label")
                out += [f"{kw} {c}=={v}:", " " + self.goto(blk, t.next()[1:])]
                kw = "elif"
            if not out:
                return [self.goto(blk, d), "continue"]
            return [*out, "else:", " " + self.goto(blk, d), "continue"]
        if op == "ret":
            ty = mod._type(t)
            if ty.kind == "void":
                return ["return"]
            return [f"return {self.value(t, ty)}"]
        if op == "unreachable":
            return ["raise Unsupported('IR: unreachable code reached')"]
        if op == "select":
            self.attrs(t)
            ty = mod._type(t)
            c = self.value(t, ty)
            t.need(",")
            ty = mod._type(t)
            a = self.value(t, ty)
            t.need(",")
            ty = mod._type(t)
            b = self.value(t, ty)
            return [f"{res}={a} if {c} else {b}"]
        if op in ("zext", "inttoptr", "ptrtoint", "freeze"):
            self.attrs(t)
            ty = mod._type(t)
            v = self.value(t, ty)
            if op == "ptrtoint" and t.eat("to"):
                to = mod._type(t)
                if to.bits < 64:
                    v = f"{v}&{(1 << to.bits) - 1}"
            return [f"{res}={v}"]
        if op == "trunc":
            self.attrs(t)
            ty = mod._type(t)
            v = self.value(t, ty)
            t.need("to")
            to = mod._type(t)
            return [f"{res}={v}&{(1 << to.bits) - 1}"]
        if op == "sext":
            ty = mod._type(t)
            v = self.value(t, ty)
            t.need("to")
            to = mod._type(t)
            h = 1 << (ty.bits - 1)
            return [f"{res}=(({v}^{h})-{h})&{(1 << to.bits) - 1}"]
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast"):
            self.attrs(t)
            ty = mod._type(t)
            v = self.value(t, ty)
            t.need("to")
            to = mod._type(t)
            if op in ("sitofp", "uitofp"):
                if op == "sitofp":
                    h = 1 << (ty.bits - 1)
                    v = f"(({v}^{h})-{h})"
                return [f"{res}=float({v})" if to.kind == "x86_fp80" else f"{res}=itof({v})"]
            if op in ("fptosi", "fptoui"):
                return [f"{res}={'ftoi80' if ty.kind == 'x86_fp80' else 'ftoi'}({v},{to.bits})"]
            if op == "fpext":
                return [f"{res}=fp80({v})"]
            if op == "fptrunc":
                return [f"{res}=to_s({v})"]
            if ty.kind == "double" and to.kind == "int":
                return [f"{res}=dbits({v})"]
            if ty.kind == "int" and to.kind == "double":
                return [f"{res}=undbits({v})"]
            return [f"{res}={v}"]
        if op == "extractvalue":
            ty = mod._type(t)
            v = self.value(t, ty)
            while t.eat(","):
                v += f"[{t.next()}]"
            return [f"{res}={v}"]
        if op == "insertvalue":
            ty = mod._type(t)
            v = self.value(t, ty)
            t.need(",")
            et = mod._type(t)
            e = self.value(t, et)
            idx = []
            while t.eat(","):
                idx.append(t.next())
            return [f"{res}=inserted({v},{e},({','.join(idx)},))"]
        if op == "call":
            return [self.call(t, res)]
        if op == "invoke":
            c = self.call(t, res)
            t.need("to")
            t.need("label")
            a = t.next()[1:]
            t.need("unwind")
            t.need("label")
            b = t.next()[1:]
            return ["try:", f" {c}", "except CppException as ex:", " exc=ex;" + self.goto(blk, b), "else:", " " + self.goto(blk, a), "continue"]
        if op == "landingpad":
            mod._type(t)
            clauses, cleanup = [], False
            while t.peek() is not None:
                c = t.next()
                if c == "cleanup":
                    cleanup = True
                elif c == "catch":
                    ty = mod._type(t)
                    clauses.append(self.value(t, ty))
                else:
                    raise Unsupported("filter clause")
            return [f"{res}=landing(exc,({','.join(clauses)}{',' if clauses else ''}),{cleanup})"]
        if op == "resume":
            ty = mod._type(t)
            return [f"resume({self.value(t, ty)})"]
        raise Unsupported(f"IR instruction {op}")

    def load(self, ty, p):
        if ty.kind == "double":
            return f"ldd({p})"
        if ty.kind == "ptr":
            return f"ldi({p},8)"
        if ty.kind == "int":
            n = self.mod.size(ty)
            e = f"ldi({p},{n})"
            return e + "&1" if ty.bits == 1 else e
        if ty.kind == "struct":
            self.mod.size(ty)
            return "(" + ",".join(self.load(e, f"{p}+{o}") for e, o in zip(ty.elems, ty._offs)) + ",)"
        raise Unsupported(f"load {ty.kind}")

    def store(self, ty, p, v):
        if ty.kind in ("double", "ptr"):
            return [f"st({p},8,{v})"]
        if ty.kind == "int":
            return [f"st({p},{self.mod.size(ty)},{v})"]
        if ty.kind == "struct":
            self.mod.size(ty)
            out = []
            for k, (e, o) in enumerate(zip(ty.elems, ty._offs)):
                out += self.store(e, f"{p}+{o}", f"{v}[{k}]")
            return out
        raise Unsupported(f"store {ty.kind}")

    def call(self, t, res):
        self.attrs(t)
        rt = self.mod._type(t)
        if t.peek() == "(":  # function type
            t.skip_parens()
        callee = t.next()
        t.need("(")
        args = []
        while t.peek() != ")":
            ty = self.mod._type(t)
            self.attrs(t)
            if ty.kind == "metadata":
                while t.peek() not in (",", ")"):
                    t.next()
                t.eat(",")
                continue
            args.append(self.value(t, ty))
            t.eat(",")
        t.next()
        a = ",".join(args)
        if callee.startswith("@"):
            fn = self.k(self.vm.callee(self.mod.aliases.get(callee, callee)))
            e = f"{fn}({a})"
        else:
            e = f"icall({self.var(callee)})({a})"
        return f"{res}={e}" if res else e


# ----------------------------------------------------------------------------- doubles
def tiny(x):
    c = core.const_num(x)
    return c is not None and abs(c) < TINY


def ids_of(x, kind):
    return {v for k in x.n for v, _ in k[0] if sym.VARS[v].kind == kind}


def zero(x):
    """is x identically zero"""
    if not x.n:
        return True
    c = core.const_num(x)
    if c is not None:
        return abs(c) < 1e-13
    if ids_of(x, "inv"):
        return not sym.clear_inverses(x).n
    return False


def simp(x):
    """cancel reciprocals against their denominators"""
    for i in sorted(ids_of(x, "inv"), reverse=True):
        if i not in ids_of(x, "inv"):
            continue
        den = sym.VARS[i].square
        top = max(dict(k[0]).get(i, 0) for k in x.n)
        by = {}
        for k, c in x.n.items():
            e = dict(k[0])
            m = e.pop(i, 0)
            by.setdefault(m, {})[(tuple(sorted(e.items())), k[1], k[2])] = c
        num = S()
        pw = to_s(1)
        for m in range(top, -1, -1):
            if m in by:
                num = num + S(by[m], x.d) * pw
            pw = pw * den
        e = top
        while e and num.n:
            try:
                q = sym.quotient(num, den)
            except Unsupported:
                q = None
            if q is None or ids_of(q, "inv") - ids_of(num, "inv"):
                break
            num, e = q, e - 1
        v = S({(((i, 1),), (), 0): 1})
        x = num
        for _ in range(e):
            x = x * v
    return x


class Fabs:
    """|x| whose sign is decided only when the value itself is needed"""

    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


_consts: dict = {}


def val(x):
    if x.__class__ is S:
        return x
    if x.__class__ is float:
        key = (sym._R.N, x)
        r = _consts.get(key)
        if r is None:
            r = _consts[key] = to_s(x)
        return r
    if x.__class__ is Fabs:
        return real_abs(x.x)
    return to_s(x)


def sign(x):
    """-1, 0, 1; 0 only when x vanishes identically"""
    if zero(x):
        return 0
    c = core.const_num(x)
    if c is not None:
        return 1 if c.real > 0 else -1
    p = core.path()
    p.trig = True
    key = ("llvm-sign", frozenset(x.n.items()))
    r = p.memo.get(key)
    if r is None:
        y = sym.clear_inverses(x) if ids_of(x, "inv") else x
        s = 1
        if y is not x:  # sign of the denominators
            for i in sorted(ids_of(x, "inv")):
                top = max(dict(k[0]).get(i, 0) for k in x.n)
                if top % 2:
                    s *= sign(sym.VARS[i].square)
        r = s * core.sign_of(y)
        p.memo[key] = r
        n = -x
        p.memo[("llvm-sign", frozenset(n.n.items()))] = -r
    return r


def real_abs(x):
    return -x if sign(x) < 0 else x


def fadd(a, b):
    a, b = val(a), val(b)
    if a.n and b.n:
        ta, tb = tiny(a), tiny(b)
        if tb and not ta:
            return a
        if ta and not tb:
            return b
    r = a + b
    return simp(r) if ids_of(r, "inv") else r


def fsub(a, b):
    return fadd(a, -val(b))


def fmul(a, b):
    r = val(a) * val(b)
    return simp(r) if ids_of(r, "inv") else r


def fdiv(a, b):
    a, b = val(a), val(b)
    if zero(b):
        raise Unsupported("IR: division by zero")
    if b.is_const():
        return a / b
    r = a / b
    return simp(r) if ids_of(r, "inv") else r


def frem(a, b):
    x, y = core.const_num(val(a)), core.const_num(val(b))
    if x is None or y is None:
        raise Unsupported("IR: remainder of symbolic values")
    return math.fmod(x.real, y.real)


def fneg(a):
    return -val(a)


def fcmp(pred, a, b):
    if isinstance(a, Fabs) or isinstance(b, Fabs):
        other = b if isinstance(a, Fabs) else a
        if not isinstance(other, Fabs) and tiny(val(other)):
            f = a if isinstance(a, Fabs) else b
            z = zero(f.x)
            o = pred[1:]
            if o in ("eq", "ne"):
                return int(z == (o == "eq"))
            if isinstance(a, Fabs):
                return int({"le": z, "lt": z, "gt": not z, "ge": not z}[o])
            return int({"ge": z, "gt": z, "lt": not z, "le": not z}[o])
    a, b = val(a), val(b)
    o = pred[1:]
    if o in ("rd", "no"):
        return int(pred == "ord")
    d = a - b
    if ids_of(d, "inv"):
        d = simp(d)
    c = core.const_num(d)
    if c is not None:
        v = 0.0 if abs(c) < 1e-12 else c.real
        return int({"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[o])
    if tiny(a):
        a = to_s(0)
        d = -b
    elif tiny(b):
        b = to_s(0)
        d = a
    z = zero(d)
    if o in ("eq", "ne"):
        return int(z == (o == "eq"))
    if z:
        return int(o in ("le", "ge"))
    s = compare(d)
    return int((s < 0) if o[0] == "l" else (s > 0))


def compare(d):
    """sign of a value that does not vanish identically; bounded values decide without a case split"""
    return sign(d)


class DBits:
    """the bit pattern of a symbolic double; only its sign can be asked for"""

    __slots__ = ("x",)
    H = 1 << 63

    def __init__(self, x):
        self.x = x

    def __xor__(self, h):
        if h != self.H:
            raise Unsupported("bits of a symbolic double")
        return self

    def __lt__(self, o):
        if o != self.H:
            raise Unsupported("bits of a symbolic double")
        return sign(self.x) < 0

    def __gt__(self, o):
        if o != self.H - 1:
            raise Unsupported("bits of a symbolic double")
        return sign(self.x) >= 0

    def _no(self, *a):
        raise Unsupported("bits of a symbolic double")

    __and__ = __or__ = __add__ = __sub__ = __rshift__ = __lshift__ = __mul__ = __eq__ = __ne__ = __le__ = __ge__ = _no
    __radd__ = __rand__ = __ror__ = __rmul__ = __hash__ = _no


def dbits(x):
    if x.__class__ is float:
        return struct.unpack("<Q", struct.pack("<d", x))[0]
    x = val(x)
    c = core.const_num(x)
    if c is None:
        return DBits(x)
    return struct.unpack("<Q", struct.pack("<d", c.real))[0]


def undbits(v):
    if isinstance(v, DBits):
        return v.x
    return struct.unpack("<d", struct.pack("<Q", v))[0]


def itof(v):
    return to_s(int(v))


def fp80(v):
    v = val(v)
    c = core.const_num(v)
    if c is None:
        raise Unsupported("symbolic long double")
    return c.real


def ftoi(v, bits):
    v = val(v)
    c = core.const_num(v)
    if c is None:
        raise Unsupported("symbolic double to integer")
    f = v.rational() if v.is_rational() else c.real
    return int(f) & ((1 << bits) - 1)


def ftoi80(v, bits):
    return int(v) & ((1 << bits) - 1)


def sdiv(a, b, n):
    h = 1 << (n - 1)
    a, b = (a ^ h) - h, (b ^ h) - h
    return (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) & ((1 << n) - 1)


def srem(a, b, n):
    h = 1 << (n - 1)
    a, b = (a ^ h) - h, (b ^ h) - h
    return (abs(a) % abs(b) * (-1 if a < 0 else 1)) & ((1 << n) - 1)


def inserted(v, e, idx):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = inserted(v[idx[0]], e, idx[1:])
    return tuple(v)


# ----------------------------------------------------------------------------- machine
BASES = {
    "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
    "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt18bad_variant_access": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
    "_ZTISt8bad_cast": "_ZTISt9exception",
}


class VM:
    def __init__(self, text):
        self.mod = Module(text)
        self.addrs = {}
        self.names = {}
        self.gtop = 0x10000
        self.fns = {}
        self.used = set()
        self.ns = {}
        self.mem = {}
        self.msz = {}
        self.lines = set()  # blocks of 64 bytes with cells
        self.top = 0x10000000
        self.snaps = {}
        self.caught = []
        self.exc = {}
        self._init_ns()
        self.reset_tables()

    def reset_tables(self):
        self.hashes = {"nearbyint": [], "round": []}
        self.reserved = set()

    # ---- addresses
    def addr(self, name):
        name = self.mod.aliases.get(name, name)
        a = self.addrs.get(name)
        if a is None:
            if name in self.mod.globals:
                try:
                    n = max(16, self.mod.size(self.mod.globals[name][0]))
                except Unsupported:
                    n = 1024
            else:
                n = 16
            a = self.gtop
            self.gtop += -(-n // 64) * 64 + 64
            self.addrs[name] = a
            self.names[a] = name
        return a

    def _put(self, a, ty, t):
        v = t.peek()
        if v in ("zeroinitializer", "undef", "poison"):
            t.next()
            return
        if ty.kind in ("int", "ptr", "double"):
            g = Gen(self.mod, self, None)
            e = g.value(t, ty)
            x = eval(e)  # noqa: S307
            self.st(a, 8 if ty.kind != "int" else self.mod.size(ty), x)
            return
        if ty.kind == "arr":
            if v.startswith('c"'):
                t.next()
                s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), v[2:-1])
                for k, ch in enumerate(s):
                    self.st(a + k, 1, ord(ch))
                return
            t.need("[")
            n = self.mod.size(ty.elem)
            for k in range(ty.n):
                et = self.mod._type(t)
                self._put(a + k * n, et, t)
                t.eat(",")
            t.need("]")
            return
        if ty.kind == "struct":
            self.mod.size(ty)
            packed = t.eat("<")
            t.need("{")
            for e, o in zip(ty.elems, ty._offs):
                self.mod._type(t)
                self._put(a + o, e, t)
                t.eat(",")
            t.need("}")
            if packed:
                t.need(">")
            return
        raise Unsupported(f"initializer {ty.kind}")

    # ---- functions
    def callee(self, name):
        f = self.fns.get(name)
        if f is None:
            if name in self.mod.funcs:
                f = self._lazy(name)
            else:
                f = self._external(name)
            self.fns[name] = f
        return f

    def _lazy(self, name):
        cell = []

        def call(*a):
            if not cell:
                src, consts = Gen(self.mod, self, name).generate()
                ns = dict(self.ns)
                ns.update(consts)
                exec(compile(src, f"<{name[1:60]}>", "exec"), ns)  # noqa: S102
                cell.append(ns["F"])
                self.used.add(name[1:])
            return cell[0](*a)

        return call

    def _external(self, name):
        n = name[1:].strip('"')
        m = getattr(self, "x_" + re.sub(r"\W", "_", n), None)
        if m is not None:
            return m
        for pat, h in self.PATTERNS:
            if re.match(pat, n):
                return getattr(self, h)

        def missing(*a):
            raise Unsupported(f"external function {n}")

        return missing

    def call(self, name, *a):
        return self.callee("@" + name)(*a)

    # ---- start of a path
    def boot(self):
        """memory after static initialisation; the same for every path"""
        n = sym._R.N
        if n not in self.snaps:  # values of the constants depend on the ring
            self.mem.clear()
            self.msz.clear()
            self.lines.clear()
            self.reset_tables()
            self.caught.clear()
            self.exc.clear()
            for g, (ty, init) in self.mod.globals.items():
                if init is not None:
                    self._put(self.addr(g), ty, copy.copy(init))
            for c in self.mod.ctors:
                self.callee(c)()
            self.snaps[n] = (dict(self.mem), dict(self.msz), self.top, set(self.lines))
            return
        mem, msz, top, lines = self.snaps[n]
        self.lines.clear()
        self.lines.update(lines)
        self.mem.clear()
        self.mem.update(mem)
        self.msz.clear()
        self.msz.update(msz)
        self.top = top
        self.reset_tables()
        self.caught.clear()
        self.exc.clear()

    # ---- memory
    def alloc(self, n):
        a = self.top
        self.top += -(-max(n, 1) // 16) * 16 + 16
        return a

    def ldi(self, a, n):
        v = self.mem.get(a)
        if v is not None and self.msz[a] == n:
            if v.__class__ is S or v.__class__ is float:
                return dbits(v)
            return v
        return self._bytes(a, n)

    def ldd(self, a):
        v = self.mem.get(a)
        if v is not None and self.msz[a] == 8:
            if v.__class__ is S or v.__class__ is float:
                return v
            return undbits(v)
        return undbits(self._bytes(a, 8))

    def _cover(self, b):
        """(cell address, size) of the cell that holds byte b"""
        msz = self.msz
        for k in range(8):
            s = msz.get(b - k)
            if s is not None:
                return (b - k, s) if s > k else None
        return None

    def _bytes(self, a, n):
        if a < 4096:
            raise Unsupported("IR: null pointer read")
        ln = self.lines
        if (a >> 6) not in ln and ((a + n - 1) >> 6) not in ln and ((a - 7) >> 6) not in ln:
            return 0
        out = 0
        for k in range(n):
            c = self._cover(a + k)
            if c is None:
                continue
            v = self.mem[c[0]]
            if v.__class__ is not int:
                if isinstance(v, DBits):
                    raise Unsupported("bytes of a symbolic double")
                v = dbits(v) if isinstance(v, (S, float)) else int(v)
                if isinstance(v, DBits):
                    raise Unsupported("bytes of a symbolic double")
            out |= ((v >> (8 * (a + k - c[0]))) & 255) << (8 * k)
        return out

    def st(self, a, n, v):
        msz = self.msz
        if msz.get(a) != n:
            if a < 4096:
                raise Unsupported("IR: null pointer write")
            self._clear(a, n)
            msz[a] = n
            self.lines.add(a >> 6)
        if v.__class__ is DBits:
            v = v.x
        elif v.__class__ is Fabs:
            v = val(v)
        self.mem[a] = v

    def _clear(self, a, n):
        """split the cells that overlap [a, a+n) and remove that range"""
        msz, mem, ln = self.msz, self.mem, self.lines
        b = a - 8
        while b < a + n - 1:
            b += 1
            if (b >> 6) not in ln:
                b |= 63
                continue
            s = msz.get(b)
            if s is None or b + s <= a:
                continue
            v = mem[b]
            if b < a or b + s > a + n:
                if v.__class__ is not int:
                    v = dbits(v) if isinstance(v, (S, float)) else v
                    if isinstance(v, DBits):
                        raise Unsupported("partial overwrite of a symbolic double")
                    v = int(v)
                del mem[b], msz[b]
                for k in range(s):
                    if not a <= b + k < a + n:
                        mem[b + k] = (v >> (8 * k)) & 255
                        msz[b + k] = 1
                        ln.add((b + k) >> 6)
            else:
                del mem[b], msz[b]

    def memcpy(self, d, s, n, *_):
        if n == 0:
            return d
        msz, mem = self.msz, self.mem
        if n > 4096:
            cells = [(a - s, z, mem[a]) for a, z in msz.items() if s <= a and a + z <= s + n]
            if any(a < s < a + z or a < s + n < a + z for a, z in msz.items()):
                raise Unsupported("large copy through a cell")
            self.memset(d, 0, n)
            for k, z, v in cells:
                mem[d + k] = v
                msz[d + k] = z
                self.lines.add((d + k) >> 6)
            return d
        cells = []
        k = 0
        ln = self.lines
        while k < n:
            if ((s + k) >> 6) not in ln and ((s + k - 7) >> 6) not in ln:
                k = ((s + k) | 63) + 1 - s
                continue
            z = msz.get(s + k)
            if z is not None and k + z <= n:
                cells.append((k, z, mem[s + k]))
                k += z
                continue
            c = self._cover(s + k)
            if c is not None:
                cells.append((k, 1, self._bytes(s + k, 1)))
            k += 1
        self._clear(d, n)
        for k, z, v in cells:
            mem[d + k] = v
            msz[d + k] = z
            ln.add((d + k) >> 6)
        return d

    def memset(self, d, v, n, *_):
        if n == 0:
            return d
        if n > 4096:
            if v:
                raise Unsupported("large fill")
            hit = [a for a in self.msz if d - 8 < a < d + n]
            for a in hit:
                if a >= d and a + self.msz[a] <= d + n:
                    del self.mem[a], self.msz[a]
                elif a + self.msz[a] > d:
                    raise Unsupported("large fill through a cell")
            return d
        self._clear(d, n)
        if v:
            for k in range(n):
                self.mem[d + k] = v
                self.msz[d + k] = 1
                self.lines.add((d + k) >> 6)
        return d

    def cstr(self, a):
        out = []
        while True:
            c = self.ldi(a, 1)
            if c == 0:
                return "".join(out)
            out.append(chr(c))
            a += 1

    # ---- exceptions
    def throw(self, tinfo, ptr=None):
        if ptr is None:
            ptr = self.alloc(64)
        e = CppException(ptr, tinfo)
        self.exc[ptr] = e
        raise e

    def landing(self, e, clauses, cleanup):
        for c in clauses:
            if c == 0:
                return (e.ptr, 1)
            n = self.names.get(c, "@?")[1:]
            t = e.tinfo
            while t is not None:
                if t == n:
                    return (e.ptr, c & 0x7FFFFFFF)
                t = BASES.get(t)
        if not cleanup and clauses:
            raise e
        return (e.ptr, 0)

    def resume(self, v):
        raise self.exc[v[0]]

    def icall(self, a):
        n = self.names.get(a)
        if n is None:
            raise Unsupported("indirect call")
        return self.callee(n)

    # ---- hashing of doubles
    def hashed(self, what, x):
        x = val(x)
        c = core.const_num(x)
        if c is not None:
            f = c.real
            if abs(f - round(f)) < 1e-9:
                r = round(f)
            else:
                r = round(f) if what == "nearbyint" else math.floor(abs(f) + 0.5) * (1 if f >= 0 else -1)
            if (what, r) in self.reserved:
                raise Unsupported("hash value in the reserved range")
            return to_s(r)
        tab = self.hashes[what]
        for y, r in tab:
            if zero(x - y):
                return to_s(r)
        r = 3001 + 7 * len(tab)
        self.reserved.add((what, r))
        tab.append((x, r))
        return to_s(r)

    # ---- external functions
    PATTERNS = [
        (r"llvm\.(lifetime|invariant|assume|experimental\.noalias|dbg|donothing|stacksave|stackrestore)", "nop"),
        (r"llvm\.memcpy|llvm\.memmove|memcpy$|memmove$", "memcpy"),
        (r"llvm\.memset|memset$", "memset"),
        (r"_ZdlPv|_ZdaPv|free$", "nop"),
        (r"_Zn[wa]m", "alloc"),
        (r"__cxa_(atexit|guard_abort|free_exception|end_catch)$", "nop"),
        (r"_ZNSt(9exception|13runtime_error|16invalid_argument|12out_of_range|12length_error|11logic_error)D\dEv", "nop"),
        (r"_ZNSt\w*(invalid_argument|runtime_error|out_of_range|length_error|logic_error)C\dE", "exception"),
        (r"_ZStls|_ZNSolsE|_ZNSo|_ZSt4endl|_ZSt16__ostream|_ZSt5flush", "first"),
        (r"_ZNSt13random_device7_M_(init|fini)", "nop"),
    ]

    def nop(self, *a):
        return 0

    def exception(self, p, *a):
        """constructors of the standard exceptions: a table of virtual functions with what()"""
        t = self.alloc(32)
        self.st(t, 8, self.addr("@vp_what"))
        self.st(t + 8, 8, self.addr("@vp_what"))
        self.st(t + 16, 8, self.addr("@vp_what"))
        self.st(p, 8, t)
        return 0

    def x_vp_what(self, *a):
        t = self.alloc(8)
        self.st(t, 1, 0)
        return t

    def first(self, *a):
        return a[0]

    def x_llvm_cos_f64(self, x):
        return sym.cos(val(x))

    def x_llvm_sin_f64(self, x):
        return sym.sin(val(x))

    x_cos, x_sin = x_llvm_cos_f64, x_llvm_sin_f64

    def x_llvm_fabs_f64(self, x):
        x = val(x)
        c = core.const_num(x)
        if c is not None:
            return x if c.real >= 0 else -x
        return Fabs(x)

    def x_llvm_sqrt_f64(self, x):
        x = val(x)
        inv = ids_of(x, "inv")
        if not inv:
            return sym.sqrt(x)
        # sqrt(n / prod d^e) = sqrt(n * prod d^(e mod 2)) / prod |d|^ceil(e/2)
        den = to_s(1)
        num = x
        for i in sorted(inv, reverse=True):
            if i not in ids_of(num, "inv"):
                continue
            d = sym.VARS[i].square
            top = max(dict(k[0]).get(i, 0) for k in num.n)
            e = top + top % 2
            acc, pw = S(), {}
            for k, c in num.n.items():
                ee = dict(k[0])
                m = ee.pop(i, 0)
                if e - m not in pw:
                    q = to_s(1)
                    for _ in range(e - m):
                        q = q * d
                    pw[e - m] = q
                acc = acc + S({(tuple(sorted(ee.items())), k[1], k[2]): c}, num.d) * pw[e - m]
            num = acc
            a = real_abs(d)
            for _ in range(e // 2):
                den = den * a
        return fdiv(sym.sqrt(num), den)

    x_sqrt = x_llvm_sqrt_f64

    def x_llvm_copysign_f64(self, a, b):
        a = val(a)
        if zero(a):
            return 0.0
        m = real_abs(a)
        return m if sign(val(b)) >= 0 else -m

    def x_fmod(self, a, b):
        return frem(a, b)

    def x_llvm_nearbyint_f64(self, x):
        return self.hashed("nearbyint", x)

    def x_llvm_round_f64(self, x):
        return self.hashed("round", x)

    x_llvm_rint_f64 = x_llvm_nearbyint_f64

    def x_llvm_log_f80(self, x):
        return math.log(x)

    def x_nextafter(self, a, b):
        return a

    def x_llvm_umax_i64(self, a, b):
        return max(a, b)

    def x_llvm_umin_i64(self, a, b):
        return min(a, b)

    x_llvm_umax_i32, x_llvm_umin_i32 = x_llvm_umax_i64, x_llvm_umin_i64

    @staticmethod
    def _sgn(a, n):
        h = 1 << (n - 1)
        return (a ^ h) - h

    def x_llvm_smax_i64(self, a, b):
        return a if self._sgn(a, 64) >= self._sgn(b, 64) else b

    def x_llvm_smin_i64(self, a, b):
        return a if self._sgn(a, 64) <= self._sgn(b, 64) else b

    def x_llvm_smax_i32(self, a, b):
        return a if self._sgn(a, 32) >= self._sgn(b, 32) else b

    def x_llvm_smin_i32(self, a, b):
        return a if self._sgn(a, 32) <= self._sgn(b, 32) else b

    def x_llvm_smax_i8(self, a, b):
        return a if self._sgn(a, 8) >= self._sgn(b, 8) else b

    def x_llvm_smin_i8(self, a, b):
        return a if self._sgn(a, 8) <= self._sgn(b, 8) else b

    def x_llvm_abs_i32(self, a, _):
        return abs(self._sgn(a, 32))

    def x_llvm_maxnum_f64(self, a, b):
        return a if fcmp("oge", a, b) else b

    def x_llvm_minnum_f64(self, a, b):
        return a if fcmp("ole", a, b) else b

    def x_strlen(self, a):
        return len(self.cstr(a))

    def x_strcmp(self, a, b):
        x, y = self.cstr(a), self.cstr(b)
        return 0 if x == y else (1 if x > y else 0xFFFFFFFF)

    def x_memcmp(self, a, b, n):
        for k in range(n):
            x, y = self.ldi(a + k, 1), self.ldi(b + k, 1)
            if x != y:
                return 1 if x > y else 0xFFFFFFFF
        return 0

    x_bcmp = x_memcmp

    def x_llvm_eh_typeid_for(self, a):
        return a & 0x7FFFFFFF

    x_llvm_eh_typeid_for_p0 = x_llvm_eh_typeid_for

    def x___cxa_begin_catch(self, p):
        self.caught.append(p)
        return p

    def x___cxa_rethrow(self):
        raise self.exc[self.caught[-1]]

    def x___cxa_allocate_exception(self, n):
        return self.alloc(n)

    def x___cxa_throw(self, p, tinfo, dtor):
        self.throw(self.names[tinfo][1:], p)

    def x__ZSt9terminatev(self):
        raise Unsupported("std::terminate")

    def x__ZSt28__throw_bad_array_new_lengthv(self):
        self.throw("_ZTISt20bad_array_new_length")

    def x__ZSt17__throw_bad_allocv(self):
        self.throw("_ZTISt9bad_alloc")

    def x__ZSt20__throw_length_errorPKc(self, a):
        self.throw("_ZTISt12length_error")

    def x__ZSt19__throw_logic_errorPKc(self, a):
        self.throw("_ZTISt11logic_error")

    def x__ZSt24__throw_out_of_range_fmtPKcz(self, *a):
        self.throw("_ZTISt12out_of_range")

    def x__ZSt20__throw_out_of_rangePKc(self, a):
        self.throw("_ZTISt12out_of_range")

    def x__ZSt16__throw_bad_castv(self):
        self.throw("_ZTISt8bad_cast")

    def x___cxa_guard_acquire(self, a):
        return 0 if self.ldi(a, 1) else 1

    def x___cxa_guard_release(self, a):
        self.st(a, 1, 1)

    def x__ZNSt6chrono3_V212system_clock3nowEv(self):
        return 1_700_000_000_000_000_000

    def x__ZNSt13random_device9_M_getvalEv(self, *_):
        return self.seed & 0xFFFFFFFF

    seed = 12345

    # std::string: {ptr, size, local buffer / capacity}
    def _sset(self, p, n):
        self.st(p + 8, 8, n)
        self.st(self.ldi(p, 8) + n, 1, 0)

    def _scap(self, p):
        return 15 if self.ldi(p, 8) == p + 16 else self.ldi(p + 16, 8)

    def _read(self, a, n):
        return [self.ldi(a + k, 1) for k in range(n)]

    def _sput(self, p, data):
        n = len(data)
        if n > self._scap(p):
            cap = max(n, 2 * self._scap(p))
            a = self.alloc(cap + 1)
            self.st(p, 8, a)
            self.st(p + 16, 8, cap)
        a = self.ldi(p, 8)
        for k, c in enumerate(data):
            self.st(a + k, 1, c)
        self._sset(p, n)
        return p

    STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"

    def s_create(self, p, capref, old):
        cap = self.ldi(capref, 8)
        if cap > old and cap < 2 * old:
            cap = 2 * old
            self.st(capref, 8, cap)
        return self.alloc(cap + 1)

    def s_reserve(self, p, n):
        if n > self._scap(p):
            data = self._read(self.ldi(p, 8), self.ldi(p + 8, 8))
            a = self.alloc(n + 1)
            self.st(p, 8, a)
            self.st(p + 16, 8, n)
            self._sput(p, data)

    def s_append(self, p, s, n):
        return self._sput(p, self._read(self.ldi(p, 8), self.ldi(p + 8, 8)) + self._read(s, n))

    def s_replace(self, p, pos, n1, s, n2):
        d = self._read(self.ldi(p, 8), self.ldi(p + 8, 8))
        return self._sput(p, d[:pos] + self._read(s, n2) + d[pos + n1 :])

    def s_construct(self, p, n, c):
        self.st(p, 8, p + 16)
        return self._sput(p, [c] * n)

    def s_assign(self, p, o):
        if p != o:
            self._sput(p, self._read(self.ldi(o, 8), self.ldi(o + 8, 8)))
        return p

    def s_mutate(self, p, pos, n1, s, n2):
        d = self._read(self.ldi(p, 8), self.ldi(p + 8, 8))
        mid = self._read(s, n2) if s else [0] * n2
        n = self.ldi(p + 8, 8)
        self._sput(p, d[:pos] + mid + d[pos + n1 :])
        self.st(p + 8, 8, n)

    # red-black trees, without balancing: {colour, parent, left, right}
    def x__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(self, left, x, par, head):
        st, ld = self.st, self.ldi
        st(x + 8, 8, par)
        st(x + 16, 8, 0)
        st(x + 24, 8, 0)
        st(x, 4, 1)
        if left:
            st(par + 16, 8, x)
            if par == head:
                st(head + 8, 8, x)
                st(head + 24, 8, x)
            elif par == ld(head + 16, 8):
                st(head + 16, 8, x)
        else:
            st(par + 24, 8, x)
            if par == ld(head + 24, 8):
                st(head + 24, 8, x)

    def _next(self, x):
        ld = self.ldi
        if ld(x + 24, 8):
            x = ld(x + 24, 8)
            while ld(x + 16, 8):
                x = ld(x + 16, 8)
            return x
        y = ld(x + 8, 8)
        while x == ld(y + 24, 8):
            x, y = y, ld(y + 8, 8)
        return y if ld(x + 24, 8) != y else x

    def _prev(self, x):
        ld = self.ldi
        if ld(x + 8, 8) and ld(ld(x + 8, 8) + 8, 8) == x and ld(x, 4) == 0:
            return ld(x + 24, 8)
        if ld(x + 16, 8):
            y = ld(x + 16, 8)
            while ld(y + 24, 8):
                y = ld(y + 24, 8)
            return y
        y = ld(x + 8, 8)
        while x == ld(y + 16, 8):
            x, y = y, ld(y + 8, 8)
        return y

    def x__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(self, x):
        return self._next(x)

    x__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base = x__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base

    def x__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(self, x):
        return self._prev(x)

    x__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base = x__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base

    def _init_ns(self):
        for k, f in (("9_M_createERmm", self.s_create), ("9_M_appendEPKcm", self.s_append), ("10_M_replaceEmmPKcm", self.s_replace),
                     ("12_M_constructEmc", self.s_construct), ("9_M_assignERKS4_", self.s_assign), ("7reserveEm", self.s_reserve), ("9_M_mutateEmmPKcm", self.s_mutate),
                     ("12_M_mutateEmmPKcm", self.s_mutate)):
            setattr(self, "x_" + self.STR + k, f)
        self.ns = {
            "ldi": self.ldi, "ldd": self.ldd, "st": self.st, "alloca": self.alloc, "fadd": fadd, "fsub": fsub, "fmul": fmul,
            "fdiv": fdiv, "frem": frem, "fneg": fneg, "fcmp": fcmp, "dbits": dbits, "undbits": undbits, "itof": itof, "ftoi": ftoi, "ftoi80": ftoi80,
            "fp80": fp80, "to_s": to_s, "sdiv": sdiv, "srem": srem, "inserted": inserted, "landing": self.landing,
            "resume": self.resume, "icall": self.icall, "CppException": CppException, "Unsupported": Unsupported,
        }
