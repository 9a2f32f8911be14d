"""Contracts on LLVM IR, discharged by z3 and cvc5.

C17's subject is LLVM IR: `intrinsics.ll`, which the build script of
ethnum-intrinsics generates, and the forwarding functions of
`src/intrinsics/llvm.rs` as rustc compiles them.  On every run both are
produced again from /repo by the crate's own build (cargo, the pinned rustc and
the unmodified build script), and every function is verified against its
contract:

* each `@__ethnum_NAME` of `intrinsics.ll` against the contract of NAME;
* each `ethnum::intrinsics::NAME` against the same contract, its call of
  `@__ethnum_X` being replaced by the contract of X.

A contract gives the 256-bit result and the flag or count as terms over the
operands on entry; the frame is that only the result's 32 bytes change.  The
verification conditions are generated by symbolic execution of the (acyclic)
body.  They include that no poison value is stored, returned or branched on
(nuw, nsw, nneg, exact, disjoint, range, shift amounts), that loads and stores
stay within the operands and within their alignment, and that the attributes
the IR states about parameters and results are true (readonly, writeonly,
dereferenceable, initializes, range), as the optimizer relies on them.  LLVM's
own intrinsics (with.overflow, fshl, fshr, ctlz, cttz, ...) are used by their
contracts in the LLVM reference.

Not modelled: attributes about capture, freedom from exceptions,
synchronization and termination (the bodies have no loops and no other calls);
code generation after the IR.
"""
import concurrent.futures as cf
import glob
import os
import re
import time

import native
from core import NATIVE_TOOLCHAIN, VERIF, REPO, run

HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "machinery", "clang_shim.sh")


class Unsupported(Exception):
    pass


class Lost(Exception):
    pass


# ---------------------------------------------------------------- terms
# SMT-LIB strings; booleans are Bool, integers are bit vectors.

def bv(v, w):
    return f"(_ bv{v % (1 << w)} {w})"


def AND(*xs):
    xs = [x for x in xs if x != "true"]
    if any(x == "false" for x in xs):
        return "false"
    if not xs:
        return "true"
    return xs[0] if len(xs) == 1 else "(and " + " ".join(xs) + ")"


def OR(*xs):
    xs = [x for x in xs if x != "false"]
    if any(x == "true" for x in xs):
        return "true"
    if not xs:
        return "false"
    return xs[0] if len(xs) == 1 else "(or " + " ".join(xs) + ")"


def NOT(x):
    return {"true": "false", "false": "true"}.get(x) or f"(not {x})"


def ITE(c, a, b):
    if a == b or c == "true":
        return a
    if c == "false":
        return b
    return f"(ite {c} {a} {b})"


def zx(t, n):
    return f"((_ zero_extend {n}) {t})" if n else t


def sx(t, n):
    return f"((_ sign_extend {n}) {t})" if n else t


def ext(t, hi, lo):
    return f"((_ extract {hi} {lo}) {t})"


def b2v(c):
    return ITE(c, "#b1", "#b0")


def comm(op, a, b):
    a, b = sorted([a, b])
    return f"({op} {a} {b})"


# ---------------------------------------------------------------- contracts

class Contract:
    """result: term or None; ret: (width, term) or None; pre: term."""
    def __init__(self, args, result=None, ret=None, pre="true", facts=()):
        self.args, self.result, self.ret, self.pre = args, result, ret, pre
        self.facts = list(facts)


def addflow(op, a, b, signed):
    e = sx if signed else zx
    wide = comm("bvadd", e(a, 1), e(b, 1)) if op == "bvadd" else f"({op} {e(a, 1)} {e(b, 1)})"
    return NOT(f"(= {wide} {e(comm('bvadd', a, b) if op == 'bvadd' else f'({op} {a} {b})', 1)})")


def mulflow(a, b, w):
    return NOT(f"(= {ext(comm('bvmul', zx(a, w), zx(b, w)), 2 * w - 1, w)} {bv(0, w)})")


def rol(a, k, w):
    """k: term of width w, already below w."""
    inv = f"(bvurem (bvsub {bv(w, w)} {k}) {bv(w, w)})"
    return f"(bvor (bvshl {a} {k}) (bvlshr {a} {inv}))"


def count_facts(x, r, w, lead):
    """What ctlz (cttz) is: r, of width w, is the number of leading (trailing)
    zeros of x."""
    zero = f"(= {x} {bv(0, w)})"
    if lead:
        one = f"(= (bvlshr {x} (bvsub {bv(w - 1, w)} {r})) {bv(1, w)})"
    else:
        sh = f"(bvlshr {x} {r})"
        one = AND(f"(= (bvshl {sh} {r}) {x})", f"(= {ext(sh, 0, 0)} #b1)")
    return AND(f"(bvule {r} {bv(w, w)})",
               ITE(zero, f"(= {r} {bv(w, w)})", AND(f"(bvult {r} {bv(w, w)})", one)))


W = 256


def contract(name, r, a, b, n, fresh):
    """Contract of the intrinsic NAME: terms for *r on entry, *a, *b (256 bits)
    and the amount n (32 bits)."""
    two, three = name[-1] == "2", name[-1] == "3"
    x, y = (r, a) if two else (a, b)
    base = name[:-1]
    if name in ("add2", "add3"):
        return comm("bvadd", x, y), None, "true", []
    if name in ("sub2", "sub3"):
        return f"(bvsub {x} {y})", None, "true", []
    if name in ("mul2", "mul3"):
        return comm("bvmul", x, y), None, "true", []
    if name in ("uaddc", "iaddc"):
        return comm("bvadd", a, b), (1, b2v(addflow("bvadd", a, b, name[0] == "i"))), "true", []
    if name in ("usubc", "isubc"):
        return f"(bvsub {a} {b})", (1, b2v(addflow("bvsub", a, b, name[0] == "i"))), "true", []
    if name == "umulc":
        return comm("bvmul", a, b), (1, b2v(mulflow(a, b, W))), "true", []
    if base in ("shl", "shr", "sar"):
        op = {"shl": "bvshl", "shr": "bvlshr", "sar": "bvashr"}[base]
        return f"({op} {r if two else a} {zx(n, W - 32)})", None, f"(bvult {n} {bv(256, 32)})", []
    if name in ("rol3", "ror3"):
        k = zx(ext(n if name == "rol3" else f"(bvneg {n})", 7, 0), W - 8)
        return rol(a, k, W), None, "true", []
    if name in ("ctlz", "cttz"):
        c = fresh(W)
        return None, (32, ext(c, 31, 0)), "true", [count_facts(a, c, W, name == "ctlz")]
    raise Unsupported(f"no contract for the intrinsic {name}")


def shape(name):
    """Parameters: r (result), a, b (operands), n (amount)."""
    if name in ("shl2", "sar2", "shr2"):
        return "rn"
    if name in ("shl3", "sar3", "shr3", "rol3", "ror3"):
        return "ran"
    if name in ("ctlz", "cttz"):
        return "a"
    if name.endswith("2"):
        return "ra"
    return "rab"


NAMES = ["add2", "add3", "uaddc", "iaddc", "sub2", "sub3", "usubc", "isubc", "mul2", "mul3", "umulc",
         "shl2", "shl3", "sar2", "sar3", "shr2", "shr3", "rol3", "ror3", "ctlz", "cttz"]


# ---------------------------------------------------------------- parsing

def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def balanced(s, i):
    """Index after the parenthesis that closes the one at s[i]."""
    d = 0
    for k in range(i, len(s)):
        d += {"(": 1, ")": -1}.get(s[k], 0)
        if d == 0:
            return k + 1
    raise Unsupported("unbalanced: " + s)


class Fn:
    pass


def parse_fn(head, lines):
    f = Fn()
    m = re.search(r'@("?[\w.$]+"?)\(', head)
    f.name = m.group(1).strip('"')
    e = balanced(head, m.end() - 1)
    f.params = []
    for p in split_args(head[m.end():e - 1]):
        ty = p.split()[0]
        nm = re.search(r"(%[\w.$\"]+)$", p)
        f.params.append((ty, nm.group(1), p))
    f.ret = head[:m.start()]
    f.tail = head[e:]
    f.blocks, cur = {}, None
    f.entry = None
    for l in lines:
        l = l.split(", !dbg")[0]
        l = re.sub(r"\s;.*$", "", l).rstrip()
        s = l.strip()
        if not s or s.startswith((";", "#dbg", "uselistorder")):
            continue
        m = re.match(r'^("?[\w.$]+"?):', l)
        if m:
            cur = m.group(1)
            f.blocks[cur] = []
            f.entry = f.entry or cur
            continue
        if cur is None:
            cur = f.entry = "%entry"
            f.blocks[cur] = []
        f.blocks[cur].append(s)
    return f


def functions(text):
    out = {}
    ls = text.split("\n")
    i = 0
    while i < len(ls):
        if ls[i].startswith("define "):
            head = ls[i].rstrip()
            j = i + 1
            while ls[j] != "}":
                j += 1
            try:
                f = parse_fn(head, ls[i + 1:j])
                out[f.name] = f
            except (Unsupported, AttributeError):
                pass
            i = j
        i += 1
    return out


def int_width(ty):
    m = re.fullmatch(r"i(\d+)", ty)
    if not m:
        raise Unsupported("type " + ty)
    return int(m.group(1))


def size_of(ty):
    if ty == "ptr":
        return 8
    m = re.fullmatch(r"\[(\d+) x (.*)\]", ty)
    if m:
        return int(m.group(1)) * size_of(m.group(2))
    return (int_width(ty) + 7) // 8


# ---------------------------------------------------------------- execution

class Obj:
    """A memory object: bytes as terms of width 8, or one 256-bit term while it
    is only used whole."""
    def __init__(self, name, size, term=None, align=1):
        self.name, self.size, self.align = name, size, align
        self.term = term
        self.ptrs = {}          # offset -> stored pointer (allocas)

    def copy(self):
        o = Obj(self.name, self.size, self.term, self.align)
        o.ptrs = dict(self.ptrs)
        return o


class Val:
    def __init__(self, w, t, poison="false"):
        self.w, self.t, self.poison = w, t, poison


class Ptr:
    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off


class Exec:
    MAX_PATHS = 64

    def __init__(self, fn, name, callee_contracts):
        self.fn, self.name, self.callees = fn, name, callee_contracts
        self.decls, self.defs, self.obs, self.assume = [], [], [], []
        self.n = 0
        self.paths = 0
        self.model = {}

    def fresh(self, w):
        self.n += 1
        v = f"v{self.n}"
        self.decls.append(f"(declare-const {v} (_ BitVec {w}))")
        return v

    def let(self, t, sort):
        if len(t) < 60:
            return t
        self.n += 1
        v = f"d{self.n}"
        self.defs.append(f"(define-fun {v} () {sort} {t})")
        return v

    def val(self, w, t, poison="false"):
        return Val(w, self.let(t, f"(_ BitVec {w})"), self.let(poison, "Bool") if poison not in ("true", "false") else poison)

    def oblige(self, path, what, goal):
        if goal != "true":
            self.obs.append((what, list(self.assume) + [path], goal, len(self.defs)))
        else:
            self.obs.append((what, None, goal, 0))

    # contracts of the function under verification
    def start(self):
        sh = shape(self.name)
        self.init = {}
        ints = [p for p in self.fn.params if p[0] != "ptr"]
        if [("ptr" if c in "rab" else "i32") for c in sh] != [p[0] for p in self.fn.params]:
            raise Unsupported(f"parameters of {self.fn.name}: {[p[0] for p in self.fn.params]}")
        regs, mem = {}, {}
        self.roles = {}
        for c, (ty, reg, attrs) in zip(sh, self.fn.params):
            if c in "rab":
                t = self.fresh(W)
                self.model[c] = t
                mem[c] = Obj(c, 32, t, 16)
                regs[reg] = Ptr(c)
                self.init[c] = t
                self.roles[c] = attrs
                m = re.search(r"dereferenceable\((\d+)\)", attrs)
                if m:
                    self.oblige("true", f"{self.name}: dereferenceable({m.group(1)}) within the operand",
                                "true" if int(m.group(1)) <= 32 else "false")
                m = re.search(r"\balign (\d+)", attrs)
                if m:
                    self.oblige("true", f"{self.name}: align {m.group(1)} of a parameter",
                                "true" if int(m.group(1)) <= 16 else "false")
                if c == "r" and "readonly" in attrs:
                    self.oblige("true", f"{self.name}: the result is readonly", "false")
                if c != "r" and "writeonly" in attrs:
                    self.oblige("true", f"{self.name}: an operand is writeonly", "false")
                if "readnone" in attrs:
                    self.oblige("true", f"{self.name}: a parameter is readnone", "false")
            else:
                t = self.fresh(int_width(ty))
                self.model["n"] = t
                self.init["n"] = t
                regs[reg] = Val(int_width(ty), t)
        g = self.init.get
        res, ret, pre, facts = contract(self.name, g("r"), g("a"), g("b"), g("n"), self.fresh)
        self.assume += [pre] + facts
        self.assume = [x for x in self.assume if x != "true"]
        self.post = (res, ret)
        # uninitialised result: its bytes on entry may not be used
        self.uninit_r = self.name[-1] != "2"
        self.block(self.fn.entry, None, regs, mem, "true", set(), 0)
        if not self.paths:
            raise Unsupported("no path returns")

    def operand(self, regs, ty, s):
        s = s.strip()
        if ty == "ptr":
            if s in regs:
                return regs[s]
            raise Unsupported("pointer " + s)
        w = int_width(ty)
        if s in regs:
            v = regs[s]
            if not isinstance(v, Val) or v.w != w:
                raise Unsupported("operand " + s)
            return v
        if s in ("true", "false"):
            return Val(1, "#b1" if s == "true" else "#b0")
        if s in ("undef", "poison"):
            return Val(w, bv(0, w), "true")
        if re.fullmatch(r"-?\d+", s):
            return Val(w, bv(int(s), w))
        raise Unsupported("operand " + s)

    def block(self, name, prev, regs, mem, path, written, depth):
        if depth > 200:
            raise Unsupported("loop")
        regs = dict(regs)
        mem = {k: o.copy() for k, o in mem.items()}
        written = set(written)
        phis = {}
        ins = self.fn.blocks.get(name)
        if ins is None:
            raise Unsupported("block " + str(name))
        for s in ins:
            m = re.match(r"(%[\w.$\"]+) = phi (\S+) (.*)$", s)
            if not m:
                break
            for v, b in re.findall(r"\[ (\S+), %(\"?[\w.$]+\"?) \]", m.group(3)):
                if b == prev:
                    phis[m.group(1)] = self.operand(regs, m.group(2), v)
        regs.update(phis)
        for s in ins:
            if " = phi " in s:
                continue
            done = self.step(s, name, regs, mem, path, written, depth)
            if done:
                return
        raise Unsupported("no terminator")

    def load(self, regs, mem, path, ty, p, align):
        if not isinstance(p, Ptr):
            raise Unsupported("load address")
        o = mem[p.obj]
        n = size_of(ty)
        self.oblige(path, f"{self.name}: load within {o.name}", "true" if 0 <= p.off and p.off + n <= o.size else "false")
        if o.name in "rab":
            self.oblige(path, f"{self.name}: alignment of a load",
                        "true" if align <= 16 and p.off % align == 0 else "false")
            if "writeonly" in self.roles[o.name]:
                self.oblige(path, f"{self.name}: load through a writeonly parameter", "false")
        if ty == "ptr" or p.off in o.ptrs:
            q = o.ptrs.get(p.off)
            if q is None or ty != "ptr":
                raise Unsupported("pointer in memory")
            return q
        if o.term is None:
            raise Unsupported("load of uninitialised memory")
        w = int_width(ty)
        lo = 8 * p.off
        t = o.term if (lo == 0 and w == 8 * o.size) else ext(o.term, lo + w - 1, lo)
        pois = "false"
        if o.name == "r" and self.uninit_r and not set(range(p.off, p.off + n)) <= self.cur_written:
            pois = "true"
        if w % 8:
            raise Unsupported("load of " + ty)
        return self.val(w, t, pois)

    def store(self, regs, mem, path, written, ty, v, p, align):
        if not isinstance(p, Ptr):
            raise Unsupported("store address")
        o = mem[p.obj]
        n = size_of(ty)
        self.oblige(path, f"{self.name}: store within {o.name}", "true" if 0 <= p.off and p.off + n <= o.size else "false")
        if o.name in ("a", "b"):
            self.oblige(path, f"{self.name}: an operand is overwritten", "false")
        if o.name == "r":
            self.oblige(path, f"{self.name}: alignment of a store",
                        "true" if align <= 16 and p.off % align == 0 else "false")
        if isinstance(v, Ptr):
            if o.name in "rab":
                raise Unsupported("pointer stored in an operand")
            o.ptrs[p.off] = v
            return
        w = v.w
        if w % 8:
            if o.name in "rab":
                raise Unsupported("store of " + ty)
            v = self.val(8 * n, zx(v.t, 8 * n - w), v.poison)
            w = 8 * n
        if o.name in "rab":
            self.oblige(path, f"{self.name}: the stored value is defined", NOT(v.poison))
            written |= set(range(p.off, p.off + n))
        elif v.poison != "false":
            raise Unsupported("possibly undefined value spilled")
        lo, size = 8 * p.off, 8 * o.size
        if lo == 0 and w == size:
            o.term = v.t
            return
        old = o.term if o.term is not None else self.fresh(size)
        parts = []
        if lo + w < size:
            parts.append(ext(old, size - 1, lo + w))
        parts.append(v.t)
        if lo:
            parts.append(ext(old, lo - 1, 0))
        o.term = self.let("(concat " + " ".join(parts) + ")" if len(parts) > 1 else parts[0], f"(_ BitVec {size})")

    def step(self, s, blk, regs, mem, path, written, depth):
        self.cur_written = written
        dst = None
        m = re.match(r"(%[\w.$\"]+) = (.*)$", s)
        if m:
            dst, s = m.groups()
        op = s.split()[0]
        if op in ("tail", "musttail", "notail"):
            s = s.split(None, 1)[1]
            op = s.split()[0]
        if op == "alloca":
            m = re.match(r"alloca (\[.*?\]|\S+?), align (\d+)", s)
            self.n += 1
            k = f"m{self.n}"
            mem[k] = Obj(k, size_of(m.group(1)))
            regs[dst] = Ptr(k)
        elif op == "load":
            m = re.match(r"load (\[.*?\]|[^ ,]+), ptr (\S+?), align (\d+)(.*)$", s)
            if not m:
                raise Unsupported(s)
            v = self.load(regs, mem, path, m.group(1), self.operand(regs, "ptr", m.group(2)), int(m.group(3)))
            if "!range" in m.group(4):
                raise Unsupported("range metadata")
            regs[dst] = v
        elif op == "store":
            m = re.match(r"store (\[.*?\]|[^ ,]+) (\S+), ptr (\S+?), align (\d+)$", s)
            if not m:
                raise Unsupported(s)
            ty = m.group(1)
            v = self.operand(regs, ty, m.group(2))
            self.store(regs, mem, path, written, ty, v, self.operand(regs, "ptr", m.group(3)), int(m.group(4)))
        elif op == "getelementptr":
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*i8, ptr (\S+), i64 (-?\d+)$", s)
            if not m:
                raise Unsupported(s)
            p = self.operand(regs, "ptr", m.group(1))
            regs[dst] = Ptr(p.obj, p.off + int(m.group(2)))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            m = re.match(r"\w+ ((?:nuw |nsw |exact |disjoint )*)(i\d+) (\S+), (\S+)$", s)
            if not m:
                raise Unsupported(s)
            flags, ty = m.group(1).split(), m.group(2)
            a, b = self.operand(regs, ty, m.group(3)), self.operand(regs, ty, m.group(4))
            w = a.w
            x, y = a.t, b.t
            name = {"and": "bvand", "or": "bvor", "xor": "bvxor", "add": "bvadd", "sub": "bvsub", "mul": "bvmul",
                    "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr"}[op]
            t = comm(name, x, y) if op in ("add", "mul", "and", "or", "xor") else f"({name} {x} {y})"
            bad = [a.poison, b.poison]
            if op in ("add", "sub"):
                if "nuw" in flags:
                    bad.append(addflow(name, x, y, False))
                if "nsw" in flags:
                    bad.append(addflow(name, x, y, True))
            elif op == "mul":
                if "nuw" in flags:
                    bad.append(mulflow(x, y, w))
                if "nsw" in flags:
                    bad.append(NOT(f"(= {comm('bvmul', sx(x, w), sx(y, w))} {sx(t, w)})"))
            elif op in ("shl", "lshr", "ashr"):
                bad.append(f"(bvuge {y} {bv(w, w)})")
                if "nuw" in flags:
                    bad.append(NOT(f"(= (bvlshr {t} {y}) {x})"))
                if "nsw" in flags:
                    bad.append(NOT(f"(= (bvashr {t} {y}) {x})"))
                if "exact" in flags:
                    bad.append(NOT(f"(= (bvshl {t} {y}) {x})"))
            elif "disjoint" in flags:
                bad.append(NOT(f"(= (bvand {x} {y}) {bv(0, w)})"))
            regs[dst] = self.val(w, t, OR(*bad))
        elif op == "icmp":
            m = re.match(r"icmp (samesign )?(\w+) (\S+) (\S+), (\S+)$", s)
            if not m or m.group(3) == "ptr":
                raise Unsupported(s)
            a, b = self.operand(regs, m.group(3), m.group(4)), self.operand(regs, m.group(3), m.group(5))
            p = m.group(2)
            t = {"eq": "(= {} {})", "ne": "(not (= {} {}))"}.get(p) or \
                "(bv" + {"ult": "ult", "ule": "ule", "ugt": "ugt", "uge": "uge", "slt": "slt", "sle": "sle",
                         "sgt": "sgt", "sge": "sge"}[p] + " {} {})"
            bad = [a.poison, b.poison]
            if m.group(1):
                bad.append(NOT(f"(= {ext(a.t, a.w - 1, a.w - 1)} {ext(b.t, a.w - 1, a.w - 1)})"))
            regs[dst] = self.val(1, b2v(t.format(a.t, b.t)), OR(*bad))
        elif op in ("zext", "sext", "trunc"):
            m = re.match(r"\w+ ((?:nneg |nuw |nsw )*)(i\d+) (\S+) to (i\d+)$", s)
            if not m:
                raise Unsupported(s)
            a = self.operand(regs, m.group(2), m.group(3))
            w = int_width(m.group(4))
            bad = [a.poison]
            if op == "trunc":
                t = ext(a.t, w - 1, 0)
                if "nuw" in m.group(1):
                    bad.append(NOT(f"(= {zx(t, a.w - w)} {a.t})"))
                if "nsw" in m.group(1):
                    bad.append(NOT(f"(= {sx(t, a.w - w)} {a.t})"))
            else:
                t = (zx if op == "zext" else sx)(a.t, w - a.w)
                if "nneg" in m.group(1):
                    bad.append(f"(= {ext(a.t, a.w - 1, a.w - 1)} #b1)")
            regs[dst] = self.val(w, t, OR(*bad))
        elif op == "select":
            m = re.match(r"select i1 (\S+), (i\d+) (\S+), (i\d+) (\S+)$", s)
            if not m:
                raise Unsupported(s)
            c = self.operand(regs, "i1", m.group(1))
            a, b = self.operand(regs, m.group(2), m.group(3)), self.operand(regs, m.group(4), m.group(5))
            k = f"(= {c.t} #b1)"
            regs[dst] = self.val(a.w, ITE(k, a.t, b.t), OR(c.poison, ITE(k, a.poison, b.poison)))
        elif op == "freeze":
            m = re.match(r"freeze (i\d+) (\S+)$", s)
            a = self.operand(regs, m.group(1), m.group(2))
            if a.poison != "false":
                raise Unsupported("freeze of a possibly undefined value")
            regs[dst] = a
        elif op == "extractvalue":
            m = re.match(r"extractvalue \{ (i\d+), (i\d+) \} (\S+), (\d+)$", s)
            if not m or m.group(3) not in regs:
                raise Unsupported(s)
            regs[dst] = regs[m.group(3)][int(m.group(4))]
        elif op == "call":
            self.call(s, dst, regs, mem, path, written)
        elif op == "ret":
            self.finish(s, regs, mem, path, written)
            return True
        elif op == "br":
            m = re.match(r"br label %(\S+)$", s)
            if m:
                self.block(m.group(1), blk, regs, mem, path, written, depth + 1)
                return True
            m = re.match(r"br i1 (\S+), label %(\S+), label %(\S+?)(, !.*)?$", s)
            c = self.operand(regs, "i1", m.group(1))
            self.oblige(path, f"{self.name}: a branch condition is defined", NOT(c.poison))
            k = f"(= {c.t} #b1)"
            self.block(m.group(2), blk, regs, mem, self.let(AND(path, k), "Bool"), written, depth + 1)
            self.block(m.group(3), blk, regs, mem, self.let(AND(path, NOT(k)), "Bool"), written, depth + 1)
            return True
        elif op == "unreachable":
            self.oblige(path, f"{self.name}: unreachable is not reached", "false")
            self.paths += 1
            return True
        else:
            raise Unsupported(s)
        return False

    def call(self, s, dst, regs, mem, path, written):
        m = re.search(r'@("?[\w.$]+"?)\(', s)
        if not m:
            raise Unsupported(s)
        callee = m.group(1).strip('"')
        e = balanced(s, m.end() - 1)
        args = []
        for a in split_args(s[m.end():e - 1]):
            p = a.split()
            args.append((p[0], p[-1]))
        head = s[:m.start()]
        if callee.startswith("llvm."):
            self.llvm(callee, head, args, dst, regs, mem, path)
            return
        m = re.fullmatch(r"__ethnum_(\w+)", callee)
        if m and self.callees is not None:
            name = m.group(1)
            if callee not in self.callees:
                raise Unsupported(f"{callee} is not generated")
            sh = shape(name)
            if len(sh) != len(args):
                self.oblige(path, f"{self.name}: {callee} takes {len(sh)} arguments", "false")
                return
            v = {}
            robj = None
            for c, (ty, reg) in zip(sh, args):
                x = self.operand(regs, ty, reg)
                if c == "n":
                    if not isinstance(x, Val) or x.w != 32:
                        raise Unsupported("amount of " + callee)
                    self.oblige(path, f"{self.name}: the amount passed to {callee} is defined", NOT(x.poison))
                    v["n"] = x.t
                    continue
                if not isinstance(x, Ptr) or x.off or mem[x.obj].size != 32:
                    raise Unsupported("argument of " + callee)
                o = mem[x.obj]
                if c == "r":
                    robj = x.obj
                    if o.name in ("a", "b"):
                        self.oblige(path, f"{self.name}: an operand is overwritten by {callee}", "false")
                elif x.obj == robj:
                    self.oblige(path, f"{self.name}: the result aliases an operand of {callee}", "false")
                if o.term is None:
                    raise Unsupported("uninitialised argument of " + callee)
                reads = c != "r" or name[-1] == "2"
                if reads and o.name == "r" and self.uninit_r and not set(range(32)) <= written:
                    self.oblige(path, f"{self.name}: {callee} reads the uninitialised result", "false")
                v[c] = o.term
            g = v.get
            res, ret, pre, facts = contract(name, g("r"), g("a"), g("b"), g("n"), self.fresh)
            self.oblige(path, f"{self.name}: precondition of {callee}", pre)
            self.assume += facts
            if res is not None:
                mem[robj].term = self.let(res, f"(_ BitVec {W})")
                if robj == "r":
                    written |= set(range(32))
            if dst:
                m = re.search(r"\b(i\d+)\s*$", head)
                if ret is None or int_width(m.group(1)) != ret[0]:
                    self.oblige(path, f"{self.name}: result type of {callee}", "false")
                    regs[dst] = Val(int_width(m.group(1)), self.fresh(int_width(m.group(1))))
                else:
                    if ret[0] == 1:
                        self.oblige(path, f"{self.name}: the flag of {callee} is zero-extended",
                                    "true" if "zeroext" in head else "false")
                    regs[dst] = self.val(*ret)
            return
        if re.search(r"core9panicking|core6result13unwrap_failed|panic", callee):
            # a panic is not a result: must not be reached
            self.oblige(path, f"{self.name}: does not panic", "false")
            if dst:
                raise Unsupported("value of a panic")
            return
        raise Unsupported("call of " + callee)

    def llvm(self, callee, head, args, dst, regs, mem, path):
        parts = callee.split(".")
        k = parts[1]
        if k in ("lifetime", "dbg", "experimental", "donothing"):
            return
        v = [self.operand(regs, t, a) if t != "metadata" else None for t, a in args]
        if k == "assume":
            self.oblige(path, f"{self.name}: llvm.assume", AND(NOT(v[0].poison), f"(= {v[0].t} #b1)"))
            return
        if k == "memcpy":
            d, s_, n = v[0], v[1], v[2]
            m = re.fullmatch(r"\(_ bv(\d+) 64\)", n.t)
            if not m:
                raise Unsupported("memcpy of variable length")
            n = int(m.group(1))
            if n == 32 and d.off == 0 and s_.off == 0 and mem[s_.obj].size == 32:
                x = self.load(regs, mem, path, "i256", s_, 1)
                self.store(regs, mem, path, self.cur_written, "i256", x, d, 1)
                return
            raise Unsupported("memcpy")
        bad = OR(*[x.poison for x in v if isinstance(x, Val)])
        if ".with.overflow." in callee:
            a, b = v
            op = {"add": "bvadd", "sub": "bvsub", "mul": "bvmul"}[k[1:]]
            if op == "bvmul":
                if k == "smul":
                    t = comm(op, a.t, b.t)
                    c = NOT(f"(= {comm(op, sx(a.t, a.w), sx(b.t, a.w))} {sx(t, a.w)})")
                else:
                    t, c = comm(op, a.t, b.t), mulflow(a.t, b.t, a.w)
            else:
                t = comm(op, a.t, b.t) if op == "bvadd" else f"({op} {a.t} {b.t})"
                c = addflow(op, a.t, b.t, k[0] == "s")
            regs[dst] = (self.val(a.w, t, bad), self.val(1, b2v(c), bad))
            return
        if k in ("fshl", "fshr"):
            a, b, n = v
            w = a.w
            s_ = self.let(f"(bvurem {n.t} {bv(w, w)})", f"(_ BitVec {w})")
            inv = f"(bvsub {bv(w, w)} {s_})"
            z = f"(= {s_} {bv(0, w)})"
            if k == "fshl":
                t = ITE(z, a.t, f"(bvor (bvshl {a.t} {s_}) (bvlshr {b.t} {inv}))")
            else:
                t = ITE(z, b.t, f"(bvor (bvlshr {b.t} {s_}) (bvshl {a.t} {inv}))")
            regs[dst] = self.val(w, t, bad)
            return
        if k in ("ctlz", "cttz"):
            x, zp = v
            r = self.fresh(x.w)
            self.assume.append(count_facts(x.t, r, x.w, k == "ctlz"))
            if zp.t == "#b1":
                bad = OR(bad, f"(= {x.t} {bv(0, x.w)})")
            m = re.search(r"range\(i\d+ (-?\d+), (-?\d+)\)", head)
            if m:
                bad = OR(bad, NOT(in_range(r, x.w, int(m.group(1)), int(m.group(2)))))
            regs[dst] = self.val(x.w, r, bad)
            return
        if k in ("umin", "umax", "smin", "smax"):
            a, b = v
            c = f"(bv{k[0]}{'lt' if k.endswith('min') else 'gt'} {a.t} {b.t})"
            regs[dst] = self.val(a.w, ITE(c, a.t, b.t), bad)
            return
        if k == "bswap":
            x = v[0]
            regs[dst] = self.val(x.w, "(concat " + " ".join(ext(x.t, i + 7, i) for i in range(0, x.w, 8)) + ")", bad)
            return
        raise Unsupported("call of " + callee)

    def finish(self, s, regs, mem, path, written):
        self.paths += 1
        if self.paths > self.MAX_PATHS:
            raise Unsupported("too many paths")
        res, ret = self.post
        if res is not None:
            self.oblige(path, f"{self.name}: result", f"(= {mem['r'].term} {res})")
            m = re.search(r"initializes\(((?:\(\d+, \d+\)(?:, )?)+)\)", self.roles["r"])
            if m:
                need = set()
                for a, b in re.findall(r"\((\d+), (\d+)\)", m.group(1)):
                    need |= set(range(int(a), int(b)))
                self.oblige(path, f"{self.name}: initializes{m.group(1)}", "true" if need <= written else "false")
            if self.uninit_r:
                self.oblige(path, f"{self.name}: the result is written", "true" if set(range(32)) <= written else "false")
        if ret is not None:
            m = re.match(r"ret (i\d+) (\S+)$", s)
            if not m:
                raise Unsupported(s)
            v = self.operand(regs, m.group(1), m.group(2))
            if v.w != ret[0]:
                raise Unsupported("width of the result")
            self.oblige(path, f"{self.name}: the returned value is defined", NOT(v.poison))
            self.oblige(path, f"{self.name}: returned value", f"(= {v.t} {ret[1]})")
            m = re.search(r"range\(i\d+ (-?\d+), (-?\d+)\)", self.fn.ret)
            if m:
                self.oblige(path, f"{self.name}: range({m.group(1)}, {m.group(2)}) of the result",
                            in_range(v.t, v.w, int(m.group(1)), int(m.group(2))))
            if ret[0] == 1:
                self.oblige(path, f"{self.name}: the flag is zero-extended", "true" if "zeroext" in self.fn.ret else "false")
        elif s.strip() != "ret void":
            raise Unsupported(s)

    def smt(self, ob):
        what, hyps, goal, _ = ob
        out = ["(set-logic QF_BV)", "(set-option :produce-models true)"]
        out += self.decls + self.defs
        # a count's defining facts were assumed for terms defined later too;
        # they constrain fresh constants only
        hs = list(dict.fromkeys([h for h in (hyps or []) if h != "true"] + self.assume))
        out += [f"(assert {h})" for h in hs]
        out.append(f"(assert (not {goal}))")
        out.append("(check-sat)")
        out.append("(get-value (" + " ".join(self.model.values()) + "))")
        return "\n".join(out) + "\n"


def in_range(t, w, lo, hi):
    """range(lo, hi) of LLVM: lo <= t < hi, wrapping."""
    lo %= 1 << w
    hi %= 1 << w
    a, b = f"(bvuge {t} {bv(lo, w)})", f"(bvult {t} {bv(hi, w)})"
    if lo < hi:
        return AND(a, b)
    return "true" if lo == hi else OR(a, b)


# ---------------------------------------------------------------- running

SOLVERS = [("z3", ["z3", "-in", "-T:60"]), ("cvc5", ["cvc5", "--lang=smt2", "--tlimit=60000", "-"])]


def solve(ctx, ex, ob, k):
    """("proved", solver, s) | ("failed", model, s) | ("unknown", why, s)"""
    t = time.time()
    if ob[2] == "true":
        return "proved", "structural", 0.0
    if ob[2] == "false" and not [h for h in (ob[1] or []) if h != "true"]:
        return "failed", {}, 0.0
    path = os.path.join(ctx.scratch, f"vc-{k}.smt2")
    with open(path, "w") as f:
        f.write(ex.smt(ob))
    why = ""
    for name, cmd in SOLVERS:
        cmd = [c if c not in ("-in", "-") else path for c in cmd]
        rc, out = run(cmd, timeout=80)
        first = out.strip().split("\n")[0] if out.strip() else ""
        if first == "unsat":
            return "proved", name, time.time() - t
        if first == "sat":
            vals = {}
            for n, v in re.findall(r"\((v\d+) (#[xb][0-9a-f]+|\(_ bv\d+ \d+\))\)", out):
                vals[n] = int(v[2:], 16) if v[1] == "x" else int(v[2:], 2) if v[1] == "b" else int(re.search(r"bv(\d+)", v).group(1))
            return "failed", {c: vals.get(t_, 0) for c, t_ in ex.model.items()}, time.time() - t
        why += f"{name}: {first[:80]}; "
    return "unknown", why, time.time() - t


def env(ctx):
    return {"RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "CLANG": SHIM,
            "CARGO_TARGET_DIR": os.path.join(ctx.scratch, "llvm")}


def produce(ctx):
    """IR of the intrinsics and of the crate that calls them."""
    t = os.path.join(ctx.scratch, "llvm")
    rc, log = run(["cargo", "rustc", "--offline", "--quiet", "--lib", "--features", "llvm-intrinsics", "--",
                   "--emit=llvm-ir,metadata,link", "-Ccodegen-units=1", "-Cdebuginfo=0", "-Copt-level=0"], cwd=REPO, env=env(ctx), timeout=300)
    gen = glob.glob(os.path.join(t, "debug", "build", "ethnum-intrinsics-*", "out", "intrinsics.ll"))
    wrap = glob.glob(os.path.join(t, "debug", "deps", "ethnum-*.ll"))
    return (open(gen[0]).read() if len(gen) == 1 else None, open(wrap[0]).read() if len(wrap) == 1 else None, rc, log)


def wrapper(fns, name):
    """The function `ethnum::intrinsics::NAME` of the llvm backend."""
    pat = re.compile(r"_ZN6ethnum10intrinsics4llvm(?!3mul|6divmod)(?:\d+\w+?)??%d%s17h[0-9a-f]{16}E" % (len(name), name))
    c = [f for n, f in fns.items() if pat.fullmatch(n)]
    if len(c) != 1:
        raise Lost(f"{len(c)} candidates for ethnum::intrinsics::{name}")
    return c[0]


def draws(name, model):
    m = (1 << 128) - 1
    d = []
    for c in shape(name):
        if c == "n":
            d.append(hex(model.get("n", 0)))
        elif c != "r" or name[-1] == "2":
            v = model.get(c, 0)
            d += [hex(v & m), hex(v >> 128)]
    return d


def phase(ctx, cfg, rep):
    gen, wrap, rc, log = produce(ctx)
    group = {"back_end": "LLVM IR contracts (z3, cvc5)", "functions": [], "proved": 0, "failed": [], "undecided": [],
             "solvers": {}, "solver_s": 0.0}
    rep.groups.append(group)
    failed = []       # (function, name, what, model)

    def undecided(what, why):
        group["undecided"].append({"obligation": what, "why": why})
        rep.obligations += 1
        rep.undecided.append((what, why))

    todo = []
    gfns = functions(gen) if gen else {}
    if not gen:
        undecided("intrinsics.ll", "not generated: " + log[-600:])
    wfns = functions(wrap) if wrap else {}
    if gen and not wrap:
        undecided("forwarding functions", "the crate does not build with llvm-intrinsics: " + log[-600:])
    for name in NAMES:
        if gen:
            f = gfns.get("__ethnum_" + name)
            if f is None:
                undecided(f"__ethnum_{name}", "not in intrinsics.ll")
            else:
                todo.append((f"intrinsics.ll @__ethnum_{name}", name, f, None))
        if wrap:
            try:
                todo.append((f"ethnum::intrinsics::{name}", name, wrapper(wfns, name), set(gfns)))
            except Lost as e:
                undecided(f"ethnum::intrinsics::{name}", str(e))
    jobs = []
    for what, name, f, callees in todo:
        ex = Exec(f, name, callees)
        try:
            ex.start()
        except (Unsupported, AttributeError, KeyError, ValueError, IndexError, TypeError) as e:
            undecided(what, f"outside the supported IR: {e}")
            continue
        group["functions"].append(what)
        rep.functions.append(what)
        for ob in ex.obs:
            jobs.append((what, name, ex, ob))
    with cf.ThreadPoolExecutor(4) as pool:
        res = list(pool.map(lambda j: solve(ctx, j[1][2], j[1][3], j[0]), enumerate(jobs)))
    for (what, name, ex, ob), (st, info, s) in zip(jobs, res):
        rep.obligations += 1
        group["solver_s"] = round(group["solver_s"] + s, 2)
        rep.solver_s += s
        if st == "proved":
            rep.discharged += 1
            group["proved"] += 1
            group["solvers"][info] = group["solvers"].get(info, 0) + 1
        elif st == "failed":
            group["failed"].append(f"{what}: {ob[0]}")
            failed.append((what, name, ob[0], info))
        else:
            group["undecided"].append({"obligation": f"{what}: {ob[0]}", "why": info})
            rep.undecided.append((f"{what}: {ob[0]}", info))
    ctx.log(f"LLVM IR: {group['proved']} obligations of {len(group['functions'])} functions proved, "
            f"{len(failed)} failed, {len(group['undecided'])} undecided")

    # the crate on this backend, natively
    bins = {}
    feats = ["llvm"]
    for c in ("debug", "release"):
        cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "native", "--features", "llvm"]
        if c == "release":
            cmd.append("--release")
        e = env(ctx)
        e["CARGO_TARGET_DIR"] = os.path.join(ctx.scratch, "llvm-native")
        rc, log = run(cmd, cwd=HARNESS, env=e, timeout=300)
        b = os.path.join(ctx.scratch, "llvm-native", c, "native")
        if rc == 0 and os.path.exists(b):
            bins[c] = b
        else:
            rep.notes.append(f"native {c} with llvm-intrinsics does not build: {log[-800:]}")
            ctx.log(f"native {c} with llvm-intrinsics does not build", log[-300:])
    secs = 0.3 if ctx.tier == "quick" else 5
    for c, b in bins.items():
        res, crash = native.search(ctx, b, ctx.seed, 10**7, secs,
                                   ["c17_", "c01_", "c02_", "c03_", "c04_", "c05_", "c06_", "c10_", "c16_"], 400)
        n = d = 0
        for h, r in sorted(res.items()):
            if r[0] == "FAIL":
                rep.violation(h, {"kind": "input", "harness": h, "config": c, "features": feats, "draws": r[1],
                                  "message": r[2], "failed_obligations": [w + ": " + o for w, _, o, _ in failed][:5],
                                  "how": f"./replay.sh {h} {c} llvm {r[1]}"})
            else:
                n += r[1]
                d += r[3]
        rep.evaluations += n
        rep.distinct += d
        rep.groups.append({"back_end": f"native {c} with llvm-intrinsics", "role": "search for failing inputs (not counted as proof)",
                           "harnesses": len(res), "evaluations": n, "distinct": d})
        if crash:
            rep.notes.append(f"native {c} with llvm-intrinsics: {crash}")
    by = {}
    for what, name, ob, model in failed:
        by.setdefault(name, []).append((what, ob, model))
    for name, obs in by.items():
        ctx.log(f"failed obligation: {obs[0][0]}: {obs[0][1]}")
        found = None
        for what, ob, model in obs:
            for c, b in bins.items():
                if not found:
                    bad, msg = native.replay(b, f"c17_{name}", draws(name, model))
                    if bad:
                        found = (c, draws(name, model), msg)
        info = {"failed_obligations": [{"function": w, "obligation": o, "model": {k: hex(v) for k, v in m.items()}}
                                       for w, o, m in obs]}
        if found:
            c, d, msg = found
            info.update({"kind": "input", "harness": f"c17_{name}", "config": c, "features": feats, "draws": ",".join(d),
                         "message": msg, "how": f"./replay.sh c17_{name} {c} llvm {','.join(d)}"})
            rep.violation(f"c17_{name}", info)
        else:
            info["kind"] = "obligation"
            rep.violation(f"c17_{name}", info, "no-failing-input-found")
