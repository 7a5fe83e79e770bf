"""Symbolic execution of the assembled x86-64 routines.

The repository's .asm sources are assembled, linked to a shared object and disassembled by
objdump on every run; the instructions found are executed over terms.  General registers are
64-bit terms, vector registers eight 32-bit lanes, memory is that of the IR executor (so the
same bounds checks apply)."""
import os
import re
import subprocess

from . import build, solve, terms as tm
from .exec import Engine, Unsupported
from .terms import (TRUE, FALSE, add, and_, ashr, concat, const, eq, extract, fresh, ite, lshr, lshr_c, mul, neg, not_, or_, rotl_c, rotr_c,
                    shl, shl_c, slt, sub, ule, ult, var, xor, zext, sext)

G64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
REG = {}
for r in G64:
    REG[r] = (r, 64, 0)
for a, r in zip(("eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"), G64):
    REG[a] = (r, 32, 0)
    REG[a[1:]] = (r, 16, 0)
for a, r in zip(("al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"), G64):
    REG[a] = (r, 8, 0)
for a, r in zip(("ah", "ch", "dh", "bh"), G64):
    REG[a] = (r, 8, 8)
for i in range(8, 16):
    REG["r%dd" % i] = ("r%d" % i, 32, 0)
    REG["r%dw" % i] = ("r%d" % i, 16, 0)
    REG["r%db" % i] = ("r%d" % i, 8, 0)
SAVED = ("rbx", "rbp", "r12", "r13", "r14", "r15")
ARGS = ("rdi", "rsi", "rdx", "rcx", "r8", "r9")
PTRW = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "XMMWORD": 16, "YMMWORD": 32}
STACK = 8192


class Ins:
    __slots__ = ("pc", "op", "args", "next", "text")


class Program:
    """one assembled source file"""

    def __init__(self, obj):
        so = obj + ".so"
        build.run(["ld", "-shared", "-z", "noexecstack", "--no-warn-execstack", "-o", so, obj])
        self.syms = {}
        for l in build.run(["nm", so]).splitlines():
            w = l.split()
            if len(w) == 3:
                self.syms[w[2]] = int(w[0], 16)
        self.code = {}
        text = build.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", so])
        order = []
        for l in text.splitlines():
            m = re.match(r"\s+([0-9a-f]+):\s+(\S.*)$", l)
            if not m:
                continue
            i = Ins()
            i.pc = int(m.group(1), 16)
            t = m.group(2)
            note = None
            if "#" in t:
                t, note = t.split("#", 1)
            t = re.sub(r"<[^>]*>", "", t).strip()
            i.text = t
            w = t.split(None, 1)
            pre = ""
            while w[0] in ("bnd", "notrack", "rep", "repz", "repnz", "lock", "data16", "cs"):
                if w[0] in ("rep", "repz", "repnz", "lock"):
                    pre = w[0] + " "
                w = w[1].split(None, 1)
            i.op = pre + w[0]
            i.args = []
            for a in split_args(w[1] if len(w) > 1 else ""):
                if (i.op[0] == "j" or i.op == "call") and re.match(r"^[0-9a-f]+$", a.strip()):
                    i.args.append(("i", int(a, 16)))
                else:
                    i.args.append(self.operand(a, note))
            order.append(i)
            self.code[i.pc] = i
        for a, b in zip(order, order[1:]):
            a.next = b.pc
        if order:
            order[-1].next = None
        # read-only data
        self.ro = {}
        secs = build.run(["objdump", "-h", so])
        for m in re.finditer(r"^\s*\d+\s+(\S+)\s+([0-9a-f]+)\s+([0-9a-f]+)", secs, re.M):
            name, size, addr = m.group(1), int(m.group(2), 16), int(m.group(3), 16)
            if not name.startswith((".rodata", ".data")) or not size:
                continue
            b = b""
            for l in build.run(["objdump", "-s", "-j", name, so]).splitlines():
                mm = re.match(r" ([0-9a-f]+) ((?:[0-9a-f]+ ){1,4})", l)
                if mm:
                    b += bytes.fromhex(mm.group(2).replace(" ", ""))
            assert len(b) == size, (name, len(b), size)
            self.ro[name] = (addr, b)

    def operand(self, a, note):
        a = a.strip()
        if a in REG:
            return ("r",) + REG[a]
        m = re.match(r"^([xy])mm(\d+)$", a)
        if m:
            return ("v", int(m.group(2)), 4 if m.group(1) == "x" else 8)
        if re.match(r"^-?(0x[0-9a-f]+|\d+)$", a):
            return ("i", int(a, 0))
        m = re.match(r"^(?:([A-Z]+) PTR )?(?:ds:)?\[([^\]]*)\]$", a)
        if m:
            w = PTRW.get(m.group(1)) if m.group(1) else None
            parts = re.findall(r"([+-]?)([^+-]+)", m.group(2))
            regs, disp = [], 0
            for s, p in parts:
                p = p.strip()
                if p == "rip":
                    addr = int(note.strip().split()[0], 16)
                    return ("m", w, [], addr, True)
                mm = re.match(r"^(\w+)\*(\d)$", p)
                if mm and mm.group(1) in REG:
                    regs.append((REG[mm.group(1)][0], int(mm.group(2))))
                elif p in REG:
                    regs.append((REG[p][0], 1))
                else:
                    disp += (-1 if s == "-" else 1) * int(p, 0)
            return ("m", w, regs, disp, False)
        if re.match(r"^[0-9a-f]+$", a):
            return ("i", int(a, 16))
        return ("?", a)

    def reachable(self, entry):
        """instructions reachable from an entry point"""
        seen = set()
        todo = [self.syms[entry]]
        out = []
        while todo:
            pc = todo.pop()
            if pc in seen or pc not in self.code:
                continue
            seen.add(pc)
            i = self.code[pc]
            out.append(i)
            if i.op in ("ret", "ud2", "hlt"):
                continue
            if i.op == "jmp":
                if i.args[0][0] == "i":
                    todo.append(i.args[0][1])
                continue
            if i.op.startswith("j") and i.args and i.args[0][0] == "i" or i.op == "call" and i.args[0][0] == "i":
                todo.append(i.args[0][1])
            if i.next is not None:
                todo.append(i.next)
        return out


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c == "[":
            d += 1
        if c == "]":
            d -= 1
        if c == "," and not d:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


# instruction set extensions, by mnemonic
SSSE3 = {"pshufb", "palignr", "pabsd", "pabsb", "pabsw", "phaddd", "phaddw", "psignd", "pmulhrsw"}
SSE3 = {"lddqu", "movddup", "movshdup", "movsldup", "haddps"}
SSE41 = {"pblendw", "pextrd", "pextrq", "pextrb", "pinsrd", "pinsrq", "pinsrb", "pmulld", "ptest", "pblendvb", "pminsd", "pminud", "pmaxud", "pmaxsd",
         "movntdqa", "pmovzxdq", "pmovzxbd", "pmovsxdq", "packusdw", "pcmpeqq", "blendps", "blendvps", "insertps", "pmuldq"}
SSE42 = {"pcmpgtq", "crc32", "pcmpestri", "pcmpistri"}
BMI1 = {"andn", "bextr", "blsi", "blsr", "tzcnt", "blsmsk"}
BMI2 = {"rorx", "shlx", "shrx", "sarx", "mulx", "pdep", "pext", "bzhi"}
AVX_ONLY = {"vmovdqa", "vmovdqu", "vmovaps", "vmovups", "vmovapd", "vmovupd", "vzeroupper", "vzeroall", "vperm2f128", "vbroadcastf128", "vinsertf128",
            "vextractf128", "vxorps", "vxorpd", "vandps", "vorps", "vshufps", "vunpcklps", "vunpckhps", "vunpcklpd", "vunpckhpd", "vpermilps", "vpermilpd"}
AVX2_ALWAYS = {"vbroadcasti128", "vperm2i128", "vinserti128", "vextracti128", "vpermd", "vpermq", "vpbroadcastd", "vpbroadcastq", "vpbroadcastb",
               "vpblendd", "vpsllvd", "vpsrlvd", "vpgatherdd"}


def extensions(ins):
    """instruction set extensions one instruction needs (beyond x86-64 baseline)"""
    op = ins.op
    if op.startswith("sha1") or op.startswith("sha256"):
        return {"sha", "sse_2"}
    if op in BMI1:
        return {"bmi_1"}
    if op in BMI2:
        return {"bmi_2"}
    if op == "popcnt":
        return {"popcnt"}
    if op.startswith("aes"):
        return {"aes"}
    if op.startswith("pclmul"):
        return {"pclmul"}
    vec = any(a[0] == "v" for a in ins.args)
    if op.startswith("v") and op not in ("verr", "verw", "vmcall"):
        if any(a[0] == "?" and ("zmm" in a[1] or "{" in a[1] or a[1].startswith("k")) for a in ins.args):
            return {"avx_512"}
        if any(a[0] == "v" and a[1] > 15 for a in ins.args):
            return {"avx_512"}
        if op in AVX2_ALWAYS:
            return {"avx", "avx_2"}
        if op in AVX_ONLY:
            return {"avx"}
        y = any(a[0] == "v" and a[2] == 8 for a in ins.args)
        return {"avx", "avx_2"} if y else {"avx"}
    if op in SSSE3:
        return {"ssse_3"}
    if op in SSE3:
        return {"sse_3"}
    if op in SSE41:
        return {"sse_4_1"}
    if op in SSE42:
        return {"sse_4_2"}
    if vec:
        return {"sse_2"}
    return set()


_programs = {}


def symbols():
    """every routine the assembly objects define"""
    if not _programs:
        for o in build.asm_objects():
            if os.path.getsize(o):
                p = Program(o)
                for s in p.syms:
                    _programs.setdefault(s, p)
    return list(_programs)


def find(symbol):
    """the program defining a symbol"""
    symbols()
    p = _programs.get(symbol)
    if p is None:
        raise Unsupported("no assembly routine " + symbol)
    return p


# ------------------------------------------------------------------ machine

class M:
    __slots__ = ("regs", "vec", "flags", "pc", "st", "nbr", "visits", "trace", "done", "reads", "writes", "vextra")

    def fork(self):
        m = M()
        m.regs = dict(self.regs)
        m.vec = [list(v) for v in self.vec]
        m.flags = dict(self.flags)
        m.pc = self.pc
        m.st = self.st.fork()
        m.nbr = self.nbr
        m.visits = dict(self.visits)
        m.trace = self.trace
        m.done = self.done
        m.reads = list(self.reads)
        m.writes = list(self.writes)
        return m


class Misbehaviour(Exception):
    """the routine breaks the calling convention or a memory rule on a feasible path"""

    def __init__(self, msg, m=None, cond=None):
        super().__init__(msg)
        self.m = m
        self.cond = cond


def lanes(t):
    return [extract(t, 32 * i + 31, 32 * i) for i in range(t.w // 32)]


def lbytes(ls):
    return [extract(l, 8 * k + 7, 8 * k) for l in ls for k in range(4)]


def unbytes(bs):
    return [concat(*reversed(bs[i:i + 4])) for i in range(0, len(bs), 4)]


def ch(x, y, z):
    return xor(and_(x, y), and_(not_(x), z))


def maj(x, y, z):
    return xor(and_(x, y), and_(x, z), and_(y, z))


def big0(x):
    return xor(rotr_c(x, 2), rotr_c(x, 13), rotr_c(x, 22))


def big1(x):
    return xor(rotr_c(x, 6), rotr_c(x, 11), rotr_c(x, 25))


def sm0(x):
    return xor(rotr_c(x, 7), rotr_c(x, 18), lshr_c(x, 3))


def sm1(x):
    return xor(rotr_c(x, 17), rotr_c(x, 19), lshr_c(x, 10))


class Machine:
    """runs one routine"""

    def __init__(self, symbol, align=8, max_steps=400000):
        self.prog = find(symbol)
        self.symbol = symbol
        self.eng = Engine(None)
        self.st = self.eng.new_state()
        self.align = align          # entry stack pointer modulo 32: 8 or 24
        self.max_steps = max_steps
        self.steps = 0
        self.mem_hook = None        # called with (machine state, pointer, bytes, write)
        self.branch_hook = None
        self.ro = {}
        self.cpuid = None
        for name, (addr, b) in self.prog.ro.items():
            p = self.eng.alloc(self.st, len(b), "rodata" + name, b, writable=not name.startswith(".rodata"))
            self.ro[name] = (addr, len(b), p)
        self.stack = self.eng.alloc(self.st, STACK + 8, "stack")
        self.ret = var("return_address", 64)
        self.eng.poke(self.st, add(self.stack, const(STACK, 64)), self.ret, 8)

    def entry(self, *args):
        m = M()
        m.regs = {r: var("in_" + r, 64) for r in G64}
        for r, a in zip(ARGS, args):
            m.regs[r] = a
        m.regs["rsp"] = add(self.stack, const(STACK, 64))
        m.vec = [[var("in_v%d_%d" % (i, k), 32) for k in range(8)] for i in range(16)]
        m.flags = {}
        m.pc = self.prog.syms[self.symbol]
        m.st = self.st.fork()
        m.nbr = 0
        m.visits = {}
        m.trace = ()
        m.done = False
        m.reads = []
        m.writes = []
        return m

    # ---- operands
    def addr(self, m, a):
        _, w, regs, disp, rip = a
        if rip:
            for name, (base, n, p) in self.ro.items():
                if base <= disp < base + n:
                    return add(p, const(disp - base, 64))
            raise Unsupported("rip-relative access outside the data sections")
        t = const(disp & (1 << 64) - 1, 64)
        for r, k in regs:
            t = add(t, mul(m.regs[r], const(k, 64)))
        return t

    def check_stack(self, m, p, n, write):
        r = self.eng.resolve(p)
        if r is None:
            return
        base, off = r
        if base is self.stack:
            sp = self.eng.resolve(m.regs["rsp"])
            if off.op != "const":
                raise Unsupported("symbolic stack offset")
            o = tm.tosigned(off.p, 64)
            if o + n > STACK + (8 if not write else 0):
                raise Misbehaviour("%s of the caller's frame at offset %d" % ("write" if write else "read", o - STACK), m)
            if sp is not None and sp[0] is self.stack and sp[1].op == "const" and o < tm.tosigned(sp[1].p, 64) - 128:
                raise Misbehaviour("%s below the red zone" % ("write" if write else "read"), m)
            if o < 0:
                raise Unsupported("stack deeper than %d bytes" % STACK)

    def aligned(self, m, p, n):
        r = self.eng.resolve(p)
        if r is not None:
            base, off = r
            if off.op == "const":
                if base is self.stack:
                    if (off.p - STACK + self.align) % n == 0:
                        return
                    raise Misbehaviour("misaligned %d-byte access to the stack" % n, m)
                for name, (a, ln, q) in self.ro.items():
                    if q is base:
                        if (a + off.p) % n == 0:
                            return
                        raise Misbehaviour("misaligned %d-byte access to constants" % n, m)
        raise Misbehaviour("aligned %d-byte access to memory of the caller, which need not be aligned" % n, m)

    def load(self, m, p, n, al=False):
        if al:
            self.aligned(m, p, n)
        self.check_stack(m, p, n, False)
        m.reads.append((p, n))
        np = len(self.eng.problems)
        if self.mem_hook:
            self.mem_hook(m, p, n, False)
        v = self.eng.load(m.st, p, n)
        if len(self.eng.problems) > np:
            q = self.eng.problems[-1]
            raise Misbehaviour(q["msg"], m, q["cond"])
        return v

    def store(self, m, p, v, n, al=False):
        if al:
            self.aligned(m, p, n)
        self.check_stack(m, p, n, True)
        m.writes.append((p, n))
        np = len(self.eng.problems)
        if self.mem_hook:
            self.mem_hook(m, p, n, True)
        self.eng.store(m.st, p, v, n)
        if len(self.eng.problems) > np:
            q = self.eng.problems[-1]
            raise Misbehaviour(q["msg"], m, q["cond"])

    def width(self, ins):
        for a in ins.args:
            if a[0] == "r":
                return a[2]
        for a in ins.args:
            if a[0] == "m" and a[1]:
                return 8 * a[1]
        return 64

    def get(self, m, a, w):
        if a[0] == "r":
            t = m.regs[a[1]]
            t = extract(t, a[3] + a[2] - 1, a[3])
            return t
        if a[0] == "i":
            return const(a[1] & (1 << w) - 1, w)
        if a[0] == "m":
            return self.load(m, self.addr(m, a), w // 8)
        raise Unsupported("operand %r" % (a,))

    def put(self, m, a, v):
        if a[0] == "r":
            _, r, w, sh = a
            if w == 64:
                m.regs[r] = v
            elif w == 32:
                m.regs[r] = zext(v, 64)
            else:
                o = m.regs[r]
                parts = [extract(o, 63, sh + w), v]
                if sh:
                    parts.append(extract(o, sh - 1, 0))
                m.regs[r] = concat(*parts)
            return
        if a[0] == "m":
            self.store(m, self.addr(m, a), v, v.w // 8)
            return
        raise Unsupported("destination %r" % (a,))

    def vget(self, m, a, n, al=False):
        """n lanes"""
        if a[0] == "v":
            return list(m.vec[a[1]][:n])
        if a[0] == "m":
            return lanes(self.load(m, self.addr(m, a), 4 * n, al))
        raise Unsupported("vector operand %r" % (a,))

    def vput(self, m, a, ls, vex=False, al=False):
        if a[0] == "v":
            cur = m.vec[a[1]]
            n = len(ls)
            if n < 8:
                ls = list(ls) + ([const(0, 32)] * (8 - n) if vex else cur[n:])
            m.vec[a[1]] = list(ls)
        elif a[0] == "m":
            self.store(m, self.addr(m, a), concat(*reversed(ls)), 4 * len(ls), al)
        else:
            raise Unsupported("vector destination %r" % (a,))

    # ---- conditions
    def cond(self, m, cc):
        f = m.flags
        zf, cf, sf, of = (f.get(k) for k in ("z", "c", "s", "o"))
        need = {"e": "z", "ne": "z", "z": "z", "nz": "z", "b": "c", "c": "c", "ae": "c", "nb": "c", "nc": "c", "be": "cz", "a": "cz", "s": "s", "ns": "s",
                "l": "so", "ge": "so", "le": "soz", "g": "soz", "o": "o", "no": "o"}.get(cc)
        if need is None:
            raise Unsupported("condition " + cc)
        for k in need:
            if f.get(k) is None:
                raise Unsupported("flag %s is not known at a branch" % k)
        pos = {"e": lambda: zf, "z": lambda: zf, "b": lambda: cf, "c": lambda: cf, "be": lambda: or_(cf, zf), "s": lambda: sf,
               "l": lambda: xor(sf, of), "le": lambda: or_(zf, xor(sf, of)), "o": lambda: of}
        negs = {"ne": "e", "nz": "z", "ae": "b", "nb": "b", "nc": "c", "a": "be", "ns": "s", "ge": "l", "g": "le", "no": "o"}
        return not_(pos[negs[cc]]()) if cc in negs else pos[cc]()

    def setf(self, m, r, c=FALSE, o=FALSE, keep_c=False):
        m.flags = {"z": eq(r, const(0, r.w)), "s": extract(r, r.w - 1, r.w - 1), "c": m.flags.get("c") if keep_c else c, "o": o}

    # ---- one instruction; returns successors (list of machine states) or None to go on
    def step(self, m):
        i = self.prog.code.get(m.pc)
        if i is None:
            raise Unsupported("execution leaves the code at %r" % (m.pc,))
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")
        op, a = i.op, i.args
        nxt = i.next
        if op in ("nop", "endbr64", "nopw", "nopl", "vzeroupper") or op.startswith("prefetch") or op in ("lfence", "sfence", "mfence"):
            if op == "vzeroupper":
                for v in m.vec:
                    v[4:] = [const(0, 32)] * 4
            m.pc = nxt
            return None
        if op == "jmp":
            if a[0][0] != "i":
                raise Unsupported("indirect jump")
            m.pc = a[0][1]
            return None
        if op == "ret":
            if a:
                raise Unsupported("ret with operand")
            sp = m.regs["rsp"]
            v = self.eng.load(m.st, sp, 8) if self.eng.resolve(sp) else None
            m.regs["rsp"] = add(sp, const(8, 64))
            if v is not self.ret or m.regs["rsp"] is not add(self.stack, const(STACK + 8, 64)):
                raise Misbehaviour("returns with an unbalanced stack", m)
            m.done = True
            return [m]
        if op[0] == "j":
            if op in ("jrcxz", "jecxz"):
                c = eq(m.regs["rcx"] if op == "jrcxz" else extract(m.regs["rcx"], 31, 0), const(0, 64 if op == "jrcxz" else 32))
            else:
                c = self.cond(m, op[1:])
            return self.branch(m, c, a[0][1], nxt)
        w = self.width(i)
        if op in ("mov", "movabs"):
            self.put(m, a[0], self.get(m, a[1], w))
        elif op in ("movzx", "movsx", "movsxd"):
            sw = a[1][2] if a[1][0] == "r" else 8 * a[1][1]
            v = self.get(m, a[1], sw)
            self.put(m, a[0], zext(v, a[0][2]) if op == "movzx" else sext(v, a[0][2]))
        elif op == "lea":
            self.put(m, a[0], extract(self.addr(m, a[1]), a[0][2] - 1, 0))
        elif op in ("add", "sub", "cmp", "test", "and", "or", "xor", "adc", "sbb"):
            if op == "xor" and a[0] == a[1]:
                x = const(0, w)
                self.put(m, a[0], x)
                self.setf(m, x)
            else:
                x, y = self.get(m, a[0], w), self.get(m, a[1], w)
                if op == "and" and y.op == "const" and w == 64 and self.eng.resolve(x) and self.eng.resolve(x)[0] is self.stack:
                    # aligning the stack pointer
                    off = self.eng.resolve(x)[1]
                    al = (1 << 64) - y.p
                    if off.op != "const" or al & (al - 1) or al > 32:
                        raise Unsupported("stack alignment")
                    r = sub(x, const((off.p - STACK + self.align) % al, 64))
                    self.put(m, a[0], r)
                    m.flags = {}
                    m.pc = nxt
                    return None
                s = w - 1
                if op == "add":
                    r = add(x, y)
                    of = and_(not_(xor(extract(x, s, s), extract(y, s, s))), xor(extract(x, s, s), extract(r, s, s)))
                    self.put(m, a[0], r)
                    self.setf(m, r, ult(r, x), of)
                elif op in ("sub", "cmp"):
                    r = sub(x, y)
                    of = and_(xor(extract(x, s, s), extract(y, s, s)), xor(extract(x, s, s), extract(r, s, s)))
                    if op == "sub":
                        self.put(m, a[0], r)
                    self.setf(m, r, ult(x, y), of)
                    m.flags["z"] = eq(x, y)
                elif op in ("adc", "sbb"):
                    raise Unsupported(op)
                else:
                    r = {"test": and_, "and": and_, "or": or_, "xor": xor}[op](x, y)
                    if op != "test":
                        self.put(m, a[0], r)
                    self.setf(m, r)
        elif op in ("inc", "dec"):
            x = self.get(m, a[0], w)
            r = add(x, const(1, w)) if op == "inc" else sub(x, const(1, w))
            self.put(m, a[0], r)
            o = eq(r, const(1 << (w - 1), w)) if op == "inc" else eq(x, const(1 << (w - 1), w))
            self.setf(m, r, o=o, keep_c=True)
        elif op == "neg":
            x = self.get(m, a[0], w)
            r = neg(x)
            self.put(m, a[0], r)
            self.setf(m, r, not_(eq(x, const(0, w))), eq(x, const(1 << (w - 1), w)))
        elif op == "not":
            self.put(m, a[0], not_(self.get(m, a[0], w)))
        elif op in ("shl", "shr", "sar", "rol", "ror", "sal"):
            x = self.get(m, a[0], w)
            cnt = self.get(m, a[1], 8) if len(a) > 1 else const(1, 8)
            if cnt.op != "const":
                raise Unsupported("variable shift")
            n = cnt.p & (63 if w == 64 else 31)
            if n:
                r = {"shl": shl_c, "sal": shl_c, "shr": lshr_c, "sar": tm.ashr_c, "rol": rotl_c, "ror": rotr_c}[op](x, n)
                self.put(m, a[0], r)
                if op in ("rol", "ror"):
                    m.flags = {"z": m.flags.get("z"), "s": m.flags.get("s")}
                else:
                    c = None
                    if n <= w:
                        c = extract(x, w - n, w - n) if op in ("shl", "sal") else extract(x, n - 1, n - 1)
                    self.setf(m, r, c, None)
        elif op == "imul":
            if len(a) == 1:
                raise Unsupported("one-operand imul")
            r = mul(self.get(m, a[1], w), self.get(m, a[2] if len(a) > 2 else a[0], w))
            self.put(m, a[0], r)
            m.flags = {}
        elif op == "push":
            v = self.get(m, a[0], 64)
            m.regs["rsp"] = sub(m.regs["rsp"], const(8, 64))
            self.store(m, m.regs["rsp"], v, 8)
        elif op == "pop":
            v = self.load(m, m.regs["rsp"], 8)
            m.regs["rsp"] = add(m.regs["rsp"], const(8, 64))
            self.put(m, a[0], v)
        elif op == "leave":
            m.regs["rsp"] = m.regs["rbp"]
            v = self.load(m, m.regs["rsp"], 8)
            m.regs["rsp"] = add(m.regs["rsp"], const(8, 64))
            m.regs["rbp"] = v
        elif op == "xchg":
            x, y = self.get(m, a[0], w), self.get(m, a[1], w)
            self.put(m, a[0], y)
            self.put(m, a[1], x)
        elif op == "bswap":
            x = self.get(m, a[0], w)
            self.put(m, a[0], concat(*[extract(x, 8 * k + 7, 8 * k) for k in range(w // 8)]))
        elif op.startswith("cmov"):
            c = self.cond(m, op[4:])
            self.put(m, a[0], ite(c, self.get(m, a[1], w), self.get(m, a[0], w)))
        elif op.startswith("set") and len(a) == 1:
            c = self.cond(m, op[3:])
            self.put(m, a[0], zext(c, 8))
        elif op == "cpuid":
            if self.cpuid is None:
                raise Unsupported("cpuid")
            r = self.cpuid(extract(m.regs["rax"], 31, 0), extract(m.regs["rcx"], 31, 0))
            for n, v in zip(("rax", "rbx", "rcx", "rdx"), r):
                m.regs[n] = zext(v, 64)
        else:
            self.vector(m, i)
        m.pc = nxt
        return None

    def vector(self, m, i):
        op, a = i.op, i.args
        vex = op[0] == "v"
        o = op[1:] if vex else op
        n = 4
        for x in a:
            if x[0] == "v":
                n = max(n, x[2])
        if o in ("movdqa", "movaps", "movapd"):
            al = 4 * n
            self.vput(m, a[0], self.vget(m, a[1], n, a[1][0] == "m"), vex, a[0][0] == "m")
            return
        if o in ("movdqu", "movups", "movupd", "lddqu"):
            self.vput(m, a[0], self.vget(m, a[1], n), vex)
            return
        if o in ("movd", "movq"):
            w = 32 if o == "movd" else 64
            if a[0][0] == "v":
                if a[1][0] == "v":
                    v = concat(*reversed(m.vec[a[1][1]][:w // 32]))
                else:
                    v = self.get(m, a[1], w)
                self.vput(m, a[0], lanes(zext(v, 128)), vex)
            else:
                v = concat(*reversed(m.vec[a[1][1]][:w // 32]))
                self.put(m, a[0], v)
            return
        # two-operand (legacy) and three-operand (VEX) forms
        if o in ("pxor", "por", "pand", "pandn", "paddd", "psubd", "paddq", "punpckhdq", "punpckldq", "punpckhqdq", "punpcklqdq", "pshufb", "xorps", "andps",
                 "orps", "xorpd", "pcmpeqd", "psubq"):
            d, x, y = (a[0], a[1], a[2]) if vex else (a[0], a[0], a[1])
            same = x[0] == "v" and x == y
            X = self.vget(m, x, n)
            Y = self.vget(m, y, n, not vex and y[0] == "m")
            if o in ("pxor", "xorps", "xorpd"):
                R = [const(0, 32)] * n if same else [xor(p, q) for p, q in zip(X, Y)]
            elif o in ("por", "orps"):
                R = [or_(p, q) for p, q in zip(X, Y)]
            elif o in ("pand", "andps"):
                R = [and_(p, q) for p, q in zip(X, Y)]
            elif o == "pandn":
                R = [and_(not_(p), q) for p, q in zip(X, Y)]
            elif o == "paddd":
                R = [add(p, q) for p, q in zip(X, Y)]
            elif o == "psubd":
                R = [sub(p, q) for p, q in zip(X, Y)]
            elif o in ("paddq", "psubq"):
                R = []
                for k in range(0, n, 2):
                    f = add if o == "paddq" else sub
                    R += lanes(f(concat(X[k + 1], X[k]), concat(Y[k + 1], Y[k])))
            elif o == "pcmpeqd":
                R = [ite(eq(p, q), const(0xffffffff, 32), const(0, 32)) for p, q in zip(X, Y)]
            elif o.startswith("punpck"):
                R = []
                for k in range(0, n, 4):
                    p, q = X[k:k + 4], Y[k:k + 4]
                    R += {"punpckhdq": [p[2], q[2], p[3], q[3]], "punpckldq": [p[0], q[0], p[1], q[1]],
                          "punpckhqdq": [p[2], p[3], q[2], q[3]], "punpcklqdq": [p[0], p[1], q[0], q[1]]}[o]
            else:
                R = []
                for k in range(0, n, 4):
                    p, q = lbytes(X[k:k + 4]), lbytes(Y[k:k + 4])
                    bs = []
                    for z in q:
                        if z.op != "const":
                            raise Unsupported("pshufb with a variable mask")
                        bs.append(const(0, 8) if z.p & 0x80 else p[z.p & 15])
                    R += unbytes(bs)
            self.vput(m, d, R, vex)
            return
        if o in ("pslld", "psrld", "psrad", "psllq", "psrlq", "pslldq", "psrldq"):
            d, x, c = (a[0], a[1], a[2]) if vex else (a[0], a[0], a[1])
            if c[0] != "i":
                raise Unsupported("vector shift by register")
            k = c[1] & 0xff
            X = self.vget(m, x, n)
            if o in ("pslld", "psrld", "psrad"):
                if o == "psrad":
                    R = [tm.ashr_c(p, min(k, 31)) for p in X]
                else:
                    R = [const(0, 32) if k > 31 else (shl_c if o == "pslld" else lshr_c)(p, k) for p in X]
            elif o in ("psllq", "psrlq"):
                R = []
                for j in range(0, n, 2):
                    q = concat(X[j + 1], X[j])
                    R += lanes(const(0, 64) if k > 63 else (shl_c if o == "psllq" else lshr_c)(q, k))
            else:
                R = []
                k = min(k, 16)
                z = [const(0, 8)] * k
                for j in range(0, n, 4):
                    b = lbytes(X[j:j + 4])
                    R += unbytes((z + b)[:16] if o == "pslldq" else (b + z)[k:])
            self.vput(m, d, R, vex)
            return
        if o in ("pshufd", "permilps") and a[2][0] == "i":
            X = self.vget(m, a[1], n, not vex and a[1][0] == "m")
            R = []
            for k in range(0, n, 4):
                R += [X[k + (a[2][1] >> (2 * j) & 3)] for j in range(4)]
            self.vput(m, a[0], R, vex)
            return
        if o in ("palignr", "pblendw", "pblendd", "shufps"):
            d, x, y, c = (a[0], a[1], a[2], a[3]) if vex else (a[0], a[0], a[1], a[2])
            X, Y = self.vget(m, x, n), self.vget(m, y, n, not vex and y[0] == "m")
            k = c[1] & 0xff
            R = []
            if o == "pblendd":
                R = [q if k >> j & 1 else p for j, (p, q) in enumerate(zip(X, Y))]
            else:
                for j in range(0, n, 4):
                    if o == "palignr":
                        b = lbytes(Y[j:j + 4]) + lbytes(X[j:j + 4]) + [const(0, 8)] * 32
                        R += unbytes(b[min(k, 32):min(k, 32) + 16])
                    elif o == "shufps":
                        R += [X[j + (k & 3)], X[j + (k >> 2 & 3)], Y[j + (k >> 4 & 3)], Y[j + (k >> 6 & 3)]]
                    else:
                        p, q = lbytes(X[j:j + 4]), lbytes(Y[j:j + 4])
                        b = []
                        for e in range(8):
                            b += (q if k >> e & 1 else p)[2 * e:2 * e + 2]
                        R += unbytes(b)
            self.vput(m, d, R, vex)
            return
        if op in ("vbroadcasti128", "vbroadcastf128"):
            X = self.vget(m, a[1], 4)
            self.vput(m, a[0], X + X, True)
            return
        if op in ("vpbroadcastd", "vpbroadcastq"):
            k = 1 if op == "vpbroadcastd" else 2
            if a[1][0] == "m":
                X = lanes(self.load(m, self.addr(m, a[1]), 4 * k))
            else:
                X = m.vec[a[1][1]][:k]
            self.vput(m, a[0], list(X) * (n // k), True)
            return
        if op in ("vperm2i128", "vperm2f128"):
            X, Y = self.vget(m, a[1], 8), self.vget(m, a[2], 8)
            k = a[3][1]
            src = [X[:4], X[4:], Y[:4], Y[4:]]
            lo = [const(0, 32)] * 4 if k & 8 else src[k & 3]
            hi = [const(0, 32)] * 4 if k & 0x80 else src[k >> 4 & 3]
            self.vput(m, a[0], lo + hi, True)
            return
        if op in ("vinserti128", "vinsertf128"):
            X, Y = self.vget(m, a[1], 8), self.vget(m, a[2], 4)
            self.vput(m, a[0], X[:4] + Y if a[3][1] & 1 else Y + X[4:], True)
            return
        if op in ("vextracti128", "vextractf128"):
            X = self.vget(m, a[1], 8)
            self.vput(m, a[0], X[4:] if a[2][1] & 1 else X[:4], True)
            return
        if op == "vpermq":
            X = self.vget(m, a[1], 8)
            R = []
            for j in range(4):
                q = a[2][1] >> (2 * j) & 3
                R += X[2 * q:2 * q + 2]
            self.vput(m, a[0], R, True)
            return
        if op == "pinsrd" or op == "vpinsrd":
            d, x, y, c = (a[0], a[1], a[2], a[3]) if vex else (a[0], a[0], a[1], a[2])
            X = self.vget(m, x, 4)
            X[c[1] & 3] = self.get(m, y, 32)
            self.vput(m, d, X, vex)
            return
        if op == "pextrd" or op == "vpextrd":
            self.put(m, a[0], m.vec[a[1][1]][a[2][1] & 3])
            return
        if op.startswith("sha"):
            self.sha(m, op, a)
            return
        raise Unsupported("instruction " + i.text)

    def sha(self, m, op, a):
        X = self.vget(m, a[0], 4)
        Y = self.vget(m, a[1], 4, a[1][0] == "m")
        if op == "sha1rnds4":
            k = a[2][1] & 3
            K = const((0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6)[k], 32)
            f = (ch, xor, maj, xor)[k]
            A, B, C, D = X[3], X[2], X[1], X[0]
            E = None
            for w in (Y[3], Y[2], Y[1], Y[0]):
                t = [f(B, C, D), rotl_c(A, 5), w, K] + ([E] if E is not None else [])
                A, B, C, D, E = add(*t), A, rotl_c(B, 30), C, D
            R = [D, C, B, A]
        elif op == "sha1nexte":
            R = Y[:3] + [add(Y[3], rotl_c(X[3], 30))]
        elif op == "sha1msg1":
            R = [xor(Y[2], X[0]), xor(Y[3], X[1]), xor(X[0], X[2]), xor(X[1], X[3])]
        elif op == "sha1msg2":
            w16 = rotl_c(xor(X[3], Y[2]), 1)
            R = [rotl_c(xor(X[0], w16), 1), rotl_c(xor(X[1], Y[0]), 1), rotl_c(xor(X[2], Y[1]), 1), w16]
        elif op == "sha256rnds2":
            W = m.vec[0]
            A, B, C, D = Y[3], Y[2], X[3], X[2]
            E, F, G, H = Y[1], Y[0], X[1], X[0]
            for w in (W[0], W[1]):
                t = add(ch(E, F, G), big1(E), w, H)
                A, B, C, D, E, F, G, H = add(t, maj(A, B, C), big0(A)), A, B, C, add(t, D), E, F, G
            R = [F, E, B, A]
        elif op == "sha256msg1":
            R = [add(X[0], sm0(X[1])), add(X[1], sm0(X[2])), add(X[2], sm0(X[3])), add(X[3], sm0(Y[0]))]
        elif op == "sha256msg2":
            w16 = add(X[0], sm1(Y[2]))
            w17 = add(X[1], sm1(Y[3]))
            R = [w16, w17, add(X[2], sm1(w16)), add(X[3], sm1(w17))]
        else:
            raise Unsupported(op)
        self.vput(m, a[0], R)

    def branch(self, m, c, taken, nxt):
        if c is TRUE or c is FALSE:
            m.pc = taken if c is TRUE else nxt
            return None
        if self.branch_hook:
            self.branch_hook(m, c)
        out = []
        for cc, pc in ((c, taken), (not_(c), nxt)):
            r = self.eng.solver.sat(m.st.conds, cc)
            if r is False:
                continue
            k = m.fork()
            k.st.assume(cc)
            k.pc = pc
            k.nbr += 1
            out.append(k)
        return out

    # ---- exploration
    def run(self, m, cut=None, limit=64, loops=True):
        """follow all paths until they return or arrive at the cut address.
        Returns (states at the cut, returned states).  With cut None, the first address that a
        path reaches again after a data-dependent branch is raised as LoopAt."""
        heads, rets = [], []
        work = [m]
        while work:
            m = work.pop()
            first = True
            while True:
                if cut is not None and m.pc == cut and not (first and m.trace == "leave"):
                    heads.append(m)
                    break
                if first:
                    m.trace = ()
                first = False
                if cut is None and loops:
                    v = m.visits.get(m.pc)
                    if v is not None and v < m.nbr:
                        raise LoopAt(m.pc)
                    m.visits[m.pc] = m.nbr
                r = self.step(m)
                if r is not None:
                    if len(r) == 1 and r[0].done:
                        rets.append(r[0])
                        break
                    if not r:
                        break
                    m = r[0]
                    work += r[1:]
                    if len(work) > limit:
                        raise Unsupported("too many paths")
        return heads, rets

    # ---- calling convention at return
    def abi_goals(self, m):
        out = []
        for r in SAVED:
            out.append((eq(m.regs[r], var("in_" + r, 64)), "register %s is not preserved" % r))
        return out


class LoopAt(Exception):
    def __init__(self, pc):
        self.pc = pc


def locations(mc, m):
    """loop-carried state: registers, lanes, bytes of objects of known size"""
    out = {}
    for r, v in m.regs.items():
        out[("r", r)] = v
    for i, v in enumerate(m.vec):
        for k, x in enumerate(v):
            out[("v", i, k)] = x
    for oid, o in m.st.mem.items():
        if o.data is not None:
            for k, x in enumerate(o.data):
                if x is not None:
                    out[("m", oid, k)] = x
    return out


def setloc(mc, m, loc, v):
    if loc[0] == "r":
        m.regs[loc[1]] = v
    elif loc[0] == "v":
        m.vec[loc[1]][loc[2]] = v
    else:
        o = mc.eng.wobj(m.st, loc[1])
        o.data[loc[2]] = v


def getloc(mc, m, loc):
    if loc[0] == "r":
        return m.regs[loc[1]]
    if loc[0] == "v":
        return m.vec[loc[1]][loc[2]]
    return m.st.mem[loc[1]].data[loc[2]]


def iteration(mc, entry, head, trial, cut, N, H, couple, free, havoc):
    """one iteration from a generic state at the loop head: locations that mention the chaining
    state hold the same expression over the current one, those that advance by a constant do so k
    times, other changing ones (and the free ones) hold anything"""
    from .loops import Broken
    hs = set(H)
    g = head.fork()
    g.st.conds = tuple(entry.st.conds)
    g.flags = {}
    g.reads, g.writes = [], []
    k = fresh("k", 64)
    g.st.assume(ult(k, N))
    l0 = locations(mc, head)
    coupled, affine, unchanged = [], [], []
    for b in trial:
        for loc in locations(mc, b):
            l0.setdefault(loc, None)
    skip = set()
    # 32-bit words in memory that advance by a constant
    for (o, oid, i) in [l for l in l0 if l[0] == "m" and l[2] % 4 == 0]:
        ls = tuple(("m", oid, i + j) for j in range(4))
        if any(l0.get(x) is None or x in free or any(y in hs for y in tm.variables([l0[x]])) for x in ls):
            continue
        if all(getloc(mc, b, x) is l0[x] for b in trial for x in ls) or any(getloc(mc, b, x) is None for b in trial for x in ls):
            continue
        word = lambda m: concat(*[getloc(mc, m, x) for x in reversed(ls)])
        w0 = word(head)
        ds = [sub(word(b), w0) for b in trial]
        if all(x.op == "const" and x is ds[0] for x in ds):
            v = add(w0, mul(tm.trunc(k, 32), ds[0]))
            for j, x in enumerate(ls):
                setloc(mc, g, x, extract(v, 8 * j + 7, 8 * j))
            affine.append((ls, ds[0], w0))
            skip.update(ls)
    for loc, v0 in l0.items():
        if loc in skip:
            continue
        vs = [getloc(mc, b, loc) for b in trial]
        if loc in free or v0 is None:
            setloc(mc, g, loc, fresh("it", {"r": 64, "v": 32, "m": 8}[loc[0]]))
        elif all(x is v0 for x in vs):
            unchanged.append((loc, v0))
        elif any(x in hs for x in tm.variables([v0])):
            setloc(mc, g, loc, tm.substitute([v0], couple)[0])
            coupled.append((loc, v0))
        else:
            ds = [sub(x, v0) if x is not None else None for x in vs]
            if loc[0] != "m" and all(x is not None and x.op == "const" and x is ds[0] for x in ds):
                kk = tm.trunc(k, v0.w) if v0.w < 64 else k
                affine.append((loc, ds[0], v0))
                setloc(mc, g, loc, add(v0, mul(kk, ds[0])))
            else:
                setloc(mc, g, loc, fresh("it", v0.w))
    for b in trial:
        for oid, o in b.st.mem.items():
            if o.data is None and len(o.log) != len(head.st.mem[oid].log):
                if havoc is None:
                    raise Broken("loop writes %s" % o.name)
                havoc(g, mc.eng.wobj(g.st, oid), k)
    s = g.fork()
    s.trace = "leave"
    backs, outs = mc.run(s, cut)
    return g, backs, outs, k, coupled, affine, unchanged


def induction(mc, entry, N, H, step, effects, at_return, havoc=None, words=True):
    """Induction on the number of main loop iterations N (64-bit term), see loops.block_induction.
    effects(head, state, hk, k): goals about one iteration (state: at the head again or returned);
    at_return(state, h): goals about a returned state, h the chaining state then.
    Raises loops.Broken when it does not go through."""
    from . import equiv
    from .loops import Broken

    def holds(conds, c):
        return c is TRUE or solve.check(list(conds) + [not_(c)], 60) == "unsat"

    probe = entry.fork()
    try:
        heads, rets = mc.run(probe)
        raise Broken("no loop")
    except LoopAt as e:
        cut = e.pc
    heads, rets = mc.run(entry.fork(), cut)
    for r in rets:
        if not holds(r.st.conds, eq(N, const(0, 64))):
            raise Broken("returns without entering the loop for a count other than 0")
        at_return(r, H)
    couple = {x: fresh(x.p, x.w) for x in H}
    hk = [couple[x] for x in H]
    paths = 0
    for head in heads:
        if not holds(head.st.conds, ult(const(0, 64), N)):
            raise Broken("enters the loop for count 0")
        t = head.fork()
        t.trace = "leave"
        trial, _ = mc.run(t, cut)
        if not trial:
            raise Broken("loop body never repeats")
        # guesses about locations that an iteration does not keep are dropped and the rest tried again
        free = set()
        for attempt in range(12):
            g, backs, outs, k, coupled, affine, unchanged = iteration(mc, entry, head, trial, cut, N, H, couple, free, havoc)
            nxt = step(hk, k)
            sub1 = dict(zip(H, nxt))
            bad = set()
            for b in backs:
                for loc, v in unchanged:
                    if getloc(mc, b, loc) is not v:
                        bad.add(loc)
                for loc, d, v0 in affine:
                    if isinstance(loc[0], tuple):
                        cur = concat(*[getloc(mc, b, x) for x in reversed(loc)])
                        old = concat(*[getloc(mc, g, x) for x in reversed(loc)])
                    else:
                        cur, old = getloc(mc, b, loc), getloc(mc, g, loc)
                    if sub(cur, old) is not d:
                        bad.update(loc if isinstance(loc[0], tuple) else [loc])
                if coupled:
                    got = [getloc(mc, b, loc) for loc, _ in coupled]
                    want = tm.substitute([v for _, v in coupled], sub1)
                    r = equiv.equivalent(got, want, b.st.conds)
                    if r.status == "differ":
                        bad.update(loc for (loc, _), x, y in zip(coupled, got, want) if r.model(x) != r.model(y))
                    elif r.status != "equal":
                        raise Broken("loop-carried state is not decided to be the specified next state")
            if not bad:
                break
            free |= bad
        else:
            raise Broken("no inductive invariant found")
        for b in backs:
            paths += 1
            if not holds(b.st.conds, ult(add(k, const(1, 64)), N)):
                raise Broken("goes on after the last block")
            effects(g, b, hk, k)
        for r in outs:
            paths += 1
            if not holds(r.st.conds, eq(N, add(k, const(1, 64)))):
                raise Broken("leaves the loop before the last block")
            effects(g, r, hk, k)
            at_return(r, nxt)
    return "%d loop-carried chaining locations, %d counters, %d paths" % (len(coupled), len(affine), paths)
