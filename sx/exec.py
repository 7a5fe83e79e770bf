"""Symbolic executor for LLVM IR.

Values are terms (pointers included) or Python lists for aggregates.  Memory is a
set of objects; concrete-size objects hold one term per byte, symbolic-size
objects hold an initial content function and a write log.  A branch on a symbolic
condition forks; both sides run to the immediate post-dominator, where states
with equal event lists are merged again with ite terms.  Every memory access is
checked against its object's bounds by the solver.
"""
import os
import re
import sys
import time

from . import ir
from . import terms as tm
from .solve import PathSolver
from .terms import T, const, var, fresh, add, sub, ite, and_, or_, not_, eq, ult, ule, extract, concat, TRUE, FALSE

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    """the code cannot be encoded (not a verdict)"""


class Limit(Unsupported):
    pass


class Obj:
    __slots__ = ("id", "name", "size", "data", "base", "log", "writable", "freed", "kind", "init")

    def clone(self):
        o = Obj()
        o.id = self.id
        o.name = self.name
        o.size = self.size
        o.data = list(self.data) if self.data is not None else None
        o.base = self.base
        o.log = self.log
        o.writable = self.writable
        o.freed = self.freed
        o.kind = self.kind
        o.init = self.init
        return o


class Frame:
    __slots__ = ("fn", "blk", "idx", "env", "prev", "call", "allocas")

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.env = dict(self.env)
        f.prev = self.prev
        f.call = self.call
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ("frames", "mem", "owned", "conds", "events", "retv", "status", "exc", "steps", "user")

    def fork(self):
        s = State()
        s.frames = [f for f in self.frames]
        if s.frames:
            s.frames[-1] = s.frames[-1].clone()
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.conds = self.conds
        s.events = self.events
        s.retv = self.retv
        s.status = self.status
        s.exc = self.exc
        s.steps = self.steps
        s.user = dict(self.user)
        return s

    def assume(self, c):
        if c is not TRUE:
            self.conds = self.conds + (c,)

    def event(self, *e):
        self.events = self.events + (e,)


class Outcome:
    def __init__(self, st, kind, val=None):
        self.st = st
        self.kind = kind      # 'ret' | 'throw' | 'terminate' | 'trap'
        self.val = val


INTR_NOP = ("llvm.lifetime.", "llvm.assume", "llvm.dbg.", "llvm.experimental.noalias", "llvm.invariant.", "llvm.stackrestore",
            "llvm.var.annotation", "llvm.donothing", "llvm.prefetch", "llvm.sideeffect")


class Engine:
    def __init__(self, module, merge=True, max_steps=4000000, max_paths=20000, timeout=30):
        self.m = module
        self.merge = merge
        self.objs = {}            # base var term -> obj id
        self.nobj = 0
        self.fnaddr = {}
        self.addrfn = {}
        self.gobj = {}            # global name -> base pointer
        self.base_conds = []
        self.rewrite = {}         # term -> term equal to it under base_conds
        self.solver = PathSolver(timeout)
        self.intercept = {}       # name -> handler(eng, st, args) -> value
        self.intercept_re = []    # (regex, handler)
        self.on_icall = None
        self.problems = []        # memory violations: dicts
        self.undef = []           # undef variables
        self.used = set()
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.paths = 0
        self.steps = 0
        self.branch_hook = None
        self.addr_hook = None
        self.sizes = {}
        self.prepd = {}
        self.idom = {}
        self.deadline = None
        self.check_bounds = True
        self.nforks = 0
        self.loop_limit = {}
        self.watch = None         # (function, block): explorations stop when it is entered
        self.outs = []
        self.loopinfo = {}

    # ---------------------------------------------------------------- types
    summaries = False
    wlog = None
    nsum = 0
    loopinfo = None

    def rtype(self, t):
        while t[0] == "named":
            t = self.m.types[t[1]]
        return t

    def layout(self, t):
        """(size, align)"""
        t = self.rtype(t)
        r = self.sizes.get(t)
        if r is None:
            k = t[0]
            if k == "i":
                n = (t[1] + 7) // 8
                a = 1
                while a < n and a < 16:
                    a *= 2
                r = ((n + a - 1) // a * a, a)
            elif k == "ptr":
                r = (8, 8)
            elif k == "fp":
                r = {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
            elif k == "arr":
                s, a = self.layout(t[2])
                r = (s * t[1], a)
            elif k == "vec":
                s, a = self.layout(t[2])
                n = s * t[1]
                a = 1
                while a < n:
                    a *= 2
                r = (n, min(a, 64))
            elif k == "struct":
                off = 0
                al = 1
                for e in t[1]:
                    s, a = self.layout(e)
                    if not t[2]:
                        off = (off + a - 1) // a * a
                        al = max(al, a)
                    off += s
                if not t[2]:
                    off = (off + al - 1) // al * al
                r = (off, al)
            else:
                raise Unsupported("layout %r" % (t,))
            self.sizes[t] = r
        return r

    def field(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.layout(e)
            if not t[2]:
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsupported("field")

    def bits(self, t):
        t = self.rtype(t)
        if t[0] == "i":
            return t[1]
        if t[0] == "ptr":
            return 64
        if t[0] == "vec":
            return t[1] * self.bits(t[2])
        if t[0] == "fp":
            return t[1]
        return None

    # ---------------------------------------------------------------- memory
    def new_state(self):
        s = State()
        s.frames = []
        s.mem = {}
        s.owned = set()
        s.conds = tuple(self.base_conds)
        s.events = ()
        s.retv = None
        s.status = "run"
        s.exc = None
        s.steps = 0
        s.user = {}
        return s

    def alloc(self, st, size, name, init=None, writable=True, kind="heap"):
        """size int or 64-bit term.  init: None (uninitialised), 'zero', list of byte terms,
        bytes, or a function offset-term -> byte term.  Returns the pointer."""
        self.nobj += 1
        o = Obj()
        o.id = self.nobj
        o.name = name
        o.size = size
        o.writable = writable
        o.freed = False
        o.kind = kind
        o.log = ()
        o.init = None
        o.base = var("&%s#%d" % (name, o.id), 64)
        if isinstance(size, int):
            if init is None:
                o.data = [None] * size
            elif init == "zero":
                o.data = [const(0, 8)] * size
            elif callable(init):
                o.data = [init(const(i, 64)) for i in range(size)]
            elif isinstance(init, bytes):
                o.data = [const(x, 8) for x in init] + [None] * (size - len(init))
            else:
                o.data = list(init) + [None] * (size - len(init))
        else:
            o.data = None
            if init is None:
                nm = "undefmem_%s#%d" % (name, o.id)
                init = lambda off, nm=nm: tm.uf(nm, 8, off)
            o.init = init
        st.mem[o.id] = o
        st.owned.add(o.id)
        self.objs[o.base] = o.id
        return o.base

    def base_facts(self, terms):
        """address facts for the base variables occurring in terms"""
        bs = [t for t in tm.variables(terms) if t in self.objs]
        out = []
        for t in bs:
            out.append(ult(const(1 << 16, 64), t))
            out.append(ult(t, const(1 << 46, 64)))
            out.append(eq(extract(t, 3, 0), const(0, 4)))
        return out

    def resolve(self, p):
        """pointer term -> (base var, offset term) or None"""
        if p in self.objs:
            return p, const(0, 64)
        if p.op == "add":
            c = [x for x, k in zip(p.a, p.p[0]) if x in self.objs and k == 1]
            if len(c) == 1:
                return c[0], sub(p, c[0])
        return None

    def obj(self, st, base):
        return st.mem[self.objs[base]]

    def wobj(self, st, oid):
        o = st.mem[oid]
        if oid not in st.owned:
            o = o.clone()
            st.mem[oid] = o
            st.owned.add(oid)
        return o

    def size_of(self, o):
        return const(o.size, 64) if isinstance(o.size, int) else o.size

    def problem(self, st, kind, msg, cond=None):
        """report a memory error that is possible on this path (model recorded)"""
        m = None
        conds = st.conds
        if cond is not None:
            r = self.solver.sat(conds, cond)
            if r is False:
                return False
            if r is None:
                self.problems.append(dict(kind="unknown", msg=msg, where=self.where(st), model=None, st=st.fork(), cond=cond))
                return True
            m = self.solver.model
        else:
            r = self.solver.sat(conds)
            if r is False:
                return False
            m = self.solver.model
        self.problems.append(dict(kind=kind, msg=msg, where=self.where(st), model=m, st=st.fork(), cond=cond))
        return True

    def where(self, st):
        return " < ".join(f.fn.name for f in reversed(st.frames))

    def check_access(self, st, o, off, ln, write):
        """off, ln: 64-bit terms"""
        if o.freed:
            self.problem(st, "uaf", "access to freed/dead %s" % o.name)
        if write and not o.writable:
            self.problem(st, "rowrite", "write to read-only %s" % o.name, ne_zero(ln))
        if not self.check_bounds:
            return
        if off.op == "const" and ln.op == "const" and isinstance(o.size, int):
            v = tm.tosigned(off.p, 64)
            if v < 0 or v + ln.p > o.size:
                if ln.p:
                    self.problem(st, "oob", "%s of %d bytes at offset %d of %s (size %d)" % (
                        "write" if write else "read", ln.p, v, o.name, o.size))
                    st.assume(FALSE)
            return
        size = self.size_of(o)
        end = add(off, ln)
        # ok: ln == 0 or (off <= size and ln <= size - off)
        ok = or_(eq(ln, const(0, 64)), and_(ule(off, size), ule(ln, sub(size, off))))
        if ok is TRUE:
            return
        if self.problem(st, "oob", "%s at %s len %s of %s" % ("write" if write else "read", tm.show(off, 3), tm.show(ln, 3), o.name), not_(ok)):
            st.assume(ok)

    def new_undef(self, w, why="undef"):
        v = fresh("undef_" + why, w)
        self.undef.append(v)
        return v

    def read_byte(self, o, off):
        """byte term of object o at offset term (no checks)"""
        if o.data is not None:
            if off.op == "const":
                i = off.p
                if i >= len(o.data):
                    return self.new_undef(8, "oob")
                v = o.data[i]
                if v is None:
                    v = o.data[i] = self.new_undef(8, o.name)
                return v
            n = len(o.data)
            if n > 4096:
                raise Unsupported("symbolic index into %s[%d]" % (o.name, n))
            hi = min(tm.umax(off), n - 1)
            lo = min(tm.umin(off), hi)
            if all(o.data[i] is not None and o.data[i].op == "const" for i in range(lo, hi + 1)) and hi - lo > 15:
                return self.table(o, off, lo, hi)
            r = None
            # strided access: skip impossible residues
            step, res = stride(off)
            for i in range(hi, lo - 1, -1):
                if step > 1 and i % step != res:
                    continue
                v = o.data[i]
                if v is None:
                    v = o.data[i] = self.new_undef(8, o.name)
                r = v if r is None else ite(eq(off, const(i, 64)), v, r)
            return r
        # newest write first, up to one that certainly covers the byte
        hits = []
        for g, start, ln, fn in reversed(o.log):
            rel = sub(off, start)
            if rel.op == "const" and ln.op == "const":
                if rel.p >= ln.p:
                    continue
                c = g
            else:
                c = and_(g, ult(rel, ln))
            if c is FALSE:
                continue
            hits.append((c, fn, rel))
            if c is TRUE:
                break
        else:
            hits.append((TRUE, o.init, off))
        c, fn, rel = hits.pop()
        v = fn(rel)
        for c, fn, rel in reversed(hits):
            v = ite(c, fn(rel), v)
        return v

    def table(self, o, off, lo, hi):
        """constant table lookup: group by value"""
        vals = {}
        for i in range(lo, hi + 1):
            vals.setdefault(o.data[i].p, []).append(i)
        # most common value is the default
        dv = max(vals, key=lambda v: len(vals[v]))
        r = const(dv, 8)
        n = max(hi.bit_length(), 1)
        idx = extract(off, n - 1, 0)
        # runs of consecutive entries with constant difference are linear pieces
        i = lo
        pieces = []
        while i <= hi:
            j = i
            if i < hi:
                d = (o.data[i + 1].p - o.data[i].p)
                while j < hi and o.data[j + 1].p - o.data[j].p == d and d in (0, 1, -1):
                    j += 1
            pieces.append((i, j))
            i = j + 1
        if len(pieces) <= (hi - lo + 1) // 3:
            r = None
            for i, j in reversed(pieces):
                d = (o.data[i + 1].p - o.data[i].p) if j > i else 0
                b0 = o.data[i].p
                if d == 0:
                    v = const(b0, 8)
                else:
                    x = tm.zext(idx, 8) if n <= 8 else extract(idx, 7, 0)
                    v = add(const(b0 - d * i, 8), x) if d == 1 else sub(const(b0 + i, 8), x)
                r = v if r is None else ite(ule(idx, const(j, n)), v, r)
            return r
        for v, ii in sorted(vals.items()):
            if v == dv:
                continue
            c = or_(*[eq(idx, const(i, n)) for i in ii])
            r = ite(c, const(v, 8), r)
        return r

    def load(self, st, p, n):
        """n bytes little endian as a term of 8n bits"""
        o, off = self.access(st, p, const(n, 64), False)
        if o is None:
            return self.new_undef(8 * n, "bad")
        if o.data is not None and off.op != "const" and n > 1 and n <= 16:
            # element-wise selection keeps terms small
            step, res = stride(off)
            if step % n == 0 and res % n == 0 and len(o.data) <= 4096:
                hi = min(tm.umax(off), len(o.data) - n)
                lo = min(tm.umin(off), hi)
                r = None
                for i in range(hi - (hi - res) % step, lo - 1, -step):
                    v = concat(*[self.read_byte(o, const(i + k, 64)) for k in range(n - 1, -1, -1)])
                    r = v if r is None else ite(eq(off, const(i, 64)), v, r)
                if r is not None:
                    return r
        bs = [self.read_byte(o, add(off, const(i, 64))) for i in range(n)]
        return concat(*reversed(bs))

    def access(self, st, p, ln, write):
        r = self.resolve(p)
        if r is None:
            if p.op == "const" or not any(x in self.objs for x in tm.variables([p])):
                self.problem(st, "badptr", "%s through %s" % ("write" if write else "read", tm.show(p, 4)), ne_zero(ln))
                st.assume(eq(ln, const(0, 64)))
                return None, None
            raise NeedFork(p)
        base, off = r
        if self.addr_hook is not None and off.op != "const":
            self.addr_hook(st, off)
        o = self.obj(st, base)
        self.check_access(st, o, off, ln, write)
        return o, off

    def store(self, st, p, val, n):
        o, off = self.access(st, p, const(n, 64), True)
        if o is None or st.conds and st.conds[-1] is FALSE:
            return
        bs = [extract(val, 8 * i + 7, 8 * i) for i in range(n)]
        self.write_bytes(st, o, off, bs)

    def write_bytes(self, st, o, off, bs):
        o = self.wobj(st, o.id)
        if self.wlog is not None:
            self.wlog.append((o.id, off, tuple(bs)))
        if o.data is not None:
            if off.op == "const":
                i = off.p
                o.data[i:i + len(bs)] = bs
                return
            n = len(bs)
            N = len(o.data)
            hi = min(tm.umax(off), N - n)
            lo = min(tm.umin(off), hi)
            step, res = stride(off)
            new = list(o.data)
            for i in range(lo, hi + 1):
                if step > 1 and i % step != res:
                    continue
                c = eq(off, const(i, 64))
                if c is FALSE:
                    continue
                for k in range(n):
                    old = new[i + k]
                    if old is None:
                        old = self.new_undef(8, o.name)
                    new[i + k] = ite(c, bs[k], old)
            o.data = new
            return
        snap = list(bs)

        def fn(rel, snap=snap):
            r = snap[0]
            for k in range(1, len(snap)):
                r = ite(eq(rel, const(k, 64)), snap[k], r)
            return r
        o.log = compact(o.log, off, len(bs)) + ((TRUE, off, const(len(bs), 64), fn),)

    def bulk_write(self, st, o, off, ln, fn):
        """write ln bytes (term) produced by fn(relative offset term)"""
        if ln.op == "const":
            if ln.p == 0:
                return
            if ln.p <= 8192 and o.data is not None:
                self.write_bytes(st, o, off, [fn(const(i, 64)) for i in range(ln.p)])
                return
        o = self.wobj(st, o.id)
        if o.data is not None:
            N = len(o.data)
            new = list(o.data)
            lo = min(tm.umin(off), N)
            hi = min(N, tm.umax(off) + tm.umax(ln))
            for i in range(lo, hi):
                rel = sub(const(i, 64), off)
                c = ult(rel, ln)
                if c is FALSE:
                    continue
                old = new[i]
                if old is None:
                    old = new[i] = self.new_undef(8, o.name)
                new[i] = ite(c, fn(rel), old)
            o.data = new
            return
        o.log = (compact(o.log, off, ln.p) if ln.op == "const" else o.log) + ((TRUE, off, ln, fn),)

    def memcpy(self, st, d, s, ln):
        if self.wlog is not None:
            raise Unsupported("copy inside a loop")
        if ln.op == "const" and ln.p == 0:
            return
        so, soff = self.access(st, s, ln, False)
        do, doff = self.access(st, d, ln, True)
        if so is None or do is None:
            return
        st.owned.discard(so.id)   # freeze a snapshot
        if ln.op == "const" and ln.p <= 8192 and so.data is not None and soff.op == "const" and do.data is not None and doff.op == "const":
            # uninitialised bytes stay uninitialised when copied
            bs = so.data[soff.p:soff.p + ln.p]
            if len(bs) == ln.p:
                o = self.wobj(st, do.id)
                o.data[doff.p:doff.p + ln.p] = bs
                return
        self.bulk_write(st, do, doff, ln, lambda rel: self.read_byte(so, add(soff, rel)))

    def memset(self, st, d, byte, ln):
        if self.wlog is not None:
            raise Unsupported("fill inside a loop")
        if ln.op == "const" and ln.p == 0:
            return
        do, doff = self.access(st, d, ln, True)
        if do is None:
            return
        self.bulk_write(st, do, doff, ln, lambda rel: byte)

    # convenience for harnesses
    def peek(self, st, p, n):
        base, off = self.resolve(p)
        o = self.obj(st, base)
        return concat(*[self.read_byte(o, add(off, const(i, 64))) for i in range(n - 1, -1, -1)])

    def peek_bytes(self, st, p, n):
        base, off = self.resolve(p)
        o = self.obj(st, base)
        return [self.read_byte(o, add(off, const(i, 64))) for i in range(n)]

    def peek_at(self, st, p, off):
        base, o0 = self.resolve(p)
        return self.read_byte(self.obj(st, base), add(o0, off))

    def poke_bytes(self, st, p, bs):
        base, off = self.resolve(p)
        self.write_bytes(st, self.obj(st, base), off, bs)

    def poke(self, st, p, val, n=None):
        n = n or val.w // 8
        self.poke_bytes(st, p, [extract(val, 8 * i + 7, 8 * i) for i in range(n)])

    # ---------------------------------------------------------------- globals
    def fn_addr(self, name):
        a = self.fnaddr.get(name)
        if a is None:
            a = 0x7000000000 + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[name] = a
            self.addrfn[a] = name
        return const(a, 64)

    def gptr(self, st, name):
        while name in self.m.aliases:
            v = self.m.aliases[name]
            if v[0] != "g":
                return self.constval(st, ir.PTR, v)
            name = v[1]
        if name in self.m.fns and name not in self.m.globals:
            return self.fn_addr(name)
        p = self.gobj.get(name)
        if p is None or self.objs[p] not in st.mem:
            if name not in self.m.globals:
                raise Unsupported("global " + name)
            t, init, cst = self.m.globals[name]
            if init is None:
                # external object: opaque, 4 KiB
                q = self.alloc(st, 4096, name, None, True, "global")
            else:
                size = self.layout(t)[0]
                q = self.alloc(st, size, name, None, True, "global")
            if p is not None:
                # same identity in another state
                oid = self.objs.pop(q)
                o = st.mem.pop(oid)
                o.id = self.objs[p]
                o.base = p
                st.mem[o.id] = o
                st.owned.add(o.id)
                q = p
            self.gobj[name] = q
            if init is not None:
                o = st.mem[self.objs[q]]
                self.init_const(st, o, 0, t, init)
                o.writable = not cst
        return self.gobj[name]

    def init_const(self, st, o, off, t, v):
        t = self.rtype(t)
        size = self.layout(t)[0]
        if v[0] == "zero":
            o.data[off:off + size] = [const(0, 8)] * size
            return
        if v[0] == "undef":
            return
        if v[0] == "bytes":
            o.data[off:off + len(v[1])] = [const(x, 8) for x in v[1]]
            return
        if v[0] == "agg":
            if t[0] == "struct":
                for i, (et, ev) in enumerate(v[1]):
                    fo, _ = self.field(t, i)
                    self.init_const(st, o, off + fo, et, ev)
            else:
                es = self.layout(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init_const(st, o, off + i * es, et, ev)
            return
        x = self.constval(st, t, v)
        n = (x.w + 7) // 8
        x = tm.zext(x, 8 * n)
        o.data[off:off + n] = [extract(x, 8 * i + 7, 8 * i) for i in range(n)]

    def constval(self, st, t, v):
        k = v[0]
        if k == "c":
            return const(v[1], self.bits(t))
        if k == "g":
            return self.gptr(st, v[1])
        if k == "zero":
            return self.zero(t)
        if k == "undef":
            return self.undefval(t)
        if k == "gep":
            return self.gep(st, None, v[1], v[2])
        if k == "cast":
            x = self.constval(st, v[2], v[3])
            w = self.bits(v[4])
            return tm.zext(x, w) if w >= x.w else tm.trunc(x, w)
        if k == "cbin":
            x = self.constval(st, *v[2][0])
            y = self.constval(st, *v[2][1])
            return {"add": add, "sub": sub, "mul": tm.mul, "xor": tm.xor, "and": and_, "or": or_, "shl": tm.shl}[v[1]](x, y)
        if k == "agg":
            r = [self.constval(st, et, ev) for et, ev in v[1]]
            if self.rtype(t)[0] == "vec":
                return concat(*reversed(r))
            return r
        if k == "bytes":
            return [const(x, 8) for x in v[1]]
        if k == "splat":
            t = self.rtype(t)
            x = self.constval(st, t[2], v[1])
            return concat(*([x] * t[1]))
        if k == "fp":
            return FP(v[1])
        raise Unsupported("constant %r" % (v,))

    def zero(self, t):
        t = self.rtype(t)
        if t[0] == "struct":
            return [self.zero(e) for e in t[1]]
        if t[0] == "arr":
            return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == "fp":
            return FP("0.0")
        return const(0, self.bits(t))

    def undefval(self, t):
        t = self.rtype(t)
        if t[0] == "struct":
            return [self.undefval(e) for e in t[1]]
        if t[0] == "arr":
            return [self.undefval(t[2]) for _ in range(t[1])]
        if t[0] == "fp":
            return FP("undef")
        return self.new_undef(self.bits(t), "val")

    # ---------------------------------------------------------------- execution
    def val(self, st, env, t, v):
        k = v[0]
        if k == "l":
            return env[v[1]]
        if k == "c":
            w = t[1] if t[0] == "i" else self.bits(t)
            return const(v[1], w)
        return self.constval(st, t, v)

    def gep(self, st, env, t, ops):
        base = self.val(st, env, ops[0][0], ops[0][1])
        acc = [(1, base)]
        off = 0
        cur = t
        for i, (ty, v) in enumerate(ops[1:]):
            if i == 0:
                sz = self.layout(cur)[0]
            else:
                cur = self.rtype(cur)
                if cur[0] == "struct":
                    fo, cur = self.field(cur, v[1] if v[0] == "c" else 0)
                    off += fo
                    continue
                cur = cur[2]
                sz = self.layout(cur)[0]
            if v[0] == "c":
                off += v[1] * sz
            elif v[0] == "zero":
                pass
            else:
                x = self.val(st, env, ty, v)
                if x.w < 64:
                    x = tm.sext(x, 64)
                acc.append((sz, x))
        acc.append((1, const(off, 64)))
        return tm._lincomb(acc, 64)

    def run_ctors(self, st, skip=lambda n: False):
        """executes the module's static initialisers; returns outcomes"""
        states = [st]
        for _, n in self.m.ctors:
            if skip(n[1]):
                continue
            nxt = []
            for s in states:
                for o in self.call(s, n[1], []):
                    if o.kind == "ret":
                        nxt.append(o.st)
            states = nxt
        return states

    def call(self, st, name, args):
        """runs a function to completion on all paths; returns outcomes"""
        if not name.startswith("@"):
            name = "@" + name
        saved = self.outs
        self.outs = []
        self.loopinfo = {}
        s = st.fork()
        base_depth = len(s.frames)
        s.status = "run"
        s.retv = None
        f = self.m.fns.get(name)
        if f is None or not f.defined:
            self.outs = saved
            raise Unsupported("no function " + name)
        self.push(s, f, args, None)
        rs = self.explore(s, base_depth, None)
        res = []
        for r in rs:
            if r.status == "ret":
                v = r.retv
                r.frames.pop()
                r.status = "run"
                res.append(Outcome(r, "ret", v))
        res += self.outs
        self.outs = saved
        return res

    def push(self, st, f, args, callinst):
        self.used.add(f.name)
        fr = Frame()
        fr.fn = f
        self.m.parser.finish(f)
        fr.blk = f.order[0]
        fr.idx = 0
        fr.env = {}
        for (t, nm), a in zip(f.params, args):
            fr.env[nm] = a
        fr.prev = None
        fr.call = callinst
        fr.allocas = []
        st.frames.append(fr)

    def top(self, st):
        return st.frames[-1]

    def feasible(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.solver.sat(st.conds, c)
        if r is None:
            return True
        return r

    def explore(self, st, depth, stop):
        """run until the frame at index `depth` is about to return ('ret' status) or, when
        stop=(depth, block), that block has been entered (status 'stop').  Terminal outcomes
        (throw to top, terminate) are appended to self.outs."""
        work = [st]
        res = []
        while work:
            s = work.pop()
            r = self.run(s, depth, stop)
            if r is None:
                continue
            if isinstance(r, Done):
                res.extend(r)
            elif isinstance(r, list):
                work.extend(r)
            else:
                res.append(r)
        return res

    def dead(self, st, kind, val=None):
        st.status = kind
        if not (st.conds and st.conds[-1] is FALSE):
            self.outs.append(Outcome(st, kind, val))

    def tick(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
            raise Limit("time")

    def run(self, st, depth, stop):
        while True:
            if st.conds and st.conds[-1] is FALSE:
                return None
            if len(st.frames) - 1 < depth:
                st.status = "esc"      # an exception left the frame this exploration works in
                return st
            fr = st.frames[-1]
            ins = fr.fn.cache[fr.blk][fr.idx]
            self.tick(st)
            op = ins[0]
            try:
                if op == "ret":
                    v = None if ins[3] is None else self.val(st, fr.env, ins[2], ins[3])
                    if len(st.frames) - 1 == depth:
                        st.retv = v
                        st.status = "ret"
                        return st
                    self.do_ret(st, v)
                    continue
                if op == "br":
                    self.enter(st, ins[2])
                    if (stop or self.watch) and self.at_stop(st, ins[2], stop):
                        return st
                    continue
                if op == "condbr":
                    c = self.val(st, fr.env, ("i", 1), ins[2])
                    if c.op == "const":
                        b = ins[3] if c.p else ins[4]
                        self.enter(st, b)
                        if (stop or self.watch) and self.at_stop(st, b, stop):
                            return st
                        continue
                    r = self.fork_at(st, [(c, ins[3]), (not_(c), ins[4])], depth, stop)
                    if r is None:
                        continue
                    return r
                if op == "switch":
                    v = self.val(st, fr.env, ins[2], ins[3])
                    alts = {}
                    rest = TRUE
                    for cv, b in ins[5]:
                        c = eq(v, self.val(st, fr.env, ins[2], cv))
                        alts[b] = or_(alts[b], c) if b in alts else c
                        rest = and_(rest, not_(c))
                    d = ins[4]
                    alts[d] = or_(alts[d], rest) if d in alts else rest
                    l = [(c, b) for b, c in alts.items() if c is not FALSE]
                    if len(l) == 1:
                        b = l[0][1]
                        self.enter(st, b)
                        if (stop or self.watch) and self.at_stop(st, b, stop):
                            return st
                        continue
                    r = self.fork_at(st, l, depth, stop)
                    if r is None:
                        continue
                    return r
                if op == "unreachable":
                    self.dead(st, "trap", "unreachable")
                    return None
                if op == "call":
                    r = self.do_call(st, fr, ins)
                    if r is None:
                        if st.status in ("throw", "terminate", "trap"):
                            return None
                        continue
                    return r
                if op == "resume":
                    v = self.val(st, fr.env, ins[2], ins[3])
                    self.unwind(st, depth_pop=True)
                    if st.status != "run":
                        return None
                    continue
                self.simple(st, fr, ins)
                fr.idx += 1
            except NeedFork as nf:
                r = self.fork_pointer(st, nf.p)
                return r

    def fork_pointer(self, st, p):
        """split the path on the conditions of ite terms inside an address"""
        c = find_ite(p)
        if c is None:
            raise Unsupported("pointer %s in %s" % (tm.show(p, 5), self.where(st)))
        if self.addr_hook is not None:
            self.addr_hook(st, p)
        out = []
        for cond in (c, not_(c)):
            if self.feasible(st, cond):
                s = st.fork()
                s.assume(cond)
                fr = s.frames[-1]
                val = TRUE if cond is c else FALSE
                m = {c: val}
                for kk, vv in list(fr.env.items()):
                    if isinstance(vv, T) and vv.w == 64 and has_ite(vv):
                        fr.env[kk] = tm.substitute([vv], m)[0]
                # pointers loaded from memory are re-read on demand: substitute in stack objects
                for oid, o in list(s.mem.items()):
                    if o.data is not None and len(o.data) <= 256 and any(x is not None and x.op == "ite" and x.a[0] is c for x in o.data):
                        w = self.wobj(s, oid)
                        w.data = [None if x is None else (tm.substitute([x], m)[0]) for x in w.data]
                out.append(s)
        self.count_fork(len(out))
        return out

    def count_fork(self, n):
        self.nforks += 1
        self.paths += n - 1
        if self.paths > self.max_paths:
            raise Limit("paths")

    def enter(self, st, blk):
        fr = st.frames[-1]
        code = fr.fn.cache[blk]
        i = 0
        prev = fr.blk
        if code[0][0] == "phi":
            upd = []
            while code[i][0] == "phi":
                ins = code[i]
                for v, b in ins[3]:
                    if b == prev:
                        upd.append((ins[1], self.val(st, fr.env, ins[2], v)))
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            for n, v in upd:
                fr.env[n] = v
        fr.prev = prev
        fr.blk = blk
        fr.idx = i

    def fork_at(self, st, alts, depth, stop):
        if self.branch_hook is not None:
            for c, _ in alts[:-1]:
                self.branch_hook(st, c)
        live = []
        n = len(alts)
        sure = None
        for i, (c, b) in enumerate(alts):
            if i == n - 1 and not live:
                live.append((TRUE, b))
                break
            if n == 2 and i == 1 and sure is False:
                pass
            if self.feasible(st, c):
                live.append((c, b))
        if len(live) == 1:
            b = live[0][1]
            if live[0][0] is not TRUE:
                # implied by the path condition
                pass
            self.enter(st, b)
            if (stop or self.watch) and self.at_stop(st, b, stop):
                return st
            return None
        fr = st.frames[-1]
        d = len(st.frames) - 1
        join = self.ipdom(fr.fn, fr.blk) if self.merge else False
        self.count_fork(len(live))
        subs = []
        for c, b in live:
            s = st.fork()
            s.assume(c)
            self.enter(s, b)
            subs.append((s, b))
        if self.summaries and len(subs) == 2 and self.wlog is None:
            subs = self.try_summary(fr.fn, fr.blk, subs)
        if join is False:
            out = []
            for s, b in subs:
                if stop or self.watch:
                    self.at_stop(s, b, stop)
                out.append(s)
            raise_if = [s for s in out if s.status == "stop"]
            if raise_if:
                return self._mixed(out, depth, stop)
            return out
        # merge at join (None = function return)
        got = []
        out = []
        done = []
        inner = stop or frozenset()
        if join is not None:
            inner = inner | {(d, join)}
        for s, b in subs:
            if (inner or self.watch) and self.at_stop(s, b, inner):
                rs = [s]
            else:
                rs = self.explore(s, d, inner)
            for r in rs:
                if r.status == "esc":
                    r.status = "run"
                    out.append(r)
                elif r.status == "stop" and (join is None or r.user["_at"] != (d, join)):
                    done.append(r)
                elif r.status == "ret" and join is not None:
                    # left the function another way (exception path): not part of the join
                    if d == depth:
                        done.append(r)
                    else:
                        r.status = "run"
                        self.do_ret(r, r.retv)
                        out.append(r)
                else:
                    got.append(r)
        merged = self.merge_states(got, len(st.conds))
        for s in merged:
            if join is None:
                # status ret at depth d
                if d == depth:
                    s.status = "ret"
                    done.append(s)
                else:
                    s.status = "run"
                    self.do_ret(s, s.retv)
                    out.append(s)
            else:
                if stop and (d, join) in stop:
                    s.status = "stop"
                    done.append(s)
                else:
                    s.status = "run"
                    out.append(s)
        if not done:
            return out
        return self._mixed(out + done, depth, stop)

    # ---- loop summaries: a loop that writes consecutive bytes with a symbolic trip count

    def innermost(self, f):
        """latch block -> (header, body) of the innermost loop"""
        c = self.loopinfo.get(f.name)
        if c is None:
            from .loops import natural_loops
            ls = natural_loops(f)
            c = {}
            for h, body in ls.items():
                if any(h2 != h and b2 < body for h2, b2 in ls.items()):
                    continue
                for b in body:
                    c[b] = (h, body)
            self.loopinfo[f.name] = c
        return c

    def try_summary(self, f, blk, subs):
        inf = self.innermost(f).get(blk)
        if inf is None:
            return subs
        h, body = inf
        (s0, b0), (s1, b1) = subs
        if b0 == h and b1 not in body:
            i = 0
        elif b1 == h and b0 not in body:
            i = 1
        else:
            return subs
        try:
            r = self.summarise(subs[i][0], h, subs[1 - i][1])
        except Unsupported as e:
            if os.environ.get("VERIF_SUM"):
                print("no summary in %s: %s" % (f.name, e))
            return subs
        self.nsum += 1
        out = list(subs)
        out[i] = (r, subs[1 - i][1])
        return out

    def iterate(self, g, h, x, bounds=False):
        """one iteration from the header: (state back at the header, state at the exit, writes)"""
        cb, self.check_bounds = self.check_bounds, self.check_bounds and bounds
        nobj = self.nobj
        d = len(g.frames) - 1
        np = len(self.problems)
        saved, self.outs = self.outs, []
        self.wlog = []
        try:
            rs = self.explore(g.fork(), d, frozenset({(d, h), (d, x)}))
            w = self.wlog
            outs = self.outs
        finally:
            self.wlog = None
            self.outs = saved
            self.check_bounds = cb
        if outs or self.nobj != nobj or any(r.events is not g.events for r in rs):
            raise Unsupported("loop body with effects")
        back = [r for r in rs if r.status == "stop" and r.user["_at"] == (d, h)]
        ex = [r for r in rs if r.status == "stop" and r.user["_at"] == (d, x)]
        if len(back) + len(ex) != len(rs):
            raise Unsupported("loop leaves elsewhere")
        for r in rs:
            r.status = "run"
        return back, ex, w, np

    def summarise(self, s1, h, x):
        fn = s1.frames[-1].fn
        code = fn.cache[h]
        phis = [ins[1] for ins in code if ins[0] == "phi"]
        e1 = s1.frames[-1].env
        # steps of the header values
        mark = len(self.problems)
        back, ex, w0, np = self.iterate(s1, h, x)
        if len(back) != 1:
            raise Unsupported("%d ways round the loop" % len(back))
        k = fresh("it", 64)
        g = s1.fork()
        ge = g.frames[-1].env
        step = {}
        for n in phis:
            dl = sub(back[0].frames[-1].env[n], e1[n])
            if dl.op != "const":
                raise Unsupported("value %s is not linear" % n)
            step[n] = dl
            wd = e1[n].w
            kk = k if wd == 64 else (tm.trunc(k, wd) if wd < 64 else None)
            if kk is None:
                raise Unsupported("wide counter")
            ge[n] = add(e1[n], tm.mul(kk, dl))
        del self.problems[mark:]
        back, ex, w1, np = self.iterate(g, h, x)
        if len(back) != 1 or len(ex) != 1:
            raise Unsupported("%d/%d paths of a generic iteration" % (len(back), len(ex)))
        bc = back[0].conds[len(g.conds):]
        xc = ex[0].conds[len(g.conds):]
        if len(xc) != 1 or xc[0].op != "eq":
            raise Unsupported("exit condition %s" % [tm.show(c, 4) for c in xc])
        a, b = xc[0].a
        if a.w != 64:
            raise Unsupported("narrow exit condition")
        diff = sub(a, b)
        d0 = tm.substitute([diff], {k: const(0, 64)})[0]
        d1 = tm.substitute([diff], {k: const(1, 64)})[0]
        dl = sub(d1, d0)
        if dl is const(1, 64) and diff is add(d0, k):
            K = sub(const(0, 64), d0)
        elif dl is const(-1, 64) and diff is sub(d0, k):
            K = d0
        else:
            raise Unsupported("exit condition not linear: %s" % tm.show(diff, 4))
        del self.problems[mark:]
        # writes must be consecutive
        groups = {}
        for oid, off, bs in w1:
            groups.setdefault(oid, []).append((off, bs))
        plan = []
        clob = set()
        g2 = s1.fork()
        g2.frames[-1].env.update({n: ge[n] for n in phis})
        g2.assume(ule(k, K))
        for oid, ws in groups.items():
            base = tm.substitute([ws[0][0]], {k: const(0, 64)})[0]
            n = 0
            cells = {}
            lo = None
            for off, bs in ws:
                rel = sub(tm.substitute([off], {k: const(0, 64)})[0], base)
                if rel.op != "const":
                    raise Unsupported("scattered writes")
                r0 = tm.tosigned(rel.p, 64)
                s = sub(tm.substitute([off], {k: const(1, 64)})[0], tm.substitute([off], {k: const(0, 64)})[0])
                if s.op != "const" or off is not add(add(base, rel), tm.mul(k, s)):
                    raise Unsupported("write position is not linear")
                for j in range(len(bs)):
                    if r0 + j in cells:
                        raise Unsupported("position written twice")
                    cells[r0 + j] = j
                lo = r0 if lo is None else min(lo, r0)
                st_ = s.p
            n = len(cells)
            if st_ != n or sorted(cells) != list(range(lo, lo + n)) or n & (n - 1):
                raise Unsupported("writes of %d bytes, stride %d" % (n, st_))
            base = add(base, const(lo, 64))
            name = "clob%d" % k.id
            clob.add(name)
            o = self.wobj(g2, oid)
            self.bulk_write(g2, o, base, tm.mul(k, const(n, 64)), lambda rel, name=name: tm.uf(name, 8, rel))
            plan.append((oid, base, n))
        mark = len(self.problems)
        if os.environ.get("VERIF_SUM"):
            print("summary candidate", fn.name, h, "trip", tm.show(K, 4))
        back, ex, w2, np = self.iterate(g2, h, x, True)
        if len(back) > 1 or len(ex) != 1 or len(w2) != len(w1):
            raise Unsupported("paths differ")
        r = s1.fork()
        for oid, base, n in plan:
            vals = {}
            for (o2, off, bs) in w2:
                if o2 == oid:
                    rel = sub(sub(off, tm.mul(k, const(n, 64))), base)
                    if rel.op != "const":
                        raise Unsupported("write position changed")
                    for j, v in enumerate(bs):
                        vals[rel.p + j] = v
            vs = [vals[i] for i in range(n)]
            if any(t.op == "uf" and t.p in clob for v in vs for t in tm.subterms([v])):
                # positions read are not written by earlier iterations when k <= K
                raise Unsupported("iteration reads what an earlier one wrote")
            sh = n.bit_length() - 1

            def fnw(rel, vs=vs, sh=sh, n=n):
                q = tm.lshr_c(rel, sh) if sh else rel
                us = tm.substitute(vs, {k: q})
                res = us[0]
                for i in range(1, n):
                    res = ite(eq(extract(rel, sh - 1, 0), const(i, sh)), us[i], res)
                return res
            o = self.wobj(r, oid)
            self.bulk_write(r, o, base, tm.mul(K, const(n, 64)), fnw)
        re_ = r.frames[-1].env
        for n in phis:
            wd = e1[n].w
            re_[n] = tm.substitute([ge[n]], {k: K})[0]
        # the last iteration leaves the loop
        back, ex, w3, np = self.iterate(r, h, x)
        if back or len(ex) != 1:
            raise Unsupported("last iteration")
        return ex[0]

    def at_stop(self, st, b, stop):
        k = (len(st.frames) - 1, b)
        if (stop and k in stop) or (self.watch and b == self.watch[1] and st.frames[-1].fn.name == self.watch[0]):
            st.status = "stop"
            st.user["_at"] = k
            return True
        return False

    def _mixed(self, states, depth, stop):
        """some states are finished, others must go on: finish them through nested explore"""
        res = []
        for s in states:
            if s.status in ("stop", "ret", "esc"):
                res.append(s)
            else:
                res += self.explore(s, depth, stop)
        return Done(res)

    # -- control-flow analysis
    def ipdom(self, f, blk):
        t = self.idom.get(f.name)
        if t is None:
            t = self.idom[f.name] = self.postdoms(f)
        return t.get(blk)

    def postdoms(self, f):
        cache = f.cache
        succ = {}
        for b, code in cache.items():
            x = code[-1]
            if x[0] == "br":
                s = [x[2]]
            elif x[0] == "condbr":
                s = [x[3], x[4]]
            elif x[0] == "switch":
                s = [x[4]] + [c[1] for c in x[5]]
            elif x[0] == "call":
                s = [x[5]]        # invoke: normal destination only
            elif x[0] == "ret":
                s = ["<exit>"]
            else:
                s = []            # unreachable, resume: no successor
            succ[b] = list(dict.fromkeys(s))
        # blocks that cannot reach exit (throwing/aborting): ignored as successors
        reach = {"<exit>"}
        ch = True
        while ch:
            ch = False
            for b in succ:
                if b not in reach and any(s in reach for s in succ[b]):
                    reach.add(b)
                    ch = True
        pd = {b: None for b in succ}
        allb = set(b for b in succ if b in reach) | {"<exit>"}
        pd = {b: set(allb) for b in allb}
        pd["<exit>"] = {"<exit>"}
        order = [b for b in reversed(f.order) if b in reach]
        ch = True
        while ch:
            ch = False
            for b in order:
                ss = [s for s in succ[b] if s in reach]
                n = set.intersection(*[pd[s] for s in ss]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        res = {}
        for b in order:
            c = pd[b] - {b}
            # immediate: the one post-dominated by all the others
            for x in c:
                if all(y in pd[x] for y in c):
                    res[b] = None if x == "<exit>" else x
                    break
            else:
                res[b] = None
        for b in succ:
            if b not in reach:
                res[b] = False
        return res

    # -- merging
    def merge_states(self, states, nc):
        if len(states) <= 1:
            return states
        groups = []
        for s in states:
            for g in groups:
                if self.can_merge(g, s):
                    self.merge_into(g, s, nc)
                    break
            else:
                groups.append(s)
        return groups

    def can_merge(self, x, y):
        if len(x.frames) != len(y.frames) or x.exc is not y.exc:
            return False
        if len(x.events) != len(y.events):
            return False
        for p, q in zip(x.events, y.events):
            if p is not q:
                return False
        fx, fy = x.frames[-1], y.frames[-1]
        if fx.blk != fy.blk and x.status != "ret":
            return False
        if x.user != y.user:
            return False
        for oid in x.mem:
            o = x.mem[oid]
            q = y.mem.get(oid)
            if q is not None and q is not o and o.freed != q.freed:
                return False
        return True

    def merge_into(self, x, y, nc):
        """merge y into x; conds beyond nc are the distinguishing suffixes"""
        # common prefix may be longer than nc
        n = 0
        m = min(len(x.conds), len(y.conds))
        while n < m and x.conds[n] is y.conds[n]:
            n += 1
        cx = and_(TRUE, *x.conds[n:]) if len(x.conds) > n else TRUE
        cy = and_(TRUE, *y.conds[n:]) if len(y.conds) > n else TRUE
        c = cx     # ite(c, x, y)
        pre = x.conds[:n]
        cond = or_(cx, cy)
        x.conds = pre if cond is TRUE else pre + (cond,)

        def mv(p, q):
            if p is q:
                return p
            if isinstance(p, list) and isinstance(q, list):
                return [mv(i, j) for i, j in zip(p, q)]
            if isinstance(p, T) and isinstance(q, T):
                return ite(c, p, q)
            if isinstance(p, FP) or isinstance(q, FP):
                return FP("merged")
            return None
        if x.status == "ret" or y.status == "ret":
            x.retv = mv(x.retv, y.retv)
        fx, fy = x.frames[-1], y.frames[-1]
        env = {}
        for k, p in fx.env.items():
            q = fy.env.get(k)
            if q is None:
                continue
            env[k] = mv(p, q)
        nf = fx.clone()
        nf.env = env
        nf.allocas = list(dict.fromkeys(fx.allocas + fy.allocas))
        x.frames[-1] = nf
        for oid, q in y.mem.items():
            o = x.mem.get(oid)
            if o is None:
                x.mem[oid] = q
                x.owned.discard(oid)
                continue
            if o is q:
                continue
            o = self.wobj(x, oid)
            if o.data is not None:
                a, b = o.data, q.data
                for i in range(len(a)):
                    u, v = a[i], b[i]
                    if u is v:
                        continue
                    if u is None:
                        u = self.new_undef(8, o.name)
                    if v is None:
                        v = self.new_undef(8, o.name)
                    a[i] = ite(c, u, v)
            else:
                k = 0
                mm = min(len(o.log), len(q.log))
                while k < mm and o.log[k] is q.log[k]:
                    k += 1
                o.log = o.log[:k] + tuple((and_(c, g), s, l, f) for g, s, l, f in o.log[k:]) + \
                    tuple((and_(not_(c), g), s, l, f) for g, s, l, f in q.log[k:])
            if not q.writable:
                o.writable = False
        x.steps = max(x.steps, y.steps)

    # -- calls
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            oid = self.objs[a]
            if oid in st.mem:
                o = self.wobj(st, oid)
                o.freed = True
        ins = fr.call
        cf = st.frames[-1] = st.frames[-1].clone()
        if ins[1] is not None:
            cf.env[ins[1]] = v
        self.after_call(st, ins)

    def after_call(self, st, ins):
        if ins[5] is not None:
            self.enter(st, ins[5])
        else:
            st.frames[-1].idx += 1

    def unwind(self, st, depth_pop=False):
        """deliver st.exc: pop frames until an invoke with a landing pad"""
        # the current frame's own invoke (when called from a throwing call inside it)
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.cache[fr.blk][fr.idx]
            if ins[0] == "call" and ins[6] is not None and not depth_pop:
                st.frames[-1] = fr.clone()
                self.enter(st, ins[6])
                return
            depth_pop = False
            if len(st.frames) <= st.user.get("_root", 1):
                break
            st.frames.pop()
        self.dead(st, "throw", st.exc)

    def do_call(self, st, fr, ins):
        """None: continue in this state; list of states: continue with those"""
        _, res, rt, callee, args, nd, ud = ins
        env = fr.env
        if callee[0] == "g":
            name = callee[1]
            while name in self.m.aliases:
                name = self.m.aliases[name][1]
            icall = False
        elif callee[0] == "asm":
            if callee[1].strip('"').strip() == "":
                # empty asm: memory barrier
                if res is not None:
                    env[res] = self.undefval(rt) if rt != ir.VOID else None
                    if args:
                        env[res] = self.val(st, env, *args[0])
                self.after_call(st, ins)
                return None
            raise Unsupported("inline asm")
        else:
            p = self.val(st, env, ir.PTR, callee)
            if p.op != "const":
                if has_ite(p):
                    raise NeedFork(p)
                raise Unsupported("indirect call through %s" % tm.show(p, 3))
            name = self.addrfn.get(p.p)
            if name is None:
                self.problem(st, "badcall", "call through %#x" % p.p)
                self.dead(st, "trap", "bad call")
                return None
            icall = True
        av = []
        for t, v in args:
            if t == ("metadata",):
                continue
            av.append(self.val(st, env, t, v))
        h = self.intercept.get(name)
        if h is None:
            for rx, hh in self.intercept_re:
                if rx.search(name):
                    h = hh
                    break
        if h is None and icall and self.on_icall is not None:
            h = lambda e, s, a: self.on_icall(e, s, name, a)
        if h is not None:
            self.used.add(name)
            self.cur_callee = name
            r = h(self, st, av)
            if isinstance(r, Branches):
                out = []
                for s2, v in r.alts:
                    f2 = s2.frames[-1]
                    if res is not None:
                        f2.env[res] = v
                    self.after_call(s2, ins)
                    out.append(s2)
                self.count_fork(max(1, len(out)))
                return out
            if st.status != "run":
                return None
            if r is CONTINUE:
                pass
            else:
                if res is not None:
                    st.frames[-1].env[res] = r
                self.after_call(st, ins)
                return None
        f = self.m.fns.get(name)
        if f is not None and f.defined:
            self.push(st, f, av, ins)
            if len(st.frames) > 200:
                raise Limit("recursion")
            return None
        return self.extern(st, fr, ins, name[1:], av, rt, res)

    def extern(self, st, fr, ins, name, a, rt, res):
        env = fr.env

        def ret(v=None):
            if res is not None:
                st.frames[-1].env[res] = v
            self.after_call(st, ins)
            return None
        if name.startswith("llvm."):
            if name.startswith(INTR_NOP):
                return ret()
            b = name.split(".")[1]
            if b in ("memcpy", "memmove"):
                self.memcpy(st, a[0], a[1], a[2])
                return ret()
            if b == "memset":
                self.memset(st, a[0], a[1], a[2])
                return ret()
            if b == "umin":
                return ret(tm.umin_(a[0], a[1]))
            if b == "umax":
                return ret(tm.umax_(a[0], a[1]))
            if b == "smin":
                return ret(ite(tm.slt(a[0], a[1]), a[0], a[1]))
            if b == "smax":
                return ret(ite(tm.slt(a[0], a[1]), a[1], a[0]))
            if b == "abs":
                return ret(ite(tm.slt(a[0], const(0, a[0].w)), tm.neg(a[0]), a[0]))
            if b in ("fshl", "fshr"):
                w = a[0].w
                if a[2].op == "const":
                    k = a[2].p % w
                    if b == "fshr":
                        k = (w - k) % w
                        if a[2].p % w == 0:
                            return ret(a[1])
                    if k == 0:
                        return ret(a[0])
                    return ret(concat(extract(a[0], w - k - 1, 0), extract(a[1], w - 1, w - k)))
                k = tm.urem(a[2], const(w, w))
                x, y = tm.zext(a[0], 2 * w), tm.zext(a[1], 2 * w)
                full = concat(a[0], a[1])
                if b == "fshl":
                    return ret(extract(tm.shl(full, tm.zext(k, 2 * w)), 2 * w - 1, w))
                return ret(extract(tm.lshr(full, tm.zext(k, 2 * w)), w - 1, 0))
            if b == "bswap":
                w = a[0].w
                return ret(concat(*[extract(a[0], 8 * i + 7, 8 * i) for i in range(w // 8)]))
            if b == "ctpop":
                return ret(tm.popcount(a[0]))
            if b == "bitreverse":
                return ret(concat(*[extract(a[0], i, i) for i in range(a[0].w)]))
            if b in ("ctlz", "cttz"):
                w = a[0].w
                r = const(w, w)
                rng = range(w - 1, -1, -1) if b == "cttz" else range(w)
                for i in rng:
                    r = ite(extract(a[0], i, i), const(i if b == "cttz" else w - 1 - i, w), r)
                return ret(r)
            if b in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
                w = a[0].w
                ex = tm.zext if b[0] == "u" else tm.sext
                if b.endswith("mul"):
                    x, y = ex(a[0], 2 * w), ex(a[1], 2 * w)
                    r = tm.mul(x, y)
                else:
                    x, y = ex(a[0], w + 1), ex(a[1], w + 1)
                    r = add(x, y) if b.endswith("add") else sub(x, y)
                lo = extract(r, w - 1, 0)
                if name.split(".")[2] == "with":
                    return ret([lo, tm.ne(ex(lo, r.w), r)])
                if name.split(".")[2] == "sat":
                    if b == "usub":
                        return ret(ite(ult(a[0], a[1]), const(0, w), lo))
                    if b == "uadd":
                        return ret(ite(extract(r, w, w), const(-1, w), lo))
            if b == "usub":
                pass
            if b == "expect":
                return ret(a[0])
            if b == "objectsize":
                return ret(const(-1, 64))
            if b == "is" and "constant" in name:
                return ret(FALSE)
            if b == "stacksave":
                return ret(const(0, 64))
            if b == "trap":
                self.dead(st, "trap", "trap")
                return None
            if b == "eh" and "typeid" in name:
                return ret(self.typeid(a[0]))
            if b == "launder" or b == "strip":
                return ret(a[0])
            if b == "vector" and name.split(".")[2] == "reduce":
                o = name.split(".")[3]
                t = self.rtype(ins[4][0][0])
                ew = self.bits(t[2])
                es = [extract(a[0], ew * i + ew - 1, ew * i) for i in range(t[1])]
                f = {"add": add, "or": or_, "and": and_, "xor": tm.xor}[o]
                return ret(f(*es))
            raise Unsupported("intrinsic " + name)
        if name in ("_Znwm", "_Znam", "malloc"):
            n = a[0]
            if n.op != "const":
                alts = self.enumerate(st, n)
                out = []
                for s, v in alts:
                    p = self.alloc(s, v, "heap", None)
                    if res is not None:
                        s.frames[-1].env[res] = p
                    self.after_call(s, ins)
                    out.append(s)
                return out
            if n.p > 1 << 20:
                raise Unsupported("allocation of %d bytes" % n.p)
            return ret(self.alloc(st, n.p, "heap", None))
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"):
            r = self.resolve(a[0])
            if r is not None:
                o = self.obj(st, r[0])
                if o.freed:
                    self.problem(st, "double-free", o.name)
                o = self.wobj(st, o.id)
                o.freed = True
            elif a[0].op == "ite":
                raise NeedFork(a[0])
            return ret()
        if name in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2])
            return ret(a[0])
        if name == "memset":
            self.memset(st, a[0], extract(a[1], 7, 0), a[2])
            return ret(a[0])
        if name in ("memcmp", "bcmp"):
            alts = [(st, a[2].p)] if a[2].op == "const" else self.enumerate(st, a[2])
            out = []
            for s, n in alts:
                if n:
                    self.access(s, a[0], const(n, 64), False)
                    self.access(s, a[1], const(n, 64), False)
                if self.branch_hook is not None and n:
                    # early-exit comparison: its timing depends on the contents
                    e = TRUE
                    for i in range(n):
                        x = self.peek_at(s, a[0], const(i, 64))
                        y = self.peek_at(s, a[1], const(i, 64))
                        e = eq(x, y)
                        if e.op != "const":
                            self.branch_hook(s, e)
                r = const(0, 32)
                for i in range(n - 1, -1, -1):
                    x = self.peek_at(s, a[0], const(i, 64))
                    y = self.peek_at(s, a[1], const(i, 64))
                    r = ite(eq(x, y), r, ite(ult(x, y), const(-1, 32), const(1, 32)))
                s.frames[-1].env[res] = r
                self.after_call(s, ins)
                out.append(s)
            if len(out) == 1 and out[0] is st:
                return None
            return out
        if name == "strlen":
            r = self.resolve(a[0])
            o = self.obj(st, r[0])
            if r[1].op == "const" and o.data is not None:
                i = r[1].p
                n = 0
                out = []
                alive = st
                while i + n < len(o.data):
                    c = eq(self.read_byte(o, const(i + n, 64)), const(0, 8))
                    if c is TRUE:
                        out.append((alive, n))
                        alive = None
                        break
                    if c is not FALSE and self.feasible(alive, c):
                        s = alive.fork()
                        s.assume(c)
                        out.append((s, n))
                    if c is not FALSE:
                        alive = alive.fork()
                        alive.assume(not_(c))
                    n += 1
                if len(out) == 1 and out[0][0] is st:
                    return ret(const(out[0][1], 64))
                o2 = []
                for s, n in out:
                    s.frames[-1].env[res] = const(n, 64)
                    self.after_call(s, ins)
                    o2.append(s)
                return o2
            raise Unsupported("strlen")
        if name == "memchr":
            n = a[2]
            if n.op != "const":
                alts = self.enumerate(st, n)
            else:
                alts = [(st, n.p)]
            out = []
            for s, n in alts:
                r = const(0, 64)
                for i in range(n - 1, -1, -1):
                    x = self.peek_at(s, a[0], const(i, 64))
                    r = ite(eq(x, extract(a[1], 7, 0)), add(a[0], const(i, 64)), r)
                s.frames[-1].env[res] = r
                self.after_call(s, ins)
                out.append(s)
            return out if not (len(out) == 1 and out[0] is st) else None
        if name == "__cxa_allocate_exception":
            return ret(self.alloc(st, a[0].p, "exception", None))
        if name == "__cxa_free_exception":
            return ret()
        if name == "__cxa_throw":
            st.exc = (a[0], a[1])
            self.unwind(st)
            return None
        if name == "__cxa_begin_catch":
            return ret(a[0])
        if name == "__cxa_end_catch":
            return ret()
        if name == "__cxa_rethrow":
            self.unwind(st)
            return None
        if name in ("_ZSt9terminatev", "__clang_call_terminate", "abort", "_ZSt17__throw_bad_allocv"):
            self.dead(st, "terminate", name)
            return None
        if name.startswith("_ZSt") and "throw" in name:
            # libstdc++ throw helpers: std::length_error etc.
            st.exc = (name, None)
            self.unwind(st)
            return None
        if name == "__cxa_guard_acquire":
            p = a[0]
            v = self.load(st, p, 1)
            return ret(ite(eq(v, const(0, 8)), const(1, 32), const(0, 32)))
        if name == "__cxa_guard_release":
            self.store(st, a[0], const(1, 8), 1)
            return ret()
        if name in ("__cxa_atexit", "atexit"):
            return ret(const(0, 32))
        raise Unsupported("external function %s called from %s" % (name, self.where(st)))

    def typeid(self, p):
        r = self.resolve(p)
        return const(1000 + (self.objs[r[0]] if r else 0), 32)

    def enumerate(self, st, t, limit=600):
        """fork over the feasible values of a term"""
        out = []
        s = st
        while True:
            r = self.solver.sat(s.conds)
            if r is False:
                break
            if r is None:
                raise Limit("enumerate")
            v = self.solver.model(t)
            c = eq(t, const(v, t.w))
            n = s.fork()
            n.assume(c)
            out.append((n, v))
            s = s.fork()
            if c is TRUE:
                break
            s.assume(not_(c))
            if len(out) > limit:
                raise Limit("enumerate %s" % tm.show(t, 3))
        self.count_fork(max(1, len(out)))
        return out

    # -- straight-line instructions
    def simple(self, st, fr, ins):
        op = ins[0]
        env = fr.env
        f = BIN.get(op)
        if f is not None:
            t = ins[2]
            x = self.val(st, env, t, ins[3])
            y = self.val(st, env, t, ins[4])
            if t[0] == "vec":
                env[ins[1]] = self.vecmap(t, lambda p, q: f(p, q), x, y)
            else:
                r = f(x, y)
                env[ins[1]] = self.rewrite.get(r, r) if self.rewrite else r
            return
        if op == "icmp":
            t = ins[3]
            x = self.val(st, env, t, ins[4])
            y = self.val(st, env, t, ins[5])
            if t[0] == "vec":
                env[ins[1]] = self.vecmap(t, lambda p, q: self.icmp(st, ins[2], p, q), x, y)
            else:
                env[ins[1]] = self.icmp(st, ins[2], x, y)
            return
        if op == "load":
            p = self.val(st, env, ir.PTR, ins[3])
            env[ins[1]] = self.load_ty(st, p, ins[2])
            return
        if op == "store":
            v = self.val(st, env, ins[2], ins[3])
            p = self.val(st, env, ir.PTR, ins[4])
            self.store_ty(st, p, ins[2], v)
            return
        if op == "gep":
            env[ins[1]] = self.gep(st, env, ins[2], ins[3])
            return
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            x = self.val(st, env, ins[2], ins[3])
            if ins[2][0] == "vec" and op in ("zext", "sext", "trunc"):
                ew = self.bits(ins[4][2])
                g = {"zext": lambda e: tm.zext(e, ew), "sext": lambda e: tm.sext(e, ew), "trunc": lambda e: tm.trunc(e, ew)}[op]
                env[ins[1]] = self.vecmap(ins[2], g, x)
                return
            w = self.bits(ins[4])
            if isinstance(x, FP):
                env[ins[1]] = x
            elif op == "sext":
                env[ins[1]] = tm.sext(x, w)
            elif w >= x.w:
                env[ins[1]] = tm.zext(x, w)
            else:
                env[ins[1]] = tm.trunc(x, w)
            return
        if op == "select":
            c = self.val(st, env, ins[6], ins[3])
            x = self.val(st, env, ins[2], ins[4])
            y = self.val(st, env, ins[2], ins[5])
            if ins[6][0] == "vec":
                n = ins[6][1]
                ew = x.w // n
                env[ins[1]] = concat(*[ite(extract(c, i, i), extract(x, ew * i + ew - 1, ew * i), extract(y, ew * i + ew - 1, ew * i))
                                       for i in range(n - 1, -1, -1)])
            else:
                env[ins[1]] = self.ite_val(c, x, y)
            return
        if op == "alloca":
            n = 1
            if ins[3] is not None:
                nv = self.val(st, env, *ins[3])
                if nv.op != "const":
                    raise Unsupported("variable alloca")
                n = nv.p
            p = self.alloc(st, self.layout(ins[2])[0] * n, fr.fn.name[1:30] + ins[1], None, True, "stack")
            env[ins[1]] = p
            fr.allocas.append(p)
            return
        if op == "extractvalue":
            v = self.val(st, env, ins[2], ins[3])
            for i in ins[4]:
                v = v[i]
            env[ins[1]] = v
            return
        if op == "insertvalue":
            v = self.val(st, env, ins[2], ins[3])
            e = self.val(st, env, ins[4], ins[5])
            env[ins[1]] = self.insval(v, ins[6], e)
            return
        if op == "freeze":
            env[ins[1]] = self.val(st, env, ins[2], ins[3])
            return
        if op == "landingpad":
            sel = const(0, 32)
            ptr = const(0, 64)
            if st.exc is not None and isinstance(st.exc[0], T):
                ptr = st.exc[0]
                for c in ins[3]:
                    if c[0] == "catch":
                        cv = self.constval(st, ir.PTR, c[1])
                        if cv.op == "const":
                            sel = const(1, 32)
                            break
                        if st.exc[1] is cv:
                            sel = self.typeid(cv)
                            break
            elif st.exc is not None:
                for c in ins[3]:
                    if c[0] == "catch" and c[1][0] == "zero":
                        sel = const(1, 32)
            env[ins[1]] = [ptr, sel]
            return
        if op == "insertelement":
            (t, v), (et, e), (it, i) = ins[2]
            x = self.val(st, env, t, v)
            y = self.val(st, env, et, e)
            i = self.val(st, env, it, i)
            if i.op != "const":
                raise Unsupported("insertelement")
            ew = y.w
            es = [extract(x, ew * k + ew - 1, ew * k) for k in range(x.w // ew)]
            es[i.p] = y
            env[ins[1]] = concat(*reversed(es))
            return
        if op == "extractelement":
            (t, v), (it, i) = ins[2]
            x = self.val(st, env, t, v)
            i = self.val(st, env, it, i)
            if i.op != "const":
                raise Unsupported("extractelement")
            ew = self.bits(self.rtype(t)[2])
            env[ins[1]] = extract(x, ew * i.p + ew - 1, ew * i.p)
            return
        if op == "shufflevector":
            (t, v), (t2, v2), (mt, mv) = ins[2]
            x = self.val(st, env, t, v)
            y = self.val(st, env, t2, v2)
            ew = self.bits(self.rtype(t)[2])
            n = self.rtype(t)[1]
            if mv[0] == "zero":
                idx = [0] * mt[1]
            elif mv[0] == "agg":
                idx = [(e[1][1] if e[1][0] == "c" else -1) for e in mv[1]]
            else:
                idx = [-1] * mt[1]
            es = []
            for i in idx:
                if i < 0:
                    es.append(const(0, ew))
                elif i < n:
                    es.append(extract(x, ew * i + ew - 1, ew * i))
                else:
                    i -= n
                    es.append(extract(y, ew * i + ew - 1, ew * i))
            env[ins[1]] = concat(*reversed(es))
            return
        if op == "nop":
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "uitofp", "sitofp", "fpext", "fptrunc", "fneg"):
            env[ins[1]] = FP("?")
            return
        if op == "fcmp":
            env[ins[1]] = self.new_undef(1, "fcmp")
            return
        if op in ("fptoui", "fptosi"):
            env[ins[1]] = self.new_undef(self.bits(ins[4]), "fpto")
            return
        raise Unsupported("instruction " + op)

    def vecmap(self, t, f, *xs):
        n = t[1]
        ew = xs[0].w // n
        return concat(*[f(*[extract(x, ew * i + ew - 1, ew * i) for x in xs]) for i in range(n - 1, -1, -1)])

    def insval(self, v, idx, e):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insval(v[idx[0]], idx[1:], e)
        return v

    def ite_val(self, c, x, y):
        if isinstance(x, list):
            return [self.ite_val(c, p, q) for p, q in zip(x, y)]
        if isinstance(x, FP) or isinstance(y, FP):
            return FP("?")
        return ite(c, x, y)

    def load_ty(self, st, p, t):
        t = self.rtype(t)
        k = t[0]
        if k == "struct":
            r = []
            for i, e in enumerate(t[1]):
                off, _ = self.field(t, i)
                r.append(self.load_ty(st, add(p, const(off, 64)), e))
            return r
        if k == "arr":
            es = self.layout(t[2])[0]
            return [self.load_ty(st, add(p, const(i * es, 64)), t[2]) for i in range(t[1])]
        if k == "fp":
            return FP("load")
        w = self.bits(t)
        n = (w + 7) // 8
        x = self.load(st, p, n)
        return extract(x, w - 1, 0)

    def store_ty(self, st, p, t, v):
        t = self.rtype(t)
        k = t[0]
        if k == "struct":
            for i, e in enumerate(t[1]):
                off, _ = self.field(t, i)
                self.store_ty(st, add(p, const(off, 64)), e, v[i])
            return
        if k == "arr":
            es = self.layout(t[2])[0]
            for i in range(t[1]):
                self.store_ty(st, add(p, const(i * es, 64)), t[2], v[i])
            return
        if k == "fp":
            n = t[1] // 8
            self.store(st, p, self.new_undef(8 * n, "fp"), n)
            return
        w = self.bits(t)
        n = (w + 7) // 8
        self.store(st, p, tm.zext(v, 8 * n), n)

    def icmp(self, st, pred, x, y):
        if pred == "eq" or pred == "ne":
            if x.w == 64:
                r = self.ptr_eq(st, x, y)
                if r is not None:
                    return r if pred == "eq" else not_(r)
            r = eq(x, y)
            return r if pred == "eq" else not_(r)
        if x.w == 64 and pred[0] == "u":
            # same-object pointer order: compare offsets when both stay inside the object
            rx, ry = self.resolve(x), self.resolve(y)
            if rx is not None and ry is not None and rx[0] is ry[0]:
                x, y = rx[1], ry[1]
                # offsets are within [0, size]; plain unsigned comparison of offsets
        if pred == "ult":
            return ult(x, y)
        if pred == "ugt":
            return ult(y, x)
        if pred == "ule":
            return ule(x, y)
        if pred == "uge":
            return ule(y, x)
        if pred == "slt":
            return tm.slt(x, y)
        if pred == "sgt":
            return tm.slt(y, x)
        if pred == "sle":
            return tm.sle(x, y)
        if pred == "sge":
            return tm.sle(y, x)
        raise Unsupported(pred)

    def ptr_eq(self, st, x, y):
        rx, ry = self.resolve(x), self.resolve(y)
        if rx is None and ry is None:
            return None
        if rx is not None and ry is not None:
            if rx[0] is ry[0]:
                return eq(rx[1], ry[1])
            return FALSE
        if rx is None:
            rx, ry, x, y = ry, rx, y, x
        if y.op == "const":
            return FALSE
        return None


class NeedFork(Exception):
    def __init__(self, p):
        self.p = p


class Branches:
    """result of an intercept handler that forks: [(state, value)]"""

    def __init__(self, alts):
        self.alts = alts


CONTINUE = object()


class Done(list):
    """states that have already finished (returned through explore)"""


class FP:
    def __init__(self, s):
        self.s = s


BIN = {
    "add": add, "sub": sub, "mul": tm.mul, "and": and_, "or": or_, "xor": tm.xor,
    "udiv": tm.udiv, "urem": tm.urem, "sdiv": tm.sdiv, "srem": tm.srem,
    "shl": tm.shl, "lshr": tm.lshr, "ashr": tm.ashr,
}


def ne_zero(t):
    return not_(eq(t, const(0, t.w)))


def compact(log, off, n):
    """the write log without the entries that n bytes written at off cover completely"""
    if len(log) < 8:
        return log
    out = []
    for e in log:
        if e[2].op == "const":
            d = sub(e[1], off)
            if d.op == "const" and d.p + e[2].p <= n:
                continue
        out.append(e)
    return tuple(out) if len(out) != len(log) else log


def stride(off):
    """(step, residue): off is always residue modulo step (power of two)"""
    if off.op == "concat" and off.a[-1].op == "const":
        k = off.a[-1].w
        return 1 << k, off.a[-1].p
    if off.op == "add":
        g = 0
        for k, x in zip(off.p[0], off.a):
            s, r = stride(x) if x.op == "concat" else (1, 0)
            kk = (k & -k) * s
            g |= kk
            if r:
                return 1, 0
        g &= -g
        return g, off.p[1] % g
    return 1, 0


def find_ite(p):
    for t in reversed(tm.topo([p])):
        if t.op == "ite":
            return t.a[0]
    return None


def has_ite(p):
    return any(t.op == "ite" for t in tm.topo([p]))
