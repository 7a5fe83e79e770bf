"""ChaCha20: block function, stream handling."""
import re

from sx import build, equiv, solve, spec, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, not_, or_, sub, uf, ule, ult, var, concat, xor

from .lives import ANY, Copy, content, native
from .msg import Seq, Undecided, c64, data, hexs, lcg, le_bytes, prove_all, snapshot, size_var
from .util import compare, conc, contract, native_san, sym
from .hashes import cpuid_none, minimize, start


def xor_words(a, b):
    """byte vectors xored as 32-bit words, the shape the code has"""
    out = []
    for i in range(0, len(a), 4):
        out += le_bytes(xor(concat(*reversed(a[i:i + 4])), concat(*reversed(b[i:i + 4]))))
    return out


def py_block(state, rounds=10):
    r = spec.chacha_block([const(x, 32) for x in state], rounds)
    return bytes(x.p for x in r)


def py_state(key, iv):
    c = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    b = key + iv
    return c + [int.from_bytes(b[4 * i:4 * i + 4], "little") for i in range(12)]


def py_stream(state, n, start=0):
    out = b""
    s = list(state)
    i = start // 64
    while len(out) < n + start % 64:
        t = list(s)
        t[12] = (s[12] + i) & 0xffffffff
        out += py_block(t)
        i += 1
    return out[start % 64:start % 64 + n]


# ------------------------------------------------------------------ portable block function

def replay_blk(op, n, state, src, what, backend="sw"):
    want = b""
    s = list(state)
    for i in range(n):
        b = py_block(s)
        s[12] = (s[12] + 1) & 0xffffffff
        want += b
    if op == "transform":
        want = bytes(x ^ y for x, y in zip(want, src))
    st = b"".join(x.to_bytes(4, "little") for x in state)
    compare("drv_cipher.cpp", "blk %s %s %d h:%s h:%s\n" % (backend, op, n, st.hex(), src.hex()), "%d %s" % (n, want.hex()), what)


def sw_blocks(ck, mod, op, n, inplace=False):
    S = [var("S%d" % i, 32) for i in range(16)]
    src_b = [var("p%d" % i, 8) for i in range(64 * n)]
    eng = Engine(mod)
    st = eng.new_state()
    sp = eng.alloc(st, 64, "state", [b for w in S for b in le_bytes(w)], writable=False)
    src = eng.alloc(st, 64 * n, "src", src_b, writable=inplace)
    dst = src if inplace else eng.alloc(st, 64 * n, "dst")
    args = [c64(n), sp, dst] + ([src] if op == "transform" else [])
    outs = eng.call(st, "@blk_" + op, args)
    ck.used(eng)
    want = []
    s = list(S)
    for i in range(n):
        want += spec.chacha_block(s, 10)
        s[12] = add(s[12], const(1, 32))
    if op == "transform":
        want = xor_words(want, src_b)
    for o in outs:
        if o.kind != "ret":
            raise Unsupported(o.kind)
        got = eng.peek_bytes(o.st, dst, 64 * n)
        r = equiv.equivalent(got + [o.val], want + [c64(n)], o.st.conds)
        if r.status == "differ":
            state = [r.model(x) for x in S]
            replay_blk(op, n, state, conc(r.model, src_b), "ChaCha block function, %s of %d blocks" % (op, n))
            raise Unconfirmed("model not reproduced")
        if r.status != "equal":
            return False
    for p in eng.problems:
        replay_blk(op, n, [1] * 16, bytes(64 * n), p["msg"])
        raise Unconfirmed(p["msg"])
    return "%d blocks" % n


def sw_induction(ck, mod, op):
    """every block count: one generic iteration"""
    from sx import loops
    S = [var("S%d" % i, 32) for i in range(16)]
    N = var("N", 64)
    eng = Engine(mod)
    eng.base_conds = [ult(N, c64(1 << 57))]
    st = eng.new_state()
    sp = eng.alloc(st, 64, "state", [b for w in S for b in le_bytes(w)], writable=False)
    src = eng.alloc(st, tm.shl_c(N, 6), "src", lambda o: uf("src", 8, o), writable=False)
    dst = eng.alloc(st, tm.shl_c(N, 6), "dst", lambda o: uf("old", 8, o))
    args = [N, sp, dst] + ([src] if op == "transform" else [])

    def havoc(g, o, k):
        o.init = lambda off: uf("sofar", 8, off)
        o.log = ()

    def step(h, k):
        return [add(h[0], const(1, 32))]

    def effects(head, s, hk, k):
        want = spec.chacha_block(S[:12] + [hk[0]] + S[13:], 10)
        base = tm.shl_c(k, 6)
        got = [eng.peek_at(s, dst, add(base, c64(j))) for j in range(64)]
        if op == "transform":
            want = xor_words(want, [uf("src", 8, add(base, c64(j))) for j in range(64)])
        r = equiv.equivalent(got, want, s.conds)
        if r.status != "equal":
            raise loops.Broken("keystream block differs")
        t = fresh("t", 64)
        o = eng.obj(s, dst)
        gs = [or_(not_(and_(g, ult(sub(t, start), ln))), ult(sub(t, base), c64(64))) for g, start, ln, fn in o.log]
        if prove_all(s.conds, gs) is not None:
            raise loops.Broken("writes elsewhere")
    try:
        r = loops.block_induction(eng, st, "@blk_" + op, args, N, [S[12]], step, None, effects, havoc)
        ck.used(eng)
        ck.bound("portable %s: every state, content and block count below 2^57" % op)
        return r
    except (loops.Broken, Unsupported) as e:
        return "bounded forms only: " + str(e)


# ------------------------------------------------------------------ streams

STEPS = (300, 1 << 12, 1 << 17, 1 << 20, 9 << 19, 1 << 25, 1 << 28, 1 << 30)

CPU = {"sw": {}, "ssse_3": {1}, "avx_2": {1, 7}}


def cpuid_for(kind):
    def f(eng, st, a):
        if kind == "sw":
            return cpuid_none(eng, st, a)
        leaf = a[1]
        on = leaf.op == "const" and (leaf.p == 0 or leaf.p in CPU[kind])
        if leaf.p == 0:
            eng.poke_bytes(st, a[0], [const(0x20, 8)] + [const(0, 8)] * 15)
        else:
            eng.poke_bytes(st, a[0], [const(0xff if on else 0, 8)] * 16)
        return None
    return f


class Keystream:
    """stand-in for the block functions: byte j of block i is ks(counter + i, j)"""

    def __init__(self, words):
        self.words = words
        self.ratio = set()

    def __call__(self, eng, st, name, a):
        hw = "hw_x86_64" in name
        r = 1
        if hw:
            r = 8 if "avx_2" in name else 4
        raw = name.startswith("@milo_") or name.startswith("milo_")
        if raw:
            st.event("rounds", a[0])
            a = a[1:]
        n, sp, dst = a[0], a[1], a[2]
        state = [eng.peek(st, add(sp, c64(4 * i)), 4) for i in range(16)]
        total = tm.mul(n, c64(64 * r))
        ctr = state[12]
        transform = "transform" in name
        do, doff = eng.access(st, dst, total, True)
        rd = None
        if transform:
            so, soff = eng.access(st, a[3], total, False)
            st.owned.discard(so.id)
            rd = lambda rel: eng.read_byte(so, add(soff, rel))
        st.event("ks", tuple(state), n, transform)
        self.ratio.add(r)

        def fn(rel):
            b = uf("ks", 8, add(ctr, extract(rel, 37, 6)), extract(rel, 5, 0))
            return xor(b, rd(rel)) if rd else b
        if do is not None:
            eng.bulk_write(st, do, doff, total, fn)
        return tm.mul(n, c64(r))


def engine(mod, words, **kw):
    eng = Engine(mod, **kw)
    eng.summaries = True
    rec = Keystream(words)
    pat = re.compile(r"^@?milo_\w*chacha_impl_\w*(transform|generate)|chacha_impl_sw\w*(transform|generate)")

    def icept(e, s, a, name=None):
        return rec(e, s, e.cur_callee, a)
    eng.intercept_re = [(pat, icept)]
    eng.keystream = rec
    return eng


def run_script(lines, want, what, **kw):
    compare("drv_cipher.cpp", "\n".join(lines) + "\n", want, what, **kw)


OLD = (1, 37, 64, 100, 513)


def native_stream(ops, sizes, key, iv, backend, what, inplace=False, copy=None, at=0, old=None):
    """native run; Violation when any output is not the specified one"""
    if old is True:
        for old in OLD:
            native_stream(ops, sizes, key, iv, backend, what, inplace, copy, at, old)
        return
    pre, first = [], []
    if old:
        # an earlier use with other material
        k, v, m = lcg(32, 51), lcg(16, 52), lcg(old, 53)
        pre = ["init h:%s h:%s" % (k.hex(), v.hex()), "enc h:" + m.hex()]
        first = ["%d %s" % (old, bytes(x ^ y for x, y in zip(m, py_stream(py_state(k, v), old, 0))).hex())]
        what += " after encrypting %d bytes with other material" % old
    pre = ["new " + backend] + pre + ["init h:%s h:%s" % (key.hex(), iv.hex())]
    if sum(sizes) > 1 << 16:
        if sum(sizes) <= 1 << 31 and not copy:
            run_script(pre + ["big %d %s" % (inplace, " ".join("%s %d" % x for x in zip(ops, sizes)))], "\n".join(first + ["ok"]), what, san=False)
        return
    st = py_state(key, iv)
    pos = 0
    lines = pre
    want = first
    for i, (op, n) in enumerate(zip(ops, sizes)):
        m = lcg(n, i + 5)
        lines += native(copy, at, i, "copy")
        lines.append("%s h:%s%s" % (op, m.hex(), " inplace" if inplace else ""))
        want.append("%d %s" % (n, bytes(x ^ y for x, y in zip(m, py_stream(st, n, pos))).hex()))
        pos += n
    run_script(lines, "\n".join(w.strip() for w in want), what)


def stream(ck, mod, kind, ops, limits=None, inplace=False, history=(), copy=None, at=0):
    """initialize, then the operations over symbolic sizes"""
    key, iv = sym("key", 32), sym("iv", 16)
    kw = [concat(*reversed(key[4 * i:4 * i + 4])) for i in range(8)]
    vw = [concat(*reversed(iv[4 * i:4 * i + 4])) for i in range(4)]
    exp = [const(x, 32) for x in (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)] + kw + vw
    eng = engine(mod, exp)
    st = start(eng, cpuid_for(kind))
    size = eng.peek(st, eng.gptr(st, "@chacha20_info"), 8).p
    ns = [size_var("n%d" % i) for i in range(len(ops))]
    for i, n in enumerate(ns):
        st.assume(ult(n, c64((limits or {}).get(i) or 1 << 50)))
    h = eng.alloc(st, c64(size), "cipher", content(history))
    cp = Copy(eng, st, size, copy, at)
    kp = eng.alloc(st, 32, "key", key, writable=False)
    ip = eng.alloc(st, 16, "iv", iv, writable=False)
    bufs = []
    for i, n in enumerate(ns):
        src = eng.alloc(st, n, "src%d" % i, lambda t, i=i: uf("m%d" % i, 8, t), writable=inplace)
        dst = src if inplace else eng.alloc(st, n, "dst%d" % i)
        bufs.append((src, dst))

    def call(sts, fn, args, want=None):
        out = []
        for s in sts:
            for o in eng.call(s, "@chacha20_" + fn, args):
                if o.kind != "ret":
                    raise Unsupported(o.kind)
                if want is not None:
                    check(o.st, [eq(o.val, want)], "returned size")
                out.append(o.st)
        return out

    def check(s, goals, what):
        r = prove_all(s.conds, goals)
        if r is not None:
            m = minimize(list(s.conds) + [not_(goals[r[0]])], ns, steps=STEPS) or r[1]
            sizes = [m(n) for n in ns]
            k, v = conc(m, key), conc(m, iv)
            for b in ("enforce_" + kind, "default"):
                native_stream(ops, sizes, k, v, b, "%s (sizes %s)" % (what, sizes), inplace, copy, at, bool(history))
                native_stream(ops, sizes, lcg(32, 3), lcg(16, 4), b, "%s (sizes %s)" % (what, sizes), inplace, copy, at, bool(history))
            raise Unconfirmed("%s for sizes %s" % (what, sizes))
    states = [st]
    if "enc" in history:
        ok, om = (eng.alloc(st, 100, x, sym(x, 100)) for x in ("oldkey", "oldtext"))
    if tuple(history) != ANY:
        states = call(states, "construct", [h])
    if "enc" in history:
        on = var("old_n", 64)
        for s in states:
            s.assume(ule(on, c64(100)))
        states = call(states, "init", [h, ok, c64(32), ok, c64(16)])
        states = call(states, "enc", [h, om, on, om])
        for s in states:
            s.events = ()
    states = call(states, "init", [h, kp, c64(32), ip, c64(16)])
    for i, (op, n, (s, d)) in enumerate(zip(ops, ns, bufs)):
        states, h = cp(i, states, call, h)
        states = call(states, op, [h, s, n, d], n)
    total = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        total += 1
        for e in s.events:
            if e[0] == "rounds":
                check(s, [eq(e[1], c64(10))], "number of double rounds")
            if e[0] == "ks":
                check(s, [eq(x, y) for i, (x, y) in enumerate(zip(e[1], exp)) if i != 12], "state words")
        pos = c64(0)
        for i, (n, (sp, dp)) in enumerate(zip(ns, bufs)):
            t = fresh("t", 64)
            s2 = s.fork()
            s2.assume(ult(t, n))
            T = add(pos, t)
            want = xor(uf("m%d" % i, 8, t), uf("ks", 8, add(exp[12], extract(T, 37, 6)), extract(T, 5, 0)))
            check(s2, [eq(eng.peek_at(s2, dp, t), want)], "output byte of operation %d" % i)
            pos = add(pos, n)
    ck.used(eng)
    for p in eng.problems:
        m = p["model"]
        if m is None:
            return False
        mm = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), ns, steps=STEPS) or m
        sizes = [mm(n) for n in ns]
        for b in ("enforce_" + kind, "default"):
            native_stream(ops, sizes, lcg(32, 3), lcg(16, 4), b, "memory: %s (sizes %s)" % (p["msg"], sizes), inplace, copy, at, bool(history))
        raise Unconfirmed("memory: " + p["msg"])
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths, %d loop summaries, backend ratio %s" % (total, eng.nsum, sorted(eng.keystream.ratio))
