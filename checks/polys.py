"""Poly1305: block arithmetic, finalisation, message handling."""
import random
import re

from sx import build, equiv, loops, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.intlift import Lift
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, not_, or_, sub, uf, ule, ult, var, concat

from .lives import ANY, Copy, content
from .msg import Seq, Undecided, c64, data, hexs, lcg, le_bytes, lit, prove_all, snapshot
from .util import compare, conc, contract, eq_bytes, sym
from .hashes import minimize, start

P = (1 << 130) - 5
TOP = 5            # largest fifth accumulator word between blocks
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff
NAME = re.compile(r"mac_poly_1305_impl_sw\w*process|mac_poly_1305\w*process")


def tag(key, *parts):
    r = int.from_bytes(key[:16], "little") & CLAMP
    s = int.from_bytes(key[16:32], "little")
    m = b"".join(parts)
    a = 0
    for i in range(0, len(m), 16):
        c = m[i:i + 16]
        a = (a + int.from_bytes(c, "little") + (1 << (8 * len(c)))) * r % P
    return ((a + s) % (1 << 128)).to_bytes(16, "little")


def pad_key(k):
    return (k + bytes(32))[:32]


def replay(key, parts, what, dn=16, pre=(), copies=None):
    if sum(len(p) for p in parts) > 1 << 20:
        return
    want = tag(pad_key(key), *parts)[:dn]
    body = ["U h:" + p.hex() for p in parts] + ["F"]
    if copies and copies[0]:
        body.insert(copies[1], "C " + copies[0])
    script = list(pre) + ["I h:" + key.hex()] + body + ["D %d" % dn]
    m = min(dn, 4096) + 16
    n = min(dn, 16)
    compare("drv_mac.cpp", "\n".join(script) + "\n", "%d %s" % (n, (want[:n] + b"\xa5" * (m - n)).hex()), what)


# ------------------------------------------------------------------ block arithmetic

def key_words(s0, b0, s):
    """key words as initialize leaves them: clamped r, then (r >> 2) * 5"""
    z4 = const(0, 4)
    r = [concat(z4, s0, b0)] + [concat(z4, x, const(0, 2)) for x in s]
    q = [tm.mul(const(5, 32), concat(const(0, 6), x)) for x in [s0] + s]
    return r + q


def steer(A, r, rnd, last, tries=64):
    """blocks that bring the accumulator to A modulo P under r, or None"""
    inv = pow(r, P - 2, P) if r % P else None
    if inv is None:
        return None
    for _ in range(tries):
        k = [rnd.randbytes(16) for _ in range(2)]
        a = 0
        for c in k:
            a = (a + int.from_bytes(c, "little") + (1 << 128)) * r % P
        m = (A * inv - a - (1 << 128)) % P
        if m < 1 << 128:
            return k + [m.to_bytes(16, "little")]
    return None


class Block:
    def __init__(self, fixed=None):
        self.s0, self.b0 = var("s0", 26), var("b0", 2)
        self.s = [var("s%d" % i, 26) for i in (1, 2, 3)]
        self.acc = [var("a%d" % i, 32) for i in range(5)]
        self.msg = [var("m%d" % i, 32) for i in range(4)]
        self.addv = var("pad", 32)
        self.kv = [self.s0, self.b0] + self.s

    def ranges(self):
        return {self.acc[4]: (0, TOP), self.addv: (0, 1)}

    def r_value(self, lf):
        p = lf.padd((4, lf.lift(self.s0)[0]), (1, lf.lift(self.b0)[0]))
        for i, x in enumerate(self.s):
            p = lf.padd((1, p), (4 << (32 * (i + 1)), lf.lift(x)[0]))
        return p

    def goal(self, lf, out, acc, msg, addv):
        v = lf.padd(*[(1 << (32 * i), lf.lift(x)[0]) for i, x in enumerate(out)])
        a = lf.padd(*([(1 << (32 * i), lf.lift(x)[0]) for i, x in enumerate(acc)] + [(1 << (32 * i), lf.lift(x)[0]) for i, x in enumerate(msg)] +
                      [(1 << 128, lf.lift(addv)[0])]))
        return lf.padd((1, v), (-1, lf.pmul(a, self.r_value(lf))))

    def judge(self, out, acc, msg, addv, conds=()):
        """True, or a reason"""
        rg = self.ranges()
        rg[acc[4]] = (0, TOP)
        if addv.op == "var":
            rg[addv] = (0, 1)
        lf = Lift(rg)
        g = self.goal(lf, out, acc, msg, addv)
        if not lf.zero_mod(g, P):
            return "congruence"
        # the invariant of the fifth word
        lo, hi = lf.lift(out[4])[1]
        if hi > TOP:
            r = solve.check(list(conds) + [ule(acc[4], const(TOP, 32)), ule(addv, const(1, 32)), ult(const(TOP, 32), out[4])], 60)
            if r != "unsat":
                return "range of the fifth word"
        return True

    def counterexample(self, out, acc, msg, addv, what):
        """concrete keys turn the congruence into a linear integer problem; messages reaching it are
        replayed through the public interface"""
        rnd = random.Random(7)
        keys = [CLAMP, 0x0ffffffc0ffffffc0ffffffc00000003, 3, 4, 1, 0x0ffffffc << 96, 0x0ffffffc << 64, 0x0ffffffc << 32]
        keys += [rnd.getrandbits(128) & CLAMP for _ in range(6)]
        for r in keys:
            rk = r & CLAMP
            w = [(rk >> (32 * i)) & 0xffffffff for i in range(4)]
            sb = {self.s0: const(w[0] >> 2, 26), self.b0: const(w[0] & 3, 2)}
            sb.update({x: const(w[i + 1] >> 2, 26) for i, x in enumerate(self.s)})
            o2 = tm.substitute(out, sb)
            rg = self.ranges()
            rg[acc[4]] = (0, TOP)
            lf = Lift(rg)
            v = lf.padd(*[(1 << (32 * i), lf.lift(x)[0]) for i, x in enumerate(o2)])
            a = lf.padd(*([(1 << (32 * i), lf.lift(x)[0]) for i, x in enumerate(acc)] +
                          [(1 << (32 * i), lf.lift(x)[0]) for i, x in enumerate(msg)] + [(1 << 128, lf.lift(addv)[0])]))
            g = lf.padd((1, v), (-rk, a))
            m = lf.linear_model(g, P, 20)
            if m in (None, "unsat"):
                continue
            A = sum(m.get(x.p, 0) << (32 * i) for i, x in enumerate(acc))
            M = b"".join(m.get(x.p, 0).to_bytes(4, "little") for x in msg)
            self.replay_state(rk, A, M, rnd, what)
        # directed extremes, in case the solver gave none
        for r in keys:
            for A in (0, P - 1, (1 << 130) - 1, (1 << 128) - 1, 1 << 128, (1 << 129) - 1, 3 << 128):
                for M in (bytes(16), b"\xff" * 16):
                    self.replay_state(r & CLAMP, A, M, rnd, what, san=False)

    def replay_state(self, r, A, M, rnd, what, san=True):
        for s in (bytes(16), rnd.randbytes(16)):
            key = r.to_bytes(16, "little") + s
            pre = steer(A % P, r, rnd, M)
            for m in ([pre + [M], pre + [M[:-1] if M[-1] == 0 else M]] if pre else [[M], [b"\xff" * 16, M]]):
                replay(key, [b"".join(m)], "%s (key %s, accumulator %x, block %s)" % (what, key.hex(), A, M.hex()))


def block(ck, mod, n, full):
    """n blocks in one call; n = 1 with the pad flag symbolic"""
    B = Block()
    eng = Engine(mod)
    st = eng.new_state()
    kw = key_words(B.s0, B.b0, B.s)
    kp = eng.alloc(st, 32, "key", [b for w in kw for b in le_bytes(w)], writable=False)
    acc = eng.alloc(st, 20, "acc", [b for w in B.acc for b in le_bytes(w)])
    msgs = [[var("m%d_%d" % (j, i), 32) for i in range(4)] for j in range(n)] if n > 1 else [B.msg]
    src = eng.alloc(st, 16 * n, "src", [b for m in msgs for w in m for b in le_bytes(w)], writable=False)
    addv = const(1, 32) if full else B.addv
    st.assume(ule(B.acc[4], const(TOP, 32)))
    if not full:
        st.assume(ule(addv, const(1, 32)))
    outs = eng.call(st, "@blk_poly", [c64(n), kp, acc, addv, src])
    ck.used(eng)
    for o in outs:
        if o.kind != "ret":
            raise Unsupported(o.kind)
        out = [eng.peek(o.st, add(acc, c64(4 * i)), 4) for i in range(5)]
        if n == 1:
            r = B.judge(out, B.acc, B.msg, addv, o.st.conds)
            if r is not True:
                B.counterexample(out, B.acc, B.msg, addv, "Poly1305 block: " + r)
                raise Unconfirmed(r)
            continue
        raise Unsupported("n")
    for p in eng.problems:
        for L in (1, 15, 16, 17, 48):
            replay(lcg(32, 3), [lcg(L, 4)], p["msg"])
        raise Unconfirmed(p["msg"])
    ck.samples.append("Poly1305 block: %d outcomes, congruence modulo 2^130-5 over all keys, accumulators and blocks" % len(outs))
    return "acc4 <= %d kept" % TOP


def induction(ck, mod):
    """any number of blocks: one generic iteration of the loop"""
    B = Block()
    N = var("N", 64)
    eng = Engine(mod)
    eng.base_conds = [ult(N, c64(1 << 59)), ule(B.acc[4], const(TOP, 32))]
    st = eng.new_state()
    kw = key_words(B.s0, B.b0, B.s)
    kp = eng.alloc(st, 32, "key", [b for w in kw for b in le_bytes(w)], writable=False)
    acc = eng.alloc(st, 20, "acc", [b for w in B.acc for b in le_bytes(w)])
    src = eng.alloc(st, tm.shl_c(N, 4), "src", lambda o: uf("src", 8, o), writable=False)
    # the specified step is the function's own result for a single block, decided by the other obligation
    e1 = Engine(mod)
    s1 = e1.new_state()
    m1 = [var("blk%d" % i, 32) for i in range(4)]
    k1 = e1.alloc(s1, 32, "key", [b for w in kw for b in le_bytes(w)], writable=False)
    a1 = e1.alloc(s1, 20, "acc", [b for w in B.acc for b in le_bytes(w)])
    p1 = e1.alloc(s1, 16, "src", [b for w in m1 for b in le_bytes(w)], writable=False)
    o1 = e1.call(s1, "@blk_poly", [c64(1), k1, a1, const(1, 32), p1])
    if len(o1) != 1 or o1[0].kind != "ret":
        raise Unsupported("one block has several outcomes")
    one = [e1.peek(o1[0].st, add(a1, c64(4 * i)), 4) for i in range(5)]

    def step(h, k):
        sb = dict(zip(B.acc, h))
        for i in range(4):
            sb[m1[i]] = concat(*[uf("src", 8, add(tm.shl_c(k, 4), c64(4 * i + j))) for j in (3, 2, 1, 0)])
        return tm.substitute(one, sb)

    def final(s):
        return [eng.peek(s, add(acc, c64(4 * i)), 4) for i in range(5)]
    try:
        r = loops.block_induction(eng, st, "@blk_poly", [N, kp, acc, const(1, 32), src], N, B.acc, step, final)
        ck.used(eng)
        ck.bound("every clamped key, every accumulator with a fifth word up to %d, every block content, block counts below 2^59" % TOP)
        return r
    except (loops.Broken, Unsupported) as e:
        return few(ck, mod, str(e))


def few(ck, mod, why):
    """when the induction does not fit the loop's shape: two and three blocks equal repeated single blocks"""
    for n in (0, 2, 3):
        B = Block()
        kw = key_words(B.s0, B.b0, B.s)
        msgs = [[var("m%d_%d" % (j, i), 32) for i in range(4)] for j in range(n)]

        def go(cnt, accv, ms):
            eng = Engine(mod)
            st = eng.new_state()
            st.assume(ule(B.acc[4], const(TOP, 32)))
            kp = eng.alloc(st, 32, "key", [b for w in kw for b in le_bytes(w)], writable=False)
            a = eng.alloc(st, 20, "acc", [b for w in accv for b in le_bytes(w)])
            p = eng.alloc(st, 16 * cnt, "src", [b for m in ms for w in m for b in le_bytes(w)], writable=False)
            o = eng.call(st, "@blk_poly", [c64(cnt), kp, a, const(1, 32), p])
            ck.used(eng)
            if len(o) != 1 or o[0].kind != "ret":
                raise Unsupported("several outcomes")
            return [eng.peek(o[0].st, add(a, c64(4 * i)), 4) for i in range(5)], o[0].st.conds
        got, cs = go(n, B.acc, msgs)
        want = list(B.acc)
        for m in msgs:
            want, _ = go(1, want, [m])
        r = equiv.equivalent(got, want, cs)
        if r.status == "differ":
            B.counterexample(got, B.acc, B.msg, const(1, 32), "several blocks in one call")
            for L in (32, 48, 64, 160):
                for s in range(20):
                    replay(lcg(32, s), [lcg(L, s + 50)], "%d blocks in one call differ from one at a time" % n)
            raise Unconfirmed("blocks")
        if r.status != "equal":
            return False
    ck.bound("every clamped key and accumulator with a fifth word up to %d; up to 3 blocks in a call" % TOP)
    return "0, 2 and 3 blocks equal single blocks (no induction: %s)" % why


# ------------------------------------------------------------------ finalisation

class Absorb:
    """stand-in for the block function: records what it is given"""

    def __init__(self, havoc=None):
        self.havoc = havoc
        self.n = 0

    def __call__(self, eng, st, a):
        n, kp, ap, ad, src = a[:5]
        key = [eng.peek(st, add(kp, c64(4 * i)), 4) for i in range(8)]
        acc = [eng.peek(st, add(ap, c64(4 * i)), 4) for i in range(5)]
        so, soff = eng.access(st, src, tm.shl_c(n, 4), False)
        if so is not None:
            st.owned.discard(so.id)
        rd = (lambda t: eng.read_byte(so, add(soff, t)))
        i = sum(1 for e in st.events if e[0] == "process")
        new = self.havoc(i) if self.havoc else [var("acc%d_%d" % (i, j), 32) for j in range(5)]
        eng.poke_bytes(st, ap, [b for w in new for b in le_bytes(w)])
        st.event("process", n, tuple(key), tuple(acc), ad, rd, tuple(new))
        return None


def engine(mod, **kw):
    eng = Engine(mod, **kw)
    eng.summaries = True
    eng.intercept_re = [(NAME, Absorb())]
    return eng


def final(ck, mod):
    """digest after finalize is the reduced accumulator plus s, for every accumulator"""
    key = sym("key", 32)
    A = [var("acc0_%d" % j, 32) for j in range(5)]
    eng = engine(mod)
    st = start(eng)
    st.assume(ule(A[4], const(TOP, 32)))
    size = eng.peek(st, eng.gptr(st, "@poly_info"), 8).p
    h = eng.alloc(st, size, "mac")
    kp = eng.alloc(st, 32, "key", key, writable=False)
    mp = eng.alloc(st, 16, "msg", sym("m", 16), writable=False)
    dp = eng.alloc(st, 16, "tag")
    sts = [st]
    for fn, args in (("construct", [h]), ("init", [h, kp, c64(32)]), ("update", [h, mp, c64(16)]), ("final", [h]), ("digest", [h, dp, c64(16)])):
        nx = []
        for s in sts:
            for o in eng.call(s, "@poly_" + fn, args):
                if o.kind != "ret":
                    raise Unsupported(o.kind)
                nx.append(o.st)
        sts = nx
    ck.used(eng)
    W = 162
    a = tm.zext(concat(*reversed(A)), W)
    red = ite(ult(a, const(P, W)), a, sub(a, const(P, W)))
    s = concat(*reversed(key[16:]))
    want = add(tm.trunc(red, 128), s)
    for s_ in sts:
        ev = [e for e in s_.events if e[0] == "process"]
        if len(ev) != 1:
            raise Unsupported("%d block calls" % len(ev))
        got = concat(*reversed(eng.peek_bytes(s_, dp, 16)))
        r = prove_all(s_.conds, [eq(got, want)], 300)
        if r is not None:
            rnd = random.Random(5)
            bad = list(s_.conds) + [not_(eq(got, want))]
            # accumulators the block function is likely to leave first
            for extra in ([ule(A[4], const(3, 32))], [eq(A[4], const(4, 32)), ult(A[3], const(1 << 20, 32))], []):
                m = solve.check(bad + extra, 120)
                if m in (None, "unsat"):
                    continue
                Av = sum(m(x) << (32 * i) for i, x in enumerate(A))
                sv = conc(m, key[16:])
                for rk in [1, CLAMP, 5] + [rnd.getrandbits(128) & CLAMP for _ in range(40)]:
                    pre = steer(Av % P, rk, rnd, None)
                    if pre:
                        replay(rk.to_bytes(16, "little") + sv, [b"".join(pre)], "Poly1305 final reduction of accumulator %x, s %s" % (Av, sv.hex()))
            raise Unconfirmed("reduction of %x + %s" % (Av, sv.hex()))
    for p in eng.problems:
        replay(lcg(32, 3), [lcg(16, 4)], p["msg"])
        raise Unconfirmed(p["msg"])
    ck.bound("finalisation: every accumulator with a fifth word up to %d and every second key half" % TOP)
    return "%d outcomes" % len(sts)


# ------------------------------------------------------------------ messages

def clamp_goals(key, words):
    """the key words handed to the block function"""
    r = and_(concat(*reversed(key[:16])), const(CLAMP, 128))
    rw = [extract(r, 32 * i + 31, 32 * i) for i in range(4)]
    gs = [eq(words[i], rw[i]) for i in range(4)]
    gs += [eq(words[4 + i], tm.mul(concat(const(0, 2), extract(rw[i], 31, 2)), const(5, 32))) for i in range(4)]
    return gs


def keybytes(kn):
    """key of symbolic length kn: zero padded or cut to 32 bytes"""
    return [ite(ult(c64(i), kn), uf("key", 8, c64(i)), const(0, 8)) for i in range(32)]


def stream(ck, mod, ns, overload="update", limits=None, keylen=None, history=(), copy=None, at=0):
    """initialize, updates of symbolic sizes, finalize: the blocks absorbed are the RFC 8439 ones"""
    eng = engine(mod)
    st = start(eng)
    for n in ns:
        st.assume(ult(n, c64((limits or {}).get(n.p) or 1 << 58)))
    size = eng.peek(st, eng.gptr(st, "@poly_info"), 8).p
    h = eng.alloc(st, c64(size), "mac", content(history))
    cp = Copy(eng, st, size, copy, at)
    anything = tuple(history) == ANY
    kn = c64(32) if keylen is None else keylen
    if keylen is not None:
        st.assume(ult(kn, c64(1 << 40)))
    kp = eng.alloc(st, kn, "key", lambda t: uf("key", 8, t), writable=False)
    key = keybytes(kn)
    srcs = []
    msg = Seq()
    for i, n in enumerate(ns):
        srcs.append(eng.alloc(st, n, "m%d" % i, lambda t, i=i: uf("m%d" % i, 8, t), writable=False))
        msg = msg + data("m%d" % i, n)

    def call(sts, fn, args):
        out = []
        for s in sts:
            for o in eng.call(s, "@poly_" + fn, args):
                if o.kind != "ret":
                    raise Unsupported(o.kind)
                out.append(o.st)
        return out

    def rep(m, what):
        sizes = [m(n) for n in ns]
        kl = m(kn)
        kv = bytes(m(uf("key", 8, c64(i))) for i in range(min(kl, 64))) + bytes(max(0, min(kl, 4096) - 64))
        if sum(sizes) > 1 << 20:
            raise Unconfirmed("%s for sizes %s" % (what, sizes))
        if anything:
            for old in (0, 1, 15, 16, 100, 133, 301):
                for f in ([], ["F"]):
                    replay(kv, [lcg(n, i + 2) for i, n in enumerate(sizes)], "%s (sizes %s, key size %d) after an earlier use" % (what, sizes, kl), pre=["I h:" + lcg(32, 8).hex(), "U h:" + lcg(old, 9).hex()] + f)
                    replay(lcg(min(kl, 4096), 3), [lcg(n, i + 2) for i, n in enumerate(sizes)], "%s (sizes %s, key size %d) after an earlier use" % (what, sizes, kl), pre=["I h:" + lcg(32, 8).hex(), "U h:" + lcg(old, 9).hex()] + f)
        pre = native_history(() if anything else history)
        cps = (copy, at)
        for k in (kv, lcg(min(kl, 4096), 3)):
            # content from the model (first bytes), then generic content
            mv = [(bytes(m(uf("m%d" % i, 8, c64(j))) for j in range(min(n, 300))) + bytes(max(0, n - 300))) for i, n in enumerate(sizes)]
            replay(k, mv, "%s (sizes %s, key size %d)" % (what, sizes, kl), pre=pre, copies=cps)
            replay(k, [lcg(n, i + 2) for i, n in enumerate(sizes)], "%s (sizes %s, key size %d)" % (what, sizes, kl), pre=pre, copies=cps)
        raise Unconfirmed("%s for sizes %s" % (what, sizes))

    def check(s, conds, goals, what):
        r = prove_all(tuple(s.conds) + tuple(conds), goals)
        if r is not None:
            m = minimize(list(s.conds) + list(conds) + [not_(goals[r[0]])], list(ns) + ([] if keylen is None else [kn]),
                         steps=(300, 1 << 12, 1 << 17, 1 << 20)) or r[1]
            rep(m, what)
    states = [st]
    if not anything:
        states = call(states, "construct", [h])
        states = run_history(eng, states, call, h, history)
    for s in states:
        s.events = ()
    states = call(states, "initc" if overload == "updatec" else "init", [h, kp, kn])
    for i, (n, p) in enumerate(zip(ns, srcs)):
        states, h = cp(i, states, call, h)
        states = call(states, overload, [h, p, n])
    states, h = cp(len(ns), states, call, h)
    states = call(states, "final", [h])
    L = msg.length()
    full = tm.lshr_c(L, 4)
    part = extract(L, 3, 0)
    total = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        total += 1
        ev = [e for e in s.events if e[0] == "process"]
        prev = [const(0, 32)] * 5
        done = c64(0)
        for i, (_, n, kw, acc, ad, rd, new) in enumerate(ev):
            # a call for no blocks changes nothing
            t = fresh("t", 64)
            inb = ult(t, tm.shl_c(n, 4))
            nz = not_(eq(n, c64(0)))
            check(s, (nz,), clamp_goals(key, kw), "key words")
            check(s, (nz,), [eq(x, y) for x, y in zip(acc, prev)], "accumulator chaining")
            prev = [ite(nz, x, y) for x, y in zip(new, prev)]
            at = add(done, t)
            isfull = ult(at, concat(extract(L, 63, 4), const(0, 4)))
            want = ite(ult(at, L), msg.at(at), ite(eq(at, L), const(1, 8), const(0, 8)))
            check(s, (inb,), [eq(rd(t), want)], "block content")
            check(s, (inb,), [eq(ad, ite(isfull, const(1, 32), const(0, 32)))], "high bit of the block")
            done = add(done, tm.shl_c(n, 4))
        check(s, (), [eq(done, tm.shl_c(add(full, ite(eq(part, const(0, 4)), c64(0), c64(1))), 4))], "number of blocks")
    ck.used(eng)
    for p in eng.problems:
        if p["model"] is None:
            return False
        mm = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), ns, steps=(300, 1 << 12, 1 << 17, 1 << 20)) or p["model"]
        rep(mm, "memory: " + p["msg"])
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths" % total


def run_history(eng, states, call, h, history):
    """an arbitrary earlier use of the object"""
    for i, op in enumerate(history):
        nx = []
        if op in ("update", "init"):
            p = n = None
            for s in states:
                if p is None:
                    n = var("old_n%d" % i, 64)
                    p = eng.alloc(s, n, "old%d" % i, lambda t, i=i: uf("old%d" % i, 8, t), writable=False)
                    o = s.mem[eng.objs[p]]
                else:
                    s.mem[o.id] = o
                s.assume(ult(n, c64(1 << 50)))
            states = call(states, op, [h, p, n])
        else:
            states = call(states, op, [h])
    return states


def native_history(history):
    c = {"update": "U h:" + lcg(37, 9).hex(), "init": "I h:" + lcg(32, 8).hex(), "final": "F"}
    return [c[x] for x in history]
