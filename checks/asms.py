"""The assembly backends: results, memory, calling convention."""
from sx import build, equiv, solve, spec, terms as tm, x86
from sx.exec import Unsupported
from sx.loops import Broken
from sx.report import Skip, Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, mul, not_, or_, sub, uf, ule, ult, var, concat, xor

from .ciphers import py_block
from .hashes import py_compress
from .msg import c64, lcg, le_bytes, prove_all
from .util import conc

CH = "milo_primitive_detail_cipher_chacha_impl_hw_x86_64_%s_ietf_%s"
NI = {"sha1": "milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks", "sha256": "milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks"}
RATIO = {"ssse_3": 4, "avx_2": 8}
BIGN = ((1 << 32), (1 << 32) + 1, (1 << 31) + 1, (1 << 16), (1 << 16) + 1, 257, 256)


# ------------------------------------------------------------------ native replays

def native(line, what, want):
    rc, out = build.call(build.native("drv_asm.cpp"), line + "\n", 120)
    got = out.strip()
    if got == "unsupported":
        return
    if rc or got != want.strip():
        raise Violation("%s; native: exit %s, %s, specified %s" % (what, rc, got[:200], want[:200]), dict(script=line[:4000], got=got[:2000], want=want[:4000], program="drv_asm.cpp"))


def early(line, what):
    """a count far beyond the memory given: the routine must run into the guard page"""
    rc, out = build.call(build.native("drv_asm.cpp"), "early " + line + "\n", 120)
    if out.strip() not in ("unsupported", "fault"):
        raise Violation("%s; native: the routine returns without having processed the blocks (%s)" % (what, out.strip()[:100]), dict(script="early " + line[:1000], got=out[:200], program="drv_asm.cpp"))


def replay_chacha(be, op, n, state, src, what, inplace=False):
    want, s = b"", list(state)
    for i in range(n * RATIO[be]):
        want += py_block(s)
        s[12] = (s[12] + 1) & 0xffffffff
    if op == "transform":
        want = bytes(x ^ y for x, y in zip(want, src))
    st = b"".join(x.to_bytes(4, "little") for x in state)
    native("chacha %s %s %d h:%s h:%s%s" % (be, op, n, st.hex(), src.hex(), " inplace" if inplace else ""), what, "%d %s" % (n * RATIO[be], want.hex()))


def replay_sha(alg, n, h, src, what):
    want = list(h)
    for i in range(n):
        want = py_compress(alg, want, src[64 * i:64 * i + 64])
    hx = lambda v: b"".join(x.to_bytes(4, "little") for x in v).hex()
    native("%s ni blocks %d h:%s h:%s" % (alg, n, hx(h), src.hex()), what, hx(want))


def probe_chacha(be, op, what):
    """concrete confirmations of a symbolic finding that came without usable values"""
    for inplace in ((False, True) if op == "transform" else (False,)):
        for n in (0, 1, 2, 3, 5, 9):
            for ctr in (0, 0xfffffffe):
                st = [int.from_bytes(lcg(4, 7 * i + 1), "little") for i in range(16)]
                st[12] = ctr
                replay_chacha(be, op, n, st, lcg(64 * RATIO[be] * n, n + 1), what, inplace)
    for n in BIGN[:3]:
        early("chacha %s %s %d h:%s h:00" % (be, op, n, bytes(64).hex()), "%s, %d iterations" % (what, n))


def probe_sha(alg, what):
    nh = len(spec.IV[alg])
    for n in (0, 1, 2, 3, 5):
        replay_sha(alg, n, [int.from_bytes(lcg(4, 3 * i + n), "little") for i in range(nh)], lcg(64 * n, n + 3), what)
    for n in BIGN[:3]:
        early("%s ni blocks %d h:%s h:00" % (alg, n, bytes(4 * nh).hex()), "%s, %d blocks" % (what, n))


def mid_replays(f, hi=600):
    """counts at which narrow counters would wrap"""
    for n in (255, 256, 257):
        f(n)


# ------------------------------------------------------------------ ChaCha

def frame(mc, m, ok):
    """all writes recorded in m satisfy ok(object base, offset, size) -> term"""
    for p, n in m.writes:
        r = mc.eng.resolve(p)
        if r is None:
            raise Broken("write through an unresolved pointer")
        base, off = r
        if base is mc.stack:
            continue
        g = ok(base, off, n)
        if g is not tm.TRUE and solve.check(list(m.st.conds) + [not_(g)], 30) != "unsat":
            raise Broken("writes elsewhere")


def words_at(mc, m, p, n):
    bs = [mc.eng.peek_at(m.st, p, c64(i)) for i in range(n)]
    return [concat(*reversed(bs[i:i + 4])) for i in range(0, n, 4)]


def abi(mc, m):
    for g, what in mc.abi_goals(m):
        if g is not tm.TRUE and solve.check(list(m.st.conds) + [not_(g)], 30) != "unsat":
            raise Broken(what)


def chacha_setup(be, op, align, N, inplace):
    W = 64 * RATIO[be]
    mc = x86.Machine(CH % (be, op), align)
    S = [var("S%d" % i, 32) for i in range(16)]
    sp = mc.eng.alloc(mc.st, 64, "state", [b for w in S for b in le_bytes(w)], writable=False)
    total = mul(N, c64(W))
    srcf = lambda o: uf("src", 8, o)
    src = mc.eng.alloc(mc.st, total, "src", srcf, writable=inplace) if op == "transform" else None
    dst = src if inplace else mc.eng.alloc(mc.st, total, "dst", lambda o: uf("old", 8, o))
    e = mc.entry(c64(10), N, sp, dst, *([src] if src is not None else []))
    return mc, S, sp, src, dst, e, W


def chacha_want(S, first, nblk, op, off):
    out = []
    for i in range(nblk):
        s = list(S)
        s[12] = add(S[12], first, const(i, 32))
        b = spec.chacha_block(s, 10)
        ws = [concat(*reversed(b[j:j + 4])) for j in range(0, 64, 4)]
        if op == "transform":
            for j in range(16):
                bs = [uf("src", 8, add(off, c64(64 * i + 4 * j + q))) for q in range(4)]
                ws[j] = xor(ws[j], concat(*reversed(bs)))
        out += ws
    return out


def chacha_induction(ck, be, op, align, inplace=False, result=True, call=True):
    N = var("N", 64)
    mc, S, sp, src, dst, e, W = chacha_setup(be, op, align, N, inplace)
    e.st.assume(ult(N, c64(1 << 46)))
    what = "ChaCha %s %s, any count%s" % (be, op, " in place" if inplace else "")

    def havoc(g, o, k):
        o.log = ()
        if not inplace:
            o.init = lambda off: uf("sofar", 8, off)

    def effects(head, m, hk, k):
        base = mul(k, c64(W))
        want = chacha_want(S, tm.trunc(mul(k, c64(RATIO[be])), 32), RATIO[be], op, base)
        got = words_at(mc, m, add(dst, base), W)
        if result:
            r = equiv.equivalent(got, want, m.st.conds)
            if r.status != "equal":
                raise Broken("output block differs (%s)" % r.status)
        frame(mc, m, lambda b, off, n: and_(tm.b(b is dst), ule(sub(off, base), c64(W - n))))

    def at_return(m, h):
        if call:
            abi(mc, m)
        if not result:
            return
        g = eq(m.regs["rax"], mul(N, c64(RATIO[be])))
        if solve.check(list(m.st.conds) + [not_(g)], 30) != "unsat":
            raise Broken("returned block count")
    try:
        r = x86.induction(mc, e, N, [], lambda h, k: [], effects, at_return, havoc)
        ck.used(mc.eng)
        ck.bound("ChaCha %s %s: every state, content and iteration count below 2^46, stack alignment %d modulo 32%s" % (be, op, align, ", in place" if inplace else ""))
        return r
    except (Broken, x86.Misbehaviour, Unsupported) as ex:
        why = str(ex)
    return chacha_counts(ck, be, op, align, (1, 2, 3, 0), inplace, what, why, result, call)


def chacha_counts(ck, be, op, align, counts, inplace, what, why, result, call):
    """exact iteration counts"""
    for n in counts:
        mc, S, sp, src, dst, e, W = chacha_setup(be, op, align, c64(n), inplace)
        src_b = [uf("src", 8, c64(i)) for i in range(n * W)]

        def rep(m, msg):
            state = [m(x) if m else i * 0x01010101 for i, x in enumerate(S)]
            replay_chacha(be, op, n, state, conc(m, src_b) if m else lcg(n * W, 1), "%s: %s" % (what, msg), inplace)
            probe_chacha(be, op, "%s: %s" % (what, msg))
            raise Unconfirmed("%s, %d iterations: %s" % (what, n, msg))
        try:
            _, rets = mc.run(e, loops=False)
        except x86.Misbehaviour as x:
            rep(None, str(x))
        want = chacha_want(S, const(0, 32), RATIO[be] * n, op, c64(0))
        for m in rets:
            try:
                if call:
                    abi(mc, m)
                frame(mc, m, lambda b, off, k: tm.b(b is dst))
            except Broken as x:
                rep(None, str(x))
            if not result:
                continue
            got, exp = words_at(mc, m, dst, n * W) + [m.regs["rax"]], want + [c64(n * RATIO[be])]
            # block counters about to wrap first
            pts = [{S[12]: -j & 0xffffffff} for j in range(1, min(n * RATIO[be], 24) + 1)]
            r = equiv.simulate(got, exp, pts) or equiv.equivalent(got, exp, m.st.conds, budget=100)
            if r.status == "differ":
                rep(r.model, "output")
            if r.status != "equal":
                return False
    mid_replays(lambda n: replay_chacha(be, op, n, [5 * i for i in range(16)], lcg(n * 64 * RATIO[be], 3), "%s: %s" % (what, why), inplace))
    for n in BIGN[:3]:
        early("chacha %s %s %d h:%s h:00" % (be, op, n, bytes(64).hex()), "%s: %s, %d iterations" % (what, why, n))
    ck.bound("ChaCha %s %s: 0 to 3 iterations (%s)" % (be, op, why))
    return "bounded counts only: " + why


# ------------------------------------------------------------------ SHA

def sha_setup(alg, align, N):
    nh = len(spec.IV[alg])
    mc = x86.Machine(NI[alg], align)
    H = [var("H%d" % i, 32) for i in range(nh)]
    hp = mc.eng.alloc(mc.st, 4 * nh, "state", [b for w in H for b in le_bytes(w)])
    src = mc.eng.alloc(mc.st, mul(N, c64(64)), "src", lambda o: uf("src", 8, o), writable=False)
    return mc, H, hp, src, mc.entry(N, hp, src)


def sha_induction(ck, alg, align, result=True, call=True):
    N = var("N", 64)
    mc, H, hp, src, e = sha_setup(alg, align, N)
    e.st.assume(ult(N, c64(1 << 50)))
    what = "%s SHA-NI block function" % alg

    def step(h, k):
        return spec.compress(alg, h, [uf("src", 8, add(mul(k, c64(64)), c64(i))) for i in range(64)])

    def effects(head, m, hk, k):
        frame(mc, m, lambda b, off, n: and_(tm.b(b is hp), ule(off, c64(4 * len(H) - n))))

    def at_return(m, h):
        if call:
            abi(mc, m)
        if not result:
            return
        r = equiv.equivalent(words_at(mc, m, hp, 4 * len(H)), h, m.st.conds)
        if r.status != "equal":
            raise Broken("stored state (%s)" % r.status)
    try:
        r = x86.induction(mc, e, N, H if result else [], step if result else lambda h, k: [], effects, at_return)
        ck.used(mc.eng)
        ck.bound("%s: every state, content and block count below 2^50, stack alignment %d modulo 32" % (what, align))
        return r
    except (Broken, x86.Misbehaviour, Unsupported) as ex:
        why = str(ex)
    for n in (1, 2, 0):
        mc, H, hp, src, e = sha_setup(alg, align, c64(n))

        def rep(m, msg):
            h = [m(x) if m else i * 0x01010101 for i, x in enumerate(H)]
            s = conc(m, [uf("src", 8, c64(i)) for i in range(64 * n)]) if m else lcg(64 * n, 1)
            replay_sha(alg, n, h, s, "%s: %s" % (what, msg))
            probe_sha(alg, "%s: %s" % (what, msg))
            raise Unconfirmed("%s, %d blocks: %s" % (what, n, msg))
        try:
            _, rets = mc.run(e, loops=False)
        except x86.Misbehaviour as x:
            rep(None, str(x))
        want = H
        for i in range(n):
            want = spec.compress(alg, want, [uf("src", 8, c64(64 * i + j)) for j in range(64)])
        for m in rets:
            try:
                if call:
                    abi(mc, m)
                frame(mc, m, lambda b, off, k: tm.b(b is hp))
            except Broken as x:
                rep(None, str(x))
            if not result:
                continue
            r = equiv.equivalent(words_at(mc, m, hp, 4 * len(H)), want, m.st.conds)
            if r.status == "differ":
                rep(r.model, "state")
            if r.status != "equal":
                return False
    nh = len(H)
    mid_replays(lambda n: replay_sha(alg, n, list(spec.IV[alg]), lcg(n * 64, 3), "%s: %s" % (what, why)))
    for n in BIGN[:3]:
        early("%s ni blocks %d h:%s h:00" % (alg, n, bytes(4 * nh).hex()), "%s: %s, %d blocks" % (what, why, n))
    ck.bound("%s: 0 to 2 blocks (%s)" % (what, why))
    return "bounded counts only: " + why


# ------------------------------------------------------------------ wrappers

def wrapper(ck, mod, fn, symbol, args, want, run):
    """the C++ wrapper hands its arguments to the routine in the order the routine expects, once"""
    from .hashes import start
    from sx.exec import Engine
    eng = Engine(mod)
    st = eng.new_state()
    calls = []

    def icept(e, s, a):
        s.event("call", tuple(a))
        return var("rv", 64)
    eng.intercept["@" + symbol] = icept
    vs = {k: (eng.alloc(st, 512, k) if k in ("state", "src", "dst") else var(k, 64)) for k in args}
    outs = eng.call(st, "@" + fn, [vs[k] for k in args])
    ck.used(eng)
    for o in outs:
        if o.kind != "ret":
            raise Unsupported(o.kind)
        ev = [e for e in o.st.events if e[0] == "call"]
        w = [vs[k] if isinstance(k, str) else c64(k) for k in want]
        ok = len(ev) == 1 and len(ev[0][1]) == len(w)
        if ok:
            goals = [eq(x, y) for x, y in zip(ev[0][1], w)] + ([eq(o.val, var("rv", 64))] if o.val is not None else [])
            r = prove_all(o.st.conds, goals)
            ok = r is None
        if not ok:
            what = "%s does not call the routine with its arguments" % fn
            run(what)
            raise Unconfirmed(what)
    return "%d paths" % len(outs)


# ------------------------------------------------------------------ cpuid

CPUID = "milo_internal_arch_x86_64_cpuid"


def cpuid(ck, align, result=True):
    """stores eax, ebx, ecx, edx of the requested leaf and sub-leaf, nothing else"""
    mc = x86.Machine(CPUID, align)
    leaf, sub_ = var("leaf", 32), var("subleaf", 32)
    mc.cpuid = lambda a, c: [uf("cpuid%d" % i, 32, a, c) for i in range(4)]
    out = mc.eng.alloc(mc.st, 16, "out")
    hi = var("hi", 32)
    e = mc.entry(out, concat(var("junk1", 32), leaf), concat(var("junk2", 32), sub_))
    what = "cpuid routine"

    def rep(msg):
        native_cpuid("%s: %s" % (what, msg))
        raise Unconfirmed("%s: %s" % (what, msg))
    try:
        _, rets = mc.run(e, loops=False)
    except x86.Misbehaviour as x:
        rep(str(x))
    for m in rets:
        try:
            abi(mc, m)
            frame(mc, m, lambda b, off, n: and_(tm.b(b is out), ule(off, c64(16 - n))))
        except Broken as x:
            rep(str(x))
        if result:
            goals = [eq(x, uf("cpuid%d" % i, 32, leaf, sub_)) for i, x in enumerate(words_at(mc, m, out, 16))]
            if prove_all(m.st.conds, goals) is not None:
                rep("stored registers")
    ck.used(mc.eng)
    return "%d paths" % len(rets)


def native_cpuid(what):
    rc, out = build.call(build.native("drv_asm.cpp"), "cpuid 0 0\ncpuid 1 0\ncpuid 7 0\ncpuid 4 1\ncpuid 4 3\ncpuid 13 1\n", 60)
    if rc or any(l.strip() != "ok" for l in out.strip().split("\n")):
        raise Violation("%s; native: %s" % (what, out.strip()[:200]), dict(script="cpuid 0 0", got=out[:500], program="drv_asm.cpp"))
