"""SHA checks: block functions, message handling over arbitrary sizes, digests."""
import hashlib

from sx import build, equiv, exec as ex, loops, solve, spec, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Skip, Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, not_, or_, sub, uf, ule, ult, var, concat

from .lives import ANY, Copy, content, native
from .msg import Seq, be_bytes, c64, data, hexs, lcg, le_bytes, lit, snapshot, prove_all, cases, Undecided

ALGS = ["sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256"]
IMPL = {"sha1": "sha1", "sha224": "sha256", "sha256": "sha256", "sha384": "sha512", "sha512": "sha512",
        "sha512_224": "sha512", "sha512_256": "sha512"}
PYNAME = {"sha512_224": "sha512_224", "sha512_256": "sha512_256"}


def pyhash(alg, *parts):
    h = hashlib.new(alg)
    for p in parts:
        if isinstance(p, int):
            z = bytes(1 << 20)
            while p >= len(z):
                h.update(z)
                p -= len(z)
            h.update(bytes(p))
        else:
            h.update(p)
    return h.digest()


def py_compress(alg, h, blk):
    """concrete compression through the specification terms"""
    W = spec.WORD[alg]
    r = spec.compress(alg, [const(x, W) for x in h], [const(x, 8) for x in blk])
    return [x.p for x in r]


def blk(alg):
    W = spec.WORD[alg]
    return W, W // 8, len(spec.IV[alg]), 16 * (W // 8)


# ------------------------------------------------------------------ block functions

def run_native_blocks(backend, alg, n, h, src, timeout=20):
    W, nb, nh, B = blk(alg)
    exe = build.native("drv_hash.cpp")
    sh = b"".join(x.to_bytes(nb, "little") for x in h)
    rc, out = build.call(exe, "blocks %s %d h:%s %s\n" % (backend, n, hexs(sh), src), timeout)
    if rc != 0:
        return rc, None
    b = bytes.fromhex(out.strip())
    return 0, [int.from_bytes(b[i:i + nb], "little") for i in range(0, len(b), nb)]


def replay_blocks(backend, alg, n, h, src):
    """compare the native block function with the specification"""
    W, nb, nh, B = blk(alg)
    want = list(h)
    for i in range(n):
        want = py_compress(alg, want, src[B * i:B * i + B])
    rc, got = run_native_blocks(backend, alg, n, h, "h:" + hexs(src))
    if rc != 0 or got != want:
        raise Violation("%s block function: %d blocks give %s, specified %s" % (backend, n, got, want),
                        dict(cmd="blocks %s %d" % (backend, n), state=[hex(x) for x in h], src=hexs(src),
                             got=got, want=want))
    return False


def replay_many_blocks(backend, alg, n):
    """a count too large to process: the function must not come back early"""
    W, nb, nh, B = blk(alg)
    if n * B > 1 << 46:
        n = n % (1 << 38) or (1 << 38)
    rc, got = run_native_blocks(backend, alg, n, spec.IV[alg], "z:%d" % (n * B), 4)
    if rc == "timeout":
        return False
    if rc == 0 and n > 1 << 30:
        raise Violation("%s block function returns early for %d blocks" % (backend, n), dict(cmd="blocks %s %d zeros" % (backend, n), got=got))
    if rc != 0:
        raise Violation("%s block function fails for %d blocks (exit %s)" % (backend, n, rc), dict(cmd="blocks %s %d zeros" % (backend, n)))
    return False


def block_setup(eng, alg, N, H):
    W, nb, nh, B = blk(alg)
    st = eng.new_state()
    hp = eng.alloc(st, nh * nb, "state", [x for h in H for x in le_bytes(h)])
    src = eng.alloc(st, tm.mul(N, c64(B)) if N.op != "const" else N.p * B, "src", lambda o: uf("src", 8, o), writable=False)
    return st, hp, src


def sw_block(ck, mod, alg, fname):
    """the software block function against the specified compression function"""
    W, nb, nh, B = blk(alg)
    backend = alg + "_sw"
    H = [var("H%d" % i, W) for i in range(nh)]
    src_at = lambda k: [uf("src", 8, add(tm.mul(k, c64(B)), c64(i))) for i in range(B)]
    try:
        eng = Engine(mod)
        N = var("N", 64)
        eng.base_conds = [ult(N, c64(1 << 57))]
        st, hp, src = block_setup(eng, alg, N, H)
        fin = lambda s: [eng.peek(s, add(hp, c64(nb * i)), nb) for i in range(nh)]
        r = loops.block_induction(eng, st, fname, [N, hp, src], N, H, lambda h, k: spec.compress(alg, h, src_at(k)), fin)
        ck.used(eng)
        ck.bound("%s software block function: every state, every block content, every block count below 2^57" % alg)
        return r
    except (loops.Broken, Unsupported) as e:
        why = str(e)
    # bounded form: exact counts, and an early return for a large count
    for n in (1, 2, 3, 0):
        eng = Engine(mod)
        st, hp, src = block_setup(eng, alg, c64(n), H)
        outs = eng.call(st, fname, [c64(n), hp, src])
        ck.used(eng)
        want = H
        for i in range(n):
            want = spec.compress(alg, want, src_at(c64(i)))
        for o in outs:
            if o.kind != "ret":
                raise Unsupported("block function ends in %s" % o.kind)
            got = [eng.peek(o.st, add(hp, c64(nb * i)), nb) for i in range(nh)]
            r = equiv.equivalent(got, want, o.st.conds)
            if r.status == "differ":
                h = [r.model(x) for x in H]
                s = bytes(r.model(uf("src", 8, c64(i))) for i in range(n * B))
                replay_blocks(backend, alg, n, h, s)
                raise Unconfirmed("%d blocks: %s" % (n, why))
            if r.status != "equal":
                return False
        for p in eng.problems:
            replay_asan_blocks(alg, n)
            raise Unconfirmed(p["msg"])
    for n in (1 << 32, (1 << 32) + 1, 1 << 31, (1 << 16) + 1):
        if n > 1 << 20:
            replay_many_blocks(backend, alg, n)
    ck.bound("%s software block function: every state and content, 0 to 3 blocks (%s)" % (alg, why))
    return "0..3 blocks; induction not applicable: " + why


def replay_asan_blocks(alg, n):
    W, nb, nh, B = blk(alg)
    exe = build.native("drv_hash.cpp", extra=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1")
    rc, out = build.call(exe, "blocks %s_sw %d h:%s h:%s\n" % (alg, n, "00" * (nb * nh), "11" * (n * B)))
    if rc != 0:
        raise Violation("memory error in the %s block function" % alg, dict(blocks=n, out=out[-2000:]))


# ------------------------------------------------------------------ message handling

class Blocks:
    """stand-in for the block function: records the blocks it is given"""

    def __init__(self, alg):
        self.alg = alg
        self.W, self.nb, self.nh, self.B = blk(alg)

    def __call__(self, eng, st, name, a):
        n, hp, src = a[0], a[1], a[2]
        eng.access(st, hp, c64(self.nh * self.nb), True)
        eng.access(st, src, tm.mul(n, c64(self.B)), False)
        h0 = eng.peek(st, hp, self.nh * self.nb)
        h1 = fresh("chain", self.nh * self.nb * 8)
        # the state is an uninterpreted function of what went in: reported as event
        rd = snapshot(eng, st, src)
        eng.poke(st, hp, h1)
        st.event("blocks", n, h0, h1, rd)
        return None


BLOCK_RE = r"hash_sha_\w*impl\w*blocks"


MERGE = True
SYMT = True


def engine(mod, alg, hw=False, **kw):
    import re
    eng = Engine(mod, **kw)
    rec = Blocks(alg)
    eng.on_icall = rec
    eng.intercept_re = [(re.compile(BLOCK_RE), lambda e, s, a: rec(e, s, "", a))]
    return eng


def cpuid_none(eng, st, a):
    """cpuid stand-in: a processor without any optional feature"""
    eng.poke_bytes(st, a[0], [const(0, 8)] * 16)
    return None


def start(eng, cpuid=cpuid_none):
    """run static initialisation"""
    eng.intercept["@milo_internal_arch_x86_64_cpuid"] = cpuid
    st = eng.new_state()
    return eng.run_ctors(st)[0]


def one(outs, what=""):
    return outs


def prove(conds, goal, timeout=120):
    """goal holds under conds: True, a Model, or None"""
    if goal is tm.TRUE:
        return True
    r = solve.check(list(conds) + [not_(goal)], timeout)
    return True if r == "unsat" else r


def minimize(conds, terms, timeout=30, steps=(300, 1 << 12, 1 << 20, 1 << 30, (1 << 32) + (1 << 20), 1 << 33, 1 << 36)):
    """a model with a small sum of the given 64-bit terms"""
    for b in steps:
        r = solve.check(list(conds) + [ule(t, c64(b)) for t in terms], timeout)
        if r is not None and r != "unsat":
            return r
    r = solve.check(list(conds), timeout)
    return None if r == "unsat" else r


def run_history(exe, alg, sizes, dn, variant="", ops=None, pre=(), timeout=120, content=None, copies=(None, 0)):
    lines = ["hash %s%s" % (alg, variant)]
    lines += list(pre) or ["I"]
    parts = []
    for i, n in enumerate(sizes):
        if content is not None and content[i] is not None:
            b = content[i]
        elif n <= 1 << 21:
            b = lcg(n, i + 1)
        else:
            b = None
        parts.append(n if b is None else b)
        lines += native(*copies, i)
        lines.append("U z:%d" % n if b is None else "U h:%s" % b.hex())
    lines += native(*copies, len(sizes))
    if variant != "_apie":
        lines.append("F")
    lines += native(*copies, len(sizes) + 1)
    lines.append("D %d" % dn if dn is not None else "DD")
    rc, out = build.call(exe, "\n".join(lines) + "\n", timeout)
    return rc, out, parts, lines


def check_history(alg, sizes, dn, variant="", pre=(), content=None, extra="", copies=(None, 0)):
    """run a history on the native build; Violation when the digest is wrong"""
    if sum(sizes) > (1 << 34):
        return False
    exe = build.native("drv_hash.cpp")
    rc, out, parts, lines = run_history(exe, alg, sizes, dn, variant, pre=pre, content=content, copies=copies)
    D = spec.DIGEST[alg]
    n = D if dn is None else min(dn, D)
    want = "%d %s" % (n, (pyhash(alg, *parts)[:n] + b"\xa5" * ((160 if dn is None else min(dn, 4096) + 16) - n)).hex())
    got = out.strip()
    if rc != 0 or got != want:
        raise Violation("%s%s over update sizes %s, digest size %s: got %s (exit %s), specified %s%s" % (
            alg, variant, sizes, dn, got[:160], rc, want[:160], extra),
            dict(kind="hash", alg=alg, sizes=list(sizes), digest_size=dn, script=[l[:200] for l in lines], got=got[:400], want=want[:400]))
    return False


def replay_sizes(alg, model, ns, dn=None, conds=(), pre=(), copies=(None, 0)):
    """replay the sizes of a counterexample (and of the smallest similar one)"""
    sizes = [model(n) for n in ns]
    D = spec.DIGEST[alg]
    d = D if dn is None else model(dn)
    for v in ("", "_sw", "_apie"):
        if v == "_apie" and (pre or copies[0]):
            continue
        check_history(alg, sizes, d, v, pre=pre, copies=copies)
    return sizes


def padded(alg, msg, L, bits=None):
    """(number of blocks, byte function) of the padded message, FIPS 180-4 section 5.1; bits: the 128-bit
    length to announce, for a message of which L is only the tail"""
    W, nb, nh, B = blk(alg)
    ln = 2 * nb
    sh = B.bit_length() - 1
    blocks = add(tm.lshr_c(add(L, c64(ln)), sh), c64(1))
    if bits is None:
        bits = concat(const(0, 64), tm.shl_c(L, 3)) if ln == 8 else concat(tm.lshr_c(L, 61), tm.shl_c(L, 3))
    lb = be_bytes(bits)[-ln:]
    total = tm.shl_c(blocks, sh)

    base = concat(extract(L, 63, sh), const(0, sh))
    left = extract(L, sh - 1, 0)

    def at(x):
        rel = sub(x, base)
        if rel.op == "const" and rel.p < 2 * B:
            # position relative to the last whole block of the message (L < 2^63, nothing wraps)
            j = rel.p
            two = ule(const(B - ln, sh), left)
            r = const(0, 8)
            if j >= 2 * B - ln:
                r = ite(two, lb[j - (2 * B - ln)], r)
            if B - ln <= j < B:
                r = ite(two, r, lb[j - (B - ln)])
            if j < B:
                r = ite(eq(left, const(j, sh)), const(0x80, 8), r)
                r = ite(ult(const(j, sh), left), msg.at(x), r)
            return r
        r = const(0, 8)
        for i in range(ln):
            r = ite(eq(x, sub(total, c64(ln - i))), lb[i], r)
        r = ite(eq(x, L), const(0x80, 8), r)
        return ite(ult(x, L), msg.at(x), r)
    return blocks, at


def stream(ck, mod, alg, ns, overload="update", copy=None, at=0, history=(), limits=None):
    """initialize, updates of the (symbolic) sizes ns, finalize, digest; the blocks handed to the
    block function are the padded message, chained from the initial value."""
    W, nb, nh, B = blk(alg)
    D = spec.DIGEST[alg]
    eng = engine(mod, alg, merge=MERGE)
    st = start(eng)
    lim = 61 if nb == 4 else 62
    for n in ns:
        st.assume(ult(n, c64((limits or {}).get(n.p) or 1 << (lim - 2))))
    info = eng.gptr(st, "@%s_info" % alg)
    size = eng.peek(st, info, 8).p
    pre = []
    h = eng.alloc(st, c64(size), "hash", content(history))
    cp = Copy(eng, st, size, copy, at)
    states = [st]

    def call(sts, fn, args):
        out = []
        for s in sts:
            for o in eng.call(s, "@%s_%s" % (alg, fn), args):
                if o.kind != "ret":
                    raise Unsupported("%s ends in %s" % (fn, o.kind))
                out.append(o.st)
        return out
    if tuple(history) != ANY:
        states = call(states, "construct", [h])
        for i, op in enumerate(history):
            a = [h]
            if op == "update":
                n = var("old_n%d" % i, 64)
                p = eng.alloc(states[0], n, "old%d" % i, lambda t, i=i: uf("old%d" % i, 8, t), writable=False)
                o = states[0].mem[eng.objs[p]]
                for s in states:
                    s.mem[o.id] = o
                    s.assume(ult(n, c64(1 << 50)))
                a += [p, n]
            states = call(states, op, a)
        for s in states:
            s.events = ()
    states = call(states, "init", [h])
    msg = Seq()
    for i, n in enumerate(ns):
        name = "m%d" % i
        ps = None
        for s in states:
            if ps is None:
                ps = eng.alloc(s, n, name, lambda t, name=name: uf(name, 8, t), writable=False)
                o = s.mem[eng.objs[ps]]
            else:
                s.mem[o.id] = o
        msg = msg + data(name, n)
        states, h = cp(i, states, call, h)
        states = call(states, overload, [h, ps, n])
    states, h = cp(len(ns), states, call, h)
    states = call(states, "final", [h])
    states, h = cp(len(ns) + 1, states, call, h)
    L = msg.length()
    blocks, at = padded(alg, msg, L)
    iv = concat(*reversed([const(x, W) for x in spec.IV[alg]]))
    if not states:
        raise Unsupported("no path")

    def sized(m, dn=None):
        if history:
            for old in (0, 1, B - 1, B, 300):
                for f in ([], ["F"]):
                    replay_sizes(alg, m, ns, dn, pre=["I", "U h:" + lcg(old, 9).hex()] + f + ["I"])
        return replay_sizes(alg, m, ns, dn, copies=(copy, at))

    def fail(s, conds, goal, what):
        m = minimize(list(conds) + [not_(goal)], ns)
        if m is None:
            return False
        sizes = sized(m)
        raise Unconfirmed("%s for sizes %s" % (what, sizes))
    npaths = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        npaths += 1
        ev = [e for e in s.events if e[0] == "blocks"]
        prev = iv
        # (conditions, blocks done) alternatives
        alts = [((), c64(0))]
        t = fresh("t", 64)
        for _, n, h0, h1, rd in ev:
            goals = [(s.conds, [eq(h0, prev)], "chaining value")]
            prev = h1
            nalts = []
            cs = cases(n)
            if cs is None or any(v.p > 4 for _, v in cs):
                cs = [((), n)]
            for ac, done in alts:
                for nc, v in cs:
                    cc = tuple(s.conds) + ac + nc
                    if nc and solve.check(list(cc)) == "unsat":
                        continue
                    nalts.append((ac + nc, add(done, tm.mul(v, c64(B)))))
                    if v.op == "const" and SYMT is False:
                        goals.append((cc, [eq(rd(c64(j)), at(add(done, c64(j)))) for j in range(v.p * B)], "block content"))
                    else:
                        goals.append((cc + (ult(t, tm.mul(v, c64(B))),), [eq(rd(t), at(add(done, t)))], "block content"))
            alts = nalts
            for cc, gs, what in goals:
                r = prove_all(cc, gs)
                if r is not None:
                    return fail(s, cc, gs[r[0]], what + " %d" % r[0])
        for ac, done in alts:
            g = eq(done, tm.mul(blocks, c64(B)))
            r = prove_all(tuple(s.conds) + ac, [g])
            if r is not None:
                return fail(s, tuple(s.conds) + ac, g, "number of blocks")
        # digest
        hp = [extract(prev, W * i + W - 1, W * i) for i in range(nh)]
        bs = [b for x in hp for b in be_bytes(x)][:D]
        dn = fresh("dn", 64)
        s2 = s.fork()
        s2.assume(ult(dn, c64(1 << 40)))
        dst = eng.alloc(s2, dn, "dst", lambda t: uf("dst0", 8, t))
        for o in eng.call(s2, "@%s_digest" % alg, [h, dst, dn]):
            if o.kind != "ret":
                raise Unsupported("digest ends in " + o.kind)
            want = ite(ult(dn, c64(D)), dn, c64(D))
            goals = [eq(o.val, want)]
            for j in range(D):
                goals.append(or_(not_(ult(c64(j), dn)), eq(eng.peek_at(o.st, dst, c64(j)), bs[j])))
            t2 = fresh("t", 64)
            goals.append(or_(not_(and_(ule(c64(D), t2), ult(t2, dn))), eq(eng.peek_at(o.st, dst, t2), uf("dst0", 8, t2))))
            r = prove_all(o.st.conds, goals)
            if r is not None:
                    g = goals[r[0]]
                    m = minimize(list(o.st.conds) + [not_(g)], list(ns) + [dn])
                    if m is None:
                        return False
                    sz = sized(m, dn)
                    raise Unconfirmed("digest for sizes %s, digest size %d" % (sz, m(dn)))
        for o in eng.call(s.fork(), "@%s_digestd" % alg, [h, eng.alloc(s, 256, "ddst", "zero")]) if False else ():
            pass
    ck.used(eng)
    for p in eng.problems:
        m = p["model"]
        if m is not None:
            mm = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), ns) or m
            sizes = [mm(n) for n in ns]
            if not copy:
                replay_asan(alg, sizes)
            sized(mm)
        raise Unconfirmed("memory: " + p["msg"])
    if npaths == 0:
        raise Unsupported("no feasible path")
    ck.samples.append("%s: %d updates of symbolic 64-bit size, %d paths" % (alg, len(ns), npaths))
    return "%d paths" % npaths


def length_field(ck, mod, alg):
    """The announced length over its whole range: after a first piece the processed byte count is
    replaced by any count of the same position within the block (the whole blocks in between only
    change the chaining value, which is arbitrary here); another piece of any size; finalize."""
    W, nb, nh, B = blk(alg)
    eng = engine(mod, alg, merge=MERGE)
    st = start(eng)
    n0, n1, P = var("n0", 64), var("n1", 64), var("count", 64)
    st.assume(ult(n0, c64(1 << 59)))
    st.assume(ult(n1, c64(1 << 59)))
    st.assume(eq(extract(P, B.bit_length() - 2, 0), extract(n0, B.bit_length() - 2, 0)))
    if nb == 4:
        # messages of less than 2^61 bytes are what the 64-bit length of SHA-1 and SHA-256 can announce
        st.assume(ult(P, c64(1 << 60)))
    size = eng.peek(st, eng.gptr(st, "@%s_info" % alg), 8).p
    h = eng.alloc(st, c64(size), "hash", content(()))
    ps = [eng.alloc(st, n, "m%d" % i, lambda t, i=i: uf("m%d" % i, 8, t), writable=False) for i, n in enumerate((n0, n1))]

    def call(sts, fn, args):
        out = []
        for s in sts:
            for o in eng.call(s, "@%s_%s" % (alg, fn), args):
                if o.kind != "ret":
                    raise Unsupported("%s ends in %s" % (fn, o.kind))
                if solve.check(list(o.st.conds)) != "unsat":
                    out.append(o.st)
        return out
    sts = call(call(call([st], "construct", [h]), "init", [h]), "update", [h, ps[0], n0])
    at = [o for o in range(0, size - 7, 8) if all(prove_all(s.conds, [eq(eng.peek(s, add(h, c64(o)), 8), n0)]) is None for s in sts)]
    if len(at) != 1:
        raise Skip("the object keeps no byte count that is the message length")
    for s in sts:
        eng.poke(s, add(h, c64(at[0])), P)
    sts = call(sts, "update", [h, ps[1], n1])
    msg, L = data("m0", n0) + data("m1", n1), add(n0, n1)
    total = add(concat(const(0, 64), P), concat(const(0, 64), n1))
    bits = tm.shl_c(total, 3)
    ln = 2 * nb
    blocks, at = padded(alg, msg, L, bits)
    # finalize works on the bytes after the last whole block
    base = concat(extract(L, 63, B.bit_length() - 1), const(0, B.bit_length() - 1))
    left = sub(L, base)
    t = fresh("t", 64)
    for pre in sts:
        pre.events = ()
        obj = [eng.peek_at(pre, h, c64(j)) for j in range(size)]

        def fail(conds, goal, what, h0):
            m = minimize(list(conds) + [not_(goal)], [n0, n1])
            if m is None:
                return False
            word = m(h0)
            chain = [word >> (W * i) & ((1 << W) - 1) for i in range(nh)]
            rest = bytes(m(msg.at(add(base, c64(j)))) for j in range(m(left)))
            pad = rest + b"\x80" + b"\0" * (-(len(rest) + 1 + ln) % B) + (m(bits) & ((1 << 8 * ln) - 1)).to_bytes(ln, "big")
            want = chain
            for i in range(0, len(pad), B):
                want = py_compress(alg, want, pad[i:i + B])
            want = b"".join(x.to_bytes(nb, "big") for x in want)[:spec.DIGEST[alg]]
            img = bytes(m(b) for b in obj)
            rc, out = build.call(build.native("drv_hash.cpp"), "hash %s\nO h:%s\nF\nD %d\n" % (alg, img.hex(), len(want)))
            got = (out.split() + ["", ""])[1][:2 * len(want)]
            if rc != 0 or got != want.hex():
                raise Violation("%s of a message of %d bytes: finalize, from the state the object is in after a message of this length, "
                                "gives %s (exit %s), specified %s" % (alg, m(total), got, rc, want.hex()),
                                dict(kind="hash", alg=alg, length=m(total), chaining=[hex(x) for x in chain], tail=rest.hex(),
                                     object=img.hex(), got=got, want=want.hex(), what=what))
            raise Unconfirmed("%s for a length of %d" % (what, m(total)))
        for s in call([pre.fork()], "final", [h]):
            ev = [e for e in s.events if e[0] == "blocks"]
            if not ev:
                raise Unsupported("finalize hands no block over")
            alts, first = [((), base)], ev[0][2]
            prev = first
            for _, n, h0, h1, rd in ev:
                cs = cases(n)
                if cs is None or any(v.p > 4 for _, v in cs):
                    cs = [((), n)]
                nalts = []
                g = [(s.conds, eq(h0, prev), "chaining value")]
                prev = h1
                for ac, done in alts:
                    for nc, v in cs:
                        cc = tuple(s.conds) + ac + nc
                        if nc and solve.check(list(cc)) == "unsat":
                            continue
                        nalts.append((ac + nc, add(done, tm.mul(v, c64(B)))))
                        g.append((cc + (ult(t, tm.mul(v, c64(B))),), eq(rd(t), at(add(done, t))), "block content"))
                alts = nalts
                for cc, goal, what in g:
                    r = prove_all(cc, [goal])
                    if r is not None:
                        return fail(cc, goal, what, first)
            for ac, done in alts:
                cc, goal = tuple(s.conds) + ac, eq(done, tm.mul(blocks, c64(B)))
                if prove_all(cc, [goal]) is not None:
                    return fail(cc, goal, "number of blocks", first)
    if eng.problems:
        raise Unconfirmed("memory: " + eng.problems[0]["msg"])
    ck.used(eng)
    ck.bound("%s announced length: every length below %s bytes" % (alg, "2^60 + 2^59" if nb == 4 else "2^64 + 2^59"))
    return "%d paths" % len(sts)


def replay_asan(alg, sizes):
    if sum(sizes) > 1 << 24:
        return
    exe = build.native("drv_hash.cpp", extra=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1")
    rc, out, parts, lines = run_history(exe, alg, sizes, spec.DIGEST[alg], "_sw")
    if rc != 0:
        raise Violation("memory error in %s over update sizes %s" % (alg, sizes), dict(kind="hash", alg=alg, sizes=sizes, script=[l[:200] for l in lines]))
