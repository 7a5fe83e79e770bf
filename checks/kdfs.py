"""HMAC over an abstract hash; HKDF and PBKDF2 over an abstract PRF."""
import hashlib
import time
import hmac as pyhmac
import re

from sx import build, loops, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, not_, or_, sub, uf, ule, ult, var, concat, xor

from .lives import ANY, Copy, content
from .msg import Seq, Undecided, c64, data, hexs, lcg, lit, prove_all, snapshot, size_var
from .util import compare, conc
from .hashes import minimize, start

IPAD, OPAD = const(0x36, 8), const(0x5c, 8)
STEPS = (40, 300, 1 << 12, 1 << 17, 1 << 20)


def dig(i, j):
    """byte j of the result of finalised computation i"""
    return uf("dig", 8, const(i, 32) if isinstance(i, int) else i, j)


class Messages:
    """interprets the stand-in hash and PRF: objects hold handles of immutable abstract messages"""

    def __init__(self):
        self.items = [None]

    def put(self, eng, st, p, item):
        self.items.append(item)
        eng.poke(st, p, c64(len(self.items) - 1))

    def get(self, eng, st, p):
        h = eng.peek(st, p, 8)
        if h.op != "const":
            raise Unsupported("handle depends on the path")
        if h.p == 0 or h.p >= len(self.items):
            raise Misuse("object used before initialize")
        return self.items[h.p]

    def install(self, eng):
        def init_h(e, s, a):
            self.put(e, s, a[0], ("open", None, Seq()))

        def init_m(e, s, a):
            self.put(e, s, a[0], ("open", piece(e, s, a[1], a[2]), Seq()))

        def update(e, s, a):
            k, key, m = self.get(e, s, a[0])
            if k != "open":
                raise Misuse("update after finalize")
            self.put(e, s, a[0], (k, key, m + piece(e, s, a[1], a[2])))

        def final(e, s, a):
            k, key, m = self.get(e, s, a[0])
            if k != "open":
                raise Misuse("finalize after finalize")
            i = len(s.events)
            s.event("final", key, m)
            self.put(e, s, a[0], (i, key, m))

        def digest(e, s, a):
            k, key, m = self.get(e, s, a[0])
            if k == "open":
                raise Misuse("digest before finalize")
            n = ite(ult(a[2], a[3]), a[2], a[3])
            o, off = e.access(s, a[1], n, True)
            if o is not None:
                e.bulk_write(s, o, off, n, lambda rel, k=k: dig(k, rel))
            return n
        for p in ("vh", "vm"):
            eng.intercept["@%s_update" % p] = update
            eng.intercept["@%s_final" % p] = final
            eng.intercept["@%s_digest" % p] = digest
        eng.intercept["@vh_init"] = init_h
        eng.intercept["@vm_init"] = init_m


class Misuse(Exception):
    pass


def piece(eng, st, p, n):
    if n.op == "const" and n.p == 0:
        return Seq()
    o, off = eng.access(st, p, n, False)
    if o is None:
        return Seq()
    st.owned.discard(o.id)
    if n.op == "const" and n.p <= 512:
        return Seq([(n, fixed([eng.read_byte(o, add(off, c64(i))) for i in range(n.p)]))])
    return Seq([(n, lambda t: eng.read_byte(o, add(off, t)))])


def fixed(bs):
    def f(t):
        if t.op == "const":
            return bs[t.p] if t.p < len(bs) else const(0, 8)
        # results of one computation read in order stay a single application
        b0 = bs[0]
        if b0.op == "uf" and b0.p == "dig" and all(x is dig(b0.a[0], c64(i)) for i, x in enumerate(bs)):
            return dig(b0.a[0], t)
        r = bs[0]
        for i in range(1, len(bs)):
            r = ite(eq(t, c64(i)), bs[i], r)
        return r
    return f


def digseq(i, n):
    return Seq([(c64(n), lambda t: dig(i, t))])


def collapse(conds, s):
    """adjacent segments that continue the same source become one"""
    out = []
    x = fresh("x", 64)
    for n, f in s.segs:
        if out and not (n.op == "const" and out[-1][0].op == "const"):
            m, g = out[-1]
            if g(add(m, x)) is f(x) and solve.check(list(conds) + [ult(add(m, n), m)]) == "unsat":
                out[-1] = (add(m, n), g)
                continue
        out.append((n, f))
    return Seq(out)


def same(conds, a, b):
    """None when the two sequences are equal under the conditions, else a model"""
    a, b = collapse(conds, a), collapse(conds, b)
    sa, sb = list(a.segs), list(b.segs)
    for end in (0, -1):
        while sa and sb and sa[end][0] is sb[end][0] and len(sa) + len(sb) > 2:
            n, f = sa.pop(end)
            _, g = sb.pop(end)
            t = fresh("t", 64)
            goal = or_(not_(ult(t, n)), eq(f(t), g(t)))
            r = prove_all(tuple(conds), [goal])
            if r is not None:
                return r[1], goal
    if not sa and not sb:
        return None
    a, b = Seq(sa), Seq(sb)
    la, lb = a.length(), b.length()
    r = prove_all(conds, [eq(la, lb)])
    if r is not None:
        return r[1], eq(la, lb)
    if all(n.op == "const" for n, _ in a.segs + b.segs) and la.p <= 1024:
        gs = [eq(a.at(c64(i)), b.at(c64(i))) for i in range(la.p)]
        r = prove_all(conds, gs)
        return None if r is None else (r[1], gs[r[0]])
    t = fresh("t", 64)
    g = eq(a.at(t), b.at(t))
    r = prove_all(tuple(conds) + (ult(t, la),), [g])
    return None if r is None else (r[1], or_(not_(ult(t, la)), g))


# ------------------------------------------------------------------ HMAC

ALGS = {"hmac64_20": ("sha1", 64, 20), "hmac64_28": ("sha224", 64, 28), "hmac64_32": ("sha256", 64, 32), "hmac128_28": ("sha512_224", 128, 28),
        "hmac128_32": ("sha512_256", 128, 32), "hmac128_48": ("sha384", 128, 48), "hmac128_64": ("sha512", 128, 64)}


def pyhash(alg):
    return {"sha512_224": "sha512_224", "sha512_256": "sha512_256"}.get(alg, alg)


def replay_hmac(alg, key, parts, dn, what, pre=(), copies=None):
    if sum(map(len, parts)) + len(key) > 1 << 20:
        return
    want = pyhmac.new(key, b"".join(parts), pyhash(alg)).digest()
    n = min(dn, len(want))
    m = min(dn, 4096) + 16
    body = ["U h:" + p.hex() for p in parts] + ["F"]
    if copies and copies[0]:
        body.insert(copies[1], "C " + copies[0])
        what += ", going on with a copy" if copies[0] != "orig" else ", with a copy made on the way"
    script = ["hmac " + alg] + list(pre) + ["I h:" + key.hex()] + body + ["D %d" % dn]
    compare("drv_kdf.cpp", "\n".join(script) + "\n", "%d %s" % (n, (want[:n] + b"\xa5" * (m - n)).hex()), what)


def engine(mod, **kw):
    eng = Engine(mod, **kw)
    eng.summaries = True
    eng.messages = Messages()
    eng.messages.install(eng)
    return eng


def caller(eng, name):
    def call(sts, fn, args):
        out = []
        for s in sts:
            for o in eng.call(s, "@%s_%s" % (name, fn), args):
                if o.kind != "ret":
                    raise Unsupported("%s ends in %s" % (fn, o.kind))
                out.append(o.st)
        return out
    return call


def values(sts):
    return sts


def hmac(ck, mod, name, ns, overload="update", history=(), limits=None, copy=None, at=0):
    """initialize with a key of any size, updates, finalize, digest"""
    alg, B, D = ALGS[name]
    eng = engine(mod, merge=False)
    st = start(eng)
    kn = size_var("kn")
    for n in ns + [kn]:
        st.assume(ult(n, c64((limits or {}).get(n.p) or 1 << 50)))
    size = eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p
    h = eng.alloc(st, c64(size), "mac", content(history))
    cp = Copy(eng, st, size, copy, at)
    kp = eng.alloc(st, kn, "key", lambda t: uf("key", 8, t), writable=False)
    srcs = [eng.alloc(st, n, "m%d" % i, lambda t, i=i: uf("m%d" % i, 8, t), writable=False) for i, n in enumerate(ns)]
    msg = Seq()
    for i, n in enumerate(ns):
        msg = msg + data("m%d" % i, n)
    call = caller(eng, name)

    def rep(m, what, dn=None):
        sizes, kl = [m(n) for n in ns], m(kn)
        pre = ["I h:" + lcg(33, 4).hex(), "U h:" + lcg(77, 5).hex()] + (["F"] if "final" in history else []) if history else ()
        copies = (copy, at) if copy else None
        if sum(sizes) + kl <= 1 << 20:
            if tuple(history) == ANY:
                for old in (0, 1, 37, 64, 200):
                    for f in ([], ["F"]):
                        replay_hmac(alg, lcg(kl, 3), [lcg(n, i + 5) for i, n in enumerate(sizes)], D, "HMAC-%s %s (key size %d, message sizes %s) after an earlier use" % (alg, what, kl, sizes),
                                    ["I h:" + lcg(300 - old, 4).hex(), "U h:" + lcg(old, 5).hex()] + f)
            for d in (D if dn is None else dn, D):
                replay_hmac(alg, lcg(kl, 3), [lcg(n, i + 5) for i, n in enumerate(sizes)], d, "HMAC-%s %s (key size %d, message sizes %s)" % (alg, what, kl, sizes), pre, copies)
            replay_hmac(alg, bytes(m(uf("key", 8, c64(i))) for i in range(min(kl, 4096))) + bytes(max(0, kl - 4096)),
                        [lcg(n, i + 5) for i, n in enumerate(sizes)], D, "HMAC-%s %s (key size %d, message sizes %s)" % (alg, what, kl, sizes), pre, copies)
        raise Unconfirmed("%s for key size %d, message sizes %s" % (what, kl, sizes))
    states = [st] if tuple(history) == ANY else call([st], "construct", [h])
    for i, op in enumerate(history):
        if op == "any":
            continue
        if op == "init":
            states = call(states, "init", [h, eng.alloc(states[0], 9, "oldkey", lit_bytes("ok", 9)), c64(9)])
        elif op == "update":
            states = call(states, "update", [h, eng.alloc(states[0], 9, "oldmsg", lit_bytes("om", 9)), c64(9)])
        else:
            states = call(states, "final", [h])
    try:
        states = call(states, "initc" if overload == "updatec" else "init", [h, kp, kn])
        for i, (n, p) in enumerate(zip(ns, srcs)):
            states, h = cp(i, states, call, h)
            states = call(states, overload, [h, p, n])
        states, h = cp(len(ns), states, call, h)
        states = call(states, "final", [h])
        states, h = cp(len(ns) + 1, states, call, h)
    except Misuse as e:
        for kl in (0, 1, B - 1, B, B + 1, 3 * B):
            replay_hmac(alg, lcg(kl, 3), [lcg(50, 5)] * len(ns), D, str(e), (), (copy, at))
        raise Unconfirmed(str(e))
    total = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        total += 1
        dn = fresh("dn", 64)
        s2 = s.fork()
        s2.assume(ult(dn, c64(1 << 40)))
        dst = eng.alloc(s2, dn, "dst", lambda t: uf("dst0", 8, t))
        for o in eng.call(s2, "@%s_digest" % name, [h, dst, dn]):
            q = o.st
            ev = [e for e in q.events if e[0] == "final"]
            idx = {id(e): i for i, e in enumerate(q.events)}

            def check(conds, a, b, what):
                r = same(conds, a, b)
                if r is not None:
                    m = minimize(list(conds) + [not_(r[1])], ns + [kn], steps=STEPS) or r[0]
                    rep(m, what)
            # the digest is the leading part of one computation
            t = fresh("t", 64)
            outer = None
            for i in reversed(range(len(q.events))):
                if q.events[i][0] == "final":
                    outer = i
                    break
            if outer is None:
                raise Unsupported("nothing finalised")
            n = ite(ult(dn, c64(D)), dn, c64(D))
            gs = [eq(o.val, n), or_(not_(ult(t, n)), eq(eng.peek_at(q, dst, t), dig(outer, t))),
                  or_(not_(and_(ule(n, t), ult(t, dn))), eq(eng.peek_at(q, dst, t), uf("dst0", 8, t)))]
            r = prove_all(q.conds, gs)
            if r is not None:
                m = minimize(list(q.conds) + [not_(gs[r[0]])], ns + [kn, dn], steps=STEPS) or r[1]
                rep(m, "digest", m(dn))
            om = q.events[outer][2]
            # which computation fed the outer one
            b = om.at(c64(B))
            inner = b.a[0].p if b.op == "uf" and b.p == "dig" and b.a[0].op == "const" else None
            if inner is None or q.events[inner][0] != "final":
                m = minimize(list(q.conds), ns + [kn], steps=STEPS)
                rep(m, "outer message has no inner digest")
            im = q.events[inner][2]
            others = [i for i in range(len(q.events)) if q.events[i][0] == "final" and i not in (outer, inner)]
            long = ult(c64(B), kn)
            key = Seq([(kn, lambda t: uf("key", 8, t))])
            hk = None
            kl = (long,)
            if solve.check(list(q.conds) + [long]) != "unsat":
                for i in others:
                    try:
                        if same(tuple(q.conds) + kl, q.events[i][2], key) is None:
                            hk = i
                            break
                    except Undecided:
                        pass
                if hk is None:
                    m = minimize(list(q.conds) + [long], ns + [kn], steps=STEPS)
                    rep(m, "long key is not hashed")

            def keyat(t):
                k = ite(ult(t, kn), uf("key", 8, t), const(0, 8))
                if hk is not None:
                    k = ite(long, ite(ult(t, c64(D)), dig(hk, t), const(0, 8)), k)
                return k
            check(q.conds, om, Seq([(c64(B), lambda t: xor(keyat(t), OPAD))]) + digseq(inner, D), "outer message")
            check(q.conds, im, Seq([(c64(B), lambda t: xor(keyat(t), IPAD))]) + msg, "inner message")
    ck.used(eng)
    for p in eng.problems:
        if p["model"] is None:
            return False
        mm = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), ns + [kn], steps=STEPS) or p["model"]
        rep(mm, "memory: " + p["msg"])
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths" % total


def lit_bytes(name, n):
    return [var("%s%d" % (name, i), 8) for i in range(n)]


# ------------------------------------------------------------------ key derivation

KDF = {20: "sha1", 28: "sha224", 32: "sha256", 48: "sha384", 64: "sha512"}


def py_hkdf(alg, ikm, salt, info, n):
    D = hashlib.new(alg).digest_size
    prk = pyhmac.new(salt or bytes(D), ikm, alg).digest()
    out, t, i = b"", b"", 1
    while len(out) < n:
        t = pyhmac.new(prk, t + info + bytes([i & 255]), alg).digest()
        out += t
        i += 1
    return out[:n]


def replay_kdf(kind, D, ikm, salt, third, sizes, what, pre=(), copies=None):
    if sum(sizes) > 1 << 16 or len(ikm) + len(salt) > 1 << 18:
        return
    alg = KDF[D]
    if kind == "hkdf":
        if sum(sizes) > 255 * D:
            return
        want = py_hkdf(alg, ikm, salt, third, sum(sizes))
        init = "I h:%s h:%s h:%s" % (ikm.hex(), salt.hex(), third.hex())
    else:
        want = hashlib.pbkdf2_hmac(alg, ikm, salt, max(1, third), sum(sizes) or 1)
        init = "I h:%s h:%s %d" % (ikm.hex(), salt.hex(), third)
    body = ["R %d" % n for n in sizes]
    if copies and copies[0]:
        body.insert(copies[1], "C " + copies[0])
    script = ["%s %s" % (kind, alg)] + list(pre) + [init] + body
    lines, pos = [], 0
    for n in sizes:
        lines.append(("%d %s" % (n, (want[pos:pos + n] + b"\xa5" * 16).hex())).strip())
        pos += n
    compare("drv_kdf.cpp", "\n".join(script) + "\n", "\n".join(lines), what)


def derive(ck, mod, kind, D, maxes, overload="", history=None, iters=None, mins=None, sparse=False, copy=None, at=0):
    """initialize, then derive calls of symbolic sizes (below maxes); every output byte is the
    specified block byte, every PRF call is the specified one"""
    name = "%s%d" % (kind, D)
    eng = engine(mod, merge=False)
    st = start(eng)
    w = max(maxes).bit_length()
    nv = [size_var("n%d" % i, w) for i in range(len(maxes))]
    ns = [tm.zext(n, 64) for n in nv]
    for i, (n, m) in enumerate(zip(ns, maxes)):
        st.assume(ule(n, c64(m)))
        if mins:
            st.assume(ule(c64(mins[i]), n))
    kn, sn, fn = size_var("ikm_n"), size_var("salt_n"), size_var("info_n")
    for n in (kn, sn, fn):
        st.assume(ult(n, c64(1 << 50)))
    size = eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p
    h = eng.alloc(st, c64(size), "kdf", content(history or ()))
    cp = Copy(eng, st, size, copy, at)
    anything = tuple(history or ()) == ANY
    kp = eng.alloc(st, kn, "ikm", lambda t: uf("ikm", 8, t), writable=False)
    sp = eng.alloc(st, sn, "salt", lambda t: uf("salt", 8, t), writable=False)
    ikm, salt = data("ikm", kn), data("salt", sn)
    it = size_var("iters", 32)
    args = [h, kp, kn, sp, sn]
    if kind == "hkdf":
        fp = eng.alloc(st, fn, "info", lambda t: uf("info", 8, t), writable=False)
        info = data("info", fn)
        args += [fp, fn]
    else:
        st.assume(ule(it, const(iters, 32)))
        args += [it]
    dsts = [eng.alloc(st, n, "dst%d" % i, lambda t, i=i: uf("old%d" % i, 8, t)) for i, n in enumerate(ns)]
    call = caller(eng, name)

    def rep(m, what):
        sizes = [m(n) for n in nv]
        a, b, c = m(kn), m(sn), m(fn)
        third = lcg(min(c, 4096), 3) if kind == "hkdf" else m(it)
        pre = ["I h:aabb h:cc " + ("h:dd" if kind == "hkdf" else "2"), "S %d" % (D + 3)] if history else []
        copies = (copy, at) if copy else None
        if anything:
            for old in (0, 1, D - 1, D, 2 * D + 1):
                replay_kdf(kind, D, lcg(7, 1), lcg(5, 2), lcg(6, 3) if kind == "hkdf" else m(it), sizes, "%s %s (sizes %s) after an earlier use" % (kind, what, sizes), pre[:1] + ["S %d" % old])
        if max(a, b, c) <= 1 << 17:
            replay_kdf(kind, D, lcg(a, 1), lcg(b, 2), third, sizes, "%s %s (sizes %s; inputs %d, %d, %s)" % (kind, what, sizes, a, b, c if kind == "hkdf" else third), pre, copies)
        replay_kdf(kind, D, lcg(7, 1), lcg(5, 2), lcg(6, 3) if kind == "hkdf" else m(it), sizes, "%s %s (sizes %s)" % (kind, what, sizes), pre, copies)
        raise Unconfirmed("%s for sizes %s" % (what, sizes))

    def check(s, conds, goals, what, split=None):
        try:
            r = prove_all(tuple(s.conds) + tuple(conds), goals)
        except Undecided:
            if split is None:
                raise
            # one position at a time
            v, n = split
            for i in range(n):
                sb = {v: c64(i)}
                check(s, tm.substitute(list(conds), sb), tm.substitute(list(goals), sb), what)
            return
        if r is not None:
            m = minimize(list(s.conds) + list(conds) + [not_(goals[r[0]])], ns + [kn, sn, fn], steps=STEPS) or r[1]
            rep(m, what)

    def cmp(s, a, b, what):
        r = same(tuple(s.conds), a, b)
        if r is not None:
            m = minimize(list(s.conds) + [not_(r[1])], ns + [kn, sn, fn], steps=STEPS) or r[0]
            rep(m, what)
    try:
        states = [st] if anything else call([st], "construct", [h])
        if history and not anything:
            # an earlier use: derived D + 3 bytes from other material
            s0 = states[0]
            ob = eng.alloc(s0, 9, "oldin", lit_bytes("oldin", 9))
            old = eng.alloc(s0, D + 3, "oldout", lit_bytes("oldout", D + 3))
            states = call(states, "init", [h, ob, c64(9), ob, c64(8)] + ([ob, c64(7)] if kind == "hkdf" else [const(2, 32)]))
            states = call(states, "derive", [h, old, c64(D + 3)])
        first = [len(s.events) for s in states][0]
        states = call(states, "initc" if overload else "init", args)
        for i, (n, d) in enumerate(zip(ns, dsts)):
            states, h = cp(i, states, call, h)
            nx = []
            for s in states:
                for o in eng.call(s, "@%s_derive%s" % (name, overload), [h, d, n]):
                    if o.kind != "ret":
                        raise Unsupported(o.kind)
                    check(o.st, (), [eq(o.val, n)], "returned size")
                    nx.append(o.st)
            states = nx
    except Misuse as e:
        for sz in ([1], [D], [D + 1], [3, D], [2 * D, 5]):
            replay_kdf(kind, D, lcg(7, 1), lcg(5, 2), lcg(6, 3) if kind == "hkdf" else 2, sz, str(e))
        raise Unconfirmed(str(e))
    total = 0
    done = set()
    blocks = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        total += 1
        ev = [(i, e) for i, e in enumerate(s.events) if e[0] == "final" and i >= first]
        ids = []        # result reader of block i
        if kind == "hkdf":
            if not ev:
                raise Unsupported("no extract")
            p, (_, k, m) = ev[0]
            if (p, id(k), id(m)) not in done:
                cmp(s, k, salt, "extract key")
                cmp(s, m, ikm, "extract message")
                done.add((p, id(k), id(m)))
            prk = digseq(p, D)
            for b, (i, (_, k, m)) in enumerate(ev[1:]):
                if b >= 255:
                    break
                key = (i, id(k), id(m))
                if key not in done:
                    cmp(s, k, prk, "expand key of block %d" % (b + 1))
                    cmp(s, m, (digseq(ids[-1][0], D) if ids else Seq()) + info + lit([const(b + 1, 8)]), "expand message of block %d" % (b + 1))
                    done.add(key)
                ids.append((i,))
        else:
            # groups: the first call of a block has the salt, the others the previous result
            cur = None
            for i, (_, k, m) in ev:
                if cur is None or m.length() is not c64(D) or not is_dig(m, cur[-1], D):
                    cur = []
                    ids.append(cur)
                    want = salt + lit([const((len(ids) >> sh) & 255, 8) for sh in (24, 16, 8, 0)])
                else:
                    want = digseq(cur[-1], D)
                key = (i, id(k), id(m))
                if key not in done:
                    cmp(s, k, ikm, "PRF key in block %d" % len(ids))
                    cmp(s, m, want, "PRF message %d of block %d" % (len(cur) + 1, len(ids)))
                    done.add(key)
                cur.append(i)
            for b, g in enumerate(ids):
                want = ite(eq(it, const(0, 32)), const(1, 32), it)
                check(s, (), [eq(want, const(len(g), 32))], "iteration count of block %d" % (b + 1))
        # output bytes
        pos = c64(0)
        need = c64(0)
        j = fresh("j", 64)
        for n, d in zip(ns, dsts):
            for b in range(sum(maxes) // D + 1):
                p = add(c64(b * D), j)
                inb = (ult(j, c64(D)), ule(pos, p), ult(sub(p, pos), n))
                if b >= len(ids):
                    r = solve.check(list(s.conds) + list(inb))
                    if r != "unsat":
                        m = minimize(list(s.conds) + list(inb), ns + [kn, sn, fn], steps=STEPS) or r
                        rep(m, "output of block %d without computing it" % (b + 1))
                    break
                if sparse and 2 <= b < len(ids) - 8:
                    continue
                blocks += 1
                want = dig(ids[b][0], j)
                for x in ids[b][1:]:
                    want = xor(want, dig(x, j))
                check(s, inb, [eq(eng.peek_at(s, d, sub(p, pos)), want)], "output byte of block %d" % (b + 1), (j, D))
            pos = add(pos, n)
    ck.used(eng)
    for p in eng.problems:
        if p["model"] is None:
            return False
        mm = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), ns + [kn, sn, fn], steps=STEPS) or p["model"]
        rep(mm, "memory: " + p["msg"])
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths, %d block comparisons, %d PRF calls compared" % (total, blocks, len(done))


def prf_loop(mod, D, n, overload=""):
    """(function, header) of the loop that repeats the PRF, found by executing four iterations"""
    eng = engine(mod, merge=False)
    st = start(eng)
    name = "pbkdf%d" % D
    h = eng.alloc(st, c64(eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p), "kdf", content(()))
    p = eng.alloc(st, 4, "in", lit_bytes("in", 4))
    d = eng.alloc(st, n, "dst", lit_bytes("old", n))
    call = caller(eng, name)
    states = call(call([st], "construct", [h]), "init", [h, p, c64(4), p, c64(4), const(5, 32)])
    seen = []
    final = eng.intercept["@vm_final"]

    def spy(e, s, a):
        seen.append([(f.fn, f.blk) for f in s.frames])
        return final(e, s, a)
    eng.intercept["@vm_final"] = spy
    for s in states:
        for o in eng.call(s, "@%s_derive%s" % (name, overload), [h, d, c64(n)]):
            pass
    if len(seen) < 4:
        raise Unsupported("%d PRF calls for five iterations" % len(seen))
    for f, b in reversed(seen[3]):
        ls = [(len(body), hd) for hd, body in loops.natural_loops(f).items() if b in body]
        if ls:
            return f, min(ls)[1]
    raise Unsupported("no loop around the PRF")


def iterations(ck, mod, D, n, overload=""):
    """every iteration count: the loop over the PRF is cut, one arbitrary iteration is executed"""
    name = "pbkdf%d" % D
    f0, head = prf_loop(mod, D, n, overload)
    eng = engine(mod, merge=False)
    eng.deadline = time.time() + 90
    st = start(eng)
    kn, sn, it = size_var("ikm_n"), size_var("salt_n"), size_var("iters", 32)
    for x in (kn, sn):
        st.assume(ult(x, c64(1 << 50)))
    h = eng.alloc(st, c64(eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p), "kdf", content(()))
    kp = eng.alloc(st, kn, "ikm", lambda t: uf("ikm", 8, t), writable=False)
    sp = eng.alloc(st, sn, "salt", lambda t: uf("salt", 8, t), writable=False)
    dst = eng.alloc(st, n, "dst", lit_bytes("old", n))
    ikm, salt = data("ikm", kn), data("salt", sn)
    call = caller(eng, name)
    states = call(call([st], "construct", [h]), "init", [h, kp, kn, sp, sn, it])
    want = ite(eq(it, const(0, 32)), const(1, 32), it)
    total = tm.zext(want, 64)

    def rep(conds, what):
        for lim in (2, 3, 5, 17, 65, 257, 300, 65537, 65600, 1 << 18, 1 << 21):
            m = solve.check(list(conds) + [ule(it, const(lim, 32))])
            if m not in ("unsat", "unknown"):
                c = m(it)
                replay_kdf("pbkdf", D, lcg(7, 1), lcg(5, 2), c, [n], "%s (%d iterations)" % (what, c))
        raise Unconfirmed(what)

    def cmp(conds, a, b, what):
        r = same(tuple(conds), a, b)
        if r is not None:
            rep(list(conds) + [not_(r[1])], what)

    def goals(conds, gs, what):
        r = prove_all(tuple(conds), gs)
        if r is not None:
            rep(list(conds) + [not_(gs[r[0]])], what)
    f = eng.m.fns[f0.name]
    eng.m.parser.finish(f)
    fn = eng.m.fns["@%s_derive%s" % (name, overload)]
    eng.m.parser.finish(fn)
    heads, outs = [], []
    for s in states:
        s = s.fork()
        eng.push(s, fn, [h, dst, c64(n)], None)
        a, b = loops.one_iter(eng, s, f, head, len(s.frames) - 1)
        heads += a
        outs += b
    if not heads:
        raise Unsupported("the loop is never reached")

    def finals(s, since=0):
        return [(i, e) for i, e in enumerate(s.events) if i >= since and e[0] == "final"]
    paths = 0
    for o in outs:
        if o.kind != "ret":
            raise Unsupported(o.kind)
        paths += 1
        ev = finals(o.st)
        goals(o.st.conds, [eq(total, c64(len(ev)))], "iteration count")
    for e0 in heads:
        ev = finals(e0)
        if not ev:
            raise Unsupported("no PRF call before the loop")
        base = len(ev)
        cmp(e0.conds, ev[0][1][1], ikm, "PRF key")
        cmp(e0.conds, ev[0][1][2], salt + lit([const(x, 8) for x in (0, 0, 0, 1)]), "first PRF message")
        for a, b in zip(ev, ev[1:]):
            cmp(e0.conds, b[1][1], ikm, "PRF key")
            cmp(e0.conds, b[1][2], digseq(a[0], D), "PRF message")
        inv = None
        for rel in (lambda k: ult(add(k, c64(base)), total), lambda k: ule(add(k, c64(base)), total)):
            if loops.implies(eng, e0.conds, rel(c64(0))) is not True:
                continue
            t = loops.generic_iteration(eng, e0, f, head, assume=lambda k: and_(ult(k, c64(1 << 33)), rel(k)))
            if t.affine_ok and all(loops.implies(eng, b.conds, rel(add(t.k, c64(1)))) is True for b in t.backs):
                inv = t
                break
        if inv is None:
            raise Unsupported("no counting invariant of the iteration loop")
        k, g = inv.k, inv.head
        n0 = len(g.events)
        # places: what the loop changes, with its entry value and its value at the generic head
        places = []
        for oid, idx in inv.changed.items():
            if idx == "log":
                raise Unsupported("loop writes an object of symbolic size")
            for i in sorted(idx):
                places.append((lambda s, oid=oid, i=i: s.mem[oid].data[i]))
        for nm, _, _ in inv.values:
            places.append(lambda s, nm=nm: s.frames[-1].env.get(nm))
        last = ev[-1][0]
        where = {}

        def xored(j):
            r = dig(ev[0][0], c64(j))
            for x in ev[1:]:
                r = xor(r, dig(x[0], c64(j)))
            return r
        for p in places:
            v = p(e0)
            if v is None or v.w != 8:
                continue
            for j in range(D):
                if v is dig(last, c64(j)):
                    where.setdefault(("u", j), []).append(p)
                if v is xored(j):
                    where.setdefault(("t", j), []).append(p)
        # which of the candidates carry the previous result and which the running sum is decided by the iteration itself
        U, T = {}, {}

        def step(s):
            new = finals(s, n0)
            if len(new) != 1:
                raise Unsupported("%d PRF calls in one iteration" % len(new))
            i, (_, key, msg) = new[0]
            cmp(s.conds, key, ikm, "PRF key")
            if solve.check(list(s.conds) + [not_(eq(msg.length(), c64(D)))]) != "unsat":
                rep(s.conds, "length of the PRF message")
            return i, msg
        for s in list(inv.backs) + [o.st for o in inv.outs]:
            paths += 1
            did = len(finals(s, n0)) > 0
            if did:
                i, msg = step(s)
                # the message is the previous result: the bytes of the places that held it on entry
                for j in range(D):
                    x = msg.at(c64(j))
                    c = [p for p in where.get(("u", j), []) if p(g) is x]
                    if not c:
                        rep(s.conds, "PRF message is not the previous result")
                    U.setdefault(j, c[0])
            if s in inv.backs:
                if not did:
                    raise Unsupported("an iteration without a PRF call")
                for j in range(D):
                    if not U[j](s) is dig(i, c64(j)):
                        goals(s.conds, [eq(U[j](s), dig(i, c64(j)))], "previous result")
                    c = [p for p in where.get(("t", j), []) if p is not U[j] and T.get(j) in (None, p)]
                    ok = [p for p in c if p(s) is not None and solve.check(list(s.conds) + [not_(eq(p(s), xor(p(g), dig(i, c64(j)))))]) == "unsat"]
                    if not ok:
                        rep(s.conds, "running sum")
                    T[j] = ok[0]
        for o in inv.outs:
            if o.kind != "ret":
                raise Unsupported(o.kind)
            s = o.st
            new = finals(s, n0)
            goals(s.conds, [eq(add(k, c64(base + len(new))), total)], "iteration count")
            gs = []
            for j in range(n):
                if j not in T:
                    raise Unsupported("the running sum was not found")
                w = T[j](g)
                if new:
                    w = xor(w, dig(new[0][0], c64(j)))
                gs.append(eq(eng.peek_at(s, dst, c64(j)), w))
            goals(s.conds, gs, "output")
    for p in eng.problems:
        if p["model"] is None:
            return False
        rep(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), "memory: " + p["msg"])
    ck.used(eng)
    return "%d paths" % paths


def is_dig(m, i, D):
    """the message is the result of computation i (syntactic: groups PRF calls)"""
    x = m.at(c64(0))
    return x is dig(i, c64(0))
