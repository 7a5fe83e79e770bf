"""ChaCha20-Poly1305 composition over a stand-in cipher and MAC."""
import multiprocessing

from sx import solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, not_, or_, sub, uf, ule, ult, var, concat, xor

from .ciphers import py_state, py_stream
from .hashes import minimize, start
from .kdfs import Messages, Misuse, dig, digseq, fixed, lit_bytes, piece, same
from .lives import ANY, Copy, content, native
from .msg import Seq, Undecided, c64, data, lcg, le_bytes, lit, prove_all, size_var
from .polys import tag as poly_tag
from .util import compare

PROG = "drv_aead.cpp"
STEPS = (40, 300, 1 << 12, 1 << 17, 1 << 20, (1 << 32) + (1 << 12), 1 << 33)


# ------------------------------------------------------------------ reference for replays

def pad16(b):
    return b + bytes(-len(b) % 16)


def py_aead(key, iv, aad, text, enc=True):
    """(output, tag) of RFC 8439 with key and nonce zero padded or cut to size"""
    key, iv = (key + bytes(32))[:32], (iv + bytes(12))[:12]
    st = py_state(key, bytes(4) + iv)
    out = bytes(x ^ y for x, y in zip(text, py_stream(st, len(text), 64)))
    ct = out if enc else text
    m = pad16(aad) + pad16(ct) + len(aad).to_bytes(8, "little") + len(ct).to_bytes(8, "little")
    return out, poly_tag(py_stream(st, 32, 0), m)


def zero_tag(key, iv, an, tn):
    """tag of RFC 8439 for an zero bytes of associated data and tn zero bytes of ciphertext"""
    P = (1 << 130) - 5
    k = py_stream(py_state(key, bytes(4) + iv), 32, 0)
    r = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    n = (an + 15) // 16 + (tn + 15) // 16
    # n zero blocks: 2^128 (r + r^2 + ... + r^n)
    a = (1 << 128) * r * (pow(r, n, P) - 1) * pow(r - 1, -1, P) % P
    last = int.from_bytes(an.to_bytes(8, "little") + tn.to_bytes(8, "little") + b"\x01", "little")
    a = (a + last) * r % P
    return ((a + int.from_bytes(k[16:], "little")) % (1 << 128)).to_bytes(16, "little")


# long native round trips so far in this run, over all obligations (inherited by the workers): every obligation
# still reports its own counterexample, only the number of gigabyte-long native confirmations is limited
BIG = multiprocessing.Value("i", 0)


def replay_big(layer, an, tn, what, over=True):
    """huge parts: zero bytes, decryption, the tag only"""
    if sum(an) + sum(tn) > 1 << 34:
        return
    k, v = lcg(32, 1), lcg(12, 2)
    lines = [layer, "I h:%s h:%s" % (k.hex(), v.hex())] + ["A z:%d" % n for n in an]
    if layer == "raw" and over:
        lines.append("O")
    lines += ["X z:%d" % n for n in tn]
    if layer == "raw":
        lines.append("F")
    lines.append("D 16")
    want = [str(n) for n in tn] + ["16 " + (zero_tag(k, v, sum(an), sum(tn)) + b"\xa5" * 16).hex()]
    compare(PROG, "\n".join(lines) + "\n", "\n".join(want), "%s: %s (zero bytes: associated data %s, text %s)" % (layer, what, an, tn), san=False, timeout=200)
    if max(tn, default=0) >> 20:
        from sx import build
        with BIG.get_lock():
            if BIG.value >= 3:      # enough of these long native runs (see BIG)
                return
            BIG.value += 1
        line = "%s\nRT %d %s\n" % (layer, sum(an), " ".join(map(str, tn)))
        rc, got = build.call(build.native(PROG), line, 300)
        if rc or not got.startswith("same"):
            raise Violation("%s: %s; native: encrypting %s zero bytes after %d bytes of associated data and decrypting the result gives different tags: %s" % (layer, what, tn, sum(an), got[:200]),
                            dict(script=line, got=got[:500], rc=rc, program=PROG))


# ------------------------------------------------------------------ stand-ins

class Cipher:
    """objects hold (number of initialisation, position)"""

    def __init__(self, messages):
        self.m = messages

    def install(self, eng):
        def init(e, s, a):
            k = piece(e, s, a[1], a[2])
            v = piece(e, s, a[3], a[4])
            n = sum(1 for x in s.events if x[0] == "cipher")
            s.event("cipher", k, v)
            self.m.put(e, s, a[0], ("cipher", n, c64(0)))

        def crypt(e, s, a):
            h, src, n, dst = a
            it = self.m.get(e, s, h)
            _, num, pos = it
            so, soff = e.access(s, src, n, False)
            do, doff = e.access(s, dst, n, True)
            if so is not None and do is not None:
                s.owned.discard(so.id)

                def fn(rel, so=so, soff=soff, num=num, pos=pos):
                    return xor(e.read_byte(so, add(soff, rel)), ks(num, add(pos, rel)))
                e.bulk_write(s, do, doff, n, fn)
            self.m.put(e, s, h, ("cipher", num, add(pos, n)))
            return n
        eng.intercept["@vc_init"] = init
        eng.intercept["@vc_encrypt"] = crypt
        eng.intercept["@vc_decrypt"] = crypt


def ks(num, pos):
    return uf("ks", 8, const(num, 16), pos)


def engine(mod, one_key=False, **kw):
    eng = Engine(mod, **kw)
    eng.summaries = True
    eng.messages = Messages()
    eng.messages.install(eng)
    c = Cipher(eng.messages)
    c.install(eng)
    return eng


def padded(seq, n):
    """first n bytes of a sequence, zero padded"""
    return [seq.at(c64(i)) for i in range(n)]


def cut(name, n, size):
    return [ite(ult(c64(i), n), uf(name, 8, c64(i)), const(0, 8)) for i in range(size)]


def up16(n):
    return extract(sub(c64(0), n), 3, 0)


def spec_message(aad, ct):
    """MAC input of RFC 8439 from the two sequences"""
    def z(seq):
        return Seq([(tm.zext(up16(seq.length()), 64), lambda t: const(0, 8))])
    return aad + z(aad) + ct + z(ct) + lit(le_bytes(aad.length()) + le_bytes(ct.length()))


# ------------------------------------------------------------------ one stream

class Setup:
    """symbolic inputs, call helper and replay shared by the obligations"""

    def __init__(self, ck, mod, layer, sizes=None, overload="", history=()):
        self.history = history
        self.ck = ck
        self.layer = layer
        self.o = overload
        self.eng = engine(mod, merge=False)
        self.st = start(self.eng)
        self.kn, self.vn = size_var("key_n"), size_var("iv_n")
        self.vars = []
        for n in (self.kn, self.vn):
            self.st.assume(ult(n, c64(1 << 50)))
        st, eng = self.st, self.eng
        if sizes != "free":
            st.assume(eq(self.kn, c64(32)))
            st.assume(eq(self.vn, c64(12)))
        self.kp = eng.alloc(st, self.kn, "key", lambda t: uf("key", 8, t), writable=False)
        self.vp = eng.alloc(st, self.vn, "iv", lambda t: uf("iv", 8, t), writable=False)
        if layer in ("raw", "apie"):
            self.h = self.obj()

    def obj(self):
        n = self.osize = self.eng.peek(self.st, self.eng.gptr(self.st, "@%s_info" % self.layer), 8).p
        return self.eng.alloc(self.st, c64(n), "aead", content(self.history))

    def size(self, name, limit=1 << 50):
        n = size_var(name)
        self.st.assume(ult(n, c64(limit)))
        self.vars.append(n)
        return n

    def call(self, sts, fn, args, want=None):
        out = []
        for s in sts:
            for o in self.eng.call(s, "@%s_%s" % (self.layer, fn), args):
                if o.kind != "ret":
                    raise Unsupported("%s ends in %s" % (fn, o.kind))
                if want is not None:
                    self.check(o.st, [eq(o.val, want)], "returned size of " + fn)
                out.append(o.st)
        return out

    def model(self, s, g, m):
        return minimize(list(s.conds) + [not_(g)], self.vars + [self.kn, self.vn], steps=STEPS) or m

    def check(self, s, goals, what, conds=()):
        r = prove_all(tuple(s.conds) + tuple(conds), goals)
        if r is not None:
            m = minimize(list(s.conds) + list(conds) + [not_(goals[r[0]])], self.vars + [self.kn, self.vn], steps=STEPS) or r[1]
            self.rep(m, what)

    def same(self, s, a, b, what):
        r = same(tuple(s.conds), a, b)
        if r is not None:
            self.rep(self.model(s, r[1], r[0]), what)

    def rep(self, m, what):
        raise NotImplementedError

    def keys(self, s, num=0):
        """the cipher was set up with the key and four zero bytes and the nonce; the MAC key is the first block"""
        ev = [e for e in s.events if e[0] == "cipher"]
        self.check(s, [eq(a, b) for a, b in zip(padded(ev[num][1], 32), cut("key", self.kn, 32))], "cipher key")
        self.check(s, [eq(a, b) for a, b in zip(padded(ev[num][2], 16), [const(0, 8)] * 4 + cut("iv", self.vn, 12))], "cipher nonce")

    def memory(self):
        for p in self.eng.problems:
            if p["model"] is None:
                return False
            mm = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), self.vars + [self.kn, self.vn], steps=STEPS) or p["model"]
            self.rep(mm, "memory: " + p["msg"])
        return True


def key_iv(m, kn, vn):
    a, b = m(kn), m(vn)
    if a + b > 1 << 16:
        return lcg(32, 1), lcg(12, 2)
    return lcg(a, 1), lcg(b, 2)


def stream(ck, mod, layer, aads, ops, overload="", inplace=False, sizes=None, history=(), limits=None, noover=False, copy=None, at=0):
    """copy: what to do with a copy before step `at` of the parts and the finalisation.  aads: number of associated data parts; ops: 'encrypt' or 'decrypt' parts"""
    S = Setup(ck, mod, layer, sizes, overload, history)
    eng = S.eng
    cp = Copy(eng, S.st, S.osize, copy, at)
    limits = limits or {}
    an = [S.size("a%d" % i, limits.get("a%d" % i, 1 << 50)) for i in range(aads)]
    tn = [S.size("t%d" % i, limits.get("t%d" % i, 1 << 50)) for i in range(len(ops))]
    ap = [eng.alloc(S.st, n, "aad%d" % i, lambda t, i=i: uf("aad%d" % i, 8, t), writable=False) for i, n in enumerate(an)]
    bufs = []
    for i, n in enumerate(tn):
        src = eng.alloc(S.st, n, "text%d" % i, lambda t, i=i: uf("text%d" % i, 8, t), writable=inplace)
        bufs.append((src, src if inplace else eng.alloc(S.st, n, "dst%d" % i)))

    anything = tuple(history) == ANY

    def rep(m, what):
        if anything:
            for use in ([], ["aad"], ["aad", "over", "encrypt"], ["encrypt", "final"], ["encrypt", "digest"], ["digest"]):
                rep1(m, what, [x for x in use if layer == "raw" and x != "digest" or layer == "apie" and x not in ("over", "final")], True)
            raise Unconfirmed(what)
        rep1(m, what, history, history)

    def rep1(m, what, history, used):
        ns, ts = [m(n) for n in an], [m(n) for n in tn]
        if sum(ns) + sum(ts) <= 1 << 20:
            for (k, v) in (key_iv(m, S.kn, S.vn), (lcg(32, 1), lcg(12, 2))):
                lines, want = [layer], []
                if used:
                    lines += ["I h:%s h:%s" % (lcg(32, 9).hex(), lcg(12, 8).hex())]
                    for op in history:
                        lines.append({"aad": "A h:" + lcg(9, 1).hex(), "over": "O", "encrypt": "E h:" + lcg(9, 1).hex(), "final": "F", "digest": "D 16"}[op])
                        if op == "encrypt":
                            want.append("9 " + py_aead(lcg(32, 9), lcg(12, 8), b"", lcg(9, 1))[0].hex())
                lines.append("I h:%s h:%s" % (k.hex(), v.hex()))
                for i, n in enumerate(ns):
                    lines += native(copy, at, i) + ["A h:" + lcg(n, i + 3).hex()]
                if layer == "raw" and not noover:
                    lines.append("O")
                aad = b"".join(lcg(n, i + 3) for i, n in enumerate(ns))
                text = b"".join(lcg(n, i + 33) for i, n in enumerate(ts))
                full, tag = py_aead(k, v, aad, text, "decrypt" not in ops)
                pos = 0
                for i, (op, n) in enumerate(zip(ops, ts)):
                    lines += native(copy, at, i + len(ns))
                    lines.append("%s h:%s%s" % ("E" if op == "encrypt" else "X", lcg(n, i + 33).hex(), " inplace" if inplace else ""))
                    want.append(("%d %s" % (n, full[pos:pos + n].hex())).strip() if n else "%d " % n)
                    pos += n
                lines += native(copy, at, len(ns) + len(ts))
                if layer == "raw":
                    lines.append("F")
                lines += native(copy, at, len(ns) + len(ts) + 1)
                lines.append("D 16")
                if "digest" in history:
                    pass
                else:
                    want.append("16 " + (tag + b"\xa5" * 16).hex())
                    compare(PROG, "\n".join(lines) + "\n", "\n".join(want), "%s: %s (key %d, nonce %d, associated data %s, text %s bytes)" % (layer, what, len(k), len(v), ns, ts))
                    continue
                # an earlier tag is printed as well: judge the last line only
                from sx import build
                rc, out = build.call(build.native(PROG), "\n".join(lines) + "\n", 60)
                w = "16 " + (tag + b"\xa5" * 16).hex()
                if rc or out.strip().split("\n")[-1] != w:
                    raise Violation("%s: %s after reuse; native: %s, specified %s" % (layer, what, out.strip()[-300:], w), dict(script="\n".join(lines)[:4000], got=out[-2000:], want=w, program=PROG))
        else:
            replay_big(layer, ns, ts, what, not noover)
        if not anything:
            raise Unconfirmed("%s for associated data %s, text %s" % (what, ns, ts))
    S.rep = rep
    dp = eng.alloc(S.st, 16, "tag")
    states = [S.st]
    if not anything:
        states = S.call(states, "construct", [S.h])
    num = 0
    try:
        if history and not anything:
            ok = eng.alloc(states[0], 32, "oldkey", lit_bytes("ok", 32))
            om = eng.alloc(states[0], 9, "oldmsg", lit_bytes("om", 9))
            states = S.call(states, "init", [S.h, ok, c64(32), ok, c64(12)])
            num = 1
            for op in history:
                a = {"aad": ("aad", [S.h, om, c64(9)]), "over": ("aadover", [S.h]), "encrypt": ("encrypt", [S.h, om, c64(9), om]), "final": ("final", [S.h]),
                     "digest": ("digest", [S.h, om, c64(9)])}[op]
                states = S.call(states, *a)
        first = len(states[0].events)
        if overload == "ctor":
            states = S.call(states, "cons_init", [S.h, S.kp, S.kn, S.vp, S.vn])
        else:
            states = S.call(states, "init" + overload, [S.h, S.kp, S.kn, S.vp, S.vn])
        for i, (n, p) in enumerate(zip(an, ap)):
            states, S.h = cp(i, states, S.call, S.h)
            states = S.call(states, "aad" + overload.replace("ctor", ""), [S.h, p, n])
        if layer == "raw" and not noover:
            states = S.call(states, "aadover", [S.h])
        for i, (op, n, (s, d)) in enumerate(zip(ops, tn, bufs)):
            states, S.h = cp(i + len(an), states, S.call, S.h)
            states = S.call(states, op + overload.replace("ctor", ""), [S.h, s, n, d], n)
        states, S.h = cp(len(an) + len(ops), states, S.call, S.h)
        if layer == "raw":
            states = S.call(states, "final", [S.h])
        states, S.h = cp(len(an) + len(ops) + 1, states, S.call, S.h)
        states = S.call(states, "digest", [S.h, dp, c64(16)], c64(16))
    except Misuse as e:
        def zero(x):
            return {S.kn: 32, S.vn: 12}.get(x, 5)
        rep(zero, str(e))
    aad = Seq()
    for i, n in enumerate(an):
        aad = aad + data("aad%d" % i, n)
    total = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        total += 1
        S.keys(s, num)
        pos = c64(64)
        ct = Seq()
        j = fresh("j", 64)
        for i, (op, n, (sp, d)) in enumerate(zip(ops, tn, bufs)):
            want = xor(uf("text%d" % i, 8, j), ks(num, add(pos, j)))
            S.check(s, [eq(eng.peek_at(s, d, j), want)], "output of part %d" % i, (ult(j, n),))
            if op == "encrypt":
                ct = ct + Seq([(n, lambda t, i=i, pos=pos: xor(uf("text%d" % i, 8, t), ks(num, add(pos, t))))])
            else:
                ct = ct + data("text%d" % i, n)
            pos = add(pos, n)
        fin = [(i, e) for i, e in enumerate(s.events) if e[0] == "final" and i >= first]
        if len(fin) != 1:
            raise Unsupported("%d MAC computations" % len(fin))
        i, (_, mk, mm) = fin[0]
        S.check(s, [eq(a, ks(num, c64(t))) for t, a in enumerate(padded(mk, 32))], "MAC key")
        S.same(s, mm, spec_message(aad, ct), "MAC input")
        S.check(s, [eq(eng.peek_at(s, dp, c64(t)), dig(i, c64(t))) for t in range(16)], "tag")
    ck.used(eng)
    if not S.memory():
        return False
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths" % total



# ------------------------------------------------------------------ one call forms

def one_encrypt(ck, mod, form):
    """the one call encryption equals the specification"""
    S = Setup(ck, mod, "one")
    eng, st = S.eng, S.st
    an, n = S.size("a0"), S.size("t0")
    if form != "p":
        st.assume(eq(n, c64(5)))
        n = c64(5)
    ap = eng.alloc(st, an, "aad", lambda t: uf("aad0", 8, t), writable=False)
    pp = eng.alloc(st, n, "text", lambda t: uf("text0", 8, t), writable=False)
    cp, tp = eng.alloc(st, n, "dst"), eng.alloc(st, 16, "tag")

    def rep(m, what):
        k = m(an)
        t = m(n) if form == "p" else 5
        if k + t <= 1 << 20:
            ct, tag = py_aead(lcg(32, 1), lcg(12, 2), lcg(k, 3), lcg(t, 33))
            compare(PROG, "ENC %s h:%s h:%s h:%s h:%s\n" % (form, lcg(32, 1).hex(), lcg(12, 2).hex(), lcg(k, 3).hex(), lcg(t, 33).hex()),
                    ("%s %s" % (ct.hex(), tag.hex())).strip(), "one call encryption (%s): %s (associated data %d, text %d bytes)" % (form, what, k, t))
        else:
            replay_big("apie", [k], [t], what)
        raise Unconfirmed("%s for associated data %d, text %d" % (what, k, t))
    S.rep = rep
    try:
        states = S.call([st], "encrypt_" + form, [S.kp, S.kn, S.vp, S.vn, ap, an, pp, n, cp, tp])
    except Misuse as e:
        rep(lambda x: 5, str(e))
    for s in states:
        S.keys(s)
        j = fresh("j", 64)
        S.check(s, [eq(eng.peek_at(s, cp, j), xor(uf("text0", 8, j), ks(0, add(c64(64), j))))], "ciphertext", (ult(j, n),))
        fin = [(i, e) for i, e in enumerate(s.events) if e[0] == "final"]
        if len(fin) != 1:
            raise Unsupported("%d MAC computations" % len(fin))
        i, (_, mk, mm) = fin[0]
        S.check(s, [eq(a, ks(0, c64(t))) for t, a in enumerate(padded(mk, 32))], "MAC key")
        ct = Seq([(n, lambda t: xor(uf("text0", 8, t), ks(0, add(c64(64), t))))])
        S.same(s, mm, spec_message(data("aad0", an), ct), "MAC input")
        S.check(s, [eq(eng.peek_at(s, tp, c64(t)), dig(i, c64(t))) for t in range(16)], "tag")
    ck.used(eng)
    if not S.memory():
        return False
    return "%d paths" % len(states)


# ------------------------------------------------------------------ round trip

def share_results(eng):
    """a MAC computation with the key and message of an earlier one gives the same result"""
    def final(e, s, a):
        k, key, m = eng.messages.get(e, s, a[0])
        if k != "open":
            raise Misuse("finalize after finalize")
        i = len(s.events)
        # equal to an expected message: the same as any other that is
        for ref in getattr(eng, "expected", ()):
            if same(tuple(s.conds), ref, m) is None:
                for j, x in enumerate(s.events):
                    if x[0] == "final" and x[3] is ref and same(tuple(s.conds), x[1], key) is None:
                        s.event("final", key, m, ref)
                        eng.messages.put(e, s, a[0], (j, key, m))
                        return
                s.event("final", key, m, ref)
                eng.messages.put(e, s, a[0], (i, key, m))
                return
        for j, x in enumerate(s.events):
            if x[0] == "final" and same(tuple(s.conds), x[1], key) is None and same(tuple(s.conds), x[2], m) is None:
                i = j
        s.event("final", key, m, None)
        eng.messages.put(e, s, a[0], (i, key, m))
    eng.intercept["@vm_final"] = final


def one_keystream(eng):
    """initialisations with the same key and nonce give the same keystream"""
    def init(e, s, a):
        k = piece(e, s, a[1], a[2])
        v = piece(e, s, a[3], a[4])
        old = [x for x in s.events if x[0] == "cipher"]
        n = len(old)
        for i, x in enumerate(old):
            gs = [eq(p, q) for p, q in zip(padded(x[1], 32) + padded(x[2], 16), padded(k, 32) + padded(v, 16))]
            if prove_all(s.conds, gs) is None:
                n = i
        s.event("cipher", k, v)
        e.messages.put(e, s, a[0], ("cipher", n, c64(0)))
    eng.intercept["@vc_init"] = init


def roundtrip(ck, mod, layer, na, nb, ne, nd, inplace=False, verify="pe"):
    """encrypt in ne parts with associated data in na parts; decrypt in nd and nb parts"""
    S = Setup(ck, mod, layer)
    eng, st = S.eng, S.st
    share_results(eng)
    one_keystream(eng)
    lim = 1 << 50
    av, bv = [S.size("a%d" % i, lim) for i in range(na)], [S.size("b%d" % i, lim) for i in range(nb)]
    ev, dv = [S.size("e%d" % i, lim) for i in range(ne)], [S.size("d%d" % i, lim) for i in range(nd)]

    def total(v):
        r = c64(0)
        for x in v:
            r = add(r, x)
        return r
    st.assume(eq(total(av), total(bv)))
    st.assume(eq(total(ev), total(dv)))
    # one size is determined by the others: substitute, so that sums are equal syntactically
    A, T = total(av), total(ev)
    if bv:
        bv = bv[:-1] + [sub(A, total(bv[:-1]))]
    if dv:
        dv = dv[:-1] + [sub(T, total(dv[:-1]))]
    eng.expected = [spec_message(data("aad0", A), Seq([(T, lambda t: xor(uf("text0", 8, t), ks(0, add(c64(64), t))))]))]
    aad = eng.alloc(st, A, "aad", lambda t: uf("aad0", 8, t), writable=False)
    pt = eng.alloc(st, T, "text", lambda t: uf("text0", 8, t), writable=inplace)
    ct = pt if inplace else eng.alloc(st, T, "cipher text")
    out = pt if inplace else eng.alloc(st, T, "out")
    h2 = S.obj()
    tg, er = eng.alloc(st, 16, "tag"), eng.alloc(st, 4, "error", [const(1, 8)] + [const(0, 8)] * 3)

    def rep(m, what):
        a, b, e, d = ([m(x) for x in v] for v in (av, bv, ev, dv))
        if sum(a) + sum(e) <= 1 << 20:
            ad, tx = lcg(sum(a), 3), lcg(sum(e), 33)
            k, v = lcg(32, 1), lcg(12, 2)
            full, tag = py_aead(k, v, ad, tx)
            lines, want = [], []
            for parts, cuts, src, op in ((a, e, tx, "E"), (b, d, full, "X")):
                lines += [layer, "I h:%s h:%s" % (k.hex(), v.hex())]
                p = 0
                for n in parts:
                    lines.append("A h:" + ad[p:p + n].hex())
                    p += n
                if layer == "raw":
                    lines.append("O")
                p = 0
                for n in cuts:
                    lines.append("%s h:%s%s" % (op, src[p:p + n].hex(), " inplace" if inplace else ""))
                    want.append("%d %s" % (n, (full if op == "E" else tx)[p:p + n].hex()))
                    p += n
                if layer == "raw":
                    lines.append("F")
                lines.append("D 16")
                want.append("16 " + (tag + b"\xa5" * 16).hex())
            if layer == "apie":
                lines.append("V %s h:%s" % (verify, tag.hex()))
                want.append("ok 0")
            compare(PROG, "\n".join(lines) + "\n", "\n".join(want), "%s round trip: %s (associated data %s / %s, text %s / %s)" % (layer, what, a, b, e, d))
        raise Unconfirmed("%s: associated data %s / %s, text %s / %s" % (what, a, b, e, d))
    S.rep = rep

    def run(states, h, parts, cuts, src, dst, op):
        states = S.call(states, "construct", [h])
        states = S.call(states, "init", [h, S.kp, S.kn, S.vp, S.vn])
        p = c64(0)
        for n in parts:
            states = S.call(states, "aad", [h, add(aad, p), n])
            p = add(p, n)
        if layer == "raw":
            states = S.call(states, "aadover", [h])
        p = c64(0)
        for n in cuts:
            states = S.call(states, op, [h, add(src, p), n, add(dst, p)], n)
            p = add(p, n)
        if layer == "raw":
            states = S.call(states, "final", [h])
        return states
    tg2 = eng.alloc(st, 16, "tag of decryption")
    states = [st]
    try:
        states = run(states, S.h, av, ev, pt, ct, "encrypt")
        states = S.call(states, "digest", [S.h, tg, c64(16)], c64(16))
        states = run(states, h2, bv, dv, ct, out, "decrypt")
        states = S.call(states, "digest", [h2, tg2, c64(16)], c64(16))
        if layer == "apie":
            nx = []
            for s in states:
                for o in eng.call(s, "@apie_verify_" + verify, [h2, tg, c64(16), er]):
                    if o.kind != "ret" and solve.check(list(o.st.conds)) != "unsat":
                        S.check(o.st, [tm.FALSE], "genuine tag rejected")
                    nx.append(o.st)
            states = nx
    except Misuse as e:
        rep(lambda x: 5, str(e))
    live = 0
    for s in states:
        if solve.check(list(s.conds)) == "unsat":
            continue
        live += 1
        j = fresh("j", 64)
        S.check(s, [eq(eng.peek_at(s, out, j), uf("text0", 8, j))], "decrypted byte", (ult(j, T),))
        S.check(s, [eq(x, y) for x, y in zip(eng.peek_bytes(s, tg, 16), eng.peek_bytes(s, tg2, 16))], "tag of decryption")
        if layer == "apie" and verify.endswith("e"):
            S.check(s, [eq(eng.peek(s, er, 4), const(0, 32))], "error for the genuine tag")
    ck.used(eng)
    if not S.memory():
        return False
    if not live:
        raise Unsupported("no feasible path")
    return "%d paths" % live


# ------------------------------------------------------------------ verification

def outcome(eng, o, er, e_form):
    """(verified?, what) of a finished path; verified is a term"""
    if e_form:
        if o.kind != "ret":
            return None, "ends in %s" % o.kind
        return eng.peek(o.st, er, 4), None
    if o.kind == "ret":
        return const(0, 32), None
    if o.kind == "throw":
        p, ti = o.st.exc
        if ti is not eng.gptr(o.st, "@_ZTIN4milo5errorE"):
            return None, "throws something that is not milo::error"
        return eng.peek(o.st, p, 4), None
    return None, "ends in %s" % o.kind


def verify(ck, mod, form, cap=40):
    """every verification form on an object that authenticated symbolic data"""
    S = Setup(ck, mod, "apie")
    eng, st = S.eng, S.st
    an, tn = S.size("a0"), S.size("t0")
    ap = eng.alloc(st, an, "aad", lambda t: uf("aad0", 8, t), writable=False)
    tp = eng.alloc(st, tn, "text", lambda t: uf("text0", 8, t), writable=False)
    dp = eng.alloc(st, tn, "dst")
    gv = var("tag_n", 8)
    gn = tm.zext(gv, 64)
    st.assume(ule(gn, c64(cap)))
    gp = eng.alloc(st, gn, "given", lambda t: uf("given", 8, t), writable=False)
    er = eng.alloc(st, 4, "error", [const(1, 8)] + [const(0, 8)] * 3)
    kinds = {"real": None}

    def rep(m, what):
        n = m(gv)
        aad, tx = lcg(min(m(an), 999), 3), lcg(min(m(tn), 999), 33)
        k, v = lcg(32, 1), lcg(12, 2)
        _, tag = py_aead(k, v, aad, tx, False)
        # the same relation between the given and the real tag as in the model, and single bit differences
        cur = kinds["real"]
        rel = [(m(uf("given", 8, c64(i))) ^ (m(cur(i)) if cur else 0)) if i < 16 else 0 for i in range(n)]
        cands = [bytes((tag[i] if i < 16 else 0) ^ rel[i] for i in range(n)), (tag + bytes(cap))[:n]]
        cands += [bytes(x ^ (1 << (i % 8) if j == i else 0) for j, x in enumerate(tag)) for i in range(16)]
        cands += [tag[:15], b"", tag + b"\0", tag[:8]]
        # a bit left out of the comparison
        cands += [bytes(x ^ (1 << b if j == i else 0) for j, x in enumerate(tag)) for i in (0, 7, 15) for b in range(8)]
        for c in cands:
            word = "ok 0" if c == tag else ("err 2" if form.rstrip("c").endswith("e") else "throw 2")
            lines = ["apie", "I h:%s h:%s" % (k.hex(), v.hex()), "A h:" + aad.hex(), "X h:" + tx.hex(), "V %s h:%s" % (form, c.hex())]
            compare(PROG, "\n".join(lines) + "\n", "%d %s\n%s" % (len(tx), py_aead(k, v, aad, tx, False)[0].hex(), word) if tx else "0 \n" + word,
                    "verification (%s) %s: presented tag differs from the computed one at %s, size %d" % (form, what, [i for i, x in enumerate(c[:16]) if x != tag[i]], len(c)))
        raise Unconfirmed(what)
    S.rep = rep
    e_form = form.rstrip("c").endswith("e")
    states = [st]
    try:
        states = S.call(states, "construct", [S.h])
        states = S.call(states, "init", [S.h, S.kp, S.kn, S.vp, S.vn])
        states = S.call(states, "aad", [S.h, ap, an])
        states = S.call(states, "decrypt", [S.h, tp, tn, dp], tn)
        outs = []
        for s in states:
            outs += eng.call(s, "@apie_verify_" + form, [S.h, gp, gn, er])
    except Misuse as e:
        rep(lambda x: 5, str(e))
    n = 0
    for o in outs:
        s = o.st
        if solve.check(list(s.conds)) == "unsat":
            continue
        n += 1
        code, bad = outcome(eng, o, er, e_form)
        if bad:
            rep(solve.check(list(s.conds)), bad)
        fin = [i for i, e in enumerate(s.events) if e[0] == "final"]
        if len(fin) != 1:
            rep(solve.check(list(s.conds)), "%d MAC computations" % len(fin))
        i = fin[0]
        kinds["real"] = lambda t, i=i: dig(i, c64(t))
        good = and_(eq(gn, c64(16)), *[eq(uf("given", 8, c64(t)), dig(i, c64(t))) for t in range(16)])
        S.check(s, [eq(code, ite(good, const(0, 32), const(2, 32)))], "outcome")
    ck.used(eng)
    if not S.memory():
        return False
    if not n:
        raise Unsupported("no feasible path")
    return "%d paths" % n


def one_decrypt(ck, mod, form, n=5):
    """one call decryption: text of n bytes, every associated data size, presented tags of any size to 40"""
    S = Setup(ck, mod, "one")
    eng, st = S.eng, S.st
    an = S.size("a0")
    ap = eng.alloc(st, an, "aad", lambda t: uf("aad0", 8, t), writable=False)
    tn = c64(n)
    tp = eng.alloc(st, n, "text", lambda t: uf("text0", 8, t), writable=False)
    dp = eng.alloc(st, n, "dst")
    gv = var("tag_n", 8)
    gn = tm.zext(gv, 64)
    st.assume(ule(gn, c64(40)))
    gp = eng.alloc(st, gn, "given", lambda t: uf("given", 8, t), writable=False)
    er = eng.alloc(st, 4, "error", [const(1, 8)] + [const(0, 8)] * 3)
    kinds = {}

    def rep(m, what):
        g = m(gv)
        aad, tx = lcg(min(m(an), 999), 3), lcg(n, 33)
        k, v = lcg(32, 1), lcg(12, 2)
        out, tag = py_aead(k, v, aad, tx, False)
        cur = kinds.get("real")
        rel = [(m(uf("given", 8, c64(i))) ^ (m(cur(i)) if cur else 0)) if i < 16 else 0 for i in range(g)]
        cands = [bytes((tag[i] if i < 16 else 0) ^ rel[i] for i in range(g)), (tag + bytes(40))[:g], tag]
        cands += [bytes(x ^ (1 << (i % 8) if j == i else 0) for j, x in enumerate(tag)) for i in range(16)] + [tag[:15], b"", tag + b"\0"]
        for c in cands:
            if c == tag:
                word = "ok 0"
            else:
                word = "err 2" if form[1] == "e" else "throw 2"
            line = "DEC %s h:%s h:%s h:%s h:%s h:%s\n" % (form, k.hex(), v.hex(), aad.hex(), tx.hex(), c.hex())
            exes = []
            from sx import build
            rc, got = build.call(build.native(PROG), line, 60)
            ls = got.strip().split("\n")
            bad = rc != 0 or ls[0] != word or (c == tag and not ls[1].startswith(out.hex()))
            if bad:
                raise Violation("one call decryption (%s): %s; native: exit %s, %s, specified %s %s (presented tag %s, computed tag %s)" % (form, what, rc, got[:200], word, out.hex(), c.hex(), tag.hex()),
                                dict(script=line, got=got[:500], want=word, rc=rc, program=PROG))
        raise Unconfirmed(what)
    S.rep = rep
    e_form = form[1] == "e"
    try:
        outs = eng.call(st, "@one_decrypt_" + form, [S.kp, S.kn, S.vp, S.vn, ap, an, tp, tn, gp, gn, dp, er])
    except Misuse as e:
        rep(lambda x: 5, str(e))
    live = 0
    for o in outs:
        s = o.st
        if solve.check(list(s.conds)) == "unsat":
            continue
        live += 1
        code, bad = outcome(eng, o, er, e_form)
        if bad:
            rep(solve.check(list(s.conds)), bad)
        S.keys(s)
        fin = [(i, e) for i, e in enumerate(s.events) if e[0] == "final"]
        if len(fin) != 1:
            rep(solve.check(list(s.conds)), "%d MAC computations" % len(fin))
        i, (_, mk, mm) = fin[0]
        kinds["real"] = lambda t, i=i: dig(i, c64(t))
        good = and_(eq(gn, c64(16)), *[eq(uf("given", 8, c64(t)), dig(i, c64(t))) for t in range(16)])
        S.check(s, [eq(code, ite(good, const(0, 32), const(2, 32)))], "outcome")
        S.check(s, [eq(a, ks(0, c64(t))) for t, a in enumerate(padded(mk, 32))], "MAC key")
        S.same(s, mm, spec_message(data("aad0", an), data("text0", tn)), "MAC input")
        if o.kind == "ret":
            S.check(s, [eq(o.val, tn)] + [eq(eng.peek_at(s, dp, c64(t)), xor(uf("text0", 8, c64(t)), ks(0, c64(64 + t)))) for t in range(n)], "plaintext")
    ck.used(eng)
    if not S.memory():
        return False
    if not live:
        raise Unsupported("no feasible path")
    return "%d paths" % live
