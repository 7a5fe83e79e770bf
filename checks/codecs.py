"""Base-16 and base-64."""
import base64
import time

from sx import build, loops, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, mul, not_, or_, sub, uf, ule, ult, var, concat, zext

from .msg import c64, prove_all
from .util import compare, conc, contract, eq_bytes, sym

ERR = {"b16": 6, "b64": 4}
REPORTS = ("dec", "decu", "decc")      # overloads that return a size along with an error


def c8(x):
    return const(ord(x) if isinstance(x, str) else x, 8)


def rng(c, lo, hi):
    return and_(ule(c8(lo), c), ule(c, c8(hi)))


def lookup16(v):
    """4-bit value to its digit"""
    x = tm.zext(v, 8)
    return ite(ult(v, const(10, v.w)), add(x, c8("0")), add(x, c8(ord("a") - 10)))


def value16(c):
    """(is a digit, value)"""
    d, u, l = rng(c, "0", "9"), rng(c, "A", "F"), rng(c, "a", "f")
    v = ite(d, sub(c, c8("0")), ite(u, sub(c, c8(ord("A") - 10)), sub(c, c8(ord("a") - 10))))
    return or_(d, u, l), extract(v, 3, 0)


ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def lookup64(v):
    r = c8(ALPHABET[63])
    for i in range(62, -1, -1):
        r = ite(eq(v, const(i, 6)), c8(ALPHABET[i]), r)
    return r


def value64(c):
    ok = tm.FALSE
    v = const(0, 6)
    for i, ch in enumerate(ALPHABET):
        ok = or_(ok, eq(c, c8(ch)))
        v = ite(eq(c, c8(ch)), const(i, 6), v)
    return ok, v


def spec_encode(codec, bs):
    if codec == "b16":
        return [lookup16(extract(b, h, l)) for b in bs for h, l in ((7, 4), (3, 0))]
    out = []
    for i in range(0, len(bs), 3):
        g = bs[i:i + 3]
        n = len(g)
        x = concat(*(g + [c8(0)] * (3 - n)))
        cs = [lookup64(extract(x, 23 - 6 * k, 18 - 6 * k)) for k in range(4)]
        out += cs[:n + 1] + [c8("=")] * (3 - n)
    return out


def spec_decode(codec, cs):
    """[(condition, bytes)] for the well-formed shapes, and the condition of being malformed"""
    n = len(cs)
    if codec == "b16":
        vs = [value16(c) for c in cs]
        ok = and_(tm.TRUE, *[o for o, _ in vs])
        out = []
        k = n & 1
        if k:
            out.append(tm.zext(vs[0][1], 8))
        for i in range(k, n, 2):
            out.append(concat(vs[i][1], vs[i + 1][1]))
        return [(ok, out)], not_(ok)
    if n % 4:
        return [], tm.TRUE
    if n == 0:
        return [(tm.TRUE, [])], tm.FALSE
    vs = [value64(c) for c in cs]
    pad = [eq(c, c8("=")) for c in cs]
    body = and_(tm.TRUE, *[o for o, _ in vs[:-2]])
    full = concat(*[v for _, v in vs])
    by = [extract(full, 6 * n - 1 - 8 * i, 6 * n - 8 - 8 * i) for i in range(6 * n // 8)]
    alts = [(and_(body, vs[-2][0], vs[-1][0]), by),
            (and_(body, vs[-2][0], pad[-1]), by[:-1]),
            (and_(body, pad[-2], pad[-1]), by[:-2])]
    return alts, not_(or_(*[c for c, _ in alts]))


def py_encode(codec, b):
    return b.hex().encode() if codec == "b16" else base64.b64encode(b)


def py_decode(codec, t):
    """bytes, or None when malformed"""
    if codec == "b16":
        if any(c not in b"0123456789abcdefABCDEF" for c in t):
            return None
        s = t.decode()
        return bytes.fromhex("0" + s if len(s) % 2 else s)
    if len(t) % 4:
        return None
    if not t:
        return b""
    k = 2 if t.endswith(b"==") else 1 if t.endswith(b"=") else 0
    body = t[:len(t) - k]
    if any(c not in ALPHABET.encode() for c in body):
        return None
    return base64.b64decode(t)


def replay_decode(codec, fn, t, what):
    """the text through the native build"""
    w = py_decode(codec, t)
    exe = build.native("drv_codec.cpp")
    from .util import native_san
    for x in (exe, native_san("drv_codec.cpp")):
        rc, out = build.call(x, "%s_%s h:%s\n" % (codec, fn, t.hex()))
        f = out.split()
        rep = dict(codec=codec, function=fn, text=t.hex(), got=out, key="decode")
        if rc != 0 or len(f) < 2:
            raise Violation("%s decoding %r: exit %s (%s)" % (codec, t, rc, what), rep)
        by = bytes.fromhex(f[2]) if len(f) > 2 else b""
        if w is not None:
            if (int(f[0]), int(f[1]), by) != (len(w), 0, w):
                raise Violation("%s decoding %r gives size %s error %s bytes %s, specified %s" % (codec, t, f[0], f[1], by.hex(), w.hex()), rep)
        else:
            if int(f[1]) != ERR[codec]:
                raise Violation("%s decoding malformed %r gives size %s error %s bytes %s" % (codec, t, f[0], f[1], by.hex()), rep)
            n = int(f[0])
            # what is reported as decoded before the error must be the decoded leading groups
            k = len(t) & 1 if codec == "b16" else 0
            good = b""
            for i in range(0, len(t) + 1):
                e = (2 * i + k) if codec == "b16" else 4 * i
                if e > len(t):
                    break
                g = py_decode(codec, t[:e])
                if g is None:
                    break
                good = g
            if n > len(good) or by[:n] != good[:n] or (codec == "b16" and fn in REPORTS and n != len(good)):
                raise Violation("%s decoding malformed %r reports %d bytes %s decoded before the error; the well-formed beginning is %s" % (
                    codec, t, n, by.hex(), good.hex()), rep)


def encode(ck, mod, codec, fn, n):
    bs = sym("b", n)
    want = spec_encode(codec, bs)

    def setup(eng, st):
        src = eng.alloc(st, n, "from", bs, writable=False)
        dst = eng.alloc(st, len(want), "to")
        return [src, c64(n), dst], dst

    def goals(eng, o, dst):
        return [(eq(o.val, c64(len(want))), "returned size")] + eq_bytes(eng, o.st, dst, want, "character")

    def replay(m, ctx, what):
        b = conc(m, bs)
        w = py_encode(codec, b)
        compare("drv_codec.cpp", "%s_%s h:%s\n" % (codec, fn, b.hex()), "%d -1 %s" % (len(w), w.hex()) if w else "0 -1", what)
    return contract(ck, mod, "@%s_%s" % (codec, fn), setup, goals, replay)


def out_cap(codec, n):
    return (n + 1) // 2 if codec == "b16" else n // 4 * 3


def decode(ck, mod, codec, fn, n):
    """every text of n characters"""
    cs = sym("c", n)
    alts, bad = spec_decode(codec, cs)
    # destination exactly as large as the size query says, for each answer it can give
    e0 = Engine(mod)
    s0 = e0.new_state()
    t0 = e0.alloc(s0, n, "text", cs, writable=False)
    paths = 0
    for q in e0.call(s0, "@%s_decsize" % codec, [t0, c64(n)]):
        for s1, cap in e0.enumerate(q.st, q.val):
            paths += decode_cap(ck, mod, codec, fn, n, cs, alts, bad, cap, s1.conds)
    return "%d paths" % paths


def decode_cap(ck, mod, codec, fn, n, cs, alts, bad, cap, conds):
    npaths = [0]

    def setup(eng, st):
        for c in conds:
            st.assume(c)
        src = eng.alloc(st, n, "text", cs, writable=False)
        dst = eng.alloc(st, cap, "to")
        er = eng.alloc(st, 4, "err")
        return [src, c64(n), dst, er], (dst, er)

    def goals(eng, o, ctx):
        npaths[0] += 1
        dst, er = ctx
        g = []
        code = eng.peek(o.st, er, 4)
        g.append((eq(eq(code, const(0, 32)), not_(bad)), "accepted exactly when well-formed"))
        g.append((or_(eq(code, const(0, 32)), eq(code, const(ERR[codec], 32))), "error code"))
        for c, by in alts:
            ok = eq(o.val, c64(len(by)))
            if len(by) > cap:
                g.append((not_(c), "room for the decoded bytes"))
                continue
            for i, b in enumerate(by):
                ok = and_(ok, eq(eng.peek_at(o.st, dst, c64(i)), b))
            g.append((or_(not_(c), ok), "decoded bytes"))
        if fn in REPORTS:
            # bytes reported before an error are decoded leading groups
            k = n & 1 if codec == "b16" else 0
            grp, per = (2, 1) if codec == "b16" else (4, 3)
            j = 0
            sizes = []
            while grp * j + k <= n:
                sizes.append((grp * j + k, per * j + k))
                j += 1
            g.append((or_(not_(bad), *[eq(o.val, c64(s)) for _, s in sizes], eq(o.val, c64(0))), "size on error"))
            if codec == "b16":
                # exactly the bytes in front of the first foreign character
                for e, s in sizes:
                    ok = spec_decode(codec, cs[:e])[0][0][0]
                    after = spec_decode(codec, cs[:e + 2])[0][0][0] if e + 2 <= n else tm.TRUE
                    g.append((or_(not_(and_(ok, not_(after))), eq(o.val, c64(s))), "size on error"))
                if k:
                    g.append((or_(value16(cs[0])[0], eq(o.val, c64(0))), "size on error"))
            for e, s in sizes:
                if s == 0 or s > cap:
                    if s > cap:
                        g.append((or_(not_(bad), not_(eq(o.val, c64(s)))), "size on error"))
                    continue
                al, _ = spec_decode(codec, cs[:e])
                c, by = al[0]
                ok = c
                for i, b in enumerate(by):
                    ok = and_(ok, eq(eng.peek_at(o.st, dst, c64(i)), b))
                g.append((or_(not_(bad), not_(eq(o.val, c64(s))), ok), "bytes before the error"))
        return g

    def replay(m, ctx, what):
        replay_decode(codec, fn, conc(m, cs), what)
    contract(ck, mod, "@%s_%s" % (codec, fn), setup, goals, replay)
    return npaths[0]


def round_trip(ck, mod, codec, n):
    """decode(encode(x)) = x, run together"""
    bs = sym("b", n)
    eng = Engine(mod)
    st = eng.new_state()
    m = len(spec_encode(codec, bs))
    src = eng.alloc(st, n, "from", bs, writable=False)
    mid = eng.alloc(st, m, "text")
    dst = eng.alloc(st, n, "to")
    er = eng.alloc(st, 4, "err")
    k = 0
    for o in eng.call(st, "@%s_enc" % codec, [src, c64(n), mid]):
        for o2 in eng.call(o.st, "@%s_dec" % codec, [mid, o.val, dst, er]):
            k += 1
            g = [eq(o2.val, c64(n)), eq(eng.peek(o2.st, er, 4), const(0, 32))]
            g += [eq(eng.peek_at(o2.st, dst, c64(i)), b) for i, b in enumerate(bs)]
            r = prove_all(o2.st.conds, g)
            if r is not None:
                b = conc(r[1], bs)
                t = py_encode(codec, b)
                compare("drv_codec.cpp", "%s_enc h:%s\n" % (codec, b.hex()), "%d -1 %s" % (len(t), t.hex()), "round trip: encoding")
                replay_decode(codec, "dec", t, "round trip")
                raise Unconfirmed("round trip of %s" % b.hex())
    ck.used(eng)
    return "%d paths" % k


# ------------------------------------------------------------------ any length

LIMITS = (8, 40, 300, 800, 3000, 1 << 17, 1 << 18, 1 << 20, 1 << 22)


class Any:
    """one loop of a codec function over a text of symbolic length: groups of `grp` input characters become `per`
    output characters, after `lead` / `first` of them, the remaining `tail` input characters come last"""

    def __init__(self, ck, mod, codec, fn, r):
        self.ck, self.codec, self.fn, self.r = ck, codec, fn, r
        self.enc = fn.startswith("enc")
        self.q = zext(var("Q", 40), 64)            # number of full groups
        if codec == "b16":
            self.grp, self.per, self.div = (1, 2, 1) if self.enc else (2, 1, 2)
        else:
            self.grp, self.per, self.div = (3, 4, 3) if self.enc else (4, 3, 4)
        self.n = add(mul(self.q, c64(self.div)), c64(r))
        self.eng = eng = Engine(mod, merge=False)
        eng.deadline = time.time() + 120
        if self.div == 3:
            eng.rewrite = {tm.udiv(self.n, c64(3)): self.q, tm.urem(self.n, c64(3)): c64(r)}
        self.lead = r if codec == "b16" and not self.enc else 0
        cap = mul(self.q, c64(self.per))
        if self.enc:
            cap = add(cap, c64(4 if r and codec == "b64" else 0))
        else:
            cap = add(cap, c64(self.lead))
        eng.base_conds = [or_(ult(c64(0), self.n), eq(self.n, c64(0)))]
        st = eng.new_state()
        self.src = eng.alloc(st, self.n, "text", lambda o: uf("src", 8, o), writable=False)
        self.dst = eng.alloc(st, cap, "to", lambda o: uf("old", 8, o))
        self.er = None if self.enc else eng.alloc(st, 4, "err")
        self.args = [self.src, self.n, self.dst] + ([] if self.enc else [self.er])
        self.st = st

    # -- specification
    def ch(self, g, j):
        """character j of input group g"""
        return uf("src", 8, add(c64(self.lead + j), mul(g, c64(self.grp))))

    def at(self, g, j=0):
        """offset of output character j of group g"""
        return add(c64(self.lead + j), mul(g, c64(self.per)))

    def group(self, g):
        """(well-formed, output) of full group g"""
        cs = [self.ch(g, j) for j in range(self.grp)]
        if self.enc:
            return tm.TRUE, spec_encode(self.codec, cs)
        if self.codec == "b16":
            return spec_decode("b16", cs)[0][0]
        return spec_decode("b64", cs)[0][0]

    def holds(self, s, g, by):
        return and_(tm.TRUE, *[eq(self.eng.peek_at(s, self.dst, self.at(g, j)), b) for j, b in enumerate(by)])

    def first(self, s):
        """the odd leading digit of base-16"""
        if not self.lead:
            return tm.TRUE, tm.TRUE
        (ok, by), = spec_decode("b16", [uf("src", 8, c64(0))])[0]
        return ok, eq(self.eng.peek_at(s, self.dst, c64(0)), by[0])

    # -- verdicts
    def n_groups(self, n):
        return max(1, n // self.grp)

    def native(self, m):
        n = m(self.n)
        cases = []
        if self.enc:
            x = bytearray((i * 37 + (i >> 8) * 11 + 5) & 255 for i in range(n))
            cases = [bytes(x)]
        else:
            good = (b"0123456789abcdefABCDEF" if self.codec == "b16" else ALPHABET.encode())
            x = bytearray(good[(i * 7 + i // 5) % len(good)] for i in range(n))
            cases = [bytes(x)]
            kt = self.k if self.k is not None else c64(0)
            k = m(kt)
            at = {k + d: add(kt, c64(d)) for d in (0, 1)}
            at.setdefault(self.n_groups(n) - 1, c64(self.n_groups(n) - 1))
            for g, t in at.items():
                both = bytearray(x)
                for j in range(self.grp):
                    p = self.lead + g * self.grp + j
                    if 0 <= p < n:
                        y = bytearray(x)
                        y[p] = both[p] = m(self.ch(t, j))
                        cases.append(bytes(y))
                cases.append(bytes(both))
        return list(dict.fromkeys(cases))

    def refute(self, conds, what):
        """natively confirm, or return"""
        for lim in LIMITS:
            m = solve.check(list(conds) + [ule(self.n, c64(lim))], 30)
            if m in ("unsat", "unknown"):
                continue
            for t in self.native(m):
                if self.enc:
                    w = py_encode(self.codec, t)
                    compare("drv_codec.cpp", "%s_%s h:%s\n" % (self.codec, self.fn, t.hex()),
                            "%d -1 %s" % (len(w), w.hex()) if w else "0 -1", "%s (%d bytes)" % (what, len(t)))
                else:
                    replay_decode(self.codec, self.fn, t, "%s (%d characters)" % (what, len(t)))
            return

    def need(self, conds, g, what):
        if g is tm.TRUE:
            return
        r = solve.check(list(conds) + [not_(g)], 60)
        if r == "unsat":
            return
        if r != "unknown":
            self.refute(list(conds) + [not_(g)], what)
        raise loops.Broken(what)

    def only(self, head, s, base, count):
        """what the path wrote to the destination lies in count characters from base"""
        a, b = self.eng.obj(head, self.dst), self.eng.obj(s, self.dst)
        t = fresh("t", 64)
        for g, start, ln, fn in b.log[len(a.log):] if b.log[:len(a.log)] == a.log else b.log:
            self.need(s.conds, or_(not_(and_(g, ult(sub(t, start), ln))), ult(sub(t, base), count)), "writes elsewhere")

    def finish(self, s, val, k, known):
        """the function returns with every group below k handled"""
        q, need = self.q, self.need
        if self.enc:
            left = None
            for d in (0, 1):
                if solve.check(list(s.conds) + [not_(eq(q, add(k, c64(d))))]) == "unsat":
                    left = d
                    break
            if left is None:
                need(s.conds, or_(eq(q, k), eq(q, add(k, c64(1)))), "number of groups")
                raise loops.Broken("number of groups")
            for d in range(left):
                g = add(k, c64(d))
                need(s.conds, self.holds(s, g, self.group(g)[1]), "group")
            end = add(k, c64(left))
            size = mul(end, c64(self.per))
            if self.r:
                by = spec_encode(self.codec, [self.ch(end, j) for j in range(self.r)])
                need(s.conds, self.holds(s, end, by), "last characters")
                size = add(size, c64(len(by)))
            need(s.conds, eq(val, size), "returned size")
            return
        code = self.eng.peek(s, self.er, 4)
        c0, c1 = [list(s.conds) + [x] for x in (eq(code, const(0, 32)), not_(eq(code, const(0, 32))))]
        fo, fv = self.first(s)
        w = [self.group(add(k, c64(d))) for d in (0, 1)]
        here = [self.holds(s, add(k, c64(d)), w[d][1]) for d in (0, 1)]
        one, two = c64(1), c64(2)
        def lastq(g):
            """(alternatives, malformed) of the last quartet"""
            return spec_decode("b64", [self.ch(g, j) for j in range(4)])
        good = [and_(fo, fv)] if not known else [tm.TRUE]
        # accepted: everything up to the end is well-formed and decoded
        if solve.check(c0, 30) != "unsat":
            if self.codec == "b16":
                g = and_(good[0], or_(and_(eq(k, q), eq(val, add(q, c64(self.lead)))),
                                      and_(eq(add(k, one), q), w[0][0], here[0], eq(val, add(q, c64(self.lead))))))
            else:
                def closing(x):
                    alts, _ = lastq(x)
                    return or_(*[and_(c, eq(val, add(mul(x, c64(3)), c64(len(by)))), self.holds(s, x, by)) for c, by in alts])
                g = or_(and_(eq(add(k, one), q), closing(k)),
                        and_(eq(add(k, two), q), w[0][0], here[0], closing(add(k, one))))
                if not known:
                    g = or_(g, and_(eq(q, c64(0)), eq(val, c64(0))))
            need(c0, g, "accepted")
        if solve.check(c1, 30) != "unsat":
            need(c1, eq(code, const(ERR[self.codec], 32)), "error code")
            # refused: something here is malformed, and the reported size covers only decoded groups
            def badat(x):
                if self.codec == "b16":
                    return and_(ult(x, q), not_(self.group(x)[0]))
                return or_(and_(ult(add(x, one), q), not_(self.group(x)[0])), and_(eq(add(x, one), q), lastq(x)[1]))
            bad = or_(badat(k), badat(add(k, one)))
            sizes = [eq(val, c64(0)), and_(eq(val, self.at(k)), good[0]), and_(eq(val, self.at(add(k, one))), good[0], w[0][0], here[0])]
            if self.codec == "b16":
                sizes = [and_(badat(k), eq(val, self.at(k)), good[0]), and_(w[0][0], here[0], badat(add(k, one)), eq(val, self.at(add(k, one))), good[0])]
            if not known:
                bad = or_(bad, not_(fo))
                sizes.append(and_(not_(fo), eq(val, c64(0))))
            need(c1, bad, "refused")
            need(c1, or_(*sizes), "size on error")

    def refused(self, o):
        """a base-64 text whose length is not a multiple of four"""
        self.need(o.st.conds, eq(self.eng.peek(o.st, self.er, 4), const(ERR["b64"], 32)), "refused")
        self.need(o.st.conds, eq(o.val, c64(0)), "size on error")

    def run(self):
        eng, q = self.eng, self.q
        self.k, self.tried = None, []
        f, h, heads, outs = loops.run_to_head(eng, self.st, "@%s_%s" % (self.codec, self.fn), self.args)
        paths = 0
        for o in outs:
            paths += 1
            if o.kind != "ret":
                raise loops.Broken(o.kind)
            if self.r and self.codec == "b64" and not self.enc:
                self.refused(o)
            else:
                self.finish(o.st, o.val, c64(0), False)
        if self.r and self.codec == "b64" and not self.enc and not heads:
            self.ck.used(eng)
            return "%d paths" % paths
        if not heads:
            raise loops.Broken("the loop is never reached")

        def havoc(g, o, k):
            o.init = lambda off: uf("sofar", 8, off)
            o.log = ()
        if self.r and self.codec == "b64" and not self.enc:
            raise loops.Broken("malformed length reaches the loop")
        for e0 in heads:
            fo, fv = self.first(e0)
            self.need(e0.conds, and_(fo, fv), "first digit")
            it = None
            for d0, m, rel in [(d, m, rel) for m in ((sub(q, c64(1)), q) if self.codec == "b64" and not self.enc else (q,))
                               for rel in (ult, ule) for d in (0, 1, 2)]:
                if loops.implies(eng, e0.conds, rel(c64(0), m)) is not True:
                    continue
                flags = []

                def flag(n, p0, k):
                    """a one-bit location that says whether another group follows"""
                    if p0.w != 1 or p0.op == "const":
                        return None
                    for c in (lambda x: ult(add(x, c64(d0)), q), lambda x: ule(q, add(x, c64(d0)))):
                        if loops.implies(eng, e0.conds, eq(p0, c(c64(0)))) is True:
                            flags.append((n, c))
                            return c(k)
                    return None
                before = list(eng.problems)
                t = loops.generic_iteration(eng, e0, f, h, havoc_log=havoc, guess=flag, assume=lambda k: and_(ult(k, c64(1 << 41)), rel(k, m)))
                self.k = t.k
                nxt = add(t.k, c64(1))
                bad = [list(b.conds) + [not_(x)] for b in t.backs
                       for x in [rel(nxt, m)] + [eq(b.frames[-1].env[n], c(nxt)) for n, c in flags]
                       if loops.implies(eng, b.conds, x) is not True]
                if t.affine_ok and not bad:
                    it = t
                    break
                eng.problems[:] = before
                self.tried.append((t, bad))
            if it is None:
                raise loops.Broken("no counting invariant")
            k = self.k = it.k
            for b in it.backs:
                paths += 1
                ok, by = self.group(k)
                self.need(b.conds, and_(ok, self.holds(b, k, by)), "group")
                self.only(it.head, b, self.at(k), c64(self.per))
            for o in it.outs:
                paths += 1
                if o.kind != "ret":
                    raise loops.Broken(o.kind)
                self.finish(o.st, o.val, k, True)
                self.only(it.head, o.st, self.at(k), c64(1 << 44))
        for p in eng.problems:
            self.refute(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), "memory: " + p["msg"])
            raise loops.Broken("memory: " + p["msg"])
        self.ck.used(eng)
        return "%d paths" % paths


def any_length(ck, mod, codec, fn, r):
    a = Any(ck, mod, codec, fn, r)
    try:
        d = a.run()
    except (loops.Broken, Unsupported) as e:
        # an invariant that the code leaves may be a real miscount
        for t, bad in a.tried:
            a.k = t.k
            for b in bad:
                a.refute(b, "number of groups")
        return "bounded lengths only: " + str(e)
    ck.bound("%s %s: every length below 2^40 groups, by induction over the loop" % (codec, fn))
    return d


def any_jobs(ck, mod, codec, op):
    """the lengths by their remainder; malformed base-64 lengths are covered by the bounded jobs"""
    rs = (0,) if codec == "b16" and op == "enc" else (0, 1) if codec == "b16" else (0, 1, 2) if op == "enc" else (0, 1, 2, 3)
    return [("%s %s, any length, remainder %d" % (codec, fn, r), any_length, ck, mod, codec, fn, r)
            for r in rs for fn in (op, op + "u")]
