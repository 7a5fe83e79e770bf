"""Codec size queries are exact for every size; encoding and decoding stay within them."""
from sx import build, solve, terms as tm
from sx.exec import Engine
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, fresh, ite, not_, or_, sub, uf, ule, ult, var
from . import codecs
from .msg import c64
from .util import contract


def native_sizes(codec, n, tail=b""):
    """sizes reported by the native build for an input of n bytes (zeros)"""
    exe = build.native("drv_codec.cpp")
    src = "h:%s" % tail.hex() if n <= 4096 else "z:%d" % n
    rc, out = build.call(exe, "%s_sizes %s\n" % (codec, src))
    return rc, out.strip()


def spec_sizes(codec, n, tail):
    if codec == "b16":
        return 2 * n, (n + 1) // 2
    pad = 0
    if n > 1 and tail[-1:] == b"=":
        pad = 1 + (n > 2 and tail[-2:-1] == b"=")
    return (n + 2) // 3 * 4, n * 3 // 4 - pad


def sizes(ck, mod, codec, which):
    n = var("n", 64)
    q, r = var("q", 64), var("r", 64)
    lim = 1 << 61

    def run(conds, nt, want, exact):
        def setup(eng, st):
            st.assume(ult(nt, c64(lim)))
            for c in conds:
                st.assume(c)
            src = eng.alloc(st, nt, "text", lambda t: uf("text", 8, t), writable=False)
            return [src, nt], None

        def goals(eng, o, ctx):
            w = want
            if which == "decsize" and codec == "b64":
                p = eq(uf("text", 8, sub(nt, c64(1))), const(0x3d, 8))
                p2 = eq(uf("text", 8, sub(nt, c64(2))), const(0x3d, 8))
                # a well-formed text: whole groups
                w = ite(eq(nt, c64(0)), c64(0), sub(w, ite(p, ite(p2, c64(2), c64(1)), c64(0))))
            return [(eq(o.val, w), "size")]

        def replay(m, ctx, what):
            v = m(nt)
            if v > 1 << 45:
                v = v % (1 << 45)
                v -= v % 12
                v += m(nt) % 12
            tail = bytes(m(uf("text", 8, c64((m(nt) - min(v, 64) + i) & ((1 << 64) - 1)))) for i in range(min(v, 64)))
            for x in sorted({v, v % 4096, v % (1 << 33)}):
                t = (b"A" * x)[:x - len(tail)] + tail[-x:] if x <= 4096 and x else b"" if not x else b"\0"
                if x <= 4096:
                    t = (b"A" * max(0, x - len(tail)) + tail)[:x]
                if codec == "b64" and which == "decsize" and x % 4:
                    continue
                rc, out = native_sizes(codec, x, t)
                e, d = spec_sizes(codec, x, t)
                got = out.split()
                if rc != 0 or int(got[0 if which == "encsize" else 1]) != (e if which == "encsize" else d):
                    raise Violation("%s %s of %d bytes is %s, specified %s" % (codec, which, x, out, (e, d)),
                                    dict(codec=codec, n=x, got=out, want=[e, d]))
        return contract(ck, mod, "@%s_%s" % (codec, which), setup, goals, replay, timeout=200)
    if codec == "b16":
        want = tm.mul(n, c64(2)) if which == "encsize" else add(tm.lshr_c(n, 1), tm.zext(tm.extract(n, 0, 0), 64))
        return run([], n, want, True)
    if which == "encsize":
        # n = 3q + r
        for k in range(3):
            run([ult(q, c64(lim // 3 - 1))], add(tm.mul(q, c64(3)), c64(k)), add(tm.mul(q, c64(4)), c64(4 if k else 0)), True)
        return "every size below 2^61"
    run([ult(q, c64(lim // 4 - 1))], tm.shl_c(q, 2), tm.mul(q, c64(3)), True)
    return "every well-formed length below 2^61"


def bounded(ck, mod, codec, n):
    """the size query is never smaller than what decoding stores: covered by exact destinations"""
    for fn in ("dec", "decu"):
        codecs.decode(ck, mod, codec, fn, n)
    for fn in ("enc", "encu"):
        codecs.encode(ck, mod, codec, fn, n)
    return "destinations exactly as large as the size queries say"


def run(ck):
    mod = build.module("codec.cpp")
    jobs = []
    for c in ("b16", "b64"):
        for w in ("encsize", "decsize"):
            jobs.append(("%s %s" % (c, w), sizes, ck, mod, c, w))
        for n in range(0, 10 if not ck.thorough() else 24):
            jobs.append(("%s memory accesses, %d bytes" % (c, n), bounded, ck, mod, c, n))
    ck.bound("size arithmetic: every size below 2^61; memory accesses: every content of 0..%d bytes" % (9 if not ck.thorough() else 23))
    ck.parallel(jobs)
