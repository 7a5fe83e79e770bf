"""Reading a digest: never more than asked, configured or produced."""
import hashlib
import hmac as pyhmac

from sx import build, solve
from sx.exec import Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, fresh, ite, not_, or_, uf, ule, ult, var

from . import kdfs
from .hashes import minimize, pyhash, start
from .kdfs import dig
from .msg import Seq, c64, prove_all
from .polys import tag

PROG = "drv_digest.cpp"
FAMILIES = dict(sha1=20, sha224=28, sha256=32, sha384=48, sha512=64, sha512_224=28, sha512_256=32, poly=16, hmac=32, rhmac=48)
SIZES = {"": lambda d: d, "_0": lambda d: 0, "_1": lambda d: 1, "_odd": lambda d: d - 5, "_word": lambda d: 8, "_same": lambda d: d, "_more": lambda d: d, "_much": lambda d: d}


def py_digest(fam):
    if fam == "poly":
        return tag(b"k" + bytes(31), b"abc")
    if fam in ("hmac", "rhmac"):
        return pyhmac.new(b"k", b"abc", "sha256" if fam == "hmac" else "sha384").digest()
    return hashlib.new(fam, b"abc").digest()


def replay(fam, suffix, how, sizes, what):
    lim = SIZES[suffix](FAMILIES[fam])
    full = py_digest(fam)
    lines = ["%s%s %s %d" % (fam, suffix, how, n) for n in sizes]
    rc, got = build.call(build.native(PROG), "\n".join(lines) + "\n", 60)
    g = got.strip().split("\n")
    for l, n, x in zip(lines, sizes, g):
        w = full[:lim if how == "d" else min(n, lim)]
        want = "%d %d %s" % (len(w), lim, (w + b"\xa5" * (400 - len(w))).hex())
        if x != want:
            raise Violation("%s%s: %s; native: reading %s of the digest of 'abc' gives %s, specified %s" % (fam, suffix, what, "the default size" if how == "d" else "%d bytes" % n, x[:160], want[:160]),
                            dict(script=l, got=x, want=want, program=PROG))
    if rc:
        raise Violation("%s%s: %s; native run ends with %s" % (fam, suffix, what, rc), dict(script="\n".join(lines), rc=rc, program=PROG))


def read(ck, mod, fam, suffix, how):
    """an object with any content: the bytes read are the first ones of the full result"""
    D = FAMILIES[fam]
    lim = SIZES[suffix](D)
    eng = kdfs.engine(mod, merge=False)
    st = start(eng)
    name = fam + suffix
    size = eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p
    base = eng.peek(st, eng.gptr(st, "@%s_info" % fam), 8).p
    con = eng.peek(st, add(eng.gptr(st, "@%s_info" % name), c64(8)), 8)
    if base != size:
        raise Unsupported("objects of different layout")
    if fam == "hmac":
        # the inner results are symbolic functions already: any computation will do
        eng.messages.put = eng.messages.put
    h = eng.alloc(st, size, "object", [var("obj%d" % i, 8) for i in range(size)])
    dn = c64(lim) if how == "d" else var("dn", 64)
    out = eng.alloc(st, c64(1000), "out", lambda t: uf("old", 8, t))
    full = eng.alloc(st, D, "full", [const(0, 8)] * D)

    def rep(m, what):
        n = m(dn)
        replay(fam, suffix, how, [n] + list(range(0, 80)) + [1 << 20, 1 << 40], what)
        raise Unconfirmed("%s for %d bytes" % (what, n))

    def check(s, goals, what):
        for g in goals:
            r = prove_all(s.conds, [g])
            if r is not None:
                goals = [g]
                break
        else:
            r = None
        if r is not None:
            rep(minimize(list(s.conds) + [not_(goals[r[0]])], [dn] if dn.op == "var" else [], steps=(80, 400, 1 << 20)) or r[1], what)
    if fam == "hmac":
        # every inner hash is in the state "finalised computation 7"
        eng.messages.get = lambda e, s, p: (7, Seq(), Seq())
    states = []
    for o in eng.call(st, "@%s_u" % fam, [h, full, c64(D)]):
        check(o.st, [eq(o.val, c64(D))], "size of the full digest")
        states.append(o.st)
    n = 0
    for s in states:
        for o in eng.call(s, "@%s_%s" % (name, how), [h, out] + ([] if how == "d" else [dn])):
            if o.kind != "ret":
                raise Unsupported(o.kind)
            q = o.st
            if solve.check(list(q.conds)) == "unsat":
                continue
            n += 1
            want = ite(ult(dn, c64(lim)), dn, c64(lim))
            t = fresh("t", 64)
            check(q, [eq(con, c64(lim))], "digest size constant")
            check(q, [eq(o.val, want)], "returned size")
            gs = [or_(not_(ult(c64(i), want)), eq(eng.peek_at(q, out, c64(i)), eng.peek_at(q, full, c64(i)))) for i in range(lim)]
            gs.append(or_(not_(and_(ule(want, t), ult(t, c64(1000)))), eq(eng.peek_at(q, out, t), uf("old", 8, t))))
            check(q, gs, "bytes read")
    ck.used(eng)
    for p in eng.problems:
        if p["model"] is None:
            return False
        rep(minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), [dn] if dn.op == "var" else [], steps=(80, 400, 1 << 20)) or p["model"], "memory: " + p["msg"])
    if not n:
        raise Unsupported("no feasible path")
    return "%d paths" % n


def jobs(ck, mod):
    return [("%s%s read %s" % (f, s, h), read, ck, mod, f, s, h) for f in FAMILIES for s in SIZES for h in ("u", "c", "d")]


def reread(ck, mod, fam, how):
    """an object with any content: a second read, or a read from a copy while the original is overwritten"""
    D = FAMILIES[fam]
    eng = kdfs.engine(mod, merge=False)
    st = start(eng)
    size = eng.peek(st, eng.gptr(st, "@%s_info" % fam), 8).p
    h = eng.alloc(st, size, "object", [var("obj%d" % i, 8) for i in range(size)])
    dn = var("dn", 64)
    st.assume(ult(dn, c64(1 << 20)))
    out = eng.alloc(st, c64(100), "out", lambda t: const(0, 8))
    full = eng.alloc(st, D, "full", [const(0, 8)] * D)
    if fam == "hmac":
        eng.messages.get = lambda e, s, p: (7, Seq(), Seq())

    def rep(m, what):
        n = m(dn)
        want = py_digest(fam)
        for n in [n] + list(range(0, D + 4)):
            line = "%s+%s u %d" % (fam, how, n)
            rc, got = build.call(build.native(PROG), line + "\n", 60)
            w = "%s %s" % (want[:n].hex(), want.hex())
            if rc or got.strip() != w.strip():
                raise Violation("%s: %s; native: after reading %d bytes of the digest of 'abc' %s gives %s, specified %s" % (
                    fam, what, n, "reading it again" if how == "again" else "reading that of a copy", got.strip()[:200], w), dict(script=line, got=got[:400], want=w, program=PROG))
        raise Unconfirmed("%s for %d bytes" % (what, n))
    total = 0
    for o in eng.call(st, "@%s_u" % fam, [h, out, dn]):
        s, src = o.st, h
        if how != "again":
            src = eng.alloc(s, size, "copy", [var("cp%d" % i, 8) for i in range(size)])
            fn = how
            if how == "copy":
                (o1,) = eng.call(s, "@%s_new" % fam, [src])
                s = o1.st
            (o1,) = eng.call(s, "@%s_%s" % (fam, fn), [src, h])
            s = o1.st
        for o2 in eng.call(s, "@%s_u" % fam, [src, full, c64(D)]):
            q = o2.st
            if how != "again":
                fst = eng.alloc(q, D, "first", [const(0, 8)] * D)
                os = eng.call(q, "@%s_u" % fam, [h, fst, c64(D)])
                eng_first = [(x.st, fst) for x in os]
            else:
                eng_first = [(q, None)]
            for q, fst in eng_first:
                if solve.check(list(q.conds)) == "unsat":
                    continue
                total += 1
                gs = [or_(not_(ult(c64(i), dn)), eq(eng.peek_at(q, out, c64(i)), eng.peek_at(q, full, c64(i)))) for i in range(D)]
                if fst is not None:
                    gs += [eq(eng.peek_at(q, fst, c64(i)), eng.peek_at(q, full, c64(i))) for i in range(D)]
                for g in gs:
                    r = prove_all(q.conds, [g])
                    if r is not None:
                        rep(minimize(list(q.conds) + [not_(g)], [dn], steps=(80, 400)) or r[1], "another read")
    ck.used(eng)
    for p in eng.problems:
        if p["model"] is None:
            return False
        rep(p["model"], "memory: " + p["msg"])
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths" % total


def again(ck, mod):
    return [("%s, read %s" % (f, h), reread, ck, mod, f, h) for f in FAMILIES for h in ("again", "cons", "copy")]
