"""What the storage of an object holds after its end of life."""
from sx import build, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, const, eq, not_, substitute, var

from .hashes import start
from .msg import c64
from .util import sym

PROG = "drv_erase.cpp"
KINDS = dict(sha1="hash", sha224="hash", sha256="hash", sha384="hash", sha512="hash", sha512_224="hash", sha512_256="hash", poly="mac32", hmac1="mac", hmac256="mac", hmac512="mac",
             chacha="cipher", aead="aead", hkdf="kdf", pbkdf="kdf", api_sha256="hash", api_poly="mac32", api_hmac="mac", api_chacha="cipher", api_aead="aead", api_hkdf="kdf", api_pbkdf="kdf")
# (key bytes, data bytes, additional data or salt bytes, finalized)
LIVES = {
    "hash": [(0, 0, 0, 0), (3, 70, 0, 0), (130, 11, 0, 0), (0, 0, 0, 1), (3, 70, 0, 1), (5, 125, 0, 1)],
    "mac": [(20, 0, 0, 0), (20, 70, 0, 0), (140, 131, 0, 0), (20, 0, 0, 1), (20, 70, 0, 1)],
    "mac32": [(32, 0, 0, 0), (32, 7, 0, 0), (32, 37, 0, 0), (32, 0, 0, 1), (32, 37, 0, 1)],
    "cipher": [(32, 0, 0, 0), (32, 7, 0, 0), (32, 600, 0, 0), (32, 700, 0, 1)],
    "aead": [(32, 0, 0, 0), (32, 70, 5, 0), (32, 9, 17, 0), (32, 0, 0, 1), (32, 70, 9, 1)],
    "kdf": [(20, 0, 7, 0), (20, 7, 7, 0), (80, 70, 7, 0)],
}
WAYS = ("end", "delete", "local")


def life(mod, name, shape):
    """bytes of the storage after a life with symbolic secrets, before the end"""
    kn, n, m, fin = shape
    eng = Engine(mod, merge=False)
    st = start(eng)
    size = eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p
    h = eng.alloc(st, size, "object", [const(0x5A, 8)] * size)
    k = eng.alloc(st, max(kn, 1), "key", sym("key", kn) + [const(0, 8)] * (not kn), writable=False)
    p = eng.alloc(st, max(n, m, 1), "data", sym("data", max(n, m)) or [const(0, 8)], writable=False)
    out = eng.alloc(st, 4096, "out", [const(0, 8)] * 4096)
    outs = eng.call(st, "@%s_use" % name, [h, k, c64(kn), p, c64(n), c64(m), const(fin, 32), out])
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Unsupported("%s does not complete: %s" % (name, [o.kind for o in outs]))
    s = outs[0].st
    return [eng.peek_at(s, h, c64(i)) for i in range(size)], eng


def secret(mod, name):
    """the offsets that depend on what was processed: by content, or by how much of it"""
    offs = {}
    res = {}
    eng = None
    for shape in LIVES[KINDS[name]]:
        bs, eng = life(mod, name, shape)
        res[shape] = bs
        for i, b in enumerate(bs):
            # every secret is one of these variables; addresses are not secrets
            vs = [v for v in tm.variables([b]) if str(v.p).startswith(("key_", "data_"))]
            if vs:
                offs.setdefault(i, (shape, None))
    for x in res:
        for y in res:
            if x < y and x[3] == y[3] and x[1] and y[1] and not (KINDS[name] == "kdf" and x[0] != y[0]):
                for i, (p, q) in enumerate(zip(res[x], res[y])):
                    if p.op == "const" and q.op == "const" and p.p != q.p:
                        offs.setdefault(i, (x, y))
    return offs, len(res[x]), eng


def ends(ck, mods, name):
    mod = mods["-O1"]
    offs, size, eng = secret(mod, name)
    ck.used(eng)
    if not offs:
        raise Unsupported("no byte of %s depends on its input" % name)
    n = 0
    for opt, m in mods.items():
        for way in WAYS:
            left(ck, m, opt, way, name, offs, size)
            n += 1
    return "%d of %d bytes depend on secrets, erased in %d ways" % (len(offs), size, n)


def left(ck, mod, opt, way, name, offs, size):
    """an object of any content ends: nothing of it is left at those offsets"""
    eng = Engine(mod, merge=False)
    st = start(eng)
    seen = []
    content = [var("obj%d" % i, 8) for i in range(size)]
    other = [var("alt%d" % i, 8) for i in range(size)]
    h = eng.alloc(st, size, "object", content)
    if way == "local":
        def catch(e, s, a):
            seen.append(a[0])
            return None
        eng.intercept["@catch"] = catch
        f = eng.fn_addr("@catch")
        eng.on_icall = lambda e, s, nm, a: catch(e, s, a)
        outs = eng.call(st, "@%s_local" % name, [h, f])
        where = seen[0]
    else:
        outs = eng.call(st, "@%s_%s" % (name, way), [h])
        where = h
    ck.used(eng)
    for o in outs:
        if o.kind != "ret":
            raise Unsupported("%s of %s: %s" % (way, name, o.kind))
        r = eng.resolve(where)
        ob = eng.obj(o.st, r[0])
        base = r[1].p
        swap = dict(zip(content, other))
        for i in sorted(offs):
            b = eng.read_byte(ob, const(base + i, 64))
            if b.op == "const":
                continue
            # two contents that end differently
            b2 = substitute([b], swap)[0]
            m = solve.check(list(o.st.conds) + substitute(list(o.st.conds), swap) + [not_(eq(b, b2))])
            if m == "unsat":
                continue
            what = "%s (%s, %s): byte %d of %d is not erased" % (name, way, opt, i, size)
            if m is None:
                raise Unsupported("undecided: " + what)
            confirm(name, way, opt, offs, i, size, what)
            raise Unconfirmed(what)
    for p in eng.problems:
        raise Unconfirmed("%s (%s): %s" % (name, way, p["msg"]))


def native(cxx, opt, lines):
    rc, out = build.call(build.native(PROG, opt=opt, cxx=cxx), "\n".join(lines) + "\n", 60)
    if rc:
        raise Unconfirmed("native run ends with %s" % rc)
    return [bytes.fromhex(x) for x in out.strip().split("\n")]


def confirm(name, way, opt, offs, i, size, what):
    """two lives with different secrets, natively"""
    a, b = offs[i]
    b = b or a

    def line(s, c):
        kn, n, m, fin = s
        return "%s %s h:%s h:%s %d %d" % (name, way, bytes((c + 7 * j) & 255 for j in range(kn)).hex(), bytes((c * 3 + 5 * j) & 255 for j in range(max(n, m))).hex()[:2 * n] or "", m, fin)
    # the data is shared with salts: as long as the longer of both
    tries = [(line(a, 1), line(b, 88)), (line(a, 1), line(b, 1))]
    fills = ["h:" + bytes([x] * size).hex() for x in (0x11, 0xEE)]
    for cxx in ("g++", "clang++ -DMILO_VERIF"):
        for o in (opt, "-O0", "-O2", "-O3"):
            for x, y in tries:
                for fx, fy in (("", ""),) + ((fills[0], fills[1]),):
                    c = cxx.split()
                    rc, out = build.call(build.native(PROG, opt=o, cxx=c[0], extra=c[1:]), "%s %s\n%s %s\n" % (x, fx, y, fy), 60)
                    if rc:
                        continue
                    p, q = [bytes.fromhex(v) for v in out.strip().split("\n")]
                    bad = [j for j in offs if p[j] != q[j]]
                    if bad:
                        raise Violation("%s; native (%s %s): after its end the storage of the object still tells two lives apart at bytes %s" % (what, cxx, o, bad[:20]),
                                        dict(script=[x + " " + fx, y + " " + fy], got=[p.hex(), q.hex()], program=PROG))


def jobs(ck, keep=lambda n: True):
    mods = {o: build.module("erase.cpp", opt=o) for o in ("-O1", "-O2")}
    ck.bound("objects with any content; the bytes that depend on what was processed are found by executing lives with symbolic keys and data of several lengths, not finalized and finalized")
    ck.bound("the destructor alone, delete, and the end of a local object, compiled by clang at -O1 and -O2")
    ck.assume("padding and members that do not depend on secrets (flags, the address and length of salt, info and key ranges) may survive; temporaries outside the object are not covered")
    return [("end of life of " + n, ends, ck, mods, n) for n in KINDS if keep(n)]
