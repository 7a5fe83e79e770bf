"""No access outside the object and the caller's ranges."""
from sx import build, loops, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, fresh, ite, ule, ult, var, uf

from . import aeads, asms, ciphers, digests, hashes, kdfs, polys, wraps
from .hashes import minimize, start
from .lives import ANY, content
from .msg import c64, size_var

PROG = "drv_safe.cpp"
SOFT = ("-DSOFTWARE", "-Wl,--allow-multiple-definition")
BUILDS = [("g++", "-O2", ()), ("g++", "-O0", ()), ("g++", "-O1", SOFT), ("g++", "-O0", SOFT), ("clang++", "-O1", ("-DMILO_VERIF",))]
STEPS = (40, 300, 1 << 12, 1 << 17, 1 << 21)


# ------------------------------------------------------------------ native

def faults(lines):
    """the first line that touches anything else, and in which build"""
    for cxx, opt, extra in BUILDS:
        rc, out = build.call(build.native(PROG, opt=opt, cxx=cxx, extra=list(extra)), "\n".join(lines) + "\n", 120)
        got = out.split("\n")
        for i, l in enumerate(lines):
            if i >= len(got) or got[i] != "ok":
                return l, "%s %s%s" % (cxx, opt, " portable" if "-DSOFTWARE" in extra else ""), (got[i] if i < len(got) else "exit %s" % rc)
    return None


def judge(what, lines):
    r = faults(lines)
    if r:
        raise Violation("%s; native (%s): '%s' ends with %s" % (what, r[1], r[0], r[2]), dict(script=[r[0]], got=r[2], program=PROG))
    raise Unconfirmed(what)


# ------------------------------------------------------------------ stand-ins that only touch memory

class Havoc:
    """the stand-in primitives: read exactly their inputs, write exactly their outputs"""

    def __init__(self):
        self.n = 0

    def own(self, e, s, p):
        o, off = e.access(s, p, c64(8), True)
        self.n += 1

    def put(self, e, s, p, n):
        o, off = e.access(s, p, n, True)
        if o is not None:
            self.n += 1
            name = "res%d" % self.n
            e.bulk_write(s, o, off, n, lambda rel: uf(name, 8, rel))

    def take(self, e, s, p, n):
        if not (n.op == "const" and n.p == 0):
            e.access(s, p, n, False)

    def install(self, eng):
        I = eng.intercept
        low = lambda a, b: ite(ult(a, b), a, b)

        def f(*spec):
            """spec: ('own',), ('in', ptr, size), ('out', ptr, size) by argument positions; result position"""
            def g(e, s, a):
                self.own(e, s, a[0])
                r = None
                for x in spec:
                    if x[0] == "in":
                        self.take(e, s, a[x[1]], a[x[2]])
                    elif x[0] == "out":
                        self.put(e, s, a[x[1]], a[x[2]])
                    elif x[0] == "ret":
                        r = a[x[1]]
                return r
            return g

        def digest(e, s, a):
            e.access(s, a[0], c64(8), False)
            n = low(a[2], a[3])
            self.put(e, s, a[1], n)
            return n
        for p in ("vh", "vm"):
            I["@%s_update" % p] = f(("in", 1, 2))
            I["@%s_final" % p] = f()
            I["@%s_digest" % p] = digest
        I["@vh_init"] = f()
        I["@vm_init"] = f(("in", 1, 2))
        I["@vc_init"] = f(("in", 1, 2), ("in", 3, 4))
        I["@vc_encrypt"] = I["@vc_decrypt"] = f(("in", 1, 2), ("out", 3, 2), ("ret", 2))
        I["@vk_init"] = f(("in", 1, 2), ("in", 3, 4), ("in", 5, 6))
        I["@vk_derive"] = f(("out", 1, 2), ("ret", 2))


def plain(mod, merge=False):
    e = Engine(mod, merge=merge)
    e.summaries = True
    Havoc().install(e)
    return e


# ------------------------------------------------------------------ histories of calls

def play(ck, eng, prefix, ops, native, limits=None, cpuid=hashes.cpuid_none, garbage=True, cap=1 << 50):
    """ops: (function, arguments, native word); arguments: 'in', 'out', 'both' take a range of a new symbolic
    size (pointer and size; 'both' source, size, destination), 'same' works in place, a number is passed on"""
    st = start(eng, cpuid)
    size = eng.peek(st, eng.gptr(st, "@%s_info" % prefix), 8).p
    h = eng.alloc(st, c64(size), "object", content(ANY) if garbage else None)
    ns, plan, words = [], [], []

    def fresh_size(lim):
        n = size_var("n%d" % len(ns))
        st.assume(ule(n, c64(lim or cap)))
        ns.append(n)
        return n
    for i, (fn, args, word) in enumerate(ops):
        a, w = [h], [word]
        for j, x in enumerate(args):
            nm = "r%d_%d" % (i, j)
            if isinstance(x, tuple):
                x, lim = x
            else:
                lim = None
            if x == "in":
                n = fresh_size(lim)
                a += [eng.alloc(st, n, nm, lambda t, nm=nm: uf(nm, 8, t), writable=False), n]
                w.append(n)
            elif x == "out":
                n = fresh_size(lim)
                a += [eng.alloc(st, n, nm, lambda t, nm=nm: uf(nm, 8, t)), n]
                w.append(n)
            elif x == "fixed":
                # an output of the configured size
                a.append(eng.alloc(st, c64(lim), nm, lambda t, nm=nm: uf(nm, 8, t)))
            elif x == "both":
                n = fresh_size(lim)
                a += [eng.alloc(st, n, nm + "s", lambda t, nm=nm: uf(nm, 8, t), writable=False), n, eng.alloc(st, n, nm + "d", lambda t, nm=nm: uf(nm, 8, t))]
                w.append(n)
            elif x == "same":
                n = fresh_size(lim)
                p = eng.alloc(st, n, nm, lambda t, nm=nm: uf(nm, 8, t))
                a += [p, n, p]
                w.append(n)
            elif x == "error":
                a.append(eng.alloc(st, 8, nm, [const(0, 8)] * 8))
            elif x == "it":
                n = size_var("it", 32)
                st.assume(ule(n, const(lim, 32)))
                a.append(n)
                w.append(n)
                ns.append(tm.zext(n, 64))
            elif x == "pad":
                w.append(0)
            else:
                a.append(x)
        plan.append((fn, a))
        words.append(w)
    todo = plan if garbage else [("construct", [h])] + plan
    states = [st]
    for fn, a in todo:
        nxt = []
        for s in states:
            for o in eng.call(s, "@%s_%s" % (prefix, fn), a):
                if o.kind == "ret":
                    nxt.append(o.st)
                elif solve.check(list(o.st.conds)) != "unsat":
                    if not eng.problems:
                        raise Unsupported("%s ends in %s" % (fn, o.kind))
        states = nxt
    ck.used(eng)

    def lines(m):
        out = []
        val = lambda x: x if isinstance(x, int) else m(x)
        for cls in native:
            out.append(" ".join([cls] + [" ".join([w[0]] + [str(val(x)) for x in w[1:]]) for w in words]))
        return out
    for p in eng.problems[:4]:
        if p["model"] is None:
            raise Unsupported("undecided: " + p["msg"])
        m = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), ns, steps=STEPS) or p["model"]
        what = "%s: %s in %s" % (prefix, p["msg"], p["where"][:120])
        ls = lines(m) if all(m(n) <= 1 << 26 for n in ns) else []
        for k in (0, 1, 15, 16, 17, 37, 63, 64, 65, 129):
            for k2 in (k, 600, 3):
                vals = {n.id: (k if i % 2 else k2) for i, n in enumerate(ns)}
                ls += lines(lambda t: min(vals.get(t.id, vals.get(tm.zext(t, 64).id if t.w < 64 else 0, 2)), limits or 700))
        judge(what, ls)
    if not states and not eng.problems:
        raise Unsupported("no feasible path")
    return "%d paths" % len(states)


NAT = {"sha1": ["sha1"], "sha224": ["sha224"], "sha256": ["sha256", "api_sha256"], "sha384": ["sha384"], "sha512": ["sha512"], "sha512_224": ["sha512_224"], "sha512_256": ["sha512_256"]}
INIT0 = ("init", [], "I 0 0 0 0")


def hash_(ck, mod, alg, over):
    e = hashes.engine(mod, alg, merge=hashes.MERGE)
    D = hashes.spec.DIGEST[alg]
    return play(ck, e, alg, [INIT0, (over, ["in"], "U"), (over, ["in"], "U"), ("final", [], "F"), ("digest", ["out"], "G"), ("digestd", [("fixed", D)], "GD")], NAT[alg])


def cipher(ck, mod, kind, ops):
    e = ciphers.engine(mod, None)
    plan = [("init", ["in", "in", "pad", "pad"], "I")]
    w = {"enc": "E", "dec": "X"}
    for op in ops:
        plan.append((op, ["both"], w[op]) if op[-1] != "=" else (op[:-1], ["same"], "E="))
    return play(ck, e, "chacha20", plan, ["chacha_" + kind, "chacha"], cpuid=ciphers.cpuid_for(kind))


def poly(ck, mod, over):
    e = polys.engine(mod)
    return play(ck, e, "poly", [("init" if over == "update" else "initc", ["in", "pad", "pad", "pad"], "I"), (over, ["in"], "U"), (over, ["in"], "U"), ("final", [], "F"), ("digest", ["out"], "G")], ["poly", "api_poly"])


HM = {"hmac64_20": "hmac1", "hmac64_28": "hmac224", "hmac64_32": "hmac256", "hmac128_28": "hmac512_224", "hmac128_32": "hmac512_256", "hmac128_48": "hmac384", "hmac128_64": "hmac512"}


def hmac(ck, mod, name):
    e = plain(mod)
    D = kdfs.ALGS[name][2]
    return play(ck, e, name, [("init", ["in", "pad", "pad", "pad"], "I"), ("update", ["in"], "U"), ("update", ["in"], "U"), ("final", [], "F"), ("digest", ["out"], "G"), ("digestd", [("fixed", D)], "GD")], [HM[name]])


SUF = {20: "1", 28: "224", 32: "", 48: "384", 64: "512"}


def kdf(ck, mod, kind, D, lims):
    e = plain(mod)
    ini = ("init", ["in", "in", "in", "pad"], "I") if kind == "hkdf" else ("init", ["in", "in", "pad", ("it", 3)], "I")
    return play(ck, e, "%s%d" % (kind, D), [ini] + [("derive", [("out", l)], "R") for l in lims], [kind + SUF[D]], limits=max(lims))


def aead(ck, mod, layer, op, tail):
    e = plain(mod)
    plan = [("init", ["in", "in", "pad", "pad"], "I"), ("aad", ["in"], "A"), ("aad", ["in"], "A")]
    if layer == "raw":
        plan.append(("aadover", [], "O"))
    w = {"encrypt": "E", "decrypt": "X", "encrypt=": "E="}
    for o in op:
        plan.append((o.rstrip("="), ["same" if o[-1] == "=" else "both"], w[o]))
    if layer == "raw":
        plan.append(("final", [], "F"))
    if tail == "verify":
        plan.append(("verify_pe", [("in", 40), "error"], "V"))
    else:
        plan.append(("digest", ["out"], "G"))
    return play(ck, e, layer, plan, ["aead" if layer == "raw" else "api_aead"], garbage=layer == "raw")


def digest(ck, mod, fam, suffix):
    """any object content, an output of exactly the requested or configured size"""
    D = digests.FAMILIES[fam]
    name = fam + suffix
    lim = digests.SIZES[suffix](D)
    e = plain(mod)
    nat = {"rhmac": "hmac"}.get(fam, fam)
    return play(ck, e, name, [("u", ["out"], "U 5 F G"), ("d", [("fixed", lim)], "GD")], ["%s%s I 9 0 0 0" % (nat, suffix)] if suffix else ["%s I 9 0 0 0" % nat if nat != "hmac" else "hmac384 I 9 0 0 0"])


# ------------------------------------------------------------------ kernels

def kernel(ck, mod, fname, regions, unit, native, counts):
    """regions: (name, bytes or None for count * unit, writable)"""
    def setup(N):
        eng = Engine(mod)
        if N.op == "var":
            eng.base_conds = [ult(N, c64(1 << 57))]
        st = eng.new_state()
        args = [N]
        for nm, n, wr in regions:
            if isinstance(n, int):
                args.append(eng.alloc(st, n, nm, [var("%s%d" % (nm, i), 8) for i in range(n)], writable=wr))
            elif n is None:
                total = tm.mul(N, c64(unit))
                args.append(eng.alloc(st, total, nm, lambda o, nm=nm: uf(nm, 8, o), writable=wr))
            else:
                args.append(n)
        return eng, st, args

    def havoc(g, o, k):
        if o.init is not None or o.data is None:
            o.init = lambda off: uf("sofar", 8, off)
            o.log = ()
    N = var("N", 64)
    try:
        eng, st, args = setup(N)
        r = loops.block_induction(eng, st, fname, args, N, [], lambda h, k: [], None, None, havoc)
        ck.used(eng)
        return "every count: " + r
    except (loops.Broken, Unsupported) as ex:
        why = str(ex)
    for n in counts:
        eng, st, args = setup(c64(n))
        outs = eng.call(st, fname, args)
        ck.used(eng)
        for p in eng.problems:
            judge("%s of %d blocks: %s" % (fname, n, p["msg"]), ["%s %d" % (native, i) for i in (n, 0, 1, 2, 5)])
        if any(o.kind != "ret" for o in outs):
            raise Unsupported("%s: %s" % (fname, [o.kind for o in outs]))
    return "counts %s (%s)" % (list(counts), why)


def form(ck, mod, kind, name, dmax=None, nmax=None):
    """a convenience form over stand-ins: memory only"""
    fname = "%s_%s" % (kind, name)
    eng = wraps.engine(mod)
    st = start(eng)
    kn, sn, n, dn, it = size_var("kn"), size_var("sn"), size_var("n"), size_var("dn"), var("it", 32)
    for x in (kn, sn, n):
        st.assume(ult(x, c64(1 << 50)))
    if nmax is not None:
        st.assume(ule(n, c64(nmax)))
    if kind in "ed" and name in ("two", "copy", "copyo", "assign", "re"):
        st.assume(ule(c64(3), n))
    if dmax is not None:
        st.assume(ule(dn, c64(dmax)))
    if name == "span" and kind in "hm":
        st.assume(ule(sn, c64(100)))
    args = []
    for nm, x in (("k", kn), ("s", sn), ("m", n)):
        args += [eng.alloc(st, x, nm, lambda t, nm=nm: uf(nm, 8, t), writable=False), x]
    try:
        outs = eng.call(st, "@" + fname, args + [eng.alloc(st, wraps.OUT, "out", lambda t: uf("old", 8, t)), dn, it])
    except kdfs.Misuse as e:
        raise Unsupported(str(e))
    ck.used(eng)
    terms = [x for x in (kn, sn, n, dn) if x.op == "var"]
    for p in eng.problems[:3]:
        if p["model"] is None:
            raise Unsupported("undecided: " + p["msg"])
        m = minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), terms, steps=STEPS) or p["model"]
        what = "%s: %s" % (fname, p["msg"])
        lines = []
        low = 3 if kind in "ed" else 0
        hx = lambda k: bytes(range(256)).hex()[:2 * min(k, 250)] or "-"
        for a, b, c, d in [[m(x) for x in (kn, sn, n, dn)]] + [[k, 7, k2, d] for k in (20, 80) for k2 in (3, 9, 40) for d in (0, 1, 16, 20, 32, 33, 40)]:
            lines.append("%s %s %s %s %d %d" % (fname, hx(a), hx(b), hx(max(c, low)), min(d, 100 if dmax is None else dmax), 2))
        for extra, opt in ((["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "-O1"), (["-fsanitize=address"], "-O0")):
            rc, out = build.call(build.native(wraps.PROG, extra=extra, opt=opt), "\n".join(lines) + "\n", 100)
            if rc:
                bad = lines[min(out.count("\n"), len(lines) - 1)]
                raise Violation("%s; native (sanitizer build): '%s' ends with %s" % (what, bad[:200], rc), dict(script=bad, got=out[-300:], rc=rc, program=wraps.PROG))
        raise Unconfirmed(what)
    if not outs:
        raise Unsupported("no outcome")
    return "%d paths" % len(outs)


# ------------------------------------------------------------------ all

def jobs(ck):
    full = ck.thorough()
    js = []
    hm = build.module("hash.cpp")
    for alg in hashes.ALGS:
        for over in ("update", "updatec") if full or alg in ("sha1", "sha256", "sha512") else ("update",):
            js.append(("%s, %s twice" % (alg, over), hash_, ck, hm, alg, over))
    for impl, sb, B in (("sha1", 20, 64), ("sha256", 32, 64), ("sha512", 64, 128)):
        js.append(("%s portable kernel" % impl, kernel, ck, hm, "@blk_" + impl, [("state", sb, True), ("src", None, False)], B, "blocks_" + impl, range(4)))
    cm = build.module("cipher.cpp")
    for kind in ("sw", "ssse_3", "avx_2"):
        for ops in (("enc", "dec"), ("enc=", "enc")) if full else (("enc", "dec"),):
            js.append(("ChaCha, %s, %s" % (kind, ", ".join(ops)), cipher, ck, cm, kind, ops))
    js.append(("ChaCha transform portable kernel", kernel, ck, cm, "@blk_transform", [("state", 64, False), ("dst", None, True), ("src", None, False)], 64, "blocks_transform", range(4)))
    js.append(("ChaCha generate portable kernel", kernel, ck, cm, "@blk_generate", [("state", 64, False), ("dst", None, True)], 64, "blocks_generate", range(4)))
    for be in ("ssse_3", "avx_2"):
        for op in ("transform", "generate"):
            js.append(("ChaCha %s %s routine" % (be, op), asms.chacha_induction, ck, be, op, 8, False, False, False))
    for alg in ("sha1", "sha256"):
        js.append(("%s SHA-NI routine" % alg, asms.sha_induction, ck, alg, 8, False, False))
    pm = build.module("mac.cpp")
    bm = build.module("mac_blk.cpp")
    for over in ("update", "updatec"):
        js.append(("Poly1305, %s twice" % over, poly, ck, pm, over))
    js.append(("Poly1305 kernel", kernel, ck, bm, "@blk_poly", [("key", 32, False), ("acc", 20, True), ("pad", const(1, 32), None), ("src", None, False)], 16, "poly I 32 0 0 0 F U", range(4)))
    km = build.module("kdf.cpp")
    for name in HM:
        js.append(("HMAC " + name, hmac, ck, km, name))
    for D in (SUF if full else (20, 32, 64)):
        for kind in ("hkdf", "pbkdf"):
            js.append(("%s over a PRF of %d bytes" % (kind, D), kdf, ck, km, kind, D, (2 * D + 3, D + 2) if not full else (3 * D + 3, 2 * D + 2)))
    am = build.module("aead.cpp")
    for layer in ("raw", "apie"):
        for op in (("encrypt", "encrypt"), ("decrypt", "decrypt"), ("encrypt=",)):
            js.append(("AEAD %s, %s" % (layer, ", ".join(op)), aead, ck, am, layer, op, "digest"))
    js.append(("AEAD verification", aead, ck, am, "apie", ("decrypt",), "verify"))
    dm = build.module("digest.cpp")
    for fam in digests.FAMILIES:
        for suffix in (digests.SIZES if full else ("", "_much", "_word", "_0")):
            js.append(("digest of %s%s" % (fam, suffix), digest, ck, dm, fam, suffix))
    wm = build.module("wrap.cpp")
    for k, n in wraps.forms():
        if k in "hmkped" and not n.startswith("size"):
            small = n in wraps.GROWING and not full
            js.append(("convenience form %s_%s" % (k, n), form, ck, wm, k, n, (24 if small else 100) if k in "kp" else None, (8 if small else 60) if k in "ed" else None))
    ck.bound("objects of any content before initialize; keys, nonces, salts, data of any size below 2^50, two pieces; digests of any requested size; derived output of up to about two blocks of the PRF per call, two calls")
    ck.bound("kernels: every block count below 2^57 where the induction goes through, else 0 to 3 blocks")
    ck.stub("block functions inside the message handling touch exactly their state and whole blocks (shown for the kernels); stand-in hashes, PRFs and ciphers touch exactly their ranges")
    ck.assume("input and output ranges of one call are disjoint or identical; codecs and the command line tool are not part of this property")
    return js
