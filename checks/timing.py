"""What branches and addresses depend on."""
import random

from sx import build, solve, terms as tm, x86
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import and_, const, eq, not_, substitute, var, xor

from . import asms, erase
from .hashes import start
from .msg import c64, prove_all
from .util import sym

PROG = "drv_time.cpp"
BUILDS = [("g++", "-O2", ()), ("g++", "-O1", ()), ("clang++", "-O1", ("-DMILO_VERIF",)), ("g++", "-O0", ()),
          ("clang++", "-O1", ("-DMILO_VERIF", "-DCOVER", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores")),
          ("clang++", "-O0", ("-DMILO_VERIF", "-DCOVER", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"))]
SOFT = ("-DSOFTWARE", "-Wl,--allow-multiple-definition")
MATCH = {"match": (0, 1, 2, 16, 33), "match_char": (1, 16), "match_word": (1, 4, 16), "match_view": ((16, 16), (16, 12), (0, 0), (5, 16)), "match_mixed": ((16, 16), (3, 7))}
TAGS = (16, 12, 0, 32)
SECRET = ("key_", "data_", "given_", "S", "H", "src", "in_")


class Found(Exception):
    def __init__(self, what, a, b):
        Exception.__init__(self, what)
        self.what, self.a, self.b = what, a, b


def depends(t):
    """the secret variables of a term: data, not addresses"""
    return [v for v in tm.variables([t]) if str(v.p).startswith(SECRET)]


class Env:
    """an assignment found by sampling"""

    def __init__(self, env):
        self.env = env

    def __call__(self, t):
        return tm.evaluate([t], self.env)[t.id]


class Half:
    """one of the two inputs of a two-copy model"""

    def __init__(self, m, ren):
        self.m, self.ren = m, ren

    def __call__(self, t):
        return self.m(substitute([t], self.ren)[0])


def varies(conds, t, what, seed=1):
    """raise Found unless t is the same for all secrets that take the path so far"""
    vs = depends(t)
    if not vs:
        return
    conds = list(conds)
    allv = [v for v in tm.variables([t] + conds) if v.op == "var"]
    rnd = random.Random(seed)
    first = None
    for _ in range(24):
        env = {v.p: (rnd.getrandbits(v.w) if v in vs or depends(v) else 0) for v in allv}
        r = tm.evaluate([t] + conds, env, lambda *a: 0)
        if all(r[c.id] for c in conds):
            if first is None:
                first = (r[t.id], env)
            elif r[t.id] != first[0]:
                raise Found(what, Env(first[1]), Env(env))
    # two runs that differ in secrets only
    ren = {v: var("%s'" % v.p, v.w) for v in allv if depends(v)}
    t2, conds2 = substitute([t], ren)[0], substitute(conds, ren)
    m = solve.check(conds + conds2 + [not_(eq(t, t2))], 20)
    if m == "unsat":
        return
    if m is None:
        raise Unsupported("undecided: " + what)
    raise Found(what, m, Half(m, ren))


class Watch(Engine):
    """every condition, address and copied length is the same for all secrets"""

    def __init__(self, mod, allowed=None):
        Engine.__init__(self, mod, merge=False)
        self.allowed = allowed
        self.branch_hook = self.on_branch
        self.addr_hook = lambda st, off: varies(st.conds, off, "an address in %s depends on secrets" % self.where(st))
        self.decisions = 0

    def on_branch(self, st, c):
        if c.op == "const":
            return
        self.decisions += 1
        if self.allowed and self.allowed(st, c):
            return
        varies(st.conds, c, "a branch in %s depends on secrets" % self.where(st))

    def memcpy(self, st, d, s, ln):
        if ln.op != "const":
            varies(st.conds, ln, "a copied length in %s depends on secrets" % self.where(st))
        return Engine.memcpy(self, st, d, s, ln)

    def memset(self, st, d, byte, ln):
        if ln.op != "const":
            varies(st.conds, ln, "a filled length in %s depends on secrets" % self.where(st))
        return Engine.memset(self, st, d, byte, ln)


def rnd_bytes(n, seed):
    return random.Random(seed).randbytes(n)


def traces(b, lines, soft=True):
    cxx, opt, extra = b
    rc, out = build.call(build.native(PROG, opt=opt, cxx=cxx, extra=list(extra) + (list(SOFT) if soft else [])), "\n".join(lines) + "\n", 120)
    if rc:
        raise Unconfirmed("native run ends with %s" % rc)
    return out.strip().split("\n")


def confirm(f, lines, soft=True):
    """runs that may differ in secrets only take the same path and touch the same addresses"""
    why = ""
    for b in BUILDS:
        try:
            t = traces(b, lines, soft)
        except Unconfirmed as e:
            why = str(e)
            continue
        for i, x in enumerate(t):
            if x != t[0]:
                raise Violation("%s; native (%s %s%s): two runs with different secrets execute different traces (%s steps, %s steps)" %
                                (f.what, b[0], b[1], ", edges and addresses" if "-DCOVER" in b[2] else ", instructions", t[0].split()[1], x.split()[1]),
                                dict(script=[lines[0], lines[i]], got=[t[0], x], program=PROG))
    raise Unconfirmed(f.what + " " + why)


def hx(b):
    return "h:" + bytes(b).hex()


def lives(ck, mods, name, shapes):
    n = d = 0
    for opt, mod in mods.items():
        for kn, dn, m, fin in shapes:
            eng = Watch(mod)
            st = start(eng)
            size = eng.peek(st, eng.gptr(st, "@%s_info" % name), 8).p
            key, dat = sym("key", kn), sym("data", max(dn, m))
            h = eng.alloc(st, size, "object", [const(0x5A, 8)] * size)
            k = eng.alloc(st, max(kn, 1), "key", key or [const(0, 8)], writable=False)
            p = eng.alloc(st, max(dn, m, 1), "data", dat or [const(0, 8)], writable=False)
            out = eng.alloc(st, 4096, "out", [const(0, 8)] * 4096)
            line = lambda a, b: "%s %s %s %d %d %d h:" % (name, hx(a), hx(b), dn, m, fin)
            try:
                outs = eng.call(st, "@%s_use" % name, [h, k, c64(kn), p, c64(dn), c64(m), const(fin, 32), out])
            except Found as f:
                f.what = "%s (%s, key %d, data %d, %d bytes): %s" % (name, opt, kn, dn, m, f.what)
                confirm(f, [line([f.a(v) for v in key], [f.a(v) for v in dat]), line([f.b(v) for v in key], [f.b(v) for v in dat])]
                        + [line(rnd_bytes(kn, i), rnd_bytes(max(dn, m), i + 50)) for i in range(4)])
            ck.used(eng)
            if not outs or any(o.kind != "ret" for o in outs):
                raise Unsupported("%s: %s" % (name, [o.kind for o in outs]))
            # more than one path: decided by addresses, the same for all secrets
            n += len(outs)
            d += eng.decisions
    return "%d paths, %d open conditions, none depends on secrets" % (n, d)


def match(ck, mods, name, sizes):
    n = 0
    for opt, mod in mods.items():
        for size in sizes:
            a, b = size if isinstance(size, tuple) else (size, size)
            eng = Watch(mod)
            st = start(eng)
            A, B = sym("data", a), sym("given", b)
            p = eng.alloc(st, max(a, 1), "a", A or [const(0, 8)], writable=False)
            q = eng.alloc(st, max(b, 1), "b", B or [const(0, 8)], writable=False)
            line = lambda x, y: "%s h: %s %d %d 0 %s" % (name, hx(x), a, b, hx(y))

            def probes():
                # a difference in the first, a middle, the last byte, none
                x = rnd_bytes(a, 5)
                y = (x + rnd_bytes(b, 6))[:b]
                out = [line(x, y)]
                for i in sorted({0, min(a, b) // 2, max(min(a, b) - 1, 0)}):
                    if i < b:
                        z = bytearray(y)
                        z[i] ^= 0x81
                        out.append(line(x, z))
                return out
            try:
                outs = eng.call(st, "@ct_" + name, [p, c64(a), q, c64(b)] if isinstance(size, tuple) else [p, q, c64(a)])
            except Found as f:
                f.what = "%s of %d and %d bytes (%s): %s" % (name, a, b, opt, f.what)
                confirm(f, [line([f.a(v) for v in A], [f.a(v) for v in B]), line([f.b(v) for v in A], [f.b(v) for v in B])] + probes())
            ck.used(eng)
            if len(outs) != 1 or outs[0].kind != "ret":
                raise Unsupported("%s: %s" % (name, [o.kind for o in outs]))
            same = tm.TRUE if a == b else tm.FALSE
            for x, y in zip(A, B):
                same = and_(same, eq(x, y))
            r = prove_all(outs[0].st.conds, [eq(outs[0].val if outs[0].val.w == 1 else tm.extract(outs[0].val, 0, 0), same)])
            if r is not None:
                raise Unconfirmed("%s of %d and %d bytes does not tell whether all bytes match" % (name, a, b))
            n += 1
    return "%d runs, one path each, result decided by every byte" % n


def verify(ck, mods, name, tns, shape):
    """the only decision is whether all of the tag is right"""
    dn, m = shape
    n = 0
    for opt, mod in mods.items():
        for tn in tns:
            own_terms = []
            for step in ("verify",) if name == "verify" else ("verify", name):
                cut = {}

                def allowed(st, c):
                    ts = own_terms
                    if not ts and step == "verify":
                        ts = [e.peek_at(st, own, c64(i)) for i in range(16)]
                    if tn != 16 or len(ts) != 16:
                        return False
                    sub = {t: var("own_%d" % i, 8) for i, t in enumerate(ts) if t.op != "const"}
                    right = tm.TRUE
                    for t, g in zip(ts, G):
                        right = and_(right, eq(t, g))
                    c2, r2 = substitute([c, right], sub)
                    for goal in (eq(c2, r2), eq(c2, not_(r2))):
                        if solve.check([not_(goal)], 30) == "unsat":
                            return True
                    return False
                e = Watch(mod, allowed)
                st = start(e)
                size = e.peek(st, e.gptr(st, "@api_aead_info"), 8).p
                K, D, G = sym("key", 32), sym("data", max(dn, m)), sym("given", tn)
                h = e.alloc(st, size, "object", [const(0x5A, 8)] * size)
                k = e.alloc(st, 32, "key", K, writable=False)
                p = e.alloc(st, max(dn, m, 1), "data", D or [const(0, 8)], writable=False)
                g = e.alloc(st, max(tn, 1), "given", G or [const(0, 8)], writable=False)
                out = e.alloc(st, max(dn, 1), "out", [const(0, 8)] * max(dn, 1))
                er = e.alloc(st, 8, "error", [const(0, 8)] * 8)
                own = e.alloc(st, 64, "own", [const(0, 8)] * 64)
                line = lambda a, b, x: "%s %s %s %d %d 0 %s" % (step, hx(a), hx(b), dn, m, hx(x))
                try:
                    outs = e.call(st, "@ct_" + step, [h, k, p, c64(dn), c64(m), g, c64(tn), out, er, own])
                except Found as f:
                    f.what = "%s of %d bytes, tag of %d bytes (%s): %s" % (step, dn, tn, opt, f.what)
                    kd = rnd_bytes(32, 3), rnd_bytes(max(dn, m), 4)
                    # wrong tags that differ from the right one at different places, all rejected
                    flips = [bytes([0x10 * (i == j) for i in range(tn)]) for j in (0, tn // 2, tn - 1) if tn] + [bytes([0xff] * tn)]
                    confirm(f, [line(*kd, x) for x in flips] + [line(rnd_bytes(32, i), rnd_bytes(max(dn, m), i), flips[0]) for i in (5, 6)])
                ck.used(e)
                if any(o.kind != "ret" for o in outs) or not outs:
                    raise Unsupported("%s: %s" % (step, [o.kind for o in outs]))
                if step == "verify" and not own_terms:
                    own_terms = [e.peek_at(outs[0].st, own, c64(i)) for i in range(16)]
                n += 1
    return "%d runs" % n


# ------------------------------------------------------------------ assembly

def watch_machine(mc):
    mc.branch_hook = lambda m, c: varies(m.st.conds, c, "a branch of %s depends on secrets" % mc.symbol)

    def mem(m, p, n, write):
        r = mc.eng.resolve(p)
        if r is None:
            raise Unsupported("address")
        if r[1].op != "const":
            varies(m.st.conds, r[1], "an address of %s depends on secrets" % mc.symbol)
    mc.mem_hook = mem


def kernel(ck, setup, counts, line):
    """setup(n) -> (machine, entry, secret terms)"""
    steps = 0
    for n in counts:
        mc, e, secrets = setup(n)
        watch_machine(mc)
        try:
            _, rets = mc.run(e, loops=False)
        except Found as f:
            f.what = "%d iterations: %s" % (n, f.what)
            confirm(f, [line(n, x) for x in (f.a, f.b)] + [line(n, lambda t, i=i: random.Random(i * 131 + t.id).getrandbits(t.w)) for i in range(3)], soft=False)
        ck.used(mc.eng)
        if len(rets) != 1:
            raise Unsupported("%s: %d paths" % (mc.symbol, len(rets)))
        steps += mc.steps
    return "%d instructions on one path each" % steps


def chacha(ck, be, op, counts, inplace=False):
    def setup(n):
        mc, S, sp, src, dst, e, W = asms.chacha_setup(be, op, 8, c64(n), inplace)
        return mc, e, None

    def line(n, x):
        st = b"".join(x(var("S%d" % i, 32)).to_bytes(4, "little") for i in range(16))
        W = 64 * asms.RATIO[be]
        return "%s_%s %s %s %d 0 0 h:" % (be, op, hx(st), hx(x(tm.uf("src", 8, c64(i))) for i in range(n * W)), n)
    return kernel(ck, setup, counts, line)


def sha(ck, alg, counts):
    nh = 5 if alg == "sha1" else 8

    def setup(n):
        mc, H, hp, src, e = asms.sha_setup(alg, 8, c64(n))
        return mc, e, None

    def line(n, x):
        st = b"".join(x(var("H%d" % i, 32)).to_bytes(4, "little") for i in range(nh))
        return "%s_ni %s %s %d 0 0 h:" % (alg, hx(st), hx(x(tm.uf("src", 8, c64(i))) for i in range(64 * n)), n)
    return kernel(ck, setup, counts, line)


EXTRA = {"hash": [(127, 130, 0, 1)], "mac": [(64, 65, 0, 1)], "mac32": [(32, 16, 0, 1), (7, 33, 0, 1)], "cipher": [(32, 64, 0, 0)], "aead": [(32, 16, 16, 1)], "kdf": [(70, 33, 5, 0)]}


def jobs(ck):
    full = ck.tier == "thorough"
    mods = {o: build.module("time.cpp", opt=o) for o in (("-O1", "-O2") if not full else ("-O1", "-O2", "-O3"))}
    js = []
    for name, kind in erase.KINDS.items():
        shapes = erase.LIVES[kind]
        if not full:
            shapes = shapes[1:]
        js.append(("conditions and addresses of " + name, lives, ck, mods, name, shapes + EXTRA[kind]))
    for name, sizes in MATCH.items():
        js.append(("comparison " + name, match, ck, mods, name, sizes))
    for name in ("verify", "open"):
        for tn in TAGS:
            js.append(("%s, tag of %d bytes" % (name, tn), verify, ck, mods, name, (tn,), (20, 5)))
    c = (0, 1, 2, 3) if not full else (0, 1, 2, 3, 4, 5, 8)
    for be in ("ssse_3", "avx_2"):
        for op in ("transform", "generate"):
            js.append(("%s %s kernel" % (be, op), chacha, ck, be, op, c))
    for alg in ("sha1", "sha256"):
        js.append(("%s SHA-NI kernel" % alg, sha, ck, alg, c))
    ck.bound("portable code compiled by clang at -O1 and -O2, sizes fixed per run (listed shapes of up to 700 data bytes and 140 key bytes), every key, data and tag content")
    ck.bound("comparisons of 0 to 33 bytes and of ranges of different sizes; assembly kernels with 0 to 3 iterations, every state and content")
    ck.assume("select instructions of the IR are taken to stay free of branches; instructions with data dependent latency are not covered; a rejected tag may be told from an accepted one")
    return js
