"""Processor features and backend selection for every cpuid answer."""
import re

from sx import build, solve, terms as tm, x86
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, mul, not_, or_, uf, ule, var

from . import asms
from .msg import c64, prove_all

def uge(a, b):
    return ule(b, a)


CPUID = "@milo_internal_arch_x86_64_cpuid"
EAX, EBX, ECX, EDX = range(4)
# feature -> [(leaf, register, bit)], from the processor manual
BITS = {
    "sse_1": [(1, EDX, 25)], "sse_2": [(1, EDX, 26)], "sse_3": [(1, ECX, 0)], "ssse_3": [(1, ECX, 9)],
    "sse_4_1": [(1, ECX, 19)], "sse_4_2": [(1, ECX, 20)], "sse_4": [(1, ECX, 19), (1, ECX, 20)],
    "avx_1": [(1, ECX, 28)], "avx_2": [(7, EBX, 5)], "sha_1": [(7, EBX, 29)], "sha_2": [(7, EBX, 29)],
}
# instruction set extension -> cpuid bits that announce it (SSE2 belongs to the x86-64 baseline)
NEED = {"sse_2": [], "sse_3": [(1, ECX, 0)], "ssse_3": [(1, ECX, 9)], "sse_4_1": [(1, ECX, 19)], "sse_4_2": [(1, ECX, 20)], "avx": [(1, ECX, 28)],
        "avx_2": [(7, EBX, 5)], "sha": [(7, EBX, 29)], "bmi_1": [(7, EBX, 3)], "bmi_2": [(7, EBX, 8)], "popcnt": [(1, ECX, 23)], "aes": [(1, ECX, 25)],
        "pclmul": [(1, ECX, 1)], "avx_512": [(7, EBX, 16)]}
OSXSAVE = (1, ECX, 27)


def reg(leaf, r):
    return uf("cpuid%d" % r, 32, const(leaf, 32), const(0, 32))


def announced(leaf, r, b):
    return and_(uge(reg(0, EAX), const(leaf, 32)), eq(extract(reg(leaf, r), b, b), const(1, 1)))


# a processor with the newer extensions announces the older ones
OLDER = [announced(1, r, b) for r, b in ((EDX, 25), (EDX, 26), (ECX, 0), (ECX, 9), (ECX, 19), (ECX, 20), (ECX, 28), (ECX, 27))]


def cpuid(e, s, a):
    s.event("cpuid", a[1], a[2])
    for i in range(4):
        e.poke(s, add(a[0], c64(4 * i)), uf("cpuid%d" % i, 32, a[1], a[2]))


def environment(m):
    """cpuid answers of a model, for the native driver"""
    out = []
    for leaf in (0, 1, 7):
        out.append("%d.0:%s" % (leaf, ",".join(str(m(reg(leaf, r))) for r in range(4))))
    return ";".join(out)


def native(name, env):
    exe = build.native("drv_arch.cpp", extra=[build.path("drv_arch_stub.cpp")], libs=["-Wl,--allow-multiple-definition"])
    return build.call(exe, "", 60, args=[name], env=dict(MILO_CPUID=env))


def backends(mod):
    """the assembly routines of the tree"""
    x86.find(asms.CPUID)
    return sorted("@" + n for n in x86.symbols() if "_impl_hw_x86_64_" in n)


def setup(ck, mod):
    eng = Engine(mod)
    eng.intercept[CPUID] = cpuid
    for n in backends(mod):
        def icept(e, s, a, n=n):
            s.event("backend", n[1:])
            return mul(a[1], c64(4 if "ssse_3" in n else 8)) if "chacha" in n else None
        eng.intercept[n] = icept
    st = eng.new_state()
    sts = eng.run_ctors(st)
    if not sts:
        raise Unsupported("static initialisation has no outcome")
    for s in sts:
        s.events = ()
    return eng, sts


# ------------------------------------------------------------------ features

def feature(ck, mod, f):
    eng, sts = setup(ck, mod)
    n = 0
    want = and_(*[announced(*b) for b in BITS[f]])
    for s in sts:
        for o in eng.call(s, "@feat_" + f, []):
            n += 1
            if o.kind != "ret":
                raise Unsupported("feat_%s ends in %s" % (f, o.kind))
            got = eq(extract(o.val, 0, 0), const(1, 1))
            m = solve.check(list(o.st.conds) + [not_(eq(got, want))])
            if m == "unsat":
                continue
            if m is None:
                return False
            env = environment(m)
            rc, out = native("feat_" + f, env)
            spec = "1" if m(want) else "0"
            what = "%s reported %s, specified %s, cpuid %s" % (f, out.strip(), spec, env)
            if rc or out.strip() != spec:
                raise Violation(what, dict(script="feat_" + f, env=env, got=out.strip(), want=spec, program="drv_arch.cpp"))
            raise Unconfirmed(what)
    ck.used(eng)
    ck.bound("feature %s: every content of every register of the cpuid leaves 0, 1 and 7" % f)
    return "%d paths" % n


def leaves(ck, mod):
    """at start-up, only leaves up to the maximum are queried, sub-leaf 0, and no feature comes from elsewhere"""
    eng = Engine(mod)
    eng.intercept[CPUID] = cpuid
    sts = eng.run_ctors(eng.new_state())
    n = 0
    for s in sts:
        for e in s.events:
            if e[0] != "cpuid":
                continue
            n += 1
            g = or_(eq(e[1], const(0, 32)), uge(reg(0, EAX), e[1]))
            r = prove_all(s.conds, [g])
            if r is not None:
                # harmless by itself unless a feature depends on it, which the feature obligations decide
                return "a leaf above the maximum is queried (features decided separately)"
    return "%d queries" % n


def wrapper(ck, mod, fn, sub):
    eng = Engine(mod)
    eng.intercept[CPUID] = lambda e, s, a: s.event("call", tuple(a))
    st = eng.new_state()
    p = eng.alloc(st, 16, "out")
    l, x = var("leaf", 32), var("sub", 32)
    outs = eng.call(st, "@" + fn, [p, l] + ([x] if sub else []))
    ck.used(eng)
    for o in outs:
        ev = [e[1] for e in o.st.events if e[0] == "call"]
        ok = o.kind == "ret" and len(ev) == 1
        if ok:
            ok = prove_all(o.st.conds, [eq(ev[0][0], p), eq(ev[0][1], l), eq(ev[0][2], x if sub else const(0, 32))]) is None
        if not ok:
            asms.native_cpuid("cpuid wrapper")
            raise Unconfirmed("cpuid wrapper does not pass its arguments on")
    return "%d paths" % len(outs)


# ------------------------------------------------------------------ selection

DEFAULT = ["sha1", "sha224", "sha256", "sha384", "sha512", "chacha20", "hmac_sha1", "aead"]
PREFER = {"chacha20_prefer_ssse_3": "ssse_3_ietf", "chacha20_prefer_avx_2": "avx_2_ietf", "sha1_prefer_ni": "sha_1_160", "sha256_prefer_ni": "sha_2_256",
          "chacha20_prefer_sw": None, "sha1_prefer_sw": None, "sha256_prefer_sw": None}
ENFORCE = {"chacha20_enforce_ssse_3": "ssse_3_ietf", "chacha20_enforce_avx_2": "avx_2_ietf", "sha1_enforce_ni": "sha_1_160", "sha256_enforce_ni": "sha_2_256",
           "chacha20_enforce_sw": None, "sha1_enforce_sw": None, "sha256_enforce_sw": None}


def needs(symbol):
    """extensions of the instructions a routine can execute"""
    out = {}
    for i in x86.find(symbol).reachable(symbol):
        for e in x86.extensions(i):
            out.setdefault(e, i.op)
    for e in out:
        if e not in NEED:
            raise Unsupported("no cpuid bit known for %s" % e)
    return out


def supported(symbol):
    r = tm.TRUE
    for e in needs(symbol):
        for b in NEED[e]:
            r = and_(r, announced(*b))
    return r


def select(ck, mod, use):
    """the routines this use runs are announced by the cpuid answers; a preferred one is used where possible"""
    eng, sts = setup(ck, mod)
    n = 0
    seen = set()
    for s in sts:
        src = eng.alloc(s, 4096, "src", bytes((7 * i) & 255 for i in range(4096)), writable=False)
        dst = eng.alloc(s, 8192, "dst", "zero")
        for o in eng.call(s, "@use_" + use, [src, c64(1200), dst]):
            if solve.check(list(o.st.conds)) == "unsat":
                continue
            n += 1
            ran = sorted({e[1] for e in o.st.events if e[0] == "backend"})
            seen.add(tuple(ran))

            def bad(m, msg, key=None):
                env = environment(m)
                rc, out = native("use_" + use, env)
                got = out.split()
                what = "%s: %s, cpuid %s" % (use, msg, env)
                rep = dict(script="use_" + use, env=env, got=out.strip()[:600], program="drv_arch.cpp")
                if key:
                    rep["key"] = key
                if rc or not got or got[0] != "used" or sorted(got[1:]) == ran:
                    raise Violation("%s; native: exit %s %s" % (what, rc, out.strip()[:300]), rep)
                raise Unconfirmed("%s; native: %s" % (what, out.strip()[:300]))
            if o.kind != "ret":
                m = solve.check(list(o.st.conds))
                if m is None:
                    return False
                bad(m, "ends in %s (%s)" % (o.kind, o.val))
            if use in ENFORCE:
                want = ENFORCE[use]
                if (not ran) != (want is None) or any(want not in b for b in ran):
                    bad(solve.check(list(o.st.conds)), "enforced backend %s, ran %s" % (want, ran))
                continue
            for b in ran:
                for e, op in needs(b).items():
                    for bit in NEED[e]:
                        m = solve.check(list(o.st.conds) + [not_(announced(*bit))])
                        if m is None:
                            return False
                        if m != "unsat":
                            bad(m, "%s runs %s, which needs %s (leaf %d, register %d, bit %d)" % (b, op, e, *bit))
            if use in PREFER:
                want = PREFER[use]
                if want is None:
                    if ran:
                        bad(solve.check(list(o.st.conds)), "preferred the portable backend, ran %s" % ran)
                elif not any(want in b for b in ran):
                    w = [b[1:] for b in backends(mod) if want in b]
                    m = solve.check(list(o.st.conds) + [supported(b) for b in w] + OLDER)
                    if m is None:
                        return False
                    if m != "unsat":
                        bad(m, "preferred backend %s is supported, ran %s" % (want, ran))
    ck.used(eng)
    ck.bound("selection for %s: every content of every register of the cpuid leaves the code queries; backends seen: %s" % (
        use, "; ".join(", ".join(re.sub(".*_impl_hw_x86_64_", "", b) for b in r) or "portable" for r in sorted(seen))))
    return "%d paths" % n


def osxsave(ck, mod, use):
    """AVX code runs only where the operating system keeps AVX registers"""
    eng, sts = setup(ck, mod)
    for s in sts:
        src = eng.alloc(s, 4096, "src", bytes(4096), writable=False)
        dst = eng.alloc(s, 8192, "dst", "zero")
        for o in eng.call(s, "@use_" + use, [src, c64(1200), dst]):
            ran = sorted({e[1] for e in o.st.events if e[0] == "backend"})
            for b in ran:
                if not {"avx", "avx_2"} & set(needs(b)):
                    continue
                m = solve.check(list(o.st.conds) + [not_(announced(*OSXSAVE))])
                if m is None:
                    return False
                if m == "unsat":
                    continue
                env = environment(m)
                rc, out = native("use_" + use, env)
                if rc == 0 and sorted(out.split()[1:]) == ran:
                    raise Violation("%s runs %s although the operating system has not enabled extended register state (OSXSAVE clear), cpuid %s" % (use, b, env),
                                    dict(script="use_" + use, env=env, got=out.strip()[:600], program="drv_arch.cpp",
                                         key="osxsave:" + re.sub(".*_impl_hw_x86_64_|_(transform|generate|blocks)$", "", b)))
                raise Unconfirmed("OSXSAVE: native %s" % out.strip()[:200])
    ck.used(eng)
