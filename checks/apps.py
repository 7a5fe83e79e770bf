"""The command line application: pattern expressions, options and parameters."""
import re

from sx import build, solve, terms as tm
from sx.exec import Branches, Engine
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, ite, mul, not_, or_, sub, ule, ult, var, zext

from .msg import c64, prove_all
from .util import compare, conc, sym

PROG = "drv_app.cpp"
FLAGS = ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]


def module():
    return build.module("app.cpp", FLAGS)


def c8(x):
    return const(ord(x) if isinstance(x, str) else x, 8)


def memchr(eng, st, a):
    """one path per position"""
    alts = []
    for s, n in [(st, a[2].p)] if a[2].op == "const" else eng.enumerate(st, a[2]):
        for i in range(n):
            c = eq(eng.peek_at(s, a[0], c64(i)), tm.extract(a[1], 7, 0))
            if c is not tm.FALSE and (c is tm.TRUE or eng.feasible(s, c)):
                h = s.fork()
                h.assume(c)
                alts.append((h, add(a[0], c64(i))))
            if c is tm.TRUE or not (c is tm.FALSE or eng.feasible(s, not_(c))):
                break
            s = s.fork()
            s.assume(not_(c))
        else:
            alts.append((s, c64(0)))
    return Branches(alts)


def engine(mod):
    eng = Engine(mod, merge=False)
    eng.intercept["@memchr"] = memchr
    # what an error says is not decided, only that it is reported
    eng.intercept_re.append((re.compile("@_ZNSt11logic_error[CD][12]E"), lambda eng, st, a: c64(0)))
    return eng


def state(eng):
    st = eng.new_state()
    for g in ("@_ZTIm", "@_ZTISt17basic_string_viewIcSt11char_traitsIcEE"):
        if g in eng.m.globals and eng.m.globals[g][1] is None:
            eng.poke(st, add(eng.gptr(st, g), c64(8)), eng.alloc(st, 2, "type name", [c8("m"), c8(0)]), 8)
    return st


# ---------------------------------------------------------------- patterns

def glob(p, m):
    """p matches m: a star stands for any characters, every other character for itself"""
    n, k = len(p), len(m)
    M = [[None] * (k + 1) for _ in range(n + 1)]
    for i in range(n, -1, -1):
        for j in range(k, -1, -1):
            if i == n:
                M[i][j] = tm.b(j == k)
                continue
            star = eq(p[i], c8("*"))
            one = tm.FALSE if j == k else and_(eq(p[i], m[j]), M[i + 1][j + 1])
            any_ = M[i + 1][j] if j == k else or_(M[i + 1][j], M[i][j + 1])
            M[i][j] = ite(star, any_, one)
    return M[0][0]


def py_glob(p, m):
    if not p:
        return not m
    if p[0] == ord("*"):
        return any(py_glob(p[1:], m[i:]) for i in range(len(m) + 1))
    return bool(m) and p[0] == m[0] and py_glob(p[1:], m[1:])


def outcomes(ck, eng, outs, goals, replay):
    for o in outs:
        if o.kind != "ret":
            m = solve.check(list(o.st.conds))
            if m == "unsat":
                continue
            if m is not None:
                replay(m, "ends in %s (%s)" % (o.kind, o.val))
            return False
        gs = [g for g in goals(o) if g[0] is not tm.TRUE]
        if gs:
            r = prove_all(o.st.conds, [g for g, _ in gs])
            if r is not None:
                if r[1] is None:
                    return False
                replay(r[1], gs[r[0]][1])
    for p in eng.problems:
        if p["model"] is None:
            return False
        replay(p["model"], p["msg"])
    return True


def match(ck, mod, fn, pn, mn):
    eng = engine(mod)
    st = state(eng)
    p, m = sym("p", pn), sym("m", mn)
    pp = eng.alloc(st, pn, "pattern", p, writable=False)
    mp = eng.alloc(st, mn, "message", m, writable=False)
    outs = eng.call(st, "@app_" + fn, [pp, c64(pn), mp, c64(mn)])
    ck.used(eng)
    want = glob(p, m)

    def replay(md, what):
        a, b = conc(md, p), conc(md, m)
        compare(PROG, "%s h:%s h:%s\n" % (fn, a.hex(), b.hex()), "%d" % py_glob(a, b), "%s of %r against %r: %s" % (fn, a, b, what))
        raise Unconfirmed("%s %r %r: %s" % (fn, a, b, what))
    return outcomes(ck, eng, outs, lambda o: [(eq(tm.extract(o.val, 0, 0) if o.val.w > 1 else o.val, ite(want, const(1, 1), const(0, 1))), "result")], replay)


# ---------------------------------------------------------------- arguments

class Args:
    """an argument list of tokens of the given lengths with any content"""

    def __init__(self, eng, st, lens, fixed={}):
        self.t = []
        ps = [eng.alloc(st, 1, "program", [c8(0)])]
        for i, n in enumerate(lens):
            bs = [c8(x) for x in fixed[i]] if i in fixed else sym("t%d" % i, n)
            bs += sym("t%d" % i, n)[len(bs):]
            for x in bs:
                if x.op != "const":
                    st.assume(not_(eq(x, c8(0))))
            self.t.append(bs)
            ps.append(eng.alloc(st, n + 1, "argument %d" % i, bs + [c8(0)], writable=False))
        self.ps = ps
        self.argv = eng.alloc(st, 8 * (len(ps) + 1), "argv", [c8(0)] * (8 * (len(ps) + 1)))
        for i, q in enumerate(ps):
            eng.poke(st, add(self.argv, c64(8 * i)), q, 8)

    def conc(self, m):
        return [conc(m, t) for t in self.t]

    def dash(self, i):
        return eq(self.t[i][0], c8("-")) if self.t[i] else tm.FALSE

    def dashes(self, i):
        return and_(eq(self.t[i][0], c8("-")), eq(self.t[i][1], c8("-"))) if len(self.t[i]) > 1 else tm.FALSE

    def named(self, i, name):
        b = self.t[i][2:]
        if len(self.t[i]) < 2 or len(b) < len(name):
            return tm.FALSE
        return and_(self.dashes(i), *([eq(x, y) for x, y in zip(b, name)] + ([eq(b[len(name)], c8("="))] if len(b) > len(name) else [])))

    def exactly(self, i, name):
        b = self.t[i][2:]
        return and_(self.dashes(i), *[eq(x, y) for x, y in zip(b, name)]) if len(self.t[i]) >= 2 and len(b) == len(name) else tm.FALSE

    def positions(self, skip):
        """[(condition, first unread token)], and the condition that a command is missing"""
        alts, missing = [(tm.TRUE, 0)], []
        for _ in range(skip):
            nxt = []
            for c, i in alts:
                none = c
                for j in range(i, len(self.t)):
                    nxt.append((and_(none, not_(self.dash(j))), j + 1))
                    none = and_(none, self.dash(j))
                missing.append(none)
            alts = nxt
        return alts, missing


def number(v):
    """(well formed, value) of the digits v"""
    if not v:
        return tm.TRUE, c64(0)
    if len(v) > 48:
        raise ValueError
    ok = and_(*[and_(ule(c8("0"), x), ule(x, c8("9"))) for x in v])
    r = const(0, 160)
    for x in v:
        r = add(mul(r, const(10, 160)), zext(sub(x, c8("0")), 160))
    return and_(ok, ult(r, const(1 << 64, 160))), tm.extract(r, 63, 0)


def lookup(a, c, i0, name):
    """[(condition, token or None)] reading the parameter from token i0 on"""
    out = []
    for i in range(i0, len(a.t)):
        n = a.named(i, name)
        out.append((and_(c, n), i))
        out.append((and_(c, not_(a.dashes(i))), None))
        c = and_(c, a.dashes(i), not_(n))
    out.append((c, None))
    return [x for x in out if x[0] is not tm.FALSE]


def value(a, c, i, name):
    """[(condition, characters or None)]"""
    return None if i is None or len(a.t[i]) == len(name) + 2 else a.t[i][len(name) + 3:]


def spec(a, fn, skip, name, other):
    """[(condition, code, {word index: value})]"""
    alts, missing = a.positions(skip)
    out = [(c, 2, {}) for c in missing]
    for c, i0 in alts:
        if fn == "command":
            none = c
            for j in range(i0, len(a.t)):
                out.append((and_(none, not_(a.dash(j))), 0, {0: a.ps[j + 1], 1: c64(len(a.t[j])), 2: c64(1)}))
                none = and_(none, a.dash(j))
            out.append((none, 1, {}))
        elif fn == "option":
            ok, run = tm.FALSE, tm.TRUE
            for j in range(i0, len(a.t)):
                run = and_(run, a.dashes(j))
                ok = or_(ok, and_(run, a.exactly(j, name)))
            out.append((c, 0, {0: ite(ok, c64(1), c64(0))}))
        elif fn == "group":
            for c1, i in lookup(a, c, i0, [c8("a"), c8("b")]):
                v1 = value(a, c1, i, "ab")
                if v1 is None:
                    out.append((c1, 1, {}))
                    continue
                ok1, n1 = number(v1)
                out.append((and_(c1, not_(ok1)), 1, {}))
                for c2, j in lookup(a, and_(c1, ok1), i0, [c8("a")]):
                    v2 = value(a, c2, j, "a")
                    if v2 is None:
                        out.append((c2, 1, {}))
                        continue
                    ok2, n2 = number(v2)
                    out.append((and_(c2, not_(ok2)), 1, {}))
                    out.append((and_(c2, ok2), 0, {0: n1, 1: add(add(n2, n2), c64(1)), 2: n1, 3: n2}))
        else:
            for c1, i in lookup(a, c, i0, name):
                v = value(a, c1, i, name)
                if v is None:
                    out.append((c1, 1, {}) if fn != "default" else (c1, 0, {0: other}))
                elif fn == "text":
                    out.append((c1, 0, {1: c64(len(v)), **({0: add(a.ps[i + 1], c64(len(name) + 3))} if v else {})}))
                else:
                    ok, n = number(v)
                    out.append((and_(c1, ok), 0, {0: n}))
                    out.append((and_(c1, not_(ok)), 1, {}) if fn == "number" else (and_(c1, not_(ok)), 0, {0: other}))
    return [x for x in out if x[0] is not tm.FALSE]


def py_read(fn, ts, skip, name, other):
    """what the native driver is to print"""
    i = 0
    for _ in range(skip):
        while i < len(ts) and ts[i].startswith(b"-"):
            i += 1
        if i == len(ts):
            return "2"
        i += 1
    ts = ts[i:]
    if fn == "command":
        for t in ts:
            if not t.startswith(b"-"):
                return "0 h:" + t.hex()
        return "1"
    if fn == "option":
        for t in ts:
            if not t.startswith(b"--"):
                break
            if t[2:] == name:
                return "0 1"
        return "0 0"

    def find(name):
        for t in ts:
            if not t.startswith(b"--"):
                return None
            if t[2:].split(b"=")[0] == name:
                return t[2:].split(b"=", 1)[1] if b"=" in t else None
        return None

    def num(v):
        if v is None:
            return None
        if v == b"":
            return 0
        if any(c not in b"0123456789" for c in v) or int(v) >= 1 << 64:
            return None
        return int(v)
    if fn == "text":
        v = find(name)
        return "1" if v is None else "0 h:" + v.hex()
    if fn == "group":
        a, b = num(find(b"ab")), num(find(b"a"))
        return "1" if a is None or b is None else "0 %d %d %d %d" % (a, (2 * b + 1) % (1 << 64), a, b)
    v = num(find(name))
    if fn == "default":
        return "0 %d" % (other if v is None else v)
    return "1" if v is None else "0 %d" % v


def read(ck, mod, fn, lens, skip, nlen, fixed={}):
    eng = engine(mod)
    st = state(eng)
    a = Args(eng, st, lens, fixed)
    name = sym("n", nlen)
    for x in name:
        st.assume(and_(not_(eq(x, c8(0))), not_(eq(x, c8("=")))))
    np = eng.alloc(st, nlen, "name", name, writable=False)
    other = var("other", 64)
    out = eng.alloc(st, 64, "out", [c8(0)] * 64)
    outs = eng.call(st, "@app_" + fn, [a.argv, const(len(lens) + 1, 32), const(skip, 32), np, c64(nlen), other, out])
    ck.used(eng)
    alts = spec(a, fn, skip, name, other)

    def replay(m, what):
        ts, nm, o = a.conc(m), conc(m, name), m(other)
        line = "%s %d h:%s %d %s\n" % (fn, skip, nm.hex(), o, " ".join("h:" + t.hex() for t in ts))
        what = "%s %r after %d commands in %r: %s" % (fn, nm, skip, ts, what)
        compare(PROG, line, py_read(fn, ts, skip, nm, o), what)
        raise Unconfirmed(what)

    def goals(o):
        gs = []
        for c, code, words in alts:
            g = [eq(o.val, const(code, 32))]
            for w, v in words.items():
                x = eng.peek(o.st, add(out, c64(8 * w)), 8)
                if fn == "option":
                    x = and_(tm.TRUE, eq(x, v))
                    g.append(x)
                    continue
                g.append(eng.ptr_eq(o.st, x, v) if x.op != "const" and False else eq(x, v))
            gs.append((or_(not_(c), and_(*g)), "specified code %d %s" % (code, sorted(words))))
        return gs
    return outcomes(ck, eng, outs, goals, replay)


def dump(ck, mod, lens):
    eng = engine(mod)
    st = state(eng)
    a = Args(eng, st, lens)
    out = eng.alloc(st, 1000, "out", [c8(0)] * 1000)
    outs = eng.call(st, "@app_dump", [a.argv, const(len(lens) + 1, 32), out])
    ck.used(eng)
    want = []
    for i, t in enumerate(a.t):
        want += ([c8(" ")] if i else []) + t

    def replay(m, what):
        ts = a.conc(m)
        line = "dump 0 h: 0 %s\n" % " ".join("h:" + t.hex() for t in ts)
        compare(PROG, line, "0 h:" + b" ".join(ts).hex(), "the argument list %r: %s" % (ts, what))
        raise Unconfirmed(what)
    return outcomes(ck, eng, outs, lambda o: [(eq(o.val, c64(len(want))), "size")] + [(eq(eng.peek(o.st, add(out, c64(i)), 1), x), "character %d" % i) for i, x in enumerate(want)], replay)


def group(ck, fn, argss):
    for a in argss:
        if fn(ck, *a) is False:
            return False
    return "%d cases" % len(argss)
