"""Memory, byte order and bit helpers against their meaning on bytes."""
import re

from sx import build, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, concat, const, eq, extract, fresh, ite, mul, not_, or_, sub, uf, ule, ult, var, zext

from .msg import be_bytes, c64, le_bytes, lcg, prove_all
from .util import compare, contract

SIZE = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "ch": 1, "s8": 1, "s16": 2, "s32": 4, "s64": 8}
PAIRS = [p.split() for p in "u8 u8,u16 u8,u32 u8,u64 u8,u8 ch,u16 ch,u32 ch,u64 ch,u8 u16,u16 u16,u32 u16,u64 u16,u8 u32,u16 u32,u32 u32,u64 u32,"
         "u8 u64,u16 u64,u32 u64,u64 u64,s32 u8,s16 s8,s8 s32,s64 u32,s32 u64".split(",")]
COPIES = [p.split() for p in "u8 u8,u8 ch,ch u8,ch ch,u32 u8,u8 u32,u64 u8,u32 ch,u8 u64,u32 u64,u64 u32,u16 u8".split(",")]
COPIESE = [p.split() for p in "u8 u8,u8 u16,u8 u32,u8 u64,ch u32,ch u64".split(",")]
FILLS = "u8 ch u16 u32 u64".split()


def mem(name):
    return lambda t: uf(name, 8, t)


def conc_mem(m, name, n):
    return bytes(m(uf(name, 8, c64(i))) for i in range(n))


def run(ck, mod, fn, setup, want, script, pre=(), kinds=("ret",)):
    """setup(eng, st) -> (args, objects {name: (pointer, size term)}); want(o) -> (result or None, {name: function old, t -> byte});
    script(m) -> (line, expected output) for the native driver"""
    eng = Engine(mod, merge=True)
    st = eng.new_state()
    args, objs = setup(eng, st)
    for c in pre:
        st.assume(c)
    outs = eng.call(st, "@" + fn, args)
    ck.used(eng)
    t = fresh("t", 64)
    small = [ult(n, c64(200)) for _, n in objs.values() if n.op != "const"]

    def bad(conds, what):
        for extra in (small, []):
            m = solve.check(list(conds) + extra)
            if m == "unsat" or m is None:
                continue
            line, exp = script(m)
            if line is None:
                continue
            what = "%s: %s" % (fn, what)
            compare("drv_memory.cpp", line + "\n", exp, what)
            raise Unconfirmed(what + " " + line[:200])
        raise Unconfirmed(fn + ": " + what)
    for o in outs:
        if o.kind not in kinds:
            if solve.check(list(o.st.conds)) != "unsat":
                bad(o.st.conds, "ends in %s (%s)" % (o.kind, o.val))
            continue
        res, after = want()
        goals = []
        if res is not None:
            goals.append((eq(o.val, res), "result"))
        for name, f in after.items():
            p, n = objs[name]
            if n.op == "const" and n.p == 0:
                continue
            goals.append((or_(ule(n, t), eq(eng.peek_at(o.st, p, t), f(t))), "bytes of " + name))
        for g, w in goals:
            if g is tm.TRUE:
                continue
            r = solve.check(list(o.st.conds) + [not_(g)])
            if r == "unsat":
                continue
            if r is None:
                return False
            bad(list(o.st.conds) + [not_(g)], w)
    for p in eng.problems:
        if p["model"] is None:
            return False
        bad(p.get("conds") or list(st.conds), p["msg"])
    return True


def native_order(e):
    return "be" if e == "be" else "le"


def order(bs, e):
    """bytes in memory order from least significant first"""
    return list(reversed(bs)) if e == "be" else bs


def access(ck, mod, v, p):
    """every load and store form of one pair of widths"""
    V, P = SIZE[v], SIZE[p]
    W = 8 * V
    n = 0
    for e in ("", "be_", "le_"):
        for part in ("", "n"):
            off, size, N, val = var("off", 64), var("size", 64), var("N", 64), var("val", W)
            S = c64(V)
            if part:
                S = ite(ult(size, c64((V + P - 1) // P)), mul(size, c64(P)), c64(V))
                S = ite(and_(tm.b(V < P), not_(eq(size, c64(0)))), c64(V), S)
            start = mul(off, c64(V))
            # whole elements of the pointed-to type, the access inside
            pre = [ult(off, c64(1 << 40)), ult(N, c64(1 << 45)), ule(add(start, c64(0)), N), ule(S, sub(N, start)),
                   eq(extract(N, 2, 0) if P == 8 else extract(N, 1, 0) if P == 4 else extract(N, 0, 0) if P == 2 else const(0, 1),
                      const(0, {8: 3, 4: 2, 2: 1, 1: 1}[P]))]
            if part:
                pre.append(ult(size, c64(1 << 56)))

            def setup(eng, st, ro):
                ptr = eng.alloc(st, N, "memory", mem("mem"), writable=not ro)
                return ptr, {"memory": (ptr, N)}

            def byte(i):
                b = uf("mem", 8, add(start, c64(i)))
                return ite(ult(c64(i), S), b, const(0, 8))

            def lwant():
                bs = [byte(i) for i in range(V)]
                if e == "be_":
                    bs.reverse()
                return concat(*reversed(bs)), {}

            def lscript(m, fn="load%s_%s%s_%s" % (part, e, v, p)):
                nn = m(N)
                if nn > 4096:
                    return None, None
                b = conc_mem(m, "mem", nn)
                s0, k = m(start), m(S)
                x = (b[s0:s0 + k] + bytes(V))[:V]
                r = int.from_bytes(x, "big" if e == "be_" else "little")
                return "%s h:%s - %d %d" % (fn, b.hex(), m(off), m(size)), "%d %s -" % (r, b.hex())
            fn = "load%s_%s%s_%s" % (part, e, v, p)

            def ls(eng, st):
                ptr, ob = setup(eng, st, True)
                return [ptr, off] + ([size] if part else []), ob
            if not run(ck, mod, fn, ls, lwant, lscript, pre):
                return False

            vb = order(le_bytes(val), e[:2])

            def swant():
                def after(t):
                    r = uf("mem", 8, t)
                    for i in range(V):
                        r = ite(and_(ult(c64(i), S), eq(t, add(start, c64(i)))), vb[i], r)
                    return r
                return None, {"memory": after}

            def sscript(m, fn="stor%s_%s%s_%s" % (part, e, v, p)):
                nn = m(N)
                if nn > 4096:
                    return None, None
                b = bytearray(conc_mem(m, "mem", nn))
                x = m(val).to_bytes(V, "big" if e == "be_" else "little")
                line = "%s h:%s - %d %d %d" % (fn, bytes(b).hex(), m(off), m(val), m(size))
                k = m(S)
                b[m(start):m(start) + k] = x[:k]
                return line, "- %s -" % bytes(b).hex()
            fn = "stor%s_%s%s_%s" % (part, e, v, p)

            def ss(eng, st):
                ptr, ob = setup(eng, st, False)
                return [ptr, off, val] + ([size] if part else []), ob
            if not run(ck, mod, fn, ss, swant, sscript, pre):
                return False
            n += 2
    return "%d functions" % n


def copies(ck, mod, d, s, N, loops=False):
    """copy, compare, xor and initialisation over N bytes (or any number, where no loop is involved)"""
    D, S = SIZE[d], SIZE[s]
    for fn in ("copy", "equal", "match", "xor"):
        f = "%s_%s_%s" % (fn, d, s)
        k = 0 if N is None else N
        if N is None and (fn != "copy" or loops):
            continue
        n = var("n", 64) if N is None else c64(N)
        # the objects hold whole elements; the byte count may end inside one
        dn = mul(add(tm.lshr_c(n, D.bit_length() - 1), c64(1)), c64(D)) if N is None else c64((k + D - 1) // D * D)
        sn = mul(add(tm.lshr_c(n, S.bit_length() - 1), c64(1)), c64(S)) if N is None else c64((k + S - 1) // S * S)
        pre = [ult(n, c64(1 << 50))] if N is None else []

        def setup(eng, st):
            a = eng.alloc(st, dn, "first", mem("a"), writable=fn in ("copy", "xor"))
            b = eng.alloc(st, sn, "second", mem("b"), writable=False)
            return [a, b, n], {"first": (a, dn), "second": (b, sn)}

        def want():
            if fn == "copy":
                return None, {"first": lambda t: ite(ult(t, n), uf("b", 8, t), uf("a", 8, t))}
            if fn == "xor":
                return None, {"first": lambda t: ite(ult(t, n), tm.xor(uf("b", 8, t), uf("a", 8, t)), uf("a", 8, t))}
            r = tm.TRUE
            for i in range(k):
                r = and_(r, eq(uf("a", 8, c64(i)), uf("b", 8, c64(i))))
            return r, {}

        def script(m):
            x, y, c = m(dn), m(sn), m(n)
            if x > 4096 or y > 4096:
                return None, None
            a, b = bytearray(conc_mem(m, "a", x)), conc_mem(m, "b", y)
            line = "%s h:%s h:%s %d" % (f, bytes(a).hex(), b.hex(), c)
            r = "-"
            if fn == "copy":
                a[:c] = b[:c]
            elif fn == "xor":
                a[:c] = bytes(i ^ j for i, j in zip(a[:c], b))
            else:
                r = str(int(a[:c] == b[:c]))
            return line, "%s %s %s" % (r, bytes(a).hex(), b.hex())
        if not run(ck, mod, f, setup, want, script, pre):
            return False
    return True


def inits(ck, mod, d, s, dn, sn):
    """zero filled, then the leading bytes of the source, optionally in another byte order"""
    D, S = SIZE[d], SIZE[s]
    k = min(dn * D, sn * S)
    for e in ("", "be_", "le_"):
        f = "init_%s%s_%s" % (e, d, s)

        def at(b, i):
            j = i // D * D + D - 1 - i % D if e == "be_" else i
            return b(j) if j < k else None

        def setup(eng, st):
            a = eng.alloc(st, dn * D, "first", mem("a"))
            b = eng.alloc(st, sn * S, "second", mem("b"), writable=False)
            return [a, c64(dn), b, c64(sn)], {"first": (a, c64(dn * D))}

        def want():
            def after(t):
                r = const(0, 8)
                for i in range(dn * D):
                    x = at(lambda j: uf("b", 8, c64(j)), i)
                    if x is not None:
                        r = ite(eq(t, c64(i)), x, r)
                return r
            return None, {"first": after}

        def script(m):
            a, b = conc_mem(m, "a", dn * D), conc_mem(m, "b", sn * S)
            r = bytes(at(lambda j: b[j], i) or 0 for i in range(dn * D))
            return "%s h:%s h:%s %d %d" % (f, a.hex(), b.hex(), dn, sn), "- %s %s" % (r.hex(), b.hex())
        if not run(ck, mod, f, setup, want, script):
            return False
    return True


def ordered(ck, mod, d, s, N):
    """copy with conversion, N bytes, the last element possibly cut"""
    S = SIZE[s]
    sn = (N + S - 1) // S * S
    for e in ("be", "le"):
        f = "copy_%s_%s_%s" % (e, d, s)
        idx = lambda i: i // S * S + S - 1 - i % S if e == "be" else i

        def setup(eng, st):
            a = eng.alloc(st, N + 3, "first", mem("a"))
            b = eng.alloc(st, sn, "second", mem("b"), writable=False)
            return [a, b, c64(N)], {"first": (a, c64(N + 3))}

        def want():
            def after(t):
                r = uf("a", 8, t)
                for i in range(N):
                    r = ite(eq(t, c64(i)), uf("b", 8, c64(idx(i))), r)
                return r
            return None, {"first": after}

        def script(m):
            a, b = bytearray(conc_mem(m, "a", N + 3)), conc_mem(m, "b", sn)
            line = "%s h:%s h:%s %d" % (f, bytes(a).hex(), b.hex(), N)
            a[:N] = bytes(b[idx(i)] for i in range(N))
            return line, "- %s %s" % (bytes(a).hex(), b.hex())
        if not run(ck, mod, f, setup, want, script):
            return False
    return True


def fills(ck, mod, p, N, anysize=False):
    P = SIZE[p]
    val = var("val", 8)
    n = var("n", 64) if anysize else c64(N)
    forms = ["set"] if anysize else ["set", "zero", "erase"]
    if N == 0:
        forms += ["erase1", "zero5", "erase5"]
    for fn in forms:
        f = "%s_%s" % (fn, p)
        cnt = {"set": n, "erase1": c64(P), "zero5": c64(5 * P), "erase5": c64(5 * P)}.get(fn, mul(n, c64(P)))
        size = add(cnt, c64(2 * P)) if not anysize else add(mul(tm.lshr_c(cnt, P.bit_length() - 1), c64(P)), c64(2 * P))
        if fn == "set" and not anysize:
            size = c64((N // P + 2) * P)
        b = val if fn == "set" else const(0, 8)

        def setup(eng, st):
            a = eng.alloc(st, size, "first", mem("a"))
            return [a] + ([val] if fn == "set" else []) + ([n] if fn in ("set", "zero", "erase") else []), {"first": (a, size)}

        def want():
            return None, {"first": lambda t: ite(ult(t, cnt), b, uf("a", 8, t))}

        def script(m):
            if m(size) > 4096:
                return None, None
            a = bytearray(conc_mem(m, "a", m(size)))
            line = "%s h:%s - " % (f, bytes(a).hex()) + ("%d %d" % (m(val), m(n)) if fn == "set" else "%d" % m(n))
            a[:m(cnt)] = bytes([m(b)]) * m(cnt)
            return line, "- %s -" % bytes(a).hex()
        if not run(ck, mod, f, setup, want, script, [ult(n, c64(1 << 50))] if anysize else []):
            return False
    return True


def arrays(ck, mod, p, sn):
    P = SIZE[p]
    k = min(5 * P, sn)
    for e in ("", "be_", "le_"):
        f = "init5_%s%s" % (e, p)
        idx = lambda i: i // P * P + P - 1 - i % P if e == "be_" else i

        def setup(eng, st):
            a = eng.alloc(st, 5 * P, "first", mem("a"))
            b = eng.alloc(st, sn, "second", mem("b"), writable=False)
            return [a, b, c64(sn)], {"first": (a, c64(5 * P))}

        def want():
            def after(t):
                r = const(0, 8)
                for i in range(5 * P):
                    if idx(i) < k:
                        r = ite(eq(t, c64(i)), uf("b", 8, c64(idx(i))), r)
                return r
            return None, {"first": after}

        def script(m):
            a, b = conc_mem(m, "a", 5 * P), conc_mem(m, "b", sn)
            r = bytes(b[idx(i)] if idx(i) < k else 0 for i in range(5 * P))
            return "%s h:%s h:%s %d" % (f, a.hex(), b.hex(), sn), "- %s %s" % (r.hex(), b.hex())
        if not run(ck, mod, f, setup, want, script):
            return False
    return True


def scalars(ck, mod):
    for v, S in SIZE.items():
        if v == "ch":
            continue
        x, by = var("x", 8 * S), var("by", 64)
        sw = concat(*le_bytes(x))

        def one(fn, args, res, pre=()):
            def setup(eng, st):
                return args, {}

            def script(m):
                return "%s %s" % (fn, " ".join(str(m(a)) for a in args) + (" 0" if len(args) == 1 else "")), str(m(res))
            return run(ck, mod, fn, setup, lambda: (res, {}), script, pre)
        names = [("bigof_", sw), ("littleof_", x), ("swap_", sw)]
        if v[0] == "u":
            names += [("swapsw_", sw), ("swapbi_", sw)]
        for nm, r in names:
            if not one(nm + v, [x], r):
                return False
        if v[0] == "u":
            W = 8 * S
            b = extract(by, W - 1, 0) if W < 64 else by
            pre = [ult(c64(0), by), ult(by, c64(W))]
            for i in range(1, W):
                l = concat(extract(x, W - 1 - i, 0), extract(x, W - 1, W - i))
                r = concat(extract(x, i - 1, 0), extract(x, W - 1, i))
                if not one("rotl_" + v, [x, c64(i)], l) or not one("rotr_" + v, [x, c64(i)], r):
                    return False
    a, b = var("a", 64), var("b", 64)
    for fn, r in (("min_u64", ite(ult(a, b), a, b)), ("max_u64", ite(ult(a, b), b, a))):
        if not run(ck, mod, fn, lambda eng, st: ([a, b], {}), lambda: (r, {}), lambda m: ("%s %d %d" % (fn, m(a), m(b)), str(m(r)))):
            return False
    return True


def containers(ck, mod, n, m_):
    for fn, w in (("equal_container", 1), ("match_container", 1), ("match_container_32", 4)):
        if n % w:
            continue

        def setup(eng, st):
            a = eng.alloc(st, n, "first", mem("a"), writable=False)
            b = eng.alloc(st, m_, "second", mem("b"), writable=False)
            return [a, c64(n // w), b, c64(m_)], {}
        r = tm.b(n == m_)
        for i in range(min(n, m_)):
            r = and_(r, eq(uf("a", 8, c64(i)), uf("b", 8, c64(i))))

        def script(m):
            a, b = conc_mem(m, "a", n), conc_mem(m, "b", m_)
            return "%s h:%s h:%s %d %d" % (fn, a.hex(), b.hex(), n // w, m_), "%d %s %s" % (a == b, a.hex(), b.hex())
        if not run(ck, mod, fn, setup, lambda: (r, {}), script):
            return False
    return True


def group(ck, fn, argss):
    for a in argss:
        if fn(ck, *a) is False:
            return False
    return "%d cases" % len(argss)


def jobs(ck, mod, deep, ct=False):
    js = [("loads and stores of %s in %s" % (v, p), access, ck, mod, v, p) for v, p in PAIRS]
    top = 20 if not deep else 48
    for d, s in COPIES:
        js.append(("copy, compare and xor %s from %s" % (d, s), group, ck, copies, [(mod, d, s, n) for n in ([] if ct else [None]) + list(range(top + 1))]))
        js.append(("initialise %s from %s" % (d, s), group, ck, inits, [(mod, d, s, a, b) for a in range(0, 4) for b in range(0, 7)] + [(mod, d, s, 16, 5), (mod, d, s, 2, 33)]))
    for d, s in COPIESE:
        js.append(("ordered copy %s from %s" % (d, s), group, ck, ordered, [(mod, d, s, n) for n in range(top + 1)]))
    for p in FILLS:
        js.append(("fill %s" % p, group, ck, fills, [(mod, p, n) for n in range(top + 1)] + ([] if ct else [(mod, p, 1, True)])))
        js.append(("array %s" % p, group, ck, arrays, [(mod, p, n) for n in range(0, 44, 3)]))
    js.append(("scalars", scalars, ck, mod))
    js.append(("containers", group, ck, containers, [(mod, n, m) for n in range(0, 9) for m in range(0, 9)]))
    ck.bound("loads, stores: all values, offsets below 2^40, element counts below 2^56 for partial forms, every pair of widths of 1, 2, 4, 8 bytes; "
             "copies and fills: every content, %s; compare, xor, ordered copies: every content of 0 to %d bytes; initialisation: 0 to 16 elements" % ("any size" if not ct else "0 to %d bytes" % top, top))
    return js
