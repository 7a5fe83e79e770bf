"""The convenience interface: every form does what the underlying primitive does, over stand-in primitives."""
import hashlib
import hmac as pyhmac
import base64
import os
import re

from sx import build, solve, terms as tm
from sx.exec import Unsupported
from sx.report import Unconfirmed, Violation
from sx.terms import add, and_, const, eq, fresh, ite, not_, or_, sub, uf, ule, ult, var, xor

from . import kdfs
from .ciphers import py_state, py_stream
from .hashes import minimize, start
from .kdfs import Misuse, dig, piece, py_hkdf, same
from .msg import Seq, c64, data, lcg, prove_all, size_var

PROG = "drv_wrap.cpp"
OUT = 192
STEPS = (40, 300, 1 << 12)

# form -> (largest result, size asked for when fixed, result placed in an array of this size)
HASHES = dict(ptr=(32,), ptrd=(32, 32), chr=(32,), vec=(32,), vecd=(32, 32), a16=(16, None, 16), a40=(32, None, 40), a40d=(32, 32, 40), span=("sn",), ret=(32,), retc=(32,), retd=(32, 32),
              ret20=(20, 20), two=(32,), twoc=(32,), re=(32,), rea=(32,), copy=(32,), copyo=(32,), assign=(32,), move=(32,), copyd=(32,), init=(32, 32), initc=(32,), ctorc=(32,))
HASHES.update({"1p": (32,), "1pd": (32, 32), "1v": (32,), "1vd": (32, 32), "1a": (16, None, 16), "1r": (32,), "1rd": (32, 32), "1r20": (20, 20)})
CONCAT = ("copy", "copyo", "assign", "move")
KDFS = dict(ctor=(), ctorc=(), init=(), initc=(), a16=(16, 16), span=(24,), ret=(), retc=(), ret20=(20, None, 20), two=(), re=(), copy=(), assign=())
KDFS.update({"1p": (), "1v": (), "1a": (16, 16), "1r": (), "1r20": (20, None, 20)})


def engine(mod):
    eng = kdfs.engine(mod, merge=False)
    M = eng.messages

    def cinit(e, s, a):
        n = sum(1 for x in s.events if x[0] == "cipher")
        s.event("cipher", piece(e, s, a[1], a[2]), piece(e, s, a[3], a[4]))
        M.put(e, s, a[0], ("cipher", n, c64(0)))

    def crypt(op):
        def f(e, s, a):
            h, src, n, dst = a
            _, num, pos = M.get(e, s, h)
            so, soff = e.access(s, src, n, False)
            do, doff = e.access(s, dst, n, True)
            if so is not None and do is not None:
                s.owned.discard(so.id)

                def fn(rel, so=so, soff=soff, num=num, pos=pos):
                    return xor(e.read_byte(so, add(soff, rel)), stream_byte(op, num, add(pos, rel)))
                e.bulk_write(s, do, doff, n, fn)
            M.put(e, s, h, ("cipher", num, add(pos, n)))
            return n
        return f

    def kinit(e, s, a):
        n = sum(1 for x in s.events if x[0] == "kdf")
        s.event("kdf", piece(e, s, a[1], a[2]), piece(e, s, a[3], a[4]), piece(e, s, a[5], a[6]), a[7])
        M.put(e, s, a[0], ("kdf", n, c64(0)))

    def kderive(e, s, a):
        _, num, pos = M.get(e, s, a[0])
        o, off = e.access(s, a[1], a[2], True)
        if o is not None:
            e.bulk_write(s, o, off, a[2], lambda rel: okm(num, add(pos, rel)))
        M.put(e, s, a[0], ("kdf", num, add(pos, a[2])))
        return a[2]

    def xcode(op, cap):
        def f(e, s, a):
            p, n, d = a[:3]
            s.event(op, piece(e, s, p, n), n)
            r = ite(ule(var("res", 64), cap(n)), var("res", 64), cap(n))
            o, off = e.access(s, d, r, True)
            if o is not None:
                e.bulk_write(s, o, off, r, lambda rel: uf(op, 8, rel))
            if len(a) > 3:
                e.poke(s, a[3], ite(eq(var("bad", 1), const(1, 1)), const(1, 32), const(0, 32)))
            return r
        return f
    eng.intercept["@vc_init"] = cinit
    eng.intercept["@vc_encrypt"] = crypt("E")
    eng.intercept["@vc_decrypt"] = crypt("D")
    eng.intercept["@vk_init"] = kinit
    eng.intercept["@vk_derive"] = kderive
    eng.intercept["@vx_encode"] = xcode("xenc", ecap)
    eng.intercept["@vx_decode"] = xcode("xdec", dcap)
    eng.intercept["@vx_encode_size"] = lambda e, s, a: ecap(a[1])
    eng.intercept["@vx_decode_size"] = lambda e, s, a: dcap(a[1])
    return eng


def ecap(n):
    return add(n, c64(3))


def dcap(n):
    return add(n, c64(1))


def stream_byte(op, num, pos):
    return uf("ks" + op, 8, const(num, 16), pos)


def okm(num, pos):
    return uf("okm", 8, const(num, 16), pos)


def py_form(kind, name, k, s, m, dn, it):
    """(result, error, output area) on the real primitives"""
    area = bytearray(b"\xa5" * OUT)

    def out(res, arr=None):
        if arr:
            area[:arr] = b"\x5a" * arr
        area[:len(res)] = res
        return len(res), 0, bytes(area)
    if kind in "hm":
        f = HASHES[name]
        msg = (k if kind == "h" and name in CONCAT else b"") + m
        d = hashlib.sha256(msg).digest() if kind == "h" else pyhmac.new(k, msg, "sha256").digest()
        n = f[1] if len(f) > 1 and f[1] else dn
        return out(d[:min(n, 32, len(s) if f[0] == "sn" else f[0])], f[2] if len(f) > 2 else None)
    if kind in "kp":
        f = KDFS[name]
        n = f[2] if len(f) > 2 else min(dn, f[0]) if f else dn
        n += 8 if name in ("two", "copy", "assign") else 0
        d = py_hkdf("sha256", k, s, m, n) if kind == "k" else hashlib.pbkdf2_hmac("sha256", k, s, max(1, it), n or 1)[:n]
        return out(d, f[1] if len(f) > 1 and f[1] else None)
    if kind in "ed":
        if name.startswith("size"):
            return len(m), 0, bytes(area)
        st = py_state((k + bytes(32))[:32], (s + bytes(16))[:16])
        d = bytes(x ^ y for x, y in zip(m, py_stream(st, len(m), 0)))
        return out(d, 64 if name in ("arr", "1a") else None)
    if kind == "x":
        d = base64.b64encode(m)
        if name.startswith("size"):
            return len(d), 0, bytes(area)
        return out(d, 64 if name in ("arr", "1a") else None)


def replay(form, cases, what):
    """run the form natively on the real primitives"""
    kind, name = form.split("_")
    lines, want = [], []
    for k, s, m, dn, it in cases:
        if kind == "y":
            # decoding: a good text and a spoiled one
            good = base64.b64encode(m)
            for t, bad in ((good, False), (good[:5] + b"\x01" + good[6:], True)):
                if bad and len(good) < 8:
                    continue
                lines.append("%s - 00000000 %s %d %d" % (form, t.hex() or "-", dn, it))
                area = bytearray(b"\xa5" * OUT)
                if name in ("arr", "arrx") and not (bad and name == "arrx"):
                    area[:64] = b"\x5a" * 64
                if name.startswith("size"):
                    want.append(("size", len(m)))
                    continue
                part = m if not bad else m[:3]
                res = 7777 if bad and name.endswith("x") else len(part)
                if not (bad and name.endswith("x")):
                    area[:len(part)] = part
                want.append((res, 4 if bad else 0, bytes(area), bad))
        else:
            lines.append("%s %s %s %s %d %d" % (form, k.hex() or "-", s.hex() or "-", m.hex() or "-", dn, it))
            want.append(py_form(kind, name, k, s, m, dn, it))
    for san in (False, True):
        exe = build.native(PROG, ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), "-O1") if san else build.native(PROG)
        rc, got = build.call(exe, "\n".join(lines) + "\n", 100)
        g = got.strip().split("\n")
        if rc:
            raise Violation("%s: %s; native run ends with %s" % (form, what, rc), dict(script="\n".join(lines), got=got[-1500:], rc=rc, program=PROG))
        for l, w, x in zip(lines, want, g):
            r, e, a = x.split(" ")
            if w[0] == "size":
                if int(r) < w[1]:
                    raise Violation("%s: %s; native: %s on %s, smaller than what decoding gives, %d" % (form, what, r, l, w[1]), dict(script=l, got=x, program=PROG))
                continue
            area = bytes.fromhex(a)
            ok = (int(r), int(e)) == w[:2]
            if kind == "y" and form not in ("y_arr", "y_arrx"):
                # scratch beyond the reported size may have been written while decoding
                n = 0 if int(r) == 7777 else int(r)
                ok = ok and area[:n] == w[2][:n]
            elif kind == "y":
                n = 0 if int(r) == 7777 else int(r)
                ok = ok and area[:n] == w[2][:n] and area[64:] == w[2][64:]
            else:
                ok = ok and area == w[2]
            if not ok:
                raise Violation("%s: %s; native result of '%s': %s, specified %d %d %s" % (form, what, l, x[:120], w[0], w[1], w[2].hex()[:100]),
                                dict(script=l, got=x, want="%d %d %s" % (w[0], w[1], w[2].hex()), program=PROG))


def form(ck, mod, kind, name, dmax=None, nmax=None):
    fname = "%s_%s" % (kind, name)
    eng = engine(mod)
    st = start(eng)
    kn, sn, n, dn, it = size_var("kn"), size_var("sn"), size_var("n"), size_var("dn"), var("it", 32)
    for x in (kn, sn, n):
        st.assume(ult(x, c64(1 << 50)))
    if nmax is not None:
        st.assume(ule(n, c64(nmax)))
    if kind in "ed":
        if name in ("two", "copy", "copyo", "assign", "re"):
            st.assume(ule(c64(3), n))
    if dmax is not None:
        st.assume(ule(dn, c64(dmax)))
    if name == "span" and kind in "hm":
        st.assume(ule(sn, c64(100)))
    kp = eng.alloc(st, kn, "k", lambda t: uf("k", 8, t), writable=False)
    if kind == "y":
        sp = eng.alloc(st, 4, "s")
        sn = c64(4)
    else:
        sp = eng.alloc(st, sn, "s", lambda t: uf("s", 8, t), writable=False)
    mp = eng.alloc(st, n, "m", lambda t: uf("m", 8, t), writable=False)
    op = eng.alloc(st, OUT, "out", lambda t: uf("old", 8, t))
    K, S, M = data("k", kn), data("s", sn), data("m", n)
    terms = [x for x in (kn, sn, n, dn) if x.op == "var"]

    def rep(m, what):
        a, b, c, d = [min(m(x), 100) for x in (kn, sn, n, dn)]
        if kind in "ed":
            c = max(c, 3)
        if kind in "xy":
            c = min(c, 40)
        cases = []
        for i in (m(it), 1, 3):
            i = min(i, 50)
            for dd in (d, 0, 1, 15, 16, 17, 20, 31, 32, 33, 40, 41):
                if dmax is not None:
                    dd = min(dd, dmax)
                for nn in (c, 3, 9, 40):
                    cases.append((lcg(a, 1), lcg(b, 2), lcg(nn, 3), dd, i))
                    cases.append((lcg(20, 1), lcg(7, 2), lcg(nn, 3), dd, i))
        cases = [x for i, x in enumerate(cases) if x not in cases[:i]]
        replay(fname, cases, what)
        raise Unconfirmed("%s: %s" % (fname, what))

    def check(s, goals, what, conds=()):
        r = prove_all(tuple(s.conds) + tuple(conds), goals)
        if r is not None:
            rep(minimize(list(s.conds) + list(conds) + [not_(goals[r[0]])], terms, steps=STEPS) or r[1], what)

    def pick(s, events, matches, what):
        for i, e in events:
            if matches(e):
                return i
        rep(solve.check(list(s.conds)), what)
    try:
        outs = eng.call(st, "@" + fname, [kp, kn, sp, sn, mp, n, op, dn, it])
    except Misuse as e:
        rep(lambda x: 9, str(e))
    total = 0
    for o in outs:
        s = o.st
        if solve.check(list(s.conds)) == "unsat":
            continue
        total += 1
        if o.kind != "ret":
            rep(solve.check(list(s.conds)), "ends in " + o.kind)
        cs = tuple(s.conds)

        def eqs(a, b):
            return same(cs, a, b) is None
        t = fresh("t", 64)
        st2 = (ult(t, c64(OUT)),)
        arr = 0
        if kind in "hm":
            f = HASHES[name]
            msg = K + M if kind == "h" and name in CONCAT else M
            key = Seq() if kind == "h" else K
            i = pick(s, [(i, e) for i, e in enumerate(s.events) if e[0] == "final"], lambda e: (kind == "h" or eqs(e[1], key)) and eqs(e[2], msg), "no computation over the expected input")
            want = c64(f[1]) if len(f) > 1 and f[1] else dn
            for cap in (c64(32), sn if f[0] == "sn" else c64(f[0])):
                want = ite(ult(cap, want), cap, want)
            arr = f[2] if len(f) > 2 else 0
            byte = dig(i, t)
        elif kind in "kp":
            f = KDFS[name]
            i = pick(s, list(enumerate([e for e in s.events if e[0] == "kdf"])),
                     lambda e: eqs(e[1], K) and eqs(e[2], S) and (eqs(e[3], M) if kind == "k" else prove_all(cs, [eq(e[4], it)]) is None), "no derivation from the expected inputs")
            want = c64(f[2]) if len(f) > 2 else ite(ult(c64(f[0]), dn), c64(f[0]), dn) if f else dn
            if name in ("two", "copy", "assign"):
                want = add(want, c64(8))
            arr = f[1] if len(f) > 1 and f[1] else 0
            byte = okm(i, t)
        elif kind in "ed":
            want = n
            if name.startswith("size"):
                check(s, [eq(o.val, n)], "size")
                continue
            i = pick(s, list(enumerate([e for e in s.events if e[0] == "cipher"])), lambda e: eqs(e[1], K) and eqs(e[2], S), "no cipher with the expected key and nonce")
            byte = xor(uf("m", 8, t), stream_byte(kind.upper(), i, t))
            arr = 64 if name in ("arr", "1a") else 0
        else:
            cap = ecap(n) if kind == "x" else dcap(n)
            if name.startswith("size"):
                check(s, [eq(o.val, cap)], "size")
                continue
            ev = "xenc" if kind == "x" else "xdec"
            pick(s, [(i, e) for i, e in enumerate(s.events) if e[0] == ev], lambda e: eqs(e[1], M), "the input is not coded")
            want = ite(ule(var("res", 64), cap), var("res", 64), cap)
            byte = uf(ev, 8, t)
            arr = 64 if name in ("arr", "arrx", "1a") else 0
            if kind == "y":
                bad = eq(var("bad", 1), const(1, 1))
                check(s, [eq(eng.peek(s, sp, 4), ite(bad, const(4, 32), const(0, 32)))], "error")
                if name.endswith("x"):
                    check(s, [eq(o.val, ite(bad, c64(7777), want))], "result")
                    cx = tuple(s.conds) + (not_(bad),)
                    if solve.check(list(cx)) == "unsat":
                        continue
                    st2 = st2 + (not_(bad),)
                    byt = ite(ult(t, want), byte, ite(ult(t, c64(arr)), const(0x5a, 8), uf("old", 8, t)) if arr else uf("old", 8, t))
                    check(s, [eq(eng.peek_at(s, op, t), byt)], "output", st2)
                    continue
        check(s, [eq(o.val, want)], "result")
        byt = ite(ult(t, want), byte, ite(ult(t, c64(arr)), const(0x5a, 8), uf("old", 8, t)) if arr else uf("old", 8, t))
        check(s, [eq(eng.peek_at(s, op, t), byt)], "output", st2)
    ck.used(eng)
    for p in eng.problems:
        if p["model"] is None:
            return False
        rep(minimize(list(p["st"].conds) + ([p["cond"]] if p["cond"] is not None else []), terms, steps=STEPS) or p["model"], "memory: " + p["msg"])
    if not total:
        raise Unsupported("no feasible path")
    return "%d paths" % total


def any_size(ck, mod, kind, name, dmax, nmax):
    """requested sizes without a limit, or else sizes up to 100 (results in containers are enumerated by size)"""
    try:
        return form(ck, mod, kind, name, dmax, nmax)
    except Unsupported:
        if dmax is not None or name not in GROWING:
            raise
    d = form(ck, mod, kind, name, 100, nmax)
    ck.bound("%s_%s: results of up to 100 bytes asked for" % (kind, name))
    return d


def forms():
    """every form of the harness: (kind, name)"""
    text = open(os.path.join(build.HARNESS, "wrap_forms.h")).read()
    out = re.findall(r"FORM\(([a-z])_(\w+)\) \{", text)
    cf = re.findall(r"FORM\(pre##_(\w+)\)", text)
    return out + [(k, c) for k in "ed" for c in cf]


GROWING = ("vec", "vecx", "ret", "retx", "retc", "1v", "1r", "1vx", "1rx", "initc")


def jobs(ck, mod, keep=lambda k, n: True):
    """contents that land in growing containers are of limited size (one path per size)"""
    deep = ck.thorough()
    out = []
    for k, n in forms():
        if keep(k, n):
            small = n in GROWING and not deep
            out.append(("%s_%s" % (k, n), any_size, ck, mod, k, n, (36 if small else 100) if k in "kp" else None, (12 if small else 60) if k in "edxy" else None))
    return out
