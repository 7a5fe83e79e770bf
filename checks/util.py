"""Common shape of an obligation: run a harness function on symbolic input, check goals on every
outcome, replay a counterexample natively."""
from sx import build, solve, terms as tm
from sx.exec import Engine, Unsupported
from sx.report import Skip, Unconfirmed, Violation
from sx.terms import add, and_, const, eq, extract, fresh, ite, not_, or_, sub, uf, ule, ult, var, concat

from .msg import Undecided, c64, hexs, le_bytes, prove_all


def sym(name, n):
    """n symbolic bytes"""
    return [var("%s_%d" % (name, i), 8) for i in range(n)]


def contract(ck, mod, fname, setup, goals, replay, merge=True, timeout=120, engine=None, kinds=("ret",), init=False, **kw):
    """setup(eng, st) -> (args, ctx); goals(eng, outcome, ctx) -> [(term, what)];
    replay(model, ctx, what) raises Violation when the native build misbehaves"""
    eng = engine or Engine(mod, merge=merge, **kw)
    st = eng.new_state()
    if init:
        from .hashes import start
        st = start(eng)
    args, ctx = setup(eng, st)
    outs = eng.call(st, fname, args)
    ck.used(eng)
    if not outs:
        raise Unsupported("no outcome from " + fname)
    for o in outs:
        if o.kind not in kinds:
            m = solve.check(list(o.st.conds))
            if m == "unsat":
                continue
            what = "%s ends in %s (%s)" % (fname, o.kind, o.val)
            if m is not None:
                replay(m, ctx, what)
            raise Unconfirmed(what)
        gs = goals(eng, o, ctx)
        gs = [(g, w) for g, w in gs if g is not tm.TRUE]
        if not gs:
            continue
        r = prove_all(o.st.conds, [g for g, _ in gs], timeout)
        if r is not None:
            what = "%s: %s" % (fname, gs[r[0]][1])
            replay(r[1], ctx, what)
            raise Unconfirmed(what)
    for p in eng.problems:
        if p["model"] is None:
            return False
        what = "%s: %s" % (fname, p["msg"])
        replay(p["model"], ctx, what)
        raise Unconfirmed(what)
    return "%d paths" % len(outs)


def conc(m, terms):
    return bytes(m(t) for t in terms)


def eq_bytes(eng, st, p, want, what="byte"):
    """goals: memory at p holds the terms want"""
    return [(eq(eng.peek_at(st, p, c64(i)), w), "%s %d" % (what, i)) for i, w in enumerate(want)]


def native_san(src, **kw):
    return build.native(src, extra=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1", **kw)


def compare(exe_src, script, want, what, replay=None, san=True, timeout=60, rc_want=0):
    """run a script in the plain and in the sanitizer build; Violation when the output is not as specified"""
    exes = [build.native(exe_src)]
    if san:
        exes.append(native_san(exe_src))
    for exe in exes:
        rc, out = build.call(exe, script, timeout)
        got = out.strip()
        if rc != rc_want or (want is not None and got != want):
            raise Violation("%s; native: exit %s, output %s, specified %s" % (what, rc, got[:300], (want or "")[:300]),
                            dict(script=script[:4000], got=got[:2000], want=want, rc=rc, program=exe_src, **(replay or {})))
    return False
