"""Induction over a count-controlled outer loop of an IR function.

The loop head is cut: header phis that advance by a constant per iteration become
initial + k*step for an arbitrary 64-bit iteration number k, memory changed by an
iteration becomes arbitrary, and one iteration is executed from there."""
from . import ir
from . import terms as tm
from .exec import Unsupported, Limit
from .terms import const, var, fresh, add, sub, eq, ult, not_, TRUE


def succs(code):
    x = code[-1]
    if x[0] == "br":
        return [x[2]]
    if x[0] == "condbr":
        return [x[3], x[4]]
    if x[0] == "switch":
        return [x[4]] + [c[1] for c in x[5]]
    if x[0] == "call":
        return [y for y in (x[5], x[6]) if y]
    return []


def natural_loops(f):
    """header -> set of blocks"""
    cache = f.cache
    order = f.order
    dom = {b: set(order) for b in order}
    entry = order[0]
    dom[entry] = {entry}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(cache[b]):
            preds[s].append(b)
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in preds[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in order:
        for s in succs(cache[b]):
            if s in dom[b]:
                body = {s, b}
                st = [b]
                while st:
                    x = st.pop()
                    if x == s:
                        continue
                    for p in preds[x]:
                        if p not in body:
                            body.add(p)
                            st.append(p)
                loops.setdefault(s, set()).update(body)
    return loops


def outer_loop(f):
    loops = natural_loops(f)
    if not loops:
        return None
    outer = [h for h in loops if not any(h in b and h2 != h for h2, b in loops.items())]
    return max(outer, key=lambda h: sum(len(f.cache[b]) for b in loops[h]))


class Iter:
    """one generic iteration from the loop head"""

    def __init__(self):
        self.k = None
        self.head = None       # state at the head (generic)
        self.entry = None      # state at the head on first arrival
        self.backs = []        # states that came back to the head
        self.outs = []         # Outcomes of paths that left the function
        self.values = []       # phis that are not affine: (name, fresh var, value on entry)
        self.affine = {}
        self.changed = {}      # object id -> list of changed byte indexes


def loop_function(eng, fname):
    """the function holding the largest outermost loop among those reached by direct calls"""
    best = None
    seen = set()
    todo = [fname]
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.add(n)
        f = eng.m.fns.get(n)
        if f is None or not f.defined:
            continue
        eng.m.parser.finish(f)
        h = outer_loop(f)
        if h is not None:
            size = sum(len(f.cache[b]) for b in natural_loops(f)[h])
            if best is None or size > best[0]:
                best = (size, f, h)
        if best is not None and n == fname:
            break
        for code in f.cache.values():
            for ins in code:
                if ins[0] == "call" and ins[3][0] == "g":
                    todo.append(ins[3][1])
    if best is None:
        raise Unsupported("no loop in " + fname)
    return best[1], best[2]


def run_to_head(eng, st, fname, args):
    """(function, header, states at header, outcomes that never reach it)"""
    if not fname.startswith("@"):
        fname = "@" + fname
    f = eng.m.fns[fname]
    eng.m.parser.finish(f)
    fl, h = loop_function(eng, fname)
    s = st.fork()
    eng.push(s, f, args, None)
    merge, eng.merge = eng.merge, False
    try:
        heads, outs = one_iter(eng, s, fl, h, len(s.frames) - 1)
    finally:
        eng.merge = merge
    return fl, h, heads, outs


def one_iter(eng, st, f, h, d0=0):
    """run until the head of the watched loop is entered (again) or the root function
    returns: (states at the head, outcomes)"""
    from .exec import Outcome
    saved, eng.outs = eng.outs, []
    watch, eng.watch = eng.watch, (f.name, h)
    try:
        s = st.fork()
        backs, outs = [], []
        for r in eng.explore(s, d0, None):
            if r.status == "stop":
                r.status = "run"
                backs.append(r)
            else:
                v = r.retv
                r.frames.pop()
                outs.append(Outcome(r, "ret", v))
        outs += eng.outs
    finally:
        eng.outs = saved
        eng.watch = watch
    return backs, outs


def changed_bytes(a, b):
    """bytes of objects that differ between two states: oid -> indexes or 'log'"""
    ch = {}
    for oid, o in b.mem.items():
        q = a.mem.get(oid)
        if q is None or q is o:
            continue
        if o.data is not None:
            idx = [i for i, (x, y) in enumerate(zip(q.data, o.data)) if x is not y]
            if idx:
                ch[oid] = idx
        elif len(o.log) != len(q.log):
            ch[oid] = "log"
    return ch


def generic_iteration(eng, entry, f, h, kname="k", couple=None, havoc_log=None, assume=None, guess=None):
    """entry: state at the head on first arrival.  Returns Iter.
    couple: {var: fresh var}: loop-carried locations whose entry value mentions such a
    variable hold the same expression over the fresh variables at the generic head.
    assume(k): width-1 term, the induction invariant for k at the loop head.
    guess(name, entry value, k): value of a phi that is not affine, or None (the caller checks it).
    havoc_log(state, object, k): installs the inductive content of a symbolic-size object."""
    couple = couple or {}
    cvars = set(couple)
    d = len(entry.frames) - 1
    # trial iteration from the entry gives steps and changed memory
    backs, _ = one_iter(eng, entry, f, h)
    if not backs:
        raise Unsupported("loop body never repeats")
    code = f.cache[h]
    phis = [ins for ins in code if ins[0] == "phi"]
    it = Iter()
    it.entry = entry
    it.coupled = []      # (getter(state) -> term, entry expression)
    k = fresh(kname, 64)
    it.k = k
    g = entry.fork()
    fr = g.frames[-1]
    e0 = entry.frames[-1].env

    def over(t):
        return any(v in cvars for v in tm.variables([t]))
    for ins in phis:
        n = ins[1]
        p0 = e0[n]
        if over(p0):
            fr.env[n] = tm.substitute([p0], couple)[0]
            it.coupled.append((lambda s, n=n: s.frames[-1].env[n], p0, n))
            continue
        deltas = [sub(b.frames[-1].env[n], p0) for b in backs]
        if all(x.op == "const" and x is deltas[0] for x in deltas):
            w = p0.w
            kk = k if w == 64 else (tm.trunc(k, w) if w < 64 else tm.zext(k, w))
            fr.env[n] = add(p0, tm.mul(kk, deltas[0]))
            it.affine[n] = (p0, deltas[0])
        else:
            v = fresh("phi" + n.strip("%"), p0.w)
            x = guess(n, p0, k) if guess is not None else None
            fr.env[n] = v if x is None else x
            it.values.append((n, v, p0))
    it.changed = {}
    for b in backs:
        for oid, idx in changed_bytes(entry, b).items():
            cur = it.changed.setdefault(oid, idx if idx == "log" else set())
            if cur != "log":
                cur.update(idx)
    for oid, idx in it.changed.items():
        o = eng.wobj(g, oid)
        if idx == "log":
            if havoc_log is None:
                raise Unsupported("loop writes %s" % o.name)
            havoc_log(g, o, k)
        else:
            for i in sorted(idx):
                old = entry.mem[oid].data[i]
                if old is not None and over(old):
                    o.data[i] = tm.substitute([old], couple)[0]
                    it.coupled.append((lambda s, oid=oid, i=i: s.mem[oid].data[i], old, "%s[%d]" % (o.name, i)))
                else:
                    o.data[i] = fresh("it_%s_%d" % (o.name, i), 8)
    if assume is not None:
        g.assume(assume(k))
    it.head = g
    it.backs, it.outs = one_iter(eng, g, f, h)
    # the affine guess must be inductive
    it.affine_ok = True
    for b in it.backs:
        for n, (p0, dl) in it.affine.items():
            x = b.frames[-1].env[n]
            if sub(x, fr.env[n]) is not dl:
                it.affine_ok = False
    return it


class Broken(Exception):
    """the induction does not go through as it is (not a verdict on the code)"""


def implies(eng, conds, c):
    """True when the conditions imply c, else a model or None"""
    if c is TRUE:
        return True
    from . import solve
    r = solve.check(list(conds) + [not_(c)], 60)
    return True if r == "unsat" else r


def block_induction(eng, st, fname, args, N, H, step, final, effects=None, havoc_log=None):
    """Induction on the number of blocks.
    H: variables of the chaining state on entry; step(h, k) -> next chaining state terms;
    final(state) -> chaining state terms stored when the function returned;
    effects(head, state, hk, k): extra checks of a path that did one step (raises Broken).
    Raises Broken when it does not go through.  Returns a description."""
    from . import equiv
    f, h, heads, outs = run_to_head(eng, st, fname, args)
    for o in outs:
        if o.kind != "ret":
            raise Broken("path ends in %s" % o.kind)
        if implies(eng, o.st.conds, eq(N, const(0, 64))) is not True:
            raise Broken("returns without entering the loop for a count other than 0")
        if final and equiv.equivalent(final(o.st), H, o.st.conds).status != "equal":
            raise Broken("state changes for count 0")
    if not heads:
        raise Broken("the loop is never reached")
    couple = {x: fresh(x.p, x.w) for x in H}
    hk = [couple[x] for x in H]
    npaths = 0
    for head in heads:
        inv = None
        for name, rel in (("k<N", lambda k: ult(k, N)), ("k<=N", lambda k: tm.ule(k, N))):
            if implies(eng, head.conds, rel(const(0, 64))) is not True:
                continue
            it = generic_iteration(eng, head, f, h, couple=couple, havoc_log=havoc_log, assume=rel)
            if not it.affine_ok:
                continue
            if all(implies(eng, b.conds, rel(add(it.k, const(1, 64)))) is True for b in it.backs):
                inv = name
                break
        if inv is None:
            raise Broken("no counting invariant")
        k = it.k
        nxt = step(hk, k)
        sub1 = dict(zip(H, nxt))
        for b in it.backs:
            npaths += 1
            got = [g(b) for g, e, n in it.coupled]
            if any(x is None for x in got):
                raise Broken("uninitialised loop-carried value")
            want = tm.substitute([e for g, e, n in it.coupled], sub1)
            r = equiv.equivalent(got, want, b.conds)
            if r.status != "equal":
                raise Broken("loop-carried state is not the specified next state (%s)" % r.status)
            if effects:
                effects(it.head, b, hk, k)
        for o in it.outs:
            npaths += 1
            if o.kind != "ret":
                raise Broken("path ends in %s" % o.kind)
            if implies(eng, o.st.conds, eq(N, k)) is True:
                want, did = hk, False
            elif implies(eng, o.st.conds, eq(N, add(k, const(1, 64)))) is True:
                want, did = nxt, True
            else:
                raise Broken("leaves the loop before the last block")
            r = equiv.equivalent(final(o.st), want, o.st.conds) if final else None
            if r is not None and r.status != "equal":
                raise Broken("stored state is not the specified state (%s)" % r.status)
            if effects and did:
                effects(it.head, o.st, hk, k)
    if eng.problems:
        raise Broken("memory: " + eng.problems[0]["msg"])
    return "induction on the block count (%s), %d loop-carried locations, %d paths" % (inv, len(it.coupled), npaths)
