"""Byte sequences of symbolic length, and helpers shared by the checks."""
from sx import terms as tm
from sx.terms import const, var, add, sub, ite, and_, or_, not_, eq, ult, ule, uf, concat

Z64 = const(0, 64)


def c64(x):
    return const(x, 64)


class Seq:
    """concatenation of segments (length term, function offset -> byte)"""

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __add__(self, o):
        return Seq(self.segs + o.segs)

    def length(self):
        r = Z64
        for n, _ in self.segs:
            r = add(r, n)
        return r

    def at(self, t):
        """byte at index t (0 beyond the end)"""
        start = Z64
        parts = []
        for n, f in self.segs:
            rel = sub(t, start)
            parts.append((ult(rel, n), f, rel))
            start = add(start, n)
        r = const(0, 8)
        for c, f, rel in reversed(parts):
            if c is tm.FALSE:
                continue
            r = ite(c, f(rel), r)
        return r

    def split(self, n):
        return self


# sizes given a value for the duration of one obligation (see at_sizes)
FIXED = {}


def size_var(name, w=64):
    return const(FIXED[name], w) if name in FIXED else var(name, w)


def at_sizes(sizes, f, *args):
    """the obligation f with some of its symbolic sizes set to values"""
    old = dict(FIXED)
    FIXED.update(sizes)
    try:
        return f(*args)
    finally:
        FIXED.clear()
        FIXED.update(old)


def data(name, n):
    """symbolic data of length n"""
    return Seq([(n, lambda t, name=name: uf(name, 8, t))])


def lit(bs):
    bs = list(bs)

    def f(t, bs=bs):
        if t.op == "const":
            return bs[t.p]
        r = bs[0]
        for i in range(1, len(bs)):
            r = ite(eq(t, c64(i)), bs[i], r)
        return r
    return Seq([(c64(len(bs)), f)]) if bs else Seq()


def snapshot(eng, st, p):
    """reader for the current content behind pointer p"""
    base, off = eng.resolve(p)
    o = eng.obj(st, base)
    st.owned.discard(o.id)
    return lambda t: eng.read_byte(o, add(off, t))


def be_bytes(x):
    n = x.w // 8
    return [tm.extract(x, 8 * (n - 1 - i) + 7, 8 * (n - 1 - i)) for i in range(n)]


def le_bytes(x):
    n = x.w // 8
    return [tm.extract(x, 8 * i + 7, 8 * i) for i in range(n)]


def hexs(bs):
    return "".join("%02x" % b for b in bs)


def lcg(n, seed=1):
    """deterministic content for replays"""
    x = (seed * 2654435761 + 12345) & 0xffffffff
    out = bytearray()
    for _ in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        out.append(x >> 24)
    return bytes(out)


def chunk(model, name, n, cap=4096):
    """content of an uninterpreted source in a model"""
    return bytes(model(uf(name, 8, c64(i))) for i in range(min(n, cap)))


def atoms_of(conds):
    """replacements implied syntactically by path conditions"""
    m = {}
    todo = list(conds)
    while todo:
        c = todo.pop()
        if c.op == "const":
            continue
        if c.op == "and":
            todo.extend(c.a)
        if c.op == "xor" and len(c.a) == 2 and c.a[1] is tm.TRUE:
            x = c.a[0]
            m[x] = tm.FALSE
            if x.op == "or":
                todo.extend(not_(y) for y in x.a)
            if x.op == "ult":
                # not b < a: min(a, b) is a
                b, a = x.a
                m[ite(ult(a, b), a, b)] = a
            continue
        m[c] = tm.TRUE
        if c.op == "eq":
            x, y = c.a
            if x.op == "const":
                x, y = y, x
            if y.op == "const" and x.op != "const":
                m[x] = y
        if c.op == "ult":
            a, b = c.a
            m[ite(ult(b, a), b, a)] = a
    return m


def under(conds, terms):
    """terms simplified by the path conditions (syntactic)"""
    m = atoms_of(conds)
    m = {k: v for k, v in m.items() if k.op != 'const' and k is not v}
    return tm.substitute(list(terms), m) if m else list(terms)


def narrow(conds):
    """variables whose high bits are known: {x: zext(low bits)}"""
    m = {}
    for c in conds:
        if c.op == "eq":
            x, y = c.a
            if x.op == "const":
                x, y = y, x
            if y.op == "const" and x.op == "ext" and x.a[0].op == "var" and x.p[0] == x.a[0].w - 1 and 0 < x.p[1] <= 12:
                v = x.a[0]
                k = x.p[1]
                if v not in m or m[v][0] > k:
                    m[v] = (k, concat(y, tm.extract(v, k - 1, 0)))
    return {v: t for v, (k, t) in m.items()}


def tidy(conds):
    """conditions simplified by the ones before them"""
    out = []
    for c in conds:
        c = under(out, under(out, [c]))[0]
        if c is tm.TRUE:
            continue
        if c.op == "and":
            out.extend(c.a)
        else:
            out.append(c)
    return tuple(out)


def prove_all(conds, goals, timeout=120):
    """index of the first goal that does not hold and its model, or None when all hold.
    Raises Undecided when the solver gives up."""
    from sx import solve
    orig = tuple(conds)
    goals = under(orig, goals)
    conds = tidy(conds)
    nm = narrow(conds)
    if nm:
        conds = tidy(tm.substitute(list(conds), nm))
        goals = tm.substitute(goals, nm)
        conds = conds + tuple(c for c in orig if c.op == "eq" and c not in conds)
    idx = [i for i, g in enumerate(goals) if g is not tm.TRUE]
    if not idx:
        return None
    simp = under(conds, under(conds, [goals[i] for i in idx]))
    rest = [(i, g) for i, g in zip(idx, simp) if g is not tm.TRUE]
    seen = set()
    for i, g in rest:
        if g.id in seen:
            continue
        seen.add(g.id)
        r = solve.check(list(conds) + [not_(g)], timeout)
        if r == "unsat":
            continue
        if r is None:
            raise Undecided("goal %d: %s" % (i, tm.show(g, 4)[:200]))
        return i, r
    return None


class Undecided(Exception):
    pass


def cases(n, conds=(), limit=4):
    """split a term that depends on few conditions into [(conds, constant)] or None"""
    if n.op == "const":
        return [((), n)]
    ats = []
    seen = set()
    st = [n]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.w == 1 and t.op != "const":
            ats.append(t)
            continue
        st.extend(t.a)
    if not ats or len(ats) > limit:
        return None
    out = []
    for bits in range(1 << len(ats)):
        m = {a: (tm.TRUE if bits >> i & 1 else tm.FALSE) for i, a in enumerate(ats)}
        v = tm.substitute([n], m)[0]
        if v.op != "const":
            return None
        out.append((tuple(a if bits >> i & 1 else not_(a) for i, a in enumerate(ats)), v))
    return out
