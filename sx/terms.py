"""Hash-consed bit-vector terms with light normalisation.

A Boolean is a bit-vector of width 1.  Pointers are ordinary 64-bit terms
"base variable + offset".  The normaliser keeps sums linear, turns constant
shifts and rotations into concatenations of slices, and cancels xor pairs, so
that differently written address and bit-shuffling code meets in one form; every
decision beyond that is left to the solver.
"""
import random


class T:
    __slots__ = ("op", "w", "a", "p", "id", "_mx")

    def __repr__(self):
        return show(self, 4)


_table = {}
_count = [0]
ALL = []


def _mk(op, w, a=(), p=None):
    k = (op, w, tuple([x.id for x in a]), p)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.p = p
        t.id = _count[0]
        t._mx = None
        _count[0] += 1
        _table[k] = t
    return t


def show(t, d=3):
    if t.op == "const":
        return "%#x:%d" % (t.p, t.w)
    if t.op == "var":
        return t.p
    if d == 0:
        return "..."
    if t.op == "add":
        return "(" + " + ".join(
            ("" if c == 1 else "%#x*" % c) + show(x, d - 1) for c, x in zip(t.p[0], t.a)) + \
            ((" + %#x" % t.p[1]) if t.p[1] else "") + ")"
    if t.op == "ext":
        return "%s[%d:%d]" % (show(t.a[0], d - 1), t.p[0], t.p[1])
    return "%s%s(%s)" % (t.op, "" if t.p is None else "<%s>" % (t.p,), ", ".join(show(x, d - 1) for x in t.a))


def const(v, w):
    return _mk("const", w, (), v & ((1 << w) - 1))


def var(name, w):
    return _mk("var", w, (), name)


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), w)


TRUE = const(1, 1)
FALSE = const(0, 1)


def b(v):
    return TRUE if v else FALSE


def is_const(t):
    return t.op == "const"


def mask(w):
    return (1 << w) - 1


# ---------------------------------------------------------------- arithmetic
def _lin_of(t):
    """(list of (coef, term), const) of t as a linear combination mod 2^w."""
    if t.op == "const":
        return (), t.p
    if t.op == "add":
        return tuple(zip(t.p[0], t.a)), t.p[1]
    if t.op == "concat" and t.a[-1].op == "const" and t.a[-1].p == 0:
        k = t.a[-1].w
        hi = t.a[:-1]
        w = t.w
        if len(hi) == 1 and hi[0].op == "ext" and hi[0].p[1] == 0 and hi[0].a[0].w == w:
            x = hi[0].a[0]
            lt, lc = _lin_of(x)
            return tuple((c << k, y) for c, y in lt), lc << k
        if len(hi) == 1 and hi[0].op == "ext" and hi[0].p == (w - 1, k) and hi[0].a[0].w == w:
            # x with its low k bits cleared: x - zext(low bits)
            x = hi[0].a[0]
            lt, lc = _lin_of(x)
            return lt + ((-1, zext(extract(x, k - 1, 0), w)),), lc
        u = concat(*([const(0, k)] + list(hi)))
        return ((1 << k, u),), 0
    return ((1, t),), 0


def _lin_build(acc, c, w):
    m = mask(w)
    c &= m
    items = [(x, k & m) for x, k in acc.items() if k & m]
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1:
        x, k = items[0]
        if k == 1:
            return x
        if k & (k - 1) == 0:
            s = k.bit_length() - 1
            return concat(extract(x, w - s - 1, 0), const(0, s))
    if c == 0 and len(items) == 2:
        # back to the form with the low bits cleared
        for (x, k), (z, l) in (items, items[::-1]):
            if k == 1 and l == m and z.op == "concat" and len(z.a) == 2 and z.a[0].op == "const" and z.a[0].p == 0 \
                    and z.a[1].op == "ext" and z.a[1].a[0] is x and z.a[1].p[1] == 0:
                j = z.a[1].w
                return concat(extract(x, w - 1, j), const(0, j))
    items.sort(key=lambda z: z[0].id)
    return _mk("add", w, tuple([x for x, _ in items]), (tuple([k for _, k in items]), c))


def _lincomb(pairs, w):
    acc = {}
    c = 0
    for k, t in pairs:
        lt, lc = _lin_of(t)
        c += k * lc
        for kk, x in lt:
            acc[x] = acc.get(x, 0) + k * kk
    again = True
    while again:
        again = False
        for x, k in list(acc.items()):
            # (y >> j) * 2^j is y - (y mod 2^j)
            if x.op == "concat" and len(x.a) == 2 and x.a[0].op == "const" and x.a[0].p == 0 and x.a[1].op == "ext":
                y = x.a[1].a[0]
                j = x.a[0].w
                if y.w == w and x.a[1].p == (w - 1, j) and k & mask(w) and k % (1 << j) == 0:
                    del acc[x]
                    k >>= j
                    lt, lc = _lin_of(y)
                    c += k * lc
                    for kk, z in lt:
                        acc[z] = acc.get(z, 0) + k * kk
                    z = zext(extract(y, j - 1, 0), w)
                    acc[z] = acc.get(z, 0) - k
                    again = True
    return _lin_build(acc, c, w)


def add(*ts):
    w = ts[0].w
    if w == 1:
        return xor(*ts)
    return _lincomb([(1, t) for t in ts], w)


def sub(x, y):
    if x.w == 1:
        return xor(x, y)
    return _lincomb([(1, x), (-1, y)], x.w)


def neg(x):
    if x.w == 1:
        return x
    return _lincomb([(-1, x)], x.w)


def mul(x, y):
    if x.w == 1:
        return and_(x, y)
    if x.op == "const":
        x, y = y, x
    if y.op == "const":
        return _lincomb([(y.p, x)], x.w)
    # pull out constant factors of single-term linear forms
    args = []
    coef = 1
    for z in (x, y):
        lt, lc = _lin_of(z)
        if lc == 0 and len(lt) == 1:
            coef *= lt[0][0]
            z = lt[0][1]
        if z.op == "mul":
            args += list(z.a)
        else:
            args.append(z)
    args.sort(key=lambda t: t.id)
    m = _mk("mul", x.w, tuple(args))
    return _lincomb([(coef, m)], x.w) if coef != 1 else m


# ---------------------------------------------------------------- structure
def extract(t, hi, lo):
    w = hi - lo + 1
    assert 0 <= lo <= hi < t.w, (t.w, hi, lo)
    if w == t.w:
        return t
    op = t.op
    if op == "const":
        return const(t.p >> lo, w)
    if op == "ext":
        return extract(t.a[0], hi + t.p[1], lo + t.p[1])
    if op == "concat":
        parts = []
        pos = t.w
        for x in t.a:
            pos -= x.w
            h = min(hi, pos + x.w - 1)
            l = max(lo, pos)
            if h >= l:
                parts.append(extract(x, h - pos, l - pos))
        return concat(*parts)
    if op == "ite":
        if (t.a[1].op == "const" or t.a[2].op == "const") or \
                (t.a[1].op in ("concat", "ext") and t.a[2].op in ("concat", "ext")):
            return ite(t.a[0], extract(t.a[1], hi, lo), extract(t.a[2], hi, lo))
    if op == "sext":
        x = t.a[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo >= x.w:
            return sext(extract(x, x.w - 1, x.w - 1), w)
        return sext(extract(x, x.w - 1, lo), w)
    if op in ("and", "or", "xor") and t.a[-1].op == "const":
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return f(*[extract(x, hi, lo) for x in t.a])
    if op == "add" and lo == 0 and t.w == 64 and hi < 31 and hi not in (7, 15):
        # offsets modulo a power of two (whole bytes stay together, so that concat can merge them)
        ks, c = t.p
        return _lincomb([(k, extract(x, hi, 0)) for k, x in zip(ks, t.a)] + [(1, const(c, w))], w)
    if lo > 0 and umax(t) < (1 << lo):
        return const(0, w)
    return _mk("ext", w, (t,), (hi, lo))


def trunc(t, w):
    return extract(t, w - 1, 0)


def concat(*ts):
    """most significant first"""
    flat = []
    for t in ts:
        if t is None or t.w == 0:
            continue
        if t.op == "concat":
            flat.extend(t.a)
        else:
            flat.append(t)
    out = []
    for t in flat:
        if out:
            q = out[-1]
            if q.op == "const" and t.op == "const":
                out[-1] = const((q.p << t.w) | t.p, q.w + t.w)
                continue
            if q.op == "ext" and t.op == "ext" and q.a[0] is t.a[0] and q.p[1] == t.p[0] + 1:
                out[-1] = extract(q.a[0], q.p[0], t.p[1])
                continue
            if q.op == "ite" and t.op == "ite" and q.a[0] is t.a[0] and \
                    (_mergeable(q.a[1], t.a[1]) and _mergeable(q.a[2], t.a[2])):
                out[-1] = ite(q.a[0], concat(q.a[1], t.a[1]), concat(q.a[2], t.a[2]))
                continue
        out.append(t)
    if len(out) == 1:
        return out[0]
    w = sum(t.w for t in out)
    return _mk("concat", w, tuple(out))


def _mergeable(q, t):
    if q.op == "const" and t.op == "const":
        return True
    if q.op == "ext" and t.op == "ext" and q.a[0] is t.a[0] and q.p[1] == t.p[0] + 1:
        return True
    if q.op == "ite" and t.op == "ite" and q.a[0] is t.a[0]:
        return _mergeable(q.a[1], t.a[1]) and _mergeable(q.a[2], t.a[2])
    return False


def zext(t, w):
    if w == t.w:
        return t
    return concat(const(0, w - t.w), t)


def sext(t, w):
    if w == t.w:
        return t
    if t.op == "const":
        v = t.p
        if v >> (t.w - 1):
            v |= mask(w) ^ mask(t.w)
        return const(v, w)
    if t.op == "concat" and t.a[0].op == "const":
        c = t.a[0]
        s = (c.p >> (c.w - 1)) & 1
        return concat(const(mask(w - t.w) if s else 0, w - t.w), t)
    if t.op == "sext":
        return sext(t.a[0], w)
    if t.op == "ite" and (t.a[1].op == "const" or t.a[2].op == "const"):
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    return _mk("sext", w, (t,))


def shl_c(x, k):
    if k == 0:
        return x
    if k >= x.w:
        return const(0, x.w)
    return concat(extract(x, x.w - k - 1, 0), const(0, k))


def lshr_c(x, k):
    if k == 0:
        return x
    if k >= x.w:
        return const(0, x.w)
    return concat(const(0, k), extract(x, x.w - 1, k))


def ashr_c(x, k):
    if k == 0:
        return x
    k = min(k, x.w - 1)
    return sext(extract(x, x.w - 1, k), x.w)


def shl(x, s):
    if s.op == "const":
        return shl_c(x, s.p)
    if x.op == "const" and x.p == 0:
        return x
    return _mk("shl", x.w, (x, s))


def lshr(x, s):
    if s.op == "const":
        return lshr_c(x, s.p)
    if x.op == "const" and x.p == 0:
        return x
    return _mk("lshr", x.w, (x, s))


def ashr(x, s):
    if s.op == "const":
        return ashr_c(x, s.p)
    if x.op == "const" and x.p == 0:
        return x
    return _mk("ashr", x.w, (x, s))


def rotl_c(x, k):
    k %= x.w
    if k == 0:
        return x
    return concat(extract(x, x.w - k - 1, 0), extract(x, x.w - 1, x.w - k))


def rotr_c(x, k):
    return rotl_c(x, x.w - (k % x.w))


# ---------------------------------------------------------------- bitwise
def _bounds(args):
    bs = set()
    for t in args:
        if t.op == "concat":
            pos = t.w
            for x in t.a[:-1]:
                pos -= x.w
                bs.add(pos)
    return bs


def _split_merge(args, w, f):
    """or/xor of concatenations where in every segment at most one is nonzero"""
    if not any(t.op == "concat" for t in args):
        return None
    nz = 0
    for t in args:
        if t.op == "concat":
            if any(x.op == "const" and x.p == 0 for x in t.a):
                nz += 1
            else:
                return None
        elif t.op != "const":
            return None
    cuts = sorted(_bounds(args) | {0, w})
    if len(cuts) > 40:
        return None
    segs = []
    for lo, hi in zip(cuts, cuts[1:]):
        vals = []
        for t in args:
            x = extract(t, hi - 1, lo)
            if x.op == "const" and x.p == 0:
                continue
            vals.append(x)
        if len(vals) > 1:
            if all(v.op == "const" for v in vals):
                vals = [f(*vals)]
            else:
                return None
        segs.append(vals[0] if vals else const(0, hi - lo))
    return concat(*reversed(segs))


def not_(x):
    return xor(x, const(-1, x.w))


def xor(*ts):
    w = ts[0].w
    m = mask(w)
    c = 0
    cnt = {}
    for t in ts:
        assert t.w == w
        if t.op == "const":
            c ^= t.p
        elif t.op == "xor":
            for x in t.a:
                if x.op == "const":
                    c ^= x.p
                elif x in cnt:
                    del cnt[x]
                else:
                    cnt[x] = 1
        elif t in cnt:
            del cnt[t]
        else:
            cnt[t] = 1
    items = list(cnt)
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1:
        return items[0]
    if w == 1 and c == 1 and len(items) == 1:
        t = items[0]
        if t.op == "ite" and t.a[1].op == "const":
            return ite(t.a[0], xor(t.a[1], TRUE), xor(t.a[2], TRUE))
    if len(items) == 1 and items[0].op == "ite" and items[0].a[1].op == "const" and items[0].a[2].op == "const":
        t = items[0]
        return ite(t.a[0], const(t.a[1].p ^ c, w), const(t.a[2].p ^ c, w))
    items.sort(key=lambda t: t.id)
    args = items + ([const(c, w)] if c else [])
    r = _split_merge(args, w, xor)
    if r is not None:
        return r
    return _mk("xor", w, tuple(args))


def _runs(v, w):
    """list of (hi, lo, bit) from high to low"""
    out = []
    i = w - 1
    while i >= 0:
        bit = (v >> i) & 1
        j = i
        while j - 1 >= 0 and ((v >> (j - 1)) & 1) == bit:
            j -= 1
        out.append((i, j, bit))
        i = j - 1
    return out


def and_(*ts):
    w = ts[0].w
    m = mask(w)
    c = m
    items = {}
    for t in ts:
        assert t.w == w, (t.w, w)
        if t.op == "const":
            c &= t.p
        elif t.op == "and":
            for x in t.a:
                if x.op == "const":
                    c &= x.p
                else:
                    items[x] = 1
        else:
            items[t] = 1
    if c == 0:
        return const(0, w)
    if not items:
        return const(c, w)
    l = sorted(items, key=lambda t: t.id)
    for t in l:
        if t.op == "xor" and len(t.a) == 2 and t.a[1].op == "const" and t.a[1].p == m and t.a[0] in items:
            return const(0, w)
    if c == m:
        if len(l) == 1:
            return l[0]
        return _mk("and", w, tuple(l))
    rs = _runs(c, w)
    if len(rs) <= 9:
        base = l[0] if len(l) == 1 else _mk("and", w, tuple(l))
        return concat(*[extract(base, hi, lo) if bit else const(0, hi - lo + 1) for hi, lo, bit in rs])
    return _mk("and", w, tuple(l) + (const(c, w),))


def or_(*ts):
    w = ts[0].w
    m = mask(w)
    c = 0
    items = {}
    for t in ts:
        assert t.w == w
        if t.op == "const":
            c |= t.p
        elif t.op == "or":
            for x in t.a:
                if x.op == "const":
                    c |= x.p
                else:
                    items[x] = 1
        else:
            items[t] = 1
    if c == m:
        return const(m, w)
    if not items:
        return const(c, w)
    l = sorted(items, key=lambda t: t.id)
    if c == 0 and len(l) == 1:
        return l[0]
    if w == 1:
        for t in l:
            if xor(t, TRUE) in items:
                return TRUE
    args = l + ([const(c, w)] if c else [])
    r = _split_merge(args, w, or_)
    if r is not None:
        return r
    return _mk("or", w, tuple(args))


def implies(x, y):
    return or_(not_(x), y)


# ---------------------------------------------------------------- predicates
def eq(x, y):
    assert x.w == y.w, (x.w, y.w)
    if x is y:
        return TRUE
    if x.op == "const":
        x, y = y, x
    w = x.w
    if x.op == "const":
        return b(x.p == y.p)
    if w == 1:
        return not_(xor(x, y))
    if y.op == "const":
        if y.p > umax(x):
            return FALSE
        if x.op == "concat":
            return and_(*[eq(extract(x, h, l), const(y.p >> l, h - l + 1)) for h, l in _segs(x)])
        if x.op == "ite":
            if x.a[1].op == "const":
                return or_(x.a[0], eq(x.a[2], y)) if x.a[1].p == y.p else and_(not_(x.a[0]), eq(x.a[2], y))
            if x.a[2].op == "const":
                return or_(not_(x.a[0]), eq(x.a[1], y)) if x.a[2].p == y.p else and_(x.a[0], eq(x.a[1], y))
        if x.op == "sext":
            s = x.a[0]
            v = y.p & mask(s.w)
            if sext(const(v, s.w), w).p == y.p:
                return eq(s, const(v, s.w))
            return FALSE
        if x.op == "xor" and x.a[-1].op == "const":
            return eq(xor(x, x.a[-1]), const(y.p ^ x.a[-1].p, w))
        if x.op == "add" and x.p[1]:
            return eq(sub(x, const(x.p[1], w)), const(y.p - x.p[1], w))
        if x.op == "add" and len(x.a) == 1 and x.p[0][0] & 1:
            inv = pow(x.p[0][0], -1, 1 << w)
            return eq(x.a[0], const(y.p * inv, w))
        if x.op == "add" and y.p == 0 and len(x.a) == 2 and sorted(x.p[0]) == [1, mask(w)]:
            return eq(x.a[0], x.a[1])
        return _mk("eq", 1, (x, y))
    if x.op == "add" or y.op == "add":
        d = sub(x, y)
        if d.op == "const":
            return b(d.p == 0)
        if len(getattr(d, "a", ())) < len(x.a) + len(y.a):
            lt, lc = _lin_of(d)
            if len(lt) == 2 and lc == 0 and sorted(k for k, _ in lt) == [1, mask(w)]:
                pass
            elif len(lt) == 1:
                return eq(d, const(0, w))
    if x.op == "concat" and y.op == "concat":
        cuts = sorted(_bounds((x, y)) | {0, w})
        xs = [(extract(x, h - 1, l), extract(y, h - 1, l)) for l, h in zip(cuts, cuts[1:])]
        if any(p is q for p, q in xs):
            return and_(*[eq(p, q) for p, q in xs])
        if any(p.op == "const" and q.op == "const" and p.p != q.p for p, q in xs):
            return FALSE
    if x.id > y.id:
        x, y = y, x
    return _mk("eq", 1, (x, y))


def _segs(t):
    pos = t.w
    out = []
    for x in t.a:
        out.append((pos - 1, pos - x.w))
        pos -= x.w
    return out


def ne(x, y):
    return not_(eq(x, y))


def ult(x, y):
    if x is y:
        return FALSE
    if x.op == "const" and y.op == "const":
        return b(x.p < y.p)
    if umax(x) < umin(y):
        return TRUE
    if umin(x) >= umax(y):
        return FALSE
    if y.op == "const" and y.p == 1:
        return eq(x, const(0, x.w))
    if x.op == "const" and x.p == 0:
        return ne(y, x)
    if x.op == "const" and x.p == mask(x.w) - 1:
        return eq(y, const(mask(y.w), y.w))
    if x.w == 1:
        return and_(not_(x), y)
    # strip common zero high part
    if x.op == "concat" or y.op == "concat":
        n = x.w - max(umax(x), umax(y)).bit_length()
        if n > 0 and n < x.w:
            return ult(extract(x, x.w - n - 1, 0), extract(y, x.w - n - 1, 0))
    if y.op == "const" and y.p & (y.p - 1) == 0:
        k = y.p.bit_length() - 1
        return eq(extract(x, x.w - 1, k), const(0, x.w - k))
    return _mk("ult", 1, (x, y))


def ule(x, y):
    return not_(ult(y, x))


def slt(x, y):
    if x is y:
        return FALSE
    w = x.w
    if x.op == "const" and y.op == "const":
        return b(tosigned(x.p, w) < tosigned(y.p, w))
    if umax(x) < (1 << (w - 1)) and umax(y) < (1 << (w - 1)):
        return ult(x, y)
    if y.op == "const" and y.p == 0:
        return extract(x, w - 1, w - 1)
    if x.op == "const" and x.p == mask(w):
        return not_(extract(y, w - 1, w - 1))
    if x.op == "sext" and (y.op == "const" or y.op == "sext"):
        n = max(x.a[0].w, y.a[0].w if y.op == "sext" else 1)
        if y.op == "const":
            sv = tosigned(y.p, w)
            if -(1 << (n - 1)) <= sv < (1 << (n - 1)):
                return slt(sext(x.a[0], n), const(sv, n))
            return b(sv > 0)
        return slt(sext(x.a[0], n), sext(y.a[0], n))
    if y.op == "sext" and x.op == "const":
        n = y.a[0].w
        sv = tosigned(x.p, w)
        if -(1 << (n - 1)) <= sv < (1 << (n - 1)):
            return slt(const(sv, n), y.a[0])
        return b(sv < 0)
    return _mk("slt", 1, (x, y))


def sle(x, y):
    return not_(slt(y, x))


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ite(c, x, y):
    assert c.w == 1
    assert x.w == y.w, (x.w, y.w)
    if c.op == "const":
        return x if c.p else y
    if x is y:
        return x
    if c.op == "xor" and len(c.a) == 2 and c.a[1] is TRUE:
        return ite(c.a[0], y, x)
    w = x.w
    if w == 1:
        if x.op == "const":
            return or_(c, y) if x.p else and_(not_(c), y)
        if y.op == "const":
            return or_(not_(c), x) if y.p else and_(c, x)
    if x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if x.op == "ite" and x.a[2] is y:
        return ite(and_(c, x.a[0]), x.a[1], y)
    if y.op == "ite" and y.a[1] is x:
        return ite(or_(c, y.a[0]), x, y.a[2])
    if x.op == "concat" and y.op == "concat" and len(x.a) == len(y.a) and \
            all(p.w == q.w for p, q in zip(x.a, y.a)) and any(p is q for p, q in zip(x.a, y.a)):
        return concat(*[ite(c, p, q) for p, q in zip(x.a, y.a)])
    return _mk("ite", w, (c, x, y))


def udiv(x, y):
    if y.op == "const":
        if y.p == 0:
            return const(-1, x.w)
        if y.p & (y.p - 1) == 0:
            return lshr_c(x, y.p.bit_length() - 1)
        if x.op == "const":
            return const(x.p // y.p, x.w)
        h = umax(x).bit_length()
        if h < y.p.bit_length():
            return const(0, x.w)
        if h < x.w:
            return zext(_mk("udiv", h, (extract(x, h - 1, 0), const(y.p, h))), x.w)
    return _mk("udiv", x.w, (x, y))


def urem(x, y):
    if y.op == "const":
        if y.p == 0:
            return x
        if y.p & (y.p - 1) == 0:
            k = y.p.bit_length() - 1
            return zext(extract(x, k - 1, 0), x.w) if k else const(0, x.w)
        if x.op == "const":
            return const(x.p % y.p, x.w)
        if umax(x) < y.p:
            return x
        h = umax(x).bit_length()
        if h < x.w:
            return zext(_mk("urem", h, (extract(x, h - 1, 0), const(y.p, h))), x.w)
    return _mk("urem", x.w, (x, y))


def sdiv(x, y):
    if x.op == "const" and y.op == "const" and y.p:
        p, q = tosigned(x.p, x.w), tosigned(y.p, x.w)
        r = abs(p) // abs(q)
        return const(r if (p < 0) == (q < 0) else -r, x.w)
    if y.op == "const" and umax(x) < (1 << (x.w - 1)) and y.p < (1 << (x.w - 1)):
        return udiv(x, y)
    return _mk("sdiv", x.w, (x, y))


def srem(x, y):
    if x.op == "const" and y.op == "const" and y.p:
        p, q = tosigned(x.p, x.w), tosigned(y.p, x.w)
        r = abs(p) % abs(q)
        return const(-r if p < 0 else r, x.w)
    if y.op == "const" and umax(x) < (1 << (x.w - 1)) and y.p < (1 << (x.w - 1)):
        return urem(x, y)
    return _mk("srem", x.w, (x, y))


def uf(name, w, *args):
    return _mk("uf", w, tuple(args), name)


def popcount(x):
    return add(*[zext(extract(x, i, i), x.w) for i in range(x.w)])


def umin_(x, y):
    return ite(ult(x, y), x, y)


def umax_(x, y):
    return ite(ult(x, y), y, x)


# ---------------------------------------------------------------- ranges
def umax(t):
    m = t._mx
    if m is None:
        m = t._mx = _umax(t)
    return m


def umin(t):
    if t.op == "const":
        return t.p
    if t.op == "ite":
        if t.a[1].op == "const" or t.a[2].op == "const":
            return min(umin(t.a[1]), umin(t.a[2]))
        return 0
    if t.op == "concat":
        v = 0
        for x in t.a:
            v = (v << x.w) | (x.p if x.op == "const" else 0)
        return v
    if t.op == "add":
        s = t.p[1]
        for k, x in zip(t.p[0], t.a):
            s += k * umax(x)
            if s > mask(t.w):
                return 0
        return t.p[1]
    return 0


def _umax(t):
    op = t.op
    m = mask(t.w)
    if op == "const":
        return t.p
    if op == "concat":
        v = 0
        for x in t.a:
            v = (v << x.w) | umax(x)
        return v
    if op == "ext":
        if t.p[1] == 0:
            u = umax(t.a[0])
            return min(m, u)
        return min(m, umax(t.a[0]) >> t.p[1])
    if op == "ite":
        return max(umax(t.a[1]), umax(t.a[2]))
    if op == "and":
        return min(umax(x) for x in t.a)
    if op in ("or", "xor"):
        return min(m, mask(max(umax(x).bit_length() for x in t.a)))
    if op == "add":
        s = t.p[1]
        for k, x in zip(t.p[0], t.a):
            s += k * umax(x)
            if s > m:
                return m
        return s
    if op == "mul":
        s = 1
        for x in t.a:
            s *= umax(x)
        return min(m, s)
    if op == "lshr":
        return umax(t.a[0])
    if op == "udiv":
        if t.a[1].op == "const" and t.a[1].p:
            return umax(t.a[0]) // t.a[1].p
        return m
    if op == "urem":
        if t.a[1].op == "const" and t.a[1].p:
            return min(umax(t.a[0]), t.a[1].p - 1)
        return umax(t.a[0])
    return m


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if x.id not in seen:
                st.append((x, False))
    return out


def _ev(t, v, env, ufs):
    op = t.op
    m = mask(t.w)
    if op == "const":
        return t.p
    if op == "var":
        return env(t) & m
    a = [v[x.id] for x in t.a]
    if op == "add":
        s = t.p[1]
        for k, x in zip(t.p[0], a):
            s += k * x
        return s & m
    if op == "xor":
        r = 0
        for x in a:
            r ^= x
        return r
    if op == "and":
        r = m
        for x in a:
            r &= x
        return r
    if op == "or":
        r = 0
        for x in a:
            r |= x
        return r
    if op == "concat":
        r = 0
        for x, y in zip(t.a, a):
            r = (r << x.w) | y
        return r
    if op == "ext":
        return (a[0] >> t.p[1]) & m
    if op == "mul":
        r = 1
        for x in a:
            r *= x
        return r & m
    if op == "sext":
        return tosigned(a[0], t.a[0].w) & m
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return int(a[0] == a[1])
    if op == "ult":
        return int(a[0] < a[1])
    if op == "slt":
        w = t.a[0].w
        return int(tosigned(a[0], w) < tosigned(a[1], w))
    if op == "shl":
        return (a[0] << a[1]) & m if a[1] < t.w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < t.w else 0
    if op == "ashr":
        return (tosigned(a[0], t.w) >> min(a[1], t.w - 1)) & m
    if op == "udiv":
        return a[0] // a[1] if a[1] else m
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op == "sdiv" or op == "srem":
        p, q = tosigned(a[0], t.w), tosigned(a[1], t.w)
        if q == 0:
            if op == "srem":
                return a[0]
            return 1 if p < 0 else m
        if op == "sdiv":
            r = abs(p) // abs(q)
            return (r if (p < 0) == (q < 0) else -r) & m
        r = abs(p) % abs(q)
        return (-r if p < 0 else r) & m
    if op == "uf":
        return ufs(t, a) & m
    raise NotImplementedError(op)


def evaluate(roots, env, ufs=None):
    """env: function var-term -> int (or dict name->int); returns dict id->int"""
    if isinstance(env, dict):
        d = env
        env = lambda t: d.get(t.p, 0)
    v = {}
    for t in topo(roots):
        v[t.id] = _ev(t, v, env, ufs)
    return v


def subterms(roots):
    return topo(roots)


def variables(roots):
    return [t for t in topo(roots) if t.op == "var"]


_REBUILD = {}


def rebuild(t, a):
    op = t.op
    if op == "add":
        return _lincomb(list(zip(t.p[0], a)) + [(1, const(t.p[1], t.w))], t.w)
    if op == "ext":
        return extract(a[0], t.p[0], t.p[1])
    if op == "sext":
        return sext(a[0], t.w)
    if op == "uf":
        return uf(t.p, t.w, *a)
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    f = {"xor": xor, "and": and_, "or": or_, "concat": concat, "ite": ite, "eq": eq, "ult": ult, "slt": slt,
         "shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op]
    return f(*a)


def substitute(roots, m, order=None):
    """m: dict term -> term.  Returns list of rebuilt roots."""
    r = {k.id: v for k, v in m.items()}
    for t in topo(roots):
        if t.id in r:
            continue
        if not t.a:
            r[t.id] = t
            continue
        a = [r[x.id] for x in t.a]
        if all(p is q for p, q in zip(a, t.a)):
            r[t.id] = t
        else:
            r[t.id] = rebuild(t, a)
    return [r[x.id] for x in roots]
