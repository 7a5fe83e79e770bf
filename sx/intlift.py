"""Bit-vector terms as integer polynomials.

Wide multiplication modulo a prime is out of reach of bit-blasting.  Here the value of a term
is written as an integer polynomial over atoms: the input words and the quotients floor(P/2^k)
that slicing and wrap-around introduce (floor(P/2^k) is an integer unknown q with
2^k q <= P < 2^k (q + 1)).  Claims about such polynomials modulo p then go to the solver as
linear integer queries over the monomials, and for a fixed key as linear integer queries over
the input words themselves.
"""
import z3

from . import solve
from .terms import mask


class Lift:
    def __init__(self, ranges=None):
        self.ranges = ranges or {}     # var term -> (lo, hi)
        self.atoms = []                # (name, lo, hi, definition or None)
        self.index = {}
        self.cache = {}
        self.wraps = 0

    # polynomials: dict monomial (sorted tuple of atom numbers) -> int
    @staticmethod
    def padd(*ps):
        r = {}
        for k, p in ps:
            for m, c in p.items():
                r[m] = r.get(m, 0) + k * c
        return {m: c for m, c in r.items() if c}

    @staticmethod
    def pmul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                x = tuple(sorted(m + n))
                r[x] = r.get(x, 0) + c * d
        return {m: c for m, c in r.items() if c}

    def atom(self, key, name, lo, hi, definition=None):
        if key not in self.index:
            self.index[key] = len(self.atoms)
            self.atoms.append((name, lo, hi, definition))
        return {(self.index[key],): 1}

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = 1
            for i in m:
                _, l, h, _ = self.atoms[i]
                # all atoms used in products are non-negative, otherwise give up precision
                cand = [a * l, a * h, b * l, b * h]
                a, b = min(cand), max(cand)
            x, y = c * a, c * b
            lo += min(x, y)
            hi += max(x, y)
        return lo, hi

    def floor(self, p, k, rng):
        """floor(P / 2^k); rng: known range of P"""
        if k == 0:
            return p
        n = 1 << k
        whole = {m: c // n for m, c in p.items() if c % n == 0}
        rest = {m: c for m, c in p.items() if c % n}
        if not rest:
            return whole
        l1, h1 = self.prange(rest)
        if not whole:
            l1, h1 = max(l1, rng[0]), min(h1, rng[1])
        if l1 // n == h1 // n:
            q = {(): l1 // n} if l1 // n else {}
        else:
            lo, hi = l1 // n, h1 // n
            q = self.atom(("q", k, tuple(sorted(rest.items()))), "q%d_%d" % (len(self.atoms), k), lo, hi, (rest, k))
        return self.padd((1, whole), (1, q))

    def inter(self, p, rng):
        a, b = self.prange(p)
        return max(a, rng[0]), min(b, rng[1])

    def lift(self, t):
        """(polynomial, (lo, hi)) with value(t) equal to the polynomial"""
        r = self.cache.get(t.id)
        if r is None:
            r = self._lift(t)
            r = (r[0], self.inter(*r))
            self.cache[t.id] = r
        return r

    def _wrap(self, p, rng, w):
        lo, hi = self.inter(p, rng)
        if 0 <= lo and hi <= mask(w):
            return p, (lo, hi)
        self.wraps += 1
        q = self.floor(p, w, (lo, hi))
        return self.padd((1, p), (-(1 << w), q)), (0, mask(w))

    def _lift(self, t):
        op, w = t.op, t.w
        full = (0, mask(w))
        if op == "const":
            return ({(): t.p} if t.p else {}), (t.p, t.p)
        if op == "var":
            lo, hi = self.ranges.get(t, full)
            return self.atom(t, t.p, lo, hi), (lo, hi)
        if op == "concat":
            p, lo, hi, pos = {}, 0, 0, 0
            for x in reversed(t.a):
                q, (l, h) = self.lift(x)
                p = self.padd((1, p), (1 << pos, q))
                lo += l << pos
                hi += h << pos
                pos += x.w
            return p, (lo, hi)
        if op == "ext":
            x = t.a[0]
            p, rng = self.lift(x)
            hi, lo = t.p
            a = self.floor(p, lo, rng)
            if hi == x.w - 1 or rng[1] < (1 << (hi + 1)):
                return a, (rng[0] >> lo, rng[1] >> lo)
            b = self.floor(p, hi + 1, rng)
            return self.padd((1, a), (-(1 << w), b)), full
        if op == "add":
            p, lo, hi = {}, 0, 0
            ks, c = t.p
            for k, x in list(zip(ks, t.a)):
                if k >> (w - 1):
                    k -= 1 << w
                q, (l, h) = self.lift(x)
                p = self.padd((1, p), (k, q))
                lo += min(k * l, k * h)
                hi += max(k * l, k * h)
            if c >> (w - 1):
                c -= 1 << w
            p = self.padd((1, p), (1, {(): c}))
            return self._wrap(p, (lo + c, hi + c), w)
        if op == "mul":
            p, lo, hi = {(): 1}, 1, 1
            for x in t.a:
                q, (l, h) = self.lift(x)
                p = self.pmul(p, q)
                c = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(c), max(c)
            return self._wrap(p, (lo, hi), w)
        if op == "ult":
            # x < y is -floor((x - y) / 2^w)
            (p, a), (q, b) = self.lift(t.a[0]), self.lift(t.a[1])
            return self.padd((-1, self.floor(self.padd((1, p), (-1, q)), t.a[0].w, (a[0] - b[1], a[1] - b[0])))), full
        if w == 1 and op == "xor" and t.a[-1].op == "const" and len(t.a) == 2:
            return self.padd((1, {(): 1}), (-1, self.lift(t.a[0])[0])), full
        if op == "ite":
            c = self.lift(t.a[0])[0]
            (p, a), (q, b) = self.lift(t.a[1]), self.lift(t.a[2])
            return self.padd((1, q), (1, self.pmul(c, self.padd((1, p), (-1, q))))), (min(a[0], b[0]), max(a[1], b[1]))
        return self.atom(t, "t%d" % t.id, 0, mask(w)), full

    # ------------------------------------------------------------ queries
    def zero_mod(self, g, p):
        """the solver's verdict that the polynomial is a multiple of p for all atom values: True or False"""
        s = z3.Solver()
        mono = {m: z3.Int("m_%s" % "_".join(map(str, m))) for m in g if m}
        k = z3.Sum([z3.IntVal(c // p) * mono[m] if m else z3.IntVal(c // p) for m, c in g.items()] or [z3.IntVal(0)])
        e = z3.Sum([z3.IntVal(c) * mono[m] if m else z3.IntVal(c) for m, c in g.items()] or [z3.IntVal(0)])
        s.add(e != p * k)
        return solve._run(s, 20) == z3.unsat

    def linear_model(self, goal, p, timeout=30, extra=()):
        """values of the variables with goal not divisible by p (needs all monomials linear);
        'unsat', None, or a dict name -> int"""
        s = z3.Solver()
        v = {}

        def var(i):
            if i not in v:
                n, lo, hi, d = self.atoms[i]
                v[i] = z3.Int(n)
                s.add(v[i] >= lo, v[i] <= hi)
                if d:
                    x = expr(d[0])
                    s.add(x >= (1 << d[1]) * v[i], x < (1 << d[1]) * (v[i] + 1))
            return v[i]

        def expr(g):
            r = z3.IntVal(0)
            for m, c in g.items():
                if len(m) > 1:
                    raise ValueError("not linear")
                r = r + (c * var(m[0]) if m else c)
            return r
        e = expr(goal)
        k, x = z3.Int("K"), z3.Int("R")
        s.add(e == p * k + x, x >= 1, x < p)
        r = solve._run(s, timeout)
        if r == z3.unsat:
            return "unsat"
        if r != z3.sat:
            return None
        m = s.model()
        return {self.atoms[i][0]: m.eval(y, model_completion=True).as_long() for i, y in v.items()}
