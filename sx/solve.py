"""z3 back end: translation of terms, incremental path solver, one-shot queries."""
import os
import time
import z3
from . import terms as tm

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "trivial": 0}

_z = {}
_keep = []
_fun = {}


def _conv(t):
    op = t.op
    if op == "const":
        return z3.BitVecVal(t.p, t.w)
    if op == "var":
        return z3.BitVec(t.p, t.w)
    a = [_z[x.id] for x in t.a]
    if op == "add":
        r = None
        for k, x in zip(t.p[0], a):
            if k == 1:
                y = x
            elif k == tm.mask(t.w):
                y = -x
            else:
                y = x * z3.BitVecVal(k, t.w)
            r = y if r is None else r + y
        if t.p[1]:
            r = r + z3.BitVecVal(t.p[1], t.w)
        return r
    if op == "xor":
        if len(a) == 2 and t.a[1].op == "const" and t.a[1].p == tm.mask(t.w):
            return ~a[0]
        r = a[0]
        for x in a[1:]:
            r = r ^ x
        return r
    if op == "and":
        r = a[0]
        for x in a[1:]:
            r = r & x
        return r
    if op == "or":
        r = a[0]
        for x in a[1:]:
            r = r | x
        return r
    if op == "concat":
        return z3.Concat(*a)
    if op == "ext":
        return z3.Extract(t.p[0], t.p[1], a[0])
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if op == "sext":
        return z3.SignExt(t.w - t.a[0].w, a[0])
    if op == "ite":
        return z3.If(a[0] == z3.BitVecVal(1, 1), a[1], a[2])
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    if op == "eq":
        return z3.If(a[0] == a[1], one, zero)
    if op == "ult":
        return z3.If(z3.ULT(a[0], a[1]), one, zero)
    if op == "slt":
        return z3.If(a[0] < a[1], one, zero)
    if op == "shl":
        return a[0] << a[1]
    if op == "lshr":
        return z3.LShR(a[0], a[1])
    if op == "ashr":
        return a[0] >> a[1]
    if op == "udiv":
        return z3.UDiv(a[0], a[1])
    if op == "urem":
        return z3.URem(a[0], a[1])
    if op == "sdiv":
        return a[0] / a[1]
    if op == "srem":
        return z3.SRem(a[0], a[1])
    if op == "uf":
        key = (t.p, t.w, tuple(x.w for x in t.a))
        f = _fun.get(key)
        if f is None:
            f = _fun[key] = z3.Function("%s/%d" % (t.p, t.w), *([z3.BitVecSort(x.w) for x in t.a] + [z3.BitVecSort(t.w)]))
        return f(*a)
    raise NotImplementedError(op)


def to_z3(t):
    r = _z.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _z:
            st.pop()
            continue
        pend = [y for y in x.a if y.id not in _z]
        if pend:
            st.extend(pend)
            continue
        _z[x.id] = _conv(x)
        st.pop()
    return _z[t.id]


def reset():
    """drop cached z3 terms (the hash-consed terms stay)"""
    _z.clear()


_b = {}


def to_bool(t):
    if t.op == "const":
        return z3.BoolVal(bool(t.p))
    if t.op == "eq":
        return to_z3(t.a[0]) == to_z3(t.a[1])
    if t.op == "ult":
        return z3.ULT(to_z3(t.a[0]), to_z3(t.a[1]))
    if t.op == "slt":
        return to_z3(t.a[0]) < to_z3(t.a[1])
    if t.op == "xor" and len(t.a) == 2 and t.a[1] is tm.TRUE:
        return z3.Not(to_bool(t.a[0]))
    if t.op == "and":
        return z3.And(*[to_bool(x) for x in t.a])
    if t.op == "or":
        return z3.Or(*[to_bool(x) for x in t.a])
    return to_z3(t) == z3.BitVecVal(1, 1)


class Model:
    """evaluates terms in a z3 model, completing missing values with 0"""

    def __init__(self, m):
        self.m = m
        self.cache = {}

    def _env(self, t):
        v = self.m.eval(z3.BitVec(t.p, t.w), model_completion=True)
        return v.as_long()

    def _uf(self, t, a):
        key = (t.p, t.w, tuple(x.w for x in t.a))
        f = _fun.get(key)
        if f is None:
            return 0
        v = self.m.eval(f(*[z3.BitVecVal(x, y.w) for x, y in zip(a, t.a)]), model_completion=True)
        return v.as_long()

    def __call__(self, t):
        c = self.cache
        if t.id in c:
            return c[t.id]
        st = [t]
        while st:
            x = st[-1]
            if x.id in c:
                st.pop()
                continue
            pend = [y for y in x.a if y.id not in c]
            if pend:
                st.extend(pend)
                continue
            c[x.id] = tm._ev(x, c, self._env, self._uf)
            st.pop()
        return c[t.id]


class Unknown(Exception):
    pass


def slow():
    """how much longer things take than on an idle machine"""
    return max(1.0, min(6.0, os.getloadavg()[0] / (os.cpu_count() or 1)))


def _run(s, timeout=None):
    t0 = time.time()
    if timeout:
        s.set("timeout", int(timeout * slow() * 1000))
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        STATS["unsat"] += 1
    elif r == z3.sat:
        STATS["sat"] += 1
    else:
        STATS["unknown"] += 1
    return r


def check(conds, timeout=60, tactic=None, rlimit=None):
    """satisfiability of the conjunction of width-1 terms: 'unsat', Model, or None when unknown"""
    cs = []
    for c in conds:
        if c.op == "const":
            if c.p == 0:
                STATS["trivial"] += 1
                return "unsat"
            continue
        cs.append(c)
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    for c in cs:
        s.add(to_bool(c))
    if rlimit:
        # the same effort on a busy machine
        s.set("rlimit", rlimit)
    r = _run(s, timeout)
    if r == z3.unsat:
        return "unsat"
    if r == z3.sat:
        return Model(s.model())
    return None


class PathSolver:
    """incremental solver following a stack of path conditions"""

    def __init__(self, timeout=20, base=()):
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * slow() * 1000))
        self.stack = []
        for c in base:
            self.s.add(to_bool(c))

    def sync(self, conds):
        i = 0
        n = min(len(self.stack), len(conds))
        while i < n and self.stack[i] is conds[i]:
            i += 1
        k = len(self.stack) - i
        if k:
            self.s.pop(k)
            del self.stack[i:]
        for c in conds[i:]:
            self.s.push()
            self.s.add(to_bool(c))
            self.stack.append(c)

    def sat(self, conds, extra=None):
        """True / False / None(unknown); model kept in self.model"""
        self.sync(conds)
        t0 = time.time()
        if extra is not None:
            self.s.push()
            self.s.add(to_bool(extra))
        r = self.s.check()
        STATS["queries"] += 1
        self.model = Model(self.s.model()) if r == z3.sat else None
        if extra is not None:
            self.s.pop()
        STATS["time"] += time.time() - t0
        if r == z3.unsat:
            STATS["unsat"] += 1
            return False
        if r == z3.sat:
            STATS["sat"] += 1
            return True
        STATS["unknown"] += 1
        return None
