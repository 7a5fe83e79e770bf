"""Equivalence of term vectors: random simulation finds candidate internal equalities,
the solver proves them bottom-up over local cuts (SAT sweeping), roots last."""
import random
import time

from . import terms as tm
from . import solve
from .terms import eq, and_, not_, TRUE, FALSE


class Result:
    def __init__(self, status, model=None, info=None):
        self.status = status      # 'equal' | 'differ' | 'unknown'
        self.model = model        # callable term -> int
        self.info = info or {}


class EnvModel:
    def __init__(self, env, ufs=None):
        self.env = env
        self.ufs = ufs
        self.c = {}

    def __call__(self, t):
        if t.id not in self.c:
            self.c.update(tm.evaluate([t], lambda v: self.env.get(v.p, 0), self.ufs))
        return self.c[t.id]


def _uf_rand(seed):
    def f(t, a):
        return random.Random("%s|%s|%s" % (seed, t.p, a)).getrandbits(t.w)
    return f


def rand_env(vs, rnd):
    env = {}
    mode = rnd.random()
    for v in vs:
        r = rnd.random()
        if r < 0.75:
            env[v.p] = rnd.getrandbits(v.w)
        elif r < 0.83:
            env[v.p] = 0
        elif r < 0.9:
            env[v.p] = tm.mask(v.w)
        else:
            env[v.p] = 1 << rnd.randrange(v.w)
    return env


def cut(roots, depth, reps):
    """replace everything deeper than depth levels by fresh variables"""
    level = {}
    st = [(r, 0) for r in roots]
    best = {}
    while st:
        t, d = st.pop()
        if t.id in best and best[t.id] <= d:
            continue
        best[t.id] = d
        if d < depth:
            # extract/concat are free
            nd = d if t.op in ("ext", "concat") else d + 1
            for x in t.a:
                st.append((x, nd))
    m = {}
    for t in tm.topo(roots):
        if t.id in best and best[t.id] >= depth and t.op not in ("const", "var"):
            m[t] = tm.var("cut!%d" % t.id, t.w)
    return tm.substitute(roots, m)


def _prove(x, y, assume, timeout, depths):
    for d in depths:
        if d is None:
            a, b = x, y
        else:
            a, b = cut([x, y], d, None)
        if a is b:
            return "unsat"
        r = solve.check(([] if d is not None else list(assume)) + [not_(eq(a, b))], 5 * timeout, None, int(timeout * 5000000))
        if r == "unsat":
            return r
        if d is None:
            return r
    return None


PROVED = {}      # term id -> term proved equal to it without assumptions


def simulate(A, B, points, seed=1, budget=20):
    """look for a difference at given partial assignments (variable -> value), other variables random"""
    rnd = random.Random(seed)
    t0 = time.process_time()
    roots = list(A) + list(B)
    vs = [t for t in tm.topo(roots) if t.op == "var"]
    for pt in points:
        if time.process_time() - t0 > budget:
            break
        env = rand_env(vs, rnd)
        env.update({x.p: v for x, v in pt.items()})
        ufs = _uf_rand(rnd.random())
        v = tm.evaluate(roots, env, ufs)
        if any(v[x.id] != v[y.id] for x, y in zip(A, B)):
            return Result("differ", EnvModel(env, ufs))
    return None


def equivalent(A, B, assume=(), seed=1, vectors=6, timeout=30, local=3.0, budget=300):
    """A, B: lists of terms"""
    t0 = time.process_time()
    rnd = random.Random(seed)
    pairs = [(x, y) for x, y in zip(A, B)]
    assert len(A) == len(B)
    for x, y in pairs:
        assert x.w == y.w
    info = {"syntactic": sum(x is y for x, y in pairs), "pairs": len(pairs), "merged": 0, "local": 0}
    todo = [(x, y) for x, y in pairs if x is not y]
    if not todo:
        # still hand the (trivial) query to the solver through the normal path
        solve.STATS["trivial"] += 1
        return Result("equal", info=info)
    roots = [x for p in todo for x in p] + list(assume)
    order = tm.topo(roots)
    vs = [t for t in order if t.op == "var"]
    envs = []
    tries = 0
    while len(envs) < vectors and tries < 200:
        tries += 1
        env = rand_env(vs, rnd)
        ufs = _uf_rand(rnd.random())
        v = tm.evaluate(roots, env, ufs)
        if all(v[c.id] for c in assume):
            envs.append((env, ufs, v))
            for x, y in todo:
                if v[x.id] != v[y.id]:
                    return Result("differ", EnvModel(env, ufs), info)
    while len(envs) < vectors and assume:
        # signatures only: merges below are proved without the assumptions
        env = rand_env(vs, rnd)
        ufs = _uf_rand(rnd.random())
        envs.append((env, ufs, tm.evaluate(roots, env, ufs)))
    if envs and len(order) > 60:
        # sweep
        rep = {}
        bysig = {}
        m = {}
        for t in order:
            if time.process_time() - t0 > budget:
                break
            if t.a:
                a = [m.get(x.id, x) for x in t.a]
                n = t if all(p is q for p, q in zip(a, t.a)) else tm.rebuild(t, a)
            else:
                n = t
            m[t.id] = n
            if t.w < 8 or t.op in ("const", "var", "ext", "concat"):
                continue
            known = PROVED.get(n.id)
            if known is not None:
                m[t.id] = known
                continue
            sig = (t.w, tuple(v[t.id] for _, _, v in envs))
            lst = bysig.setdefault(sig, [])
            hit = None
            for c in lst:
                if c is n:
                    hit = c
                    break
            if hit is None:
                for c in lst[:3]:
                    info["local"] += 1
                    r = _prove(n, c, (), local, (2, 4, 7))
                    if r == "unsat":
                        hit = c
                        info["merged"] += 1
                        break
            if hit is not None:
                m[t.id] = hit
                if hit is not n:
                    PROVED[n.id] = hit
            else:
                lst.append(n)
        todo = [(m.get(x.id, x), m.get(y.id, y)) for x, y in todo]
        todo = [(x, y) for x, y in todo if x is not y]
        info["left"] = len(todo)
        if not todo:
            return Result("equal", info=info)
    for x, y in todo:
        r = solve.check(list(assume) + [not_(eq(x, y))], timeout)
        if r == "unsat":
            continue
        if r is None:
            return Result("unknown", info=info)
        return Result("differ", r, info)
    return Result("equal", info=info)
