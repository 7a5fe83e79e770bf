"""Obligations, evidence, and the output lines of a check."""
import json
import os
import pickle
import selectors
import signal
import sys
import time
import traceback

from . import solve
from .exec import Unsupported
from .build import BuildError, HERE

KNOWN = os.path.join(HERE, "known-findings.jsonl")


class Skip(Exception):
    pass


class Violation(Exception):
    """a counterexample that the real code reproduced"""

    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


class Unconfirmed(Exception):
    """the solver produced a counterexample the real code does not reproduce"""


class Check:
    def __init__(self, pid, tier="quick", budget=None):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = budget or (700 if tier == "quick" else 3 * 3600)
        self.obls = []
        self.fns = set()
        self.bounds = []
        self.assumptions = []
        self.stubs = []
        self.samples = []
        self.violations = []
        self.known = []
        self.known_list = []
        self.child = False
        self.pending = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("{"):
                    e = json.loads(l)
                    if e["property"] == pid:
                        self.known_list.append(e)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def thorough(self):
        return self.tier == "thorough"

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def stub(self, s):
        if s not in self.stubs:
            self.stubs.append(s)

    def used(self, eng):
        self.fns |= set(eng.used)

    def finding_key(self, e):
        return e.get("key")

    def record(self, name, status, detail="", secs=0.0):
        self.obls.append(dict(name=name, status=status, detail=str(detail)[:600], secs=round(secs, 3)))
        if status != "proved" or os.environ.get("VERIF_VERBOSE"):
            print("%-12s %s %s (%.1fs)" % (status, name, str(detail)[:300], secs), flush=True)

    def obligation(self, name, fn, *args, **kw):
        """fn returns None/True when proved, raises Violation for a reproduced counterexample"""
        t = time.time()
        if self.left() < 5:
            self.record(name, "skipped", "time budget")
            return False
        try:
            r = fn(*args, **kw)
            if r is False:
                self.record(name, "unknown", "", time.time() - t)
                return False
            self.record(name, "proved", r if isinstance(r, str) else "", time.time() - t)
            return True
        except Violation as v:
            self.violate(name, v, time.time() - t)
        except Unconfirmed as e:
            self.record(name, "unconfirmed", e, time.time() - t)
        except Skip as e:
            self.record(name, "skipped", e, time.time() - t)
        except Unsupported as e:
            self.record(name, "not-encoded", "%s: %s" % (type(e).__name__, e), time.time() - t)
        except BuildError as e:
            self.record(name, "not-built", e, time.time() - t)
        except (RecursionError, MemoryError) as e:
            self.record(name, "not-encoded", type(e).__name__, time.time() - t)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            loc = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
            self.record(name, "error", "%s: %s at %s" % (type(e).__name__, str(e)[:200], " ".join(loc)), time.time() - t)
        return False

    def parallel(self, jobs, workers=None, job_timeout=None):
        """obligations [(name, fn, *args)] in forked processes"""
        from . import build
        build.workdir()
        workers = workers or int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
        if len(jobs) <= 1 or workers == 1:
            for j in jobs:
                self.obligation(*j)
            return
        todo = list(enumerate(jobs))
        live = {}
        results = {}
        sel = selectors.DefaultSelector()
        sys.stdout.flush()

        def spawn(i, job):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self.child = True
                self.obls, self.fns, self.bounds, self.assumptions, self.stubs, self.samples = [], set(), [], [], [], []
                self.pending = []
                for k in solve.STATS:
                    solve.STATS[k] = 0
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 1)
                try:
                    self.obligation(*job)
                    b = pickle.dumps((self.obls, self.fns, self.bounds, self.assumptions, self.stubs, self.samples,
                                      self.pending, dict(solve.STATS)))
                except BaseException as e:
                    b = pickle.dumps(([dict(name=job[0], status="error", detail=repr(e)[:300], secs=0)], set(), [], [], [], [], [], {}))
                with os.fdopen(w, "wb") as f:
                    f.write(b)
                os._exit(0)
            os.close(w)
            live[r] = (i, pid, bytearray(), time.time())
            sel.register(r, selectors.EVENT_READ)

        def done(r, note=None):
            i, pid, buf, t = live.pop(r)
            sel.unregister(r)
            os.close(r)
            if note:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
            try:
                results[i] = pickle.loads(bytes(buf))
            except Exception:
                results[i] = ([dict(name=jobs[i][0], status="unknown", detail=note or "worker ended", secs=time.time() - t)],
                              set(), [], [], [], [], [], {})
            obls, fns, bounds, ass, stubs, samples, pend, stats = results[i]
            for x in bounds:
                self.bound(x)
            for x in ass:
                self.assume(x)
            for x in stubs:
                self.stub(x)
            self.samples += samples
            self.fns |= fns
            for k, v in stats.items():
                solve.STATS[k] += v
            for o in obls:
                if o["status"] not in ("violated", "known-finding"):
                    self.record(o["name"], o["status"], o["detail"], o["secs"])
            for name, what, replay in pend:
                self.violate(name, Violation(what, replay), 0)
        while todo or live:
            while todo and len(live) < workers and self.left() > 5:
                spawn(*todo.pop(0))
            if not live:
                for i, j in todo:
                    self.record(j[0], "skipped", "time budget")
                break
            for key, _ in sel.select(1.0):
                b = os.read(key.fd, 1 << 20)
                if b:
                    live[key.fd][2].extend(b)
                else:
                    done(key.fd)
            now = time.time()
            for r in list(live):
                if self.left() < 2 or (job_timeout and now - live[r][3] > job_timeout):
                    done(r, "time limit")

    def violate(self, name, v, secs=0.0):
        key = v.replay.get("key") if isinstance(v.replay, dict) else None
        for e in self.known_list:
            if e.get("status") == "finding" and key is not None and e.get("key") == key:
                self.record(name, "known-finding", v.what, secs)
                if key not in self.known:
                    self.known.append(key)
                    if self.child:
                        self.pending.append((name, v.what, v.replay))
                    else:
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]), flush=True)
                return
        self.record(name, "violated", v.what, secs)
        if self.child:
            self.pending.append((name, v.what, v.replay))
            return
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, obligation=name, what=v.what, replay=v.replay), f, indent=1, default=str)
        self.violations.append((name, p))
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def finish(self):
        n = len(self.obls)
        by = {}
        for o in self.obls:
            by[o["status"]] = by.get(o["status"], 0) + 1
        wall = time.time() - self.t0
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="other",
            coverage=dict(
                explanation="symbolic execution of the functions listed (LLVM IR or machine code regenerated from the working tree), "
                            "each obligation decided by an SMT solver for every value within the bounds",
                obligations=n, discharged=by.get("proved", 0), by_status=by,
                functions=sorted(self.fns)[:400], bounds=self.bounds, stubs=self.stubs,
                queries=solve.STATS["queries"], unsat=solve.STATS["unsat"], sat=solve.STATS["sat"],
                unknown=solve.STATS["unknown"], solver_seconds=round(solve.STATS["time"], 3),
                samples=self.samples[:20], obligation_list=self.obls, known_findings=self.known),
            assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d obligations, %s; %d queries, %.1fs solver, %.1fs" % (
            self.pid, self.tier, n, ", ".join("%d %s" % (v, k) for k, v in sorted(by.items())),
            solve.STATS["queries"], solve.STATS["time"], wall), flush=True)
        return 1 if self.violations else 0
