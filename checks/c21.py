"""The backends chosen need only announced instructions."""
from sx import build
from . import dispatch


def run(ck):
    mod = build.module("arch.cpp")
    jobs = [("selection " + u, dispatch.select, ck, mod, u) for u in dispatch.DEFAULT + sorted(dispatch.PREFER) + sorted(dispatch.ENFORCE)]
    jobs += [("operating system support, " + u, dispatch.osxsave, ck, mod, u) for u in ("sha256", "chacha20")]
    ck.assume("the cpuid instruction answers the same way each time it is executed; SSE and SSE2 are part of every x86-64 processor")
    ck.parallel(jobs)
