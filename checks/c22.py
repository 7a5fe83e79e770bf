"""Feature predicates are the documented cpuid bits."""
from sx import build
from . import asms, dispatch


def run(ck):
    mod = build.module("arch.cpp")
    jobs = [("feature " + f, dispatch.feature, ck, mod, f) for f in dispatch.BITS]
    jobs += [("queried leaves", dispatch.leaves, ck, mod),
             ("cpuid wrapper", dispatch.wrapper, ck, mod, "call_cpuid", True), ("cpuid wrapper, sub-leaf omitted", dispatch.wrapper, ck, mod, "call_cpuid1", False),
             ("cpuid routine", asms.cpuid, ck, 8), ("cpuid routine, stack 24 modulo 32", asms.cpuid, ck, 24)]
    ck.assume("the cpuid instruction answers the same way each time it is executed")
    ck.parallel(jobs)
