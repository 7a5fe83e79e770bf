"""The assembly routines touch only their operands and keep the calling convention."""
from . import asms


def run(ck):
    jobs = []
    for al in (8, 24):
        s = "stack %d modulo 32" % al
        for be in ("ssse_3", "avx_2"):
            for op in ("transform", "generate"):
                for inplace in ((False, True) if op == "transform" else (False,)):
                    jobs.append(("%s %s%s, %s" % (be, op, " in place" if inplace else "", s), asms.chacha_induction, ck, be, op, al, inplace, False, True))
                if ck.thorough():
                    jobs.append(("%s %s, 0 to 6 iterations, %s" % (be, op, s), asms.chacha_counts, ck, be, op, al, range(7), False, "ChaCha %s %s" % (be, op), "exact counts", False, True))
        for alg in ("sha1", "sha256"):
            jobs.append(("%s SHA-NI, %s" % (alg, s), asms.sha_induction, ck, alg, al, False, True))
        jobs.append(("cpuid, %s" % s, asms.cpuid, ck, al, False))
    ck.assume("system calls, signals and floating-point control state are not modelled; the direction flag and MXCSR cannot change because no instruction that writes them is executed (any would be reported as not encodable)")
    ck.parallel(jobs)
