"""The portable ChaCha block function is the RFC 8439 one."""
from sx import build
from . import ciphers


def run(ck):
    mod = build.module("cipher.cpp")
    jobs = []
    for op in ("transform", "generate"):
        jobs.append(("portable %s, any count" % op, ciphers.sw_induction, ck, mod, op))
        for n in (0, 1, 2, 3) if not ck.thorough() else range(0, 20):
            jobs.append(("portable %s of %d blocks" % (op, n), ciphers.sw_blocks, ck, mod, op, n))
    for n in (1, 2):
        jobs.append(("portable transform of %d blocks in place" % n, ciphers.sw_blocks, ck, mod, "transform", n, True))
    ck.bound("every state and content; 0 to 3 blocks separately")
    ck.parallel(jobs)
