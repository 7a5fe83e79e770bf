"""PBKDF2 output equals RFC 8018."""
from sx import build
from . import kdfs


def run(ck):
    mod = build.module("kdf.cpp")
    jobs = []
    for D in (20, 28, 32, 48, 64):
        jobs.append(("pbkdf%d one derive up to 3 blocks, up to 3 iterations" % D, kdfs.derive, ck, mod, "pbkdf", D, [3 * D + 3], "", (), 3))
        jobs.append(("pbkdf%d two derives, up to 2 iterations" % D, kdfs.derive, ck, mod, "pbkdf", D, [2 * D + 1, 2 * D + 1], "", (), 2))
    jobs.append(("pbkdf32 three derives, char", kdfs.derive, ck, mod, "pbkdf", 32, [40, 34, 34] if ck.tier == "quick" else [40, 66, 66], "c", (), 1))
    jobs.append(("pbkdf20 after another use", kdfs.derive, ck, mod, "pbkdf", 20, [44], "", ("init", "derive"), 2))
    jobs.append(("pbkdf32 256 to 258 blocks", kdfs.derive, ck, mod, "pbkdf", 32, [258 * 32], "", (), 1, [255 * 32 + 1], ck.tier == "quick"))
    jobs.append(("pbkdf20 up to 12 iterations", kdfs.derive, ck, mod, "pbkdf", 20, [23], "", (), 12))
    for D, n in ((20, 20), (20, 7), (28, 28), (32, 31), (48, 48), (64, 64)):
        jobs.append(("pbkdf%d any number of iterations, %d bytes" % (D, n), kdfs.iterations, ck, mod, D, n))
    jobs.append(("pbkdf32 any number of iterations, char", kdfs.iterations, ck, mod, 32, 32, "c"))
    ck.bound("one block of output: every iteration count, by induction over the loop that repeats the PRF")
    ck.bound("every password and salt with sizes below 2^50; several blocks: up to 3 iterations (12 in one block); one to three derive calls of symbolic sizes up to three blocks each; "
             "sizes from 256 to 258 blocks; PRF output sizes 20, 28, 32, 48, 64")
    ck.stub("the PRF is a stand-in class whose results are uninterpreted functions of key and message (HMAC is decided by C10)")
    ck.parallel(jobs)
