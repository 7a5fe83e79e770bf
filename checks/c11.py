"""HKDF output equals RFC 5869."""
from sx import build
from . import kdfs


def run(ck):
    mod = build.module("kdf.cpp")
    jobs = []
    for D in (20, 28, 32, 48, 64):
        jobs.append(("hkdf%d one derive up to 3 blocks" % D, kdfs.derive, ck, mod, "hkdf", D, [3 * D + 3]))
        jobs.append(("hkdf%d two derives" % D, kdfs.derive, ck, mod, "hkdf", D, [2 * D + 1, 2 * D + 1]))
    jobs.append(("hkdf32 three derives, char", kdfs.derive, ck, mod, "hkdf", 32, [40, 66, 66], "c"))
    jobs.append(("hkdf20 after another use", kdfs.derive, ck, mod, "hkdf", 20, [44], "", ("init", "derive")))
    jobs.append(("hkdf32 up to the 255 block limit", kdfs.derive, ck, mod, "hkdf", 32, [255 * 32], "", (), None, [253 * 32]))
    jobs.append(("hkdf64 two derives up to the limit", kdfs.derive, ck, mod, "hkdf", 64, [254 * 64, 64], "", (), None, [253 * 64 + 1, 0]))
    ck.bound("every key material, salt and info with sizes below 2^50; one to three derive calls of symbolic sizes up to three blocks each; sizes from 253 to "
             "255 blocks; PRF output sizes 20, 28, 32, 48, 64")
    ck.stub("the HMAC is a stand-in class whose results are uninterpreted functions of key and message (HMAC is decided by C10)")
    ck.parallel(jobs)
