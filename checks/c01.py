"""SHA-1 digests are those of FIPS 180-4."""
from sx import build
from sx.terms import var
from . import asms, hashes


def common(ck, algs, impl, ni=True):
    mod = build.module("hash.cpp")
    jobs = [("%s software block function" % impl, hashes.sw_block, ck, mod, impl, "@blk_" + impl)]
    if ni:
        jobs.append(("%s SHA-NI block function" % impl, asms.sha_induction, ck, impl, 8, True, False))
        for c in ("ni_", "nic_"):
            jobs.append(("%s SHA-NI wrapper%s" % (impl, " (char)" if c == "nic_" else ""), asms.wrapper, ck, mod, c + impl, asms.NI[impl], ["n", "state", "src"], ["n", "state", "src"],
                         lambda what: wrapped(impl, what)))
    for a in algs:
        jobs.append(("%s padding, chaining and digest, one update" % a, hashes.stream, ck, mod, a, [var("n0", 64)]))
        jobs.append(("%s two updates, the first shorter than a block" % a, hashes.stream, ck, mod, a, [var("n0", 64), var("n1", 64)], "update",
                     None, 0, (), {"n0": hashes.blk(a)[3]}))
        jobs.append(("%s announced length of a long message" % a, hashes.length_field, ck, mod, a))
    ck.bound("message sizes below 2^59 bytes, in one piece or in two where the first is shorter than a block (C04: two of any size, three)")
    ck.parallel(jobs)


def wrapped(impl, what):
    from .msg import lcg
    hashes.replay_blocks(impl + "_ni", impl, 3, list(hashes.spec.IV[impl]), lcg(192, 5))
    hashes.replay_blocks(impl + "_ni", impl, 1, list(hashes.spec.IV[impl]), lcg(64, 5))


def run(ck):
    common(ck, ["sha1"], "sha1")
