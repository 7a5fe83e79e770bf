"""Objects are reusable, copies independent, results can be read again."""
from functools import partial

from sx import build
from sx.terms import var

from . import aeads, ciphers, digests, hashes, kdfs, lives, polys, wraps
from .lives import COPIES

FORMS = ("two", "twoc", "re", "rea", "copy", "copyo", "assign", "move", "copyd")


def run(ck):
    deep = ck.thorough()
    jobs = []
    n = [var("n%d" % i, 64) for i in range(3)]
    hm, cm, mm, km, am, dm = (build.module(f + ".cpp") for f in ("hash", "cipher", "mac", "kdf", "aead", "digest"))
    for i, a in enumerate(hashes.ALGS):
        B = hashes.blk(a)[3]
        jobs.append(("%s: any earlier use" % a, lives.anyuse, (("init", "update"), ("init", "update", "final")), hashes.stream, ck, hm, a, n[:1]))
        for j, how in enumerate(COPIES):
            at = (i + j) % 4
            if deep or at < 3:
                jobs.append(("%s: %s at %d" % (a, how, at), hashes.stream, ck, hm, a, n[:2], "update", how, at, (), None if deep else {"n0": B}))
            if deep:
                for at in range(4):
                    jobs.append(("%s: %s at %d of one update" % (a, how, at), hashes.stream, ck, hm, a, n[:1], "update", how, at))
    jobs.append(("poly: any earlier use", lives.anyuse, (("init", "update"), ("init", "update", "final")), polys.stream, ck, mm, n[:1]))
    for how in COPIES:
        for at in (0, 1, 2):
            jobs.append(("poly: %s at %d" % (how, at), polys.stream, ck, mm, n[:2], "update", None, None, (), how, at))
    for kind, r in (("sw", 1), ("ssse_3", 4), ("avx_2", 8)):
        jobs.append(("chacha %s: any earlier use" % kind, lives.anyuse, (("init", "enc"),), ciphers.stream, ck, cm, kind, ["enc"]))
        for how in COPIES:
            jobs.append(("chacha %s: %s before the second piece" % (kind, how), ciphers.stream, ck, cm, kind, ["enc", "dec"], None if deep else {0: 64 * r + 1}, False, (), how, 1))
        jobs.append(("chacha %s: copy at the start" % kind, ciphers.stream, ck, cm, kind, ["dec"], None, False, (), "copy", 0))
    for name in kdfs.ALGS:
        jobs.append(("%s: any earlier use" % name, lives.anyuse, (("init", "update"), ("init", "update", "final")), kdfs.hmac, ck, km, name, n[:1]))
    for name in ("hmac64_20", "hmac128_64", "hmac64_32"):
        for how in COPIES:
            for at in (0, 1, 2, 3):
                jobs.append(("%s: %s at %d" % (name, how, at), kdfs.hmac, ck, km, name, n[:2], "update", (), None, how, at))
    for kind, it in (("hkdf", None), ("pbkdf", 2)):
        for D in (20, 28, 32, 48, 64):
            jobs.append(("%s%d: any earlier use" % (kind, D), lives.anyuse, (("init", "derive"),), partial(kdfs.derive, iters=it), ck, km, kind, D, [2 * D + 1]))
        for D in (20, 64):
            for how in COPIES:
                jobs.append(("%s%d: %s between two reads" % (kind, D, how), kdfs.derive, ck, km, kind, D, [D + 1, D + 1], "", None, it, None, False, how, 1))
                jobs.append(("%s%d: %s at the start" % (kind, D, how), kdfs.derive, ck, km, kind, D, [D + 1], "", None, it, None, False, how, 0))
    for layer in ("raw", "apie"):
        for op in ("encrypt", "decrypt"):
            real = (["aad"], ["aad", "over", "encrypt"], ["encrypt", "final"]) if layer == "raw" else (["aad"], ["aad", "encrypt"], ["encrypt", "digest"])
            jobs.append(("aead %s: any earlier use, %s" % (layer, op), lives.anyuse, real, aeads.stream, ck, am, layer, 1, [op]))
            jobs.append(("aead %s: any earlier use, no associated data, %s" % (layer, op), lives.anyuse, real, aeads.stream, ck, am, layer, 0, [op]))
            for how in COPIES:
                for at in range(5):
                    jobs.append(("aead %s: %s %s at %d" % (layer, op, how, at), aeads.stream, ck, am, layer, 1, [op, op], "", False, None, (), None, False, how, at))
    jobs += digests.again(ck, dm)
    jobs += wraps.jobs(ck, build.module("wrap.cpp"), lambda k, f: f in FORMS)
    ck.bound("earlier use: every content of the object (arbitrary bytes), whatever operations led to it; then one input of any size (or reads of up to two blocks and a byte) compared with the specification")
    ck.bound("copies (construction, assignment, and going on with the original) at every step of: two updates, two pieces, two reads (up to a block and a byte each), one part of associated data and two of text; "
             "the object left behind is overwritten with arbitrary bytes" + ("" if deep else "; for hashes and ciphers the first piece is at most a block and each hash has two of the four positions"))
    ck.bound("reading again: every object content and every size")
    ck.stub("block functions, hashes under HMAC, PRFs under key derivation, cipher and MAC under AEAD are the stand-ins of C01-C14")
    ck.parallel(jobs)
