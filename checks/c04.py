"""Results do not depend on how the input was split over calls."""
from sx import build
from sx.terms import var
from . import aeads, ciphers, hashes, kdfs, polys


def run(ck):
    mod = build.module("hash.cpp")
    n = [var("n%d" % i, 64) for i in range(3)]
    jobs = []
    for a in reversed(hashes.ALGS):
        B = hashes.blk(a)[3]
        jobs.append(("%s, two updates of any size" % a, hashes.stream, ck, mod, a, n[:2]))
        jobs.append(("%s, character overload" % a, hashes.stream, ck, mod, a, n[:1], "updatec"))
        if ck.thorough() or a == "sha256":
            jobs.append(("%s, two updates shorter than a block, then one of any size" % a, hashes.stream, ck, mod, a, n, "update",
                         None, 0, (), {"n0": B, "n1": B}))
    cm, mm, km, am = (build.module(x) for x in ("cipher.cpp", "mac.cpp", "kdf.cpp", "aead.cpp"))
    for kind, B in (("avx_2", 512), ("ssse_3", 256), ("sw", 64)):
        jobs.append(("chacha %s, two pieces, the first shorter than the backend's block" % kind, ciphers.stream, ck, cm, kind, ["enc", "enc"], {0: B}))
        jobs.append(("chacha %s, two pieces of any size" % kind, ciphers.stream, ck, cm, kind, ["dec", "dec"]))
    jobs.append(("poly1305, two updates of any size", polys.stream, ck, mm, n[:2]))
    jobs.append(("poly1305, three updates, two short", polys.stream, ck, mm, n, "update", {"n0": 17, "n1": 17}))
    for a in kdfs.ALGS:
        jobs.append(("%s, two updates" % a, kdfs.hmac, ck, km, a, n[:2]))
    for layer in ("raw", "apie"):
        for op in ("encrypt", "decrypt"):
            jobs.append(("aead %s, two parts of associated data, two of text, %s" % (layer, op), aeads.stream, ck, am, layer, 2, [op, op]))
    ck.stub("streams: block functions, the hash under HMAC, the cipher and MAC under the AEAD are uninterpreted (decided by C01-C03, C05-C10)")
    ck.bound("update sizes: symbolic 64-bit (below 2^59 bytes), one or two updates; three where the first two are shorter than a block")
    if ck.thorough():
        for a in hashes.ALGS:
            jobs.append(("%s, two updates of any size, character overload" % a, hashes.stream, ck, mod, a, n[:2], "updatec"))
            jobs.append(("%s, three updates of any size" % a, hashes.stream, ck, mod, a, n))
    ck.parallel(jobs)
