"""Authenticated decryption inverts encryption and accepts the genuine tag."""
from sx import build
from . import aeads


def run(ck):
    mod = build.module("aead.cpp")
    jobs = []
    for layer in ("raw", "apie"):
        for na, nb, ne, nd in ((1, 1, 1, 1), (2, 1, 1, 2), (1, 2, 2, 1), (2, 2, 2, 2), (0, 0, 1, 1), (1, 1, 0, 0)) + (() if ck.tier == "quick" else ((3, 2, 3, 2), (2, 3, 2, 3))):
            for inplace in (False, True):
                jobs.append(("%s: associated data %d/%d, text %d/%d parts%s" % (layer, na, nb, ne, nd, ", in place" if inplace else ""),
                             aeads.roundtrip, ck, mod, layer, na, nb, ne, nd, inplace))
    for f in ("px", "ce", "cx"):
        jobs.append(("apie: verification form " + f, aeads.roundtrip, ck, mod, "apie", 1, 1, 1, 1, False, f))
    ck.bound("every key, nonce, associated data and text of any size below 2^50, in up to two parts on each side with all boundaries symbolic, out of place and in place")
    ck.stub("cipher and MAC are stand-in classes: equal key and nonce give the same uninterpreted keystream, equal key and message the same tag (C07, C09 decide the real ones)")
    ck.parallel(jobs)
