"""Poly1305 messages: blocks, padding, key clamping, chunking."""
from sx import build
from sx.terms import var
from . import polys


def run(ck):
    mod = build.module("mac.cpp")
    n = [var("n%d" % i, 64) for i in range(4)]
    kn = var("kn", 64)
    jobs = [
        ("one update", polys.stream, ck, mod, n[:1]),
        ("one update, any key length", polys.stream, ck, mod, n[:1], "update", None, kn),
        ("one update, char overloads", polys.stream, ck, mod, n[:1], "updatec", None, kn),
        ("no update", polys.stream, ck, mod, []),
        ("two updates", polys.stream, ck, mod, n[:2]),
        ("three updates, two short", polys.stream, ck, mod, n[:3], "update", {"n0": 17, "n1": 17}),

    ]
    if ck.thorough():
        jobs.append(("three updates of any size", polys.stream, ck, mod, n[:3]))
        jobs.append(("four updates, three short", polys.stream, ck, mod, n[:4], "update", {"n0": 17, "n1": 17, "n2": 17}))
    ck.bound("one to three updates (four in the thorough tier) of symbolic 64-bit sizes below 2^58; key lengths below 2^40")
    ck.stub("block function replaced by a recorder of blocks, key words, accumulator and pad flag (its arithmetic is decided by C08)")
    ck.parallel(jobs)
