"""Base-16 decoding rejects exactly the malformed texts."""
from sx import build
from . import codecs


def common(ck, codec, lens):
    mod = build.module("codec.cpp")
    jobs = codecs.any_jobs(ck, mod, codec, "dec")
    for n in reversed(lens):
        for fn in ("dec", "decu", "dect", "decc", "decct"):
            jobs.append(("%s %s of %d characters" % (codec, fn, n), codecs.decode, ck, mod, codec, fn, n))
    ck.bound("every text over all 256 byte values of length %s; pointer, container, throwing and non-throwing overloads" % lens)
    ck.parallel(jobs)


def run(ck):
    common(ck, "b16", list(range(0, 14)) if not ck.thorough() else list(range(0, 26)))
