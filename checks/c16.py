"""Base-16 encoding is exact and decoding inverts it."""
from sx import build
from . import codecs


def common(ck, codec, lens):
    mod = build.module("codec.cpp")
    jobs = codecs.any_jobs(ck, mod, codec, "enc")
    for n in lens:
        for fn in ("enc", "encu", "encc"):
            jobs.append(("%s %s of %d bytes" % (codec, fn, n), codecs.encode, ck, mod, codec, fn, n))
        jobs.append(("%s round trip of %d bytes" % (codec, n), codecs.round_trip, ck, mod, codec, n))
    ck.bound("every byte string of length %s; pointer (both byte types) and container overloads" % lens)
    ck.parallel(jobs)


def run(ck):
    common(ck, "b16", list(range(0, 20)) if not ck.thorough() else list(range(0, 40)))
