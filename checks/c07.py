"""ChaCha streams give position-exact keystream on every backend width."""
from sx import build
from . import ciphers


def run(ck):
    mod = build.module("cipher.cpp")
    jobs = []
    for kind, r in (("sw", 1), ("ssse_3", 4), ("avx_2", 8)):
        B = 64 * r
        for op in ("enc", "dec"):
            jobs.append(("%s %s, one piece" % (kind, op), ciphers.stream, ck, mod, kind, [op]))
        jobs.append(("%s in place, one piece" % kind, ciphers.stream, ck, mod, kind, ["enc"], None, True))
        jobs.append(("%s two pieces, first shorter than the backend's block" % kind, ciphers.stream, ck, mod, kind, ["enc", "enc"], {0: B}))
        jobs.append(("%s three pieces, two short" % kind, ciphers.stream, ck, mod, kind, ["enc", "enc", "enc"], {0: B, 1: B}))
        jobs.append(("%s two pieces in place" % kind, ciphers.stream, ck, mod, kind, ["dec", "dec"], {0: B}, True))
        jobs.append(("%s two pieces of any size" % kind, ciphers.stream, ck, mod, kind, ["dec", "dec"]))
        if ck.thorough():
            jobs.append(("%s three pieces of any size" % kind, ciphers.stream, ck, mod, kind, ["enc", "enc", "enc"]))
            jobs.append(("%s three pieces of any size, in place" % kind, ciphers.stream, ck, mod, kind, ["enc", "dec", "enc"], None, True))
    ck.bound("every key, nonce and counter; piece sizes symbolic below 2^50; one to three pieces; backends of 1, 4 and 8 blocks")
    ck.stub("block functions replaced by an uninterpreted keystream function of counter and position (decided by C05 and C06)")
    ck.parallel(jobs)
