"""Digest output is the prefix that fits: never more than asked, held or produced."""
from sx import build
from . import digests, wraps

FORMS = ("ptr", "ptrd", "chr", "vec", "vecd", "a16", "a40", "a40d", "span", "ret", "retc", "retd", "ret20", "1p", "1pd", "1v", "1vd", "1a", "1r", "1rd", "1r20", "ctorc", "init", "initc")


def run(ck):
    jobs = digests.jobs(ck, build.module("digest.cpp"))
    jobs += wraps.jobs(ck, build.module("wrap.cpp"), lambda k, n: k in "hm" and n in FORMS)
    ck.bound("every object content and every requested size (any 64-bit value); configured digest sizes: default, 0, 1, 8, five less than, equal to, four more than the algorithm's, 300; "
             "destinations: pointers, growing containers, arrays of 16, 20, 40 bytes, views of up to 100 bytes")
    ck.stub("the wrapper forms and one HMAC family run over a stand-in hash and MAC")
    ck.parallel(jobs)
