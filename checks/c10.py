"""HMAC equals RFC 2104."""
from sx import build
from sx.terms import var
from . import kdfs


def run(ck):
    mod = build.module("kdf.cpp")
    n = [var("n%d" % i, 64) for i in range(3)]
    jobs = []
    for name in kdfs.ALGS:
        jobs.append(("%s one update" % name, kdfs.hmac, ck, mod, name, n[:1]))
        jobs.append(("%s no update, char key" % name, kdfs.hmac, ck, mod, name, [], "updatec"))
        jobs.append(("%s two updates, char" % name, kdfs.hmac, ck, mod, name, n[:2], "updatec"))
        jobs.append(("%s after another use" % name, kdfs.hmac, ck, mod, name, n[:1], "update", ("init", "update", "final")))
        jobs.append(("%s after an abandoned use" % name, kdfs.hmac, ck, mod, name, n[:1], "update", ("init", "update")))
    ck.bound("every key and message content, key and message sizes symbolic below 2^50; up to two updates; block/digest sizes 64/20, 64/28, 64/32, "
             "128/28, 128/32, 128/48, 128/64")
    ck.stub("the hash is a stand-in class whose results are uninterpreted functions of the whole message (the hashes are decided by C01-C04)")
    ck.parallel(jobs)
