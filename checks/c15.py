"""Tag verification fails exactly when the tag differs, by error or exception."""
from sx import build
from . import aeads


def run(ck):
    mod = build.module("aead.cpp")
    jobs = [("verify, form " + f, aeads.verify, ck, mod, f) for f in ("pe", "pec", "ce", "px", "pxc", "cx")]
    jobs += [("one call decryption, form " + f, aeads.one_decrypt, ck, mod, f) for f in ("pe", "px", "se", "sx", "re", "rx", "de", "dx")]
    ck.bound("every computed and presented tag of 0 to 40 bytes; associated data and text of any size below 2^50 (one call forms: text of 5 bytes); every verify and decrypt "
             "overload kind: pointers, containers, error argument, exception")
    ck.stub("cipher and MAC are stand-in classes over uninterpreted functions")
    ck.parallel(jobs)
