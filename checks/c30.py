"""Every convenience form gives what the underlying primitive gives."""
from sx import build
from . import wraps


def run(ck):
    ck.bound("every form of the convenience interface (hash, mac, cipher, kdf, aead, codec; raw pointers, strings, views, vectors, arrays, by value and by reference, constructors, one call forms, error argument and exception)")
    ck.bound("inputs of any content; lengths are symbolic (below 2^40 for pointers and views); results placed in growing containers are bounded (%s bytes kdf, %s bytes codec and cipher)" % ((100, 60) if ck.thorough() else (36, 12)))
    ck.stub("the algorithms under the wrappers are stand-ins that record what they are given and produce uninterpreted bytes (C01-C20 and C27 decide the real ones)")
    ck.parallel(wraps.jobs(ck, build.module("wrap.cpp")))
