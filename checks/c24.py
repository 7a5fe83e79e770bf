"""The compile-time paths give the specified results: the same obligations, decided on the library with every
"evaluated at compile time" question answered yes."""
import os

from sx import build
from . import aeads, ciphers, codecs, hashes, kdfs, mems, polys
from .msg import at_sizes, c64


def primitives(ck):
    jobs = []

    def go(name, *r):
        jobs.append(("compile-time " + name, *r))
    deep = ck.thorough()
    h = build.module("hash.cpp")
    c = build.module("cipher.cpp")
    cs = build.module("cipher.cpp", ("-fno-inline-functions",))
    m, mb = build.module("mac.cpp"), build.module("mac_blk.cpp")
    k, a, co = build.module("kdf.cpp"), build.module("aead.cpp"), build.module("codec.cpp")
    for alg in ("sha512", "sha256", "sha1"):
        go("%s block function" % alg, hashes.sw_block, ck, h, alg, "@blk_" + alg)
    for alg in hashes.ALGS:
        B = hashes.blk(alg)[3]
        sizes = [[], [0], [3], [B - 9 - (B == 128) * 8], [B - 8], [B - 1], [B], [2 * B + 5], [B + 2, 5], [3, 2 * B]]
        if deep:
            sizes += [[n] for n in range(1, B + 1)] + [[3, B - 3], [B, B], [1, 1, 1], [0, B, 0]]
        for sz in sizes:
            go("%s, updates of %s bytes" % (alg, sz), hashes.stream, ck, h, alg, [c64(n) for n in sz])
            if len(sz) > 1 or deep:
                go("%s, updates of %s characters" % (alg, sz), hashes.stream, ck, h, alg, [c64(n) for n in sz], "updatec")
    for op in ("transform", "generate"):
        go("ChaCha %s, any number of blocks" % op, ciphers.sw_induction, ck, c, op)
        for n in (0, 1, 2):
            go("ChaCha %s of %d blocks" % (op, n), ciphers.sw_blocks, ck, c, op, n)
    for op, sz in ((["enc"], [0]), (["enc"], [130]), (["dec", "enc"], [70, 60]), (["enc", "dec", "enc"], [3, 61, 64]), (["encc"], [65]), (["decc", "decc"], [1, 128])):
        go("ChaCha stream %s %s" % (op, sz), at_sizes, {"n%d" % i: n for i, n in enumerate(sz)}, ciphers.stream, ck, cs, "sw", op)
        if op[0] == "enc":
            go("ChaCha stream %s %s in place" % (op, sz), at_sizes, {"n%d" % i: n for i, n in enumerate(sz)}, ciphers.stream, ck, cs, "sw", op, None, True)
    go("Poly1305 one block", polys.block, ck, mb, 1, False)
    go("Poly1305 any number of blocks", polys.induction, ck, mb)
    go("Poly1305 final reduction", polys.final, ck, m)
    for sz in ([], [0], [16], [40], [3, 30], [16, 16, 1]) + (tuple([n] for n in range(1, 33)) if deep else ()):
        go("Poly1305, updates of %s bytes" % sz, polys.stream, ck, m, [c64(n) for n in sz])
        go("Poly1305, updates of %s characters" % sz, polys.stream, ck, m, [c64(n) for n in sz], "updatec", None, c64(32))
    for alg, (_, B, D) in kdfs.ALGS.items():
        for kn, sz in ((0, []), (20, [5]), (B, [100]), (B + 1, [3, 70])):
            go("%s, key of %d bytes, updates of %s bytes" % (alg, kn, sz), at_sizes, {"kn": kn}, kdfs.hmac, ck, k, alg, [c64(n) for n in sz], "update" if kn != 20 else "updatec")
    for D in (20, 28, 32, 48, 64):
        for sz in ([D + 5, D], [7, D, 2 * D - 7]):
            ns = {"n%d" % i: n for i, n in enumerate(sz)}
            go("HKDF-%d, outputs of %s bytes" % (D, sz), at_sizes, dict(ns, ikm_n=40, salt_n=10, info_n=5), kdfs.derive, ck, k, "hkdf", D, [2 * D] * len(sz))
            for it in (0, 1, 3):
                go("PBKDF2-%d, outputs of %s bytes, %d iterations" % (D, sz, it), at_sizes, dict(ns, ikm_n=40, salt_n=10, iters=it), kdfs.derive, ck, k, "pbkdf", D, [2 * D] * len(sz), "", (), 3)
    for layer in ("raw", "apie"):
        for op in ("encrypt", "decrypt"):
            go("AEAD %s %s" % (layer, op), at_sizes, dict(a0=13, t0=37, key_n=32, iv_n=12), aeads.stream, ck, a, layer, 1, [op])
            go("AEAD %s %s in place" % (layer, op), at_sizes, dict(a0=16, t0=64, t1=5, key_n=32, iv_n=12), aeads.stream, ck, a, layer, 1, [op, op], "", True)
            go("AEAD %s %s of characters, other key sizes" % (layer, op), at_sizes, dict(a0=13, a1=0, t0=37, t1=64, key_n=30, iv_n=14), aeads.stream, ck, a, layer, 2, [op, op], "c", False, "free")
    for x in ("b16", "b64"):
        for n in range(0, 8) if not deep else range(0, 18):
            for f in ("enc", "encu", "encc"):
                go("%s %s of %d bytes" % (x, f, n), codecs.encode, ck, co, x, f, n)
            for f in ("dec", "decu", "dect", "decc", "decct"):
                go("%s %s of %d characters" % (x, f, n), codecs.decode, ck, co, x, f, n)
            go("%s round trip of %d bytes" % (x, n), codecs.round_trip, ck, co, x, n)
    return jobs


def run(ck):
    build.EXTRA[:] = ["-include", os.path.join(build.HARNESS, "ct.h")]
    jobs = primitives(ck)
    jobs += [("compile-time " + n, *r) for n, *r in mems.jobs(ck, build.module("memory.cpp"), ck.thorough(), True)]
    ck.bound("every content, key and state; the sizes named by each obligation (block functions: any number of blocks)")
    ck.assume("std::is_constant_evaluated is answered yes in generated code, so the compile-time branches are judged as run-time code; "
              "that the compiler's constant evaluator executes C++ correctly is assumed")
    ck.stub("as in the run-time checks: block functions in the streams, PRF in the KDFs, cipher and MAC in the AEAD")
    ck.parallel(jobs)
