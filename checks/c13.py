"""ChaCha20-Poly1305 output and tag equal RFC 8439."""
from sx import build
from . import aeads


def run(ck):
    mod = build.module("aead.cpp")
    E, X = "encrypt", "decrypt"
    jobs = []
    for layer in ("raw", "apie"):
        for na, ops in ((0, []), (1, []), (0, [E]), (1, [E]), (2, [E, E]), (1, [X]), (2, [X, X]), (3, [E])):
            jobs.append(("%s: %d associated data parts, then %s" % (layer, na, ", ".join(ops) or "no text"), aeads.stream, ck, mod, layer, na, ops))
        jobs.append((layer + ": in place encryption", aeads.stream, ck, mod, layer, 1, [E, E], "", True))
        jobs.append((layer + ": in place decryption", aeads.stream, ck, mod, layer, 1, [X, X], "", True))
        jobs.append((layer + ": char overloads", aeads.stream, ck, mod, layer, 2, [E, E], "c"))
        jobs.append((layer + ": char overloads, decryption", aeads.stream, ck, mod, layer, 1, [X], "c"))
        jobs.append((layer + ": any key and nonce size", aeads.stream, ck, mod, layer, 1, [E], "", False, "free"))
        for hist in (["aad"], ["aad", "over", "encrypt"] if layer == "raw" else ["aad", "encrypt"], ["encrypt", "final"] if layer == "raw" else ["encrypt", "digest"]):
            jobs.append(("%s: after %s of an earlier use" % (layer, ", ".join(hist)), aeads.stream, ck, mod, layer, 1, [E], "", False, None, hist))
    jobs.append(("apie: initialising constructor", aeads.stream, ck, mod, "apie", 1, [E], "ctor"))
    for f in ("p", "d", "s"):
        jobs.append(("one call encryption, form " + f, aeads.one_encrypt, ck, mod, f))
    ck.bound("every key, nonce (also of sizes other than 32 and 12), associated data in up to three parts and text in up to two parts, each of any size below 2^50; "
             "one call forms with containers: texts of 5 bytes")
    ck.stub("cipher and MAC are stand-in classes: the cipher xors an uninterpreted keystream byte per position, the MAC records key and message (C07, C09 decide the real ones)")
    ck.parallel(jobs)
