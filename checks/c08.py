"""Poly1305 arithmetic is exact modulo 2^130-5."""
from sx import build
from . import polys


def run(ck):
    mod = build.module("mac_blk.cpp")
    mac = build.module("mac.cpp")
    ck.parallel([
        ("one block, high bit set", polys.block, ck, mod, 1, True),
        ("one block, high bit set or clear", polys.block, ck, mod, 1, False),
        ("any number of blocks", polys.induction, ck, mod),
        ("final reduction and addition of s", polys.final, ck, mac),
    ])
