"""The vector ChaCha backends write the same bytes as the portable one."""
from sx import build
from sx.report import Violation
from . import asms


def ratio(ck, mod, be):
    """the block ratio the library uses is the one of the routine"""
    from sx.exec import Engine
    eng = Engine(mod)
    st = eng.new_state()
    r = eng.peek(st, eng.gptr(st, "@%s_ratio" % be), 8)
    if r.op != "const" or r.p != asms.RATIO[be]:
        asms.probe_chacha(be, "generate", "block ratio")
        raise Violation("%s: the library assumes %s blocks per iteration, the routine produces %d" % (be, r.p, asms.RATIO[be]), dict(program="drv_asm.cpp", got=str(r.p)))
    return "ratio %d" % r.p


def run(ck):
    mod = build.module("cipher.cpp")
    jobs = []
    for be in ("ssse_3", "avx_2"):
        jobs.append(("%s block ratio" % be, ratio, ck, mod, be))
        for op in ("transform", "generate"):
            tr = op == "transform"
            args = ["n", "state", "dst"] + (["src"] if tr else [])
            for ch in ("", "c"):
                jobs.append(("%s %s wrapper%s" % (be, op, " (char)" if ch else ""), asms.wrapper, ck, mod, be + ch + "_" + op, asms.CH % (be, op), args, [10, "n", "state", "dst"] + (["src"] if tr else []),
                             lambda what, be=be, op=op: wrapped(be, op, what)))
            for inplace in ((False, True) if tr else (False,)):
                for al in (8, 24):
                    jobs.append(("%s %s%s, stack %d modulo 32" % (be, op, " in place" if inplace else "", al), asms.chacha_induction, ck, be, op, al, inplace, True, False))
                if ck.thorough():
                    jobs.append(("%s %s%s, 0 to 6 iterations" % (be, op, " in place" if inplace else ""), asms.chacha_counts, ck, be, op, 24, range(7), inplace, "ChaCha %s %s" % (be, op), "exact counts", True, False))
    ck.parallel(jobs)


def wrapped(be, op, what):
    from .ciphers import replay_blk, py_block
    from .msg import lcg
    from .util import compare
    n = 2
    state = [7 * i + 1 for i in range(16)]
    src = lcg(64 * n * asms.RATIO[be], 2)
    want, s = b"", list(state)
    for i in range(n * asms.RATIO[be]):
        want += py_block(s)
        s[12] += 1
    if op == "transform":
        want = bytes(x ^ y for x, y in zip(want, src))
    st = b"".join(x.to_bytes(4, "little") for x in state)
    compare("drv_cipher.cpp", "blk %s %s %d h:%s h:%s\n" % (be, op, n, st.hex(), src.hex()), "%d %s" % (n * asms.RATIO[be], want.hex()), what)
