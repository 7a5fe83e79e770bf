"""Command line options and parameters mean what the documentation says."""
from . import apps


def run(ck):
    mod = apps.module()
    deep = ck.thorough()
    js = []
    lens = range(0, 8 if deep else 7)
    for fn in ("number", "default", "option", "text", "command"):
        for nlen in (1, 2, 3):
            if fn == "command" and nlen > 1:
                continue
            js.append(("%s, one argument, name of %d" % (fn, nlen), apps.group, ck, apps.read, [(mod, fn, [n], s, nlen) for n in lens for s in (0, 1)] + [(mod, fn, [], 0, nlen), (mod, fn, [], 1, nlen)]))
            for n in lens:
                js.append(("%s, arguments of %d and more, name of %d" % (fn, n, nlen), apps.group, ck, apps.read, [(mod, fn, [n, k], s, nlen) for k in lens for s in (0, 1)]))
        three = [(x, y, z) for x in (1, 3, 5) for y in (1, 4, 6) for z in (3, 5, 6)]
        for x in (1, 3, 5):
            js.append(("%s, three arguments, first of %d" % (fn, x), apps.group, ck, apps.read, [(mod, fn, list(t), s, 1) for t in three if t[0] == x for s in (0, 1, 2)]))
    for k in (1, 2, 5, 10, 14):
        for fn in ("number", "default"):
            js.append(("%s of %d characters" % (fn, k), apps.group, ck, apps.read, [(mod, fn, [4 + k], 0, 1, {0: b"--n="})]))
    # the largest numbers: some leading digits fixed
    for head in (b"9999999999999", b"184467440737095", b"1844674407370955", b"18446744073709551", b"99999999999999999", b"0000000000000001844674407370955161", b"1844674407370955161"):
        for fn in ("number", "default"):
            js.append(("%s of large values %s..." % (fn, head.decode()), apps.group, ck, apps.read, [(mod, fn, [4 + len(head) + k], 0, 1, {0: b"--n=" + head}) for k in range(1, 6)]))
    for x in (4, 5, 6):
        js.append(("parameter group, first argument of %d" % x, apps.group, ck, apps.read, [(mod, "group", [x, y], 0, 1, {0: b"--", 1: b"--"}) for y in (4, 5, 6)] + [(mod, "group", [x, y, 6], 0, 1, {0: b"--", 1: b"--", 2: b"--"}) for y in (5, 6)]))
    js.append(("argument dump", apps.group, ck, apps.dump, [(mod, l) for l in ([], [0], [3], [2, 3], [0, 0, 1], [16, 20])]))
    ck.bound("argument lists of 0 to 3 arguments of 0 to %d characters (every content), names of 1 to 3 characters, 0 to 2 commands read before; values of up to 14 arbitrary characters, and of up to 39 with a fixed beginning near the largest number" % lens[-1])
    ck.parallel(js)
