"""Pattern expressions select benchmark names as specified."""
from . import apps


def run(ck):
    mod = apps.module()
    deep = ck.thorough()
    js = []
    top = 7 if deep else 6
    for pn in range(top + 1):
        for mn in range((12 if deep else 9) + 1):
            for fn in ("match", "match_string"):
                js.append(("%s of a pattern of %d in %d characters" % (fn, pn, mn), apps.match, ck, mod, fn, pn, mn))
    ck.bound("every pattern of 0 to %d characters (all byte values) against every name of 0 to %d characters" % (top, 12 if deep else 9))
    ck.parallel(js)
