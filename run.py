#!/usr/bin/env python3-vt
"""run.py <property id> [quick|thorough]: decides one property against the working tree."""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from sx.report import Check
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = Check(pid, tier)
    mod = importlib.import_module("checks." + pid.lower())
    ck.obligation("check", lambda: mod.run(ck) or True) if os.environ.get("VERIF_ONE") else _run(ck, mod)
    return ck.finish()


def _run(ck, mod):
    def body():
        mod.run(ck)
        return True
    n = len(ck.obls)
    ck.obligation("completion", body)


rc = [0]


def target():
    rc[0] = main()


if __name__ == "__main__":
    threading.stack_size(512 << 20)
    sys.setrecursionlimit(150000)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
