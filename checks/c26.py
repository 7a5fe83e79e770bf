"""Branches and addresses do not depend on secrets."""
from . import timing


def run(ck):
    ck.parallel(timing.jobs(ck))
