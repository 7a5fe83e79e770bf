"""Nothing processed is left in an object's storage."""
from . import erase


def run(ck):
    ck.parallel(erase.jobs(ck))
