"""No operation reads or writes outside its object and the caller's ranges."""
from . import safety


def run(ck):
    ck.parallel(safety.jobs(ck))
