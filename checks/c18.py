"""Base-64 encoding matches RFC 4648 and decoding inverts it."""
from .c16 import common


def run(ck):
    common(ck, "b64", list(range(0, 20)) if not ck.thorough() else list(range(0, 34)))
