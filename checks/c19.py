"""Base-64 decoding rejects exactly the malformed texts."""
from .c17 import common


def run(ck):
    common(ck, "b64", list(range(0, 13)) if not ck.thorough() else list(range(0, 26)))
