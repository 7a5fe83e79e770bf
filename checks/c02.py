"""SHA-224 and SHA-256 digests are those of FIPS 180-4."""
from .c01 import common


def run(ck):
    common(ck, ["sha224", "sha256"], "sha256")
