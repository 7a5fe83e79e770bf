"""SHA-384, SHA-512 and SHA-512/t digests are those of FIPS 180-4."""
from .c01 import common


def run(ck):
    common(ck, ["sha384", "sha512", "sha512_224", "sha512_256"], "sha512", False)
