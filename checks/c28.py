"""Memory, byte order and bit helpers."""
from sx import build
from . import mems


def run(ck):
    ck.parallel(mems.jobs(ck, build.module("memory.cpp"), ck.thorough()))
