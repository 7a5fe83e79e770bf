"""Builds from the repository's current working tree: LLVM IR of harness units, native
objects of the assembly sources, and native replay programs."""
import atexit
import glob
import os
import shutil
import subprocess
import tempfile

from . import ir

REPO = os.environ.get("MILO_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")

DEFS = ["-DMILO_INTERNAL_ASM=true", "-DMILO_INTERNAL_ABI_UNIX=true"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/app/include", "-I" + HARNESS]
CLANG = ["clang++", "-DMILO_VERIF", "-std=c++20", "-fno-access-control", "-w",
         "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]

# flags every unit and native program is compiled with in addition (the compile-time paths: ct.h)
EXTRA = []

_dir = None


class BuildError(Exception):
    pass


def workdir():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="milo-verif-")
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd[:4]) + " ...\n" + p.stdout.decode(errors="replace")[-3000:])
    return p.stdout.decode(errors="replace")


def path(name):
    return name if os.path.isabs(name) else os.path.join(HARNESS, name)


_ir = {}


def ir_text(src, extra=(), opt="-O1"):
    key = (src, tuple(extra), tuple(EXTRA), opt)
    if key not in _ir:
        out = os.path.join(workdir(), "m%d_%d.ll" % (len(_ir), os.getpid()))
        run(CLANG + [opt] + DEFS + INC + EXTRA + list(extra) + ["-S", "-emit-llvm", "-o", out, path(src)])
        _ir[key] = out
    return open(_ir[key]).read()


def module(src, extra=(), opt="-O1"):
    """parse the IR of a harness unit"""
    return ir.parse(ir_text(src, extra, opt))


_asm = None


def asm_objects(abi="UNIX"):
    """assemble every .asm source of the repository"""
    global _asm
    if _asm is None:
        _asm = []
        for r, _, fs in sorted(os.walk(REPO + "/src")):
            for f in sorted(fs):
                # the files the project's build picks up
                if not (f.endswith("x86_64.asm") or (f.endswith(".asm") and r.endswith("arch/x86_64"))):
                    continue
                src = os.path.join(r, f)
                # include files without an exported symbol assemble to nothing useful
                obj = os.path.join(workdir(), "asm%d_%d_%s.o" % (len(_asm), os.getpid(), f[:-4]))
                try:
                    run(["nasm", "-f", "elf64", "-i", REPO + "/src/milo/internal/arch/x86_64", "-i", os.path.dirname(src) + "/",
                         "-DMILO_INTERNAL_ABI_%s=true" % abi, "-o", obj, src])
                    _asm.append(obj)
                except BuildError:
                    if "global" in open(src).read():
                        raise
    return _asm


_exe = {}


def native(src, extra=(), opt="-O2", asm=True, cxx="g++", libs=()):
    """compile a native program from a harness source, linked with the assembly objects"""
    key = (src, tuple(extra), tuple(EXTRA), opt, asm, cxx, tuple(libs))
    if key not in _exe:
        out = os.path.join(workdir(), "x%d_%d" % (len(_exe), os.getpid()))
        acc = ["-fno-access-control"]
        run([cxx, "-std=c++20", opt, "-w"] + acc + DEFS + INC + EXTRA + list(extra) + ["-o", out, path(src)] + (asm_objects() if asm else []) + list(libs))
        _exe[key] = out
    return _exe[key]


def call(exe, stdin="", timeout=60, args=(), env=None):
    """run a native program: (return code or 'timeout', stdout)"""
    try:
        p = subprocess.run([exe] + list(args), input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=workdir(), env=dict(os.environ, **env) if env else None)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")
