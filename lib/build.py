"""Builds the code under test from /repo's working tree with the monitors' own
build rules (no cmake): every source file that the project's executable is made
of, the executable itself and the probe, in several instrumentation flavours.

Objects are cached by content (source + all headers + flags) so that repeated
runs in one sandbox are cheap; a changed file always gets a new object.
"""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LHF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DIRS = ["Utils", "Complex", "Pipes", "Preprocessing"]

COMMON = ["-std=gnu++14", "-g1", "-w", "-fno-omit-frame-pointer", "-DOMPI_SKIP_MPICXX"]
FLAVOURS = {
    # memory + undefined behaviour + cheap library assertions; any report is fatal
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    # the same with the library's debug containers (iterator validity, ranges)
    "debug": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-D_GLIBCXX_DEBUG"],
    # data races between threads
    "tsan": ["-O1", "-fsanitize=thread"],
    # uninstrumented, as a user would build it (determinism, valgrind)
    "plain": ["-O1"],
}


class BuildError(Exception):
    pass


def mpi_include():
    for p in ("/usr/lib/x86_64-linux-gnu/openmpi/include",):
        if os.path.exists(os.path.join(p, "mpi.h")):
            return p
    return os.path.join(VERIF, "harness", "stub")


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build(flavour="asan", targets=("probe", "LHF")):
    """Returns {target: path to binary}."""
    flags = COMMON + FLAVOURS[flavour]
    incs = []
    for d in DIRS:
        incs += ["-I", os.path.join(REPO, d)]
    incs += ["-isystem", mpi_include()]
    hdr_digest = _digest(
        open(h, "rb").read()
        for d in DIRS + ["LHFmain"]
        for h in sorted(glob.glob(os.path.join(REPO, d, "*.hpp")) + glob.glob(os.path.join(REPO, d, "*.h"))))
    libsrc = [s for d in DIRS for s in sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))]
    if not libsrc:
        raise BuildError("no sources under " + REPO)
    mains = {"LHF": os.path.join(REPO, "LHFmain", "main.cpp"),
             "probe": os.path.join(VERIF, "harness", "probe.cpp")}
    os.makedirs(os.path.join(BUILD, flavour), exist_ok=True)

    def compile_one(src):
        key = _digest([open(src, "rb").read(), hdr_digest, " ".join(flags + incs)])
        obj = os.path.join(BUILD, flavour, os.path.basename(src)[:-4] + "-" + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            try:
                _run(["g++"] + flags + incs + ["-c", src, "-o", tmp])
            except BuildError:
                if os.path.exists(tmp):
                    os.unlink(tmp)
                raise
            os.rename(tmp, obj)
        return obj

    todo = libsrc + [mains[t] for t in targets]
    # biggest files first: better use of the cores
    order = sorted(todo, key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = dict(zip(order, ex.map(compile_one, order)))
    lib = [objs[s] for s in libsrc]
    out = {}
    for t in targets:
        o = objs[mains[t]]
        key = _digest([o] + lib)
        exe = os.path.join(BUILD, flavour, t + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
            _run(["g++"] + san + [o] + lib + ["-o", tmp, "-lpthread"])
            os.rename(tmp, exe)
        out[t] = exe
    return out


if __name__ == "__main__":
    import time
    for fl in sys.argv[1:] or ["asan", "plain"]:
        t = time.time()
        print(build(fl), "%.1fs" % (time.time() - t))
