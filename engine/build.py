"""Compiles witness translation units against /repo's current sources into LLVM IR."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("CARIBOU_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"

_scratch = None
_lock = threading.RLock()


def scratch():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="verif-caribou-")
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def config_headers():
    with _lock:
        return _config_headers()


def _config_headers():
    """regenerates the configured headers from /repo's templates (same options as the build)"""
    out = os.path.join(scratch(), "include")
    if os.path.isdir(out):
        return out
    os.makedirs(out + "/Caribou/Topology")
    src = REPO + "/src/Caribou"
    defs = {"CARIBOU_USE_FLOAT": None, "CARIBOU_WITH_VTK": True, "CARIBOU_VERSION_STR": '"0"', "CARIBOU_VERSION": "0"}

    def conf(path, dst):
        t = open(path).read()

        def rep(m):
            v = defs.get(m.group(1))
            rest = m.group(2)
            if v is None:
                return f"/* #undef {m.group(1)} */"
            return f"#define {m.group(1)}{rest}"
        t = re.sub(r"#cmakedefine\s+(\w+)([^\n]*)", rep, t)
        t = t.replace("@CARIBOU_VERSION_STR@", '"0"').replace("@CARIBOU_VERSION_NUM@", "0")
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write(t)
    for n in os.listdir(src + "/Config"):
        if n.endswith(".h.in"):
            conf(f"{src}/Config/{n}", f"{out}/Caribou/{n[:-3]}")
    for root, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".h.in") and not root.endswith("/Config"):
                rel = os.path.relpath(os.path.join(root, f), src)
                conf(os.path.join(root, f), f"{out}/Caribou/{rel[:-3]}")
    for f in ("SofaCaribou",):
        if os.path.exists(f"{REPO}/src/{f}/config.h.in"):
            conf(f"{REPO}/src/{f}/config.h.in", f"{out}/{f}/config.h")
    return out


BASE = ["-std=c++17", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0", "-DEIGEN_DONT_PARALLELIZE", "-DEIGEN_CACHEFRIENDLY_PRODUCT_THRESHOLD=1000000",
        "-DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=1000000",
        "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno", "-w", "-gline-tables-only",
        "-fno-discard-value-names", "-ferror-limit=5"]


def includes():
    return ["-I", config_headers(), "-I", REPO + "/src", "-I", VERIF + "/witness", "-isystem", "/usr/include/eigen3"]


class CompileError(Exception):
    pass


def compile_ir(src, opt="-O1", extra=(), name=None, inline=2000):
    """src: path of a witness TU; returns path of textual IR"""
    if not os.path.isabs(src):
        src = os.path.join(VERIF, "witness", src)
    out = os.path.join(scratch(), (name or os.path.basename(src)) + "." +
                       hashlib.sha1(repr((src, opt, tuple(extra))).encode()).hexdigest()[:8] + ".bc")
    if os.path.exists(out):
        return out
    cmd = [CLANG, *BASE, opt, "-mllvm", f"-inline-threshold={inline}", *includes(), *extra, "-c", "-emit-llvm", src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(" ".join(cmd) + "\n" + r.stderr[:4000])
    return out


def compile_source(text, name, **kw):
    p = os.path.join(scratch(), name + ".cpp")
    open(p, "w").write(text)
    return compile_ir(p, **kw)


def parallel(jobs, n=8):
    """jobs: list of zero-argument callables"""
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
