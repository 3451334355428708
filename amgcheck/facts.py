"""Fact extraction driver: runs the libTooling dumper (tool/amgfacts.cpp) over every
translation unit below /repo/src and merges the result into one Program."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("AMG_REPO", "/repo")
SRC = os.path.join(REPO, "src") + "/"
CACHE = os.environ.get("AMG_CACHE", os.path.join(VERIF, ".cache"))
CLANG = "/usr/lib/llvm-18/bin/clang++"
NGS = "/opt/ngs/6.2.2405/include/netgen"

DEFS = ("-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON "
        "-DNG_MPI_WRAPPER -DNG_PYTHON -DNgsAMG_EXPORTS -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO "
        "-DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1 -w -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG "
        "-DNGS_COMPATIBILITY -O1 -DNDEBUG -fPIC -march=core-avx2 -std=c++17 -DMAX_SYS_DIM=3 -fsyntax-only "
        "-resource-dir /usr/lib/llvm-18/lib/clang/18").split()
INCDIRS = ["base", "base/utils", "base/distributed", "base/mesh", "base/coarsening", "base/factory", "base/smoothers",
           "base/solve", "base/precond", "base/ngs_extension", "base/linalg", "base/python", "elasticity",
           "stokes/common", "stokes/ncfes", "stokes/hdiv"]


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (never a pass, never a violation)."""


def sha(b):
    return hashlib.sha256(b).hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def flags():
    fl = list(DEFS)
    dirs = list(INCDIRS)
    for r, ds, fs in os.walk(SRC):
        d = os.path.relpath(r, SRC)
        if d != "." and d not in dirs and any(f.endswith((".hpp", ".h")) for f in fs):
            dirs.append(d)
    fl += ["-I" + SRC + d for d in dirs]
    fl += ["-isystem", "/usr/include/python3.12", "-isystem", NGS, "-isystem", NGS + "/include"]
    return fl


def tus():
    r = []
    for d, _, fs in os.walk(SRC):
        r += [os.path.join(d, f)[len(SRC):] for f in fs if f.endswith(".cpp")]
    return sorted(r)


def build_tool():
    src = os.path.join(VERIF, "tool", "amgfacts.cpp")
    h = sha(read(src))[:16]
    exe = os.path.join(CACHE, "amgfacts-" + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [CLANG, "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
               "-Wl,-rpath,/usr/lib/llvm-18/lib"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisError("cannot build fact extractor:\n" + p.stderr[-2000:])
        os.replace(tmp, exe)
    return exe, h


def build_pch(fl):
    """precompiled header of the (unmodified, system) NGSolve headers only"""
    txt = "#include <comp.hpp>\n#include <core/ng_mpi.hpp>\n#include <python_ngstd.hpp>\n"
    base = [f for f in fl if not f.startswith("-I" + SRC)]
    h = sha((txt + " ".join(base)).encode())[:16]
    hp = os.path.join(CACHE, "ngs-%s.hpp" % h)
    pch = hp + ".pch"
    if not os.path.exists(pch):
        os.makedirs(CACHE, exist_ok=True)
        with open(hp, "w") as f:
            f.write(txt)
        tmp = pch + ".%d.tmp" % os.getpid()
        fl2 = [f for f in base if f != "-fsyntax-only"]
        p = subprocess.run([CLANG] + fl2 + ["-x", "c++-header", hp, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisError("cannot precompile NGSolve headers:\n" + p.stderr[-2000:])
        os.replace(tmp, pch)
    return pch


def extract(verbose=False):
    """returns {tu: factfile}; re-extracts only TUs whose inputs changed"""
    exe, th = build_tool()
    fl = flags()
    pch = build_pch(fl)
    fh = sha((" ".join(fl).replace(SRC, "@/") + th).encode())[:16]
    d = os.path.join(CACHE, "facts")
    os.makedirs(d, exist_ok=True)
    hashes = {}

    def fhash(rel):
        if rel not in hashes:
            try:
                hashes[rel] = sha(read(SRC + rel))
            except OSError:
                hashes[rel] = "-"
        return hashes[rel]

    all_tus = tus()
    todo, res = [], {}
    for tu in all_tus:
        base = os.path.join(d, tu.replace("/", "__"))
        meta = base + ".meta"
        ok = False
        if os.path.exists(meta) and os.path.exists(base + ".facts"):
            try:
                m = json.load(open(meta))
                ok = m["fh"] == fh and all(fhash(k) == v for k, v in m["deps"].items())
            except Exception:
                ok = False
        res[tu] = base + ".facts"
        if not ok:
            todo.append(tu)

    def run(tu):
        base = os.path.join(d, tu.replace("/", "__"))
        out = base + ".facts.%d.tmp" % os.getpid()
        for extra in (["-include-pch", pch], []):
            p = subprocess.run([exe, SRC, out, "--"] + fl + extra + [SRC + tu], capture_output=True, text=True)
            if p.returncode == 0:
                break
        if p.returncode:
            return tu, p.stderr[-1500:]
        deps, nerr = [], 0
        with open(out) as f:
            for l in f:
                if l.startswith("I\t"):
                    deps.append(l[2:].rstrip("\n"))
                elif l.startswith("X\t"):
                    nerr = int(l[2:])
        if nerr:
            return tu, "%d parse errors\n%s" % (nerr, p.stderr[-1500:])
        if tu not in deps:
            deps.append(tu)
        os.replace(out, base + ".facts")
        tmp = base + ".meta.%d.tmp" % os.getpid()
        with open(tmp, "w") as f:
            json.dump({"fh": fh, "deps": {x: sha(read(SRC + x)) for x in deps}}, f)
        os.replace(tmp, base + ".meta")
        return tu, None

    t = time.time()
    if todo:
        # most expensive first
        todo.sort(key=lambda x: -os.path.getsize(SRC + x))
        with ThreadPoolExecutor(8) as ex:
            for tu, err in ex.map(run, todo):
                if err:
                    raise AnalysisError("cannot parse %s:\n%s" % (tu, err))
    if verbose:
        print("extracted %d/%d translation units in %.1f s" % (len(todo), len(all_tus), time.time() - t))
    return res, len(todo)


if __name__ == "__main__":
    extract(True)
