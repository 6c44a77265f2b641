#!/usr/bin/env python3
"""Builds the harness together with /repo's current sources.

One object per (preprocessed text, flags): objects are cached in /verif/build/cache, so a changed
source is always recompiled and an unchanged one never is.  Variants:
  mc   : -fsanitize=thread *instrumentation only* (the __tsan_* runtime, the OpenMP runtime and MPI
         are supplied by harness/rt_*.cpp), used for every exploration
  asan : AddressSanitizer + UBSan build for the ownership / bounds explorations
"""
import hashlib, os, subprocess, sys, glob, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")

DEFS = ["-DENABLE_OPENMP", "-DENABLE_MPI", "-DARMA_USE_LAPACK", "-DARMA_USE_BLAS", "-DARMA_DONT_USE_WRAPPER", "-DARMA_WARN_LEVEL=0",
        "-DM_PI=3.14159265358979323846", "-DM_PI_2=1.57079632679489661923", "-DDOUBLE_EPS=1e-8",
        "-DDBL_MAX=__DBL_MAX__"]
INC = ["-I" + os.path.join(VERIF, "fakempi"), "-I" + os.path.join(VERIF, "harness"),
       "-I" + REPO + "/include", "-I" + REPO + "/include/gwmodelpp", "-I" + REPO + "/include/gwmodelpp/utils",
       "-I" + REPO + "/include/gwmodelcuda"]
BASE = ["g++", "-std=c++17", "-O1", "-g0", "-fopenmp", "-fPIC", "-w"]
VFLAGS = {"mc": ["-fsanitize=thread"], "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-g1", "-DMC_ASAN"]}
LIBS = ["-lopenblas", "-lgsl", "-lgslcblas", "-lpthread", "-ldl", "-lm"]
WRAPS = ["memcpy", "memmove", "memset", "malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc",
         "dgemm_", "dgemv_", "dsyrk_", "dpotrf_", "dpotri_", "dgetrf_", "dgetri_", "dgesv_", "dgesvx_", "dposv_", "dposvx_",
         "dgesdd_", "dgesvd_"]

def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src", "gwmodelpp")):
        dirs[:] = sorted(d for d in dirs if d != "cuda")
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")) and f not in ("CudaUtils.cpp", "cumat.cpp"):
                out.append(os.path.join(root, f))
    return out

def compile_one(args):
    src, flags, tag = args
    cmd = BASE + flags + DEFS + INC
    pre = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        return None, src, pre.stderr.decode(errors="replace")
    h = hashlib.sha256(pre.stdout + repr(cmd[:len(BASE) + len(flags)]).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, h + ".o")
    if not os.path.exists(obj):
        ii = os.path.join(CACHE, "%s.%d.ii" % (h, os.getpid()))
        tmp = obj + ".%d.tmp" % os.getpid()
        with open(ii, "wb") as f:
            f.write(pre.stdout)
        r = subprocess.run(BASE + flags + ["-c", ii, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(ii)
        if r.returncode:
            return None, src, r.stdout.decode(errors="replace")
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj, src, ""

def build(variant="mc", verbose=True):
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    repo = repo_sources()
    har = sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))
    rt = [s for s in har if os.path.basename(s).startswith("rt_")]
    app = [s for s in har if s not in rt]
    jobs = [(s, VFLAGS[variant], variant) for s in repo + app]
    rtflags = [] if variant == "mc" else VFLAGS[variant]
    jobs += [(s, rtflags, variant) for s in rt]
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [r for r in res if r[0] is None]
    if bad:
        for _, s, e in bad:
            sys.stderr.write("BUILD FAILED: %s\n%s\n" % (s, e[-3000:]))
        return None
    by = {r[1]: r[0] for r in res}
    objs = [by[s] for s in repo] + [by[s] for s in app] + [by[s] for s in rt]
    exe = os.path.join(BUILD, variant, "mc")
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()
    stamp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        link = ["g++"] + (VFLAGS["asan"] if variant == "asan" else [])
        wr = ["-Wl,--wrap=" + w for w in WRAPS] if variant == "mc" else []
        r = subprocess.run(link + ["-o", exe + ".tmp"] + objs + wr + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("LINK FAILED\n" + r.stdout.decode(errors="replace")[-4000:])
            return None
        os.rename(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(key)
    if verbose:
        sys.stderr.write("build[%s]: %d objects, %.1fs\n" % (variant, len(objs), time.time() - t0))
    # keep the cache small
    files = sorted(glob.glob(CACHE + "/*.o"), key=os.path.getmtime)
    for f in files[:-400]:
        os.unlink(f)
    lock.close()
    return exe

if __name__ == "__main__":
    vs = sys.argv[1:] or ["mc"]
    for v in vs:
        if build(v) is None:
            sys.exit(2)
