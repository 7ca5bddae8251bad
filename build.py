#!/usr/bin/env python3
"""Builds the simulator together with the library sources of /repo's working tree.

Objects are cached by content (flags, source, all headers), so an unchanged tree links at once.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
CXX = "clang++"

WRAPS = """open open64 openat creat read pread pread64 write pwrite pwrite64 readv writev lseek lseek64 close ftruncate
ftruncate64 stat stat64 fstat fstat64 fsync fdatasync remove unlink unlinkat rename access pthread_mutex_lock pthread_once
pthread_rwlock_rdlock pthread_rwlock_wrlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
_ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE
_ZN11xercesc_3_216XMLPlatformUtils9TerminateEv _ZNSt13random_device9_M_getvalEv time clock clock_gettime gettimeofday getpid
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv""".split()

COMMON = ["-g1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-pthread", "-w"]
LIBDEFS = ["-DE57_VALIDATION_LEVEL=2", '-DREVISION_ID="E57Format-sim"', "-DE57_ENABLE_DIAGNOSTIC_OUTPUT"]
UB = "bool,bounds,enum,integer-divide-by-zero,null,object-size,return,unreachable,vla-bound,vptr,shift-exponent"
VARIANTS = {
    "fast": dict(flags=["-O1"], lib=[]),
    "asan": dict(flags=["-O1", "-fsanitize=address,%s" % UB, "-fno-sanitize-recover=all"], lib=[]),
    "crazy": dict(flags=["-O1"], lib=["-DE57_WRITE_CRAZY_PACKET_MODE"]),
    "sched": dict(flags=["-O1"], lib=["-fsanitize-coverage=trace-pc-guard"], sim=["-DSIM_EDGE_SWITCH"]),
}
INCS = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "extern/CRCpp/inc"), "-I" + os.path.join(HERE, "gen")]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def content(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build(variant, quiet=False):
    v = VARIANTS[variant]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    libsrc = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    libhdr = glob.glob(os.path.join(REPO, "src", "*.h")) + glob.glob(os.path.join(REPO, "include", "*.h")) + \
        glob.glob(os.path.join(REPO, "extern/CRCpp/inc", "*")) + glob.glob(os.path.join(HERE, "gen", "*.h"))
    simsrc = sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp")))
    simhdr = glob.glob(os.path.join(HERE, "sim", "*.h")) + glob.glob(os.path.join(REPO, "include", "*.h")) + \
        glob.glob(os.path.join(HERE, "gen", "*.h"))
    lh, sh = content(libhdr), content(simhdr)
    jobs, objs = [], []
    for s in libsrc:
        fl = ["-std=c++14"] + COMMON + v["flags"] + LIBDEFS + v["lib"] + INCS + ["-I" + os.path.join(REPO, "src")]
        jobs.append((s, fl, lh))
    for s in simsrc:
        fl = ["-std=c++17"] + COMMON + v["flags"] + v.get("sim", []) + INCS
        jobs.append((s, fl, sh))
    todo = []
    for s, fl, hh in jobs:
        with open(s, "rb") as f:
            key = sha(f.read(), s, " ".join(fl), hh)
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, fl, o))

    def one(j):
        s, fl, o = j
        r = subprocess.run([CXX] + fl + ["-c", s, "-o", o + ".tmp"], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(o + ".tmp", o)
        return s, r

    if todo and not quiet:
        print("build %s: compiling %d files" % (variant, len(todo)), flush=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, r in ex.map(one, todo):
            if r.returncode:
                sys.stderr.write("compilation of %s failed\n%s\n" % (s, r.stderr[-6000:]))
                raise SystemExit(2)
    link = ["-pthread", "-rdynamic"]
    exe = os.path.join(BUILD, "sim-%s-%s" % (variant, sha(*objs, " ".join(link + WRAPS))))
    if not os.path.exists(exe):
        rsp = exe + ".rsp"
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        r = subprocess.run([CXX] + v["flags"] + link + ["-o", exe + ".tmp", "@" + rsp, "-lxerces-c"] +
                           ["-Wl,--wrap=" + w for w in WRAPS], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("link failed\n%s\n" % r.stderr[-6000:])
            raise SystemExit(2)
        os.unlink(rsp)
        os.rename(exe + ".tmp", exe)
        # keep only a few old binaries per variant
        old = sorted(glob.glob(os.path.join(BUILD, "sim-%s-*" % variant)), key=os.path.getmtime)
        for p in old[:-4]:
            os.unlink(p)
    prune(set(objs))
    return exe


def prune(keep):
    files = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    if len(files) > 1500:
        for p in files[:len(files) - 1000]:
            if p not in keep:
                os.unlink(p)


if __name__ == "__main__":
    for var in (sys.argv[1:] or list(VARIANTS)):
        print(build(var))
