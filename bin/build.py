#!/usr/bin/env python3
"""Content-addressed incremental build of the simulator plus /repo's current tree.
usage: build.py FLAVOUR...   (plain | asan | race)   prints the path of each binary"""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AW_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SUT_DIRS = ["GcodeProcessorLib", "ArcWelder", "ArcWelderConsole", "ArcWelderInverseProcessor"]
WRAPS = """fopen fopen64 fdopen fclose fileno open open64 creat close read write writev lseek lseek64 fstat fstat64 stat stat64
lstat lstat64 poll ioctl access remove unlink rename renameat link symlink fsync fdatasync ftruncate chmod fchmod mkstemp
realpath clock time gettimeofday clock_gettime rand srand random srandom getrandom getentropy getpid exit sleep usleep
nanosleep unlinkat mkdir rmdir pread pwrite readlink utime utimes utimensat futimens chown lchown fchown flock lockf sendfile
copy_file_range mkdtemp localtime localtime_r _ZNSt13random_device9_M_getvalEv openat mkostemp mkstemps""".split()

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

RACE_WRAPS = "malloc calloc realloc pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_once".split()
# in the thread flavour, calls of the code under test to these are seen by the race detector
RACE_CALLS = "memcpy memmove memset memcmp strlen strcmp strcpy strcat strncpy sprintf snprintf vsnprintf strftime strtod localtime gmtime localtime_r asctime ctime strtok setlocale setenv".split()
FLAVOURS = {
    "plain": dict(cxx="g++", sut=["-O1"], sim=["-O1"], link=[]),
    "asan": dict(cxx="g++", sut=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero", "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 sim=["-O1", "-DSIM_NO_NEW=1", "-fsanitize=address"], link=["-fsanitize=address,undefined"]),
    "pyasan": None,
    "py": dict(cxx="g++", sut=["-O1"], sim=["-O1"], link=[], py=True),
    "race": dict(cxx="g++", sut=["-O1", "-fsanitize=thread", "-fno-gnu-unique", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], sim=["-O1", "-DSIM_RACE=1"],
                 link=["-rdynamic"] + [f"-Wl,--wrap={w}" for w in RACE_WRAPS]),
}

FLAVOURS["pyasan"] = dict(FLAVOURS["asan"], py=True)
def python_flags():
    import sysconfig
    for exe in ("python3", "/usr/bin/python3"):
        rc, out = sh([exe + "-config", "--includes"])
        if rc == 0:
            rc, lib = sh([exe + "-config", "--embed", "--ldflags"])
            if rc == 0: return out.split(), lib.split()
    sys.stderr.write("no Python development files\n"); sys.exit(3)

def build(flavour):
    f = FLAVOURS[flavour]
    cxx = f["cxx"]
    jobs = []   # (src, flags, key)
    py = f.get("py", False); py_inc, py_link = python_flags() if py else ([], [])
    dirs = SUT_DIRS + (["PyArcWelder"] if py else [])
    hdrs = [p for d in SUT_DIRS for p in glob.glob(f"{REPO}/{d}/*.h")]
    tclap = [p for p in glob.glob(f"{REPO}/TCLAP/**/*", recursive=True) if os.path.isfile(p)]
    hk = digest(hdrs + tclap)
    inc = [f"-I{REPO}/{d}" for d in SUT_DIRS] + [f"-I{REPO}/TCLAP"]
    base = ["-std=gnu++11", "-w", "-include", "cstdint", "-fPIC", "-U_FORTIFY_SOURCE"]
    pyhk = digest(glob.glob(f"{REPO}/PyArcWelder/*.h")) if py else ""
    for d in dirs:
        for s in sorted(glob.glob(f"{REPO}/{d}/*.cpp")):
            fl = base + f["sut"] + inc + ([f"-I{REPO}/PyArcWelder"] + py_inc if d == "PyArcWelder" else [])
            ren = {"ArcWelderConsole": "aw_console_main", "ArcWelderInverseProcessor": "as_console_main", "PyArcWelder": "py_module_main"}.get(d)
            jobs.append((s, fl, digest([s], hk + (pyhk if d == "PyArcWelder" else "") + " ".join([cxx] + fl) + str(ren) + "iso1" + (" ".join(RACE_CALLS) if flavour == "race" else "")), ren))
    simh = digest(glob.glob(f"{VERIF}/sim/*.h"))
    for s in sorted(glob.glob(f"{VERIF}/sim/*.cpp")):
        if os.path.basename(s) == "race.cpp" and flavour != "race": continue
        is_py = os.path.basename(s) in ("sc_py.cpp", "sut_py.cpp")
        if is_py and not py: continue
        sut_tu = os.path.basename(s).startswith("sut_")
        seen = flavour == "race" and os.path.basename(s) == "sut_text.cpp"      # calls inline functions of the library: belongs to what the detector sees
        fl = ["-std=gnu++17" if not sut_tu else "-std=gnu++14", "-w", "-include", "cstdint", "-U_FORTIFY_SOURCE"] + f["sim"] + (f["sut"] + ["-fPIC"] if seen else []) + (inc if sut_tu else []) + ([f"-I{REPO}/PyArcWelder"] + py_inc if is_py and sut_tu else [])
        jobs.append((s, fl, digest([s], simh + (hk if sut_tu else "") + (pyhk if is_py else "") + " ".join([cxx] + fl) + (" ".join(RACE_CALLS) if seen else "")), None))
    watched = lambda s: s.startswith(REPO + "/") or flavour == "race" and os.path.basename(s) == "sut_text.cpp"
    isolate = "asan" not in flavour
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    def one(j):
        s, fl, k, ren = j; o = f"{od}/{k}.o"
        if os.path.exists(o): return 0, ""
        t = f"{o}.tmp{os.getpid()}"
        rc, out = sh([cxx] + fl + ["-c", s, "-o", t])
        if rc == 0 and isolate and s.startswith(REPO + "/"):
            # writable globals of the code under test go to their own sections, so that every
            # simulated process can have a private copy of them
            args = []
            for l in sh(["objdump", "-hw", t])[1].splitlines():
                w = l.split()
                if len(w) > 2 and w[0].isdigit() and (w[1] == ".bss" or w[1].startswith(".bss.")): args += ["--rename-section", w[1] + "=sut_bss"]
                elif len(w) > 2 and w[0].isdigit() and (w[1] == ".data" or w[1].startswith(".data.")) and not w[1].startswith(".data.rel.ro") and ".DW.ref." not in w[1]: args += ["--rename-section", w[1] + "=sut_data"]
            if args: rc, out = sh(["objcopy"] + args + [t])
        if rc == 0 and flavour == "race" and watched(s):
            rc, out = sh(["objcopy"] + [f"--redefine-sym={x}=race_{x}" for x in RACE_CALLS] + [t])
        if rc == 0 and ren: rc, out = sh(["objcopy", "--redefine-sym", f"main={ren}", t])
        if rc == 0: os.replace(t, o)
        return rc, f"{s}\n{out}"
    # big translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (400000 if "Console" in j[0] or "InverseProcessor.cpp" in j[0] else 0))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    bad = [o for rc, o in res if rc]
    if bad:
        sys.stderr.write("\n".join(bad)); sys.exit(3)
    # objects of the code under test first: its (instrumented) copies of inline functions are the ones linked
    jobs.sort(key=lambda j: (not j[0].startswith(REPO + "/"), j[0]))
    objs = [f"{od}/{k}.o" for _, _, k, _ in jobs]
    key = hashlib.sha256(" ".join(objs + f["link"] + py_link + WRAPS + ["part4"]).encode()).hexdigest()[:24]
    out = f"{BUILD}/awsim-{flavour}-{key}"
    if not os.path.exists(out):
        if flavour == "race":
            # the code under test keeps its instrumented copies of inline functions to itself: the simulator must not run them
            part = out + ".part.o"; sut = [f"{od}/{k}.o" for s, _, k, _ in jobs if watched(s)]
            rc, o = sh(["ld", "-r", "--force-group-allocation", "-o", part] + sut)
            if rc: sys.stderr.write(o); sys.exit(3)
            syms = [l.split()[1:] for l in sh(["nm", "--defined-only", part])[1].splitlines() if len(l.split()) == 3]
            # ... and their static variables
            weak = [n for t, n in syms if t == "W" or (t == "u" and not n.startswith(("_ZNSt", "_ZNSs", "_ZGVNSt"))) or (t == "V" and n.startswith(("_ZZ", "_ZGVZ")))]
            open(part + ".txt", "w").write("\n".join(sorted(set(weak))) + "\n")
            rc, o = sh(["objcopy", f"--localize-symbols={part}.txt", part])
            if rc: sys.stderr.write(o); sys.exit(3)
            objs = [part] + [x for x in objs if x not in sut]
        rc, o = sh([cxx, "-o", out + ".tmp"] + objs + f["link"] + ["-static-libstdc++", "-static-libgcc"] + [f"-Wl,--wrap={w}" for w in WRAPS] + py_link + ["-lpthread"])
        if rc: sys.stderr.write(o); sys.exit(3)
        os.replace(out + ".tmp", out)
        for x in (out + ".part.o", out + ".part.o.txt"):
            if os.path.exists(x): os.unlink(x)
    return out

if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for fl in sys.argv[1:] or ["plain"]: print(build(fl))
