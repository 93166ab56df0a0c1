#!/usr/bin/env python3
"""Builds the simulated program for a property from /repo's current tree.

Every source of the library (all of src/ but the visualiser, whose plotting
library is absent) is compiled here, into /verif/build, in one of two variants:
  asan  address sanitizer: memory safety under injected faults
  tsan  compiled with -fsanitize=thread but linked with sim/threads.cpp instead
        of libtsan: every memory access of the library becomes a scheduling
        point and a happens-before check of the simulator; parallel algorithms
        enabled (ALLOW_PARALLELIZATION) on the simulated backend.
"""
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("F2C_REPO", "/repo")
BUILD = os.environ.get("F2C_BUILD", os.path.join(VERIF, "build"))
EXCLUDED = {"src/fields2cover/utils/visualizer.cpp"}

COMMON = ("-std=c++17 -g1 -DNDEBUG -fno-omit-frame-pointer -pthread -w "
          f"-isystem {VERIF}/stubs -I{REPO}/include -I{REPO}/src "
          "-isystem /usr/include/gdal -isystem /usr/include/eigen3")
VARIANTS = {
    "asan": "-O1 -fsanitize=address -fno-sanitize-address-use-after-scope -D_GLIBCXX_ASSERTIONS",
    "tsan": f"-O1 -fsanitize=thread -DALLOW_PARALLELIZATION -isystem {BUILD}/pstl_shadow",
}
HARNESS = {
    # harness code is never instrumented for scheduling
    "asan": "-O1 -fsanitize=address",
    "tsan": "-O1",
}
# harness code that stands for a user's (callbacks, objectives): as the library
USES = {"asan": HARNESS["asan"], "tsan": "-O1 -fsanitize=thread"}
SIM = {
    "asan": ["sim", "alloc", "geos_fault", "clock", "io_fault", "crs_fault"],
    "tsan": ["sim", "alloc", "clock", "threads"],
}
EXPORT = {
    "asan": ["__asan_default_options", "_Zn*", "_Zd*", "GEOS*", "time", "clock_gettime", "gettimeofday", "clock", "nanosleep",
             "fopen", "fopen64", "open", "open64", "openat", "openat64", "creat", "read", "write", "readv", "writev", "pread*", "pwrite*",
             "fread", "fwrite", "fclose", "close", "fflush", "fsync", "fgetc", "getc", "ferror", "fputs", "fputc", "putc", "fputs", "fprintf", "vfprintf",
             "lseek", "lseek64", "fseek*", "ftell*", "rename"],
    "tsan": ["_Zn*", "_Zd*", "time", "clock_gettime", "gettimeofday", "clock", "nanosleep",
             "malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign",
             "pthread_mutex_*", "pthread_rwlock_*", "pthread_once", "pthread_cond_*",
             "pthread_create", "pthread_join", "pthread_detach", "sched_yield", "syscall", "__cxa_guard_*"],
}
LIBS = "-lgdal -lgeos_c -ltinyxml2 -lproj -ltbb -ldl -lpthread -lm"


def properties():
    """property id -> (variant, extra harness sources)"""
    res = {}
    d = os.path.join(VERIF, "props")
    for f in sorted(os.listdir(d)):
        if f.startswith("c") and f.endswith(".cpp") and f[1:3].isdigit():
            with open(os.path.join(d, f)) as fh:
                head = fh.readline()
            words = head.replace("//", "").split()
            # first line: // variant=asan uses=ops,solver
            opts = dict(w.split("=", 1) for w in words if "=" in w)
            res[f[:-4].upper()] = (opts["variant"], [u for u in opts.get("uses", "").split(",") if u])
    return res


def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".cpp", ".cc", ".cxx")):
                p = os.path.relpath(os.path.join(root, f), REPO)
                if p not in EXCLUDED:
                    out.append(p)
    return sorted(out)


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def shadow_pstl():
    """libstdc++'s parallel algorithms, with the simulated backend for TBB's."""
    ver = subprocess.run(["g++", "-dumpversion"], stdout=subprocess.PIPE, text=True).stdout.strip().split(".")[0]
    src = f"/usr/include/c++/{ver}/pstl"
    dst = os.path.join(BUILD, "pstl_shadow", "pstl")
    os.makedirs(dst, exist_ok=True)
    for f in sorted(glob.glob(src + "/*.h")):
        name = os.path.basename(f)
        with open(os.path.join(VERIF, "sim", "pstl_backend.h") if name == "parallel_backend_tbb.h" else f) as fh:
            write_if_changed(os.path.join(dst, name), fh.read())


def generate():
    os.makedirs(BUILD, exist_ok=True)
    shadow_pstl()
    n = ["ninja_required_version = 1.5", f"builddir = {BUILD}",
         "rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule ar\n  command = rm -f $out && ar crs $out $in",
         "rule link\n  command = g++ -o $out $in $flags"]
    srcs = repo_sources()
    for v, fl in VARIANTS.items():
        objs = []
        for s in srcs:
            o = f"{BUILD}/{v}/" + s.replace("/", "_") + ".o"
            objs.append(o)
            n.append(f"build {o}: cxx {REPO}/{s}\n  flags = {fl} {COMMON} -ffunction-sections")
        n.append(f"build {BUILD}/{v}/libf2c.a: ar {' '.join(objs)}")
        hobj = {}
        for s in SIM[v]:
            p = f"{VERIF}/sim/{s}.cpp"
            o = f"{BUILD}/{v}/sim_{s}.o"
            hobj[s] = o
            # the simulator itself is never instrumented
            n.append(f"build {o}: cxx {p}\n  flags = -O2 {COMMON} -I{VERIF}/sim")
        props = {p: x for p, x in properties().items() if x[0] == v}
        extra = sorted({u for _, us in props.values() for u in us})
        for u in extra:
            o = f"{BUILD}/{v}/use_{u}.o"
            n.append(f"build {o}: cxx {VERIF}/props/{u}.cpp\n  flags = {USES[v]} {COMMON} -I{VERIF}/sim -I{VERIF}/props")
        # only the seams are visible to shared libraries
        write_if_changed(f"{BUILD}/{v}.map", "{ global: " + " ".join(e + ";" for e in EXPORT[v]) + " local: *; };\n")
        for p, (_, us) in props.items():
            o = f"{BUILD}/{v}/prop_{p}.o"
            n.append(f"build {o}: cxx {VERIF}/props/{p.lower()}.cpp\n  flags = {HARNESS[v]} {COMMON} -I{VERIF}/sim -I{VERIF}/props")
            allo = [o] + [f"{BUILD}/{v}/use_{u}.o" for u in us] + list(hobj.values())
            if v == "asan":
                files, fl = f"{' '.join(allo)} {BUILD}/{v}/libf2c.a", "-fsanitize=address"
            else:
                # library first: its instrumented copies of templates are the ones kept
                files = f"{' '.join(objs)} {' '.join(allo)}"
                fl = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"
            n.append(f"build {BUILD}/{p}: link {files}\n"
                     f"  flags = {fl} -rdynamic -Wl,--version-script={BUILD}/{v}.map {LIBS}")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(n) + "\n")


def locales():
    """Locales the image has no compiled form of; without localedef those runs use "C"."""
    d = f"{BUILD}/locales"
    os.makedirs(d, exist_ok=True)
    for name, cs in (("de_DE", "UTF-8"), ("tr_TR", "ISO-8859-9")):
        if not os.path.exists(f"{d}/{name}.{cs}/LC_NUMERIC"):
            try:
                subprocess.run(["localedef", "-c", "-i", name, "-f", cs, f"{d}/{name}.{cs}"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError:
                pass


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        locales()
        r = subprocess.run(["ninja", "-f", f"{BUILD}/build.ninja"] + [f"{BUILD}/{t}" for t in targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(("[", "g++ ")))
        sys.stderr.write(out[-6000:] + "\n")
        raise SystemExit("build failed")


if __name__ == "__main__":
    build(sys.argv[1:] or list(properties()))
