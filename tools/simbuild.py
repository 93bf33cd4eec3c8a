"""Builds the simulator from /repo's working tree and /verif/sim.

The library is compiled with clang's thread-sanitizer *instrumentation* only;
sim/rt.cpp supplies the entry points.  Every name through which the library
could reach nondeterminism is renamed in its object file to a sim_* seam.
"""
import concurrent.futures, glob, os, re, shutil, subprocess, sys

REPO = os.environ.get("RIVER_REPO", "/repo")
SIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim")

CXX = "clang++"
STD = ["-std=c++17", "-fno-pie", "-fno-omit-frame-pointer"]
INSTR = ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-mllvm", "-tsan-handle-cxx-exceptions=0",
         "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-builtin-malloc", "-w"]

SEAMS = {s: "sim_" + s for s in
         "malloc free calloc realloc posix_memalign aligned_alloc "
         "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock "
         "pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock "
         "pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once sched_yield nanosleep "
         "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort "
         "rand random drand48 srand getenv time clock clock_gettime gettimeofday abort".split()}
SEAMS.update({
    "secure_getenv": "sim_getenv",
    "__assert_fail": "sim_assert_fail",
    "_ZSt9terminatev": "sim_terminate",
    "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_steady_now",
    "_ZNSt6chrono3_V212system_clock3nowEv": "sim_system_now",
})
# undefined symbols of the library that carry no nondeterminism
BENIGN = re.compile(r"^(__tsan_|_Zn[wa]|_Zd[la]|__cxa_(?!guard)|__gxx_personality|_Unwind|__clang_call|"
                    r"_ZSt|_ZNSt|_ZNKSt|_ZTV|_ZTI|_ZTS|__dso_handle|__stack_chk|mem(cpy|set|move|cmp|chr)$|str(len|cmp|ncmp)$|"
                    r"a?(sin|cos|tan|atan2|acos|pow|sqrt|cbrt|fmod|floor|ceil|round|fabs|exp|log|log10|hypot|remainder|fmin|fmax|modf|frexp|ldexp|remquo|div|cos|sin)[fl]?$|"
                    r"_GLOBAL_OFFSET_TABLE_)")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd)[:300] + "\n" + r.stdout[-4000:])
    return r.stdout


def build(out, dev=False):
    """Returns (path of the simulator, list of unseamed symbols)."""
    os.makedirs(out, exist_ok=True)
    libsrc = sorted(glob.glob(REPO + "/src/src/*.cpp"))
    if not libsrc:
        raise BuildError("no library sources in " + REPO)
    harness = ["rt.cpp", "geom.cpp", "plan.cpp", "exec.cpp", "gen.cpp", "props.cpp", "main.cpp"]
    inc = ["-I" + REPO + "/src/include", "-I" + REPO + "/src/src"]
    defs, hdefs = [], []
    qt = []
    if dev:
        libsrc.append(REPO + "/debug_util/debug_util.cpp")
        defs = ["-DRIVER_GRAPHICS_DEBUG=1", "-DRIVER_DEVELOP_TEST=1"]
        hdefs = ["-DSIM_DEV=1"]
        q = "/usr/include/x86_64-linux-gnu/qt6"
        qt = ["-I" + REPO + "/debug_util", "-isystem", q, "-isystem", q + "/QtCore", "-isystem", q + "/QtGui", "-isystem", q + "/QtWidgets",
              "-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB", "-DQT_NO_DEBUG", "-fPIC"]
        harness.append("curl_stub.cpp")
    jobs = []
    libobj, hobj = [], []
    for s in libsrc:
        o = os.path.join(out, "l_" + os.path.basename(s) + ".o")
        libobj.append(o)
        jobs.append([CXX] + STD + INSTR + inc + defs + qt + ["-c", s, "-o", o])
    for h in harness:
        o = os.path.join(out, "h_" + h + ".o")
        hobj.append(o)
        jobs.append([CXX] + STD + ["-O2", "-g1", "-Wall", "-Wno-varargs", "-I" + SIM] + inc[:1] + hdefs + (qt if h == "curl_stub.cpp" or h == "props.cpp" else []) + ["-c", os.path.join(SIM, h), "-o", o])
    for a in ("bounds_begin", "bounds_end"):
        jobs.append([CXX, "-c", os.path.join(SIM, a + ".s"), "-o", os.path.join(out, a + ".o")])
    # slow translation units first
    def weight(j):
        p = j[-3]
        return -os.path.getsize(p) - (10 ** 6 if "river.cpp" in p else 0) - (5 * 10 ** 5 if "vatti.cpp" in p else 0)
    jobs.sort(key=weight)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(sh, j) for j in jobs]:
            f.result()
    lib = os.path.join(out, "lib.o")
    sh(["ld.bfd", "-r", "--force-group-allocation", "-o", lib] + libobj)
    keep, undef = [], []
    for l in sh(["nm", lib]).splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "TBDR" and re.match(r"_ZN?K?(5river|5rmath)", p[2]):
            keep.append(p[2])
        elif len(p) == 3 and p[1] in "TBDR" and re.match(r"_ZNK?(5river|5rmath)|_ZN5rmath", p[2]):
            keep.append(p[2])
        elif len(p) == 2 and p[0] in "Uw":
            undef.append(p[1])
    kf = os.path.join(out, "keep")
    with open(kf, "w") as f:
        f.write("\n".join(sorted(set(keep))) + "\n")
    cmd = ["objcopy", "--keep-global-symbols=" + kf]
    for a, b in sorted(SEAMS.items()):
        if a in undef:
            cmd += ["--redefine-sym", a + "=" + b]
    sh(cmd + [lib])
    unseamed = [u for u in undef if u not in SEAMS and not BENIGN.match(u)]
    if dev:
        unseamed = [u for u in unseamed if not re.match(r"_ZN?K?\d+Q|_Z.*Q|curl_|_ZN9Q", u)]
    exe = os.path.join(out, "simdev" if dev else "sim")
    sh([CXX, "-no-pie", "-o", exe, os.path.join(out, "bounds_begin.o"), lib, os.path.join(out, "bounds_end.o")] + hobj +
       (["-lQt6Widgets", "-lQt6Gui", "-lQt6Core"] if dev else []) + ["-lpthread"])
    return exe, sorted(unseamed)


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], len(sys.argv) > 2))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
