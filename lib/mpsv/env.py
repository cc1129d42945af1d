"""Paths, the build of /repo, scratch space."""
import atexit, fcntl, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("MPSV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class BuildError(ToolError):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    """A directory of this process, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.environ.get("TMPDIR", "/tmp")
        _scratch = tempfile.mkdtemp(prefix="mpsv.", dir=base)
        keep = os.environ.get("MPSV_KEEP")
        if not keep:
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def newdir(prefix="d"):
    return tempfile.mkdtemp(prefix=prefix + ".", dir=scratch())


def _cmake_env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CMAKE_GENERATOR", "GTEST_FILTER")}
    e.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
    return e


def repo_build(targets=("mps",), flavour="plain", flags=""):
    """Configure and build /repo's working tree outside of it; returns the build directory."""
    tag = flavour if REPO == "/repo" else flavour + REPO.replace("/", "_")
    bdir = os.path.join(BUILD, tag)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, tag + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        cmds = [["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
                 "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                 "-DCMAKE_CXX_FLAGS=-Wno-error " + flags, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                 "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                 "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS",
                 "-DFETCHCONTENT_SOURCE_DIR_EIGEN=/usr/include/eigen3",
                 "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest",
                 "-DFETCHCONTENT_SOURCE_DIR_FAST-CPP-CSV-PARSER=/usr/include/libfccp",
                 "-DFETCHCONTENT_SOURCE_DIR_ARGPARSE=/opt/vp/deps/argparse"],
                ["ninja", "-C", bdir, "-j%d" % JOBS] + list(targets)]
        for c in cmds:
            r = subprocess.run(c, capture_output=True, text=True, env=_cmake_env())
            if r.returncode:
                log(r.stdout[-3000:], r.stderr[-3000:])
                raise BuildError("%s failed" % c[0])
        log("built %s (%s) in %.1f s" % (" ".join(targets), flavour, time.time() - t0))
    return bdir


def mps_binary():
    return os.path.join(repo_build(("mps",)), "mps")


def parallel_binary():
    """mps with its parallel loops on the run-time of harness/par_rt.cpp; None if they need more than that offers."""
    import json, re
    bdir = repo_build(("mps",), "par", "-O1 -fopenmp -fsanitize=thread")
    cc = json.load(open(os.path.join(bdir, "compile_commands.json")))
    objs = [os.path.join(bdir, re.search(r" -o (\S+)", c["command"]).group(1)) for c in cc if "CMakeFiles/mps.dir/" in c.get("output", c["command"])]
    d = newdir("par")
    rt, out = os.path.join(d, "rt.o"), os.path.join(d, "mps")
    wraps = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset"))]
    for cmd in (["/usr/bin/g++", "-O2", "-std=gnu++17", "-c", os.path.join(VERIF, "harness/par_rt.cpp"), "-o", rt],
                ["/usr/bin/g++", "-no-pie", "-o", out] + objs + [rt] + wraps + ["-lyaml-cpp"]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            log("the parallel loops do not fit this run-time:\n%s" % r.stderr[-1500:])
            return None
    return out


def java_classes():
    """The TLC operator overrides, compiled if they are older than their sources."""
    out = os.path.join(BUILD, "java")
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "java/src/mpsv")
    srcs = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")]
    with open(os.path.join(BUILD, "java.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(out, "stamp")
        if not os.path.exists(stamp) or any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in srcs):
            os.makedirs(out, exist_ok=True)
            r = subprocess.run(["javac", "-d", out, "-cp", TLA] + srcs, capture_output=True, text=True)
            if r.returncode:
                log(r.stdout, r.stderr)
                raise ToolError("javac failed")
            open(stamp, "w").close()
    return out


def harness(name, flavour="plain", flags=()):
    """Compile /verif/harness/<name>.cpp against the objects of /repo's mps target; None if that does not work
    (a change of /repo may have changed internal interfaces)."""
    import json, re, shlex
    bdir = repo_build(("mps",), flavour)
    cc = json.load(open(os.path.join(bdir, "compile_commands.json")))
    mine = [c for c in cc if "CMakeFiles/mps.dir/" in c.get("output", c["command"])]
    objs, base = [], None
    for c in mine:
        m = re.search(r" -o (\S+)", c["command"])
        if os.path.basename(c["file"]) == "main.cpp":
            base = c["command"]
        else:
            objs.append(os.path.join(bdir, m.group(1)))
            base = base or c["command"]
    if not objs:
        return None
    args = shlex.split(base)
    inc = []
    i = 0
    while i < len(args):
        if args[i] in ("-isystem", "-I"):
            inc += [args[i], args[i + 1]]
            i += 1
        elif args[i].startswith(("-I", "-D", "-std", "-isystem", "-O", "-g")):
            inc.append(args[i])
        i += 1
    out = os.path.join(newdir("h"), name)
    cmd = ["/usr/bin/g++"] + inc + list(flags) + ["-I", os.path.join(REPO, "src"), "-o", out,
           os.path.join(VERIF, "harness", name + ".cpp")] + objs + ["-lyaml-cpp"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        log("harness %s does not fit this tree:\n%s" % (name, r.stderr[-1500:]))
        return None
    return out
