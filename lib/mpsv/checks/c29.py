"""C29: the run scripts keep earlier results.

The scripts run as an unprivileged user in a scratch copy of the tree, with an `rm` that only records what lies outside of it."""
import concurrent.futures as cf
import itertools, json, os, re, shutil, stat, subprocess, time
from .. import env, sim
from ..scen import *

MODEL = """SPECIFICATION MCSpec
CONSTANTS Projects = {"a", "b"}
Notes = {"none", "plain"}
Seconds = {0, 1}
Places = {"root"}
INVARIANTS OneEach LastRunIsThere DistinctSecondsAllKept DistinctNamesAllKept
PROPERTY EarlierStay
CHECK_DEADLOCK FALSE
"""
INV = ["KnownCall", "NothingElse", "SameDirs", "SameResults", "StartedIfOwn", "WithItsSettings", "LogsKept", "RefusalIsTold"]
CONSTS = 'CONSTANTS Projects = {"dambreak", "hydrostatic"}\nNotes = {"none", "plain", "two words"}\nSeconds = {%s}\nPlaces = {"root", "scripts", "elsewhere"}\n' % ", ".join(map(str, range(100)))
NOTE = {"none": "", "plain": "test1", "two words": "two words"}
NOBODY = 65534

PROGRAM = r"""#!/bin/bash
while [ $# -gt 0 ]; do
  case "$1" in
    -s|--setting) s="$2"; shift;;
    -o|--output) o="$2"; shift;;
  esac
  shift
done
printf '%s\n' "$MPSV_CALL|$(realpath -- "$s")|$(realpath -- "$o")" >> "$MPSV_LOG"
if [ -e "$o/settings.yml" ]; then echo "already exists" >&2; exit 255; fi
cp -- "$s" "$o/settings.yml" || exit 255
echo "result $MPSV_CALL" > "$o/result"
echo "console $MPSV_CALL"
echo "error $MPSV_CALL" >&2
"""
RM = r"""#!/bin/bash
for a in "$@"; do
  case "$a" in -*) continue;; esac
  p=$(realpath -m -s -- "$a")
  case "$p" in "$MPSV_TREE"/?*) ;; *) printf '%s\n' "$p" >> "$MPSV_REMOVALS"; exit 1;; esac
done
exec /bin/rm "$@"
"""
KEPT = ["dambreak-paper/figure.dat", "dambreak2/settings.yml", "dambreak.zip", "dambreak_old/vtu/output_0000.vtu", "notes.txt", "hydrostatic/result", "my dambreak/result",
        "20200101000000-dambreak-old/result", "20200101000000-dambreak-old/settings.yml", "old/dambreak/result", ".hidden", "console.log", "error.log"]


class Case:
    parts = []

    def __init__(self, name, calls, spaced):
        self.name, self.calls, self.spaced, self.kept = name, calls, spaced, ()


def listing(top):
    out = {}
    for t, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(t, f)
            out[os.path.relpath(p, top)] = open(p, "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(t, x), top) + "/"] = None
    return out


def script(path, text):
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)


def text(path):
    try:
        return open(path, errors="replace").read()
    except OSError:
        return None


def once(base, c):
    """One sequence of calls; None if the second changed in the middle of a call."""
    tree = base + ("/a tree" if c.spaced else "/tree")
    shutil.rmtree(base, True)
    os.makedirs(tree + "/build")
    os.makedirs(base + "/bin")
    shutil.copytree(env.REPO + "/scripts", tree + "/scripts")
    for p in ("dambreak", "hydrostatic"):
        os.makedirs(tree + "/input/" + p)
        open(tree + "/input/%s/settings.yml" % p, "w").write("project: %s\n" % p)
    open(tree + "/notes.txt", "w").write("mine\n")
    for k in c.kept:
        os.makedirs(os.path.dirname(tree + "/result/" + k), exist_ok=True)
        open(tree + "/result/" + k, "w").write("kept: %s\n" % k)
    script(tree + "/build/mps", PROGRAM)
    script(base + "/bin/rm", RM)
    for f in os.listdir(tree + "/scripts"):
        os.chmod(tree + "/scripts/" + f, 0o755)
    for t, ds, fs in os.walk(base):
        for x in [t] + [os.path.join(t, f) for f in fs]:
            os.chown(x, NOBODY, NOBODY)
    home = listing(tree)
    seen, calls, t0, last = [], [], None, None
    for n, (kind, project, note, wait, place) in enumerate(c.calls, 1):
        if wait and last is not None:
            while int(time.time()) <= last:
                time.sleep(0.01)
        cwd = {"root": tree, "scripts": tree + "/scripts", "elsewhere": base}[place]
        name = "runner.sh" if kind == "runner" else "safe_runner.sh"
        cmd = [{"root": "./scripts/", "scripts": "./", "elsewhere": tree + "/scripts/"}[place] + name]
        if kind == "safe":
            cmd.append(project)
            if note != "none":
                cmd += ["--note", NOTE[note]]
        e = {"PATH": base + "/bin:/usr/bin:/bin", "MPSV_CALL": str(n), "MPSV_LOG": base + "/started", "MPSV_REMOVALS": base + "/removals",
             "MPSV_TREE": tree, "HOME": base, "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        open(base + "/started", "w").close()
        open(base + "/removals", "w").close()
        os.chown(base + "/started", NOBODY, NOBODY)
        os.chown(base + "/removals", NOBODY, NOBODY)
        a = int(time.time())
        try:
            o = subprocess.run(cmd, cwd=cwd, env=e, user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60)
            code = o.returncode
        except subprocess.TimeoutExpired:
            code = 0
        except PermissionError as x:
            raise env.ToolError("cannot run as an unprivileged user: %s" % x)
        b = int(time.time())
        if a != b:
            return None
        t0 = a if t0 is None else t0
        calls.append({"script": kind, "project": project, "note": note, "wait": a - (last if last is not None else a), "place": place})
        last = a
        now = listing(tree)
        filled, mine, used = [], None, set()
        for d in sorted(os.listdir(tree + "/result")) if os.path.isdir(tree + "/result") else []:
            full = tree + "/result/" + d
            m = re.fullmatch(r"(\d{14})-([^-]*)-(.*)", d)
            if d == "dambreak":
                key = [d]
            elif m and m.group(3) in NOTE.values():
                t = int(time.mktime(time.strptime(m.group(1), "%Y%m%d%H%M%S")) - time.timezone)
                key = [t - t0, m.group(2), [k for k, v in NOTE.items() if v == m.group(3)][0]]
            else:
                continue
            used.add("result/" + d)
            r = re.fullmatch(r"result (\d+)\n", text(full + "/result") or "")
            call = int(r.group(1)) if r else 0
            if text(full + "/console.log") != "console %d\n" % call or text(full + "/error.log") != "error %d\n" % call or text(full + "/settings.yml") is None:
                call = 0
            if key == ["dambreak"] and call and set(os.listdir(full)) != {"result", "console.log", "error.log", "settings.yml"}:
                call = 0
            if r and int(r.group(1)) == n:
                mine = full
            filled.append({"dir": key, "call": call})
        begun = [l.split("|") for l in (text(base + "/started") or "").splitlines()]
        begun = [l for l in begun if l[0] == str(n)]
        rest = {k: v for k, v in now.items() if k != "result/" and not any(k == u + "/" or k.startswith(u + "/") for u in used)}
        seen.append({"filled": filled, "started": len(begun) == 1, "exit": code,
                     "settings": bool(begun) and begun[0][1] == os.path.realpath(tree) + "/input/%s/settings.yml" % project,
                     "output": bool(begun) and mine is not None and begun[0][2] == os.path.realpath(mine),
                     "console": mine is not None and text(mine + "/console.log") == "console %d\n" % n,
                     "error": mine is not None and text(mine + "/error.log") == "error %d\n" % n,
                     "elsewhere": len({k for k in set(rest) | set(home) if k != "result/" and rest.get(k, 0) != home.get(k, 0)}),
                     "attempts": len((text(base + "/removals") or "").splitlines())})
    return {"name": c.name, "calls": calls, "seen": seen}


def record(c):
    d = env.newdir("sh")
    os.chmod(env.scratch(), 0o755)
    os.chmod(d, 0o755)
    for _ in range(8):
        # early in a second, so that calls without a wait between them fall into the same one
        while time.time() % 1 > 0.3:
            time.sleep(0.02)
        r = once(d + "/x", c)
        if r:
            shutil.rmtree(d, True)
            return r
    raise env.ToolError("the calls of a script take longer than a second")


def cases():
    r = rng("c29")
    safe = [("safe", p, n, w) for p in ("dambreak", "hydrostatic") for n in NOTE for w in (0, 1)]
    kinds = safe + [("runner", "dambreak", "none", w) for w in (0, 1)] + [("usage", "none", "none", 0)]
    seqs = list(itertools.product(kinds, repeat=2))
    seqs = (seqs if env.THOROUGH else r.sample(seqs, 70)) + [tuple(r.choice(kinds) for _ in range(r.choice([3, 4]))) for _ in range(num(30, 150))]
    # the same call twice in a second
    seqs += [(k[:3] + (0,),) * 2 for k in safe if k[3]]
    out = []
    for n, s in enumerate(seqs):
        out.append(Case("sequence %d" % n, [q + (r.choice(["root", "scripts", "elsewhere"]),) for q in s], n % 3 == 0))
        if n % 2:
            # what else people keep among their results
            out[-1].kept = [k for k in KEPT if r.random() < 0.6]
    return out


def check(ctx):
    ctx.model("Runner", "MCRunner", MODEL, modules={"MCRunner": "---- MODULE MCRunner ----\nEXTENDS Runner\nMCSpec == RInit /\\ [][RNext(%d)]_rvars\n====\n" % num(3, 4)})

    def rec(cs):
        with cf.ThreadPoolExecutor(24) as ex:
            return list(ex.map(record, cs))
    ctx.conform("calls of the scripts", cases(), INV, module="RunnerTrace", consts=CONSTS, record=rec, minimum={"calls": 150, "taken": 5})
