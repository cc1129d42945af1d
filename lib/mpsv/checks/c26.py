"""C26: failing writes are reported, complete snapshots stay; a run killed at any moment leaves what it announced."""
import os, re, shutil
import concurrent.futures as cf
from .. import env, sim
from ..scen import *

MODEL = """SPECIFICATION %s
CONSTANT Last = %d
INVARIANTS SuccessIsWhole FaultIsTold FailureIsTold AnnouncedIsThere OnlyLastIncomplete
PROPERTY Untouched
PROPERTY LateFaultStays
%sCHECK_DEADLOCK FALSE
"""
INV = ["EndsByItself", "SuccessIsWhole", "FaultIsTold", "FailureIsTold", "AnnouncedIsThere", "OnlyLastIncomplete", "FailsForReason",
       "PROPERTY Untouched", "LeftAsWritten", "PROPERTY Conforms"]

WRITES = ("write", "writev", "pwrite64", "pwritev", "sendfile", "copy_file_range", "fallocate", "ftruncate", "truncate")
OPENS = ("open", "openat", "creat")
CALLS = WRITES + OPENS + ("close", "mkdir", "mkdirat", "rename", "renameat", "renameat2", "unlink", "unlinkat", "fsync", "fdatasync", "fchmod", "link", "linkat", "dup", "dup2", "dup3")
LINE = re.compile(r"^(\d+)\s+(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)$")
FD = re.compile(r"^(\d+)<(.*?)>(?:\(deleted\))?(?:,|$)")
STR = re.compile(r'"((?:[^"\\]|\\.)*)"')


class Call:
    """One system call of the log: n is its number among the calls of its name, key is the file of the output directory it works on."""


def family(d, name):
    """(group, format) of a path of the output directory"""
    m = re.match(r"(prof|vtu|csv)/output_(\d{4,})\.(prof|vtu|csv)$", name)
    if m and m.group(1) == m.group(3):
        return int(m.group(2)) + 1, m.group(1)
    return {"settings.yml": (0, "settings")}.get(name) or ((0, "particles") if name.startswith("input.") else None)


def calls(log, outd):
    seen = {}
    res = []
    try:
        lines = open(log, errors="replace").read().splitlines()
    except OSError:
        return res
    for line in lines:
        m = LINE.match(line)
        if not m:
            continue
        c = Call()
        c.name, args, c.ret, rest = m.group(2), m.group(3), m.group(4), m.group(5)
        seen[c.name] = seen.get(c.name, 0) + 1
        c.n, c.rest = seen[c.name], rest
        c.injected = "(INJECTED)" in rest
        c.failed = c.ret.startswith("-")
        c.transient = "EINTR" in rest
        c.fd, c.text, c.paths = None, "", []
        f = FD.match(args)
        if f:
            c.fd, target = int(f.group(1)), f.group(2)
            c.paths = [target]
        if c.name in OPENS + ("mkdir", "mkdirat", "unlink", "unlinkat", "rename", "renameat", "renameat2", "truncate", "link", "linkat"):
            c.paths = [p if p.startswith("/") else os.path.join(os.path.dirname(outd), p) for p in STR.findall(args)]
            c.writes = c.name not in OPENS or "O_WRONLY" in args or "O_RDWR" in args or c.name == "creat"
        elif c.name in ("write", "writev"):
            s = STR.findall(args)
            c.text = "".join(s).encode().decode("unicode_escape", "replace") if c.fd == 1 else ""
            c.writes = True
        else:
            c.writes = c.name != "close"
        if c.name == "copy_file_range":
            t = re.findall(r"(\d+)<([^>]*)>", args)
            c.paths = [t[-1][1]] if t else []
        c.trunc = "O_TRUNC" in args or c.name in ("creat", "truncate", "ftruncate")
        c.keys = [family(outd, os.path.relpath(os.path.normpath(p), outd)) for p in c.paths if os.path.normpath(p).startswith(outd + "/")]
        c.dirkey = None
        if c.name.startswith("mkdir") and c.paths and os.path.normpath(c.paths[0]).startswith(outd + "/"):
            c.dirkey = (1, os.path.basename(os.path.normpath(c.paths[0])))
        res.append(c)
    return res


class Case:
    def __init__(self, name, sc, inject=None, prepare=None, limit=None, ref=None):
        self.name, self.sc, self.inject, self.prepare, self.limit, self.ref = name, sc, inject, prepare, limit, ref
        self.parts, self.settings = sc.parts, sc.settings


BENIGN = ("EEXIST", "ENOSYS", "EXDEV", "EINVAL", "EOPNOTSUPP", "ENOTTY")


def run(binary, case):
    """Run under strace; returns (scratch directory, calls, outcome)."""
    d = os.path.realpath(env.newdir("w"))
    case.sc.write(d)
    outd = d + "/out"
    if case.prepare:
        case.prepare(outd)
    cmd = ["strace", "-f", "-y", "-s", "400", "-o", d + "/log", "-e", "trace=" + ",".join("?" + c for c in CALLS)]
    if case.inject:
        cmd += ["-e", "inject=" + case.inject]
    if case.limit is not None:
        cmd += ["env", "--ignore-signal=XFSZ", "prlimit", "--fsize=%d" % case.limit]
    cmd += ["stdbuf", "-oL", binary, "-s", d + "/settings.yml", "-o", outd]
    o = sim.execute(cmd, d, 60)
    if o.err.startswith("strace:") or not os.path.exists(d + "/log"):
        raise env.ToolError("strace does not work here: %s" % o.err[:300])
    return d, calls(d + "/log", outd), o


def contents(outd):
    res, strange = {}, 0
    for top, ds, fs in os.walk(outd):
        for f in fs:
            p = os.path.join(top, f)
            key = family(outd, os.path.relpath(p, outd))
            if key is None:
                strange += 1
            elif os.path.isfile(p) and os.path.getsize(p) < 1 << 30:
                res[key] = open(p, "rb").read()
    return res, strange


def reference(binary, sc):
    d, cs, o = run(binary, Case("reference", sc))
    files, strange = contents(d + "/out")
    shutil.rmtree(d, True)
    return {"files": files, "calls": cs, "last": max([g for g, f in files] + [1]) - 1, "fine": o.exit == 0}


def events(cs, ref):
    """What the calls did to the files of the output directory."""
    size, whole, begun, evs = {}, set(), set(), []

    def put(e, key=(0, "settings"), k=0):
        evs.append({"e": e, "g": key[0], "f": key[1], "k": k})

    def state(key):
        want = len(ref["files"].get(key, b""))
        if size.get(key, 0) >= want and key not in whole:
            whole.add(key)
            put("whole", key)
    for c in cs:
        if c.fd == 1 and c.name in ("write", "writev"):
            for m in re.findall(r"out=(\d+)files", c.text):
                put("say", k=int(m))
            continue
        if not c.writes and c.name != "close":
            continue
        if c.failed:
            # (an interrupted close is a closed file)
            if c.transient:
                put("hiccup")
            elif not any(b in c.rest for b in BENIGN):
                for key in c.keys:
                    if key in ref["files"]:
                        put("fault", key)
                if c.dirkey and c.dirkey in ref["files"]:
                    put("fault", c.dirkey)
            continue
        if c.ret == "?":
            continue
        for key in c.keys:
            if key not in ref["files"]:
                continue
            if c.name in OPENS or c.name in ("truncate", "ftruncate"):
                if key in whole and c.trunc:
                    whole.discard(key)
                    put("undone", key)
                if key not in begun:
                    begun.add(key)
                    put("begin", key)
                if c.trunc:
                    size[key] = 0
            elif c.name in WRITES and c.name != "fallocate":
                size[key] = size.get(key, 0) + int(c.ret)
                state(key)
            elif c.name.startswith("unlink"):
                if key in whole:
                    put("undone", key)
                whole.discard(key)
        if c.name.startswith(("rename", "link")) and c.keys and c.keys[-1] in ref["files"]:
            # made elsewhere, and put in its place
            key = c.keys[-1]
            if key not in begun:
                begun.add(key)
                put("begin", key)
            size[key] = 1 << 60
            state(key)
    return evs, begun, whole


def record(binary, case):
    ref = case.ref
    d, cs, o = run(binary, case)
    evs, begun, whole = events(cs, ref)
    if case.prepare:
        evs.insert(0, {"e": "hiccup", "g": 0, "f": "settings", "k": 0})
    files, strange = contents(d + "/out")
    intact = {k for k, v in files.items() if ref["files"].get(k) == v}
    end = 0 if o.exit == 0 else 2 if o.exit in (-9, 137) and not o.timeout else 1
    if end == 2:
        # the call in which it was killed may have taken place or not
        for k in sorted(intact - whole):
            if k not in begun:
                evs.append({"e": "begin", "g": k[0], "f": k[1], "k": 0})
            evs.append({"e": "whole", "g": k[0], "f": k[1], "k": 0})
    evs.append({"e": "end", "g": 0, "f": "settings", "k": end})
    known = [l for l in o.err.splitlines() if l.strip() and not (sim._STEP.match(l) or sim._WARN.match(l) or sim._CFL.match(l))]
    # (when every write is made to fail, that includes the message)
    if any(c.fd == 2 and c.failed for c in cs):
        known.append("tried")
    extra = len([k for k in files if k not in ref["files"]]) + strange
    shutil.rmtree(d, True)
    return {"name": case.name, "events": evs, "hung": o.timeout, "message": bool(known),
            "whole": [{"g": g, "f": f} for g, f in sorted(intact)], "strange": extra if end == 0 else 0}


def scenarios():
    r = rng("c26")
    def flow(n, **kw):
        return [P(WALL if i % 5 == 0 else FLUID, ((i % 8) * 0.95, (i // 8) * 0.95, 0), (r.uniform(-1, 1), r.uniform(-1, 1), 0) if i % 5 else (0, 0, 0), ft=i % 2) for i in range(n)]
    out = [Scenario("ascii", flow(4), endTime=0.25, outputVtkInBinary=False),
           Scenario("binary", flow(6), endTime=0.25, fmt="prof"),
           Scenario("seldom", flow(5), endTime=0.9, outputPeriod=0.3, fmt="vtu", pressureCalculationMethod="Implicit", gravity=[0.0, -1.0, 0.0]),
           Scenario("big", flow(400), endTime=0.125, soundSpeed=3.0)]
    return out


def cases(refs):
    r = rng("c26 cases")
    out = []
    for sc, ref in refs:
        targets = {}
        for c in ref["calls"]:
            for key in set(c.keys) | ({c.dirkey} if c.dirkey else set()):
                if key in ref["files"] and c.writes or c.name == "close" and key in ref["files"]:
                    targets.setdefault((key, "close" if c.name == "close" else "mkdir" if c.dirkey else "open" if c.name in OPENS else "write"), []).append(c)
        for (key, kind), cs in sorted(targets.items()):
            where = "%s of %d.%s" % (kind, key[0], key[1])
            if kind == "close":
                cs = cs[-1:]
            pick = cs if env.THOROUGH and len(cs) < 40 else sorted({cs[0].n: cs[0], cs[-1].n: cs[-1], **{c.n: c for c in r.sample(cs, min(len(cs), num(1, 20)))}}.values(), key=lambda c: c.n)
            for c in pick:
                errs = {"write": ["ENOSPC", "EIO"], "open": ["EACCES", "ENOSPC", "EMFILE"], "mkdir": ["EACCES", "ENOSPC"], "close": ["EIO"]}[kind]
                if not env.THOROUGH:
                    errs = [r.choice(errs)]
                for e in errs:
                    # once, and from then on
                    for when in ["%d" % c.n, "%d+" % c.n] if env.THOROUGH else [r.choice(["%d", "%d+"]) % c.n]:
                        out.append(Case("%s: %s (%s) fails with %s" % (sc.name, where, when, e), sc, "%s:error=%s:when=%s" % (c.name, e, when), ref=ref))
                if kind in ("write", "open", "close"):
                    out.append(Case("%s: killed in %s (%d)" % (sc.name, where, c.n), sc, "%s:signal=SIGKILL:when=%d" % (c.name, c.n), ref=ref))
                if kind == "write" and (env.THOROUGH or r.random() < 0.3):
                    out.append(Case("%s: %s (%d) interrupted" % (sc.name, where, c.n), sc, "%s:error=EINTR:when=%d" % (c.name, c.n), ref=ref))
        sizes = {len(v) for v in ref["files"].values()}
        for n in sorted(sizes | {s - 1 for s in sizes} | {r.randint(1, max(sizes)) for _ in range(num(6, 60))}):
            out.append(Case("%s: no file larger than %d" % (sc.name, n), sc, limit=n, ref=ref))
        for key in sorted(ref["files"]):
            if key[0] == 0:
                continue
            name = "%s/output_%04d.%s" % (key[1], key[0] - 1, key[1])

            def full(outd, name=name):
                os.makedirs(os.path.dirname(outd + "/" + name), exist_ok=True)
                os.symlink("/dev/full", outd + "/" + name)

            def dirin(outd, name=name):
                os.makedirs(outd + "/" + name)
            out.append(Case("%s: %s is a full device" % (sc.name, name), sc, prepare=full, ref=ref))
            out.append(Case("%s: %s is a directory" % (sc.name, name), sc, prepare=dirin, ref=ref))
        for k in ("prof", "vtu", "csv"):
            out.append(Case("%s: %s is a file" % (sc.name, k), sc, prepare=lambda outd, k=k: open(outd + "/" + k, "w").close(), ref=ref))
    return out


def check(ctx):
    ctx.model("Writer", "Writer", MODEL % ("WSpec", num(1, 2), ""))
    ctx.model("Writer, faults end the run", "Writer", MODEL % ("Fair", 0, "PROPERTY FaultEnds\n"))
    binary = env.mps_binary()
    refs = [(sc, reference(binary, sc)) for sc in scenarios()]
    for sc, ref in refs:
        cs = cases([(sc, ref)]) if ref["fine"] else []

        def rec(xs):
            with cf.ThreadPoolExecutor(env.JOBS) as ex:
                return list(ex.map(lambda c: record(binary, c), xs))
        ctx.conform(sc.name, [Case(sc.name + ": undisturbed", sc, ref=ref)] + cs, INV, module="WriterTrace", consts="CONSTANT Last = %d" % ref["last"], record=rec)
    for key, least in (("faults", 100), ("killed", 30), ("failed", 100), ("fine", 10)):
        if ctx.tally.get(key, 0) < least:
            raise env.ToolError("only %d %s" % (ctx.tally.get(key, 0), key))
