"""C17: inputs are archived and never overwritten."""
import json, os, shutil, subprocess, time
import concurrent.futures as cf
from .. import env, sim, tlc
from ..scen import *

MODEL = """SPECIFICATION CSpec
INVARIANTS RefusedIfReason RefusedIsTold NeverOverwritten RefusedWritesNothing ArchivedBeforeStep
CHECK_DEADLOCK FALSE
"""
INV = ["Known", "AllTried", "EndsByItself", "RefusedExactly", "Told", "NothingChanged", "NoSnapshot", "Archived", "NoBrokenCopy", "ArchivedFirst"]


def configs():
    """All configurations of the model, from TLC."""
    path = os.path.join(env.newdir("cfg"), "configs.json")
    r = tlc.run("Gen", "INIT CInit\nNEXT Never\nCHECK_DEADLOCK FALSE\n",
                modules={"Gen": '---- MODULE Gen ----\nEXTENDS Cli, Json, SequencesExt\nNever == FALSE /\\ UNCHANGED cvars\n'
                                'ASSUME JsonSerialize("%s", SetToSeq(Configs))\n====\n' % path})
    return json.load(open(path)), r


class Case:
    parts = []

    def __init__(self, name, cfg, style):
        self.name, self.cfg, self.style = name, cfg, style


def snapshot_tree(d):
    out = {}
    for top, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in ds:
            out.setdefault(os.path.relpath(os.path.join(top, x), d) + "/", None)
    return out


def setup(c, d):
    q = c.cfg
    r = rng("c17" + c.name)
    ind = d + "/in dir" if c.style % 3 == 0 else d + "/in"
    os.mkdir(ind)
    sub = {"same": ".", "sub": "particles", "abs": "."}[q["where"]]
    os.makedirs(os.path.join(ind, sub), exist_ok=True)
    pname = ["input", "a.b", "my particles"][c.style % 3] + q["ext"]
    ppath = os.path.join(ind, sub, pname)
    sname = ["settings.yml", "conf", "x.yaml"][(c.style // 3) % 3]
    if q["clash"] == "same":
        sname = pname
    if q["clash"] == "dir":
        sname = ["csv", "prof", "vtu"][c.style % 3]
    parts = [P(FLUID, (0.1 * i, 0.3, 0), (1, 0, 0), ft=0) for i in range(3)]
    if q["p"] == "ok":
        fmt = q["ext"][1:] if q["ext"] in (".csv", ".prof", ".vtu") else "csv"
        sim.WRITERS[fmt](ppath, parts, 0.0)
        if c.style % 2:
            # no newline at the end
            text = open(ppath).read().rstrip("\n")
            open(ppath, "w").write(text)
    given = ppath if q["where"] == "abs" else os.path.join(sub, pname)
    sc = Scenario("x", parts, particlesPath="'%s'" % given, endTime=0.1)
    sc.settings["outputVtkInBinary"] = False
    text = "".join("%s: %s\n" % (k, sim.yaml_value(v)) for k, v in sc.settings.items())
    if c.style % 2:
        text = "# comment \u00e4\u00f6\u00fc\r\n" + text.rstrip("\n") + "\n#  no newline at the end"
    with open(os.path.join(ind, sname), "w", newline="") as f:
        f.write(text)
    outd = d + "/out"
    if q["o"] == "ok" or q["o"] == "none":
        os.mkdir(outd)
    if q["o"] == "file":
        open(outd, "w").write("a file\n")
    if q["o"] == "input":
        outd = ind
    for what, name, path in (("settings", sname, os.path.join(ind, sname)), ("particles", pname, ppath)):
        if what in q["taken"]:
            # something else, a copy of an earlier run, nothing at all
            kind = (c.style + (what == "settings")) % 3
            data = b"something else\n" if kind == 0 or not os.path.exists(path) else b"" if kind == 1 else open(path, "rb").read()
            open(os.path.join(outd, name), "wb").write(data)
    if q["clash"] == "blocked":
        open(os.path.join(outd, ["vtu", "csv", "prof"][c.style % 3]), "w").write("in the way\n")
    if q["other"] != "none":
        open(os.path.join(outd, "notes.txt"), "w").write("unrelated\n")
    if q["other"] == "snapshots":
        for f in ("prof", "csv", "vtu"):
            os.mkdir(os.path.join(outd, f))
            open(os.path.join(outd, f, "output_0000." + f), "w").write("an old snapshot\n")
    return ind, sname, pname, ppath, outd


def record(binary, c):
    d = env.newdir("cli")
    ind, sname, pname, ppath, outd = setup(c, d)
    q = c.cfg
    rel = c.style % 2 == 1
    def arg(p):
        return os.path.relpath(p, cwd) if rel else p
    cwd = [d, ind][c.style % 2]
    cmd = [binary]
    opts = []
    if q["s"] != "none":
        opts.append([["-s"], ["--setting"]][c.style % 2] + [arg(os.path.join(ind, sname) if q["s"] == "ok" else ind + "/nosuch.yml")])
    if q["o"] != "none":
        opts.append([["-o"], ["--output"]][c.style % 2] + [arg(outd if q["o"] != "absent" else d + "/nosuch")])
    if c.style % 4 > 1:
        opts.reverse()
    for o in opts:
        cmd += o
    if q["bad"] == "option":
        cmd.append("--frobnicate")
    before = snapshot_tree(d)
    o = sim.execute(cmd, cwd, 60)
    after = snapshot_tree(d)
    base = os.path.relpath(outd, d)
    disk = {}

    def state(rel, source=None):
        """what became of a file"""
        b, a = before.get(rel), after.get(rel)
        if rel not in after:
            return "nothing" if rel not in before else "gone"
        if rel in before:
            return "old" if a == b else "changed"
        if source is not None and a == source:
            return "copy"
        return "new"
    srcs = before.get(os.path.relpath(os.path.join(ind, sname), d))
    srcp = before.get(os.path.relpath(ppath, d))
    disk["settings"] = state(base + "/" + sname, srcs)
    disk["particles"] = state(base + "/" + pname, srcp)
    if q["clash"] == "same" and disk["particles"] == "new" and after[base + "/" + pname] == srcs:
        disk["particles"] = "nothing"    # that is the settings
    disk["unrelated"] = state(base + "/notes.txt")
    for n in (0, 1):
        st = {state("%s/%s/output_%04d.%s" % (base, f, n, f)) for f in ("prof", "csv", "vtu")}
        st = {{"new": "snapshot", "changed": "snapshot"}.get(x, x) for x in st}
        disk["snapshot%d" % n] = st.pop() if len(st) == 1 else "mixed"
    known = {base + "/" + sname, base + "/" + pname, base + "/notes.txt"} | {"%s/%s/output_%04d.%s" % (base, f, n, f) for n in (0, 1) for f in ("prof", "csv", "vtu")}
    strange = len([r for r in after if r not in known and r not in before and not r.endswith("/")])
    kept = all(after.get(r, 0) == before[r] for r in before if r not in known)
    midway = "none"
    if o.exit == 0 and c.style % 5 == 0:
        midway = halfway(binary, c)
    shutil.rmtree(d, True)
    return {"name": c.name, "cfg": q, "exit": o.exit, "hung": o.timeout, "message": o.err.strip() != "", "disk": disk,
            "inputskept": kept, "strange": strange, "midway": midway}


def halfway(binary, c):
    """Look at the copies while the run is at work."""
    d = env.newdir("mid")
    ind, sname, pname, ppath, outd = setup(c, d)
    path = os.path.join(ind, sname)
    text = open(path, newline="").read().replace("endTime: 0.1", "endTime: 1000000.0").replace("outputPeriod: 0.0", "outputPeriod: 0.25")
    open(path, "w", newline="").write(text)
    p = subprocess.Popen([binary, "-s", path, "-o", outd], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        end = time.time() + 20
        res = "never"
        while time.time() < end and p.poll() is None:
            if os.path.exists(outd + "/prof/output_0002.prof"):
                same = all(os.path.exists(os.path.join(outd, n)) and open(os.path.join(outd, n), "rb").read() == open(s, "rb").read()
                           for n, s in ((sname, path), (pname, ppath)))
                res = "copy" if same else "missing"
                break
            time.sleep(0.005)
    finally:
        p.kill()
        p.communicate()
    shutil.rmtree(d, True)
    # the archive did not come in time to tell
    return "none" if res == "never" else res


def check(ctx):
    ctx.model("Cli", "Cli", MODEL)
    cfgs, _ = configs()
    binary = env.mps_binary()
    cases = []
    for i, q in enumerate(sorted(cfgs, key=lambda q: json.dumps(q, sort_keys=True))):
        for rep in range(num(3, 10)):
            cases.append(Case("%d.%d %s" % (i, rep, json.dumps(q, sort_keys=True).replace('"', "'")), q, i * 7 + rep))

    def rec(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: record(binary, c), cs))
    ctx.conform("starts", cases, INV, module="CliTrace", record=rec, minimum={"accepted": 10, "refused": 100})
