"""C20: generated arrangements are complete and well formed."""
import os, shutil
from .. import env, sim, formats
from ..scen import *
from ..sim import num as real

MODEL = "SPECIFICATION LSpec\nINVARIANTS FourLayers\nCHECK_DEADLOCK FALSE\n"


class Case:
    parts = []

    def __init__(self, gen, how):
        self.gen, self.how, self.name = gen, how, gen + " " + how


def vtu_tokens(path):
    f = formats.vtu(path)
    a = {e["name"]: e["values"] for e in f["arrays"]}
    x, v = a.get("Position", []), a.get("Velocity", [])
    return {"ok": f["ok"] and f["points"] == f["cells"], "time": a.get("Time", ["#nan"])[0] if a.get("Time") else "#nan", "count": f["points"],
            "type": a.get("Particle Type", []), "x": [x[i:i + 3] for i in range(0, len(x), 3)], "v": [v[i:i + 3] for i in range(0, len(v), 3)]}


def record(bdir, binary, c):
    d = env.newdir("gen")
    # an old file that is longer than the new one must leave nothing behind
    old = "rewritten" in c.how
    top = "%s/input/%s" % (d, c.gen)
    if old:
        os.makedirs(top)
        for f in ("prof", "vtu"):
            open("%s/input.%s" % (top, f), "w").write("0 0 0 0 0 0 0\n" * 20000)
    if "shipped" in c.how:
        shutil.copytree(os.path.join(env.REPO, "input", c.gen), top)
    else:
        sim.execute([os.path.join(bdir, "generator", "generate_" + c.gen)], d, 30, stdin=b"y\n")
    rec = None
    if "prof" in c.how:
        rec = formats.prof(top + "/input.prof")
    elif "vtu" in c.how:
        rec = vtu_tokens(top + "/input.vtu")
    if "script" in c.how:
        sim.execute(["bash", env.REPO + "/scripts/prof_to_csv.sh", top + "/input.prof", top + "/input.csv"], top, 60)
    for fmt in ("prof", "vtu", "csv"):
        if "loaded as " + fmt in c.how:
            # what mps makes of it
            sc = Scenario("x", [], particlesPath="%s/input.%s" % (top, fmt), endTime=-1.0)
            with open(d + "/settings.yml", "w") as f:
                f.write("".join("%s: %s\n" % (k, sim.yaml_value(v)) for k, v in sc.settings.items()))
            os.mkdir(d + "/out")
            sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 60)
            q = sim.read_snapshot(d + "/out/vtu/output_0000.vtu")
            rec = {"ok": q["ok"], "time": q["time"], "count": len(q["type"]), "type": q["type"], "x": q["x"], "v": q["v"]}
    shutil.rmtree(d, True)
    rec.update(name=c.name, gen=c.gen)
    for k in ("ft", "blocks"):
        rec.pop(k, None)
    return rec


def check(ctx):
    ctx.model("Layout", "Layout", MODEL)
    bdir = env.repo_build(("mps", "generate_dambreak", "generate_hydrostatic"))
    cases = [Case(g, h) for g in ("dambreak", "hydrostatic")
             for h in ("prof", "vtu", "prof rewritten", "vtu rewritten", "loaded as prof", "loaded as vtu", "script, loaded as csv",
                       "shipped prof", "shipped, loaded as prof", "shipped, loaded as csv", "shipped, loaded as vtu")]
    ctx.conform("arrangements", cases, ["Readable", "Counted", "OnLattice", "Complete", "AtRest", "StartsAtZero"], module="LayoutTrace",
                record=lambda cs: [record(bdir, bdir + "/mps", c) for c in cs], minimum={"particles": 10000})
