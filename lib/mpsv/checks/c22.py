"""C22: settings mean what the settings file says."""
import os, re, shutil
import concurrent.futures as cf
from .. import env, sim, formats
from ..scen import *
from ..sim import num as real

INV = ["Shape", "Complete", "LoadedAsGiven", "TypesConform", "WarningsConform", "VelocityConforms", "PositionConforms", "DensityConforms", "RatioConforms",
       "GhostDensityZero", "BoundaryConforms", "ImplicitPressureConforms", "ExplicitPressureConforms", "PressureNeverNegative",
       "PressureZeroWhereIgnored", "CourantPrinted", "CflReported"]

REQUIRED = ["dim", "particleDistance", "dt", "endTime", "outputPeriod", "cflCondition", "numPhysicalCores", "defaultDensity", "kinematicViscosity", "gravity",
            "surfaceDetection-numberDensity-threshold", "surfaceDetection-particleDistribution", "surfaceDetection-particleDistribution-threshold",
            "pressureCalculationMethod", "compressibility", "relaxationCoefficientForPressure", "soundSpeed", "collisionDistanceRatio",
            "coefficientOfRestitution", "radiusRatioForNumberDensity", "radiusRatioForGradient", "radiusRatioForLaplacian", "domainMin", "domainMax", "particlesPath"]


def variations(l0, lo, hi):
    wide = lambda v, d: [e + d * l0 for e in v]
    return {
        "dim": [2, 3], "dt": [0.005, 0.02], "endTime": [0.0, 0.015, 0.055], "cflCondition": [1e-3, 0.05, 1.0],
        "numPhysicalCores": [1, 2, 4], "defaultDensity": [500.0, 1500.0], "kinematicViscosity": [0.0, 2.0 * l0 * l0],
        "gravity": [[0.0, 0.0, 0.0], [3.0 * l0, 0.0, 0.0], [0.0, -5.0 * l0, 0.0], [0.0, 0.0, 2.0 * l0], [1.0 * l0, 2.0 * l0, 3.0 * l0]],
        "xyz-input": [True, False, None], "gravity-norm": [0.0, 4.0 * l0, None], "gravity-angle": [0.0, 30.0, 90.0, -45.0, 180.0, 1.0, None],
        "surfaceDetection-numberDensity-threshold": [0.0, 0.5, 0.8, 1.2], "surfaceDetection-particleDistribution": [True, False],
        "surfaceDetection-particleDistribution-threshold": [0.2, 0.85, 3.0], "pressureCalculationMethod": ["Implicit", "Explicit"],
        "compressibility": [1e-7, 1e-4], "relaxationCoefficientForPressure": [0.05, 1.0], "soundSpeed": [0.5 * l0, 20.0 * l0],
        "collisionDistanceRatio": [0.0, 0.75, 0.9], "coefficientOfRestitution": [0.0, 0.5, 1.0],
        "radiusRatioForNumberDensity": [1.37, 2.55, 3.7], "radiusRatioForGradient": [1.37, 2.55, 3.7], "radiusRatioForLaplacian": [1.37, 2.55, 3.7],
        "domainMin": [wide(lo, 3.0), wide(lo, -3.0)], "domainMax": [wide(hi, -3.0), wide(hi, 3.0)],
        "particleDistance": [0.8 * l0, 1.3 * l0], "outputPeriod": [0.0],
    }


class Written(Scenario):
    """Settings written in another order and notation."""
    shuffle = None

    def write(self, d):
        super().write(d)
        r = self.shuffle
        items = list(self.settings.items())
        r.shuffle(items)

        def val(v):
            if isinstance(v, bool):
                return r.choice(["true", "True", "yes", "on"] if v else ["false", "False", "no", "off"])
            if isinstance(v, float):
                return r.choice([repr(v), "%.17e" % v, repr(v) if "e" in repr(v) else repr(v) + "e0", "%d" % v if v == int(v) and abs(v) < 1e9 else repr(v)])
            if isinstance(v, (list, tuple)):
                return r.choice(["[%s]", "[ %s ]"]) % ", ".join(val(float(e)) for e in v)
            if isinstance(v, str):
                return r.choice([v, "'%s'" % v, '"%s"' % v])
            return str(v)
        with open(os.path.join(d, "settings.yml"), "w") as f:
            f.write("---\n# settings\n")
            for k, v in items:
                f.write("%s: %s%s\n" % (k, val(v), r.choice(["", "   # comment", " "])))


def base(r, name, method, **kw):
    l0 = r.choice([1.0, 0.025])
    s = dict(l0=l0, dim=kw.pop("dim", r.choice([2, 3])), squeeze=0.95, jitter=0.12, vmax=2.0, ghosts=1, steps=r.choice([2, 3]), dt=0.01, rhos=(None, None, 1200.0),
             kinematicViscosity=0.3 * l0 * l0, gravity=[0.5 * l0, -4.0 * l0, 0.25 * l0], cflCondition=0.02, soundSpeed=2.0 * l0,
             compressibility=1e-5, pressureCalculationMethod=method, mayfail=True,
             radiusRatioForNumberDensity=2.2, radiusRatioForGradient=1.9, radiusRatioForLaplacian=2.7,
             surfaceDetection__numberDensity__threshold=0.9, collisionDistanceRatio=0.6)
    s["surfaceDetection__numberDensity__threshold"] = None
    s["surfaceDetection-numberDensity-threshold"] = 0.9
    del s["surfaceDetection__numberDensity__threshold"]
    s.update(kw)
    sc = block(r, name, **s)
    if sc.settings["dim"] == 2:
        # the plane may be anywhere in the domain
        z, m = r.choice([0.0, 0.0, -0.7, 0.3]) * l0, r.choice([0.0, 0.1]) * l0
        for p in sc.parts:
            p.x = tuple(p.x[:2]) + (z,)
        sc.settings["domainMin"][2], sc.settings["domainMax"][2] = z - m, z + m
    return sc


def scenarios():
    r = rng("c22")
    out = []
    n = 0
    for rep in range(num(1, 8)):
        for method in ("Implicit", "Explicit"):
            probe = base(rng("probe"), "probe", method)
            for key, vals in variations(1.0, probe.settings["domainMin"], probe.settings["domainMax"]).items():
                for i, _ in enumerate(vals):
                    sc = base(r, "%s#%d %s %d" % (key, i, method, rep), method)
                    l0 = sc.settings["particleDistance"]
                    v = variations(l0, sc.settings["domainMin"], sc.settings["domainMax"])[key][i]
                    if key.startswith("gravity-"):
                        sc.settings.update({"xyz-input": False, "gravity-norm": 3.0 * l0, "gravity-angle": 20.0})
                    if key == "xyz-input":
                        sc.settings.update({"gravity-norm": 3.0 * l0, "gravity-angle": -70.0})
                    if key.startswith("domain") and sc.settings["dim"] == 2:
                        v = v[:2] + [sc.settings[key][2]]
                    if v is None:
                        sc.settings.pop(key, None)
                    else:
                        sc.settings[key] = v
                    sc.settings["endTime"] = v if key == "endTime" else sc.settings["endTime"]
                    if key in ("domainMin", "domainMax"):
                        if any(a > b for a, b in zip(sc.settings["domainMin"], sc.settings["domainMax"])):
                            continue
                    out.append(sc)
    # several at once, in other notations
    for m in range(num(40, 300)):
        sc = base(r, "mix%d" % m, r.choice(["Implicit", "Explicit"]))
        l0 = sc.settings["particleDistance"]
        var = variations(l0, sc.settings["domainMin"], sc.settings["domainMax"])
        for key in r.sample([k for k in var if k not in ("domainMin", "domainMax", "dim")], 6):
            v = r.choice(var[key])
            if v is None:
                sc.settings.pop(key, None)
            else:
                sc.settings[key] = v
        sc.__class__ = Written
        sc.shuffle = rng("c22 %d" % m)
        out.append(sc)
    return out


class Shipped(Scenario):
    """An example of /repo/input: its own files, but fewer steps, each of them saved."""
    change = None

    def write(self, d):
        src = os.path.join(env.REPO, "input", self.example)
        text = open(src + "/settings.yml").read()
        for k, v in self.change.items():
            text, n = re.subn(r"(?m)^%s:.*$" % re.escape(k), lambda m: "%s: %s" % (k, sim.yaml_value(v)), text)
            assert n == 1, k
        open(d + "/settings.yml", "w").write(text)
        shutil.copy(src + "/input." + self.fmt, d)
        os.mkdir(d + "/out")


def shipped():
    """What the examples say is read here by another YAML reader than the program's; the particles are the lines of the prof file."""
    out = []
    for example in ("dambreak", "hydrostatic"):
        src = os.path.join(env.REPO, "input", example)
        given = {}
        for line in open(src + "/settings.yml"):
            m = re.match(r"([\w-]+): *([^#\n]*?) *(#.*)?$", line)
            if m:
                t = m.group(2)
                given[m.group(1)] = (t == "true" if t in ("true", "false") else [float(e) for e in t[1:-1].split(",")] if t[0] == "[" else
                                     int(t) if m.group(1) in sim.INTS else float(t) if re.fullmatch(r"[-+.\deE]+", t) else t)
        rows = [l.split() for l in open(src + "/input.prof").read().splitlines()[2:]]
        parts = [P(int(w[0]), tuple(map(float, w[1:4])), tuple(map(float, w[4:7]))) for w in rows]
        for method, fmt, steps in (("Implicit", "prof", num(4, 40)), ("Explicit", "csv", num(4, 40)), ("Implicit", "vtu", 1)):
            change = {"endTime": given["dt"] * (steps - 0.5), "outputPeriod": 0.0, "pressureCalculationMethod": method, "outputVtkInBinary": True,
                      "particlesPath": "./input." + fmt}
            if method == "Explicit":
                change["dt"] = given["dt"] / 4
                change["endTime"] /= 4
            sc = Shipped("shipped %s %s %s" % (example, fmt, method), parts, fmt=fmt, **dict(given, **change))
            sc.settings = dict(given, **change)
            sc.example, sc.change = example, change
            out.append(sc)
    return out


class RefCase:
    parts = []

    def __init__(self, name, change):
        self.name, self.change = name, change


def record_refused(binary, c):
    d = env.newdir("run")
    sc = Scenario("x", [P(FLUID, (0, 0, 0)), P(FLUID, (1, 0, 0))])
    c.change(sc.settings)
    sc.write(d)
    o = sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 60)
    snaps = sum(len(fs) for top, _, fs in os.walk(d + "/out") if top != d + "/out")
    shutil.rmtree(d, True)
    return {"name": c.name, "exit": o.exit, "hung": o.timeout, "message": o.err.strip() != "", "snapshots": snaps}


def refusals():
    out = [RefCase("without " + k, lambda s, k=k: s.pop(k)) for k in REQUIRED]
    for m in ("implicit", "EXPLICIT", "Explicit2", "''", "Semi-Implicit", "None", "0"):
        out.append(RefCase("method " + m, lambda s, m=m: s.__setitem__("pressureCalculationMethod", m)))
    for k in ("xyz-input", "gravity-norm", "gravity-angle", "outputVtkInBinary"):
        out.append(RefCase("without dt, with " + k, lambda s, k=k: (s.pop("dt"), s.__setitem__(k, {"xyz-input": True, "outputVtkInBinary": True}.get(k, 1.0)))))
    return out


class Placed(Scenario):
    """cwd and the ways to name the files. {top}: the scratch directory."""
    cwd = setting = given = None


def record_placed(binary, sc):
    d = env.newdir("run")
    for s in ("proj", "proj/data", "elsewhere", "elsewhere/data", "out", "data"):
        os.mkdir(d + "/" + s)
    decoy = [P(WALL, (7.0, 7.0, 0.0))]
    for s in ("", "proj", "proj/data", "elsewhere", "elsewhere/data", "data"):
        sim.write_csv(os.path.join(d, s, "particles.csv"), decoy)
    target = os.path.normpath(os.path.join(d, "proj", sc.given.format(top=d)))
    sim.write_csv(target, sc.parts, sc.t0)
    sc.settings["particlesPath"] = "'%s'" % sc.given.format(top=d)
    with open(d + "/proj/settings.yml", "w") as f:
        f.write("".join("%s: %s\n" % (k, sim.yaml_value(v)) for k, v in sc.settings.items()))
    cwd = os.path.join(d, sc.cwd)
    path = d + "/proj/settings.yml"
    arg = {"abs": path, "rel": os.path.relpath(path, cwd), "dots": os.path.join(os.path.relpath(d, cwd), "proj", "..", "proj", "settings.yml")}[sc.setting]
    o = sim.execute([binary, "-s", arg, "-o", d + "/out"], cwd, 60)
    vd = d + "/out/vtu"
    files = sorted(os.listdir(vd)) if os.path.isdir(vd) else []
    snaps = [sim.read_snapshot(os.path.join(vd, f)) for f in files]
    rec = {"name": sc.name, "set": {k: sim.spec_value(k, v) for k, v in sc.settings.items()}, "exact": False, "mayfail": False, "t0": real(sc.t0),
           "type": [p.type for p in sc.parts], "ft": [p.ft for p in sc.parts], "x": [[real(a) for a in p.x] for p in sc.parts],
           "v": [[real(a) for a in p.v] for p in sc.parts], "rho": [], "exit": o.exit, "hung": o.timeout, "solverfailed": False, "snaps": snaps,
           "warn": [[]] * len(snaps), "cfl": [[]] * len(snaps), "courant": []}
    shutil.rmtree(d, True)
    return rec


def placed():
    out = []
    for cwd in ("", "proj", "elsewhere", "proj/data"):
        for setting in ("abs", "rel", "dots"):
            for given in ("particles.csv", "./particles.csv", "data/particles.csv", "../particles.csv", "../data/particles.csv", "{top}/data/particles.csv", "./data/../particles.csv"):
                sc = Placed("in '%s', settings %s, particles %s" % (cwd, setting, given), [P(FLUID, (0.5, 0.25, 0), (1, 0, 0), ft=2), P(WALL, (3, 0, 0))])
                sc.cwd, sc.setting, sc.given = cwd, setting, given
                out.append(sc)
    return out


class Mode:
    parts = []

    def __init__(self, name, given, want):
        self.name, self.given, self.want = name, given, want


def record_mode(binary, c):
    d = env.newdir("run")
    sc = Scenario("x", [P(FLUID, (0, 0, 0), (1, 0, 0)), P(FLUID, (1, 0, 0))], endTime=0.1)
    if c.given is None:
        sc.settings.pop("outputVtkInBinary")
    else:
        sc.settings["outputVtkInBinary"] = c.given
    sc.write(d)
    sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 60)
    snaps = [{"vtu": formats.vtu(d + "/out/vtu/output_%04d.vtu" % n)} for n in (0, 1)]
    shutil.rmtree(d, True)
    return {"name": c.name, "n": 2, "binary": c.want, "snaps": snaps}


def par(f, binary):
    def rec(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: f(binary, c), cs))
    return rec


def check(ctx):
    binary = env.mps_binary()
    ctx.conform("one setting at a time, and mixtures", scenarios(), INV, minimum={"pressed": 100, "pairs": 10, "free": 20, "inner": 100})
    ctx.conform("shipped examples", shipped(), INV, minimum={"steps": 200})
    ctx.conform("missing settings", refusals(), ["Refused", "Told", "NothingWritten"], module="RefusedTrace", record=par(record_refused, binary))
    ctx.conform("particle path", placed(), ["Shape", "Complete", "LoadedAsGiven"], module="MPSTrace", record=par(record_placed, binary))
    ctx.conform("vtu mode", [Mode("default", None, False), Mode("true", True, True), Mode("false", False, False), Mode("yes", "yes", True)],
                ["VtuComplete", "VtuMode"], module="FormatTrace", record=par(record_mode, binary))
