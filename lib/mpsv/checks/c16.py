"""C16: runs can be continued from their snapshots."""
import copy, os, shutil
import concurrent.futures as cf
from .. import env, sim, formats
from .. import laws
from ..scen import *
from ..sim import num as real

INV = ["Shape", "Complete", "LoadedAsGiven", "StartsAsSnapshot", "SameLength", "Continues", "TypesConform", "VelocityConforms",
       "PositionConforms", "DensityConforms", "BoundaryConforms", "ImplicitPressureConforms", "ExplicitPressureConforms"]


class Pair:
    """A scenario, the snapshot to continue from, and how."""
    def __init__(self, sc, at, mode, fmt):
        self.sc, self.at, self.mode, self.fmt = sc, at, mode, fmt
        self.parts, self.settings = sc.parts, sc.settings
        self.name = "%s from %d, %s %s" % (sc.name, at, mode, fmt)


def unreal(s):
    return float(s[1:])


def record(binary, p):
    d = env.newdir("run")
    sc = copy.copy(p.sc)
    sc.settings = dict(p.sc.settings, outputVtkInBinary=True)
    os.mkdir(d + "/a")
    sc.write(d + "/a")
    sim.execute([binary, "-s", d + "/a/settings.yml", "-o", d + "/a/out"], d, sc.timeout)
    files = sorted(os.listdir(d + "/a/out/vtu")) if os.path.isdir(d + "/a/out/vtu") else []
    orig = [sim.read_snapshot(d + "/a/out/vtu/" + f) for f in files]
    at = min(p.at, max(0, len(orig) - 2))
    # the steps after the last snapshot before a solver failure are no part of this
    q = orig[at] if orig and orig[at]["ok"] else None
    rec = None
    if q:
        ty, ft = q["type"], q["ft"]
        x = [[unreal(e) for e in v] for v in q["x"]]
        v = [[unreal(e) for e in w] for w in q["v"]]
        rho = [a.rho for a in sc.parts]
        new = [P(t, a, b, ft=f, rho=w) for t, a, b, f, w in zip(ty, x, v, ft, rho)]
        t0 = unreal(q["time"])
        if p.mode == "exact":
            nsc = copy.copy(sc)
            nsc.fmt, nsc.parts, nsc.t0 = p.fmt, new, t0
            if p.fmt == "prof":
                nsc.parts = [P(a.type, a.x, a.v) for a in new]
            nsc.settings = dict(sc.settings, particlesPath="./input." + p.fmt)
            rec = sim.record(binary, nsc)
        else:
            if p.fmt == "vtu":
                tx = copy.copy(sc)
                tx.settings = dict(sc.settings, outputVtkInBinary=False)
                os.mkdir(d + "/t")
                tx.write(d + "/t")
                sim.execute([binary, "-s", d + "/t/settings.yml", "-o", d + "/t/out"], d, sc.timeout)
                src = d + "/t/out/vtu/output_%04d.vtu" % at
                f = formats.vtu(src)
                a = {e["name"]: e["values"] for e in f["arrays"]}
                tok = {"time": a.get("Time", ["#nan"])[0], "type": a.get("Particle Type", []), "ft": a.get("Fluid Type", []),
                       "x": [a.get("Position", [])[i:i + 3] for i in range(0, len(a.get("Position", [])), 3)],
                       "v": [a.get("Velocity", [])[i:i + 3] for i in range(0, len(a.get("Velocity", [])), 3)]}
            else:
                src = d + "/a/out/%s/output_%04d.%s" % (p.fmt, at, p.fmt)
                tok = formats.prof(src) if p.fmt == "prof" else formats.csv(src)

            class Copy(Scenario):
                def write(self, dd):
                    super().write(dd)
                    if os.path.exists(src):
                        shutil.copyfile(src, dd + "/input." + p.fmt)
            nsc = Copy(p.name, [], fmt=p.fmt)
            nsc.settings = dict(sc.settings, particlesPath="./input." + p.fmt)
            nsc.mayfail, nsc.timeout = sc.mayfail, sc.timeout
            rec = sim.record(binary, nsc)
            rec.update(t0=tok["time"], type=tok["type"], ft=tok["ft"] or [0] * len(tok["type"]), x=tok["x"], v=tok["v"], rho=[])
    else:
        rec = sim.record(binary, sc)
    rec.update(name=p.name, orig=orig[at:], mode=p.mode, fmt=p.fmt)
    rec["exact"] = False
    shutil.rmtree(d, True)
    return rec


def scenarios():
    r = rng("c16")
    out = []
    for n in range(num(120, 600)):
        kw = radii(r, 1.6, 3.6)
        steps = r.choice([3, 5])
        if r.random() < 0.6:
            kw.update({"pressureCalculationMethod": "Implicit", "compressibility": r.choice([1e-6, 1e-5]), "mayfail": True,
                       "surfaceDetection-numberDensity-threshold": r.choice([0.6, 0.9, 0.97])})
        else:
            kw.update({"soundSpeed": r.choice([1.0, 3.0])})
        l0 = r.choice([1.0, 0.025])
        kw.update(l0=l0, kinematicViscosity=r.choice([0, 0.5]) * l0 * l0, gmax=5.0, collisionDistanceRatio=r.choice([0.0, 0.5, 0.8]))
        mode = r.choice(["exact", "text", "text"])
        fmt = r.choice(["prof", "vtu"]) if mode == "exact" else r.choice(["prof", "csv", "vtu"])
        rhos = (None, 700.0, 1300.0) if mode == "exact" and fmt == "vtu" else (None,)
        if r.random() < 0.6:
            sc = block(r, "flow%d" % n, squeeze=0.95, vmax=r.choice([0.3, 5.0]), ghosts=2, steps=steps, rhos=rhos, **kw)
        else:
            sc = cloud(r, "cloud%d" % n, mind=0.6, vmax=r.choice([0.5, 10.0]), steps=steps, rhos=rhos, **kw)
        if fmt == "prof":
            for q in sc.parts:
                q.ft = 0
        sc.density = True if rhos != (None,) else False
        if r.random() < 0.4:
            # some leave on the way
            a = r.randrange(sc.settings["dim"])
            xs = sorted(q.x[a] for q in sc.parts)
            hi = list(sc.settings["domainMax"])
            hi[a] = xs[-2] + 0.01 * l0
            sc.settings["domainMax"] = hi
        out.append(Pair(sc, r.randint(0, steps - 1), mode, fmt))
    return out


def check(ctx):
    laws.run(ctx)
    binary = env.mps_binary()

    def rec(ps):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda p: record(binary, p), ps))
    ctx.conform("restarts", scenarios(), INV, module="RestartTrace", record=rec, minimum={"steps": 50})
