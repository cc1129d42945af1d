"""C24: degenerate input never crashes the program."""
import os, shutil
import concurrent.futures as cf
from .. import env, sim
from ..scen import *
from ..sim import num as real

INV = ["EndsByItself", "NoSignal", "NoCorruption", "AllStepsOrTold", "Listed"]


def record(binary, sc):
    d = env.newdir("run")
    sc.write(d)
    o = sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, sc.timeout)
    vd = d + "/out/vtu"
    files = sorted(os.listdir(vd)) if os.path.isdir(vd) else []
    snaps = [{"ok": s["ok"], "type": s["type"]} for s in (sim.read_snapshot(os.path.join(vd, f)) for f in files)]
    rec = {"name": sc.name, "set": {k: sim.spec_value(k, v) for k, v in sc.settings.items()}, "t0": real(sc.t0), "type": [p.type for p in sc.parts],
           "exit": o.exit, "hung": o.timeout, "message": o.err.strip() != "", "sanitizer": "Sanitizer" in o.err or "Assertion" in o.err,
           "reported": len(sim.split_stderr(o.err)[2]), "snaps": snaps}
    shutil.rmtree(d, True)
    return rec


METHODS = [{"pressureCalculationMethod": "Implicit", "compressibility": 1e-6}, {"soundSpeed": 10.0},
           {"pressureCalculationMethod": "Implicit", "compressibility": 0.0, "surfaceDetection-particleDistribution": False, "surfaceDetection-numberDensity-threshold": 0.0}]


def catalogue():
    """Named degenerate situations, in each dimension, with each way of calculating pressure."""
    F, W, D, G = FLUID, WALL, DUMMY, GHOST
    lo, hi = -4.0, 4.0
    corners = list(itertools.product((lo, hi), repeat=3))
    sets = {
        "none": [],
        "one fluid": [P(F, (0, 0, 0), (1, 0, 0))], "one wall": [P(W, (0, 0, 0))], "one dummy": [P(D, (0, 0, 0))], "one ghost": [P(G, (0, 0, 0))],
        "two at one place": [P(F, (1, 1, 0)), P(F, (1, 1, 0))], "fluid on wall": [P(F, (1, 1, 0), (1, 0, 0)), P(W, (1, 1, 0))],
        "five at one place": [P(F, (1, 1, 0), (i, -i, 0)) for i in range(5)] + [P(F, (0, 1, 0)), P(W, (2, 1, 0))],
        "same place, neighbours around": [P(F, (x * 0.9, y * 0.9, 0)) for x in range(-2, 3) for y in range(-2, 3)] + [P(F, (0, 0, 0), (0, 1, 0)), P(W, (0.9, 0.9, 0))],
        "on the corners": [P(F, c) for c in corners], "walls on the corners": [P(W, c) for c in corners],
        "leaving at the corners": [P(F, c, c) for c in corners] + [P(F, (0, 0, 0))],
        "outside": [P(F, (9, 0, 0)), P(F, (0, -9, 0)), P(W, (0, 9, 0)), P(D, (-9, 9, 0)), P(F, (0, 0, 9)), P(F, (0, 0, -1e300)), P(F, (1e300, 1e300, 1e300))],
        "all outside": [P(F, (100, 100, 0)) for _ in range(4)],
        "just outside": [P(F, (math.nextafter(lo, -9), 0, 0)), P(F, (math.nextafter(hi, 9), 1, 0)), P(F, (2, math.nextafter(hi, 9), 0)), P(F, (0, math.nextafter(lo, -9), 0))],
        "no fluid": [P(W if (x + y) % 2 else D, (x, y, 0)) for x in range(3) for y in range(3)],
        "only dummies": [P(D, (x * 0.5, 0, 0)) for x in range(4)], "only ghosts": [P(G, (x * 0.5, 0, 0)) for x in range(4)],
        "no wall": [P(F, (x * 0.9, y * 0.9, 0)) for x in range(4) for y in range(4)],
        "fast": [P(F, (0, 0, 0), (1e6, 0, 0)), P(F, (1, 0, 0), (0, -1e6, 0)), P(F, (2, 0, 0), (0, 0, 1e6)), P(F, (-1, 0, 0))],
        "enormous": [P(F, (0, 0, 0), (1e308, -1e308, 1e308)), P(F, (0.5, 0, 0), (-1e308, 1e308, 0)), P(F, (-1, 0, 0))],
        "close to overflow": [P(F, (0, 0, 0), (1e200, 0, 0)), P(F, (0.3, 0, 0), (-1e200, 0, 0)), P(W, (0.6, 0, 0))],
        "tiny distance": [P(F, (0, 0, 0)), P(F, (1e-300, 0, 0)), P(F, (0, 1e-160, 0)), P(W, (5e-324, 0, 0))],
        "moving walls": [P(W, (0, 0, 0), (9, 9, 9)), P(D, (1, 0, 0), (-9, 0, 0)), P(F, (0.5, 0.5, 0))],
        "unknown types": [P(4, (0, 0, 0)), P(-1, (0.5, 0, 0)), P(F, (1, 0, 0)), P(1000, (1, 1, 0))],
        "line": [P(F, (lo + i * 0.5, lo, 0)) for i in range(17)],
        "zero density": [P(F, (0, 0, 0), rho=0.0), P(F, (0.4, 0, 0), (-1, 0, 0), rho=0.0), P(F, (0, 0.4, 0), rho=1000.0), P(W, (0.4, 0.4, 0), rho=0.0)],
    }
    out = []
    for name, parts in sets.items():
        for dim in (2, 3):
            for i, m in enumerate(METHODS):
                z = [-4.0, 4.0] if dim == 3 else [0.0, 0.0]
                kw = dict(m)
                kw.update(dim=dim, domainMin=[lo, lo, z[0]], domainMax=[hi, hi, z[1]], kinematicViscosity=0.1, gravity=[0.0, -1.0, 0.0])
                out.append(Scenario("%s %dd m%d" % (name, dim, i), parts, dt=0.125, endTime=0.6, fmt=("csv", "vtu")[i % 2], timeout=30, **kw))
    return out


def settings():
    """Degenerate settings for an ordinary flow."""
    r = rng("c24s")
    changes = {
        "flat domain": {"domainMin": [0.0, 0.0, 0.0], "domainMax": [0.0, 0.0, 0.0]}, "thin domain": {"domainMin": [0.0, 0.0, 0.0], "domainMax": [4.0, 0.0, 0.0]},
        "domain smaller than a radius": {"domainMin": [0.0, 0.0, 0.0], "domainMax": [0.5, 0.5, 0.0]},
        "without limits": {"domainMin": [-1e12, -1e12, 0.0], "domainMax": [1e12, 1e12, 0.0]}, "too many cells": {"domainMin": [-1e5, -1e5, 0.0], "domainMax": [1e5, 1e5, 0.0]},
        "number of cells wraps": {"domainMin": [0.0, 0.0, 0.0], "domainMax": [4.2e5, 4.2e5, 0.0]}, "infinite": {"domainMax": [float("inf"), 8.0, 0.0]}, "half infinite": {"domainMin": [-2.0, float("-inf"), 0.0]},
        "reversed": {"domainMin": [8.0, 8.0, 0.0], "domainMax": [-2.0, -2.0, 0.0]}, "reversed in x": {"domainMin": [8.0, -2.0, 0.0], "domainMax": [-2.0, 8.0, 0.0]},
        "far reversed in y": {"domainMin": [-2.0, 1e5, 0.0], "domainMax": [8.0, -1e5, 0.0]}, "far reversed": {"domainMin": [1e3, 1e3, 0.0], "domainMax": [-1e3, -1e3, 0.0]},
        "upside down by a hair": {"domainMin": [-2.0, -2.0, 1e-9], "domainMax": [8.0, 8.0, 0.0]},
        "far away": {"domainMin": [1e6, 1e6, 0.0], "domainMax": [1e6 + 3, 1e6 + 3, 0.0]},
        "small radii": {"radiusRatioForNumberDensity": 0.5, "radiusRatioForGradient": 0.5, "radiusRatioForLaplacian": 0.5},
        "one small radius": {"radiusRatioForLaplacian": 0.9}, "radius of exactly one": {"radiusRatioForNumberDensity": 1.0},
        "large radii": {"radiusRatioForNumberDensity": 9.0, "radiusRatioForGradient": 9.0, "radiusRatioForLaplacian": 9.0},
        "no collisions": {"collisionDistanceRatio": 0.0}, "wide collisions": {"collisionDistanceRatio": 3.0, "coefficientOfRestitution": 2.0},
        "huge gravity": {"gravity": [1e300, -1e300, 0.0]}, "big gravity": {"gravity": [0.0, -1e5, 0.0]}, "huge viscosity": {"kinematicViscosity": 1e200}, "unstable viscosity": {"kinematicViscosity": 100.0},
        "huge sound speed": {"soundSpeed": 1e160}, "no density": {"defaultDensity": 0.0},
        "incompressible": {"compressibility": 0.0}, "all inner": {"surfaceDetection-numberDensity-threshold": 0.0, "compressibility": 0.0}, "all free": {"surfaceDetection-numberDensity-threshold": 1e9},
        "over": {"endTime": -1.0}, "now": {"endTime": 0.0}, "long steps": {"dt": 1e10, "endTime": 3e10}, "tiny steps": {"dt": 1e-300, "endTime": 3e-300},
        "late": {"t0": 1e17, "dt": 1.0, "endTime": 1e17 + 64}, "very early": {"t0": -1e300, "dt": 1.0, "endTime": -1e299}, "dt below all times": {"t0": 1.0, "dt": 1e-300, "endTime": 2.0},
        "barely": {"t0": 2.0 ** 52, "dt": 1.0, "endTime": 2.0 ** 52 + 4}, "seldom": {"outputPeriod": 0.0, "cflCondition": 0.0},
        "relaxed": {"relaxationCoefficientForPressure": 0.0}, "over-relaxed": {"relaxationCoefficientForPressure": 1e6},
    }
    out = []
    for name, ch in changes.items():
        for i, m in enumerate(METHODS):
            parts = [P(WALL if y == 0 else FLUID, (x * 0.93, y * 0.93, 0.0), (r.uniform(-1, 1), r.uniform(-1, 1), 0)) for x in range(5) for y in range(5)]
            kw = dict(m)
            kw.update(domainMin=[-2.0, -2.0, 0.0], domainMax=[8.0, 8.0, 0.0], kinematicViscosity=0.1, gravity=[0.0, -1.0, 0.0], dt=0.125, endTime=0.6)
            kw.update(ch)
            out.append(Scenario("%s m%d" % (name, i), parts, timeout=30, **kw))
    return out


def fuzz():
    """Random mixtures of degenerate situations."""
    r = rng("c24f")
    out = []
    for n in range(num(200, 3000)):
        dim = r.choice([2, 3])
        lo = [r.choice([-4.0, 0.0, r.uniform(-100, 100)]) for _ in range(3)]
        hi = [l + r.choice([0.0, 1.0, 8.0, r.uniform(0, 20)]) for l in lo]
        if dim == 2:
            hi[2] = lo[2]

        def coord(a):
            c = r.random()
            if c < 0.15:
                return r.choice([lo[a], hi[a]])
            if c < 0.2:
                return r.choice([math.nextafter(lo[a], -1e9), math.nextafter(hi[a], 1e9), lo[a] - 1e9, 1e300, -1e300, hi[a] + 0.1])
            if c < 0.5:
                return lo[a] + (hi[a] - lo[a]) * r.randint(0, 4) / 4
            return r.uniform(lo[a], hi[a])
        k = r.choice([0, 1, 2, 3, 8, 20, 40])
        parts = []
        for _ in range(k):
            if parts and r.random() < 0.15:
                x = r.choice(parts).x
            else:
                x = [coord(a) for a in range(3)]
            v = [r.choice([0, 0, 1, -1, 100]) * r.random() * r.choice([1, 1, 1, 1e3, 1e100]) for _ in range(3)]
            parts.append(P(r.choice([0, 1, 1, 1, 2, 3]), x, v, ft=r.randint(0, 3), rho=r.choice([None, 1000.0, 1.0])))
        kw = dict(r.choice(METHODS))
        kw.update(dim=dim, domainMin=lo, domainMax=hi, kinematicViscosity=r.choice([0, 0.1, 10.0]), gravity=[0.0, r.choice([0, -10.0]), 0.0],
                  radiusRatioForNumberDensity=r.choice([1.5, 2.1, 3.1]), radiusRatioForGradient=r.choice([1.1, 2.1]), radiusRatioForLaplacian=r.choice([2.1, 4.1]),
                  collisionDistanceRatio=r.choice([0, 0.5, 1.0, 2.0]), dt=r.choice([0.125, 0.01]), endTime=0.0)
        kw["endTime"] = kw["dt"] * 3.5
        out.append(Scenario("fuzz%d" % n, parts, fmt=r.choice(["csv", "prof", "vtu"]), timeout=30, **kw))
    return out


def check(ctx):
    plain = env.mps_binary()
    checked = os.path.join(env.repo_build(("mps",), "asan", "-fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"), "mps")
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"

    def par(b):
        def rec(cs):
            with cf.ThreadPoolExecutor(env.JOBS) as ex:
                return list(ex.map(lambda c: record(b, c), cs))
        return rec
    for name, scs in (("catalogue", catalogue()), ("settings", settings()), ("mixtures", fuzz())):
        ctx.conform(name, scs, INV, module="EndTrace", record=par(plain))
        ctx.conform(name + ", memory checked", scs, INV, module="EndTrace", record=par(checked))
