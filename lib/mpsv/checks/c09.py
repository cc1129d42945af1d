"""C09: free surface classification."""
from .. import env, laws, sim
from ..scen import *

INV = ["Shape", "Complete", "BoundaryConforms"]
IMP = {"pressureCalculationMethod": "Implicit", "compressibility": 1e-3, "mayfail": True}


def scenarios():
    r = rng("c09")
    out = []
    for n in range(num(50, 500)):
        kw = dict(IMP, **radii(r))
        kw["surfaceDetection-numberDensity-threshold"] = r.choice([0.3, 0.6, 0.8, 0.9, 0.97, 1.05])
        kw["surfaceDetection-particleDistribution"] = r.random() < 0.75
        kw["surfaceDetection-particleDistribution-threshold"] = r.choice([0.0, 0.2, 0.5, 1.0, 2.0, 5.0])
        gen = r.choice([block, block, cloud])
        out.append(gen(r, "surf%d" % n, vmax=r.choice([0, 0.5]), collisionDistanceRatio=r.choice([0.0, 0.5]), **kw))
    # one-sided in exactly one direction, by exactly the threshold or just more; nobody around at all
    for n in range(num(30, 200)):
        dim = r.choice([2, 3])
        l0 = 0.5
        thr = r.choice([0.5, 1.0, 2.0])
        axis = r.randrange(dim)
        parts = []
        cx = [0.0, 0.0, 0.0]
        kind = r.choice(["eq", "more", "less", "alone", "balanced", "free"])
        # pairs of opposite neighbours cancel out; the last one decides
        nbs = []
        for a in range(dim):
            for d in (r.choice([0.375, 0.5, 0.625]),):
                e = [0.0] * 3
                e[a] = d
                nbs += [tuple(e), tuple(-q for q in e)]
        if kind == "alone":
            nbs = []
        elif kind != "balanced":
            want = thr * l0 * r.choice([1, -1])
            if kind == "more":
                want += math.copysign(1 / 64, want)
            if kind == "less":
                want -= math.copysign(1 / 64, want)
            if kind == "free":
                want = dyadic(r, -1.5, 1.5)
            # spread what is wanted on steps of at most 1
            while abs(want) > 1e-9:
                e = [0.0] * 3
                e[axis] = max(-1.0, min(1.0, want))
                if abs(e[axis]) < 0.25:
                    # split a short step into two that are not too close
                    nbs.append(tuple(0.75 if a == axis else 0.0 for a in range(3)))
                    e[axis] -= 0.75
                want -= max(-1.0, min(1.0, want))
                nbs.append(tuple(e))
        parts = [P(r.choice([FLUID, FLUID, WALL]), cx)]
        parts += [P(r.choice([FLUID, WALL, DUMMY]), e) for e in dict.fromkeys(nbs)]
        if len(nbs) != len(set(nbs)):
            continue
        r.shuffle(parts)
        out.append(Scenario("onesided%d-%s" % (n, kind), parts, exact=True, mayfail=True, dim=dim, particleDistance=l0, dt=0.125, endTime=0.1,
                            domainMin=[-2.0, -2.0, -2.0 if dim == 3 else 0.0], domainMax=[2.0, 2.0, 2.0 if dim == 3 else 0.0],
                            collisionDistanceRatio=0.0, pressureCalculationMethod="Implicit", compressibility=1e-2,
                            **{"surfaceDetection-numberDensity-threshold": 50.0, "surfaceDetection-particleDistribution": True,
                               "surfaceDetection-particleDistribution-threshold": thr,
                               "radiusRatioForNumberDensity": r.choice([1.75, 2.75]), "radiusRatioForGradient": 1.75,
                               "radiusRatioForLaplacian": r.choice([2.25, 2.75])}))
    # number densities that are exactly the threshold: particles at distances 1 of each other, a radius of 1.25, so that weights are 1/4 and n0 is 1 (3/2)
    for n in range(num(12, 60)):
        dim = r.choice([2, 3])
        pts = lattice(r, dim, (4, 4, 1) if dim == 2 else (3, 3, 3), 1.0, [0.0, 0.0, 0.0], holes=0.2)
        m = r.choice([1, 2, 3] if dim == 2 else [1, 2, 3, 4, 5])
        parts = [P(r.choice([FLUID] * 5 + [WALL, DUMMY]), p) for p in pts]
        sc = Scenario("tie%d" % n, parts, exact=True, mayfail=True, dim=dim, particleDistance=1.0, dt=0.125, endTime=0.1, collisionDistanceRatio=0.0, kinematicViscosity=0.0,
                      domainMin=[-2.0, -2.0, -2.0 if dim == 3 else 0.0], domainMax=[8.0, 8.0, 8.0 if dim == 3 else 0.0], gravity=[0.0, 0.0, 0.0],
                      pressureCalculationMethod="Implicit", compressibility=1e-2, radiusRatioForNumberDensity=1.25, radiusRatioForGradient=1.25, radiusRatioForLaplacian=1.25,
                      **{"surfaceDetection-numberDensity-threshold": (m / 4 if dim == 2 else m / 4 / 1.5), "surfaceDetection-particleDistribution": n % 3 == 0,
                         "surfaceDetection-particleDistribution-threshold": 0.5})
        # (thresholds that are no dyadic number in three dimensions are left to rounding)
        sc.exactnd = dim == 2 or m == 3
        out.append(sc)
    out += [sc for sc in long_runs(r, "surflong") if sc.settings["pressureCalculationMethod"] == "Implicit"]
    out.append(block(r, "surfbig", dim=2, counts=(num(18, 36), num(18, 36), 1), steps=2, **IMP))
    return out


def crossing(binary):
    """Runs in which a particle crosses a threshold from one step to the next, and ends up just beyond it.
    Without pressure the particles move the same way whatever their class, so a first run tells what there will be to cross."""
    r = rng("c09cross")
    out = []
    for n in range(num(20, 100)):
        dim = r.choice([2, 3])
        kw = dict(IMP, **radii(r))
        kw["surfaceDetection-particleDistribution"] = False
        kw["relaxationCoefficientForPressure"] = 0.0
        sc = r.choice([block, cloud])(r, "cross%d" % n, dim=dim, vmax=3.0, dt=0.01, steps=6, collisionDistanceRatio=0.0, **kw)
        rec = sim.record(binary, sc)
        try:
            snaps = [{k: [[float(a[1:]) for a in e] if k == "x" else e if k == "type" else float(e[1:]) for e in q[k]] for k in ("nd", "ratio", "x", "type")} for q in rec["snaps"]]
            sign = 1 if n % 4 < 2 else -1
            if n % 2:
                # the number density
                m = [(k, i) for k in range(2, len(snaps)) for i, t in enumerate(snaps[k]["type"]) if t in (FLUID, WALL)
                     and sign * (snaps[k]["ratio"][i] - snaps[k - 1]["ratio"][i]) > 1e-4]
                k, i = r.choice(m)
                a, b = snaps[k - 1]["ratio"][i], snaps[k]["ratio"][i]
                sc.settings["surfaceDetection-numberDensity-threshold"] = b + (a - b) * 10.0 ** r.uniform(-5, 0) * 0.9
            else:
                # the distribution
                re = max(sc.settings["radiusRatioFor" + w] for w in ("NumberDensity", "Gradient", "Laplacian")) * sc.settings["particleDistance"]

                def lean(q, i):
                    s = [0.0] * 3
                    for j, t in enumerate(q["type"]):
                        if j != i and t != GHOST and math.dist(q["x"][i], q["x"][j]) < re:
                            s = [s[a] + q["x"][j][a] - q["x"][i][a] for a in range(3)]
                    return max(map(abs, s)) / sc.settings["particleDistance"]
                m = [(k, i) for k in range(2, len(snaps)) for i, t in enumerate(snaps[k]["type"]) if t in (FLUID, WALL)]
                r.shuffle(m)
                k, i = next((k, i) for k, i in m if sign * (lean(snaps[k], i) - lean(snaps[k - 1], i)) > 1e-4)
                a, b = lean(snaps[k - 1], i), lean(snaps[k], i)
                sc.settings["surfaceDetection-numberDensity-threshold"] = 50.0
                sc.settings["surfaceDetection-particleDistribution"] = True
                sc.settings["surfaceDetection-particleDistribution-threshold"] = b + (a - b) * 10.0 ** r.uniform(-5, 0) * 0.9
        except (IndexError, KeyError, StopIteration, ValueError):
            pass
        out.append(sc)
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV)
    ctx.conform("free surface", scenarios() + crossing(env.mps_binary()), INV)
    r = rng("c09l")
    crowd = [sc for sc in late(r, "late") + big(r, "big") + big(r, "edge", **{"surfaceDetection-numberDensity-threshold": 1.2}) if sc.settings["pressureCalculationMethod"] == "Implicit"]
    ctx.conform("long runs and crowds", crowd, INV)
