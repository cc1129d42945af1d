"""C11: explicit pressure follows the equation of state."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "ExplicitPressureConforms", "PressureNeverNegative", "PressureZeroWhereIgnored"]


def scenarios():
    r = rng("c11")
    out = []
    for n in range(num(50, 500)):
        kw = radii(r, 1.3, 4.0)
        kw["pressureCalculationMethod"] = "Explicit"
        kw["soundSpeed"] = r.choice([0.5, 3.0, 17.1])
        kw["surfaceDetection-numberDensity-threshold"] = r.choice([0.0, 0.3, 0.97, 100.0])
        kw["surfaceDetection-particleDistribution"] = r.random() < 0.5
        kw["surfaceDetection-particleDistribution-threshold"] = r.choice([0.0, 1.0, 5.0])
        kw["compressibility"] = r.choice([0.45e-9, 1e-2])
        kw["relaxationCoefficientForPressure"] = r.choice([0.2, 1.0])
        kw["collisionDistanceRatio"] = r.choice([0.0, 0.5])
        kw["rhos"] = r.choice([(None,), (None, 800.0, 1300.0, 0.5)])
        if r.random() < 0.6:
            out.append(block(r, "eos%d" % n, squeeze=r.choice([0.7, 0.85, 0.95, 1.0]), dt=0.001, **kw))
        else:
            out.append(cloud(r, "eos%d" % n, mind=0.4, dt=0.001, size=r.choice([2.0, 3.0]), **kw))
    # a lattice that is pressed, or drawn apart, by next to nothing
    for n in range(num(12, 60)):
        dim = r.choice([2, 3])
        sc = block(r, "slight%d" % n, dim=dim, counts=(7, 7, 1) if dim == 2 else (5, 5, 5), squeeze=1.0, jitter=0.0, vmax=0.0, dt=0.001, steps=2, l0=1.0,
                   radiusRatioForNumberDensity=r.choice([1.6, 2.1]), radiusRatioForGradient=1.6, radiusRatioForLaplacian=1.6,
                   pressureCalculationMethod="Explicit", soundSpeed=r.choice([1.0, 1e3]), collisionDistanceRatio=0.0)
        f = 1 - r.choice([1, -1, 1]) * 10.0 ** r.uniform(-8.5, -3)
        for p in sc.parts:
            p.x = tuple(a * f for a in p.x)
        out.append(sc)
    # a crowd that bursts: pressed hard in one step, and all apart in the next
    out += [burst(r, "burst%d" % n, pressureCalculationMethod="Explicit", soundSpeed=r.choice([3.0, 100.0])) for n in range(num(6, 40))]
    out += [sc for sc in long_runs(r, "eoslong") if sc.settings["pressureCalculationMethod"] == "Explicit"]
    out.append(block(r, "eosbig", dim=2, counts=(num(18, 36), num(18, 36), 1), steps=2, dt=0.001, squeeze=0.9, soundSpeed=10.0))
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV, collisionDistanceRatio=0.0)
    ctx.conform("equation of state", scenarios(), INV, minimum={"pressed": 100})
    r = rng("c11l")
    crowd = [sc for sc in late(r, "late") + big(r, "big") if sc.settings["pressureCalculationMethod"] == "Explicit"]
    ctx.conform("long runs and crowds", crowd, INV)
