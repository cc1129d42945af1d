"""C12: pressure gradient correction."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "VelocityConforms", "PositionConforms"]


def scenarios():
    r = rng("c12")
    out = []
    for n in range(num(60, 600)):
        kw = radii(r, 1.6, 4.0)
        kw["kinematicViscosity"] = 0.0
        kw["collisionDistanceRatio"] = 0.0
        kw["rhos"] = r.choice([(None,), (None, 800.0, 1300.0)])
        kw["defaultDensity"] = r.choice([1000.0, 2.0])
        if r.random() < 0.5:
            kw.update({"pressureCalculationMethod": "Implicit", "compressibility": r.choice([1e-9, 1e-5]),
                       "surfaceDetection-numberDensity-threshold": r.choice([0.6, 0.9, 0.97]), "mayfail": True,
                       "relaxationCoefficientForPressure": 0.2, "dt": r.choice([0.01, 0.002])})
        else:
            kw.update({"pressureCalculationMethod": "Explicit", "soundSpeed": r.choice([0.5, 3.0]), "dt": 0.01})
        if r.random() < 0.7:
            out.append(block(r, "grad%d" % n, squeeze=r.choice([0.8, 0.9, 1.0]), vmax=r.choice([0, 0.5]), ghosts=2, **kw))
        else:
            out.append(cloud(r, "grad%d" % n, mind=0.5, size=r.choice([2.0, 3.0]), **kw))
    # particles that are almost at the same place
    for n in range(num(12, 60)):
        kw = radii(r, 1.6, 3.0)
        sc = block(r, "close%d" % n, squeeze=1.0, jitter=0.1, vmax=0.0, dt=0.001, steps=2, l0=1.0, collisionDistanceRatio=0.0, kinematicViscosity=0.0,
                   pressureCalculationMethod="Explicit", soundSpeed=r.choice([1e-3, 0.1]), **kw)
        for p in r.sample(sc.parts, 4):
            d = 10.0 ** r.uniform(-4, -1)
            u = [r.gauss(0, 1) if a < sc.settings["dim"] else 0.0 for a in range(3)]
            q = math.sqrt(sum(e * e for e in u))
            sc.parts.append(P(r.choice([FLUID, FLUID, WALL]), [p.x[a] + u[a] / q * d for a in range(3)], (0, 0, 0), rho=p.rho))
        out.append(sc)
    out += [burst(r, "gradburst%d" % n, pressureCalculationMethod=("Explicit", "Implicit")[n % 2], soundSpeed=r.choice([3.0, 100.0]), compressibility=1e-6, mayfail=n % 2 == 1)
            for n in range(num(8, 40))]
    out += long_runs(r, "gradlong", kinematicViscosity=0.0, collisionDistanceRatio=0.0)
    out.append(block(r, "gradbig", dim=2, counts=(num(18, 36), num(18, 36), 1), steps=2, dt=0.001, squeeze=0.9, soundSpeed=10.0,
                     kinematicViscosity=0.0, collisionDistanceRatio=0.0))
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV)
    ctx.conform("pressure gradient", scenarios(), INV, minimum={"pressed": 100, "pushed": 100})
    r = rng("c12l")
    ctx.conform("long runs and crowds", late(r, "late", collisionDistanceRatio=0.0) + big(r, "big", collisionDistanceRatio=0.0, kinematicViscosity=0.0), INV)
