"""C08: number density and its reference value."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "DensityConforms", "RatioConforms", "GhostDensityZero"]


def scenarios():
    r = rng("c08")
    out = []
    for n in range(num(40, 400)):
        kw = no_pressure(r)
        kw.update(radii(r))
        if r.random() < 0.3:
            kw.update({"radiusRatioForNumberDensity": r.choice([4.35, 5.2, 6.1, 1.25])})
        out.append(cloud(r, "nd%d" % n, mind=r.choice([0.3, 0.6, 0.8]), vmax=r.choice([0.0, 1.0, 10.0]), **kw))
    for n in range(num(10, 60)):
        out.append(block(r, "ndblock%d" % n, vmax=r.choice([0, 0.5]), **dict(no_pressure(r), **radii(r))))
    # particles that leave the domain after they have had neighbours
    for n in range(num(12, 80)):
        l0 = r.choice([1.0, 0.025])
        kw = no_pressure(r)
        kw.update(radii(r, 1.6, 4.0))
        sc = cloud(r, "ndleave%d" % n, l0=l0, n=r.randint(8, 24), mind=0.7, vmax=r.choice([3.0, 12.0]), steps=8, dt=0.02,
                   collisionDistanceRatio=0.0, **kw)
        for a in range(sc.settings["dim"]):
            sc.settings["domainMin"][a] = min(p.x[a] for p in sc.parts) - r.choice([0.05, 0.2]) * l0
            sc.settings["domainMax"][a] = max(p.x[a] for p in sc.parts) + r.choice([0.05, 0.2]) * l0
        out.append(sc)
    # exact distances, some of them exactly the radius
    for n in range(num(6, 30)):
        dim = r.choice([2, 3])
        pts = {tuple(r.randint(0, 12) / 4 for _ in range(dim)) + ((0.0,) if dim == 2 else ()) for _ in range(20)}
        parts = [P(r.choice([FLUID, FLUID, WALL, DUMMY]), p) for p in sorted(pts)]
        out.append(Scenario("ndexact%d" % n, parts, exact=True, dim=dim, domainMin=[-4.0, -4.0, 0.0], domainMax=[4.0, 4.0, 4.0],
                            collisionDistanceRatio=0.0, endTime=0.1,
                            radiusRatioForNumberDensity=r.choice([1.25, 1.5, 2.5]), radiusRatioForGradient=r.choice([1.5, 2.5]),
                            radiusRatioForLaplacian=r.choice([1.5, 2.5])))
    out += long_runs(r, "ndlong")
    out.append(cloud(r, "ndbig", dim=2, n=num(400, 1500), l0=0.4, steps=2, dt=0.01, mind=0.5, size=num(24, 46)))
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV)
    ctx.conform("number density", scenarios(), INV, minimum={"left": 30})
    r = rng("c08l")
    ctx.conform("long runs and crowds", late(r, "late") + big(r, "big"), INV)
