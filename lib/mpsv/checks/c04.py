"""C04: particles are conserved and keep their identity."""
from .. import env, laws, sim
from ..scen import *
from . import c02

INV = ["Shape", "Complete", "LoadedAsGiven", "TypesKept", "FluidTypesKept", "GhostsStay", "AllFormatsList", "PROPERTY Conforms"]


def scenarios():
    r = rng("c04")
    out = []
    for n in range(num(50, 300)):
        l0 = r.choice([1.0, 0.025])
        kw = dict(c02.full(r), collisionDistanceRatio=r.choice([0.0, 0.5, 0.9]),
                  kinematicViscosity=r.choice([0.0, 1.0]) * l0 * l0, gmax=r.choice([0.0, 50.0]))
        sc = r.choice([cloud, cloud, block])(r, "mix%d" % n, l0=l0, vmax=r.choice([0.5, 20.0]), dt=0.01, steps=r.choice([3, 10]), **kw)
        sc.fmt = r.choice(["csv", "prof", "vtu"])
        sc.settings["particlesPath"] = "./input." + sc.fmt
        for p in sc.parts:
            p.ft = r.choice([0, 1, 2, 7, 100, -1])
            if r.random() < 0.1:
                p.type = GHOST
        if r.random() < 0.5:
            # narrower than the cloud
            for key, s in (("domainMin", 1), ("domainMax", -1)):
                if r.random() < 0.5:
                    q = sorted(p.x[0] for p in sc.parts)[:: s][len(sc.parts) // 4]
                    sc.settings[key] = [q] + list(sc.settings[key][1:])
        out.append(sc)
    for fmt in ("csv", "prof", "vtu"):
        out.append(Scenario("none-" + fmt, [], fmt=fmt, endTime=0.3, density=False))
        out.append(Scenario("one-" + fmt, [P(FLUID, (1, 2, 0), (1, 0, 0), ft=4)], fmt=fmt, endTime=0.3, density=False))
        out.append(Scenario("ghosts-" + fmt, [P(GHOST, (i, 2, 0), (1, 0, 0), ft=i) for i in range(5)], fmt=fmt, endTime=0.3, density=False))
        # ghosts at rest, at either end and in between
        still = [P(GHOST, (i, 2, 0), ft=i) for i in range(3)]
        out.append(Scenario("still-" + fmt, [P(GHOST, (9, 9, 9)), *still, P(FLUID, (5, 0, 0), (1, 0, 0)), P(DUMMY, (7, 0, 0)), P(WALL, (9, 0, 0)), *still], fmt=fmt, endTime=0.3, density=False))
        # particles in the same place: what becomes of them may not be a number, but they are still listed
        for k, method in enumerate(("Explicit", "Implicit")):
            parts = [P(FLUID, (0, 0, 0), (1, 0, 0), ft=1), P(FLUID, (5, 0, 0), (0, 0, 0), ft=2), P(FLUID, (0, 0, 0), (0, 0, 0), ft=3),
                     P(WALL, (5, 0, 0), (0, 0, 0), ft=4), P(FLUID, (-5, 3, 0), (0, 0, 0), ft=5)]
            out.append(Scenario("same-place-%s-%s" % (method, fmt), parts, fmt=fmt, endTime=0.3, density=False, mayfail=True, kinematicViscosity=0.5,
                                pressureCalculationMethod=method, soundSpeed=1.0))
    sc = cloud(r, "big", dim=2, n=num(1200, 3000), l0=0.4, steps=2, dt=0.01, collisionDistanceRatio=0.0, mind=0.3, size=num(40, 60), fts=50)
    out.append(sc)
    return out


def check(ctx):
    laws.run(ctx)
    ctx.conform("conservation", scenarios(), INV, module="MPSHistory", record=lambda scs: sim.record_all(env.mps_binary(), scs, texts=True), minimum={"left": 50})
