"""C03: walls never move."""
from .. import laws
from ..scen import *
from . import c02, c07

INV = ["Shape", "Complete", "LoadedAsGiven", "WallsStayPut", "PROPERTY Conforms"]


def scenarios():
    r = rng("c03")
    out = []
    for n in range(num(40, 300)):
        l0 = r.choice([1.0, 0.025])
        kw = dict(c02.full(r), collisionDistanceRatio=r.choice([0.0, 0.5, 0.9, 1.5]),
                  coefficientOfRestitution=r.choice([0.0, 0.5, 1.0]),
                  kinematicViscosity=r.choice([0.0, 1.0]) * l0 * l0, gmax=r.choice([0.0, 20.0]))
        sc = r.choice([cloud, block])(r, "mix%d" % n, l0=l0, vmax=r.choice([0.5, 20.0]), dt=0.01, steps=r.choice([3, 10]), **kw)
        for p in sc.parts:
            if p.type == FLUID and r.random() < 0.3:
                p.type = r.choice([WALL, DUMMY])
        sc.fmt = r.choice(["csv", "vtu", "csv", "vtu", "prof"])
        sc.settings["particlesPath"] = "./input." + sc.fmt
        if sc.fmt == "prof":
            for p in sc.parts:
                p.rho, p.ft = None, 0
        out.append(sc)
    for n in range(num(10, 60)):
        sc = c07.pairs(r, "hit%d" % n, r.choice([2, 3]), 1.0, groups=(2, 3, 4), ratio=0.8)
        for p in sc.parts:
            if r.random() < 0.4:
                p.type = r.choice([WALL, DUMMY])
        out.append(sc)
    # forces and impulses beyond all measure
    for n in range(num(24, 200)):
        dim = r.choice([2, 3])
        e = r.choice([150, 300, 306])
        ext = {}
        m = n % 4
        if m == 0:
            # impulses that overflow, though nothing gets far
            ext = {"dt": 10.0 ** -(e + 1), "endTime": 2.5 * 10.0 ** -(e + 1)}
        elif m == 1:
            ext = {"coefficientOfRestitution": 10.0 ** e, "dt": 1e-3, "endTime": 2.5e-3}
        elif m == 2:
            ext = {"collisionDistanceRatio": 10.0 ** e, "dt": 1e-3, "endTime": 2.5e-3}
        else:
            ext = {"soundSpeed": 10.0 ** (e // 2), "kinematicViscosity": 10.0 ** e, "dt": 1e-3, "endTime": 2.5e-3}
        parts = []
        for p in lattice(r, dim, (3, 3, 1) if dim == 2 else (2, 2, 2), 0.45, [0.1, 0.2, 0.0], 0.1):
            t = r.choice([FLUID, WALL, DUMMY])
            u = vel(r, dim, 10.0 ** e if m == 0 else 2.0)
            parts.append(P(t, p, u if t == FLUID or r.random() < 0.3 and m else (0, 0, 0), rho=r.choice([None, 1e8, 1e300])))
        kw = dict({"collisionDistanceRatio": 0.9}, **ext)
        if r.random() < 0.3:
            kw.update({"pressureCalculationMethod": "Implicit", "compressibility": 1e-5, "mayfail": True})
        out.append(Scenario("beyond%d" % n, parts, dim=dim, density=True, domainMin=[-8.0, -8.0, -8.0 if dim == 3 else 0.0], domainMax=[8.0, 8.0, 8.0 if dim == 3 else 0.0], **kw))
    out.append(block(r, "wallslong", dim=2, l0=1.0, steps=num(300, 1500), dt=0.01, vmax=0.5, gravity=[0.0, -9.8, 0.0], mayfail=True,
                     pressureCalculationMethod="Implicit", ghosts=1, walls=True))
    out[-1].settings["gravity"] = [0.0, -9.8, 0.0]
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV, together=1, steps=3, exact=False, module="MPSHistory")
    ctx.conform("walls", scenarios(), INV, module="MPSHistory", minimum={"steps": 300})
