"""C06: the viscosity term is the MPS Laplacian of the velocity."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "VelocityConforms"]


def scenarios():
    r = rng("c06")
    out = []
    for n in range(num(40, 400)):
        kw = no_pressure(r)
        kw.update(radii(r))
        l0 = r.choice([1.0, 0.025, 0.4])
        dt = r.choice([0.01, 0.02])
        # strong enough to be seen, weak enough to keep the particles together
        kw["kinematicViscosity"] = r.choice([0.02, 0.3]) * l0 * l0 / dt
        out.append(cloud(r, "visc%d" % n, l0=l0, dt=dt, collisionDistanceRatio=0.0, coefficientOfRestitution=r.random(),
                         gmax=r.choice([0, 5.0]), vmax=r.choice([0.5, 2.0]), **kw))
    # very slow and very fast, very small and very large
    for n in range(num(12, 60)):
        l0 = [1e-9, 1e-4, 1e4, 1e8][n % 4]
        kw = no_pressure(r)
        kw.update(radii(r))
        dt = r.choice([0.01, 4.0])
        kw["kinematicViscosity"] = r.choice([0.02, 0.3]) * l0 * l0 / dt
        out.append(cloud(r, "viscunits%d" % n, l0=l0, dt=dt, collisionDistanceRatio=0.0, vmax=r.choice([0.5, 2.0]) * 0.01 / dt, **kw))
    # viscosity 0, and one long run
    out.append(cloud(r, "visczero", collisionDistanceRatio=0.0, soundSpeed=0.0, kinematicViscosity=0.0))
    out.append(cloud(r, "visclong", dim=2, n=20, l0=1.0, steps=num(60, 300), dt=0.01, vmax=0.3, collisionDistanceRatio=0.0,
                     soundSpeed=0.0, kinematicViscosity=1.0))
    out.append(cloud(r, "viscbig", dim=2, n=num(400, 1500), l0=0.4, steps=2, dt=0.01, collisionDistanceRatio=0.0,
                     soundSpeed=0.0, kinematicViscosity=0.5, mind=0.5, size=num(24, 46)))
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV, exact=False)
    r = rng("c06l")
    ctx.conform("viscosity", scenarios(), INV)
    # viscosity alone, so that nothing else hides what it does
    ctx.conform("long runs and crowds", late(r, "late", kinematicViscosity=0.05, collisionDistanceRatio=0.0) + big(r, "big", kinematicViscosity=0.3, soundSpeed=0.0), INV)
