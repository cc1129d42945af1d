"""C23: interactions conserve momentum and create no energy."""
from .. import env, laws, sim
from ..scen import *

INV = ["Shape", "Complete", "OnlyFluid", "MomentumKept", "CentreKept", "NoEnergyCreated", "ElasticKeepsEnergy"]


def scenarios():
    r = rng("c23")
    out = []
    for n in range(num(150, 1500)):
        what = r.choice(["viscosity", "collisions", "collisions", "both"])
        dim = r.choice([2, 3])
        l0 = r.choice([1.0, 0.025])
        kw = radii(r, 1.6, 3.6)
        kw.update(no_pressure(r))
        rhos = (1000.0, 400.0, 1700.0, None) if what != "both" else (r.choice([None, 800.0]),)
        k = r.choice([2, 3, 5, 12, 40])
        visc = {"viscosity": r.choice([0.1, 1.0]), "collisions": 0.0, "both": r.choice([0.1, 0.5])}[what] * l0 * l0
        cd = 0.0 if what == "viscosity" else r.choice([0.5, 0.8, 1.0, 1.5])
        # crowded, so that a particle collides with several others at once
        sc = cloud(r, "%s%d" % (what, n), dim=dim, n=k, mind=r.choice([0.35, 0.2]) if cd else 0.5, l0=l0, size=r.choice([1.0, 1.4, 2.0]) * (k / 0.9) ** (1.0 / dim) * 0.7,
                   vmax=r.choice([0.5, 5.0]), weights=(0, 1, 0, 0), steps=r.choice([1, 3, 6]), dt=0.01, gmax=r.choice([0, 3.0]), rhos=rhos,
                   kinematicViscosity=visc, collisionDistanceRatio=cd, coefficientOfRestitution=r.choice([0.0, 0.2, 0.5, 1.0]), **kw)
        lo, hi = sc.settings["domainMin"], sc.settings["domainMax"]
        # (in depth as well: the csv reader may round a coordinate)
        for a in range(3):
            lo[a] -= 20 * l0
            hi[a] += 20 * l0
        sc.what = what
        if n % 3 == 0:
            # some pairs right on top of each other, apart by almost nothing
            p = r.choice(sc.parts)
            x = [p.x[a] + r.uniform(-1, 1) * 1e-3 * l0 * (a < dim) for a in range(3)]
            sc.parts.append(P(FLUID, x, vel(r, dim, l0), rho=p.rho))
        out.append(sc)
    return out


def check(ctx):
    laws.run(ctx)
    binary = env.mps_binary()

    def rec(scs):
        recs = sim.record_all(binary, scs)
        for x, sc in zip(recs, scs):
            x["what"] = sc.what
        return recs
    # every setup of the laws, without viscosity, and those of one density with it
    scs = []
    for f in laws.families("C23", env.THOROUGH):
        for nu in (0.0, 0.25):
            for sc in laws.scenarios(f[0].replace(" ", "-"), f[1], 1, 2, soundSpeed=0.0, kinematicViscosity=nu):
                if nu == 0.0 or len({p.rho for p in sc.parts}) == 1:
                    sc.what = "both" if nu else "collisions"
                    scs.append(sc)
    ctx.cov["setups_replayed"] = len(scs)
    ctx.conform("all setups of the laws", scs, INV, module="MomentumTrace", record=rec, minimum={"collided": 200})
    ctx.conform("fluid far from walls", scenarios(), INV, module="MomentumTrace", record=rec, minimum={"collided": 30})
