"""C07: collision law."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "VelocityConforms", "PositionConforms"]


def pairs(r, name, dim, l0, exact=False, groups=(2,), ratio=0.5, grid=3, **kw):
    """Small groups of close particles, each group out of reach of the others."""
    parts = []
    cd = ratio * l0
    pitch = 8 * l0
    dt = kw.pop("dt", 1 / 64)
    for cell in itertools.product(range(grid), repeat=2):
        base = (cell[0] * pitch, cell[1] * pitch, 0.0)
        n = r.choice(groups)
        v0 = [dyadic(r, -1, 1, 8) * l0 for _ in range(2)] + [dyadic(r, -1, 1, 8) * l0 if dim == 3 else 0.0]
        grp = []
        while len(grp) < n:
            if exact:
                axis = r.randrange(dim)
                # the pair lies along an axis and moves along it, so that every number is exact
                d = cd * r.choice([1, 1, 1 + 1 / 64, 1 - 1 / 64, 0.5])
                for m in range(n):
                    x = [base[a] + (m * d if a == axis else 0.0) for a in range(3)]
                    # after the prediction step the distance is d again if both have the same velocity
                    grp.append([x, list(v0)])
                rel = r.choice([0, 0, 1, -1]) * r.randint(1, 8) / 4 * l0
                grp[-1][1][axis] += rel
                grp[-1][0][axis] -= rel * dt
            elif not grp:
                grp.append([[base[a] + (r.uniform(-1, 1) * l0 if a < dim else 0.0) for a in range(3)], list(vel(r, dim, l0))])
            else:
                f = r.choice(grp)[0]
                th = [r.gauss(0, 1) if a < dim else 0.0 for a in range(3)]
                q = math.sqrt(sum(e * e for e in th)) or 1.0
                d = cd * r.uniform(0.35, 1.3)
                x = [f[a] + th[a] / q * d for a in range(3)]
                if all(math.dist(x, g[0]) > 0.3 * cd for g in grp):
                    grp.append([x, list(vel(r, dim, r.choice([0.0, 1.0, 4.0]) * l0))])
        for x, v in grp:
            parts.append(P(r.choice([FLUID] * 5 + [WALL, DUMMY, GHOST]), x, v,
                           rho=r.choice([None, 500.0, 1000.0, 2000.0, 250.0])))
    r.shuffle(parts)
    lo, hi = box(r, dim, l0, [p.x for p in parts])
    steps = r.choice([1, 2, 4])
    s = dict(dim=dim, particleDistance=l0, dt=dt, endTime=(steps - 0.5) * dt, domainMin=lo, domainMax=hi,
             collisionDistanceRatio=ratio, coefficientOfRestitution=r.choice([0.0, 0.2, 0.5, 1.0]))
    s.update(no_pressure(r))
    s.update(kw)
    return Scenario(name, parts, exact=exact, **s)


def scenarios():
    r = rng("c07")
    out = []
    for n in range(num(24, 240)):
        out.append(pairs(r, "pair%d" % n, r.choice([2, 3]), r.choice([1.0, 0.025, 0.4]), groups=(2,), ratio=r.choice([0.5, 0.9, 0.3])))
    for n in range(num(16, 160)):
        out.append(pairs(r, "exact%d" % n, r.choice([2, 3]), r.choice([1.0, 0.5]), exact=True, groups=(2,), ratio=0.5))
    for n in range(num(20, 200)):
        out.append(pairs(r, "group%d" % n, r.choice([2, 3]), r.choice([1.0, 0.025]), groups=(2, 3, 3, 4), ratio=r.choice([0.5, 0.8])))
    for n in range(num(12, 60)):
        out.append(pairs(r, "units%d" % n, r.choice([2, 3]), [1e-6, 1e3, 1e-3, 1e6][n % 4], groups=(2, 3, 4), ratio=r.choice([0.5, 0.8])))
    # the collision distance is the largest of all radii, or as large as the particle distance
    for n in range(num(4, 40)):
        out.append(pairs(r, "far%d" % n, r.choice([2, 3]), 1.0, groups=(2, 3), ratio=1.1,
                         radiusRatioForNumberDensity=1.3, radiusRatioForGradient=1.2, radiusRatioForLaplacian=1.25))
    out += long_runs(r, "long", collisionDistanceRatio=0.9, coefficientOfRestitution=0.5, soundSpeed=0.0, kinematicViscosity=0.0,
                     **{"surfaceDetection-numberDensity-threshold": 1e6, "surfaceDetection-particleDistribution": False})
    # many pairs at once
    out.append(pairs(r, "many", 2, 1.0, groups=(2,), grid=num(10, 24)))
    return out


def crowds():
    """Isolated pairs in the middle of hundreds of neighbours, among many particles, and after many steps."""
    r = rng("c07c")
    out = [sc for sc in big(r, "big", soundSpeed=0.0, kinematicViscosity=0.0, coefficientOfRestitution=0.5) if sc.settings["pressureCalculationMethod"] == "Explicit"]
    for sc in out:
        l0 = sc.settings["particleDistance"]
        some = [p for p in sc.parts if p.type == FLUID]
        for p in r.sample(some, 14):
            sc.parts.insert(r.randint(0, len(sc.parts)), P(FLUID, (p.x[0] + 0.42 * l0, p.x[1], p.x[2]), (p.v[0] - r.choice([2.0, -1.0]) * l0, p.v[1], p.v[2]), rho=900.0))
    out += late(r, "late", collisionDistanceRatio=0.96, coefficientOfRestitution=0.3, soundSpeed=0.0, g=3.0,
                **{"surfaceDetection-numberDensity-threshold": 1e6, "surfaceDetection-particleDistribution": False})
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV, soundSpeed=0.0)
    ctx.conform("collisions", scenarios(), INV, minimum={"pairs": 200, "groups": 10})
    ctx.conform("long runs and crowds", crowds(), INV)
