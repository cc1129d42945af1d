"""C18: CFL violations are reported."""
from ..scen import *

INV = ["Shape", "Complete", "CourantPrinted", "CflReported"]


def scenarios():
    r = rng("c18")
    out = []
    for n in range(num(40, 300)):
        l0 = r.choice([1.0, 0.025, 0.4])
        dt = r.choice([0.01, 0.1])
        cfl = r.choice([0.3, 0.05, 1.0, 0.0])
        # speeds around the limit; walls may be faster
        v = max(cfl, 0.01) * l0 / dt * r.choice([0.3, 0.8, 1.5])
        kw = dict(radii(r), cflCondition=cfl, collisionDistanceRatio=r.choice([0.0, 0.5]))
        if r.random() < 0.5:
            kw.update(soundSpeed=r.choice([0.0, 0.05]) * l0 / dt)
        sc = cloud(r, "cfl%d" % n, l0=l0, dt=dt, vmax=v / l0, steps=r.choice([1, 4, 8]),
                   weights=r.choice([(1, 6, 2, 1), (1, 1, 3, 2), (1, 0, 3, 2)]), gmax=r.choice([0.0, 0.2 * v / l0 / dt]), **kw)
        for p in sc.parts:
            if p.type != FLUID and r.random() < 0.5:
                p.v = tuple(a * 5 for a in p.v)
        out.append(sc)
    out += long_runs(r, "long", cflCondition=0.03)
    # exactly at the limit, and just above it
    for n in range(num(12, 48)):
        dim = r.choice([2, 3])
        axis = r.randrange(dim)
        v = [0.0] * 3
        v[axis] = r.choice([1, -1]) * (0.5 if n % 2 else 0.5 + 1 / 1024) * 1.0 / 0.125
        parts = [P(FLUID, (0, 0, 0), v), P(WALL, (5, 5, 0), (9, 9, 0)), P(FLUID, (-5, 5, 0), [a / 2 for a in v])]
        out.append(Scenario("limit%d" % n, parts, exact=True, dim=dim, cflCondition=0.5, dt=0.125, endTime=0.2,
                            domainMin=[-16.0] * 3, domainMax=[16.0] * 3))
    # no particles, no fluid
    out.append(Scenario("nobody", [], cflCondition=0.5, endTime=0.3))
    out.append(Scenario("nofluid", [P(WALL, (0, 0, 0), (99, 0, 0)), P(GHOST, (1, 0, 0), (99, 0, 0))], cflCondition=0.5, endTime=0.3))
    # over the limit in some steps only: a fast particle leaves the domain; one that falls
    out.append(Scenario("leaves", [P(FLUID, (15, 0, 0), (16, 0, 0)), P(FLUID, (0, 0, 0), (0.1, 0, 0))], cflCondition=0.5, endTime=0.9))
    out.append(Scenario("falls", [P(FLUID, (0, 0, 0), (0, 6, 0))], cflCondition=0.3, endTime=1.9, gravity=[0.0, -8.0, 0.0]))
    return out


def crowds():
    """The fastest particle is one of more than a thousand, in each place once; and many steps beyond the limit."""
    r = rng("c18c")
    out = late(r, "late", cflCondition=0.0, g=3.0)
    for n in range(num(4, 16)):
        sc = block(r, "crowd%d" % n, dim=2, counts=(36, 36, 1), l0=1.0, jitter=0.05, steps=1, dt=0.1, vmax=1.0, cflCondition=0.5, soundSpeed=0.0, kinematicViscosity=0.0,
                   collisionDistanceRatio=0.0, pressureCalculationMethod="Explicit", ghosts=2)
        r.shuffle(sc.parts)
        fluid = [p for p in sc.parts if p.type == FLUID]
        p = fluid[[-1, 0, len(fluid) // 2, r.randrange(len(fluid))][n % 4]]
        p.v = (7.0 * r.choice([1, -1]), 0.5, 0.0)
        out.append(sc)
    return out


def check(ctx):
    ctx.conform("courant", scenarios() + crowds(), INV)
