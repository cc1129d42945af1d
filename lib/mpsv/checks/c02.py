"""C02: leaving the domain is permanent and isolating."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "TypesConform", "WarningsConform", "VelocityConforms", "PositionConforms",
       "DensityConforms", "GhostDensityZero", "PressureZeroWhereIgnored",  "BoundaryConforms", "ImplicitPressureConforms",
       "ExplicitPressureConforms"]


def full(r):
    kw = radii(r, 1.6, 4.0)
    if r.random() < 0.5:
        kw.update({"pressureCalculationMethod": "Implicit", "compressibility": 1e-5, "mayfail": True,
                   "surfaceDetection-numberDensity-threshold": r.choice([0.6, 0.9, 0.97])})
    else:
        kw.update({"soundSpeed": 1.0})
    return kw


def scenarios():
    r = rng("c02")
    out = []
    # clouds that overlap the border of the domain, and stream out of it
    for n in range(num(40, 400)):
        l0 = r.choice([1.0, 0.025])
        sc = cloud(r, "leave%d" % n, l0=l0, n=r.randint(8, 30), mind=0.7, vmax=r.choice([2.0, 20.0]), steps=r.choice([3, 6]),
                   dt=0.01, collisionDistanceRatio=r.choice([0.0, 0.5]), kinematicViscosity=r.choice([0.0, 1.0]) * l0 * l0,
                   gmax=r.choice([0.0, 50.0]), weights=(2, 6, 2, 1), **full(r))
        lo, hi = list(sc.settings["domainMin"]), list(sc.settings["domainMax"])
        for a in range(sc.settings["dim"]):
            xs = sorted(p.x[a] for p in sc.parts)
            if r.random() < 0.6:
                lo[a] = xs[r.randint(0, len(xs) // 3)] - r.choice([0.1, 0.01, 1e-3]) * l0
            if r.random() < 0.6:
                hi[a] = xs[-1 - r.randint(0, len(xs) // 3)] + r.choice([0.1, 0.01, 1e-3]) * l0
        sc.settings["domainMin"], sc.settings["domainMax"] = lo, hi
        out.append(sc)
    # every face, edge and corner: exactly on it, just inside, just outside, crossing by one step of prediction
    for dim in (2, 3):
        parts = []
        faces = list(itertools.product((-1, 0, 1), repeat=dim))
        for f in faces:
            for d in (0.0, 1 / 1024, -1 / 1024):
                x = [f[a] * (24.0 + d) if a < dim else 0.0 for a in range(3)]
                parts.append((x, f))
        for t in (FLUID, WALL, DUMMY, GHOST):
            sel = parts[:]
            r.shuffle(sel)
            ps = []
            for x, f in sel:
                if all(math.dist(x, p.x) > 4 for p in ps):
                    ps.append(P(t, x, (0, 0, 0)))
            for m in range(num(4, 12)):
                ps2 = [P(p.type, p.x, [r.choice([0, 0, 1, -1]) * (1 / 64 if a < dim else 0) for a in range(3)]) for p in ps]
                r.shuffle(ps2)
                out.append(Scenario("faces%dd-%d-%d" % (dim, t, m), ps2, exact=True, dim=dim, dt=1 / 16, endTime=0.3,
                                    domainMin=[-24.0, -24.0, -24.0 if dim == 3 else 0.0], domainMax=[24.0, 24.0, 24.0 if dim == 3 else 0.0],
                                    **r.choice([{}, {"pressureCalculationMethod": "Implicit", "compressibility": 1e-3}])))
            # each face site once, alone
        for f in faces:
            for d in (0.0, 1 / 1024, -1 / 1024):
                if f.count(0) == dim:
                    continue
                x = [f[a] * (24.0 + d) if a < dim else 0.0 for a in range(3)]
                y = [f[a] * 22.0 if a < dim else 0.0 for a in range(3)]
                out.append(Scenario("face%s%g" % (f, d), [P(FLUID, x), P(FLUID, y), P(WALL, [a / 2 for a in y])], exact=True, dim=dim, dt=1 / 16, endTime=0.1,
                                    domainMin=[-24.0, -24.0, -24.0 if dim == 3 else 0.0], domainMax=[24.0, 24.0, 24.0 if dim == 3 else 0.0]))
    # a collision pushes a particle out
    for m in range(num(8, 40)):
        ax = r.randrange(2)
        sg = r.choice([-1, 1])
        x = [0.0, 0.0, 0.0]
        y = [0.0, 0.0, 0.0]
        x[ax], y[ax] = sg * 15.9, sg * 15.6
        v = [0.0, 0.0, 0.0]
        v[ax] = sg * r.choice([0.0, 1.0])
        out.append(Scenario("pushed%d" % m, [P(FLUID, x), P(FLUID, y, v), P(FLUID, (0, 0, 0))], dt=1 / 64, endTime=0.1,
                            kinematicViscosity=0.1))
    return out


def exodus():
    """More than a thousand leave, most of them in one step; particles leave after a thousand steps, when ghosts have been there for long."""
    r = rng("c02x")
    out = []
    for dim, side in ((2, 40), (3, 12)):
        parts = []
        for p in lattice(r, dim, (side, side, side if dim == 3 else 1), 0.7, [-0.35 * side, -0.35 * side, -0.35 * side if dim == 3 else 0.0], 0.05):
            q = [r.choice([0.0, 40.0, 90.0]) * a for a in p]
            parts.append(P(r.choice([FLUID] * 12 + [GHOST, WALL, DUMMY]), p, tuple(q), ft=r.randint(0, 3)))
        h = 0.5 * side
        out.append(Scenario("exodus%d" % dim, parts, dim=dim, dt=0.02, endTime=0.05, domainMin=[-h, -h, -h if dim == 3 else 0.0], domainMax=[h, h, h if dim == 3 else 0.0],
                            collisionDistanceRatio=0.0, pressureCalculationMethod="Explicit", soundSpeed=0.0))
    for method in ("Explicit", "Implicit"):
        out.append(tank(r, "tank" + method, 1040, window=1000, leaving=[30, 300, 600, 999, 1005, 1039], pressureCalculationMethod=method))
    return out


def undefined():
    """Particles whose position stops being a number."""
    r = rng("c02nan")
    out = []
    for n in range(num(16, 80)):
        dim = r.choice([2, 3])
        sc = cloud(r, "nan%d" % n, dim=dim, l0=1.0, n=r.randint(3, 12), vmax=r.choice([0, 0.5]), steps=r.choice([3, 5]),
                   kinematicViscosity=1.0, soundSpeed=r.choice([0.0, 1.0]), weights=(1, 6, 1, 1))
        for _ in range(r.randint(1, 3)):
            # someone at the same place
            p = r.choice(sc.parts)
            sc.parts.insert(r.randint(0, len(sc.parts)), P(r.choice([FLUID, FLUID, WALL]), p.x, p.v if r.random() < 0.5 else (0.1, 0.2, 0)))
        out.append(sc)
    for n in range(4):
        v = [0.0, 0.0, 0.0]
        v[n % 2] = (1e308, -1e308)[n // 2]
        out.append(Scenario("overflow%d" % n, [P(FLUID, (0, 0, 0), v), P(FLUID, (3, 0, 0)), P(WALL, (0, 3, 0))],
                            dt=4.0, endTime=18.0))
    return out


INV_NAN = ["Shape", "Complete", "GhostsStay", "TypesKept", "OutsideBecomesGhost", "WarningsInAll", "PROPERTY Conforms"]


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV, together=1, kinematicViscosity=0.0, collisionDistanceRatio=0.0)
    laws.replay(ctx, INV_NAN, together=1, steps=3, exact=False, module="MPSHistory")
    gone = exodus()
    ctx.conform("histories", undefined() + scenarios() + gone, INV_NAN, module="MPSHistory")
    ctx.conform("leaving", scenarios() + gone[:2], INV, minimum={"left": 1500})
