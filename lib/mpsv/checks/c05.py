"""C05: free motion follows gravity."""
from .. import scen
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "LoadedAsGiven", "VelocityConforms", "PositionConforms", "TypesConform"]


def scenarios():
    out = []
    r = rng("c05")
    for n in range(num(24, 160)):
        dim = r.choice([2, 3])
        l0 = r.choice([1.0, 0.025, 0.4])
        method = r.choice(["Implicit", "Explicit"])
        reach = 3.1 * l0
        half = 14 * l0
        off = [r.uniform(-3, 3) * l0 for _ in range(3)]
        lo = [off[a] - half for a in range(3)]
        hi = [off[a] + half * r.choice([1, 1.5]) for a in range(3)]
        # a 2D run may have room in z, and gravity in z
        deep = dim == 2 and n % 4 == 1
        if deep:
            lo[2], hi[2] = -half, half
        elif dim == 2:
            lo[2] = hi[2] = 0.0
        # each particle stays in a cell of its own, so that none influences another
        cells = [(a, b, e) for a in range(3) for b in range(3) for e in (range(3) if dim == 3 else [0])]
        r.shuffle(cells)
        parts = []
        pitch = 9 * l0
        for a, b, e in cells[:r.randint(3, 9)]:
            base = [off[0] + (a - 1) * pitch, off[1] + (b - 1) * pitch, off[2] + (e - 1) * pitch if dim == 3 else 0.0]
            x = [base[i] + r.uniform(-0.4, 0.4) * l0 for i in range(2)] + [base[2]]
            t = r.choice([FLUID, FLUID, FLUID, WALL, DUMMY, GHOST])
            v = [r.uniform(-1, 1) * l0 for _ in range(2)] + [r.uniform(-1, 1) * l0 if dim == 3 else 0.0]
            parts.append(P(t, x, v, ft=r.randint(0, 3), rho=r.choice([None, 500.0, 1000.0, 1300.0])))
        dt = r.choice([0.01, 0.125, 0.003])
        steps = r.choice([1, 3, 12])
        # the particle shall not travel further than its cell
        g = [r.uniform(-1, 1) * l0 / (dt * steps) ** 2 * r.choice([0.5, 0.05]) for _ in range(3)]
        if dim == 2 and not deep:
            g[2] = 0.0
        kw = {}
        if not deep and r.random() < 0.5:
            kw.update({"xyz-input": False, "gravity-norm": math.hypot(g[0], g[1]),
                       "gravity-angle": r.choice([0.0, 30.0, 45.0, 90.0, -60.0, 135.0, 180.0, r.uniform(-360, 360)])})
        elif r.random() < 0.5:
            # the norm and the angle are there, but not asked for
            kw.update({"xyz-input": True, "gravity-norm": 3.5, "gravity-angle": 20.0})
        out.append(Scenario("free%d" % n, parts, t0=r.choice([0.0, 1.5]), dim=dim, particleDistance=l0, dt=dt,
                            endTime=0.0, domainMin=lo, domainMax=hi, gravity=g,
                            pressureCalculationMethod=method, soundSpeed=20.0, kinematicViscosity=0.5,
                            coefficientOfRestitution=0.3, **kw))
        s = out[-1]
        s.settings["endTime"] = s.t0 + (steps - 0.5) * dt
    return out


def everywhere():
    """More than a thousand particles alone, each far from the others; the last ones fly, too.  And long flights."""
    r = rng("c05e")
    out = []
    for dim in (2, 3):
        side = 36 if dim == 2 else 11
        parts = [P(FLUID, (6.0 * a, 6.0 * b, 6.0 * c), vel(r, dim, 1.0), ft=a % 3) for a in range(side) for b in range(side) for c in range(1 if dim == 2 else side)]
        r.shuffle(parts)
        far = 6.0 * side
        out.append(Scenario("everywhere%d" % dim, parts, dim=dim, particleDistance=1.0, dt=0.01, endTime=0.015, domainMin=[-6.0] * 3, domainMax=[far] * 3,
                            gravity=[0.5, -9.8, 0.25 if dim == 3 else 0.0], pressureCalculationMethod=["Explicit", "Implicit"][dim - 2]))
    dt, steps = 1.0 / 1024, num(4200, 12000)
    deep = -64.0 if steps < 5000 else -512.0
    out.append(Scenario("long flight", [P(FLUID, (0, 0, 0), (1, 6, 0)), P(FLUID, (30, 0, 0), (0, 4, 0)), P(WALL, (60, 9, 0), (3, 3, 3))], dim=2, particleDistance=1.0, dt=dt,
                        endTime=(steps - 0.5) * dt, domainMin=[-64.0, deep, 0.0], domainMax=[128.0, 64.0, 0.0], gravity=[0.25, -3.0, 0.0], timeout=300))
    return out


def fast():
    """Free motion at any speed: up to many particle distances in a step, along a long domain."""
    out = []
    r = rng("c05fast")
    for n in range(num(8, 40)):
        dim = r.choice([2, 3])
        axis = r.randrange(dim)
        l0 = r.choice([1.0, 0.025])
        dt = r.choice([0.01, 0.125])
        steps = r.choice([2, 6])
        far = r.choice([3.0, 30.0, 300.0, 3000.0, 10000.0])
        lo = [-30.0 * l0] * dim + [0.0] * (3 - dim)
        hi = [30.0 * l0] * dim + [0.0] * (3 - dim)
        lo[axis], hi[axis] = -(steps + 4) * far * l0 * 2, (steps + 4) * far * l0 * 2
        parts = []
        for k, t in enumerate([FLUID, FLUID, WALL, FLUID, DUMMY, GHOST]):
            x = [0.0] * 3
            x[(axis + 1) % dim] = (k - 2.5) * 9 * l0
            x[axis] = r.uniform(-3, 3) * l0
            v = [0.0] * 3
            v[axis] = r.choice([-1, 1]) * r.uniform(0.3, 1) * far * l0 / dt
            parts.append(P(t, x, v))
        g = [0.0] * 3
        g[axis] = r.uniform(-0.5, 0.5) * far * l0 / dt / dt / steps
        out.append(Scenario("fast%d" % n, parts, dim=dim, particleDistance=l0, dt=dt, endTime=(steps - 0.5) * dt, domainMin=lo, domainMax=hi, gravity=g,
                            pressureCalculationMethod=r.choice(["Implicit", "Explicit"]), soundSpeed=20.0, kinematicViscosity=0.5, cflCondition=r.choice([0.2, 1e9])))
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV, together=1, steps=3)
    ctx.conform("free", scenarios() + fast() + everywhere(), INV)
