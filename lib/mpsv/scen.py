"""Generators of scenarios. Random choices come from VERIF_SEED; no judgement in here."""
import itertools, math, random
from . import env
from .sim import P, Scenario

GHOST, FLUID, WALL, DUMMY = 0, 1, 2, 3


def rng(name):
    return random.Random("%d/%s" % (env.SEED, name))


def num(n_quick, n_thorough):
    return n_thorough if env.THOROUGH else n_quick


def dyadic(r, lo, hi, den=64):
    """A random multiple of 1/den."""
    return r.randint(int(lo * den), int(hi * den)) / den


def spread(r, n, dim, lo, hi, mind, tries=4000, avoid=()):
    """n random points in the box [lo, hi], no two closer than mind."""
    pts = []
    for _ in range(tries):
        if len(pts) == n:
            break
        p = tuple(r.uniform(lo[a], hi[a]) for a in range(dim)) + ((lo[2],) if dim == 2 else ())
        if all(math.dist(p, q) >= mind for q in pts) and all(math.dist(p, q) >= mind for q in avoid):
            pts.append(p)
    return pts


def vel(r, dim, v):
    return tuple(r.uniform(-v, v) for _ in range(dim)) + ((0.0,) if dim == 2 else ())


def lattice(r, dim, counts, l0, origin, jitter=0.0, holes=0.0):
    pts = []
    for idx in itertools.product(*[range(k) for k in (counts if dim == 3 else counts[:2])]):
        if r.random() < holes:
            continue
        p = [origin[a] + l0 * idx[a] + r.uniform(-jitter, jitter) * l0 for a in range(dim)]
        if dim == 2:
            p.append(origin[2])
        pts.append(tuple(p))
    return pts


def box(r, dim, l0, pts, margin=(2.0, 6.0)):
    """A domain around the points with its faces somewhere off."""
    lo, hi = [], []
    for a in range(3):
        if dim == 2 and a == 2:
            z = pts[0][2] if pts else 0.0
            lo.append(z)
            hi.append(z)
            continue
        lo.append(min(p[a] for p in pts) - r.uniform(*margin) * l0)
        hi.append(max(p[a] for p in pts) + r.uniform(*margin) * l0)
    return lo, hi


def radii(r, lo=1.3, hi=4.3):
    """Three effective radius ratios, in any order of size."""
    while True:
        v = [round(r.uniform(lo, hi), 2) for _ in range(3)]
        # stay clear of lattice distances, where rounding decides who is a neighbour
        if all(abs(x * x - round(x * x)) > 0.02 for x in v):
            break
    if r.random() < 0.3:
        v[r.randrange(3)] = v[r.randrange(3)]
    return {"radiusRatioForNumberDensity": v[0], "radiusRatioForGradient": v[1], "radiusRatioForLaplacian": v[2]}


def kinds(r, n, weights=(0, 6, 2, 1)):
    """n particle types."""
    return r.choices([GHOST, FLUID, WALL, DUMMY], weights, k=n)


def kinds_of_fluid(r, most):
    """A fluid type: none of them means anything to the physics, small or large."""
    n = r.randint(0, most)
    return n if n < 2 or most > 3 else (None, None, 11, -1)[n]


def no_pressure(r):
    """Settings under which all pressures are 0."""
    if r.random() < 0.5:
        return {"pressureCalculationMethod": "Explicit", "soundSpeed": 0.0}
    return {"pressureCalculationMethod": "Implicit", "surfaceDetection-numberDensity-threshold": 1e6,
            "surfaceDetection-particleDistribution": False}


def cloud(r, name, dim=None, n=None, mind=0.6, vmax=1.0, l0=None, size=None, weights=(1, 6, 2, 1), steps=None, dt=None,
          offset=None, rhos=(None, 500.0, 1000.0, 1700.0), jitter=None, gmax=0.0, fts=3, **kw):
    """Random particles, apart by at least mind*l0, in a domain around them."""
    dim = dim or r.choice([2, 3])
    l0 = l0 or r.choice([1.0, 0.025, 0.4])
    n = n or r.randint(6, 36)
    off = offset or [r.uniform(-4, 4) * l0 for _ in range(3)]
    size = size or ((n / 0.9) ** 0.5 if dim == 2 else (n / 0.9) ** (1 / 3.0))
    if dim == 2 and r.random() < 0.5:
        off = off[:2] + [0.0]
    hi = [off[a] + size * l0 for a in range(3)]
    pts = spread(r, n, dim, off, hi, mind * l0)
    dlo, dhi = box(r, dim, l0, pts)
    dt = dt or r.choice([0.01, 0.02])
    steps = steps or r.choice([1, 2, 5])
    t0 = r.choice([0.0, 0.0, 2.5])
    ts = kinds(r, len(pts), weights)
    parts = [P(t, p, vel(r, dim, vmax * l0), ft=kinds_of_fluid(r, fts), rho=r.choice(rhos)) for t, p in zip(ts, pts)]
    g = [r.uniform(-gmax, gmax) * l0 for _ in range(3)]
    if dim == 2:
        g[2] = 0.0
    s = dict(dim=dim, particleDistance=l0, dt=dt, endTime=t0 + (steps - 0.5) * dt, domainMin=dlo, domainMax=dhi, gravity=g)
    s.update(kw)
    return Scenario(name, parts, t0=t0, **s)


def block(r, name, dim=None, counts=None, l0=None, jitter=0.1, holes=0.0, squeeze=None, walls=True, vmax=0.3, steps=None,
          dt=None, gmax=0.0, rhos=(1000.0,), ghosts=1, **kw):
    """A jittered lattice of fluid on walls and dummy walls, as in the examples of the program."""
    dim = dim or r.choice([2, 2, 3])
    l0 = l0 or r.choice([1.0, 0.025, 0.4])
    counts = counts or ((r.randint(4, 7), r.randint(4, 8), 1) if dim == 2 else (r.randint(3, 4), r.randint(4, 6), r.randint(3, 4)))
    off = [r.uniform(-3, 3) * l0 for _ in range(3)]
    if dim == 2:
        off[2] = 0.0
    pts = lattice(r, dim, counts, l0 * (squeeze or r.choice([1.0, 0.97, 0.93])), off, jitter, holes)
    wl = r.choice([0, 1, 2]) if walls else 0
    dl = wl + (r.choice([0, 1, 2]) if walls and wl else 0)
    parts = []
    ymid = [off[1] + i * l0 * (squeeze or 1.0) for i in range(counts[1])]
    for p in pts:
        h = (p[1] - off[1]) / l0
        t = FLUID
        if h < dl - 0.5:
            t = WALL if h >= dl - wl - 0.5 else DUMMY
        v = vel(r, dim, vmax * l0)
        parts.append(P(t, p, v, ft=kinds_of_fluid(r, 3), rho=r.choice(rhos)))
    dlo, dhi = box(r, dim, l0, pts)
    for _ in range(ghosts):
        q = tuple(r.uniform(dlo[a], dhi[a]) for a in range(3))
        parts.insert(r.randint(0, len(parts)), P(GHOST, q, vel(r, dim, vmax * l0), rho=r.choice(rhos)))
    dt = dt or r.choice([0.01, 0.02])
    steps = steps or r.choice([1, 2, 4])
    t0 = r.choice([0.0, 0.0, 1.25])
    g = [r.uniform(-gmax, gmax) * l0 for _ in range(3)]
    if dim == 2:
        g[2] = 0.0
    s = dict(dim=dim, particleDistance=l0, dt=dt, endTime=t0 + (steps - 0.5) * dt, domainMin=dlo, domainMax=dhi, gravity=g)
    s.update(kw)
    return Scenario(name, parts, t0=t0, **s)


def burst(r, name, dim=None, **kw):
    """A crowd whose particles fly apart: some neighbours at first, then fewer, then none; some crowds stay together for longer than others."""
    dim = dim or r.choice([2, 3])
    l0 = r.choice([1.0, 0.025])
    k = r.choice([3, 4]) if dim == 2 else 3
    parts = []
    for off, speed in ((0.0, r.choice([20.0, 60.0])), (40.0 * l0, r.choice([0.5, 200.0]))):
        pts = lattice(r, dim, (k, k, k), r.choice([0.4, 0.6]) * l0, (off, 0.0, 0.0), 0.05)
        mid = [sum(p[a] for p in pts) / len(pts) for a in range(3)]
        for p in pts:
            parts.append(P(FLUID, p, tuple(speed * (p[a] - mid[a]) for a in range(3)), rho=r.choice([1000.0, 700.0])))
    lo, hi = [-300 * l0] * 3, [300 * l0] * 3
    if dim == 2:
        lo[2] = hi[2] = 0.0
    s = dict(dim=dim, particleDistance=l0, dt=0.01, endTime=0.01 * (r.choice([4, 8]) - 0.5), domainMin=lo, domainMax=hi, gravity=[0.0, 0.0, 0.0], collisionDistanceRatio=0.0,
             radiusRatioForNumberDensity=2.1, radiusRatioForGradient=2.1, radiusRatioForLaplacian=3.1, relaxationCoefficientForPressure=r.choice([0.2, 1e-6]))
    s["surfaceDetection-numberDensity-threshold"] = r.choice([0.0, 0.2])
    s["surfaceDetection-particleDistribution"] = False
    s.update(kw)
    return Scenario(name, parts, **s)


def tank(r, name, steps, dim=2, wide=6, high=6, vmax=0.5, rhos=(1000.0, 800.0), window=None, leaving=(), meeting=(), **kw):
    """Fluid at rest or sloshing in an open tank of walls, under gravity, and particles on their way out of the domain (leaving: the steps in
    which they get there).  With a window only the last steps of the run are recorded, as a run of its own that starts from where the
    real one had come to: what a step does depends on the particles only, not on how many steps there were before.  Meeting: steps in which
    two particles collide, by themselves."""
    l0 = r.choice([1.0, 0.025])
    off = [r.uniform(-3, 3) * l0 for _ in range(3)]
    deep = 1 if dim == 2 else 3
    if dim == 2:
        off[2] = 0.0
    dt = 0.005
    parts = []
    for i in range(-2, wide + 2):
        for j in range(-2, high + 2):
            for k in range(0 if dim == 2 else -2, deep if dim == 2 else deep + 2):
                at = [off[0] + i * l0, off[1] + j * l0, off[2] + k * l0]
                inside = 0 <= i < wide and j >= 0 and (dim == 2 or 0 <= k < deep)
                if inside and j >= high:
                    continue
                if inside:
                    at = [a + r.uniform(-0.03, 0.03) * l0 for a in at[:dim]] + at[dim:]
                    parts.append(P(FLUID, tuple(at), vel(r, dim, vmax * l0), ft=r.randint(0, 2), rho=r.choice(rhos)))
                else:
                    edge = i in (-2, wide + 1) or j == -2 or (dim == 3 and k in (-2, deep + 1))
                    parts.append(P(DUMMY if edge else WALL, tuple(at), (0.0, 0.0, 0.0), rho=r.choice(rhos)))
    lo = [off[0] - 20 * l0, off[1] - 40 * l0, off[2] - (0 if dim == 2 else 6) * l0]
    hi = [off[0] + 20 * l0, off[1] + 40 * l0, off[2] + (0 if dim == 2 else 9) * l0]
    g = kw.pop("g", 9.8) * l0
    # thrown up beside the tank, so that they fall out of the domain at the bottom in the given step
    for m, n in enumerate(leaving):
        x = off[0] - (6 + 3 * (m % 4)) * l0
        y = off[1] + 3 * l0 * (m // 4)
        parts.append(P(FLUID, (x, y, off[2]), (0.0, (lo[1] - 0.001 * l0 - y) / (n * dt) + g * dt * (n + 1) / 2, 0.0), ft=m, rho=r.choice(rhos)))
    for m, n in enumerate(meeting):
        # they fly up and come back together, closer to each other all the time; nothing slows them down until they are near
        near, gap = max(kw.get("collisionDistanceRatio", 0.5), 0.4) * l0, (3 + 0.02 * n) * l0
        x, y = off[0] + (6 + wide) * l0 + gap / 2, off[1] + 5 * m * l0
        u, up = (gap - near) / ((n - 0.5) * dt), g * dt * (n + 1) / 2
        for side, ft in ((1, 30), (-1, 40)):
            parts.append(P(FLUID, (x + side * gap / 2, y, off[2]), (-side * u / 2, up, 0.0), ft=ft, rho=r.choice(rhos)))
        hi[0] = max(hi[0], x + gap)
    hi[1] = max(hi[1], max([p.x[1] + p.v[1] ** 2 / (2 * g) for p in parts if p.v[1] > 0] + [hi[1]]) + 2 * l0)
    s = dict(dim=dim, particleDistance=l0, dt=dt, endTime=(steps - 0.5) * dt, domainMin=lo, domainMax=hi, gravity=[0.0, -g, 0.0], soundSpeed=20.0 * l0,
             kinematicViscosity=0.02 * l0 * l0, relaxationCoefficientForPressure=0.2, compressibility=1e-6 / (l0 * l0), cflCondition=0.02)
    s.update(kw)
    sc = Scenario(name, parts, mayfail=True, timeout=150, **s)
    sc.window = window
    return sc


def late(r, name, **kw):
    """The last steps of long runs."""
    return [tank(r, "%s-%s%d" % (name, method, steps), steps, window=steps - num(2, 4), leaving=[steps - 1, steps // 2], meeting=[steps - 1, steps], pressureCalculationMethod=method, **kw)
            for method in ("Explicit", "Implicit") for steps in num((110, 530, 1040), (110, 260, 530, 1040, 4200))]


def big(r, name, wide=True, **kw):
    """Many particles in any order, and particles with hundreds of neighbours: whatever is counted, numbered or given up
    beyond some size has room to go wrong."""
    out = []
    for dim, counts in ((2, (38, 36, 1)), (3, (8, 8, 8)), (2, (14, 14, 1))):
        if not wide and dim == 2 and counts[0] > 20:
            continue
        s = dict(dim=dim, counts=counts, l0=r.choice([1.0, 0.025]), jitter=0.05, squeeze=0.97, dt=0.005, steps=1, vmax=0.3, gmax=2.0, ghosts=4, rhos=(1000.0, 800.0, 1500.0),
                 soundSpeed=0.5, kinematicViscosity=1e-3, relaxationCoefficientForPressure=0.002, compressibility=1e-6)
        s["surfaceDetection-numberDensity-threshold"] = 0.9
        if dim == 3:
            s.update({"radiusRatioForNumberDensity": 4.2, "radiusRatioForGradient": 4.1, "radiusRatioForLaplacian": 4.3})
        elif counts[0] < 20:
            s.update({"radiusRatioForNumberDensity": 6.2, "radiusRatioForGradient": 6.4, "radiusRatioForLaplacian": 6.3})
        for method in ("Explicit", "Implicit"):
            s["pressureCalculationMethod"] = method
            sc = block(r, "%s-%d%s-%d" % (name, dim, method, counts[0]), mayfail=True, **dict(s, **kw))
            r.shuffle(sc.parts)
            out.append(sc)
    return out


def long_runs(r, name, **kw):
    """Runs of many steps: what is kept from step to step, refreshed now and then, or counted, has time to go wrong.
    Slow fluid on walls under both pressure methods, and a fast cloud that leaves the domain bit by bit."""
    out = []
    for method in ("Explicit", "Implicit"):
        for dim in (2, 3):
            l0 = r.choice([1.0, 0.025])
            s = dict(dim=dim, l0=l0, counts=(5, 7, 1) if dim == 2 else (3, 5, 3), jitter=0.03, squeeze=0.97, dt=0.005, steps=num(90, 400), vmax=0.2, gmax=2.0,
                     ghosts=1, rhos=(1000.0, 800.0), pressureCalculationMethod=method, soundSpeed=1.0 * l0, kinematicViscosity=0.01 * l0 * l0,
                     relaxationCoefficientForPressure=0.002, compressibility=1e-6)
            s["surfaceDetection-numberDensity-threshold"] = 0.9
            s.update(kw)
            out.append(block(r, "%s-%s%d" % (name, method, dim), mayfail=True, **s))
    l0 = 0.4
    s = dict(dim=2, l0=l0, n=30, mind=0.7, size=9.0, vmax=6.0, steps=num(90, 400), dt=0.01, pressureCalculationMethod="Explicit", soundSpeed=0.1)
    s.update(kw)
    out.append(cloud(r, name + "-leaving", **s))
    return out
