"""C25: physics does not depend on coordinates, numbering or units."""
import copy
import concurrent.futures as cf
from .. import env, laws, sim
from ..scen import *
from ..sim import num as real

INV = ["Shape", "SameLength", "TimeSame", "TypesSame", "FluidTypesSame", "VelocitiesSame", "PositionsSame", "DensitiesSame", "BoundarySame",
       "PressuresSame", "WarningsSame"]


class Sym:
    def __init__(self, n):
        self.axes, self.sign, self.off, self.ren = [0, 1, 2], [1, 1, 1], [0.0, 0.0, 0.0], list(range(n))
        self.len = self.tim = self.den = 1.0

    def vector(self, u):
        return [self.sign[a] * u[self.axes[a]] for a in range(3)]

    def point(self, x):
        return [o + self.len * e for o, e in zip(self.off, self.vector(x))]

    def json(self):
        return {"axes": [a + 1 for a in self.axes], "sign": [real(e) for e in self.sign], "off": [real(e) for e in self.off],
                "ren": [i + 1 for i in self.ren], "len": real(self.len), "tim": real(self.tim), "den": real(self.den)}

    def apply(self, sc):
        """The scenario in the new description."""
        b = copy.copy(sc)
        b.settings = s = dict(sc.settings)
        u = self.len / self.tim
        b.t0 = self.tim * sc.t0
        b.parts = [P(p.type, self.point(p.x), [u * e for e in self.vector(p.v)], ft=p.ft, rho=p.rho and p.rho * self.den)
                   for p in (sc.parts[i] for i in self.ren)]
        lo, hi = self.point(s["domainMin"]), self.point(s["domainMax"])
        s["domainMin"], s["domainMax"] = [min(a, b) for a, b in zip(lo, hi)], [max(a, b) for a, b in zip(lo, hi)]
        s["gravity"] = [u / self.tim * e for e in self.vector(s["gravity"])]
        for key, f in (("particleDistance", self.len), ("dt", self.tim), ("endTime", self.tim), ("kinematicViscosity", u * self.len), ("soundSpeed", u),
                       ("compressibility", 1 / (self.den * u * u)), ("defaultDensity", self.den)):
            s[key] = s[key] * f
        return b


class Case:
    def __init__(self, name, a, sym):
        self.name, self.a, self.sym, self.parts, self.settings = name, a, sym, a.parts, a.settings


KINDS = ["shift", "mirror", "axes", "numbers", "units", "all"]


def scenarios():
    r = rng("c25")
    out = []
    for n in range(num(150, 1500)):
        dim = r.choice([2, 3])
        kw = radii(r, 1.6, 3.2)
        method = r.choice(["Implicit", "Implicit", "Explicit"])
        l0 = r.choice([1.0, 0.025])
        kw.update(pressureCalculationMethod=method, kinematicViscosity=r.choice([0.0, 0.2]) * l0 * l0, compressibility=r.choice([1e-6, 1e-4]) / (l0 * l0),
                  soundSpeed=r.choice([0.5, 3.0]) * l0, mayfail=True, gmax=4.0, l0=l0, dim=dim, steps=r.choice([1, 2, 3]), dt=0.01,
                  coefficientOfRestitution=r.choice([0.0, 0.3, 1.0]))
        kw["surfaceDetection-particleDistribution"] = r.choice([True, False])
        kw["surfaceDetection-particleDistribution-threshold"] = r.choice([0.5, 0.85, 1.5])
        kw["surfaceDetection-numberDensity-threshold"] = r.choice([0.8, 0.97])
        leave = r.random() < 0.3
        rhos = r.choice([(None,), (1000.0,), (500.0, 1000.0, None)])
        if r.random() < 0.5:
            sc = block(r, "", jitter=0.15, vmax=1.0, rhos=rhos, ghosts=r.choice([0, 2]), collisionDistanceRatio=0.2, **kw)
        else:
            sc = cloud(r, "", mind=0.9, vmax=1.0, rhos=rhos, n=r.randint(8, 40), collisionDistanceRatio=0.4, offset=[0.0, 0.0, 0.0], **kw)
            # some partners to collide with, all pairs by themselves
            for p in list(sc.parts):
                if p.type != GHOST and r.random() < 0.3:
                    while True:
                        e = [r.uniform(-1, 1) * (a < dim) for a in range(3)]
                        m = math.hypot(*e)
                        if 0.1 < m < 1:
                            break
                    if p.type == FLUID and r.random() < 0.5:
                        # straight along an axis, one way or the other
                        ax, way = r.randrange(dim), r.choice([1, -1])
                        sc.parts.append(P(FLUID, [p.x[a] + way * 0.25 * l0 * (a == ax) for a in range(3)], [p.v[a] - way * l0 * (a == ax) for a in range(3)], rho=r.choice(rhos)))
                        continue
                    sc.parts.append(P(r.choice([FLUID, FLUID, WALL]), [p.x[a] + 0.25 * l0 * e[a] / m for a in range(3)], vel(r, dim, l0), rho=r.choice(rhos)))
            r.shuffle(sc.parts)
        lo, hi = sc.settings["domainMin"], sc.settings["domainMax"]
        if leave:
            a = r.randrange(dim)
            hi[a] = lo[a] + 0.7 * (hi[a] - lo[a])
            lo[a] += 0.13 * l0
        # (the csv reader may round coordinates)
        lo[2] -= 0.5 * l0
        hi[2] += 0.5 * l0
        kind = KINDS[n % len(KINDS)]
        y = Sym(len(sc.parts))
        if kind in ("shift", "all"):
            y.off = [r.choice([0.0, r.uniform(-5, 5), r.uniform(-100, 100)]) * l0 for _ in range(3)]
        if kind in ("mirror", "all"):
            y.sign = [r.choice([1, -1]) for _ in range(3)]
            if kind == "mirror" and y.sign == [1, 1, 1]:
                y.sign[r.randrange(dim)] = -1
        if kind in ("axes", "all"):
            y.axes = r.choice([[1, 0, 2]] if dim == 2 else [[1, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]])
        if kind in ("numbers", "all"):
            r.shuffle(y.ren)
        if kind in ("units", "all"):
            y.len, y.tim, y.den = r.choice([0.25, 1.0, 8.0, 2.0 ** -20, 2.0 ** 12]), r.choice([0.5, 1.0, 4.0, 2.0 ** -15, 2.0 ** 10]), r.choice([0.5, 1.0, 2.0, 2.0 ** -10, 2.0 ** 10])
        sc.name = "%s%d" % (kind, n)
        out.append(Case(sc.name, sc, y))
    return out


def check(ctx):
    laws.run(ctx)
    binary = env.mps_binary()

    def rec(cases):
        flat = sim.record_all(binary, [s for c in cases for s in (c.a, c.sym.apply(c.a))])
        return [{"name": c.name, "a": flat[2 * i], "b": flat[2 * i + 1], "sym": c.sym.json(), "solverfailed": False, "mayfail": True}
                for i, c in enumerate(cases)]
    ctx.conform("pairs of runs", scenarios(), INV, module="EquivTrace", record=rec, minimum={"pairs": 250})
