"""C01: the neighbour search is exact."""
import collections
from fractions import Fraction
from .. import env, sim
from ..scen import *
from ..sim import num as real

MODEL = """SPECIFICATION Spec
CONSTANTS Origins <- MCOrigins
          Extents <- MCExtents
          Radii = {%s}
          Slack = %d
          Wider = %d
          NP = %d
          Searches = %d
INVARIANTS %s
PROPERTY OnlyOutsideLeave
CHECK_DEADLOCK FALSE
"""
MC = """---- MODULE MCBucket ----
EXTENDS Bucket
MCOrigins == {%s}
MCExtents == {%s}
====
"""


class Case:
    parts = []

    def __init__(self, name, re, lo, hi, types, positions, exact=False):
        self.name, self.re, self.lo, self.hi, self.types, self.positions, self.exact = name, re, lo, hi, types, positions, exact

    def text(self):
        out = [repr(float(e)) for e in (self.re, self.lo[0], self.hi[0], self.lo[1], self.hi[1], self.lo[2], self.hi[2])]
        s = " ".join(out) + " %d %d\n" % (len(self.types), len(self.positions))
        for ps in self.positions:
            s += "".join("%d %r %r %r\n" % ((t,) + tuple(float(a) for a in p)) for t, p in zip(self.types, ps))
        return s


def record(exe, cases):
    chunks = [cases[i::env.JOBS] for i in range(env.JOBS)]
    import concurrent.futures as cf

    def parse(c, words):
        """The searches of one case; None if not all of its output is there."""
        def line():
            return words.popleft().split()
        out = []
        try:
            if line() != ["case"]:
                raise IndexError
            for ps in c.positions:
                if line() != ["search"]:
                    raise IndexError
                ty, nb = [], []
                for _ in c.types:
                    w = line()
                    ty.append(int(w[0]))
                    nb.append([[max(-1, min(10 ** 6, int(w[2 + 2 * m]))), "#" + repr(float.fromhex(w[3 + 2 * m]))] for m in range(int(w[1]))])
                out.append({"x": [[real(a) for a in p] for p in ps], "type": ty, "nbrs": nb})
            return out
        except (IndexError, ValueError):
            return None

    def one(ch):
        recs, failed = [], 0
        while len(recs) < len(ch):
            rest = ch[len(recs):]
            o = sim.execute([exe], "/", 60, stdin=("%d\n" % len(rest) + "".join(c.text() for c in rest)).encode()) if failed < 4 else None
            words = collections.deque(o.out.split("\n")[:-1] if o else [])
            for c in rest:
                rec = {"name": c.name, "ok": True, "exact": c.exact, "re": real(c.re), "lo": [real(e) for e in c.lo],
                       "hi": [real(e) for e in c.hi], "type": c.types, "searches": []}
                recs.append(rec)
                if o:
                    got = parse(c, words)
                    if got is None:
                        # a crash, or no end, in this case; go on after it
                        rec["ok"] = False
                        failed += 1
                        break
                    rec["searches"] = got
        return recs
    with cf.ThreadPoolExecutor(env.JOBS) as ex:
        res = list(ex.map(one, chunks))
    order = {}
    for ch, rs in zip(chunks, res):
        for c, x in zip(ch, rs):
            order[id(c)] = x
    return [order[id(c)] for c in cases]


def lattice_cases():
    """Every place of a lattice in the domain (faces, edges and corners among them) is taken: all pairs of places."""
    out = []
    for dim in (2, 3):
        exts = [(0, 0), (1, 2), (2, 3), (4, 4), (5, 1)] if dim == 2 else [(0, 0, 0), (1, 2, 1), (2, 2, 2), (3, 1, 2)]
        for ext in exts:
            for off in [(0, 0, 0), (-3, 2, -1), (7, -5, 3)]:
                for re in (0.75, 1.0, 1.5, 2.0, 2.5, 9.0):
                    for den in ((2,) if dim == 3 else (2, 4)):
                        lo = [float(o) for o in off]
                        hi = [lo[a] + (ext[a] if a < dim else 0.0) for a in range(3)]
                        ax = [[lo[a] + i / den for i in range(int((hi[a] - lo[a]) * den) + 1)] for a in range(3)]
                        ps = [tuple(p) for p in itertools.product(*ax)]
                        if len(ps) > 140:
                            continue
                        out.append(Case("lattice%s%s/%s" % (ext, off, re), re, lo, hi, [FLUID] * len(ps), [ps], exact=True))
    return out


def random_cases():
    r = rng("c01")
    out = []
    for n in range(num(150, 2000)):
        dim = r.choice([2, 3])
        re = r.choice([1.0, 0.31, 0.0775, 2.0])
        lo = [r.uniform(-5, 5) * re for _ in range(3)]
        hi = [lo[a] + re * r.choice([0.4, 1, 2, 3, 5, r.uniform(0.1, 7)]) for a in range(3)]
        if dim == 2:
            hi[2] = lo[2]
        k = r.randint(2, 60)
        types = [r.choice([FLUID, FLUID, FLUID, WALL, DUMMY, GHOST]) for _ in range(k)]

        def place():
            p = []
            for a in range(3):
                c = r.random()
                if c < 0.1 or hi[a] == lo[a]:
                    p.append(r.choice([lo[a], hi[a]]))
                elif c < 0.2:
                    # the border of a cell
                    p.append(min(hi[a], lo[a] + re * r.randint(0, int((hi[a] - lo[a]) / re))))
                else:
                    p.append(r.uniform(lo[a], hi[a]))
            if r.random() < 0.04:
                a = r.randrange(3)
                p[a] = r.choice([lo[a] - 0.1 * re, hi[a] + 0.1 * re, lo[a] - 3 * re, hi[a] + 30 * re, math.nextafter(lo[a], -1e9), math.nextafter(hi[a], 1e9), 1e300, -1e300])
            return tuple(p)
        pos = [place() for _ in range(k)]
        seq = [pos]
        for _ in range(r.choice([0, 1, 3])):
            pos = [place() if r.random() < 0.5 else p for p in pos]
            seq.append(pos)
        out.append(Case("random%d" % n, re, lo, hi, types, seq))
    for n in range(num(2, 8)):
        # many particles
        k = num(500, 1500)
        lo, hi = [-1.0, 2.0, 0.5], [4.0, 4.0, 3.5]
        seq = [[tuple(r.uniform(lo[a], hi[a]) for a in range(3)) for _ in range(k)] for _ in range(2)]
        out.append(Case("many%d" % n, 0.55, lo, hi, [r.choice([FLUID, WALL, DUMMY]) for _ in range(k)], seq))
    for k, dim in ((num(300, 700), 2), (num(450, 900), 3)):
        # more neighbours than any lattice has
        pts = spread(r, k, dim, [0.0, 0.0, 0.0], [0.5, 0.5, 0.5], 0.0)
        out.append(Case("dense%d" % k, 1.0, [-1.0, -1.0, -1.0 if dim == 3 else 0.0], [2.0, 2.0, 2.0 if dim == 3 else 0.0], [r.choice([FLUID, FLUID, WALL, DUMMY]) for _ in range(k)], [pts]))
    out += drifts(r) + borders(r)
    return out


def borders(r):
    """Pairs along an axis that are a rounding error closer than the radius, or exactly at it, or further, where several
    cells' borders may be.  (Their differences have no rounding error, so it is clear which pairs are neighbours.)"""
    out = []
    for n in range(num(150, 1500)):
        l0 = r.choice([1.0, 0.5, 0.025, 0.01, 0.1])
        re = round(r.uniform(1.2, 4.5), 1) * l0
        ax = n % 3
        lo = [round(-r.choice([0, 0, 1, 5, 100]) * r.random(), 1 + (l0 < 1)) for _ in range(3)]
        hi = [lo[a] + (r.choice([30, 60, 200]) * re if a == ax else 5 * re * r.choice([1, 2, 3])) for a in range(3)]
        pos = []
        y = [lo[a] + 0.01 * re for a in range(3)]
        for _ in range(4000):
            # looked for among those whose rounded distances from the origin are more than the radius apart, and others
            k = r.randint(0, int((hi[ax] - lo[ax]) / re) - 2)
            a = lo[ax] + (k + r.choice([0, 1, 1, 1, r.random()])) * re
            for _ in range(r.randint(0, 3)):
                a = math.nextafter(a, r.choice([-1e9, 1e9]))
            b = a + re
            for _ in range(r.randint(0, 3)):
                b = math.nextafter(b, r.choice([-1e9, -1e9, 1e9]))
            if not (lo[ax] <= a and b <= hi[ax]) or Fraction(b) - Fraction(a) != Fraction(b - a):
                continue
            critical = b - a < re <= (b - lo[ax]) - (a - lo[ax])
            if not critical and r.random() < 0.99:
                continue
            p, q = y[:], y[:]
            p[ax], q[ax] = a, b
            pos += [tuple(p), tuple(q)]
            # the next pair is out of reach of this one
            o = (ax + 1) % 3
            y[o] += 1.5 * re
            if y[o] > hi[o]:
                o2 = (ax + 2) % 3
                y[o] = lo[o] + 0.01 * re
                y[o2] += 1.5 * re
                if y[o2] > hi[o2]:
                    break
        if pos:
            order = list(range(len(pos)))
            r.shuffle(order)
            out.append(Case("border%d" % n, re, lo, hi, [r.choice([FLUID, WALL]) for _ in pos], [[pos[i] for i in order]], exact=True))
    return out


def drifts(r):
    """Many searches between which nothing moves far: pairs that come within the radius, or leave it, in steps of any smallness."""
    out = []
    for n in range(num(16, 60)):
        dim = r.choice([2, 3])
        re = r.choice([1.0, 0.0775])
        steps = num(40, 120)
        h = re * 10.0 ** -(1 + n % 8 * 0.7)
        lo, hi = [-4 * re] * 3, [4 * re] * 3
        if dim == 2:
            lo[2] = hi[2] = 0.0
        k = r.randint(8, 16)
        pos, v = [], []
        while len(pos) < k:
            p = [r.uniform(-2, 2) * re for _ in range(dim)] + [0.0] * (3 - dim)
            u = [r.gauss(0, 1) for _ in range(dim)] + [0.0] * (3 - dim)
            w = math.hypot(*u)
            u = [a / w for a in u]
            # the second one of the pair crosses the radius half way, inwards or outwards
            way = r.choice([-1, 1]) * h
            d = re - way * (r.uniform(0.2, 0.8) * steps)
            if d < 0.05 * re:
                continue
            pos += [p, [p[a] + d * u[a] for a in range(3)]]
            # both may drift along
            c = [r.uniform(-1, 1) * h * 0.2 for _ in range(dim)] + [0.0] * (3 - dim)
            v += [c, [c[a] + way * u[a] for a in range(3)]]
        seq = [[tuple(p[a] + m * q[a] for a in range(3)) for p, q in zip(pos, v)] for m in range(steps)]
        out.append(Case("drift%d" % n, re, lo, hi, [r.choice([FLUID, FLUID, WALL]) for _ in pos], seq))
    return out


def cli_scenarios():
    """The same seen from outside: number densities of particles on faces, corners and cell borders."""
    r = rng("c01cli")
    out = []
    for n in range(num(30, 200)):
        dim = r.choice([2, 3])
        l0 = r.choice([1.0, 0.5])
        ratio = r.choice([2.0, 1.5, 2.5])
        re = ratio * l0
        lo = [r.randint(-8, 8) / 4 for _ in range(3)]
        hi = [lo[a] + re * r.choice([1, 2, 3, 1.5, 2.25]) for a in range(3)]
        if dim == 2:
            hi[2] = lo[2]
        pts = set()
        for _ in range(r.randint(5, 30)):
            pts.add(tuple(lo[a] + (hi[a] - lo[a]) * r.choice([0, 1, 0.5, 0.25, r.randint(0, 16) / 16]) for a in range(3)))
        parts = [P(r.choice([FLUID, FLUID, WALL, DUMMY]), p, (0, 0, 0)) for p in sorted(pts)]
        r.shuffle(parts)
        out.append(Scenario("cells%d" % n, parts, exact=True, dim=dim, particleDistance=l0, domainMin=lo, domainMax=hi,
                            collisionDistanceRatio=0.0, endTime=0.2, radiusRatioForNumberDensity=ratio,
                            radiusRatioForGradient=r.choice([1.5, ratio]), radiusRatioForLaplacian=r.choice([1.5, ratio])))
    return out


def check(ctx):
    for np, searches, radii, orgs, exts in (
            [(2, 1, "1, 2, 3", "<<0, 0>>, <<-2, 3>>", "<<0, 0>>, <<1, 3>>, <<4, 2>>, <<6, 6>>"),
             (2, 2, "1, 2", "<<-1, 2>>", "<<1, 2>>"), (3, 1, "2", "<<0, 1>>", "<<2, 1>>, <<4, 0>>")] if not env.THOROUGH else
            [(2, 1, "1, 2, 3, 4", "<<0, 0>>, <<-2, 3>>", "<<0, 0>>, <<1, 3>>, <<4, 2>>, <<6, 6>>, <<7, 5>>"),
             (2, 2, "1, 2, 3", "<<-1, 2>>", "<<1, 2>>, <<3, 1>>, <<2, 2>>"), (3, 1, "1, 2, 3", "<<0, 1>>", "<<2, 3>>, <<4, 2>>, <<3, 3>>"),
             (3, 2, "2", "<<0, 1>>", "<<1, 1>>, <<2, 0>>")]):
        ctx.model("Bucket NP=%d x%d" % (np, searches), "MCBucket", MODEL % (radii, 0, 0, np, searches, "InRange Exact Left Chains"),
                  modules={"MCBucket": MC % (orgs, exts)})
    # rounded distances from the origin, with cells that allow for it and with some that do not
    MC1 = MC % ("<<-1, 2>>", "<<8, 0>>, <<9, 1>>" if not env.THOROUGH else "<<8, 0>>, <<9, 4>>, <<3, 12>>")
    ctx.model("Bucket, rounding", "MCBucket", MODEL % ("3", 1, 2, 2, 1, "InRange Exact Left Chains"), modules={"MCBucket": MC1})
    ctx.model("Bucket, rounding, cells too narrow", "MCBucket", MODEL % ("3", 1, 0, 2, 1, "Exact"), modules={"MCBucket": MC1}, expect="Exact")
    exe = env.harness("neighbors")
    if exe:
        ctx.conform("searches", lattice_cases() + random_cases(), ["Shape", "GhostsConform", "NeighboursConform"],
                    module="NeighborTrace", record=lambda cs: record(exe, cs))
    else:
        ctx.assumptions.append("the searcher's interface has changed; it was only observed through number densities")
    ctx.conform("number densities", cli_scenarios() + late(rng("c01l"), "late"), ["Shape", "Complete", "DensityConforms", "TypesConform"])
