"""C14: all formats of a snapshot are valid and say the same."""
import os, shutil
from .. import env, sim, formats
from ..scen import *
from ..sim import num as real
from .c13 import numbers

INV = ["SameNumbers", "TextOK", "TextCounts", "TextAgrees", "VtuComplete", "VtuValid", "VtuMode", "VtuAgrees", "OtherModeAgrees", "InputKept"]


def run_once(binary, sc, is_binary, stale):
    sc.settings["outputVtkInBinary"] = is_binary
    d = env.newdir("run")
    sc.write(d)
    if stale:
        for f in ("prof", "csv", "vtu"):
            os.mkdir(d + "/out/" + f)
            with open(d + "/out/%s/output_0000.%s" % (f, f), "w") as fo:
                fo.write("left over from another run\n" * 5000)
    o = sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, sc.timeout)
    return d, o


def record(binary, sc):
    d, o = run_once(binary, sc, sc.binary, sc.stale)
    d2, o2 = run_once(binary, sc, not sc.binary, False)
    nums = {f: [n for n, _ in numbers(d + "/out/" + f, f)] for f in ("prof", "csv", "vtu")}
    snaps = []
    twins = numbers(d2 + "/out/vtu", "vtu")
    here = numbers(d + "/out/vtu", "vtu")
    for n, path in numbers(d + "/out/prof", "prof"):
        name = "%s/out/%%s/output_%04d.%%s" % (d, n)
        snaps.append({"prof": formats.prof(path), "csv": formats.csv(name % ("csv", "csv")), "vtu": formats.vtu(name % ("vtu", "vtu")),
                      "other": formats.vtu(d2 + "/out/vtu/output_%04d.vtu" % n)})
    # after a solver's failure the two may end at different steps; they never do, since they compute the same
    rec = {"name": sc.name, "n": len(sc.parts), "binary": sc.binary, "twin": True, "nums": nums, "snaps": snaps, "t0": real(sc.t0), "type": [p.type for p in sc.parts],
           "ft": [0 if sc.fmt == "prof" else p.ft for p in sc.parts], "x": [[real(a) for a in p.x] for p in sc.parts],
           "v": [[real(a) for a in p.v] for p in sc.parts]}
    shutil.rmtree(d, True)
    shutil.rmtree(d2, True)
    return rec


def scenarios():
    r = rng("c14")
    out = []
    for n in range(num(80, 300)):
        kw = radii(r, 1.6, 4.0)
        if r.random() < 0.5:
            kw.update({"pressureCalculationMethod": "Implicit", "compressibility": 1e-5})
        else:
            kw.update({"soundSpeed": r.choice([1.0, 1e4, 1e-20])})
        sc = block(r, "flow%d" % n, vmax=r.choice([0.1, 3.0]), ghosts=2, gmax=r.choice([0, 10]), fmt=r.choice(["csv", "csv", "vtu", "prof"]), **kw)
        for p in sc.parts:
            p.ft = r.choice([0, 1, 2, 7, 10, 123, 2147483647, -3])
        out.append(sc)
    # all kinds of numbers
    for n in range(num(80, 300)):
        parts = []
        k = r.choice([1, 2, 10, 25])
        for i in range(k):
            def val():
                m = r.choice([0, 1, 2, 3, 4, 5])
                if m == 0:
                    return r.choice([0.0, -0.0, 1.0, 10.0, 100000.0, 999999.5, 1e6, 1234567.0])
                if m == 1:
                    return r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300)
                if m == 2:
                    # bytes that mean something in XML or text
                    import struct
                    return struct.unpack("<d", bytes(r.choice(b"\n\r\x1a<>&\"'_/ \x00\xff") for _ in range(6)) + b"\x08\x40")[0]
                if m == 3:
                    return r.uniform(-10, 10)
                return r.randint(-1000, 1000) / r.choice([1, 3, 7, 1000])
            parts.append(P(r.choice([0, 1, 2, 3]), [val() for _ in range(3)], [val() for _ in range(3)], ft=r.choice([0, 1, 5])))
        out.append(Scenario("numbers%d" % n, parts, t0=r.choice([0.0, 1 / 3, 123456.789, 1e-7, 1e20, -2.5]), fmt=r.choice(["csv", "prof", "vtu"]),
                            endTime=-1e300, domainMin=[-1.0, -1.0, -1.0], domainMax=[1.0, 1.0, 1.0], dim=3))
    out.append(Scenario("none", [], endTime=0.3))
    out.append(Scenario("one", [P(FLUID, (0.1, 0.2, 0), (1, 2, 0))], endTime=0.3))
    out.append(Scenario("not a number", [P(FLUID, (0, 0, 0), (1, 1, 0)), P(FLUID, (0, 0, 0)), P(FLUID, (1, 0, 0)), P(WALL, (1, 0, 0))],
                        endTime=0.5, kinematicViscosity=1.0))
    for n in range(2):
        parts = [P(r.choice([FLUID, WALL, DUMMY, GHOST]), (i % 40 * 0.7, i // 40 * 0.7, 0), vel(r, 2, 1.0), ft=i % 3) for i in range(num(1200, 6000))]
        out.append(Scenario("many%d" % n, parts, domainMin=[-1.0, -1.0, 0.0], domainMax=[300.0, 300.0, 0.0], endTime=0.1, soundSpeed=1.0, fmt=("csv", "vtu")[n]))
    for n in range(2):
        still = [P(GHOST, (0.0, 0.0, 0.0)) for _ in range(3)]
        out.append(Scenario("still%d" % n, still + [P(FLUID, (3, 0, 0), (1, 0, 0)), P(WALL, (5, 0, 0))] + (still if n else [P(GHOST, (0, 0, 0), ft=-1)]), endTime=0.3))
    # more particles than 15 or 16 bits count
    for n in range(2):
        parts = [P(GHOST, (i % 256, i // 256, 0), ft=i % 3) for i in range(num((33000, 66000)[n], 66000))]
        parts[-1] = P(FLUID, (1, 1, 0), (1, 0, 0), ft=7)
        out.append(Scenario("crowd%d" % n, parts, domainMin=[-1.0, -1.0, 0.0], domainMax=[300.0, 300.0, 0.0], endTime=0.05, fmt="csv", outputPeriod=10.0))
    for i, sc in enumerate(out):
        sc.binary = i % 2 == 0
        sc.stale = i % 5 == 0
    return out


def check(ctx):
    binary = env.mps_binary()
    import concurrent.futures as cf

    def rec(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: record(binary, c), cs))
    ctx.conform("snapshots", scenarios(), INV, module="FormatTrace", record=rec)
