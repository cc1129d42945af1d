"""C27: the results of a run depend on nothing but its input."""
import concurrent.futures as cf
import copy, hashlib, os, shutil
from .. import env, laws, sim
from ..scen import *
from .c28 import clock_library

INV = ["EndsByItself", "SomethingWritten", "SameEnd", "SameFiles", "SameContents", "SameWarnings"]
# nanoseconds that pass between two looks at the clock: 3 s, 100 s, an hour and more, two years
TICKS = ["3000000000", "100000000000", "5000000000000", "60000000000000000"]

TWIN = """---- MODULE MCTwin ----
EXTENDS MPSTwin
Sites == %s
SiteNo == 1..Len(Sites)
Particles == {[type |-> t, ft |-> [i \\in 1..%d |-> i], rho |-> [i \\in 1..%d |-> RI(1)], x |-> [i \\in 1..%d |-> Sites[f[i]]], v |-> u,
               p |-> [i \\in 1..%d |-> Zero], nd |-> [i \\in 1..%d |-> Zero], bc |-> [i \\in 1..%d |-> Ignored]] :
                 t \\in [1..%d -> %s], f \\in {f \\in [1..%d -> SiteNo] : \\A i, j \\in 1..%d : i < j => f[i] < f[j]}, u \\in [1..%d -> %s]}
Params == %s
MCInit == TwinInit(Params \\X Particles)
MCSpec == MCInit /\\ [][TwinNext(%d)]_twvars
====
"""


def twins(ctx):
    def one(name, sc, steps):
        np = sc["np"]
        text = TWIN % (sc["sites"], *[np] * 7, sc["kinds"], np, np, np, sc["vels"], sc["params"], steps)
        ctx.model("two runs: " + name, "MCTwin", "SPECIFICATION MCSpec\nINVARIANT Reproducible\nCHECK_DEADLOCK FALSE\n", modules={"MCTwin": text})
    low = dict(laws.IMPLICIT, **{"surfaceDetection-numberDensity-threshold": "RQ(1, 8)"})
    one("pairs", laws.scope(laws.lattice(3, 2, "RQ(1, 2)"), laws.ALLKINDS if env.THOROUGH else "{Fluid, Wall}", laws.ALONG, np=2, raws=[{}, low],
                            kinematicViscosity="RQ(1, 4)", domainMax="<<RQ(3, 4), RI(4), Zero>>"), 2)
    # two pairs that collide at once, handled in either order
    four = "<<Zero3, <<RQ(1, 2), Zero, Zero>>, <<RI(2), Zero, Zero>>, <<RQ(5, 2), Zero, Zero>>>>"
    one("two collisions", laws.scope(four, "{Fluid, Wall}" if env.THOROUGH else "{Fluid}", "{Zero3, <<RI(2), RI(1), Zero>>}", np=4, raws=[{}, low]), 2)


def run(binary, sc, style, environ=None, pad=0):
    """One run, in a directory, with paths and names after the style."""
    d = env.newdir("r")
    where = [d, d + "/a directory with a rather long name/b", d + "/c"][style % 3]
    os.makedirs(where, exist_ok=True)
    sc.write(where)
    out = where + ["/out", "/results of today", "/o"][style % 3]
    if out != where + "/out":
        os.rename(where + "/out", out)
    e = dict(environ or {})
    if pad:
        e["PADDING"] = "x" * pad
    cwd = [where, "/", d][style % 3]
    rel = (lambda p: os.path.relpath(p, cwd)) if style % 2 == 0 else (lambda p: p)
    o = sim.execute([binary, "-s", rel(where + "/settings.yml"), "-o", rel(out)], cwd, sc.timeout, environ=e)
    files = []
    for f in ("prof", "csv", "vtu"):
        if os.path.isdir(out + "/" + f):
            for n in sorted(os.listdir(out + "/" + f)):
                files.append({"name": f + "/" + n, "print": hashlib.sha256(open("%s/%s/%s" % (out, f, n), "rb").read()).hexdigest()[:24]})
    warn, cfl, steps, rest = sim.split_stderr(o.err)
    shutil.rmtree(d, True)
    return {"exit": o.exit, "hung": o.timeout, "files": files, "warnings": [len(w) for w in warn] + [len(c) for c in cfl] + [len(steps)]}


def record(bins, lib, sc):
    plain, pattern, zero = bins
    other = copy.copy(sc)
    other.settings = dict(reversed(sc.settings.items()), numPhysicalCores=7)
    again = [run(plain, sc, 0),
             run(plain, sc, 1, {"MALLOC_PERTURB_": "90"}, 30000),
             # leftovers that read as huge, as middling and as tiny numbers, all of them positive
             run(plain, sc, 0, {"MALLOC_PERTURB_": "129", "LD_PRELOAD": lib, "MPSV_STACK": "126"}),
             run(plain, sc, 3, {"MALLOC_PERTURB_": "191", "LD_PRELOAD": lib, "MPSV_STACK": "64", "MPSV_ENV": "1"}),
             run(plain, sc, 0, {"MALLOC_PERTURB_": "254", "LD_PRELOAD": lib, "MPSV_STACK": "1", "MPSV_ENV": "no", "MPSV_VARY": "5"}),
             run(plain, other, 2, {"MALLOC_PERTURB_": "255", "LD_PRELOAD": lib, "MPSV_CLOCK": TICKS[len(sc.parts) % len(TICKS)], "TZ": "Asia/Tokyo", "OMP_NUM_THREADS": "5"}, 7777),
             run(pattern, sc, 4, {"MALLOC_PERTURB_": "1"}),
             run(zero, sc, 5, {"MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "1000000", "LC_ALL": "C"}, 100)]
    return {"name": sc.name, "again": again}


def scenarios():
    r = rng("c27")
    out = []
    for n in range(num(60, 500)):
        kw = radii(r, 1.6, 3.6)
        m = n % 3
        if m == 0:
            kw.update({"pressureCalculationMethod": "Implicit", "compressibility": r.choice([1e-6, 0.45e-9]), "surfaceDetection-particleDistribution": r.random() < 0.5})
        elif m == 1:
            kw.update(soundSpeed=r.choice([1.0, 5.0]))
        l0 = r.choice([1.0, 0.025])
        kw.update(l0=l0, kinematicViscosity=r.choice([0, 0.5]) * l0 * l0, gmax=5.0, collisionDistanceRatio=r.choice([0.0, 0.5, 0.9]), fmt=r.choice(["csv", "prof", "vtu"]),
                  outputVtkInBinary=r.choice([True, False, None]), outputPeriod=r.choice([0.0, 0.03, 0.03]))
        rhos = (None, 700.0, 1300.0) if r.random() < 0.5 else (None,)
        if r.random() < 0.5:
            sc = block(r, "flow%d" % n, vmax=r.choice([0.3, 20.0]), ghosts=2, steps=4, rhos=rhos, **kw)
        else:
            sc = cloud(r, "cloud%d" % n, mind=0.4, vmax=r.choice([0.5, 30.0]), steps=5, rhos=rhos, **kw)
        if r.random() < 0.3:
            a = r.randrange(sc.settings["dim"])
            hi = list(sc.settings["domainMax"])
            hi[a] = sorted(q.x[a] for q in sc.parts)[-2] + 0.01 * l0
            sc.settings["domainMax"] = hi
        out.append(sc)
    # a cube, large enough for several buckets
    out.append(block(r, "large", dim=2, counts=(20, 30, 1), l0=0.025, squeeze=0.97, vmax=1.0, steps=6, **{"pressureCalculationMethod": "Implicit", "gravity": [0.0, -9.8, 0.0]}))
    out.append(Scenario("nobody", []))
    out.append(Scenario("walls only", [P(WALL, (i, 0, 0)) for i in range(4)], pressureCalculationMethod="Implicit"))
    return out


def check(ctx):
    twins(ctx)
    plain = env.mps_binary()
    pattern = os.path.join(env.repo_build(("mps",), "pattern", "-ftrivial-auto-var-init=pattern"), "mps")
    zero = plain if not env.THOROUGH else os.path.join(env.repo_build(("mps",), "zero", "-ftrivial-auto-var-init=zero"), "mps")
    lib = clock_library()

    def rec(scs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda sc: record((plain, pattern, zero), lib, sc), scs))
    ctx.conform("repeated runs", scenarios(), INV, module="ReproTrace", record=rec, minimum={"repeated": 100, "files": 500})
