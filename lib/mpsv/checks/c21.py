"""C21: parallel loops are race free."""
import json, os, subprocess
import concurrent.futures as cf
from .. import env, sim
from ..scen import *

MODEL = """SPECIFICATION PSpec
CONSTANTS Threads = {%s} Cells = {%s} MaxLen = %d
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
INV = ["Shape", "RaceFree", "SameResult"]


def scenarios():
    r = rng("c21")
    out = []
    for n in range(num(16, 120)):
        dim = r.choice([2, 2, 3])
        l0 = 1.0
        kw = radii(r, 1.6, 3.2)
        kw.update(pressureCalculationMethod="Implicit" if n % 2 else "Explicit", soundSpeed=r.choice([1.0, 3.0]), compressibility=1e-4,
                  kinematicViscosity=0.1, collisionDistanceRatio=r.choice([0.6, 0.98]), gmax=4.0, dim=dim, l0=l0, dt=0.01, steps=2, vmax=3.0,
                  numPhysicalCores=r.choice([1, 4]), rhos=(None, 800.0), cflCondition=r.choice([0.01, 1.0]), mayfail=True)
        kw["surfaceDetection-particleDistribution"] = r.choice([True, False])
        if r.random() < 0.6:
            sc = block(r, "b%d" % n, counts=r.choice([(4, 6, 1), (5, 5, 1)]) if dim == 2 else (3, 3, 3), jitter=0.1, ghosts=1, **kw)
        else:
            sc = cloud(r, "c%d" % n, n=r.randint(10, 40), mind=0.4, **kw)
        if n % 4 == 3:    # somebody leaves
            sc.settings["domainMax"][0] -= 0.3 * (sc.settings["domainMax"][0] - sc.settings["domainMin"][0])
        out.append(sc)
    return out


def check(ctx):
    ctx.model("parallel loops, 2 threads", "ParLoops", MODEL % ("1, 2", '"a", "b"', num(2, 3), "Deterministic"))
    ctx.model("parallel loops, 3 threads", "ParLoops", MODEL % ("1, 2, 3", '"a", "b"', num(1, 2), "Deterministic"))
    ctx.model("races show", "ParLoops", MODEL % ("1, 2", '"a", "b"', 2, "SomeRaceShows"), expect="SomeRaceShows")
    binary = env.parallel_binary()
    instrumented = binary is not None
    if not instrumented:
        binary = os.path.join(env.repo_build(("mps",), "omp", "-fopenmp"), "mps")
    names = {}
    if instrumented:
        for line in subprocess.run(["nm", "-C", binary], capture_output=True, text=True).stdout.splitlines():
            w = line.split(None, 2)
            if len(w) == 3 and "." in w[2]:
                names[w[0].lstrip("0")] = w[2]

    def one(sc):
        d = env.newdir("par")

        def go(t, seed, log=False):
            return sim.record(binary, sc, environ={"PAR_T": str(t), "PAR_SEED": str(seed), "OMP_NUM_THREADS": str(t), **({"PAR_LOG": d + "/log"} if log else {})})
        rec = go(1, 0)
        rec["others"] = [go(t, s) for t, s in ((2, 1), (5, 2), (8, 3), (64, 1))]
        rec["loops"] = []
        if instrumented:
            rec["others"].append(go(256, 5, log=True))
            # No log: the program died before its first parallel loop ended,
            # which rec["others"] shows.
            if os.path.exists(d + "/log"):
                with open(d + "/log") as f:
                    for line in f:
                        e = json.loads(line)
                        e["fn"] = names.get(e["fn"], e["fn"])
                        rec["loops"].append(e)
        for o in rec["others"]:
            for key in ("set", "x", "v", "rho"):
                del o[key]
        return rec

    def rec(scs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(one, scs))
    ctx.conform("schedules", scenarios(), INV, module="ParTrace", record=rec)
    ctx.cov["loops_seen"] = sorted({n for n in names.values() if "_omp_fn" in n})
