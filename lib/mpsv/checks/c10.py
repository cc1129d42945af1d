"""C10: implicit pressure solves the Poisson equation."""
from .. import laws
from ..scen import *

INV = ["Shape", "Complete", "ImplicitPressureConforms", "PressureNeverNegative", "PressureZeroWhereIgnored", "UnsolvableRefused"]


def scenarios():
    r = rng("c10")
    out = []
    for n in range(num(50, 500)):
        kw = radii(r, 1.6, 4.0)
        kw["pressureCalculationMethod"] = "Implicit"
        kw["compressibility"] = r.choice([0.45e-9, 1e-6, 1e-4])
        kw["relaxationCoefficientForPressure"] = r.choice([0.2, 1.0, 0.05, 1e-12])
        kw["surfaceDetection-numberDensity-threshold"] = r.choice([0.3, 0.6, 0.9, 0.97])
        kw["surfaceDetection-particleDistribution"] = r.random() < 0.5
        kw["collisionDistanceRatio"] = r.choice([0.0, 0.5])
        kw["defaultDensity"] = r.choice([1000.0, 1.0])
        gen = r.choice([block, block, cloud])
        if gen is cloud:
            kw["mind"] = 0.5
        kw["rhos"] = r.choice([(None,), (None, 800.0, 1300.0)])
        out.append(gen(r, "ppe%d" % n, vmax=r.choice([0, 0.5]), mayfail=True, dt=r.choice([0.001, 0.01]), **kw))
    out += [sc for sc in long_runs(r, "ppelong") if sc.settings["pressureCalculationMethod"] == "Implicit"]
    # a deep vessel with a single free layer: pressure has far to go, and the solver much to do
    for m, dim, counts in ((0, 2, (num(30, 44), num(36, 60), 1)), (1, 3, (num(8, 11), num(10, 13), num(8, 11)))):
        kw = {"surfaceDetection-numberDensity-threshold": 0.75, "surfaceDetection-particleDistribution": True}
        out.append(block(r, "ppedeep%d" % dim, dim=dim, counts=counts, steps=1, jitter=0.02, squeeze=1.0, vmax=0.05, l0=0.025, dt=0.001, gmax=10.0,
                         pressureCalculationMethod="Implicit", compressibility=1e-9, collisionDistanceRatio=0.5, **kw))
    # ... and a tall one, which takes it many rounds
    out.append(block(r, "ppetall", dim=2, counts=(3, num(200, 500), 1), steps=1, jitter=0.02, squeeze=1.0, vmax=0.05, l0=0.025, dt=0.001, gravity=[0.0, -9.8, 0.0],
                     pressureCalculationMethod="Implicit", compressibility=1e-9, collisionDistanceRatio=0.5,
                     **{"surfaceDetection-numberDensity-threshold": 0.5, "surfaceDetection-particleDistribution": True,
                        "surfaceDetection-particleDistribution-threshold": 2.0}))
    # a crowd that bursts: pressed hard in one step, and all apart in the next
    out += [burst(r, "ppeburst%d" % n, pressureCalculationMethod="Implicit", compressibility=1e-6, mayfail=True) for n in range(num(4, 30))]
    out.append(block(r, "ppebig", dim=2, counts=(num(18, 30), num(18, 30), 1), steps=2, mayfail=True,
                     pressureCalculationMethod="Implicit"))
    return out


def pent():
    """No free surface, and a fluid that gives way to nothing: mostly there is no solution, and the program has to say so.
    Or to next to nothing: there is one, but hard to find."""
    r = rng("c10pent")
    out = []
    for n in range(num(40, 300)):
        kw = radii(r, 1.6, 4.0)
        kw["surfaceDetection-numberDensity-threshold"] = r.choice([0.0, 0.0, 0.3])
        kw["compressibility"] = r.choice([0.0, 0.0, 1e-20, 1e-16, 1e-12, 1e-10])
        kw["surfaceDetection-particleDistribution"] = r.random() < 0.5
        if r.random() < 0.5:
            kw["mind"] = 0.5
        out.append((cloud if "mind" in kw else block)(r, "pent%d" % n, vmax=0.1, mayfail=True, dt=0.01, pressureCalculationMethod="Implicit",
                                                      collisionDistanceRatio=0.0, **kw))
    return out


def check(ctx):
    laws.run(ctx)
    laws.replay(ctx, INV)
    ctx.conform("pressure equation", scenarios(), INV, minimum={"inner": 100, "pressed": 100})
    r = rng("c10l")
    crowd = [sc for sc in late(r, "late") + big(r, "big") if sc.settings["pressureCalculationMethod"] == "Implicit"]
    ctx.conform("long runs and crowds", crowd, INV)
    laws.replay(ctx, INV, only=[laws.PENT], together=1, hopeless=True)
    ctx.conform("equations without a solution", pent(), INV, hopeless=True)
