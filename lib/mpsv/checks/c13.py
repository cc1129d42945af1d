"""C13: time stepping and output schedule."""
import glob, os, re, shutil
from .. import env, sim
from ..scen import *
from ..sim import num as real

CFG = """SPECIFICATION MCSpec
PROPERTY Terminates
INVARIANTS Increasing FirstIsInitial NeverEarly NeverLate OnTime EveryStep EndsOnTime
CHECK_DEADLOCK FALSE
"""
MC = """---- MODULE MCSchedule ----
EXTENDS Schedule
Q(i) == RQ(i, 8)
MCConfigs == {[start |-> Q(s), end |-> Q(e), dt |-> Q(d), period |-> Q(p)] : s \\in %s, e \\in %s, d \\in %s, p \\in %s}
MCInit == SInit(MCConfigs)
MCSpec == MCInit /\\ [][SNext]_svars /\\ WF_svars(SNext)
====
"""


class Case:
    parts = []

    def __init__(self, name, start, end, dt, period, exact, fmt="csv", binary=True):
        self.name, self.start, self.end, self.dt, self.period, self.exact, self.fmt, self.binary = name, start, end, dt, period, exact, fmt, binary


def numbers(d, ext):
    out = []
    for f in sorted(os.listdir(d), key=lambda f: (len(f), f)) if os.path.isdir(d) else []:
        m = re.fullmatch(r"output_(\d{4,})\." + ext, f)
        out.append((int(m.group(1)) if m else -1, os.path.join(d, f)))
    return sorted(out)


def ascii_vtu(path):
    text = open(path).read()
    pos = re.search(r'Name="Position"[^>]*>\s*(\S+)', text).group(1)
    t = re.search(r'Name="Time"[^>]*>\s*(\S+)', text).group(1)
    return "#" + t, "#" + pos


def record(binary, c):
    big = 1e4
    sc = Scenario(c.name, [P(FLUID, (0, 0, 0), (1, 0, 0))], t0=c.start, fmt=c.fmt, dt=c.dt, endTime=c.end, outputPeriod=c.period,
                  domainMin=[-big, -1.0, 0.0], domainMax=[big, 1.0, 0.0], outputVtkInBinary=c.binary, particleDistance=4096.0)
    d = env.newdir("run")
    sc.write(d)
    o = sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 120)
    rec = {"name": c.name, "exact": c.exact, "exit": o.exit, "start": real(c.start), "end": real(c.end), "dt": real(c.dt), "period": real(c.period),
           "steps": len(sim.split_stderr(o.err)[2]), "binary": c.binary}
    for f in ("prof", "csv", "vtu"):
        ns, ts, ps = [], [], []
        for n, path in numbers(os.path.join(d, "out", f), f):
            ns.append(n)
            try:
                if f == "vtu":
                    if c.binary:
                        a = sim.read_vtu_binary(path)
                        t, p = real(a["Time"][0]), real(a["Position"][0])
                    else:
                        t, p = ascii_vtu(path)
                else:
                    lines = open(path).read().split("\n")
                    t = "#" + lines[0].strip()
                    p = "#" + (lines[2].split()[1] if f == "prof" else lines[3].split(",")[2])
            except (ValueError, KeyError, IndexError, AttributeError):
                t = p = "#nan"
            ts.append(t)
            ps.append(p)
        rec[f] = {"num": ns, "time": ts, "pos": ps}
    shutil.rmtree(d, True)
    return rec


def exact_cases():
    """Every combination of small dyadic times."""
    out = []
    starts = (0, 1, 3, -2) if not env.THOROUGH else (0, 1, 3, 8, -2)
    for s in starts:
        for e in ((0, 2, 3, 5, 8, 9) if not env.THOROUGH else range(-3, 14)):
            for d in (1, 2, 3) if not env.THOROUGH else (1, 2, 3, 4, 7):
                for p in (0, 1, 2, 3, 5) if not env.THOROUGH else (0, 1, 2, 3, 4, 5, 7, 20):
                    out.append(Case("ticks%d-%d-%d-%d" % (s, e, d, p), s / 8, e / 8, d / 8, p / 8, True,
                                    fmt=("csv", "prof", "vtu")[len(out) % 3], binary=len(out) % 2 == 0))
    return out


def real_cases():
    r = rng("c13")
    out = []
    for n in range(num(150, 800)):
        dt = r.choice([0.001, 0.0005, 0.01, 0.1, 0.3, 1 / 3, 1e-5, 7.0])
        start = r.choice([0.0, 0.0, 0.1, 2.0, 1 / 3, -0.05]) * r.choice([1, dt])
        steps = r.choice([1, 3, 17, 60, 150])
        end = start + dt * (steps + r.choice([0, 0, -0.5, 0.25]))
        period = dt * r.choice([0, 0.5, 1, 1, 2, 2.5, 5, 10, 1.0001, steps, 1000])
        out.append(Case("real%d" % n, start, end, dt, period, False, fmt=r.choice(["csv", "prof", "vtu"]), binary=r.random() < 0.7))
    return out


def many_steps():
    return Case("many steps", 0.0, 66000 / 8, 1 / 8, 20000.5 / 8, True)


def check(ctx):
    if env.THOROUGH:
        sets = ("-4..6", "-4..16", "1..6", "0..12")
    else:
        sets = ("{0, 3, -2}", "-3..10", "1..4", "0..6")
    ctx.model("Schedule", "MCSchedule", CFG, modules={"MCSchedule": MC % sets})
    binary = env.mps_binary()
    import concurrent.futures as cf

    def rec(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: record(binary, c), cs))
    cases = exact_cases() + real_cases()
    # more than 9999 files (the number outgrows its four digits)
    cases.append(Case("many files", 0.0, 10020 / 8, 1 / 8, 0.0, True))
    # more steps than 16 bits count
    cases.append(many_steps())
    ctx.conform("schedules", cases, ["Completes", "StepsConform", "NumbersConform", "StatesConform", "TimesConform", "BinaryTimesConform", "ALIAS Glance"],
                module="ScheduleTrace", record=rec)
