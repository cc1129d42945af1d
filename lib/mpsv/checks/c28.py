"""C28: the progress report tells the truth."""
import concurrent.futures as cf
import os, re, shutil, subprocess
from .. import env, sim
from ..scen import *
from ..sim import num as real
from . import c13
from .c13 import Case

INV = ["Completes", "RealNumbers", "EachStepOnce", "TimesTold", "ScheduleTold", "FilesTold", "ClockTold", "ClockLooked", "Announced", "ALIAS Glance"]
NUM = r"([-+]?(?:[\d.]+(?:e[-+]?\d+)?|inf|nan))"
DUR = r"(-?\d+)h\s+(-?\d+)m\s+(-?\d+)s"
LINE = re.compile(r"^(\d+): dt=" + NUM + r"s\s+t=" + NUM + r"s\s+fin=" + NUM + r"s\s+elapsed=" + DUR + r"\s+remain=" + DUR +
                  r"\s+ave=" + NUM + r"s/step\s+last=" + NUM + r"s/step\s+out=(\d+)files\s+Courant=" + NUM + r"\s*$")


def seconds(h, m, s):
    return "#%d" % (int(h) * 3600 + int(m) * 60 + int(s))


def clock_library():
    lib = os.path.join(env.newdir("clk"), "clock.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", lib, os.path.join(env.VERIF, "harness/clock.c")], capture_output=True, text=True)
    if r.returncode:
        raise env.ToolError("clock.c: " + r.stderr[:500])
    return lib


def record(binary, lib, c):
    sc = Scenario(c.name, [P(FLUID, (0, 0, 0), (1, 0, 0))], t0=c.start, fmt=c.fmt, dt=c.dt, endTime=c.end, outputPeriod=c.period,
                  domainMin=[-1e4, -1.0, 0.0], domainMax=[1e4, 1.0, 0.0], outputVtkInBinary=True, particleDistance=4096.0)
    d = env.newdir("run")
    sc.write(d)
    e = {"LD_PRELOAD": lib, "MPSV_CLOCK": "%d" % (c.tick * 1000000000), "MPSV_VARY": "%d" % c.vary} if c.tick else None
    o = sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 120, environ=e)
    rec = {"name": c.name, "exact": c.exact, "exit": o.exit, "start": real(c.start), "end": real(c.end), "dt": real(c.dt), "period": real(c.period)}
    pos = []
    for n, path in c13.numbers(d + "/out/vtu", "vtu"):
        try:
            pos.append(real(sim.read_vtu_binary(path)["Position"][0]))
        except (ValueError, KeyError, IndexError):
            pos.append("#nan")
    lines = o.out.splitlines()
    rep, at = [], []
    for i, l in enumerate(lines):
        m = LINE.match(l)
        if m:
            g = m.groups()
            at.append(i)
            rep.append({"n": int(g[0]), "dt": "#" + g[1], "t": "#" + g[2], "fin": "#" + g[3], "elapsed": seconds(*g[4:7]), "remain": seconds(*g[7:10]),
                        "ave": "#" + g[10], "last": "#" + g[11], "out": int(g[12])})
    err = sim.split_stderr(o.err)[2]
    first, last = (at[0], at[-1]) if at else (len(lines), -1)
    total = [m.groups() for m in (re.match(r"^Total Simulation time = " + DUR + r"\s*$", l) for l in lines[last + 1:]) if m]
    begins = sum("START SIMULATION" in l for l in lines[:first])
    ends = sum("END SIMULATION" in l for l in lines[last + 1:])
    stray = sum("SIMULATION ***" in l for l in lines) - begins - ends
    rec.update(vtu={"pos": pos}, steps=len(err), report=rep, err=[{"n": n, "t": "#" + t} for n, t in err], tick="#%d" % c.tick,
               begins=begins + stray, ends=ends + stray, total=seconds(*total[0]) if len(total) == 1 else "#-1")
    shutil.rmtree(d, True)
    return rec


def check(ctx):
    sets = ("-2..6", "-3..12", "1..4", "0..8") if env.THOROUGH else ("{0, 3}", "0..6", "1..3", "0..5")
    ctx.model("Schedule", "MCSchedule", c13.CFG, modules={"MCSchedule": c13.MC % sets})
    binary, lib = env.mps_binary(), clock_library()
    r = rng("c28")
    cases = r.sample(c13.exact_cases(), num(100, 900)) + r.sample(c13.real_cases(), num(60, 500))
    cases.append(c13.many_steps())
    for i, c in enumerate(cases):
        c.tick = 0 if i % 4 == 0 else r.choice([1, 7, 100, 3600, 4321])
        c.vary = r.choice([1, 2, 5])
    long = Case("long", 0.0, num(2500, 12000) / 8, 1 / 8, 250.5 / 8, True)
    long.tick, long.vary = 7, 5
    cases.append(long)

    def rec(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: record(binary, lib, c), cs))
    ctx.conform("reports", cases, INV, module="ReportTrace", record=rec, minimum={"steps": 500})
