"""Running TLC on the specifications in /verif/spec."""
import os, re, subprocess, time
from . import env


class Result:
    def __init__(self):
        self.ok = False
        self.violated = None      # name of the violated invariant or property
        self.trace = ""           # TLC's error trace
        self.states = 0
        self.distinct = 0
        self.out = ""
        self.prints = []
        self.wall = 0.0
        self.coverage = {}


def run(module, cfg, workers=None, timeout=800, extra=(), mem="6g", xss="64m", deque=False, modules=None, coverage=False):
    """cfg: text of the configuration. modules: {name: text} of additional generated modules."""
    d = env.newdir("tlc")
    cp = env.java_classes() + ":" + env.TLA
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    for name, text in (modules or {}).items():
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write(text)
    if modules and module in modules:
        root = os.path.join(d, module + ".tla")
    else:
        root = os.path.join(env.SPEC, module + ".tla")
    cmd = ["java", "-Xmx" + mem, "-Xss" + xss, "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:mpsv.Overrides",
           "-Dtlc2.tool.queue.IStateQueue=" + ("StateDeque" if deque else "MemStateQueue"),
           "-DTLA-Library=" + env.SPEC, "-Djava.io.tmpdir=" + d,
           "-cp", cp, "tlc2.TLC", "-workers", str(workers or env.JOBS), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-nowarning", "-config", os.path.join(d, "run.cfg")]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [root]
    res = Result()
    t0 = time.time()
    outpath = os.path.join(d, "out.txt")
    with open(outpath, "w") as fo:
        try:
            r = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
            code = r.returncode
        except subprocess.TimeoutExpired:
            raise env.ToolError("TLC timed out on %s" % module)
    res.wall = time.time() - t0
    with open(outpath, errors="replace") as f:
        res.out = f.read()
    res.prints = re.findall(r'^(<<".*>>)$', res.out, re.M)
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", res.out)
    if m:
        res.states = int(m[-1][0].replace(",", ""))
        res.distinct = int(m[-1][1].replace(",", ""))
    if code == 0 and "Model checking completed. No error has been found." in res.out:
        res.ok = True
        return res
    if code == 0 and "-simulate" in extra:
        res.ok = True
        return res
    m = re.search(r"Error: Invariant (\S+) is violated", res.out) or \
        re.search(r"Error: Action property line .* of module (\S+) is violated", res.out) or \
        re.search(r"Error: Action property (\S+) is violated", res.out) or \
        re.search(r"Error: Temporal properties were violated", res.out) or \
        re.search(r"Error: (\S+) postcondition", res.out) or \
        re.search(r"Error: .*[Pp]ostcondition (\S+)", res.out)
    if m:
        res.violated = m.group(1) if m.groups() else "temporal"
        i = res.out.find("Error:")
        res.trace = res.out[i:]
        return res
    m = re.search(r"Error: Assumption (.*) is false", res.out)
    if m:
        res.violated = "assumption " + m.group(1)
        res.trace = res.out[res.out.find("Error:"):]
        return res
    env.log(res.out[-6000:])
    raise env.ToolError("TLC failed on %s (exit %s)" % (module, code))
