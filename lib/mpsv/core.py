"""The frame of a check: evidence, violations, trace validation, model checking."""
import json, os, re, shutil, sys, time, traceback
from . import env, sim, tlc

OUT = os.path.join(env.VERIF, "out")


class Violated(Exception):
    pass


class Ctx:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.states = self.distinct = self.traces = self.evals = self.nontrivial = 0
        self.notes = []
        self.known = known_findings(pid)
        self.tally = {}

    # ---- reporting --------------------------------------------------------------------------
    def replay_dir(self):
        d = os.path.join(OUT, self.pid)
        shutil.rmtree(d, True)
        os.makedirs(d)
        return d

    def violation(self, clause, text, files=None, copydir=None):
        d = self.replay_dir()
        if copydir:
            shutil.copytree(copydir, os.path.join(d, "run"), dirs_exist_ok=True)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        with open(os.path.join(d, "replay.txt"), "w") as f:
            f.write("property %s, clause %s\n\n%s\n" % (self.pid, clause, text))
        print("violated clause: %s" % clause)
        print(text[:1500])
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(d, "replay.txt")), flush=True)
        raise Violated()

    # ---- model checking of the specification itself -----------------------------------------
    def model(self, name, module, cfg, expect=None, **kw):
        """A design model has to hold whatever the code does; if not, the machinery is at fault.
        expect: an invariant that must be violated instead, to show that the model is not empty."""
        r = tlc.run(module, cfg, **kw)
        if expect:
            if r.ok or r.violated != expect:
                raise env.ToolError("the specification %s does not reach a state against %s" % (name, expect))
            self.notes.append({"model": name, "reaches": "not " + expect})
            return r
        if not r.ok:
            env.log(r.trace[:4000])
            raise env.ToolError("the specification %s breaks its own property %s" % (name, r.violated))
        self.states += r.states
        self.distinct += r.distinct
        self.notes.append({"model": name, "states": r.states, "distinct": r.distinct, "wall_s": round(r.wall, 1)})
        env.log("model %s: %d states, %d distinct, %.1f s" % (name, r.states, r.distinct, r.wall))
        return r

    # ---- conformance ------------------------------------------------------------------------
    def conform(self, name, scenarios, invariants, module="MPSTrace", consts="", record=None, timeout=800, minimum=None, hopeless=False):
        """Record the scenarios on the real program, and let TLC check the recordings against the module."""
        if not scenarios:
            return []
        binary = env.mps_binary() if record is None else None
        t = time.time()
        recs = sim.record_all(binary, scenarios) if record is None else record(scenarios)
        # a solver may give up now and then, but not as a rule (unless the equations are made to have no solution)
        gaveup = sum(1 for x in recs if x.get("solverfailed"))
        often = gaveup > max(1, len(recs) // 20) and not hopeless

        def strict(recs):
            for x in recs if often else ():
                x["mayfail"] = False
            return recs
        strict(recs)
        if gaveup:
            self.tally["gaveup"] = self.tally.get("gaveup", 0) + gaveup
        t1 = time.time()
        bad = self.check_trace(name, recs, invariants, module, consts, timeout)
        env.log("%s: %d runs recorded in %.1f s, checked in %.1f s" % (name, len(recs), t1 - t, time.time() - t1))
        if bad is not None:
            idx, clause, text = bad
            sc = scenarios[idx - 1]
            # a rejection counts only if it happens again
            for _ in range(5):
                again = strict(sim.record_all(binary, [sc]) if record is None else record([sc]))
                bad2 = self.check_trace(name + "-again", again, invariants, module, consts, timeout)
                if bad2 is not None:
                    break
            if bad2 is None:
                raise env.ToolError("a rejected recording of %s was accepted when repeated" % sc.name)
            d = env.newdir("replay")
            shutil.rmtree(d)
            if record is None:
                sim.record(binary, sc, keepdir=d)
            sim.write_trace(again, d + "/trace.ndjson") if os.path.isdir(d) else None
            self.violation(bad2[1], "scenario %s (%s)\n\n%s" % (sc.name, name, bad2[2]),
                           copydir=d if os.path.isdir(d) else None)
        self.traces += len(recs)
        if len(self.samples) < 3:
            sc = scenarios[0]
            self.samples.append({"family": name, "scenario": getattr(sc, "name", str(sc)),
                                 "settings": getattr(sc, "settings", None) and {k: v for k, v in sc.settings.items() if sim.DEFAULTS.get(k) != v},
                                 "particles": len(getattr(sc, "parts", [])), "clauses": list(invariants)})
        for key, least in (minimum or {}).items():
            have = self.tally.get(key, 0)
            if have < least:
                raise env.ToolError("%s: only %d of %s exercised, expected %d" % (name, have, key, least))
        return recs

    def check_trace(self, name, recs, invariants, module, consts, timeout):
        path = os.path.join(env.newdir("trace"), "trace.ndjson")
        sim.write_trace(recs, path)
        cfg = 'SPECIFICATION TSpec\nCONSTANT TraceFile = "%s"\n%s\nCHECK_DEADLOCK FALSE\n' % (path, consts)
        cfg += "".join("%s\n" % i if " " in i else "INVARIANT %s\n" % i for i in invariants)
        r = tlc.run(module, cfg, timeout=timeout)
        self.states += r.states
        self.distinct += r.distinct
        if r.ok:
            done = 0
            for body in re.findall(r'<<\s*"TALLY",\s*\d+,\s*"[^"]*",\s*\[(.*?)\]\s*>>', r.out, re.S):
                done += 1
                for k, v in re.findall(r"(\w+) \|-> (\d+)", body):
                    self.tally[k] = self.tally.get(k, 0) + int(v)
            if done != len(recs):
                raise env.ToolError("%s: TLC finished %d of %d runs\n%s" % (name, done, len(recs), r.out[-1500:]))
            os.unlink(path)
            return None
        m = re.findall(r"/\\ run = (\d+)", r.trace)
        idx = int(m[-1]) if m else 1
        return idx, r.violated, brief(r.trace)

    # ---- evidence ---------------------------------------------------------------------------
    def evidence(self, violations):
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.states, distinct_states=self.distinct,
                       traces_validated_against_impl=self.traces, samples=self.samples)
        else:
            cov.setdefault("evaluations", self.evals or self.traces)
            cov.setdefault("distinct_nontrivial", self.nontrivial or self.traces)
            cov.update(states=self.states, traces_validated_against_impl=self.traces, samples=self.samples)
        if self.tally:
            cov["compared"] = self.tally
        if self.notes:
            cov["models"] = self.notes
        ev = {"property": self.pid, "tier": "thorough" if env.THOROUGH else "quick", "seed": env.SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def brief(trace):
    """The error trace without its bulk."""
    lines = []
    for line in trace.splitlines():
        lines.append(line if len(line) < 4000 else line[:4000] + " ...")
    # the last states say most
    text = "\n".join(lines)
    return text if len(text) < 60000 else text[:3000] + "\n...\n" + text[-57000:]


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(env.VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line[len("finding: property=%s " % pid):].strip())
    except OSError:
        pass
    return out


def main(pid):
    import importlib
    mod = importlib.import_module("mpsv.checks." + pid.lower())
    ctx = Ctx(pid, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.check(ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        ctx.evidence(0)
        print("property %s held: %d states, %d runs of the program, %.1f s" % (pid, ctx.states, ctx.traces, time.time() - ctx.t0))
        return 0
    except Violated:
        ctx.evidence(1)
        return 1
    except env.ToolError as e:
        env.log("ERROR: the check could not decide: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
