"""C19: generators overwrite inputs only with consent."""
import json, os, shutil
import concurrent.futures as cf
from .. import env, sim, tlc
from ..scen import *

MC = """---- MODULE MCDialogue ----
EXTENDS Dialogue, Json, SequencesExt
Ins == UNION {[1..m -> Yes \\cup No \\cup {"", "x"}] : m \\in 0..%d}
Spec == DSpec(SUBSET Own, Ins)
Ins2 == UNION {[1..m -> Yes \\cup No \\cup Others] : m \\in 0..%d} \\cup {<<a, "x", "yes", "">> \\o <<b>> : a \\in {"", "no"}, b \\in Yes \\cup No \\cup Others}
Cases == {[there |-> SetToSeq(t), input |-> i] : t \\in SUBSET Own, i \\in Ins2}
ASSUME JsonSerialize("%s", SetToSeq(Cases))
====
"""
MODEL = """SPECIFICATION Spec
INVARIANTS AllOrNothing NothingBeforeConsent AsksIffThere
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


class Case:
    parts = []

    def __init__(self, name, gen, there, input, kind, newline):
        self.name, self.gen, self.there, self.input, self.kind, self.newline = name, gen, there, input, kind, newline


def tree(d):
    return {os.path.relpath(os.path.join(t, f), d): open(os.path.join(t, f), "rb").read() for t, _, fs in os.walk(d) for f in fs}


def record(exe, fresh, c):
    d = env.newdir("gen")
    top = d + "/input/" + c.gen
    # how much of the directory exists (only if none of the files does)
    if c.there or c.kind % 3 == 2:
        os.makedirs(top)
    elif c.kind % 3 == 1:
        os.mkdir(d + "/input")
    # what is in the old files: something, nothing at all, what the generator writes anyway plus something
    for f in c.there:
        data = [b"old contents\n", b"", fresh[f] + b"more\n", b"x" * (len(fresh[f]) + 100)][c.kind % 4]
        open("%s/input.%s" % (top, f), "wb").write(data)
    if os.path.isdir(top) and c.kind % 2:
        open(top + "/settings.yml", "w").write("dim: 2\n")
        if c.kind % 4 == 1:
            open(top + "/input.csv", "w").write("not one of the generator's files\n")
    before = tree(d)
    stdin = "\n".join(c.input) + ("\n" if c.input and (c.newline or c.input[-1] == "") else "")
    o = sim.execute([exe], d, 20, stdin=stdin.encode())
    after = tree(d)
    disk, complete = {}, {}
    for f in ("prof", "vtu"):
        p = "input/%s/input.%s" % (c.gen, f)
        complete[f] = after.get(p) == fresh[f]
        disk[f] = "nothing" if p not in after else "old" if p in before and after[p] == before[p] else "new"
    own = {"input/%s/input.%s" % (c.gen, f) for f in ("prof", "vtu")}
    others = {p: b for p, b in before.items() if p not in own} == {p: b for p, b in after.items() if p not in own}
    shutil.rmtree(d, True)
    return {"name": c.name, "there": c.there, "input": c.input, "exit": o.exit, "hung": o.timeout, "asked": o.out.lower().count("y/n)"),
            "disk": disk, "complete": complete, "others": others}


def check(ctx):
    path = os.path.join(env.newdir("cases"), "cases.json")
    ctx.model("Dialogue", "MCDialogue", MODEL, modules={"MCDialogue": MC % (4 if env.THOROUGH else 3, 3 if env.THOROUGH else 2, path)})
    todo = json.load(open(path))
    bdir = env.repo_build(("generate_dambreak", "generate_hydrostatic"))
    cases, fresh, exes = [], {}, {}
    for gen in ("dambreak", "hydrostatic"):
        exes[gen] = os.path.join(bdir, "generator", "generate_" + gen)
        d = env.newdir("fresh")
        sim.execute([exes[gen]], d, 20, stdin=b"")
        # the files of a fresh directory (C20 says what has to be in them)
        fresh[gen] = {f: (open("%s/input/%s/input.%s" % (d, gen, f), "rb").read() if os.path.exists("%s/input/%s/input.%s" % (d, gen, f)) else b"?")
                      for f in ("prof", "vtu")}
        for i, c in enumerate(sorted(todo, key=lambda c: json.dumps(c))):
            for kind in range(num(1, 3)):
                cases.append(Case("%s %s %s" % (gen, "+".join(sorted(c["there"])) or "none", json.dumps(c["input"]).replace('"', "'")), gen, sorted(c["there"]), c["input"], i + kind, i % 2 == 0))

    def rec(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: record(exes[c.gen], fresh[c.gen], c), cs))
    ctx.conform("dialogues", cases, ["Conforms", "Asks", "Whole"], module="DialogueTrace", record=rec, minimum={"written": 100, "asked": 100})
