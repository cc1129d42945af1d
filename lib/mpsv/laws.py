"""Small scopes in which TLC checks the laws of the time step (spec/MPSLaws.tla). Nothing here judges."""
import json, random, re
from . import env, sim, tlc

RAW = {
    "dim": "2", "particleDistance": "One", "dt": "RQ(1, 8)", "endTime": "One", "outputPeriod": "Zero", "cflCondition": "One",
    "kinematicViscosity": "Zero", "gravity": "Zero3",
    "surfaceDetection-numberDensity-threshold": "RQ(3, 4)", "surfaceDetection-particleDistribution": "FALSE",
    "surfaceDetection-particleDistribution-threshold": "RQ(3, 4)", "pressureCalculationMethod": '"Explicit"',
    "compressibility": 'R("1e-3")', "relaxationCoefficientForPressure": "RQ(1, 4)", "soundSpeed": "One",
    "collisionDistanceRatio": "RQ(3, 4)", "coefficientOfRestitution": "RQ(1, 4)",
    "radiusRatioForNumberDensity": "RQ(5, 2)", "radiusRatioForGradient": "RQ(7, 4)", "radiusRatioForLaplacian": "RQ(9, 4)",
    "domainMin": "<<RI(-4), RI(-4), Zero>>", "domainMax": "<<RI(4), RI(4), Zero>>",
}


def record_text(d):
    # (keys with hyphens need the string form)
    return " @@ ".join('("%s" :> %s)' % kv for kv in d.items())


def scope(sites, kinds="{Fluid}", vels="{Zero3}", rhos="{RI(1)}", np=2, raws=None, order=False, **settings):
    """A set of setups: np particles on different sites; sites is an operator text for a set of points.
    order: particles in every order (otherwise sites are taken in increasing order)."""
    raws = raws or [{}]
    texts = []
    for r in raws:
        d = dict(RAW)
        d.update({k.replace("__", "-"): v for k, v in settings.items()})
        d.update({k.replace("__", "-"): v for k, v in r.items()})
        texts.append("Derive(%s)" % record_text(d))
    return {"params": "{" + ",\n  ".join(texts) + "}", "raws": [t[len("Derive("):-1] for t in texts], "sites": sites, "kinds": kinds, "vels": vels, "rhos": rhos, "np": np, "order": order}


def module(name, sc, steps, syms="{}"):
    return """---- MODULE %s ----
EXTENDS MPSLaws
Sites == %s
SiteNo == 1..Len(Sites)
Choices == {f \\in [1..%d -> SiteNo] : \\A i, j \\in 1..%d : i < j => f[i] %s f[j]}
Particles == {[type |-> t, ft |-> [i \\in 1..%d |-> i], rho |-> r, x |-> [i \\in 1..%d |-> Sites[f[i]]], v |-> u,
               p |-> [i \\in 1..%d |-> Zero], nd |-> [i \\in 1..%d |-> Zero], bc |-> [i \\in 1..%d |-> Ignored]] :
                 t \\in [1..%d -> %s], r \\in [1..%d -> %s], f \\in Choices, u \\in [1..%d -> %s]}
Params == %s
MCInit == LInit(Params \\X Particles)
MCNext == LNext(%d)
MCSpec == MCInit /\\ [][MCNext]_lvars
MCSyms(np) == %s
MCEquivariant == Equivariant(MCSyms)
====
""" % (name, sc["sites"], sc["np"], sc["np"], "#" if sc["order"] else "<", *[sc["np"]] * 6, sc["kinds"], sc["np"], sc["rhos"], sc["np"], sc["vels"],
       sc["params"], steps, syms)


def check(ctx, name, sc, invariants, properties=(), steps=1, syms="{}", expect=(), timeout=700):
    mods = {"MCLaws": module("MCLaws", sc, steps, syms)}
    cfg = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\n"
    body = "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % i for i in properties)
    ctx.model(name, "MCLaws", cfg + body, modules=mods, timeout=timeout)


def lattice(nx, ny, step="One", x0="Zero", y0="Zero"):
    pts = ["<<%s (+) (%s (.) RI(%d)), %s (+) (%s (.) RI(%d)), Zero>>" % (x0, step, i, y0, step, j) for i in range(nx) for j in range(ny)]
    return "<<" + ", ".join(pts) + ">>"


ALLKINDS = "{Ghost, Fluid, Wall, Dummy}"
IMPLICIT = {"pressureCalculationMethod": '"Implicit"'}
STILL = "{Zero3}"
ALONG = "{Zero3, <<RI(2), Zero, Zero>>, <<RI(-2), RI(1), Zero>>}"
CUBE = "<<" + ", ".join("<<RQ(%d, 2), RQ(%d, 2), RQ(%d, 2)>>" % (i, j, k) for i in range(2) for j in range(2) for k in range(2)) + ">>"
BOX3 = dict(dim="3", domainMin="<<RI(-4), RI(-4), RI(-4)>>", domainMax="<<RI(4), RI(4), RI(4)>>")

SYMS = """{[axes |-> a, sign |-> g, off |-> o, ren |-> r, len |-> u[1], tim |-> u[2], den |-> u[3]] :
    a \\in {<<1, 2, 3>>, <<2, 1, 3>>}, g \\in {<<One, One, One>>, <<RI(-1), One, One>>}, o \\in {Zero3, <<RQ(7, 2), RI(-3), RI(1)>>},
    r \\in {[i \\in 1..np |-> i], [i \\in 1..np |-> np + 1 - i]}, u \\in {<<One, One, One>>, <<RI(2), RQ(1, 2), RI(4)>>}}"""


def families(pid, thorough):
    """(name, scope, invariants, properties, steps, symmetries) for a property."""
    h = "RQ(1, 2)"
    lat = lattice
    out = []
    if pid == "C02":
        small = dict(domainMin="<<Zero, Zero, Zero>>", domainMax="<<RQ(3, 4), RI(1), Zero>>", kinematicViscosity="RQ(1, 4)")
        out.append(("ghosts", scope(lat(3, 2, h), ALLKINDS, ALONG if thorough else "{Zero3, <<RI(2), Zero, Zero>>}", np=3 if thorough else 2,
                                    raws=[{}, IMPLICIT], **small),
                    ["SearchCleans", "GhostsIsolated", "NeighboursOK"], ["GhostsFrozen", "LeaversWarned", "OnlyOutsideLeaves", "RefinesAbstract"], 2))
        out.append(("three with a ghost", scope(lat(2, 2, h), "{Ghost, Fluid, Wall}", STILL, np=3, raws=[{}, IMPLICIT], **small),
                    ["SearchCleans", "GhostsIsolated", "NeighboursOK"], ["GhostsFrozen", "LeaversWarned", "OnlyOutsideLeaves", "RefinesAbstract"], 2))
    if pid in ("C03", "C04"):
        out.append(("pairs", scope(lat(3, 2, h), ALLKINDS, "{Zero3, <<RI(4), RI(1), Zero>>}", np=2, raws=[{}, IMPLICIT], kinematicViscosity="RQ(1, 4)",
                                   gravity="<<Zero, RI(-10), Zero>>", domainMax="<<RQ(3, 4), RI(2), Zero>>"),
                    [], ["WallsStay", "Conserved", "RefinesAbstract"], 3 if thorough else 2))
        out.append(("triples", scope(lat(2, 2, h), "{Fluid, Wall, Dummy}", "{Zero3}" if not thorough else "{Zero3, <<RI(4), RI(1), Zero>>}", np=3,
                                     raws=[{}, IMPLICIT], gravity="<<Zero, RI(-10), Zero>>"),
                    [], ["WallsStay", "Conserved", "RefinesAbstract"], 2))
    if pid == "C05":
        far = "<<Zero3, <<RI(1), Zero, Zero>>, <<RI(16), Zero, Zero>>, <<RI(-16), RI(4), Zero>>>>"
        out.append(("far apart", scope(far, ALLKINDS, ALONG, np=2, gravity="<<RI(1), RI(-10), Zero>>", raws=[{}, IMPLICIT],
                                       domainMin="<<RI(-32), RI(-32), Zero>>", domainMax="<<RI(32), RI(32), Zero>>"),
                    [], ["FreeFall"], 3))
    if pid == "C06":
        out.append(("viscosity", scope(lat(2, 2), "{Fluid, Wall, Dummy}", ALONG if thorough else "{Zero3, <<RI(2), RI(1), Zero>>}", np=3,
                                       kinematicViscosity="RQ(1, 2)", collisionDistanceRatio="Zero", raws=[{}]),
                    [], ["ViscosityKeeps", "ViscosityDiffuses"], 1))
    if pid == "C07":
        out.append(("pairs", scope(lat(3, 2, h), ALLKINDS, ALONG, rhos="{RI(1), RI(3)}", np=2, coefficientOfRestitution="RQ(1, 4)"),
                    ["PairsOK", "AllPairsThere", "Commute"], ["PairLaws"], 1))
        out.append(("crowds", scope(lat(2, 2, "RQ(3, 8)"), "{Fluid, Wall, Dummy}", ALONG if thorough else "{Zero3, <<RI(2), RI(1), Zero>>}", np=3,
                                    collisionDistanceRatio="RQ(1, 2)"),
                    ["PairsOK", "AllPairsThere", "Commute"], ["PairLaws"], 1))
        out.append(("space", scope(CUBE, "{Fluid, Wall}", "{Zero3, <<RI(2), RI(1), RI(-1)>>}", np=2, **BOX3),
                    ["PairsOK", "AllPairsThere", "Commute"], ["PairLaws"], 1))
    if pid == "C08":
        out.append(("pairs", scope(lat(4, 2), ALLKINDS, "{Zero3, <<RI(2), Zero, Zero>>}", np=2, domainMax="<<RQ(5, 2), RI(4), Zero>>",
                                   raws=[{}, {"radiusRatioForNumberDensity": "RQ(3, 2)"}]), ["DensityLaws", "NeighboursOK"], [], 2))
        out.append(("triples", scope(lat(3, 2), ALLKINDS, STILL, np=3), ["DensityLaws", "NeighboursOK"], [], 1))
    if pid in ("C09", "C10", "C12"):
        invs = {"C09": ["Classified"], "C10": ["Dominant", "SymmetricMatrix", "Solvable", "PressureOK", "NoCompressionNoPressure", "PentBalance", "OpenSolved"], "C12": ["OnlyPushes"]}[pid]
        low = dict(IMPLICIT, **{"surfaceDetection-numberDensity-threshold": "RQ(1, 8)"})
        dist = dict(IMPLICIT, **{"surfaceDetection-particleDistribution": "TRUE"})
        near = dict(collisionDistanceRatio="RQ(1, 4)", radiusRatioForNumberDensity="RQ(7, 4)", radiusRatioForLaplacian="RQ(7, 4)", radiusRatioForGradient="RQ(3, 2)")
        raws = [low, dist] if pid != "C12" else [low, {"soundSpeed": "RI(2)"}]
        out.append(("small crowds", scope(lat(3, 2, h), ALLKINDS if thorough else "{Fluid, Wall, Dummy}", STILL, rhos="{RI(1)}" if not thorough else "{RI(1), RI(2)}", np=3,
                                          raws=raws, **near), invs, [], 1))
        out.append(("crowds of five", scope(lat(3, 2, h), "{Fluid, Wall}" if not thorough else "{Fluid, Wall, Dummy}", STILL, np=5, raws=raws, **near), invs, [], 1))
        if pid == "C10":
            out.append(("two densities", scope(lat(3, 2, h), "{Fluid}", STILL, rhos="{RI(1), RI(2)}", np=3, raws=[low], **near), invs, [], 1))
            # a fluid that gives way to nothing, with and without a free surface
            firm = [dict(low, **{"surfaceDetection-numberDensity-threshold": b, "compressibility": "Zero"}) for b in ("Zero", "RQ(3, 4)", "RQ(5, 4)")]
            out.append((PENT, scope(lat(3, 2, h), "{Fluid, Wall, Dummy}", STILL, rhos="{RI(1), RI(2)}" if thorough else "{RI(1)}", np=3, raws=firm, **near),
                        ["SymmetricMatrix", "FailsOnlyIfPent", "PentBalance", "OpenSolved", "NoneOrMany"], [], 1))
        if thorough:
            out.append(("crowds of seven", scope(lat(3, 3, h), "{Fluid, Wall}", STILL, np=7, raws=raws, **near), invs, [], 1))
    if pid == "C11":
        out.append(("crowds", scope(lat(3, 2, h), ALLKINDS if thorough else "{Ghost, Fluid, Dummy}", STILL, rhos="{RI(1), RI(2)}", np=3, soundSpeed="RI(2)",
                                    radiusRatioForNumberDensity="RQ(5, 4)", raws=[{}]), ["PressureOK", "NoCompressionNoPressure"], [], 1))
    if pid == "C16":
        out.append(("pairs", scope(lat(3, 2, h), ALLKINDS, "{Zero3, <<RI(2), Zero, Zero>>}", np=2, raws=[{}, IMPLICIT], kinematicViscosity="RQ(1, 4)",
                                   gravity="<<Zero, RI(-1), Zero>>"), ["Forgetful"], [], 2))
        out.append(("triples", scope(lat(3, 2, h), "{Fluid, Wall}", STILL, np=3,
                                     raws=[{}, dict(IMPLICIT, **{"surfaceDetection-numberDensity-threshold": "RQ(1, 8)"})]), ["Forgetful"], [], 2))
    if pid == "C23":
        out.append(("fluid", scope(lat(2, 2, "RQ(3, 8)"), "{Fluid}", ALONG, rhos="{RI(1), RI(3)}" if thorough else "{RI(1)}", np=3,
                                   raws=[{"coefficientOfRestitution": e} for e in ("Zero", "RQ(1, 4)", "One")], kinematicViscosity="RQ(1, 4)"),
                    ["PairsOK"], ["PairLaws", "ViscosityKeeps"], 1))
        out.append(("unequal densities", scope(lat(3, 1, "RQ(3, 8)"), "{Fluid}", ALONG, rhos="{RI(1), RI(3)}", np=3, kinematicViscosity="Zero"),
                    ["PairsOK"], ["PairLaws"], 1))
    if pid == "C25":
        low = dict(IMPLICIT, **{"surfaceDetection-numberDensity-threshold": "RQ(1, 8)"})
        out.append(("pairs", scope(lat(3, 2, h), ALLKINDS if thorough else "{Fluid, Wall}", "{Zero3, <<RI(2), RI(1), Zero>>}", np=2, raws=[{}, low],
                                   gravity="<<RI(1), RI(-2), Zero>>", kinematicViscosity="RQ(1, 4)",
                                   domainMin="<<RQ(-1, 4), RI(-4), Zero>>"), ["MCEquivariant"], [], 1, SYMS))
        dist = dict(IMPLICIT, **{"surfaceDetection-particleDistribution": "TRUE", "surfaceDetection-numberDensity-threshold": "RI(2)"})
        out.append(("one-sided", scope(lat(3, 2, h), "{Fluid, Wall}", STILL, np=2, raws=[dist]), ["MCEquivariant"], [], 1, SYMS))
        if thorough:
            out.append(("triples", scope(lat(3, 2, h), "{Fluid, Wall}", STILL, rhos="{RI(1), RI(2)}", np=3, raws=[{}, low], gravity="<<RI(1), RI(-2), Zero>>"),
                        ["MCEquivariant"], [], 1, SYMS))
    return out


def run(ctx, pid=None):
    """The laws behind a property, on the specification itself."""
    for f in families(pid or ctx.pid, env.THOROUGH):
        check(ctx, "laws of the time step: " + f[0], f[1], f[2], f[3], f[4], f[5] if len(f) > 5 else "{}")
    if (pid or ctx.pid) == "C08":
        ratios = "{RQ(5, 4), RQ(3, 2), RQ(21, 10), RQ(31, 10), RI(2), RQ(9, 2)}"
        text = "---- MODULE MCReference ----\nEXTENDS MPSLaws\nVARIABLE dummy\nASSUME \\A dim \\in {2, 3}, r \\in %s, l0 \\in {One, RQ(1, 40)} : ReferenceIsLattice(dim, l0, r)\n" \
               "NInit == dummy = 0 /\\ c = 0 /\\ s = 0 /\\ nb = 0 /\\ todo = 0 /\\ left = 0 /\\ pc = 0 /\\ n = 0 /\\ gone = 0\nNNext == UNCHANGED <<lvars, dummy>>\n====\n" % ratios
        ctx.model("reference values", "MCReference", "INIT NInit\nNEXT NNext\nCHECK_DEADLOCK FALSE\n", modules={"MCReference": text})


# ---- from the specification to the program: every setup of a scope is run for real -------------------------------------

REPLAY = r"""---- MODULE MCReplay ----
EXTENDS MCLaws
VARIABLE raw
RawSeq == <<%s>>
ASSUME \A r \in DOMAIN RawSeq : \A key \in DOMAIN RawSeq[r] : PrintT(<<"RAW", r, key, RawSeq[r][key]>>)
RInit == /\ raw \in DOMAIN RawSeq /\ s \in Particles
         /\ c = 0 /\ nb = 0 /\ todo = 0 /\ left = 0 /\ pc = 0 /\ n = 0 /\ gone = 0
RNext == FALSE /\ UNCHANGED <<lvars, raw>>
Emit == PrintT(<<"SETUP", raw, s.type, s.ft, s.rho, s.x, s.v>>)
====
"""


def setups(sc):
    """The setups of a scope, as TLC enumerates them: (settings, [(settings number, type, ft, rho, x, v)])."""
    mods = {"MCLaws": module("MCLaws", sc, 1), "MCReplay": REPLAY % ",\n  ".join(sc["raws"])}
    r = tlc.run("MCReplay", "INIT RInit\nNEXT RNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", modules=mods)
    if not r.ok:
        raise env.ToolError("the setups of a scope could not be enumerated")
    raws, out = {}, []
    # (TLC breaks long values into lines that are indented)
    for line in r.out.replace("\n  ", " ").splitlines():
        if re.match('<< ?"(RAW|SETUP)"', line):
            v = json.loads(line.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false"))
            if v[0] == "RAW":
                raws.setdefault(v[1], {})[v[2]] = v[3]
            else:
                out.append(v[1:])
    if len(out) != r.distinct:
        raise env.ToolError("%d of %d setups read" % (len(out), r.distinct))
    return raws, sorted(out)


TILE = 16.0


def scenarios(name, sc, together, steps, share=1, exact=False, **more):
    """Scenarios that run the setups for real.
    together: so many of them side by side in one run, out of reach of each other, in a domain that holds all; 1: in their own domain.
    share: only each so-manieth of them (which, depends on the seed)."""
    raws, all_ = setups(sc)
    out = []
    for r, raw in sorted(raws.items()):
        mine = [q for q in all_ if q[0] == r]
        mine = mine[env.SEED % share::share]
        settings = dict(raw, endTime=(steps - 0.5) * raw["dt"], cflCondition=1000.0)
        settings.update(more)
        dim = settings["dim"]
        for m in range(0, len(mine), together):
            parts = []
            some = mine[m:m + together]
            side = 1
            while side ** dim < len(some):
                side += 1
            for k, q in enumerate(some):
                off = [TILE * (k % side), TILE * (k // side % side), TILE * (k // side ** 2) if dim == 3 else 0.0] if together > 1 else [0.0] * 3
                for t, ft, rho, x, v in list(zip(*q[1:]))[::1 if k % 2 else -1]:
                    parts.append(sim.P(t, [a + b for a, b in zip(x, off)], v, ft=ft, rho=rho))
            kw = dict(settings)
            if together > 1:
                kw["domainMin"] = [-TILE, -TILE, -TILE if dim == 3 else 0.0]
                kw["domainMax"] = [TILE * side, TILE * side, TILE * side if dim == 3 else 0.0]
            out.append(sim.Scenario("%s-%d-%d" % (name, r, m), parts, exact=exact, mayfail=True, **kw))
            out[-1].setups = len(some)
    return out


def larger(pid, thorough):
    """(name, scope): setups that are only run for real, not put to the laws."""
    h = "RQ(1, 2)"
    lat = lattice
    key = lambda k: "surfaceDetection-" + k
    free = {key("particleDistribution"): "TRUE", "collisionDistanceRatio": "RQ(1, 4)", "radiusRatioForNumberDensity": "RQ(7, 4)",
            "radiusRatioForLaplacian": "RQ(7, 4)", "radiusRatioForGradient": "RQ(3, 2)"}
    near = dict(free, **{key("particleDistribution"): "FALSE", key("numberDensity-threshold"): "RQ(1, 8)"})
    cube = dict(BOX3)
    out = []
    if pid == "C06":
        visc = dict(kinematicViscosity="RQ(1, 2)", collisionDistanceRatio="Zero")
        out.append(("in space", scope(CUBE, "{Ghost, Fluid, Wall, Dummy}" if thorough else "{Fluid, Wall}", "{Zero3, <<RI(2), RI(1), RI(-1)>>}", np=3, **dict(visc, **cube))))
        out.append(("unequal densities", scope(lat(3, 2), "{Ghost, Fluid, Dummy}", "{Zero3, <<RI(2), RI(1), Zero>>}", "{RI(1), RI(3)}", np=2, order=True, **visc)))
    if pid == "C07":
        out.append(("crowds of four", scope(lat(2, 2, "RQ(3, 8)"), ALLKINDS, "{Zero3, <<RI(2), RI(1), Zero>>}", np=4, collisionDistanceRatio="RQ(1, 2)")))
        out.append(("in space", scope(CUBE, "{Fluid, Wall}", "{Zero3, <<RI(2), RI(1), RI(-1)>>}", np=3, **cube)))
        out.append(("how hard", scope(lat(3, 1, h), "{Fluid, Wall}", ALONG, "{RI(1), RI(3)}", np=2, order=True,
                                      raws=[{"coefficientOfRestitution": e, "collisionDistanceRatio": d} for e in ("Zero", "RQ(1, 2)", "One") for d in (h, "RQ(3, 4)", "One", "RI(3)")])))
    if pid == "C08":
        out.append(("in space", scope(CUBE, ALLKINDS, STILL, np=3, **cube)))
        out.append(("every order", scope(lat(3, 2, h), ALLKINDS, STILL, np=3, order=True, collisionDistanceRatio="RQ(1, 4)",
                                         raws=[{"radiusRatioForNumberDensity": a, "radiusRatioForGradient": b} for a, b in (("RQ(5, 4)", "RQ(5, 2)"), ("RQ(5, 2)", "RQ(5, 4)"))])))
    if pid == "C09":
        raws = [dict(IMPLICIT, **{key("numberDensity-threshold"): b, key("particleDistribution-threshold"): a}) for a in ("Zero", h, "One") for b in ("RQ(1, 4)", "RI(4)")]
        out.append(("one-sided", scope(lat(3, 2, h), ALLKINDS, STILL, np=3, raws=raws, **free)))
        out.append(("one-sided, four", scope(lat(3, 2, h), "{Fluid, Wall}", STILL, np=4, raws=raws, **free)))
        out.append(("one-sided, in space", scope(CUBE, "{Fluid, Wall}" if not thorough else ALLKINDS, STILL, np=4 if thorough else 3, raws=raws, **dict(free, **cube))))
    if pid in ("C10", "C12"):
        raws = [IMPLICIT] if pid == "C10" else [IMPLICIT, {"soundSpeed": "RI(2)"}]
        out.append(("in space", scope(CUBE, "{Fluid, Wall}" if not thorough else "{Fluid, Wall, Dummy}", STILL, np=4, raws=raws, **dict(near, **cube))))
        out.append(("all kinds", scope(lat(3, 2, h), ALLKINDS, STILL, "{RI(1), RI(2)}", np=3, raws=raws, **near)))
    if pid == "C12":
        # neighbours at exactly the radius for the gradient
        out.append(("at the radius", scope(lat(3, 2, h), "{Fluid, Wall, Dummy}", STILL, np=4, raws=[dict(IMPLICIT), {"soundSpeed": "RI(2)"}],
                                           **dict(near, particleDistance=h, radiusRatioForGradient="RI(2)", radiusRatioForNumberDensity="RI(3)"))))
    if pid == "C11":
        out.append(("in space", scope(CUBE, ALLKINDS, STILL, np=3, soundSpeed="RI(2)", **cube)))
        out.append(("beside other settings", scope(lat(3, 2, h), "{Ghost, Fluid, Wall, Dummy}", STILL, np=2, rhos="{RI(1), RI(2)}", radiusRatioForNumberDensity="RQ(5, 4)",
                                                   raws=[{key("particleDistribution"): a, key("numberDensity-threshold"): b, "soundSpeed": w}
                                                         for a in ("TRUE", "FALSE") for b in ("Zero", "RI(4)") for w in ("Zero", "One", "RI(3)")])))
    return out


# setups that mostly end with "no solution"; they have to be run one by one
PENT = "pent crowds"
# as many runs of the program as are made at most
MOST = 20000


def replay(ctx, invariants, pid=None, together=50, steps=1, exact=True, module="MPSTrace", only=None, hopeless=False, **more):
    """Runs the program on every setup of the scopes in which the laws behind a property are checked."""
    scs = []
    for f in families(pid or ctx.pid, env.THOROUGH) + (larger(pid or ctx.pid, env.THOROUGH) if together > 1 else []):
        if (f[0] in only) if only is not None else f[0] != PENT:
            scs += scenarios(f[0].replace(" ", "-"), f[1], together, steps, exact=exact, **more)
    if len(scs) > MOST:
        scs = random.Random("%s %d" % (ctx.pid, steps)).sample(scs, MOST)
    ctx.cov["setups_replayed"] = ctx.cov.get("setups_replayed", 0) + sum(sc.setups for sc in scs)
    ctx.conform("all setups of the laws" + (", %d steps" % steps if steps > 1 else ""), scs, invariants, module=module, hopeless=hopeless)
