"""C15: all input formats load the same particles."""
import os, re, shutil
from .. import env, sim
from ..scen import *

COLS = ["type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density"]
INV = ["Shape", "Complete", "LoadedAsGiven", "DensitiesLoaded", "ExplicitPressureConforms", "TypesConform", "VelocityConforms"]


# Other ways of laying out the same text: none of them changes what is written
LAYOUTS = {
    "crlf": lambda t: t.replace("\n", "\r\n"),
    "unterminated": lambda t: t.rstrip("\n"),
    "trailing blanks": lambda t: t.replace("\n", "  \n"),
    "indented": lambda t: re.sub(r"(?m)^", "  ", t),
    "lines after the end": lambda t: t + "\n\n",
    "tabs": lambda t: re.sub(r"(?<=\d) (?=[-\d])", "\t", t),
    "wide": lambda t: re.sub(r"(?<=\d) (?=[-\d])", "    ", t),
    "spaces after commas": lambda t: t.replace(",", ", "),
    "one line": lambda t: t.replace("\n", " "),
    "many values per line": lambda t: re.sub(r"(?<=\d)\n(?=[-\d])", " ", t),
    "short lines": lambda t: re.sub(r"(?<=\d) (?=[-\d])", "\n", t),
    "signs": lambda t: re.sub(r"(?<![\w.+-])(?=\d+\.\d)", "+", t),
    "exponents": lambda t: re.sub(r"(?<![\w.+-])(-?\d+\.\d+)(?![\w.])", r"\1E+00", t),
    "no leading zeros": lambda t: re.sub(r"(?<![\w.+])(-?)0\.(?=\d)", r"\1.", t),
    "no zeros at the end": lambda t: re.sub(r"(?<=\d)\.0(?![\w.])", ".", t),
}
LAYOUTS_OF = {
    "csv": ["crlf", "unterminated", "trailing blanks", "spaces after commas", "signs", "exponents", "no leading zeros", "no zeros at the end"],
    "prof": ["crlf", "unterminated", "trailing blanks", "indented", "lines after the end", "tabs", "wide", "one line", "signs", "exponents", "no leading zeros",
             "no zeros at the end"],
    "script": ["crlf", "unterminated", "trailing blanks", "indented", "tabs", "wide"],
    "vtu": ["crlf", "unterminated", "trailing blanks", "indented", "lines after the end", "tabs", "wide", "many values per line", "short lines"],
}


class Given(Scenario):
    """A scenario whose particle file is written in some particular way."""
    how = None
    cols = None
    layout = None

    def write(self, d):
        super().write(d)
        path = os.path.join(d, "input." + self.fmt)
        if self.how == "columns":
            with open(path, "w") as f:
                f.write("%r\n%d\n%s\n" % (float(self.t0), len(self.parts), ",".join(self.cols)))
                for p in self.parts:
                    v = {"type": str(p.type), "fluidType": str(p.ft), "density": repr(float(-1 if p.rho is None else p.rho)),
                         "x": repr(p.x[0]), "y": repr(p.x[1]), "z": repr(p.x[2]), "vx": repr(p.v[0]), "vy": repr(p.v[1]), "vz": repr(p.v[2])}
                    f.write(",".join(v[c] for c in self.cols) + "\n")
        elif self.how in ("bare vtu", "old vtu"):
            sim.write_vtu(path, self.parts, self.t0, density=False)
            text = open(path).read()
            arrays = dict((m.group(1), m.group(0)) for m in re.finditer(r'<DataArray [^>]*Name="([^"]*)".*?</DataArray>\n', text, re.S))
            for name in self.cols:
                text = text.replace(arrays[name], "")
            if self.how == "old vtu":
                # the way the files shipped with the program are: time first, single quotes, the position in lower case
                time = text[text.index("<FieldData>"):text.index("</UnstructuredGrid>")]
                text = text.replace(time, "").replace("<Piece", time + "<Piece").replace('"', "'").replace("Position", "position")
            open(path, "w").write(text)
        elif self.how == "script":
            prof = os.path.join(d, "particles.prof")
            sim.write_prof(prof, self.parts, self.t0)
            if self.layout:
                relay(prof, self.layout)
            sim.execute(["bash", os.path.join(env.REPO, "scripts/prof_to_csv.sh"), prof, path], d, 60)
            if not os.path.exists(path):
                open(path, "w").close()
        if self.layout and self.how != "script":
            relay(path, self.layout)


def relay(path, layout):
    with open(path, newline="") as f:
        text = f.read()
    with open(path, "w", newline="") as f:
        f.write(LAYOUTS[layout](text))


def pressed(r, n):
    """Particles packed closer than the lattice, so that all of them are pressed and show their density; some ghosts."""
    dim = r.choice([2, 3])
    c = (3, 3, 1) if dim == 2 else (2, 3, 2)
    if n > 40:
        c = (9, 8, 1) if dim == 2 else (4, 5, 4)
    pts = lattice(r, dim, c, 0.5, [r.uniform(-2, 2), r.uniform(-2, 2), 0.0], 0.05)
    r.shuffle(pts)
    return dim, pts


def settings(dim):
    return dict(dim=dim, radiusRatioForNumberDensity=1.1, radiusRatioForGradient=1.1, radiusRatioForLaplacian=1.1, soundSpeed=1.0, dt=0.001,
                collisionDistanceRatio=0.0, domainMin=[-20.0] * 3, domainMax=[20.0] * 3)


def scenarios():
    r = rng("c15")
    out = []
    for n in range(num(30, 250)):
        dim, pts = pressed(r, r.choice([5, 5, 50]))
        some = r.choice([(None,), (None, 500.0), (500.0, 800.0, 1234.5), (None, 500.0, 0.75, 2000.0)])
        parts = [P(r.choice([FLUID, FLUID, WALL, DUMMY, GHOST]) if r.random() < 0.4 else FLUID, p, vel(r, dim, 0.01), ft=r.choice([0, 0, 1, 2, 9]), rho=r.choice(some)) for p in pts]
        if r.random() < 0.5:
            for p in parts:
                if p.type in (WALL, DUMMY) and r.random() < 0.5:
                    # a wall without mass: zero is a density like any other
                    p.rho = 0.0
        t0 = r.choice([0.0, 1.5, 1 / 3, -2.0, 1e-3])
        kw = dict(settings(dim), defaultDensity=r.choice([1000.0, 7.5]), t0=t0, endTime=t0 + 0.0005)

        def add(name, fmt, ps, how=None, cols=None, **more):
            sc = Given("%s%d" % (name, n), ps, fmt=fmt, **dict(kw, **more))
            sc.how, sc.cols = how, cols
            out.append(sc)
        bare = [P(p.type, p.x, p.v) for p in parts]
        norho = [P(p.type, p.x, p.v, ft=p.ft) for p in parts]
        noft = [P(p.type, p.x, p.v, rho=p.rho) for p in parts]
        add("csv", "csv", parts, density=True)
        add("csv-nodensity", "csv", norho, density=False)
        add("vtu", "vtu", parts, density=True)
        add("vtu-nodensity", "vtu", norho, density=False)
        add("prof", "prof", bare)
        add("script", "csv", bare, "script", density=False)
        for m in range(3):
            cols = COLS[:]
            r.shuffle(cols)
            add("columns%d-" % m, "csv", parts, "columns", cols, density=True)
        still = [P(p.type, p.x) for p in parts]
        add("vtu-without-velocity", "vtu", [P(p.type, p.x, ft=p.ft) for p in parts], "bare vtu", ["Velocity", "Pressure"])
        add("vtu-without-fluidtype", "vtu", bare, "bare vtu", ["Fluid Type", "Number Density"])
        add("vtu-without-both", "vtu", still, "bare vtu", ["Fluid Type", "Velocity", "Boundary Condition", "connectivity", "offsets", "types"])
        add("old-vtu", "vtu", bare, "old vtu", ["Fluid Type"])
        cols = [c for c in COLS if c not in ("density", "fluidType")]
        r.shuffle(cols)
        add("columns-none", "csv", bare, "columns", cols, density=False)
        cols = [c for c in COLS if c != "fluidType"]
        r.shuffle(cols)
        add("columns-noft", "csv", noft, "columns", cols, density=True)
        cols = [c for c in COLS if c != "density"]
        r.shuffle(cols)
        add("columns-norho", "csv", norho, "columns", cols, density=False)
    for n in range(num(1, 8)):
        for kind, names in LAYOUTS_OF.items():
            for layout in names:
                dim, pts = pressed(r, 5)
                bare, rho = kind in ("prof", "script"), kind in ("csv", "vtu") and layout != "wide"
                parts = [P(r.choice([FLUID, FLUID, WALL, DUMMY, GHOST]), p, vel(r, dim, 0.01), ft=0 if bare else r.choice([0, 1, 2]),
                           rho=r.choice([None, 500.0, 0.75]) if rho else None) for p in pts]
                # values that are written in all sorts of ways
                for p in parts:
                    if p.type != FLUID:
                        p.v = tuple([r.choice([0.0, 0.5, -0.25, 1.0, -3.0, 1 / 3]) for _ in range(dim)] + [0.0] * (3 - dim))
                t0 = r.choice([0.0, 0.5, 1 / 3, -2.0])
                sc = Given("laid-out-%s-%s%d" % (kind, layout, n), parts, fmt="csv" if kind == "script" else kind, density=rho,
                           **dict(settings(dim), defaultDensity=1000.0, t0=t0, endTime=t0 + 0.0005))
                sc.how, sc.layout = "script" if kind == "script" else None, layout
                out.append(sc)
    for fmt in ("csv", "vtu", "prof"):
        out.append(Given("empty-" + fmt, [], fmt=fmt, **dict(settings(2), endTime=0.0005)))
        out.append(Given("one-" + fmt, [P(FLUID, (1, 2, 0), (0.5, 0, 0))], fmt=fmt, **dict(settings(2), endTime=0.0005)))
        big = [P(FLUID, (i % 60 * 0.5, i // 60 * 0.5, 0), (i * 1e-6, 0, 0)) for i in range(num(300, 5000))]
        out.append(Given("big-" + fmt, big, fmt=fmt, **dict(settings(2), domainMax=[100.0, 100.0, 0.0], domainMin=[-1.0, -1.0, 0.0], endTime=0.0005)))
    return out


def refused(r):
    """(name, extension, content)"""
    parts = [P(FLUID, (i * 1.0, 0.25 * i, 0), (0.5, -1.5, 0)) for i in range(num(3, 6))]
    tmp = os.path.join(env.newdir("ref"), "a")
    sim.write_prof(tmp, parts, 0.5)
    prof = text = open(tmp).read()
    toks = [(m.start(), m.end()) for m in re.finditer(r"\S+", text)]
    out = []
    for i, (a, b) in enumerate(toks):
        # ends before this token (from the third on: an empty particle list is a complete one; the header must be there)
        out.append(("ends before token %d" % i, "prof", text[:a]))
        out.append(("token %d is no number" % i, "prof", text[:a] + "abc" + text[b:]))
        out.append(("token %d is empty text" % i, "prof", text[:a] + "#" + text[b:]))
    # csv: the rows, the columns, and numbers in them
    for p in parts:
        p.rho = 500.0
    csv = "0.5\n%d\n%s\n" % (len(parts), ",".join(COLS))
    rows = [[str(p.type), str(p.ft)] + [repr(a) for a in p.x + p.v] + [repr(p.rho)] for p in parts]
    text = whole = csv + "".join(",".join(w) + "\n" for w in rows)
    lines = text.splitlines(True)
    for i in range(len(lines)):
        out.append(("ends before line %d" % i, "csv", "".join(lines[:i])))
    for i, w in enumerate(rows):
        for j in range(len(w)):
            if j:
                out.append(("row %d has %d columns" % (i, j), "csv", csv + "".join(",".join(u) + "\n" for u in rows[:i]) + ",".join(w[:j])))
            out.append(("row %d column %d is no number" % (i, j), "csv", csv + "".join(",".join(u[:j] + ["abc"] + u[j + 1:] if u is w else u) + "\n" for u in rows)))
        out.append(("row %d missing" % i, "csv", csv + "".join(",".join(u) + "\n" for u in rows if u is not w)))
    for i in (0, 1):
        out.append(("line %d is no number" % i, "csv", "".join(["abc\n" if k == i else l for k, l in enumerate(lines)])))
    for j, c in enumerate(COLS):
        if c not in ("fluidType", "density"):
            drop = lambda w: ",".join(w[:j] + w[j + 1:]) + "\n"
            out.append(("no column " + c, "csv", "0.5\n%d\n" % len(parts) + drop(COLS) + "".join(drop(w) for w in rows)))
            out.append(("column %s has another name" % c, "csv", text.replace(",".join(COLS), ",".join("other" if k == c else k for k in COLS), 1)))
    # ascii vtu: every line may be the last; the arrays that are read, and numbers in them
    sim.write_vtu(tmp, parts, 0.5, density=True)
    text = open(tmp).read()
    lines = text.splitlines(True)
    for i in range(len(lines)):
        out.append(("ends before line %d" % i, "vtu", "".join(lines[:i])))
    out.append(("ends within the last line", "vtu", text[:text.rindex("</VTKFile>") + 5]))
    name = ""
    for i, l in enumerate(lines):
        m = re.search(r'<DataArray .*Name="([^"]*)"', l)
        if m:
            name = m.group(1)
        elif "</DataArray" in l:
            name = ""
        elif name in ("Position", "Velocity", "Particle Type", "Fluid Type", "Density", "Time"):
            for j in range(len(l.split())):
                w = l.split()
                w[j] = "abc"
                out.append(("token %d of line %d (%s) is no number" % (j, i, name), "vtu", "".join(lines[:i] + [" ".join(w) + "\n"] + lines[i + 1:])))
            if name != "Time":
                out.append(("line %d (%s) missing" % (i, name), "vtu", "".join(lines[:i] + lines[i + 1:])))
    for name in ("Position", "Time"):
        out.append(("no array " + name, "vtu", re.sub(r'<DataArray [^>]*Name="%s".*?</DataArray>\n' % name, "", text, flags=re.S)))
    # files of other kinds, whatever is in them
    for ext, content in (("txt", whole), ("CSV", whole), ("csv2", whole), ("dat", prof), ("vtk", text), ("Prof", prof), ("vtu.bak", text), ("prof~", prof), ("", whole)):
        out.append(("extension '%s'" % ext, ext, content))
    out.append(("empty", "csv", ""))
    out.append(("empty", "vtu", ""))
    out.append(("empty", "prof", ""))
    out.append(("more announced than there", "prof", prof.replace("\n%d\n" % len(parts), "\n%d\n" % (len(parts) + 1), 1)))
    return out


class RefCase:
    parts = []

    def __init__(self, name, ext, content):
        self.name, self.ext, self.content = name, ext, content


def record_refused(binary, c):
    d = env.newdir("run")
    sc = Scenario("x", [], endTime=1.0, particlesPath="./input." + c.ext)
    sc.write(d)
    with open(d + "/input." + c.ext, "wb") as f:
        f.write(c.content if isinstance(c.content, bytes) else c.content.encode())
    o = sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 60)
    snaps = sum(len(fs) for top, _, fs in os.walk(d + "/out") if top != d + "/out")
    shutil.rmtree(d, True)
    return {"name": c.name, "exit": o.exit, "hung": o.timeout, "message": o.err.strip() != "", "snapshots": snaps}


def binary_vtus(binary):
    """Binary vtu files as the program writes them."""
    out = []
    for i, parts in enumerate([[], [P(FLUID, (0, 0, 0))], [P(FLUID, (i * 0.5, 0, 0), (i, 0, 0)) for i in range(40)]]):
        d = env.newdir("run")
        Scenario("x", parts, endTime=0.2).write(d)
        sim.execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, 60)
        for f in sorted(os.listdir(d + "/out/vtu")) if os.path.isdir(d + "/out/vtu") else []:
            out.append(RefCase("binary vtu %d %s" % (i, f), "vtu", open(d + "/out/vtu/" + f, "rb").read()))
    return out


def check(ctx):
    binary = env.mps_binary()

    def rec(scs):
        recs = sim.record_all(binary, scs)
        for x in recs:
            x["soundspeed"] = True
        return recs
    ctx.conform("loading", scenarios(), INV, module="LoadTrace", record=rec, minimum={"pressed": 1000})
    import concurrent.futures as cf

    def recr(cs):
        with cf.ThreadPoolExecutor(env.JOBS) as ex:
            return list(ex.map(lambda c: record_refused(binary, c), cs))
    cases = [RefCase(*c) for c in refused(rng("c15r"))] + binary_vtus(binary)
    ctx.conform("refusals", cases, ["Refused", "Told", "NothingWritten"], module="RefusedTrace", record=recr)
