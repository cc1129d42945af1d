"""Running the real mps program on generated inputs, and recording what it wrote.

Nothing here judges: every deviation ends up in a field of the recording, and the specification decides."""
import concurrent.futures as cf
import json, math, os, re, resource, shutil, signal, struct, subprocess, tempfile
from . import env

DEFAULTS = {
    "dim": 2, "particleDistance": 1.0, "dt": 0.125, "endTime": 0.25, "outputPeriod": 0.0,
    "cflCondition": 100.0, "numPhysicalCores": 1,
    "domainMin": [-16.0, -16.0, 0.0], "domainMax": [16.0, 16.0, 0.0],
    "defaultDensity": 1000.0, "kinematicViscosity": 0.0,
    "gravity": [0.0, 0.0, 0.0],
    "surfaceDetection-numberDensity-threshold": 0.97,
    "surfaceDetection-particleDistribution": True,
    "surfaceDetection-particleDistribution-threshold": 1.0,
    "pressureCalculationMethod": "Explicit",
    "compressibility": 0.45e-09, "relaxationCoefficientForPressure": 0.2,
    "soundSpeed": 0.0,
    "collisionDistanceRatio": 0.5, "coefficientOfRestitution": 0.25,
    "radiusRatioForNumberDensity": 3.1, "radiusRatioForGradient": 2.1, "radiusRatioForLaplacian": 3.1,
    "particlesPath": "./input.csv", "outputVtkInBinary": True,
}

# what the values of the settings mean to the specification
INTS = {"dim", "numPhysicalCores"}


def num(x):
    return "#" + repr(float(x))


def yaml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return {"inf": ".inf", "-inf": "-.inf"}.get(repr(v), repr(v))
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(yaml_value(float(e)) for e in v) + "]"
    return str(v)


def spec_value(k, v):
    if k in INTS or isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return [num(e) for e in v]
    return num(v)


class P:
    """One particle of an input."""
    __slots__ = ("type", "x", "v", "ft", "rho")

    def __init__(self, type, x, v=(0, 0, 0), ft=0, rho=None):
        self.type, self.ft, self.rho = type, ft, rho
        self.x = tuple(float(a) for a in x)
        self.v = tuple(float(a) for a in v)
        if len(self.x) == 2:
            self.x += (0.0,)
        if len(self.v) == 2:
            self.v += (0.0,)


def write_csv(path, parts, t0=0.0, density=None):
    with_rho = any(p.rho is not None for p in parts) if density is None else density
    with open(path, "w") as f:
        f.write("%r\n%d\n" % (float(t0), len(parts)))
        f.write("type,fluidType,x,y,z,vx,vy,vz" + (",density" if with_rho else "") + "\n")
        for p in parts:
            row = [str(p.type), str(p.ft)] + [repr(a) for a in p.x + p.v]
            if with_rho:
                row.append(repr(float(-1 if p.rho is None else p.rho)))
            f.write(",".join(row) + "\n")


def write_prof(path, parts, t0=0.0):
    with open(path, "w") as f:
        f.write("%r\n%d\n" % (float(t0), len(parts)))
        for p in parts:
            f.write("%d %s\n" % (p.type, " ".join(repr(a) for a in p.x + p.v)))


def write_vtu(path, parts, t0=0.0, density=None, extra=True):
    """ASCII vtu as the program itself writes it (and, with density, with a Density array)."""
    n = len(parts)
    out = ["<?xml version='1.0' encoding='UTF-8'?>",
           '<VTKFile type="UnstructuredGrid" version="1.0" header_type="UInt64" byte_order="LittleEndian">',
           "<UnstructuredGrid>", '<Piece NumberOfPoints="%d" NumberOfCells="%d">' % (n, n), "<Points>"]

    def arr(typ, name, comps, rows):
        out.append('<DataArray type="%s" Name="%s" NumberOfComponents="%d" format="ascii">' % (typ, name, comps))
        out.extend(rows)
        out.append("</DataArray>")
    arr("Float64", "Position", 3, ["%r %r %r" % p.x for p in parts])
    out += ["</Points>", "<PointData>"]
    arr("Int32", "Particle Type", 1, [str(p.type) for p in parts])
    arr("Float64", "Velocity", 3, ["%r %r %r" % p.v for p in parts])
    if extra:
        arr("Float64", "Pressure", 1, ["12.5"] * n)
        arr("Float64", "Number Density", 1, ["3.25"] * n)
        arr("Float64", "Number Density Ratio", 1, ["0.75"] * n)
        arr("Int32", "Boundary Condition", 1, ["3"] * n)
    arr("Int32", "Fluid Type", 1, [str(p.ft) for p in parts])
    if density or (density is None and any(p.rho is not None for p in parts)):
        arr("Float64", "Density", 1, [repr(float(-1 if p.rho is None else p.rho)) for p in parts])
    out += ["</PointData>", "<Cells>"]
    arr("Int64", "connectivity", 1, [str(i) for i in range(n)])
    arr("Int64", "offsets", 1, [str(i + 1) for i in range(n)])
    arr("UInt8", "types", 1, ["1"] * n)
    out += ["</Cells>", "</Piece>", "<FieldData>",
            '<DataArray type="Float64" Name="Time" NumberOfTuples="1" format="ascii">', repr(float(t0)),
            "</DataArray>", "</FieldData>", "</UnstructuredGrid>", "</VTKFile>", ""]
    with open(path, "w") as f:
        f.write("\n".join(out))


WRITERS = {"csv": write_csv, "prof": write_prof, "vtu": write_vtu}

_ARR = re.compile(rb'<DataArray\s([^>]*?)/?>')
_ATT = re.compile(rb'([\w]+)="([^"]*)"')
_FMT = {"Float64": "d", "Float32": "f", "Int32": "i", "Int64": "q", "UInt8": "B", "Int8": "b", "UInt64": "Q", "UInt32": "I"}


def read_vtu_binary(path):
    """{array name: flat tuple} of an appended raw vtu."""
    with open(path, "rb") as f:
        data = f.read()
    a = data.index(b"<AppendedData")
    base = data.index(b"_", data.index(b">", a)) + 1
    res = {}
    for m in _ARR.finditer(data[:a]):
        att = {k.decode(): v.decode() for k, v in _ATT.findall(m.group(1))}
        off = base + int(att["offset"])
        size = struct.unpack_from("<Q", data, off)[0]
        c = _FMT[att["type"]]
        w = struct.calcsize(c)
        if size % w or off + 8 + size > len(data):
            raise ValueError("bad block of " + att["Name"])
        res[att["Name"]] = struct.unpack_from("<%d%s" % (size // w, c), data, off + 8)
    return res


def vec(flat):
    return [[num(flat[i]), num(flat[i + 1]), num(flat[i + 2])] for i in range(0, len(flat), 3)]


def read_snapshot(path):
    """A snapshot in full precision, for the specification."""
    bad = {"ok": False, "time": "#nan", "type": [], "ft": [], "x": [], "v": [], "p": [], "nd": [], "bc": [], "ratio": []}
    try:
        a = read_vtu_binary(path)
        return {"ok": True, "time": num(a["Time"][0]), "type": list(a["Particle Type"]), "ft": list(a["Fluid Type"]),
                "x": vec(a["Position"]), "v": vec(a["Velocity"]), "p": [num(e) for e in a["Pressure"]],
                "nd": [num(e) for e in a["Number Density"]], "ratio": [num(e) for e in a["Number Density Ratio"]],
                "bc": list(a["Boundary Condition"])}
    except (ValueError, KeyError, struct.error, IndexError, OSError):
        return bad


_STEP = re.compile(r"^\s*(\d+): t=(\S+?)s$")
_WARN = re.compile(r"^WARNING: particle (\d+) is out of domain")
_CFL = re.compile(r"^ERROR: Courant number is larger than CFL condition\. Courant = (\S+)")
_OUT = re.compile(r"^(\d+): dt=.*?Courant=(\S+)$")


def split_stderr(text):
    """Per step: the particles warned about, the CFL errors. The line of a step ends its section."""
    warn, cfl, steps = [], [], []
    w, c = [], []
    for line in text.splitlines():
        m = _WARN.match(line)
        if m:
            w.append(int(m.group(1)))
            continue
        m = _CFL.match(line)
        if m:
            c.append("#" + m.group(1))
            continue
        m = _STEP.match(line)
        if m:
            warn.append(w)
            cfl.append(c)
            steps.append((int(m.group(1)), m.group(2)))
            w, c = [], []
    return warn, cfl, steps, (w, c)


class Scenario:
    def __init__(self, name, parts, t0=0.0, fmt="csv", exact=False, mayfail=False, timeout=60, density=None, keep=None, **settings):
        self.name, self.parts, self.t0, self.fmt = name, parts, t0, fmt
        self.exact, self.mayfail, self.timeout, self.density = exact, mayfail, timeout, density
        self.settings = dict(DEFAULTS)
        for k, v in settings.items():
            k = k.replace("__", "-")
            if v is None:
                self.settings.pop(k, None)
            else:
                self.settings[k] = v
        if "particlesPath" not in settings:
            self.settings["particlesPath"] = "./input." + fmt
        self.keep = keep

    def write(self, d):
        with open(os.path.join(d, "settings.yml"), "w") as f:
            f.write("".join("%s: %s\n" % (k, yaml_value(v)) for k, v in self.settings.items()))
        kw = {}
        if self.fmt != "prof":
            kw["density"] = self.density
        WRITERS[self.fmt](os.path.join(d, "input." + self.fmt), self.parts, self.t0, **kw)
        os.mkdir(os.path.join(d, "out"))


class Outcome:
    """exit: exit status, or minus the signal; 124 in `timeout`."""


_hangs = 0


def execute(cmd, cwd, timeout, stdin=None, environ=None):
    """A run that takes too long hangs; so does one that uses a third of that time of the processor.
    After several of them less time is enough for the others: the verdict is clear."""
    global _hangs
    o = Outcome()
    o.timeout = False
    if _hangs >= 6:
        timeout = min(timeout, 6)
    with tempfile.TemporaryFile(dir=env.scratch()) as fo, tempfile.TemporaryFile(dir=env.scratch()) as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **environ) if environ else None, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=fo, stderr=fe)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (max(2, timeout // 3), max(2, timeout // 3) + 1))
        except (ProcessLookupError, PermissionError):
            pass
        try:
            p.communicate(stdin, timeout=timeout)
            o.exit = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            o.exit, o.timeout = -9, True
        if o.exit == -signal.SIGXCPU:
            o.exit, o.timeout = -9, True
        fo.seek(0)
        fe.seek(0)
        most = 1 << 19 if o.timeout else 1 << 26
        o.out, o.err = fo.read(most).decode(errors="replace"), fe.read(most).decode(errors="replace")
    if o.timeout:
        _hangs += 1
        # the beginning of what an endless run writes is enough
        for top, ds, fs in os.walk(cwd) if cwd.startswith(env.scratch() + "/") else ():
            for f in sorted(fs)[100:]:
                os.unlink(os.path.join(top, f))
    return o


def read_texts(out, files):
    """What the other two formats of each snapshot list."""
    from . import formats
    res = []
    for f in files:
        n = os.path.splitext(f)[0]
        p, c = formats.prof("%s/prof/%s.prof" % (out, n)), formats.csv("%s/csv/%s.csv" % (out, n))
        res.append({k: {"ok": t["ok"], "count": t["count"], "type": t["type"], "ft": t["ft"]} for k, t in (("prof", p), ("csv", c))})
    return res


def record(binary, sc, keepdir=None, environ=None, texts=False):
    """Run one scenario; the recording as the specification MPSTrace wants it."""
    d = keepdir or env.newdir("run")
    os.makedirs(d, exist_ok=True)
    sc.write(d)
    o = execute([binary, "-s", d + "/settings.yml", "-o", d + "/out"], d, sc.timeout, environ=environ)
    warn, cfl, steps, rest = split_stderr(o.err)
    vd = d + "/out/vtu"
    files = sorted(os.listdir(vd)) if os.path.isdir(vd) else []
    snaps = [read_snapshot(os.path.join(vd, f)) for f in files]
    courants = [m.group(2) for m in map(_OUT.match, o.out.splitlines()) if m]
    # the sections of steps that were never reported
    warn += [[]] * (len(snaps) - len(warn))
    cfl += [[]] * (len(snaps) - len(cfl))
    rho = []
    if sc.fmt != "prof" and (sc.density or (sc.density is None and any(p.rho is not None for p in sc.parts))):
        rho = [num(-1 if p.rho is None else p.rho) for p in sc.parts]
    rec = {"name": sc.name, "set": {k: spec_value(k, v) for k, v in sc.settings.items()},
           "exact": sc.exact, **({"exactnd": True} if getattr(sc, "exactnd", False) else {}), "mayfail": sc.mayfail, "t0": num(sc.t0),
           "type": [p.type for p in sc.parts], "ft": [0 if sc.fmt == "prof" else p.ft for p in sc.parts],
           "x": [[num(a) for a in p.x] for p in sc.parts], "v": [[num(a) for a in p.v] for p in sc.parts],
           "rho": rho, "exit": o.exit, "hung": o.timeout,
           "solverfailed": "Pressure calculation failed" in o.err,
           "snaps": snaps, "warn": warn, "cfl": cfl,
           "courant": ["#" + c for c in courants]}
    if getattr(sc, "window", None) and len(snaps) > 2:
        late_steps(rec, sc)
    if texts:
        rec["texts"] = read_texts(d + "/out", files)
    if keepdir is None:
        shutil.rmtree(d, True)
    return rec


def late_steps(rec, sc):
    """Only the steps from number sc.window on, as a run that starts there."""
    snaps = rec["snaps"]
    m = min(sc.window, len(snaps) - 2)
    # the time adds up step by step; it ends where the settings say
    t = sc.t0
    for _ in range(m):
        t += sc.settings["dt"]
    rec["t0"] = num(t)
    for k in ("type", "ft", "x", "v"):
        rec[k] = snaps[m][k]
    for k in ("snaps", "warn", "cfl", "courant"):
        rec[k] = rec[k][m:]


def record_all(binary, scenarios, **kw):
    with cf.ThreadPoolExecutor(env.JOBS) as ex:
        return list(ex.map(lambda sc: record(binary, sc, **kw), scenarios))


def write_trace(recs, path):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
