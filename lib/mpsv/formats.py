"""Taking snapshot files apart into tokens. Nothing here judges what they say; `wellformed` tells that the file could be taken apart."""
import os, re, struct
import xml.etree.ElementTree as ET
from .sim import num, _FMT

_NUM = re.compile(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan|infinity)", re.I)
_INT = re.compile(r"[-+]?\d+")


class Bad(Exception):
    pass


def real(tok):
    if not _NUM.fullmatch(tok):
        raise Bad(tok)
    return "#" + tok


def integer(tok):
    if not _INT.fullmatch(tok):
        raise Bad(tok)
    n = int(tok)
    if abs(n) >= 2 ** 31:
        raise Bad(tok)
    return n


EMPTY = {"ok": False, "time": "#nan", "count": -1, "type": [], "ft": [], "x": [], "v": []}


def prof(path):
    try:
        lines = open(path).read().split("\n")
        if lines[-1] == "":
            lines.pop()
        rows = [l.split() for l in lines[2:]]
        if any(len(w) != 7 for w in rows):
            raise Bad
        return {"ok": True, "time": real(lines[0].strip()), "count": integer(lines[1].strip()), "type": [integer(w[0]) for w in rows], "ft": [],
                "x": [[real(t) for t in w[1:4]] for w in rows], "v": [[real(t) for t in w[4:7]] for w in rows]}
    except (Bad, OSError, IndexError, UnicodeDecodeError):
        return dict(EMPTY)


def csv(path):
    try:
        lines = open(path).read().split("\n")
        if lines[-1] == "":
            lines.pop()
        head = [h.strip() for h in lines[2].split(",")]
        rows = [l.split(",") for l in lines[3:]]
        if any(len(w) != len(head) for w in rows) or len(set(head)) != len(head):
            raise Bad
        at = {h: i for i, h in enumerate(head)}
        col = lambda w, h: w[at[h]].strip()
        return {"ok": True, "time": real(lines[0].strip()), "count": integer(lines[1].strip()), "type": [integer(col(w, "type")) for w in rows],
                "ft": [integer(col(w, "fluidType")) for w in rows],
                "x": [[real(col(w, h)) for h in ("x", "y", "z")] for w in rows],
                "v": [[real(col(w, h)) for h in ("vx", "vy", "vz")] for w in rows]}
    except (Bad, OSError, IndexError, KeyError, UnicodeDecodeError):
        return dict(EMPTY)


INTEGRAL = {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64"}


def vtu(path):
    """{ok, binary, order, header, points, cells, arrays: {name: {section, type, comps, tuples, offset, length, values}}, data}"""
    bad = {"ok": False, "binary": False, "order": "", "header": "", "points": -1, "cells": -1, "arrays": [], "blocks": [], "appended": 0}
    try:
        data = open(path, "rb").read()
        head, raw = data, None
        m = re.search(rb"<AppendedData[^>]*>\s*_", data)
        if m:
            e = data.rindex(b"</AppendedData>")
            head = data[:m.end()] + data[e:]
            raw = data[m.end():e]
        root = ET.fromstring(head)
        if root.tag != "VTKFile":
            raise Bad
        grid = root.findall("UnstructuredGrid")
        pieces = grid[0].findall("Piece")
        if len(grid) != 1 or len(pieces) != 1:
            raise Bad
        hdr = root.get("header_type", "UInt32")
        hw = struct.calcsize(_FMT[hdr])
        arrays = []
        used = 0
        blocks = []
        for section in ("Points", "PointData", "Cells", "FieldData"):
            for parent in pieces[0].findall(section) + grid[0].findall(section):
                for a in parent.findall("DataArray"):
                    t = a.get("type")
                    if a.get("format") == "appended":
                        off = int(a.get("offset"))
                        length = struct.unpack_from("<" + _FMT[hdr], raw, off)[0]
                        w = struct.calcsize(_FMT[t])
                        end = off + hw + length
                        if off < 0 or end > len(raw) or length % w:
                            raise Bad
                        vals = struct.unpack_from("<%d%s" % (length // w, _FMT[t]), raw, off + hw)
                        vals = list(vals) if t in INTEGRAL else [num(v) for v in vals]
                        if t in INTEGRAL and any(abs(v) >= 2 ** 31 for v in vals):
                            raise Bad
                        blocks.append([off, end])
                    else:
                        toks = (a.text or "").split()
                        vals = [integer(x) if t in INTEGRAL else real(x) for x in toks]
                        length = -1
                    arrays.append({"section": section, "name": a.get("Name"), "type": t, "comps": int(a.get("NumberOfComponents", "1")),
                                   "tuples": int(a.get("NumberOfTuples", "-1")), "format": a.get("format"), "values": vals})
        rest = raw[max([b[1] for b in blocks] or [0]):] if raw is not None else b""
        return {"ok": rest.strip() == b"", "binary": raw is not None, "order": root.get("byte_order", ""), "header": hdr,
                "points": int(pieces[0].get("NumberOfPoints")), "cells": int(pieces[0].get("NumberOfCells")),
                "arrays": arrays, "blocks": sorted(blocks), "appended": len(raw) if raw is not None else 0}
    except (Bad, OSError, ET.ParseError, KeyError, IndexError, ValueError, TypeError, struct.error):
        return bad
