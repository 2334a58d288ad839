#!/usr/bin/env python3
"""Assemble DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md."""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REACH = {
    "C01": "Oracle: an explicit table of the accepted data IDs. Histories catch state kept between calls (lazy lookup tables).",
    "C02": "Oracle: the range 0..T*P*B-1 and the set of integers seen.",
    "C03": "Oracle: the documented bounds; data IDs on, below and beyond each bound, unknown bands, wrong dimension sets.",
    "C04": "Oracle: construction routes against each other and the mixed-radix model of the effective settings.",
    "C05": "Oracle: integer lattice arithmetic (mc/ref.py Box), every pixel of a small tract owned by exactly one patch.",
    "C06": "Oracle: the same lattice; growth by the border, clipping for the legacy builder only.",
    "C07": "Oracle: row-major numbering; out-of-range and negative forms must raise IndexError.",
    "C08": "Oracle: one global lattice of cells over the whole tract, so that shared border cells of adjacent patches must coincide.",
    "C09": "Oracle: row-major numbering of cells.",
    "C10": "Oracle: an independent projection (ref.Proj) of the area the tract must hold.",
    "C11": "Oracle: ref.Proj, which shares no code with the stand-in WCS; both are tied to wcslib by tools/shim_conformance.py.",
    "C12": "Oracle: corners of the boxes through the tract's own WCS.",
    "C13": "Oracle: the documented ring layout (ref.Rings), hpgeom pixels, or the nearest center; positions both sides of every boundary.",
    "C14": "Oracle: the scalar lookup.",
    "C15": "Oracle: ref.Rings; each position must be in exactly one region.",
    "C16": "Oracle: containment in every tract, by the projection model and by the tract itself.",
    "C17": "Oracle: pixel arithmetic; each of the three ways a WCS can report an unmappable position is an environment answer that is enumerated.",
    "C18": "Oracle: the patches whose inner box, grown by the border, meets the pixel bounding box of the region.",
    "C19": "Oracle: the per-tract searches.",
    "C20": "Oracle: equality of canonical definitions; digests also across processes and against recorded ones (data repositories hold them).",
    "C21": "Oracle: complete description (every tract, patch, lookup) of the original.",
    "C22": "Oracle: a fresh map asked nothing else. Only an exploration of histories, with returned values spoiled in place, can show aliasing of internal state.",
    "C23": "Oracle: each call alone. A sys.settrace scheduler (mc/sched.py) stops every thread at each line (or bytecode) of the package and enumerates every schedule within the preemption bound.",
    "C24": "Oracle: records computed from the map's public description; the butler is a real one (SQLite, file datastore) in a scratch directory.",
    "C25": "Oracle: the butler's contents before the attempt, or the complete registration. Faults are injected through a proxy butler, sqlalchemy event hooks, the WCS stand-in, and by killing a forked process.",
    "C26": "Oracle: the mixed-radix model with the registered maxima, and back to the very patch of the map.",
    "C27": "Oracle: a regular dodecahedron constructed from its two characteristic latitudes.",
    "C28": "Oracle: six variables and the meaning of each write.",
    "C29": "Oracle: tracts each taken from a map of its own.",
    "C30": "Oracle: ref.Rings with the version 0 numbering.",
    "C31": "Oracle: positions from the configuration, the regular dodecahedron of C27, and an implementation of HEALPix from its paper (no library).",
    "C32": "Oracle: inner regions of the model; patches of 2x1 pixels leave no slack beyond the overlap itself.",
    "C33": "Oracle: the documented constraints.",
    "C34": "",
}
out = [open(os.path.join(HERE, "tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
wall = {}
for f in glob.glob(os.path.join(HERE, "evidence", "C*.json")):
    pass
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("mc.props." + p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "- Model: " + m.RULE[0].upper() + m.RULE[1:] + ".",
            "- " + getattr(m, "ORACLE", REACH.get(p["id"], "")),
            "- Quick bounds: " + m.BOUNDS["quick"] + ".",
            "- Thorough bounds: " + m.BOUNDS["thorough"] + ".",
            "- Why tests cannot settle it: " + p["why_tests_cant"]]
    if m.ASSUMPTIONS:
        out.append("- Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append("")
table = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    table.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
tail = open(os.path.join(HERE, "tools/design_tail.md")).read().rstrip()
tail = tail.replace("@COUNT@", str(sum(map(len, table.values()))))
tail = tail.replace("@TABLE@", "\n".join("| %s | %s |" % (k, ", ".join(table[k])) for k in sorted(table)))
out.append(tail)
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
