#!/usr/bin/env python3
"""Writes /verif/specs/shapes.json: how many closures and which loops each function has that the annotations are written for.
Usage: mkshapes.py EXTRACTOR [CLIENTS_EXPANDED]"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import config
mods = config.ALL + ["macro_utils"] + (["clients=" + sys.argv[2]] if len(sys.argv) > 2 else [])
with tempfile.TemporaryDirectory() as d:
    subprocess.run([sys.argv[1], "/repo/core/src", os.path.join(V, "specs"), d + "/o"] + mods, check=True)
    r = json.load(open(d + "/o/report.json"))
s = {k: f["shape"] for k, f in sorted(r["functions"].items())}
json.dump(s, open(os.path.join(V, "specs", "shapes.json"), "w"), indent=0)
print(len(s), "functions")
