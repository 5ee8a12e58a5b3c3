#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md from the registry of contracts."""
import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(ROOT, ".build", "native", "debug", "native")
import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import CLAIMS

rows = [json.loads(l) for l in subprocess.run([BIN, "list"], stdout=subprocess.PIPE, text=True)
        .stdout.splitlines()]
out = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    mine = [r for r in rows if r["prop"] == p["id"]]
    level, _, note = CLAIMS[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Level: %s. %s.\n" % (level, note[0].upper() + note[1:]))
    out.append("| contract | verifier | evaluated domain | functions |\n|---|---|---|---|")
    for r in mine:
        k = {"none": "-", "full": "full", "bounded": "bounded: " + r["bound"]}[r["kani"]]
        if r["split"]:
            k += " (%d harnesses)" % r["split"]
        name = r["name"] + (" (finding)" if r["finding"] else "")
        out.append("| %s | %s | %s | %s |" % (name, k, r["native"], ", ".join("`%s`" % f for f in r["fns"])))
    out.append("")
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
text = re.sub(r"<!-- TABLE -->.*<!-- END TABLE -->",
              lambda m: "<!-- TABLE -->\n" + "\n".join(out) + "<!-- END TABLE -->", text, flags=re.S)
open(path, "w").write(text)
