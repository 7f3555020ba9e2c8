# -*- coding: utf-8 -*-
"""Writes DESIGN.md: the text below, with the bounds of the checks and the planted bugs filled in from their sources."""
import ast
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TXT = open(os.path.join(here, "design.txt")).read()


def bounds(pid):
    for n in ast.parse(open(os.path.join(here, "checks", pid.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            return ast.literal_eval(n.value)


from mkmanifest import T  # noqa
out = []
for p in P:
    b = bounds(p["id"])
    out.append("### %s %s\n*Method*: %s. %s\n\n*Quick*: %s.\n\n*Thorough*: %s.\n" % (
        p["id"], p["title"], T[p["id"]][0], T[p["id"]][1], b["quick"], b["thorough"]))
TXT = TXT.replace("@@CHECKS@@", "\n".join(out))
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(here, "seeded_results.json")))
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], res.get(d, "?")))
TXT = TXT.replace("@@SEEDED@@", "\n".join(rows))
K = json.load(open(os.path.join(here, "known_findings.json")))
TXT = TXT.replace("@@FIXED@@", "\n".join("* " + f[len("fixed: property="):] for f in K["fixed"]))
TXT = TXT.replace("@@FINDINGS@@", "\n".join("* %s" % (f,) for f in K["findings"]) or "None.")
open(os.path.join(here, "DESIGN.md"), "w").write(TXT)
