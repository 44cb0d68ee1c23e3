#!/usr/bin/env python3
"""Writes SUBCHECKS.md and PLANTED.md.

SUBCHECKS.md comes from the harness's own registry (argument: a built worker),
PLANTED.md from seeded/*/meta.json and tools/caught.json (plant.py catch).
"""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cell(s):
    return s.replace("|", "\\|").replace("\n", " ")


def subchecks(worker):
    out = ["# Sub-checks", "", "Made by tools/tables.py from the harness's registry. Counts are cases per configuration; \"all\" is an enumeration.", ""]
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    for p in props:
        subs = {}
        for tier in ("quick", "thorough"):
            q = subprocess.run([worker, "-mode", "list", "-prop", p["id"], "-tier", tier], capture_output=True, text=True, check=True)
            for s in json.loads(q.stdout) or []:
                s = {k.lower(): v for k, v in s.items()}
                subs.setdefault(s["name"], {})[tier] = s
        out += ["## %s %s" % (p["id"], p["title"]), "", "| sub-check | cases and rule | configurations | quick | thorough |", "|---|---|---|---|---|"]
        for n, t in subs.items():
            s = t["thorough"]

            def count(x):
                return "-" if x is None else "all" if x["isenum"] else str(x["checks"])
            out.append("| %s | %s | %s | %s | %s |" % (n, cell(s["rule"]), ", ".join(s["configs"]), count(t.get("quick")), count(t.get("thorough"))))
        out.append("")
    open(os.path.join(VERIF, "SUBCHECKS.md"), "w").write("\n".join(out))


def planted():
    caught = json.load(open(os.path.join(VERIF, "tools", "caught.json")))
    rows = []
    for id in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        m = json.load(open(os.path.join(VERIF, "seeded", id, "meta.json")))
        r = caught.get(id, "not run")
        w = re.search(r"CAUGHT (\S+(?: \[\w+\])?)", r)
        rows.append("| %s | %s | %s | %s |" % (id, m["property"], cell(m["needs"]), w.group(1) if w else "**missed**" if "missed" in r else r))
    out = ["# Planted bugs", "", "Made by tools/tables.py. \"Caught by\" is the sub-check that reported it first (quick tier, seed 1).", "",
           "| bug | property | needs | caught by |", "|---|---|---|---|"] + rows
    open(os.path.join(VERIF, "PLANTED.md"), "w").write("\n".join(out) + "\n")


if len(sys.argv) > 1:
    subchecks(sys.argv[1])
planted()
