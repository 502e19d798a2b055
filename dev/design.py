#!/usr/bin/env python3
"""Writes DESIGN.md from dev/design_head.md, props.py, the evidence of the last run of each check, known_findings.json
and seeded/ (a development helper)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import props

KIND = {props.T_SEQ: "operation sequences", props.T_ENUM: "bounded inputs", props.T_FAULT: "fault points"}
out = [open(os.path.join(here, "dev", "design_head.md")).read().rstrip(), "", "## The properties", "",
       "For each: what is specified, what is enumerated (and how much of it the quick tier covers), the oracle and its limits, and why the tests",
       "do not settle it. The exact statement is in properties.jsonl; times are CPU-parallel wall seconds of the quick tier on 8 cores.", ""]
for p in props.PROPS:
    if p.get("na"):
        continue
    out += ["### %s: %s" % (p["id"], p["title"]), "", p["statement"], ""]
    out += ["- Technique: %s (%s)." % (p["technique"], KIND.get(p["technique"], "exhaustive"))]
    out += ["- Enumerated: %s." % p["quant"].rstrip(".")]
    path = os.path.join(here, "evidence", p["id"] + ".json")
    if os.path.exists(path):
        e = json.load(open(path))
        c = e["coverage"]
        b = c.get("bounds") or {}
        if b:
            out += ["- Bounds: %s." % "; ".join("%s: %s" % kv for kv in b.items())]
        out += ["- Quick tier: %s states, %s transitions, %s traces compared with the code, %.0f s." % (c.get("states"), c.get("transitions"), c.get("traces_validated_against_impl"), e["wall_s"])]
        if e.get("assumptions"):
            out += ["- Assumed: %s." % "; ".join(e["assumptions"]).rstrip(".")]
    if p["note"]:
        out += ["- Oracle, limits: %s" % p["note"]]
    out += ["- Beyond the tests: %s" % p["why"], ""]
na = [p for p in props.PROPS if p.get("na")]
if na:
    out += ["## Not applicable", ""] + ["- %s: %s" % (p["id"], p["na"]) for p in na] + [""]
k = json.load(open(os.path.join(here, "known_findings.json")))
out += ["## Findings which are recorded, not repaired", ""]
out += ["- %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in k["findings"]]
out += ["", "## Defects found and repaired (one `fix:` commit each)", ""]
count = {}
for line in k["fixed"]:
    pid, rest = line[len("fixed: property="):].split(" ", 1)
    count.setdefault(pid, []).append(rest.split(" ", 1)[1])
for pid in [p["id"] for p in props.PROPS]:
    if pid in count:
        out += ["- %s: %s." % (pid, "; ".join(count[pid]))]
out += ["", "## Planted bugs", "", "Each was written from the statement of a property; all are caught by the quick check of their property.", "",
        "| change | check | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    out += ["| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))]
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
