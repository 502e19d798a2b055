#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from the table in props.py (a development
helper: the three files are committed; no check runs this)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props

with open(os.path.join(here, "properties.jsonl"), "w") as fp:
    for p in props.PROPS:
        files = [f.split(":")[0] for f in p["files"]]
        fp.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        for f in files:
            assert os.path.exists("/repo/" + f), f
checks = []
for p in props.PROPS:
    if p.get("na"):
        continue
    if not os.path.exists(os.path.join(here, "checks", p["id"] + ".py")):
        print("no check:", p["id"])
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./run " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                   "level": p.get("level", "model_checking"), "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")],
       "notes": "No hooks in /repo: the checks drive the public API of the working tree. Commits in /repo are repairs of genuine defects (see known_findings.json)."}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
used = set()
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        for k, pid in props.FIXES:
            if k in s:
                used.add(k)
                fixed.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
                break
        else:
            print("fix without a property:", s)
for k, pid in props.FIXES:
    if k not in used:
        print("no commit for fix entry", k)
json.dump({"findings": props.FINDINGS, "fixed": fixed}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(here, "properties.jsonl")):
        jsonschema.validate(json.loads(line), sch)
    print("valid")
except ImportError:
    print("no jsonschema here (use python3-vt)")
print(len(props.PROPS), "properties,", len(checks), "checks,", len(fixed), "fixes")
