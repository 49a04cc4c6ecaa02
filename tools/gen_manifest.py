#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered monitors (run: python3 tools/gen_manifest.py)."""
import json, os, subprocess, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = tempfile.mkdtemp()
try:
    for f in os.listdir(here + "/harness"):
        shutil.copy(here + "/harness/" + f, tmp)
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off")
    subprocess.check_call(["go", "build", "-o", "mon", "."], cwd=tmp, env=env)
    mons = json.loads(subprocess.check_output([tmp + "/mon", "list"]))
finally:
    shutil.rmtree(tmp)
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
base = "Holds on every execution explored, observed by the monitor on the real code (release build and -tags debug build with the library's own assertions); says nothing about inputs not generated."
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "All monitors are one Go program (harness/) that links /repo through its exported API; no hooks are added to /repo. Each check copies the harness to a scratch directory, builds it against /repo's working tree and runs it. Replay a violation with: ./replay.sh FILE. See DESIGN.md."}
for p in props:
    if p in mons:
        note = base
        if mons[p]["note"]: note += " " + mons[p]["note"]
        if mons[p]["assumptions"]: note += " Assumes: " + "; ".join(mons[p]["assumptions"]) + "."
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": mons[p]["technique"], "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "no monitor built yet"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
