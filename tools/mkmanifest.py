#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has checks registered in the harness is claimed."""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
d = tempfile.mkdtemp()
subprocess.run(["go", "build", "-o", d + "/h"], cwd=V + "/harness", env=env, check=True)
have = sorted({l.split()[0] for l in subprocess.run([d + "/h", "-list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()})
subprocess.run(["rm", "-rf", d])
tech = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, note = tech[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check works through the public API, the tools' command lines and real sockets. ./check.py ID --replay FILE replays a violation file."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not")
