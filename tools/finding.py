"""finding.py add PROP "commit-grep" "what failed"  -> append a fixed entry to known_findings.json"""
import json, subprocess, sys, pathlib
p = pathlib.Path("/verif/known_findings.json")
k = json.loads(p.read_text()) if p.exists() else []
prop, grep, what = sys.argv[2:5]
c = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep", grep], capture_output=True, text=True).stdout.split()
assert len(c) == 1, c
k.append(dict(id=f"F{len(k) + 1:02d}", property=prop, status="fixed", commit=c[0], what=what,
              line=f"fixed: property={prop} {c[0]} {what}"))
p.write_text(json.dumps(k, indent=1) + "\n")
