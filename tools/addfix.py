"""addfix.py P.. [n]: record the newest (or n-th newest) /repo commit as a fix of the property."""
import json, subprocess, sys
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 0
c, m = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h\t%s", "--skip", str(n), "-1"], text=True).strip().split("\t")
m = m.removeprefix("fix: ")
k = json.load(open("/verif/known_findings.json"))
k["findings"].append(dict(property=prop, key="-", status="fixed", commit=c, what=f"fixed: property={prop} {c} {m}"))
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
print(k["findings"][-1]["what"])
