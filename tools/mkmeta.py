"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the META of each check."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P  # noqa: E402

PY = "/opt/venv/bin/python -B run.py"
checks = {f[:3].upper(): f for f in os.listdir(HERE + "/checks") if f.endswith(".py") and f[0] == "p"}


def meta(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return {k.arg: ast.literal_eval(k.value) for k in node.value.keywords}
    raise SystemExit(f"no META in {path}")


with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for a in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), a
        f.write(json.dumps(p) + "\n")

out = []
for p in P:
    if p["id"] not in checks:
        continue
    m = meta(f"{HERE}/checks/{checks[p['id']]}")
    note = f"Exhaustive within: {m['bounds']}. Trusts the in-memory stand-in of the store library" \
           " (validated by running the project's whole test suite over it) and the harness's oracle."
    if m.get("assumptions"):
        note += " Assumes: " + "; ".join(m["assumptions"]) + "."
    out.append(dict(property=p["id"], quick_cmd=f"{PY} {p['id']} quick",
                    thorough_cmd=f"{PY} {p['id']} thorough",
                    technique=m.get("technique", "explicit-state exploration of the real code against a reference model"),
                    level=m["level"], level_note=note))
na = [dict(property=p["id"], reason="no check built (yet)") for p in P if p["id"] not in checks]
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B run.py setup", checks=out, not_applicable=na,
                   notes="See DESIGN.md. Every check explores the real code imported from /repo; no build step, no hooks."),
              f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(out), "checks,", len(na), "not covered")
