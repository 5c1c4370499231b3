"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import importlib.util, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
def doc(pid):
    src = open(os.path.join(HERE, "mc/props", pid.lower() + ".py")).read()
    m = re.match(r'\s*"""(.*?)"""', src, re.S)
    return " ".join(m.group(1).split()) if m else ""
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "mc/props", pid.lower() + ".py")):
        checks.append(dict(
            property=pid,
            quick_cmd="bash run.sh %s --tier quick" % pid,
            thorough_cmd="bash run.sh %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique="bounded exhaustive exploration (explicit-state) of the real code",
            level="model_checking",
            level_note=doc(pid) + " Holds for every case within the stated bounds; inputs outside of the finite universe and rounding below the stated tolerances are not covered."))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all checks use the public API. Commits in /repo are fixes, listed in known_findings.json.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
