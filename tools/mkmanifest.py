"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from pyvc import registry
registry.load_all()
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
	i = p["id"]
	cs = [c for c in registry.CONTRACTS if i in c.props]
	ss = [s for s in registry.SEARCHES if i in s.props]
	n = NOTES.get(i, {})
	if not cs and not ss:
		na.append(dict(property=i, reason=n.get("na", "no check has been built yet")))
		continue
	proved = [c.name for c in cs if not c.bounded]
	level = n.get("level", "other")
	d = dict(property=i, quick_cmd="python3-vt check.py %s quick" % i,
		thorough_cmd="python3-vt check.py %s thorough" % i,
		technique=n.get("technique") or ("contract-based deductive verification of the real "
		"source (pyvc: verification conditions to z3/cvc5)" + (" plus bounded contract "
		"checking on the real code, labelled bounded" if ss else "")) if cs else
		"bounded run-time contract checking of the real code (stand-in, labelled bounded)",
		level=level, level_note=n.get("note", "See DESIGN.md."))
	if level == "proof":
		d["theorems"] = proved
	checks.append(d)
m = dict(version=1, setup_cmd="python3-vt check.py --list", checks=checks,
	not_applicable=na, notes="Run from /verif. check.py reads /repo's working tree on "
	"every run; nothing is cached between runs. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
