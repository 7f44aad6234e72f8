"""Writes DESIGN.md from tools/design.in, the registry, known_findings.txt and seeded/."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from pyvc import registry
registry.load_all()
sys.path.insert(0, os.path.join(HERE, "tools"))
from designtext import TEXT
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
out = []
for p in props:
	i = p["id"]
	out.append("### %s %s\n" % (i, p["title"]))
	out.append(TEXT[i].strip() + "\n")
	cs = [c for c in registry.CONTRACTS if i in c.props]
	if cs:
		out.append("Contracts:\n")
		for c in cs:
			fns = ", ".join("`%s`" % f.split(".", 1)[1] for f in c.functions) or "lemma"
			out.append("- `%s`: %s%s" % (c.name, fns, " (%s)" % c.note if c.note else ""))
		out.append("")
	for s in registry.SEARCHES:
		if i in s.props:
			out.append("Bounded stand-in `%s`: %s.\n" % (s.name, s.bound if hasattr(s, "bound") else
				""))
fixes = []
for l in open(os.path.join(HERE, "known_findings.txt")):
	if l.startswith("fixed:"):
		a = l.split(None, 3)
		fixes.append("- %s, repaired in /repo by `%s`: %s" % (a[1][9:], a[2], a[3].strip()))
	elif l.startswith("KNOWN"):
		fixes.append("- recorded, not repaired: " + l.split(":", 1)[1].strip())
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(HERE, "tools", "bugs.json")))
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
	f = os.path.join(HERE, "seeded", b, "meta.json")
	if os.path.exists(f):
		m = json.load(open(f))
		bugs.append("| `%s` | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"),
			res.get(b, "")))
t = open(os.path.join(HERE, "tools", "design.in")).read()
t = t.replace("@@PROPS@@", "## How each property is decided\n\n" + "\n".join(out))
t = t.replace("@@FIXES@@", "\n".join(fixes)).replace("@@BUGS@@", "\n".join(bugs))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
print(len(t))
