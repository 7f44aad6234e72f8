"""Writes seeded/<id>/ from a description: mkbug.py FILE (a python file that defines BUGS, a list
of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text))."""
import sys, os, subprocess, shutil, json, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for b in ns["BUGS"]:
	if only and b["id"] not in only:
		continue
	d = os.path.join(V, b["id"])
	os.makedirs(d, exist_ok=True)
	w = tempfile.mkdtemp()
	subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
	for fn, a, c in b["edits"]:
		p = os.path.join(w, "r", fn)
		t = open(p, newline="", encoding="utf-8").read()
		if t.count("\r\n") > t.count("\n") / 2:
			a, c = a.replace("\n", "\r\n"), c.replace("\n", "\r\n")
		assert t.count(a) == 1, (b["id"], t.count(a), a)
		open(p, "w", newline="", encoding="utf-8").write(t.replace(a, c))
	diff = subprocess.check_output(["git", "-C", w + "/r", "diff", "--binary"])
	assert diff, b["id"]
	open(os.path.join(d, "patch.diff"), "wb").write(diff)
	# lines that a fix commit of ours wrote do not count
	base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]
		).decode().split()[-1]
	orig = 0
	fn = None
	for l in subprocess.check_output(["git", "-C", w + "/r", "diff", "-U0"]).decode("utf-8",
			"replace").split("\n"):
		if l.startswith("--- a/"):
			fn = l[6:].strip()
		if l.startswith("@@"):
			a = l.split()[1][1:].split(",")
			for n in range(int(a[0]), int(a[0]) + (int(a[1]) if len(a) > 1 else 1)):
				bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "-L",
					"%d,%d" % (n, n), fn]).decode("utf-8", "replace").split()[0].lstrip("^")
				orig += base.startswith(bl[:30])
	print("  original lines changed:", orig)
	shutil.rmtree(w)
	open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n"
		'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
	open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
	json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
		open(os.path.join(d, "meta.json"), "w"), indent=1)
	print(b["id"], len(diff))
