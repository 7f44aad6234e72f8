"""Statement deletion and operator mutants of the functions under contract, run against the
contracts that name them: prints the mutants no contract notices.

mutants.py OUT [CONTRACT...]"""
import ast, sys, os, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif")
from pyvc import registry, runner
registry.load_all()
out = sys.argv[1]
only = sys.argv[2:]
REPO = runner.REPO
def locate(qual):
	parts = qual.split(".")
	for i in range(len(parts) - 1, 0, -1):
		f = os.path.join(REPO, *parts[:i]) + ".py"
		if os.path.exists(f):
			return f, parts[i:]
	return None, None
def find(tree, names):
	node = tree
	for n in names:
		nxt = None
		for x in ast.walk(node):
			if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n and x is not node:
				nxt = x
				break
		if nxt is None:
			return None
		node = nxt
	return node
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
	ast.Add: "-", ast.Sub: "+", ast.FloorDiv: "*", ast.Mult: "+", ast.And: "or", ast.Or: "and"}
def mutants(src, fn):
	lines = src.split("\n")
	def cut(a, b):
		return a.lineno, a.col_offset, b.end_lineno, b.end_col_offset
	for x in ast.walk(fn):
		for field in ("body", "orelse", "finalbody"):
			for s in getattr(x, field, []) if isinstance(getattr(x, field, None), list) else []:
				if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
					continue
				if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or
						isinstance(s.value, ast.Call) and "print" in ast.dump(s.value.func)):
					continue
				yield cut(s, s), "pass", "del"
		if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in SWAP:
			l, r = x.left, x.comparators[0]
			yield (l.end_lineno, l.end_col_offset, r.lineno, r.col_offset), None, SWAP[type(x.ops[0])]
		if isinstance(x, ast.BinOp) and type(x.op) in SWAP:
			yield (x.left.end_lineno, x.left.end_col_offset, x.right.lineno, x.right.col_offset), None, SWAP[type(x.op)]
		if isinstance(x, ast.AugAssign) and type(x.op) in SWAP:
			yield (x.target.end_lineno, x.target.end_col_offset, x.value.lineno, x.value.col_offset), None, SWAP[type(x.op)] + "="
		if isinstance(x, ast.BoolOp):
			for a, b in zip(x.values, x.values[1:]):
				yield (a.end_lineno, a.end_col_offset, b.lineno, b.col_offset), None, SWAP[type(x.op)]
		if isinstance(x, ast.If):
			t = x.test
			yield cut(t, t), "not (%s)", "neg"
		if isinstance(x, ast.Constant) and type(x.value) is int:
			yield cut(x, x), str(x.value + 1), "+1"
def apply(src, pos, rep, op):
	raw = src.encode("utf-8").split(b"\n")
	a, ac, b, bc = pos
	mid = b"\n".join(raw[a - 1:b])
	tail = len(raw[b - 1]) - bc
	inner = mid[ac:len(mid) - tail]
	if rep is None:
		# between two operands: keep parentheses
		txt = inner.decode()
		core = txt.strip("() \t\n\\")
		if not core or core not in ("<", "<=", ">", ">=", "==", "!=", "+", "-", "//", "*", "and", "or",
				"+=", "-=", "*="):
			return None, None
		new = txt.replace(core, op, 1)
	elif rep == "not (%s)":
		new = "not (" + inner.decode() + ")"
	else:
		new = rep
	res = raw[:a - 1] + [mid[:ac] + new.encode() + mid[len(mid) - tail:]] + raw[b:]
	return b"\n".join(res).decode(), "line %d: %s -> %s" % (a, inner.decode().strip()[:90], new.strip()[:60])
jobs = {}
for c in registry.CONTRACTS:
	if only and c.name not in only:
		continue
	for q in c.functions:
		jobs.setdefault(q, []).append(c)
tasks = []
for q, cs in jobs.items():
	f, names = locate(q)
	if not f:
		continue
	text = open(f, newline="", encoding="utf-8").read()
	crlf = "\r\n" in text
	src = text.replace("\r\n", "\n")
	fn = find(ast.parse(src), names)
	if fn is None:
		continue
	for pos, rep, op in mutants(src, fn):
		new, desc = apply(src, pos, rep, op)
		if new is None:
			continue
		tasks.append((q, cs, f, new.replace("\n", "\r\n") if crlf else new, desc))
print(len(tasks), "mutants", flush=True)
import random
random.Random(1).shuffle(tasks)
log = open(out, "a")
def one(t):
	q, cs, f, new, desc = t
	d = tempfile.mkdtemp(prefix="mut_", dir="/dev/shm")
	try:
		for x in ("rescene", "resample", "usenet"):
			if os.path.exists(os.path.join(REPO, x)):
				shutil.copytree(os.path.join(REPO, x), os.path.join(d, x))
		p = os.path.join(d, os.path.relpath(f, REPO))
		open(p, "w", newline="", encoding="utf-8").write(new)
		seen = "SURVIVED"
		und = ""
		for tool in ("dbg", "verdict"):
			for c in cs:
				try:
					r = subprocess.run(["python3-vt", "-W", "ignore", "/verif/tools/%s.py" % tool, c.name],
						env=dict(os.environ, VC_REPO=d), capture_output=True, text=True, timeout=300)
				except subprocess.TimeoutExpired:
					und = "UNDECIDED timeout"
					continue
				o = r.stdout + r.stderr
				if "SyntaxError" in o:
					return
				if "witness " in o or " refuted " in o:
					seen = "killed"
					break
				if tool == "verdict" and ("undecided" in o or "unknown" in o or "Traceback" in o):
					und = "UNDECIDED " + o.strip().split("\n")[0][-90:]
			if seen == "killed":
				break
		if seen == "SURVIVED" and und:
			seen = und
		log.write("%s | %s | %s | %s\n" % (seen, q, desc.replace("\n", " "), ",".join(c.name for c in cs)))
		log.flush()
	finally:
		shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
	list(ex.map(one, tasks))
print("done")
