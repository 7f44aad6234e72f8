#!/usr/bin/env python3
"""check.py ID [quick|thorough] | --replay FILE | --list

Decides property ID on /repo's current working tree.
exit 0: no violation; exit 1: a line VIOLATION property=ID replay=PATH."""
import hashlib, json, os, re, sys, time, tempfile, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")

def main():
	from pyvc import registry, runner
	registry.load_all()
	if sys.argv[1] == "--list":
		for c in registry.CONTRACTS:
			print("contract", ",".join(c.props), c.name, c.bounded or "")
		for s in registry.SEARCHES:
			print("search  ", ",".join(s.props), s.name)
		return 0
	if sys.argv[1] == "--replay":
		return replay(sys.argv[2])
	pid = sys.argv[1]
	tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
	only = sys.argv[3] if len(sys.argv) > 3 else None
	seed = int(os.environ.get("VERIF_SEED", "1"))
	t0 = time.time()
	scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
	tasks = []
	searches = [(i, s) for i, s in enumerate(registry.SEARCHES) if pid in s.props]
	secs = (14 if tier == "quick" else 200)
	for i, s in searches:
		if only and only not in s.name:
			continue
		reps = 4 if tier == "quick" else 6
		for k in range(reps):
			tasks.append(("s", i, tier, seed + 7919 * k, secs * s.weight, scratch))
	cs = [(i, c) for i, c in enumerate(registry.CONTRACTS) if pid in c.props]
	cs.sort(key=lambda x: -x[1].budget)
	for i, c in cs:
		if only and only not in c.name:
			continue
		tasks.append(("c", i, tier, seed, scratch))
	try:
		results = runner.run_tasks(tasks, jobs=int(os.environ.get("VC_JOBS", "8")),
			limit=400 if tier == "quick" else 3000)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)
	return decide(pid, tier, seed, results, time.time() - t0, bool(only))

def known():
	out = []
	fn = os.path.join(VERIF, "known_findings.txt")
	if os.path.exists(fn):
		for line in open(fn, encoding="utf-8"):
			m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line.strip())
			if m:
				out.append(m.groups())
	return out

def decide(pid, tier, seed, results, wall, partial):
	ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
	os.makedirs(ev_dir, exist_ok=True)
	base = {}
	bf = os.path.join(VERIF, "baseline.json")
	if os.path.exists(bf):
		base = json.load(open(bf)).get(pid, {})
	witness, with_stand_ins, failed, undecided, errors = None, None, [], [], []
	obl = disch = 0
	backends, secs, trusted, functions, bounded, proved_fns = {}, 0.0, set(), set(), [], set()
	samples = []
	contracts = []
	evals = 0
	counts = {}
	distinct = 0
	for r in results:
		if r["kind"] == "crash":
			errors.append("%s: %s" % (r["name"], r["error"]))
			continue
		if r.get("witness") and r["witness"].get("stand_ins"):
			# a run in which stand-ins took the place of functions is no failing input
			with_stand_ins = with_stand_ins or (r, r["witness"])
		elif r.get("witness") and not witness:
			witness = (r, r["witness"])
		if r["kind"] == "search":
			for k, n in r["counts"].items():
				k2 = r["name"] + ": " + k
				counts[k2] = counts.get(k2, 0) + n
				evals += n if k == "cases" else 0
			distinct += r["distinct"]
			bounded.append("%s: %s" % (r["name"], r["bound"]))
			if r["error"]:
				errors.append("%s: %s" % (r["name"], r["error"]))
			continue
		evals += r["monitored"]
		ok = 0
		for o in r["obligations"]:
			obl += 1
			backends[o["backend"]] = backends.get(o["backend"], 0) + 1
			if o["status"] == "proved":
				disch += 1
				ok += 1
			else:
				failed.append((r, o))
			if len(samples) < 12 and o["backend"] != "simplify":
				samples.append("%s/%s (%s, %.3fs)" % (r["name"], o["name"],
					o["backend"], o["secs"]))
		secs += r["solver_secs"]
		trusted |= set(r["trusted"])
		functions |= set(r["functions"])
		if r["undecided"]:
			undecided.append("%s: %s" % (r["name"], r["undecided"]))
		elif ok == len(r["obligations"]) and ok:
			if not r["bounded"]:
				proved_fns |= set(r["functions"])
		if not r["undecided"] and not r["obligations"]:
			undecided.append("%s: zero obligations generated" % r["name"])
		if not r["undecided"] and r["obligations"] and not r["covered"].get("end") and \
				not any(k.endswith("back-edge") for k in r["covered"]):
			undecided.append("%s: no path reaches the end (vacuous)" % r["name"])
		if r["bounded"]:
			bounded.append("%s (symbolic): %s" % (r["name"], r["bounded"]))
		contracts.append(dict(contract=r["name"], functions=r["functions"],
			obligations=len(r["obligations"]), discharged=ok, paths=r["paths"],
			queries=r["queries"], solver_secs=r["solver_secs"], secs=r["secs"],
			undecided=r["undecided"], bounded=r["bounded"], monitored_runs=r["monitored"],
			vacuity={k: n for k, n in r["covered"].items()}))
	known_ids = known()
	for p, i, text in known_ids:
		if p == pid:
			print("KNOWN-FINDING: property=%s %s" % (pid, text))
	level = LEVELS.get(pid, "other")
	ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(wall, 2))
	cov = dict(
		obligations=obl, discharged=disch,
		checker_cmd="python3-vt check.py %s %s" % (pid, tier),
		trusted_base=sorted(trusted | TRUSTED_BASE),
		functions_under_contract=sorted(functions),
		functions_proved_all_inputs=sorted(proved_fns),
		backends=backends, solver_seconds=round(secs, 3),
		contracts=contracts, undecided=undecided,
		bounded_stand_ins=bounded, bounded_counts=counts, bounded_distinct=distinct,
		evaluations=evals, distinct_nontrivial=distinct,
		rule="evaluations: monitored executions of the contracts on the real code plus "
		"bounded search cases; distinct_nontrivial: distinct case shapes the bounded "
		"searches recorded",
		explanation="Obligations are generated from the source in /repo on this run and "
		"discharged for all inputs (contracts marked bounded excepted); the bounded "
		"stand-ins execute the real code on generated inputs within the stated bound and "
		"are not counted as proved.",
		samples=samples or ["no solver obligation in this run"], errors=errors)
	ev["assumptions"] = sorted(trusted)
	ev["coverage"] = cov
	rc = 0
	rp = os.path.join(ev_dir, "replay-%s.json" % pid)
	if os.path.exists(rp):
		os.unlink(rp)
	line = None
	if witness:
		r, w = witness
		rec = dict(property=pid, contract=r["name"], kind=r["kind"], **w)
		json.dump(rec, open(rp, "w"), indent=1)
		line = "VIOLATION property=%s replay=%s" % (pid, rp)
	else:
		hard = [(r, o) for r, o in failed if o["status"] == "refuted"]
		if with_stand_ins:
			r, w = with_stand_ins
			json.dump(dict(property=pid, contract=r["name"], failed_obligation=w["obligation"],
				run_with_stand_ins=w, others=["%s: %s" % (x["name"], o["name"]) for x, o in
				hard[:20]], note="the run that fails uses stand-ins for the functions named; no "
				"input of the whole program was found"), open(rp, "w"), indent=1)
			line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
		elif hard:
			r, o = hard[0]
			json.dump(dict(property=pid, contract=r["name"], failed_obligation=o["name"],
				verifier=dict(status=o["status"], backend=o["backend"], detail=o["detail"],
				counter_model=o["model"]), others=[x["name"] for _, x in hard[1:20]],
				note="the counter-model did not reproduce on the real code"),
				open(rp, "w"), indent=1)
			line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
	ev["violations"] = 1 if line else 0
	if line:
		rc = 1
		ev["violation_line"] = line
	with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
		json.dump(ev, f, indent=1)
	print("%s %s: %d obligations, %d discharged (%s), %.1fs solver, %d contracts, "
		"%d bounded cases, %.1fs" % (pid, tier, obl, disch, backends, secs,
		len(contracts), evals, wall))
	for u in undecided:
		print("  undecided:", u)
	for r, o in failed[:10]:
		print("  not discharged: %s/%s %s %s %s" % (r["name"], o["name"], o["status"],
			o["detail"], str(o["model"])[:400]))
	for e in errors:
		print("  error:", e)
	if witness:
		print("  witness: %s [%s] %s %s" % (witness[0]["name"], witness[1]["source"],
			witness[1]["monitor"], witness[1]["detail"][:600]))
	if with_stand_ins and not witness:
		print("  run with stand-ins: %s [%s] %s %s" % (with_stand_ins[0]["name"],
			with_stand_ins[1]["source"], with_stand_ins[1]["monitor"],
			with_stand_ins[1]["detail"][:600]))
	if line:
		print(line)
	return rc

TRUSTED_BASE = {
	"pyvc: the verification-condition generator in /verif/pyvc (symbolic values, "
	"library models, mechanical rewriting listed in pyvc/instrument.py)",
	"CPython executes the rewritten source; Python integers are mathematical integers",
	"z3 4.x and cvc5 1.1.2",
}
LEVELS = {}
try:
	for _c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
		LEVELS[_c["property"]] = _c["level"]
except Exception:
	pass

def replay(fn):
	from pyvc import registry, runner
	rec = json.load(open(fn))
	runner.setup_worker()
	if rec.get("kind") == "contract":
		for c in registry.CONTRACTS:
			if c.name == rec["contract"]:
				r, v = runner.concrete_once(c, rec["seed"], runner.unjson(rec["inputs"]))
				print(r)
				return 1 if isinstance(r, Exception) else 0
	print(json.dumps(rec, indent=1)[:4000])
	return 0

if __name__ == "__main__":
	sys.exit(main())
