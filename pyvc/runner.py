"""Runs the contracts and searches of one property and decides."""
import hashlib, io, json, multiprocessing as mp, os, random, resource, shutil, signal
import subprocess, sys, tempfile, time, traceback, zlib
import z3
from . import core, registry
from . import models as M
from .core import Unsupported, PathEnd, Ctx
from .harness import SymV, ConcV, Violation, Discard

REPO = os.environ.get("VC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_SECS = 30
try:
	SHAPES = json.load(open(os.path.join(VERIF, "loops.json")))
except OSError:
	SHAPES = {}

class Hang(BaseException):
	pass

def _alarm(*a):
	raise Hang()

class Tail(io.RawIOBase):
	"""Keeps the end of what is written."""
	def __init__(self):
		self.b = b""
	def writable(self):
		return True
	def write(self, d):
		self.b = (self.b + bytes(d))[-4000:]
		return len(d)
	def close(self):
		pass

class Quiet(object):
	"""Silences the code under test (it prints a lot)."""
	def __enter__(self):
		self.o, self.e = sys.stdout, sys.stderr
		self.tail = Tail()
		sys.stdout = io.TextIOWrapper(self.tail, encoding="utf-8", errors="replace",
			write_through=True)
		sys.stderr = sys.stdout
		return self.tail
	def __exit__(self, *a):
		sys.stdout, sys.stderr = self.o, self.e

def guarded(fn, secs=HANG_SECS):
	"""Runs fn with a wall clock limit; a run-away call is a violation."""
	signal.signal(signal.SIGALRM, _alarm)
	signal.setitimer(signal.ITIMER_REAL, secs, 1.0)
	try:
		return fn()
	except Hang as e:
		raise Violation("terminates", "no end after %d s: %s" % (secs,
			"".join(traceback.format_tb(e.__traceback__)[-6:])))
	except MemoryError:
		raise Violation("bounded-memory", "memory exhausted")
	finally:
		signal.setitimer(signal.ITIMER_REAL, 0)

def setup_worker():
	sys.dont_write_bytecode = True
	if REPO not in sys.path:
		sys.path.insert(0, REPO)
	lim = 6 << 30
	resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
	sys.setrecursionlimit(5000)
	import warnings
	warnings.simplefilter("ignore")

def jsonable(x):
	if isinstance(x, (bytes, bytearray)):
		return {"hex": bytes(x).hex()} if len(x) <= 1 << 20 else {
			"sha1": hashlib.sha1(x).hexdigest(), "length": len(x)}
	if isinstance(x, dict):
		return {str(k): jsonable(v) for k, v in x.items()}
	if isinstance(x, (list, tuple)):
		return [jsonable(v) for v in x]
	if isinstance(x, (int, str, float, bool)) or x is None:
		return x
	return repr(x)

def unjson(x):
	if isinstance(x, dict):
		if set(x) == {"hex"}:
			return bytes.fromhex(x["hex"])
		return {k: unjson(v) for k, v in x.items()}
	if isinstance(x, list):
		return [unjson(v) for v in x]
	return x

# -- second back end ------------------------------------------------------------
def cvc5_check(pc, goal, secs=20):
	s = z3.Solver()
	for c in pc:
		s.add(c)
	s.add(z3.Not(goal))
	txt = "(set-logic ALL)\n" + s.to_smt2()
	t = time.time()
	with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
		f.write(txt)
	try:
		p = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), f.name],
			capture_output=True, text=True, timeout=secs + 10)
		out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
	except Exception as e:
		out = "unknown"
	finally:
		os.unlink(f.name)
	return out, "cvc5", time.time() - t

# -- contracts ------------------------------------------------------------------
def concrete_once(c, seed, given=None):
	v = ConcV(random.Random(seed), given)
	cwd = os.getcwd()
	try:
		with Quiet():
			guarded(lambda: c.fn(v))
		return None, v
	except Discard:
		return "discard", v
	except Violation as e:
		return e, v
	except Exception as e:
		# the harness no longer fits the code (a renamed function, say): no verdict
		v.error = "%s: %s" % (type(e).__name__, e)
		return "error", v
	finally:
		os.chdir(cwd)
		v.done()

def run_contract(idx, tier, seed):
	c = registry.CONTRACTS[idx]
	setup_worker()
	t0 = time.time()
	budget = c.budget * (3 if tier == "thorough" else 1)
	ctx = Ctx(timeout_ms=10000 if tier == "quick" else 40000, max_paths=c.max_paths,
		deadline=t0 + budget, second=lambda pc, g: cvc5_check(pc, g,
		10 if tier == "quick" else 60))
	res = dict(kind="contract", name=c.name, functions=list(c.functions),
		bounded=c.bounded, undecided=None, obligations=[], witness=None, note=c.note)
	try:
		v = SymV(REPO, ctx)
		with Quiet():
			ctx.explore(lambda: _sym_path(c, v, ctx))
	except Unsupported as e:
		res["undecided"] = "%s: %s" % (type(e).__name__, e)
	except Exception as e:
		res["undecided"] = "generator: %s: %s\n%s" % (type(e).__name__, e,
			traceback.format_exc()[-1500:])
	other = sorted({q for q, i in v.env.loops if v.env.shapes.get(q) != SHAPES.get(q)}) \
		if SHAPES else []
	res["shapes"] = {q: v.env.shapes.get(q) for q, i in v.env.loops}
	unused = sorted({q for q, i in v.env.loops if q in other and
		"%s#%d:head" % (q, i) not in ctx.covered})
	if unused:
		res["undecided"] = (res["undecided"] or "") + "loop contracts of %s apply to no loop" \
			% ", ".join(unused)
	if other and any(o.status != "proved" for o in ctx.obligations):
		# loops were added, removed or moved: their contracts may be on the wrong loop
		res["undecided"] = (res["undecided"] or "") + "the loops of %s are not those the " \
			"loop contracts were written for" % ", ".join(other)
		for o in ctx.obligations:
			if o.status == "refuted":
				o.status = "unknown"
	res["obligations"] = [dict(name=o.name, status=o.status, backend=o.backend,
		secs=round(o.secs, 4), detail=str(o.detail)[:300], model=jsonable(o.model))
		for o in ctx.obligations]
	res["paths"] = ctx.paths
	res["covered"] = ctx.covered
	res["queries"] = ctx.queries
	res["solver_secs"] = round(ctx.solver_secs, 3)
	res["trusted"] = sorted(ctx.trusted)
	res["entered"] = sorted(ctx.functions)
	# replay of counter-models on the unmodified code, then a monitored search
	tried = 0
	bad = [o for o in ctx.obligations if o.status != "proved"]
	for o in bad[:6]:
		if o.model is None:
			continue
		for k in range(5):
			tried += 1
			r, v = concrete_once(c, seed * 1000 + k, dict(o.model))
			if isinstance(r, Violation):
				res["witness"] = dict(obligation=o.name, monitor=r.name,
					detail=r.detail[:2000], inputs=jsonable(v.used), seed=seed * 1000 + k,
					stand_ins=sorted(v.stand_ins),
					source="counter-model of " + o.name)
				break
		if res["witness"]:
			break
	n = c.iters * (1 if tier == "quick" else 10)
	if bad or res["undecided"]:
		n *= 5
	done = 0
	t1 = time.time()
	lim = 12 if tier == "quick" else 90
	if bad or res["undecided"]:
		lim *= 2
	while done < n and not res["witness"] and time.time() - t1 < lim:
		s = (seed << 24) + zlib.crc32(c.name.encode()) % 1000003 * 97 + done
		r, v = concrete_once(c, s)
		if r == "error":
			res["monitor_error"] = v.error
			break
		done += 1
		if isinstance(r, Violation):
			res["witness"] = dict(obligation=r.name, monitor=r.name,
				detail=r.detail[:2000], inputs=jsonable(v.used), seed=s,
				stand_ins=sorted(v.stand_ins),
				source="monitored execution")
	res["replayed"] = tried
	res["monitored"] = done
	res["secs"] = round(time.time() - t0, 2)
	return res

def _sym_path(c, v, ctx):
	try:
		c.fn(v)
		ctx.cover("end")
	except (PathEnd, Unsupported):
		raise
	except Discard:
		raise PathEnd("discard")
	except Exception as e:
		tb = traceback.extract_tb(e.__traceback__)
		where = next((("%s:%d" % (f.filename, f.lineno)) for f in reversed(tb)
			if f.filename.startswith(REPO)), "contract")
		if where == "contract" and not any(f.filename.startswith(REPO) for f in tb):
			raise
		ctx.fail("no-unexpected-exception", "%s: %s at %s" % (type(e).__name__, e, where))

# -- searches -------------------------------------------------------------------
class S(object):
	"""Environment of a concrete search."""
	def __init__(self, seed, secs, tier, name):
		self.seed, self.tier, self.name = seed, tier, name
		self.rng = random.Random((seed << 20) ^ zlib.crc32(name.encode()))
		self.end = time.time() + secs
		self.counts = {}
		self.base = tempfile.mkdtemp(prefix="vs_")
		self.n = 0
		self.inputs = {}
		self.distinct = set()
	def more(self):
		return time.time() < self.end
	def count(self, what, n=1):
		self.counts[what] = self.counts.get(what, 0) + n
	def seen(self, what):
		self.distinct.add(what)
	def dir(self):
		"""A fresh directory, deep inside the scratch area."""
		self.n += 1
		d = os.path.join(self.base, "a", "b", "c", "d", "case%d" % self.n)
		os.makedirs(d)
		return d
	def clean(self):
		shutil.rmtree(os.path.join(self.base, "a"), ignore_errors=True)
	def mod(self, name):
		import importlib
		return importlib.import_module(name)
	def note(self, **kw):
		self.inputs.update(kw)
	def violate(self, name, detail="", **inputs):
		self.inputs.update(inputs)
		raise Violation(name, detail)
	def case(self, fn, secs=HANG_SECS):
		"""One guarded case: its inputs are what note() recorded."""
		self.inputs = {}
		self.count("cases")
		try:
			os.chdir(self.base)
			with Quiet() as tail:
				try:
					return guarded(fn, secs)
				except Violation:
					self.inputs["output"] = tail.b.decode("utf-8", "replace")
					raise
		finally:
			os.chdir("/")
			self.clean()

def run_search(idx, tier, seed, secs):
	sr = registry.SEARCHES[idx]
	setup_worker()
	t0 = time.time()
	s = S(seed, secs, tier, sr.name)
	res = dict(kind="search", name=sr.name, bound=sr.bound, witness=None, error=None)
	try:
		sr.fn(s)
	except Violation as e:
		res["witness"] = dict(obligation=e.name, monitor=e.name, detail=e.detail[:3000],
			inputs=jsonable(s.inputs), seed=seed, source="bounded search")
	except BaseException as e:
		fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
		mine = max([i for i, f in enumerate(fr) if f.startswith(VERIF)], default=-1)
		theirs = max([i for i, f in enumerate(fr) if f.startswith(REPO + os.sep)],
			default=-1)
		txt = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
		if theirs > mine and not isinstance(e, KeyboardInterrupt):
			# the code under test raised where it may not
			res["witness"] = dict(obligation="no-unexpected-exception",
				monitor="no-unexpected-exception", detail=txt, inputs=jsonable(s.inputs),
				seed=seed, source="bounded search")
		else:
			res["error"] = txt
			res["inputs"] = jsonable(s.inputs)
	finally:
		os.chdir("/")
		shutil.rmtree(s.base, ignore_errors=True)
	res["counts"] = s.counts
	res["distinct"] = len(s.distinct)
	res["secs"] = round(time.time() - t0, 2)
	return res

def _task(t):
	os.environ["TMPDIR"] = t[-1]
	tempfile.tempdir = t[-1]
	if t[0] == "c":
		return run_contract(*t[1:-1])
	return run_search(*t[1:-1])

def child(t, conn):
	try:
		conn.send(_task(t))
	except BaseException as e:
		conn.send(dict(kind="crash", name=str(t), error=traceback.format_exc()[-2000:]))
	finally:
		conn.close()
		os._exit(0)

def run_tasks(tasks, jobs=8, limit=600):
	"""Each task in its own process; a task that dies or exceeds the limit is
	reported as such."""
	pend = list(enumerate(tasks))
	live = {}
	out = {}
	while pend or live:
		while pend and len(live) < jobs:
			i, t = pend.pop(0)
			a, b = mp.Pipe(False)
			p = mp.Process(target=child, args=(t, b))
			p.start()
			b.close()
			live[i] = (p, a, time.time(), t)
		for i, (p, a, t0, t) in list(live.items()):
			if a.poll(0.02):
				try:
					out[i] = a.recv()
				except EOFError:
					out[i] = dict(kind="crash", name=str(t[:2]), error="worker died")
				p.join(5)
				if p.is_alive():
					p.kill()
				del live[i]
			elif time.time() - t0 > limit:
				p.kill()
				p.join()
				out[i] = dict(kind="crash", name=str(t[:2]), error="time limit")
				del live[i]
	return [out[i] for i in range(len(tasks))]
