"""pyvc core: verification-condition generation by forward symbolic execution
of the real (mechanically instrumented) Python source, discharged by z3/cvc5.

A run explores every feasible path of a contract by deterministic re-execution
with a decision prefix.  Obligations are solver queries "path condition and not
goal"; `unsat` discharges them."""
import time
import z3

class PathEnd(BaseException):
	"""The current path is finished (infeasible, or closed at a back edge)."""

class Unsupported(BaseException):
	"""The code left the subset the generator can translate: undecided."""

class Budget(Unsupported):
	pass

CTX = None   # the active Ctx

def ctx():
	if CTX is None:
		raise Unsupported("symbolic value used outside a run")
	return CTX

class Obligation(object):
	__slots__ = ("name", "status", "backend", "secs", "model", "detail", "path")
	def __init__(self, name, status, backend, secs, model=None, detail="", path=()):
		self.name, self.status, self.backend = name, status, backend
		self.secs, self.model, self.detail, self.path = secs, model, detail, path

class Ctx(object):
	def __init__(self, timeout_ms=8000, max_paths=4000, deadline=None,
			second=None):
		self.timeout_ms = timeout_ms
		self.max_paths = max_paths
		self.deadline = deadline
		self.second = second          # optional second back end for `unknown`
		self.obligations = []
		self.paths = 0
		self.covered = {}
		self.memo = {}
		self.solver_secs = 0.0
		self.queries = 0
		self.inputs_log = []
		self.trusted = set()
		self.functions = set()
		self.worklist = [()]

	# -- per path ---------------------------------------------------------
	def begin(self, prefix):
		self.prefix = list(prefix)
		self.taken = []
		self.step = 0
		self.counter = 0
		self.solver = z3.Solver()
		self.solver.set("timeout", self.timeout_ms)
		self.pc = []
		self.inputs = {}
		self.shared = {}
		self.undo = []

	def fresh(self, hint):
		self.counter += 1
		return "%s!%d" % (hint, self.counter)

	def _key(self):
		self.step += 1
		return (tuple(self.taken), self.step)

	def _add(self, cond):
		self.pc.append(cond)
		self.solver.add(cond)

	def _check(self, *extra):
		if self.deadline and time.time() > self.deadline:
			raise Budget("time budget exhausted")
		t = time.time()
		self.queries += 1
		r = self.solver.check(*extra)
		self.solver_secs += time.time() - t
		return r

	def axiom(self, cond):
		"""A fact that holds by construction of the model (e.g. a byte is
		0..255).  Never used for anything about the code under proof."""
		self._add(cond)

	def assume(self, cond):
		cond = boolexpr(cond)
		cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
		if z3.is_true(cond):
			return
		self._add(cond)
		k = self._key()
		if k not in self.memo:
			self.memo[k] = self._check()
		if self.memo[k] == z3.unsat:
			raise PathEnd("infeasible")

	def entails(self, cond):
		cond = z3.simplify(boolexpr(cond))
		if z3.is_true(cond):
			return True
		if z3.is_false(cond):
			return False
		k = self._key()
		if k not in self.memo:
			self.memo[k] = self._check(z3.Not(cond)) == z3.unsat
		return self.memo[k]

	def branch(self, cond):
		cond = z3.simplify(boolexpr(cond))
		if z3.is_true(cond):
			return True
		if z3.is_false(cond):
			return False
		k = self._key()
		if k in self.memo and self.memo[k] in ("T", "F"):
			r = self.memo[k] == "T"
			return r                     # forced: nothing to add
		i = len(self.taken)
		if i < len(self.prefix):
			choice = self.prefix[i]
		else:
			can_t = self._check(cond) != z3.unsat
			can_f = self._check(z3.Not(cond)) != z3.unsat
			if not can_t and not can_f:
				raise PathEnd("infeasible")
			if not can_f:
				self.memo[k] = "T"
				return True
			if not can_t:
				self.memo[k] = "F"
				return False
			self.worklist.append(tuple(self.taken) + (False,))
			choice = True
		self.taken.append(choice)
		self.step = 0
		self._add(cond if choice else z3.Not(cond))
		return choice

	def choose(self, n, hint="choice"):
		"""Forks over 0..n-1 (a free choice, every value explored)."""
		x = z3.Int(self.fresh(hint))
		self._add(z3.And(x >= 0, x < n))
		for j in range(n - 1):
			if self.branch(x == j):
				return j
		return n - 1

	# -- obligations ------------------------------------------------------
	def check(self, name, cond, detail=""):
		cond = boolexpr(cond)
		s = z3.simplify(cond)
		k = self._key()
		if k in self.memo:               # replayed prefix: already recorded
			self._add(cond)
			return self.memo[k]
		if z3.is_true(s):
			self._record(name, "proved", "simplify", 0.0)
			self.memo[k] = True
			return True
		t = time.time()
		r = self._check(z3.Not(cond))
		dt = time.time() - t
		if r == z3.unsat:
			self._record(name, "proved", "z3", dt)
			ok = True
		elif r == z3.sat:
			self._record(name, "refuted", "z3", dt, self.solver.model(), detail)
			ok = False
		else:
			ok = False
			if self.second is not None:
				st, back, dt2 = self.second(self.pc, cond)
				if st == "unsat":
					self._record(name, "proved", back, dt + dt2)
					ok = True
				else:
					self._record(name, "unknown", back, dt + dt2, None,
						self.solver.reason_unknown())
			else:
				self._record(name, "unknown", "z3", dt, None,
					self.solver.reason_unknown())
		self.memo[k] = ok
		self._add(cond)
		return ok

	def fail(self, name, detail):
		"""An obligation `false` on the current path (unexpected exception)."""
		k = self._key()
		if k in self.memo:
			return
		self.memo[k] = False
		t = time.time()
		r = self._check()
		dt = time.time() - t
		if r == z3.unsat:
			return
		if r == z3.sat:
			self._record(name, "refuted", "z3", dt, self.solver.model(), detail)
		else:
			self._record(name, "unknown", "z3", dt, None, detail)

	def cover(self, name):
		self.covered[name] = self.covered.get(name, 0) + 1

	def _record(self, name, status, backend, secs, model=None, detail=""):
		if status == "refuted" and self.shared.get("eqs"):
			# equal parts may have got different names: only a replay on the code counts
			status = "unknown"
			detail = "counter-model with equality of parts told by name %s" % (detail,)
		ob = Obligation(name, status, backend, secs, None, detail,
			tuple(self.taken))
		if model is not None:
			ob.model = {n: f(model) for n, f in self.inputs.items()}
		self.obligations.append(ob)

	# -- exploration ------------------------------------------------------
	def explore(self, fn):
		"""Runs fn() once per feasible path."""
		global CTX
		import gc
		while self.worklist:
			prefix = self.worklist.pop()
			self.paths += 1
			if self.paths > self.max_paths:
				raise Budget("more than %d paths" % self.max_paths)
			self.begin(prefix)
			CTX = self
			try:
				fn()
			except PathEnd:
				pass
			finally:
				for u in reversed(self.undo):
					u()
				CTX = None

def boolexpr(c):
	if isinstance(c, bool):
		return z3.BoolVal(c)
	if hasattr(c, "zbool"):
		return c.zbool()
	if z3.is_expr(c):
		return c
	return z3.BoolVal(bool(c))
