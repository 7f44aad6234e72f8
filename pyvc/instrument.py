"""Loads the repository's modules from source, mechanically rewritten so that
CPython itself executes them on symbolic values.

What the rewriting changes (nothing else):
  a[b] (load)        -> __vc_getitem__(a, b)
  a in b             -> __vc_contains__(b, a)
  a % b              -> __vc_mod__(a, b)
  f(...) by name     -> __vc_fn__(f)(...)       (maps int/bytes/str/... to models)
  x.get(k[, d])      -> __vc_get__(x, k[, d])
  "lit".m            -> __vc_const__("lit").m
  except: and except BaseException:  -> except Exception:   (the engine's own
                        control flow must not be caught; no other such exception occurs)
  loops              -> `while True` with a call to the loop contract at the head
  `def` bodies       -> unchanged; functions are reported when entered
  global builtins    -> pyvc.models; struct/os/io/zlib/tempfile imports -> models
"""
import ast, builtins, sys, types, os
from . import core
from . import models as M
from .core import Unsupported, PathEnd

class Poison(object):
	"""Value of a local the loop body assigns and no invariant mentions."""
	def __init__(self, name):
		object.__setattr__(self, "_n", name)
	def _no(self, *a, **k):
		raise Unsupported("loop-carried local %r is not covered by the invariant"
			% object.__getattribute__(self, "_n"))
	__getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __eq__ = _no
	__bool__ = __len__ = __iter__ = __getitem__ = __lt__ = __gt__ = __le__ = _no
	__ge__ = __index__ = __int__ = __and__ = __or__ = __mul__ = __rmul__ = _no
	__mod__ = __floordiv__ = __lshift__ = __rshift__ = __xor__ = __ne__ = _no
	__iadd__ = __enter__ = __hash__ = __contains__ = _no

def target_names(node, out):
	if isinstance(node, ast.Name):
		out.add(node.id)
	elif isinstance(node, (ast.Tuple, ast.List)):
		for e in node.elts:
			target_names(e, out)
	elif isinstance(node, ast.Starred):
		target_names(node.value, out)

class ModNames(ast.NodeVisitor):
	def __init__(self):
		self.names = set()
		self.nonlocals = set()
	def visit_Assign(self, n):
		for t in n.targets:
			target_names(t, self.names)
		self.generic_visit(n)
	def visit_AugAssign(self, n):
		target_names(n.target, self.names)
		self.generic_visit(n)
	def visit_AnnAssign(self, n):
		target_names(n.target, self.names)
		self.generic_visit(n)
	def visit_For(self, n):
		target_names(n.target, self.names)
		self.generic_visit(n)
	def visit_With(self, n):
		for i in n.items:
			if i.optional_vars is not None:
				target_names(i.optional_vars, self.names)
		self.generic_visit(n)
	def visit_ExceptHandler(self, n):
		self.generic_visit(n)
	def visit_NamedExpr(self, n):
		target_names(n.target, self.names)
		self.generic_visit(n)
	def visit_FunctionDef(self, n):
		self.names.add(n.name)
	def visit_Lambda(self, n):
		pass
	def visit_Import(self, n):
		for a in n.names:
			self.names.add((a.asname or a.name).split(".")[0])
	visit_ImportFrom = visit_Import

def N(id, c=ast.Load):
	return ast.Name(id=id, ctx=c())

def call(fn, *args):
	return ast.Call(func=N(fn), args=list(args), keywords=[])

class Rewrite(ast.NodeTransformer):
	def __init__(self, modname):
		self.mod = modname
		self.stack = []
		self.loops = [0]
		self.uid = 0
		self.shapes = {}    # function -> its loops in source order: For or While

	# functions -----------------------------------------------------------
	def visit_ClassDef(self, n):
		self.stack.append(n.name)
		self.loops.append(0)
		self.generic_visit(n)
		self.loops.pop()
		self.stack.pop()
		return n
	def visit_FunctionDef(self, n):
		self.stack.append(n.name)
		self.loops.append(0)
		qual = self.mod + "." + ".".join(self.stack)
		self.globals_ = getattr(self, "globals_", {})
		self.globals_[qual] = {x for s in ast.walk(n)
			if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
		mv = ModNames()
		for x in n.body:
			mv.visit(x)
		self.bound_ = getattr(self, "bound_", {})
		self.bound_[qual] = mv.names | {a.arg for a in n.args.args + n.args.kwonlyargs}
		self.generic_visit(n)
		body = n.body
		doc = []
		if body and isinstance(body[0], ast.Expr) and \
				isinstance(body[0].value, ast.Constant) and \
				isinstance(body[0].value.value, str):
			doc, body = body[:1], body[1:]
		n.body = doc + [ast.Expr(call("__vc_enter__", ast.Constant(qual)))] + body
		self.loops.pop()
		self.stack.pop()
		return n

	def bound(self, qual):
		return self.bound_.get(qual, set())

	# expressions ---------------------------------------------------------
	def visit_Subscript(self, n):
		self.generic_visit(n)
		if isinstance(n.ctx, ast.Load):
			s = n.slice
			if isinstance(s, ast.Slice):
				none = ast.Constant(None)
				s = call("slice", s.lower or none, s.upper or none, s.step or none)
			return call("__vc_getitem__", n.value, s)
		return n
	def visit_Compare(self, n):
		self.generic_visit(n)
		if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
			r = call("__vc_contains__", n.comparators[0], n.left)
			if isinstance(n.ops[0], ast.NotIn):
				return ast.UnaryOp(op=ast.Not(), operand=r)
			return r
		return n
	def visit_BinOp(self, n):
		self.generic_visit(n)
		if isinstance(n.op, ast.Mod):
			return call("__vc_mod__", n.left, n.right)
		return n
	def visit_Call(self, n):
		self.generic_visit(n)
		if isinstance(n.func, ast.Name) and n.func.id not in ("super", "locals",
				"globals") and not n.func.id.startswith("__vc"):
			n.func = call("__vc_fn__", n.func)
		elif isinstance(n.func, ast.Attribute) and \
				isinstance(n.func.value, ast.Constant) and \
				isinstance(n.func.value.value, (str, bytes)):
			n.func.value = call("__vc_const__", n.func.value)
		elif isinstance(n.func, ast.Attribute) and n.func.attr == "get" and \
				not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
			return call("__vc_get__", n.func.value, *n.args)
		return n
	def visit_JoinedStr(self, n):
		return n

	def visit_ExceptHandler(self, n):
		self.generic_visit(n)
		if n.type is None or isinstance(n.type, ast.Name) and n.type.id == "BaseException":
			n.type = N("Exception")
		return n

	# loops ---------------------------------------------------------------
	def _loop(self, n):
		if not self.stack:
			self.generic_visit(n)
			return n
		idx = self.loops[-1]
		self.loops[-1] += 1
		self.shapes[self.mod + "." + ".".join(self.stack)] = self.shapes.get(self.mod + "." +
			".".join(self.stack), "") + ("F" if isinstance(n, ast.For) else "W")
		mv = ModNames()
		for s in n.body:
			mv.visit(s)
		if isinstance(n, ast.For):
			target_names(n.target, mv.names)
		else:
			mv.visit(n.test)
		qual = self.mod + "." + ".".join(self.stack)
		glob = self.globals_.get(qual, set())
		mods = sorted(mv.names - glob)
		used = sorted({x.id for s in n.body for x in ast.walk(s) if
			isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} & self.bound(qual) - glob
			- set(mods))
		self.generic_visit(n)
		self.uid += 1
		L, H, X = ("__vcL%d" % self.uid, "__vcH%d" % self.uid, "__vcX%d" % self.uid)
		pre = [ast.Assign(targets=[N(L, ast.Store)], value=call("__vc_loop__",
			ast.Constant(qual), ast.Constant(idx),
			ast.Constant(tuple(mods)),
			n.iter if isinstance(n, ast.For) else ast.Constant(None)))]
		head = [ast.Assign(targets=[N(H, ast.Store)], value=ast.Call(
			func=ast.Attribute(value=N(L), attr="head", ctx=ast.Load()),
			args=[call("locals")], keywords=[]))]
		for m in mods + used:
			head.append(ast.If(test=ast.Compare(left=ast.Constant(m), ops=[ast.In()],
				comparators=[N(H)]), body=[ast.Assign(targets=[N(m, ast.Store)],
				value=ast.Subscript(value=N(H), slice=ast.Constant(m), ctx=ast.Load()))],
				orelse=[]))
		if isinstance(n, ast.For):
			head.append(ast.Assign(targets=[N(X, ast.Store)], value=ast.Call(
				func=ast.Attribute(value=N(L), attr="next", ctx=ast.Load()),
				args=[], keywords=[])))
			test = ast.Subscript(value=N(X), slice=ast.Constant(0), ctx=ast.Load())
			bind = [ast.Assign(targets=[n.target], value=ast.Subscript(value=N(X),
				slice=ast.Constant(1), ctx=ast.Load()))]
		else:
			test, bind = n.test, []
		stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
			body=list(n.orelse) + [ast.Break()], orelse=[])
		w = ast.While(test=ast.Constant(True), body=head + [stop] + bind + n.body,
			orelse=[])
		return pre + [w]
	visit_For = _loop
	visit_While = _loop

# ---------------------------------------------------------------------------
class LoopState(object):
	def __init__(self, env, qual, idx, mods, it):
		self.qual, self.idx, self.mods = qual, idx, mods
		self.spec = env.find_loop(qual, idx)
		self.visits = 0
		self.k = None
		self.it = it
		self.env = env
		self.iter = None
		if it is None:
			pass
		elif self.spec is not None and getattr(self.spec, "cut", True):
			if isinstance(it, (M.VcRange, M.SymList)):
				self.n = it.count() if isinstance(it, M.VcRange) else it.zlen()
				self.elem = it.elem
			elif isinstance(it, range):
				r = M.VcRange(it.start, it.stop, it.step)
				self.n, self.elem = r.count(), r.elem
			elif hasattr(it, "vc_iter"):
				self.n, self.elem = it.vc_iter()
			elif isinstance(it, list) and len(it) == 1 and hasattr(it[0], "vc_star"):
				# a list that was extended by an abstract sequence
				self.n, self.elem = it[0].vc_iter()
			elif isinstance(it, M.SymBytes):
				self.n = it.zlen()
				self.elem = lambda k: M.mk(it.at(k))
			else:
				self.spec = None
				self.iter = iter(it)
		else:
			self.spec = None
			self.iter = iter(it)

	def head(self, loc):
		self.visits += 1
		if self.spec is None:
			if self.visits > self.env.unroll:
				raise Unsupported("loop %s#%d exceeds %d iterations without an "
					"invariant" % (self.qual, self.idx, self.env.unroll))
			return {}
		L = Locals(loc, self)
		v = self.env.v
		name = "%s#%d" % (self.qual, self.idx)
		if self.visits == 1:
			if self.it is not None:
				self.k = 0
			self.spec.start(v, L)
			self.spec.inv(v, L, name + ":invariant-entry")
			for m in self.mods:
				L.d[m] = Poison(m)
			if self.it is not None:
				k = M.z3.Int(core.CTX.fresh("iter"))
				core.CTX.axiom(M.z3.And(k >= 0, k <= M.zx(self.n)))
				self.k = M.mk(k)
			L.changed = set()
			L.frame = []
			self.spec.havoc(v, L)
			self.spec.visited = True
			self.var0 = self.spec.variant(v, L)
			self.snap = snapshot(L)
			out = {m: L.d[m] for m in self.mods if m in L.d}
			for m in L.changed:
				if m not in self.mods and m in L.d and not m.startswith("__"):
					out[m] = L.d[m]
			self.out = out
			core.CTX.cover(name + ":head")
			return out
		if self.it is not None:
			self.k = self.k + 1
		self.spec.inv(v, L, name + ":invariant-preserved")
		v1 = self.spec.variant(v, L)
		if v1 is not None:
			v.check(name + ":variant-decreases", (v1 < self.var0) & (self.var0 >= 0)
				if M.is_sym(v1 < self.var0) or M.is_sym(self.var0 >= 0)
				else bool(v1 < self.var0 and self.var0 >= 0))
		check_frame(self.snap, self.spec.frame(v, L), name)
		core.CTX.cover(name + ":back-edge")
		raise PathEnd("back edge")

	def next(self):
		if self.spec is None:
			try:
				return (True, next(self.iter))
			except StopIteration:
				return (False, None)
		if core.CTX.branch(M.ze(self.k) < M.zx(self.n)):
			return (True, self.elem(M.ze(self.k)))
		return (False, None)

class Locals(object):
	"""View of the frame for loop contracts: L["name"]."""
	def __init__(self, d, loop):
		self.d = dict(d)
		self.changed = set()
		self.loop = loop
	def __getitem__(self, k):
		try:
			return self.d[k]
		except KeyError:
			raise Unsupported("invariant refers to the missing local %r" % k)
	def __setitem__(self, k, v):
		self.d[k] = v
		self.changed.add(k)
	def __contains__(self, k):
		return k in self.d
	@property
	def k(self):
		return self.loop.k
	@property
	def n(self):
		return M.mk(M.zx(self.loop.n))
	def names(self):
		return self.d.keys()

class LoopSpec(object):
	"""Contract of a loop.  inv() states the obligations, havoc() replaces the
	loop-carried state by an arbitrary one satisfying them."""
	cut = True
	visited = False     # on this path the loop was reached
	def start(self, v, L): pass
	def inv(self, v, L, name): pass
	def havoc(self, v, L): pass
	def variant(self, v, L): return None
	def frame(self, v, L): return []     # [(object, attribute)] the body may change

def reach(L):
	seen = {}
	todo = [x for k, x in L.d.items() if not k.startswith("__vc")]
	while todo:
		x = todo.pop()
		if id(x) in seen or getattr(type(x), "vc_ghost", False):
			continue
		if isinstance(x, (M.SymFile, M.VNode)) or (hasattr(x, "__dict__") and
				not isinstance(x, (type, types.FunctionType, types.ModuleType,
				types.MethodType, M.Sym, Poison, core.Ctx))):
			if type(x).__module__.startswith("pyvc") and not isinstance(x,
					(M.SymFile, M.VNode)):
				continue
			seen[id(x)] = (x, dict(vars(x)))
			todo += [y for k, y in vars(x).items() if k != "run"]
		elif isinstance(x, (list, tuple)):
			seen[id(x)] = (x, list(x))
			todo += list(x)
		elif isinstance(x, dict):
			seen[id(x)] = (x, dict(x))
			todo += list(x.values())
	return seen

def snapshot(L):
	return reach(L)

def same(a, b):
	if a is b:
		return True
	if isinstance(a, M.SymInt) and isinstance(b, M.SymInt):
		return a.e.eq(b.e) or core.CTX.entails(a.e == b.e)
	if isinstance(a, M.SymBytes) and isinstance(b, M.SymBytes):
		return a.key() == b.key()
	if isinstance(a, (int, str, bytes, bool)) and type(a) == type(b):
		return a == b
	return False

def check_frame(snap, allowed, name):
	al = {(id(o), a) for o, a in allowed}
	for i, (obj, old) in snap.items():
		if isinstance(obj, (list, tuple)):
			if (i, "*") in al:
				continue
			if len(obj) != len(old) or not all(same(a, b) for a, b in zip(obj, old)):
				raise Unsupported("%s: a list outside the frame changed" % name)
		elif isinstance(obj, dict):
			if (i, "*") in al:
				continue
			if set(map(id, obj.values())) != set(map(id, old.values())):
				raise Unsupported("%s: a dict outside the frame changed" % name)
		else:
			new = vars(obj)
			for k in set(new) | set(old):
				if (i, k) in al or (i, "*") in al:
					continue
				if k not in new or k not in old or not same(new[k], old[k]):
					raise Unsupported("%s: attribute %s.%s outside the frame changed"
						% (name, type(obj).__name__, k))

# ---------------------------------------------------------------------------
TYPE_MODELS = {int: M.vc_int, bytes: M.vc_bytes, bytearray: M.vc_bytearray,
	str: M.vc_str, bool: M.vc_bool, type: M.vc_type}

def vc_fn(f):
	try:
		return TYPE_MODELS.get(f, f)
	except TypeError:
		return f

PKGS = ("rescene", "resample", "usenet")

class Env(object):
	"""One instrumented copy of the repository's packages."""
	def __init__(self, repo, overrides=None):
		self.repo = repo
		self.modules = {}
		self.loops = {}
		self.shapes = {}
		self.unroll = 70
		self.v = None
		self.overrides = overrides or {}
		self.real = {}

	def find_loop(self, qual, idx):
		return self.loops.get((qual, idx))

	def path(self, name):
		base = os.path.join(self.repo, *name.split("."))
		if os.path.isdir(base):
			return os.path.join(base, "__init__.py"), True
		return base + ".py", False

	def load(self, name):
		if name in self.modules:
			return self.modules[name]
		if "." in name:
			self.load(name.rsplit(".", 1)[0])
		fn, ispkg = self.path(name)
		src = open(fn, encoding="utf-8").read()
		m = types.ModuleType(name)
		m.__file__ = fn
		if ispkg:
			m.__path__ = [os.path.dirname(fn)]
			m.__package__ = name
		else:
			m.__package__ = name.rpartition(".")[0]
		rw = Rewrite(name)
		tree = rw.visit(ast.parse(src, fn))
		self.shapes.update(rw.shapes)
		ast.fix_missing_locations(tree)
		code = compile(tree, fn, "exec")
		b = M.builtins_dict()
		b["__import__"] = self.imp
		b["__vc_getitem__"] = M.vc_getitem
		b["__vc_contains__"] = M.vc_contains
		b["__vc_mod__"] = M.vc_mod
		b["__vc_get__"] = M.vc_get
		b["__vc_fn__"] = vc_fn
		b["__vc_const__"] = M.VcConst
		b["__vc_enter__"] = self.enter
		b["__vc_loop__"] = self.loop
		m.__dict__["__builtins__"] = b
		self.modules[name] = m
		if "." in name:
			p, c = name.rsplit(".", 1)
			setattr(self.modules[p], c, m)
		exec(code, m.__dict__)
		return m

	def enter(self, qual):
		if core.CTX is not None:
			core.CTX.functions.add(qual)

	def loop(self, qual, idx, mods, it):
		return LoopState(self, qual, idx, mods, it)

	def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
		if level:
			pkg = globals.get("__package__") or ""
			base = pkg.split(".")
			base = base[:len(base) - (level - 1)]
			name = ".".join(base + ([name] if name else []))
		if name in M.MODULES:
			if name == "os.path" and not fromlist:
				return M.MODULES["os"]
			return M.MODULES[name]
		top = name.split(".")[0]
		if top in PKGS:
			fn, _ = self.path(name)
			if not os.path.exists(fn):
				raise ImportError(name)
			m = self.load(name)
			if fromlist:
				for f in fromlist:
					if f != "*" and not hasattr(m, f):
						fn2, _ = self.path(name + "." + f)
						if os.path.exists(fn2):
							self.load(name + "." + f)
				return m
			return self.modules[top]
		return __import__(name, globals, locals, fromlist, 0)
