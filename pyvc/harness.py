"""Contracts as executable harnesses with two back ends: SymV (proof) and
ConcV (replay of counter-models and bounded search on the real code)."""
import importlib, io, linecache, os, random, shutil, sys, tempfile, time, traceback
import z3
from . import core
from . import models as M
from .core import Unsupported, PathEnd
from .instrument import Env, LoopSpec
from .values import SymInt, SymBool, SymBytes, SymStr, SymList, SymBV, Sym, mk, ze

HARNESSES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
	"contracts")

class Violation(Exception):
	def __init__(self, name, detail=""):
		Exception.__init__(self, "%s %s" % (name, detail))
		self.name, self.detail = name, detail

class Discard(Exception):
	pass

GHOSTS = {}

def ghost_names():
	"""names of the classes the contracts define, at any level"""
	if not GHOSTS:
		import ast
		for f in os.listdir(HARNESSES):
			if f.endswith(".py"):
				for n in ast.walk(ast.parse(open(os.path.join(HARNESSES, f)).read())):
					if isinstance(n, ast.ClassDef):
						GHOSTS[n.name] = f
	return GHOSTS

def in_stand_in(e, scratch, patched):
	"""Whether a stand-in of the contract cannot do what the code asks of it: no verdict."""
	tb = e.__traceback__
	while tb.tb_next:
		tb = tb.tb_next
	fn = tb.tb_frame.f_code.co_filename
	if isinstance(e, (AttributeError, NameError, TypeError, KeyError, IndexError)) and \
			os.path.dirname(os.path.abspath(fn)) == HARNESSES and not \
			linecache.getline(fn, tb.tb_lineno).strip().startswith("raise"):
		return True
	if isinstance(e, TypeError) and os.path.abspath(fn) == os.path.abspath(__file__):
		return True               # the function takes other arguments
	if isinstance(e, AttributeError):
		o = getattr(e, "obj", None)
		c = o if isinstance(o, type) else type(o)
		return str(c.__module__).startswith("contracts") or getattr(c, "vc_ghost", False)
	if isinstance(e, TypeError):
		words = set(str(e).replace("'", " ").replace("(", " ").replace(".", " ").split())
		return "<locals>" in words or bool(words & set(ghost_names()))
	if isinstance(e, FileNotFoundError) and patched:
		# a file that only stand-ins know
		f = e.filename
		return not (isinstance(f, str) and scratch and os.path.abspath(f).startswith(scratch))
	return False

class Outcome(object):
	def __init__(self, value=None, exc=None):
		self.value, self.exc = value, exc
	@property
	def ok(self):
		return self.exc is None

CONTROL = (PathEnd, Unsupported, Violation, Discard, KeyboardInterrupt, SystemExit,
	MemoryError, z3.Z3Exception)

class Base(object):
	def call(self, fn, *args, **kw):
		"""Calls the function under contract; returns an Outcome holding the
		value or the exception."""
		try:
			return Outcome(fn(*args, **kw))
		except CONTROL:
			raise
		except Exception as e:
			return Outcome(exc=e)

	def expect(self, name, out, *excs):
		"""The call returned, or raised one of the documented exceptions."""
		if out.ok or (excs and isinstance(out.exc, excs)):
			return
		if isinstance(out.exc, AttributeError) and getattr(type(getattr(out.exc, "obj", None)),
				"vc_ghost", False):
			raise Unsupported("%s: the stand-in lacks an attribute: %s" % (name, out.exc))
		self.fail(name, "unexpected %s: %s" % (type(out.exc).__name__, out.exc))

class SymV(Base):
	symbolic = True
	def __init__(self, repo, ctx):
		self.ctx = ctx
		self.env = Env(repo)
		self.env.v = self

	def mod(self, name):
		return self.env.load(name)
	def _in(self, name, conc):
		self.ctx.inputs[name] = conc
	def int(self, name, lo=None, hi=None):
		x = z3.Int("in." + name)
		if lo is not None:
			self.ctx.axiom(x >= lo)
		if hi is not None:
			self.ctx.axiom(x <= hi)
		self._in(name, lambda m: m.eval(x, model_completion=True).as_long())
		return SymInt(x)
	def bv(self, name, n):
		x = z3.BitVec("in." + name, n)
		self._in(name, lambda m: m.eval(x, model_completion=True).as_long())
		return SymBV(x)
	def bool(self, name):
		return bool(self.int(name, 0, 1) == 1)
	def choice(self, name, options):
		x = self.int(name, 0, len(options) - 1)
		for i in range(len(options) - 1):
			if x == i:
				return options[i]
		return options[-1]
	def bytes(self, name, minlen=0, maxlen=None, cap=4096):
		n = z3.Int("in.len." + name)
		self.ctx.axiom(n >= minlen)
		if maxlen is not None:
			self.ctx.axiom(n <= maxlen)
		if minlen == maxlen:
			n = z3.IntVal(minlen)
		b = SymBytes.blob("in." + name, n)
		arr = b.p[0].blob.arr
		def conc(m):
			ln = m.eval(n, model_completion=True).as_long()
			if ln > 1 << 16:
				return None
			return bytes(m.eval(z3.Select(arr, i), model_completion=True).as_long()
				% 256 for i in range(ln))
		self._in(name, conc)
		return b
	def text(self, name):
		s = SymStr(("in", name))
		self._in(name, lambda m: None)
		return s
	def intlist(self, name, lo=None, hi=None, maxlen=None):
		n = z3.Int("in.len." + name)
		self.ctx.axiom(n >= 0)
		if maxlen is not None:
			self.ctx.axiom(n <= maxlen)
		l = SymList.ints("in." + name, n, lo, hi)
		def conc(m):
			k = m.eval(n, model_completion=True).as_long()
			if k > 4096:
				return None
			return [m.eval(l.f(i), model_completion=True).as_long() for i in range(k)]
		self._in(name, conc)
		return l
	def assume(self, c):
		self.ctx.assume(c)
	def check(self, name, c, detail=""):
		return self.ctx.check(name, c, detail)
	def check_eq(self, name, a, b, detail=""):
		if isinstance(a, SymBytes) or isinstance(b, SymBytes):
			if not isinstance(a, (bytes, bytearray, SymBytes)) or \
					not isinstance(b, (bytes, bytearray, SymBytes)):
				return self.ctx.check(name, False, detail)
			a = SymBytes.of(a)
			return self.ctx.check(name, a.goal_eq(b), detail)
		r = a == b
		return self.ctx.check(name, r, detail)
	def fail(self, name, detail=""):
		self.ctx.fail(name, detail)
		raise PathEnd("failed")
	def file(self, content, name="f"):
		"""An open readable/writable binary stream with this content."""
		return M.SymFile(M.VNode(content), "r+b")
	def content(self, f):
		return f.node.content
	def path(self, name, content=None):
		p = "/vfs/" + name
		if content is not None:
			M.vfs().files[p] = M.VNode(content)
		return p
	def fcontent(self, path):
		v = M.vfs()
		p = v.norm(path)
		return v.files[p].content if p in v.files else None
	def loop(self, qual, idx, spec):
		self.env.loops[(qual, idx)] = spec
	def stub(self, qual, fn):
		"""Uses fn (a contract) in place of the function `qual`."""
		modname, _, attr = qual.rpartition(".")
		owner = None
		parts = qual.split(".")
		for i in range(len(parts) - 1, 0, -1):
			n = ".".join(parts[:i])
			if os.path.exists(self.env.path(n)[0]):
				owner = self.mod(n)
				for a in parts[i:-1]:
					owner = getattr(owner, a)
				break
		self.patch(owner, parts[-1], fn)
	def patch(self, obj, attr, val):
		miss = object()
		old = vars(obj).get(attr, miss) if hasattr(obj, "__dict__") else getattr(obj, attr)
		setattr(obj, attr, val)
		def undo():
			if old is miss:
				delattr(obj, attr)
			else:
				setattr(obj, attr, old)
		self.ctx.undo.append(undo)
	def crc(self, data):
		return M.crc_of(SymBytes.of(data))
	def len(self, x):
		return M.vc_len(x)
	def ite(self, c, a, b):
		return mk(z3.If(core.boolexpr(c), ze(a), ze(b)))
	def And(self, *c):
		return M.mkb(z3.And(*[core.boolexpr(x) for x in c]))
	def Or(self, *c):
		return M.mkb(z3.Or(*[core.boolexpr(x) for x in c]))
	def Not(self, c):
		return M.mkb(z3.Not(core.boolexpr(c)))
	def Implies(self, a, b):
		return M.mkb(z3.Implies(core.boolexpr(a), core.boolexpr(b)))
	def call(self, fn, *args, **kw):
		out = Base.call(self, fn, *args, **kw)
		if not out.ok and isinstance(out.exc, (AttributeError, NameError, TypeError, KeyError)):
			tb = out.exc.__traceback__
			while tb.tb_next:
				tb = tb.tb_next
			fn = tb.tb_frame.f_code.co_filename
			if os.path.dirname(os.path.abspath(fn)) == HARNESSES and not \
					linecache.getline(fn, tb.tb_lineno).strip().startswith("raise"):
				raise Unsupported("inside the contract: %s: %s line %d" % (type(out.exc).__name__,
					out.exc, tb.tb_lineno))
		return out
	def expect(self, name, out, *excs):
		if not out.ok and not (excs and isinstance(out.exc, excs)) and \
				isinstance(out.exc, (TypeError, AttributeError, NameError)):
			# most likely an operation the models lack
			raise Unsupported("%s: %s: %s" % (name, type(out.exc).__name__, out.exc))
		Base.expect(self, name, out, *excs)
	def cover(self, name):
		self.ctx.cover(name)
	def trusted(self, text):
		self.ctx.trusted.add(text)
	def pack(self, fmt, *a):
		return M.s_pack(fmt, *a)
	def fresh_int(self, hint, lo=None, hi=None):
		x = z3.Int(self.ctx.fresh(hint))
		if lo is not None:
			self.ctx.axiom(x >= ze(lo))
		if hi is not None:
			self.ctx.axiom(x <= ze(hi))
		return SymInt(x)
	def fresh_bytes(self, hint, length=None):
		if length is None:
			length = z3.Int(self.ctx.fresh(hint + ".len"))
			self.ctx.axiom(length >= 0)
		return SymBytes.blob(self.ctx.fresh(hint), M.mkz(M.zx(length) if not
			isinstance(length, SymInt) else length.e))

def real_mod(name):
	return importlib.import_module(name)

class ConcV(Base):
	"""Concrete back end: values come from `given` (a counter-model) or from a
	boundary-biased generator; the real modules run unmodified."""
	symbolic = False
	def call(self, fn, *args, **kw):
		for a in list(args) + list(kw.values()) + [getattr(fn, "__self__", None)]:
			for x in [a] + (list(a.values()) if isinstance(a, dict) else list(a) if
					isinstance(a, (list, tuple)) else []):
				if str(type(x).__module__).startswith("contracts"):
					self.stand_ins.add(type(x).__name__)
		out = Base.call(self, fn, *args, **kw)
		if not out.ok and out.exc.__traceback__ is not None and in_stand_in(out.exc, self.tmp,
				bool(self.undo)):
			raise Unsupported("the stand-in cannot do this: %s: %s" % (type(out.exc).__name__,
				out.exc))
		return out
	def __init__(self, rng=None, given=None):
		self.rng = rng or random.Random(0)
		self.given = given
		self.used = {}
		self.tmp = None
		self.checks = 0
		self.undo = []
		self.stand_ins = set()
	def mod(self, name):
		return real_mod(name)
	def _get(self, name, gen, fits=lambda x: True):
		if self.given is not None and self.given.get(name) is not None and \
				fits(self.given[name]):
			x = self.given[name]
		else:
			x = gen()
		self.used[name] = x
		return x
	def int(self, name, lo=None, hi=None):
		r = self.rng
		def gen():
			l = -(2 ** 40) if lo is None else lo
			h = 2 ** 70 if hi is None else hi
			m = r.random()
			if m < 0.3:
				cand = [l, h, l + 1, h - 1, 0, 1, 2, 127, 128, 255, 256]
				for k in (7, 8, 14, 15, 16, 21, 24, 28, 31, 32, 35, 42, 48, 49, 56, 63, 64):
					cand += [2 ** k - 2, 2 ** k - 1, 2 ** k, 2 ** k + 1]
				cand = [c for c in cand if l <= c <= h] or [min(l, h)]
				return r.choice(cand)
			if m < 0.75:
				b = r.randrange(0, max(1, (h - l).bit_length()) + 1)
				return min(h, l + r.getrandbits(b) if b else l)
			return r.randint(l, h)
		return self._get(name, gen, lambda x: (lo is None or x >= lo) and (hi is None or x <= hi))
	def bv(self, name, n):
		return self.int(name, 0, 2 ** n - 1)
	def bool(self, name):
		return bool(self.int(name, 0, 1))
	def choice(self, name, options):
		return options[self.int(name, 0, len(options) - 1)]
	def bytes(self, name, minlen=0, maxlen=None, cap=300):
		r = self.rng
		def gen():
			h = minlen + cap if maxlen is None else min(maxlen, minlen + cap)
			n = r.choice([minlen, h, r.randint(minlen, h), min(h, minlen + r.randint(0, 12))])
			m = r.random()
			if m < 0.2:
				return bytes(n)
			if m < 0.4:
				return bytes(r.choice((0, 1, 2, 127, 128, 255)) for _ in range(n))
			return bytes(r.getrandbits(8) for _ in range(n))
		return self._get(name, gen)
	def text(self, name):
		r = self.rng
		def gen():
			n = r.choice((0, 1, 2, 5, 12, 40))
			al = r.choice(("abcXYZ019._- ", "ab/\\.", "aé漢\u202e😀ü/\\", "".join(map(chr, range(32, 127)))))
			return "".join(r.choice(al) for _ in range(n))
		return self._get(name, gen)
	def intlist(self, name, lo=None, hi=None, maxlen=None):
		r = self.rng
		def gen():
			n = r.randint(0, min(12, maxlen if maxlen is not None else 12))
			h = hi if hi is not None else r.choice((3, 100, 2 ** 33))
			return [r.randint(lo or 0, max(lo or 0, r.choice((h, min(h, 3))))) for _ in range(n)]
		return self._get(name, gen)
	def assume(self, c):
		if not c:
			raise Discard()
	def check(self, name, c, detail=""):
		self.checks += 1
		if not c:
			raise Violation(name, detail)
		return True
	def check_eq(self, name, a, b, detail=""):
		self.checks += 1
		if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
			a, b = bytes(a), bytes(b)
		if type(a) in (bytes, str) and type(a) != type(b) or a != b:
			raise Violation(name, detail or "got %.200r expected %.200r" % (a, b))
		return True
	def fail(self, name, detail=""):
		raise Violation(name, detail)
	def scratch(self):
		if self.tmp is None:
			self.tmp = tempfile.mkdtemp(prefix="vfs_", dir=os.environ.get("VC_SCRATCH"))
		return self.tmp
	def file(self, content, name="f"):
		return io.BytesIO(bytes(content))
	def content(self, f):
		return f.getvalue()
	def path(self, name, content=None):
		p = os.path.join(self.scratch(), name)
		if content is not None:
			os.makedirs(os.path.dirname(p), exist_ok=True)
			with open(p, "wb") as f:
				f.write(content)
		return p
	def fcontent(self, path):
		if not os.path.exists(path):
			return None
		with open(path, "rb") as f:
			return f.read()
	def loop(self, *a): pass
	def stub(self, *a): pass
	def patch(self, obj, attr, val):
		# what only prints does not count: the run is still one of the real code
		miss = object()
		old = getattr(obj, attr, miss)
		if attr not in ("print", "show_spinner", "remove_spinner", "_fire", "fingerprint") and not (
				attr == "sep" and callable(old)) and old is not val:
			self.stand_ins.add(attr)
		setattr(obj, attr, val)
		self.undo.append(lambda: delattr(obj, attr) if old is miss else setattr(obj, attr, old))
	def crc(self, data):
		import zlib
		return zlib.crc32(data) & 0xffffffff
	def len(self, x):
		return len(x)
	def ite(self, c, a, b): return a if c else b
	def And(self, *c): return all(c)
	def Or(self, *c): return any(c)
	def Not(self, c): return not c
	def Implies(self, a, b): return (not a) or bool(b)
	def cover(self, name): pass
	def trusted(self, text): pass
	def pack(self, fmt, *a):
		import struct
		return struct.pack(fmt, *a)
	def done(self):
		for u in reversed(self.undo):
			u()
		self.undo = []
		if self.tmp:
			shutil.rmtree(self.tmp, ignore_errors=True)
			self.tmp = None
