"""Models of the built-in functions and library modules the code calls.
Concrete arguments go to the real function; symbolic ones to the model."""
import builtins, types, sys
import struct as _struct
import os as _os
import io as _io
import zlib as _zlib
import tempfile as _tempfile
import z3
from . import core
from .core import Unsupported, PathEnd
from .values import *
from .values import C, ze, mk, mkb, zx, mkz, const_of

TRUSTED = set()

def anysym(args, kw=None):
	for a in args:
		if isinstance(a, Sym):
			return True
		if isinstance(a, (tuple, list)) and anysym(a):
			return True
	if kw:
		return anysym(tuple(kw.values()))
	return False

# -- builtins -----------------------------------------------------------------
def vc_len(x):
	if isinstance(x, (SymBytes, SymStr, SymList, VcRange)):
		return x.vlen()
	if getattr(type(x), "vc_ghost", False) and hasattr(type(x), "vlen"):
		return x.vlen()
	return builtins.len(x)

def vc_range(*a):
	if any(isinstance(x, Sym) for x in a):
		if len(a) == 1:
			return VcRange(0, a[0])
		return VcRange(*a)
	return builtins.range(*a)

def vc_isinstance(x, t):
	ts = t if isinstance(t, tuple) else (t,)
	if isinstance(x, (SymInt, SymBV)):
		return any(q in (int, object) for q in ts)
	if isinstance(x, SymBool):
		return any(q in (bool, int, object) for q in ts)
	if isinstance(x, SymBytes):
		want = bytearray if x.mutable else bytes
		return any(q in (want, object) for q in ts)
	if isinstance(x, SymStr):
		return any(q in (str, object) for q in ts)
	if isinstance(x, SymList):
		return any(q in (list, object) for q in ts)
	return builtins.isinstance(x, t)

def vc_min(*a, **k):
	if len(a) == 1:
		a = tuple(a[0])
	if not k and anysym(a):
		if any(isinstance(x, SymBV) for x in a):
			raise Unsupported("min of bit vectors")
		e = ze(a[0])
		for x in a[1:]:
			e = z3.If(ze(x) < e, ze(x), e)
		return mk(e)
	return builtins.min(a, **k) if len(a) != 1 or k else builtins.min(a)

def vc_max(*a, **k):
	if len(a) == 1:
		a = tuple(a[0])
	if not k and anysym(a):
		e = ze(a[0])
		for x in a[1:]:
			e = z3.If(ze(x) > e, ze(x), e)
		return mk(e)
	return builtins.max(a, **k)

def vc_int(x=0, *a):
	if isinstance(x, (SymInt, SymBV)):
		return x
	if isinstance(x, SymBool):
		return mk(ze(x))
	if isinstance(x, SymStr) and x.num is not None and a == (16,):
		return x.num
	if isinstance(x, SymBytes) and not a and const_of(x.zlen()) in (1, 2, 3, 4) and \
			C().entails(x.isdigit_expr()):
		r = z3.IntVal(0)
		for i in range(const_of(x.zlen())):
			r = r * 10 + x.at(z3.IntVal(i)) - 48
		return mk(r)
	if isinstance(x, (SymBytes, SymStr)):
		c = C()
		k = ("int",) + ((x.key(),) if isinstance(x, SymBytes) else (x.term,)) + a
		if k not in c.shared:
			c.shared[k] = (z3.Bool(c.fresh("isint")), z3.Int(c.fresh("intof")))
			n = const_of(x.zlen()) if isinstance(x, SymBytes) and not a else None
			if n is not None and 1 <= n <= 10:
				r = z3.IntVal(0)
				for i in range(n):
					r = r * 10 + x.at(z3.IntVal(i)) - 48
				ok, v = c.shared[k]
				c.axiom(z3.Implies(x.isdigit_expr(), z3.And(ok, v == r)))
		ok, v = c.shared[k]
		if not c.branch(ok):
			raise ValueError("invalid literal for int()")
		return mk(v)
	if getattr(type(x), "vc_ghost", False) and hasattr(type(x), "vc_int"):
		return x.vc_int(*a)
	return builtins.int(x, *a)

class _IntMeta(type):
	def __instancecheck__(cls, x):
		return vc_isinstance(x, int)

def vc_bytes(x=b"", *a):
	if isinstance(x, SymBytes):
		return SymBytes(x.p)
	if isinstance(x, SymInt):
		if C().branch(x.e < 0):
			raise ValueError("negative count")
		return SymBytes([PRep(0, x.e)])
	if isinstance(x, SymStr):
		return x.encode(*a)
	if isinstance(x, SymMList):
		c = C()
		j = z3.Int(c.fresh("j"))
		e = ze(x.elem(j))
		if not c.entails(z3.Implies(z3.And(j >= 0, j < x.zlen()), z3.And(e >= 0, e < 256))):
			raise Unsupported("list elements that may not be bytes")
		return SymBytes([PFun(("lst", x.name, len(x.writes)), lambda k: ze(x.elem(k)),
			mkz(x.zlen()))])
	if isinstance(x, (list, tuple)) and anysym(x):
		return SymBytes([PField(1, ze(b)) if isinstance(b, Sym)
			else PConst(bytes([b])) for b in x])
	return builtins.bytes(x, *a)

def vc_bytearray(x=b"", *a):
	if core.CTX is None:
		return builtins.bytearray(x, *a)
	if isinstance(x, SymStr) or isinstance(x, str):
		x = vc_bytes(x, *a)
	r = vc_bytes(x)
	return SymBytes(list(SymBytes.of(r).p), True)

def vc_str(x="", *a):
	if isinstance(x, (SymStr,)):
		return x
	if isinstance(x, SymBytes) and a:
		return x.decode(*a)
	if isinstance(x, SymInt) and core.CTX is not None and C().shared.get("texts"):
		from . import texts
		if C().entails(x.e >= 0):
			return texts.Txt([texts.Run(x.e, z3.IntVal(1))])
	if isinstance(x, Sym):
		return SymStr(("str", tkey(x)))
	if getattr(type(x), "vc_ghost", False) and hasattr(type(x), "vc_str"):
		return x.vc_str(*a)
	return builtins.str(x, *a)

def vc_sum(it, start=0):
	if isinstance(it, SymList):
		raise Unsupported("sum of a symbolic list")
	r = start
	for x in it:
		r = r + x
	return r

def vc_abs(x):
	return x.__abs__() if isinstance(x, SymInt) else builtins.abs(x)

def vc_ord(x):
	if isinstance(x, SymBytes):
		if not C().branch(x.zlen() == 1):
			raise TypeError("ord() expected a character")
		return mk(x.at(z3.IntVal(0)))
	if getattr(type(x), "vc_ghost", False) and hasattr(type(x), "vc_ord"):
		return x.vc_ord()
	return builtins.ord(x)

def vc_chr(x):
	if isinstance(x, SymInt):
		return SymStr(("chr", z3.simplify(x.e).sexpr()))
	return builtins.chr(x)

def vc_print(*a, **k):
	return None

def vc_hex(x):
	if isinstance(x, Sym):
		return SymStr(("hex", x.e.sexpr()))
	return builtins.hex(x)

def vc_bool(x=False):
	return builtins.bool(x)

def vc_type(*a):
	if len(a) == 1 and isinstance(a[0], Sym):
		x = a[0]
		if isinstance(x, (SymInt, SymBV)): return int
		if isinstance(x, SymBytes): return bytearray if x.mutable else bytes
		if isinstance(x, SymStr): return str
		if isinstance(x, SymBool): return bool
		return list
	return builtins.type(*a)

def vc_divmod(a, b):
	return (a // b, a % b)

def vc_memoryview(x):
	if isinstance(x, SymBytes):
		return x
	return builtins.memoryview(x)

def vc_sorted(it, **k):
	return builtins.sorted(it, **k)

# -- transformed operators --------------------------------------------------
def vc_getitem(o, k):
	if isinstance(o, (SymBytes, SymList, SymStr)):
		return o[k]
	if isinstance(k, slice):
		if isinstance(k.start, Sym) or isinstance(k.stop, Sym):
			if isinstance(o, (bytes, bytearray)):
				return SymBytes.of(o)[k]
			if isinstance(o, (list, tuple, str)):
				return o[slice(None if k.start is None else int(k.start),
					None if k.stop is None else int(k.stop), k.step)]
		return o[k]
	if isinstance(k, SymInt):
		if isinstance(o, dict):
			for q in o:
				if isinstance(q, (int, SymInt)) and C().branch(ze(q) == k.e):
					return dict.__getitem__(o, q)
			if hasattr(o, "__missing__"):
				return o[k]
			raise KeyError("symbolic")
		if isinstance(o, (bytes, bytearray)):
			return SymBytes.of(o)[k]
	if isinstance(o, dict) and isinstance(k, SymBytes):
		for q in o:
			if isinstance(q, (bytes, SymBytes)) and (k == q):
				return dict.__getitem__(o, q)
		raise KeyError("symbolic")
	return o[k]

def vc_contains(o, x):
	if getattr(type(o), "vc_ghost", False) and hasattr(type(o), "vc_contains"):
		return o.vc_contains(x)
	if isinstance(o, VcRange):
		return x in o
	if isinstance(o, (list, tuple, set, frozenset)):
		for q in o:
			if q is x or bool(q == x):
				return True
		return False
	if isinstance(o, dict):
		if isinstance(x, Sym) and not isinstance(x, SymStr):
			for q in o:
				if bool(q == x):
					return True
			return False
		return x in o
	if isinstance(o, (bytes, bytearray)) and isinstance(x, Sym):
		if isinstance(x, SymInt):
			return any(bool(x == b) for b in sorted(set(o)))
		if isinstance(x, SymBytes):
			n = const_of(x.zlen())
			if n == 1:
				return any(bool(mk(x.at(z3.IntVal(0))) == b) for b in sorted(set(o)))
			if n == 0:
				return True
		raise Unsupported("symbolic substring")
	if isinstance(o, str) and isinstance(x, SymStr):
		raise Unsupported("symbolic substring")
	if isinstance(o, SymBytes) and isinstance(x, (int, SymInt)):
		n = const_of(o.zlen())
		if n is None:
			raise Unsupported("in symbolic bytes")
		return any(bool(mk(o.at(z3.IntVal(i))) == x) for i in range(n))
	if isinstance(o, range) and isinstance(x, SymInt):
		return x in VcRange(o.start, o.stop, o.step)
	return x in o

def vc_get(o, *a):
	if type(o) is dict and len(a) == 2 and isinstance(a[0], SymBytes) and len(o) > 3 and \
			type(a[1]) is int and all(type(q) is bytes and type(w) is int for q, w in o.items()):
		# a table of numbers: one value, no forks
		e = z3.IntVal(a[1])
		for q, w in o.items():
			e = z3.If(core.boolexpr(a[0] == q), z3.IntVal(w), e)
		return mk(e)
	if type(o) is dict and a and isinstance(a[0], Sym) and not isinstance(a[0], SymStr):
		for q in o:
			if bool(q == a[0]):
				return dict.__getitem__(o, q)
		return a[1] if len(a) > 1 else None
	return o.get(*a)

def tkey(x):
	"""Identity of a value inside a text term."""
	if isinstance(x, (SymInt, SymBV, SymBool, SymReal)):
		return (type(x).__name__, x.e.sexpr())
	if isinstance(x, SymStr):
		return x.term
	if isinstance(x, SymBytes):
		return x.key()
	if isinstance(x, (tuple, list)):
		return tuple(tkey(y) for y in x)
	return repr(x)

def vc_mod(a, b):
	if isinstance(a, (str, bytes)):
		if anysym(b if isinstance(b, tuple) else (b,)):
			t = b[0] if isinstance(b, tuple) and len(b) == 1 else b
			if a in ("%016x", "%x") and isinstance(t, SymInt):
				return SymStr((a, tkey(t)), num=t)
			return SymStr(("fmt", a, tkey(b)))
		return a % b
	return a % b

class VcConst(object):
	"""Method access on a str/bytes literal."""
	def __init__(self, v):
		self.v = v
	def __getattr__(self, n):
		v = self.v
		if n == "join":
			def join(it):
				if getattr(type(it), "vc_ghost", False) and hasattr(type(it), "vc_join"):
					return it.vc_join(v)
				items = list(it)
				if any(hasattr(type(x), "vc_concat") for x in items):
					r = items[0]
					for x in items[1:]:
						r = r + v + x
					return r
				if anysym(items):
					if isinstance(v, bytes):
						r = SymBytes([])
						for i, x in enumerate(items):
							if i and v:
								r = r + v
							r = r + x
						return r
					return SymStr(("join", v, tkey(items)))
				return v.join(items)
			return join
		if n == "format":
			def fmt(*a, **k):
				if anysym(a, k):
					return SymStr(("format", v, tkey(a), tkey(sorted(k.items()))))
				return v.format(*a, **k)
			return fmt
		m = getattr(v, n)
		def call(*a, **k):
			if anysym(a, k):
				if isinstance(v, bytes):
					return getattr(SymBytes.of(v), n)(*a, **k)
				raise Unsupported("%s on a literal with symbolic text" % n)
			return m(*a, **k)
		return call

# -- struct ---------------------------------------------------------------
_SZ = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False),
	"l": (4, True), "L": (4, False), "i": (4, True), "I": (4, False),
	"q": (8, True), "Q": (8, False)}

def _parse(fmt):
	if isinstance(fmt, bytes):
		fmt = fmt.decode()
	order = fmt[0]
	if order not in "<>!=":
		if all(ch in "bB0123456789sx" for ch in fmt):
			order, body = "<", fmt
		else:
			raise Unsupported("native struct format %r" % fmt)
	else:
		body = fmt[1:]
	out = []
	n = ""
	for ch in body:
		if ch.isdigit():
			n += ch
			continue
		if ch == " ":
			continue
		if ch == "s":
			out.append(("s", int(n or 1)))
		elif ch == "x":
			out.append(("x", int(n or 1)))
		else:
			out += [(ch, 1)] * int(n or 1)
		n = ""
	return order in "<=", out

def s_unpack_from(fmt, buf, offset=0):
	if not isinstance(buf, SymBytes) and not isinstance(offset, Sym):
		return _struct.unpack_from(fmt, buf, offset)
	c = C()
	little, items = _parse(fmt)
	buf = SymBytes.of(buf)
	size = _struct.calcsize(fmt)
	off = ze(offset)
	if c.branch(off < 0):
		off = z3.simplify(off + buf.zlen())
		if c.branch(off < 0):
			raise _struct.error("offset out of range")
	if not c.branch(off + size <= buf.zlen()):
		raise _struct.error("unpack_from requires a buffer of at least %d bytes" % size)
	return _unpack_at(little, items, buf, off)

def s_unpack(fmt, buf):
	if not isinstance(buf, SymBytes):
		return _struct.unpack(fmt, buf)
	little, items = _parse(fmt)
	size = _struct.calcsize(fmt)
	if not C().branch(buf.zlen() == size):
		raise _struct.error("unpack requires a buffer of %d bytes" % size)
	return _unpack_at(little, items, buf, z3.IntVal(0))

def _unpack_at(little, items, buf, off):
	out = []
	_, rest = buf.split(off)
	rest = SymBytes(rest)
	for ch, n in items:
		w = n if ch in "sx" else _SZ[ch][0]
		left, right = rest.split(z3.IntVal(w))
		part, rest = SymBytes(left), SymBytes(right)
		if ch == "x":
			continue
		if ch == "s":
			out.append(part)
			continue
		if len(part.p) == 1 and isinstance(part.p[0], PField) and \
				part.p[0].length == w and (part.p[0].little == little or w == 1):
			v = part.p[0].value
		else:
			v = z3.IntVal(0)
			for i in range(w):
				j = i if little else w - 1 - i
				b = part.at(z3.IntVal(i))
				v = v + (b if j == 0 else b * z3.IntVal(256 ** j))
		if _SZ[ch][1]:
			v = z3.If(v >= 2 ** (8 * w - 1), v - 2 ** (8 * w), v)
		out.append(mk(v))
	return tuple(out)

def s_pack(fmt, *args):
	if not anysym(args):
		return _struct.pack(fmt, *args)
	c = C()
	little, items = _parse(fmt)
	pieces = []
	ai = 0
	for ch, n in items:
		if ch == "x":
			pieces.append(PConst(b"\0" * n))
			continue
		a = args[ai]
		ai += 1
		if ch == "s":
			if isinstance(a, SymBytes):
				part = a[0:n]
				pieces += part.p
				pad = z3.simplify(n - part.zlen())
				if not c.entails(pad == 0):
					pieces.append(PRep(0, mkz(pad)))
			else:
				pieces.append(PConst(_struct.pack("%ds" % n, a)))
			continue
		w, signed = _SZ[ch]
		if isinstance(a, SymBV):
			raise Unsupported("pack of a bit vector")
		if not isinstance(a, (int, SymInt, SymBool)):
			raise _struct.error("required argument is not an integer")
		e = ze(a)
		lo, hi = (-(2 ** (8 * w - 1)), 2 ** (8 * w - 1)) if signed else (0, 2 ** (8 * w))
		if not c.branch(z3.And(e >= lo, e < hi)):
			raise _struct.error("argument out of range")
		if signed:
			e = z3.If(e < 0, e + 2 ** (8 * w), e)
		if isinstance(a, int):
			pieces.append(PConst(a.to_bytes(w, "little" if little else "big", signed=signed)))
		else:
			pieces.append(PField(w, z3.simplify(e), little))
	if ai != len(args):
		raise _struct.error("pack expected %d items" % ai)
	return SymBytes(pieces)

class SStruct(object):
	def __init__(self, fmt):
		self.format = fmt
		self.size = _struct.calcsize(fmt)
	def pack(self, *a): return s_pack(self.format, *a)
	def unpack(self, b): return s_unpack(self.format, b)
	def unpack_from(self, b, offset=0): return s_unpack_from(self.format, b, offset)

struct_mod = types.ModuleType("struct")
struct_mod.Struct = SStruct
struct_mod.pack = s_pack
struct_mod.unpack = s_unpack
struct_mod.unpack_from = s_unpack_from
struct_mod.calcsize = _struct.calcsize
struct_mod.error = _struct.error

# -- files ------------------------------------------------------------------
class VNode(object):
	def __init__(self, content=b""):
		self.content = SymBytes.of(content)

class SymFile(object):
	"""An open file (or BytesIO): content and position."""
	def __init__(self, node, mode="rb", name=None):
		self.node = node
		self.pos = 0
		self.mode = mode
		self.name = name
		self.closed_ = False
		self.run = C()
		self.ntaken = id(self.run.taken)
		if "a" in mode:
			self.pos = node.content.vlen()
	@property
	def closed(self): return self.closed_
	def _ok(self):
		if self.closed_:
			raise ValueError("I/O operation on closed file.")
	def _writable(self):
		return any(ch in self.mode for ch in "wxa+")
	def read(self, n=-1):
		self._ok()
		c = C()
		ln = self.node.content.zlen()
		p = ze(self.pos)
		if n is None or (isinstance(n, int) and n < 0) or c.branch(ze(n) < 0):
			end = ln
		else:
			e = z3.simplify(p + ze(n))
			end = e if c.branch(e <= ln) else ln
		if not c.branch(p < end):
			return SymBytes([])
		r = self.node.content.sub(p, end)
		self.pos = mk(end)
		return SymBytes(r.p)
	def readinto(self, b):
		raise Unsupported("readinto")
	def write(self, data):
		self._ok()
		if not self._writable():
			raise _io.UnsupportedOperation("write")
		c = C()
		self._fault("write")
		d = SymBytes.of(data)
		node = self.node
		ln = node.content.zlen()
		p = ze(self.pos)
		if "a" in self.mode:
			p = ln
		n = d.zlen()
		if c.branch(p == ln):
			node.content = SymBytes(node.content.p + d.p)
		elif c.branch(p > ln):
			node.content = SymBytes(node.content.p + [PRep(0, mkz(p - ln))] + d.p)
		else:
			left = node.content.sub(z3.IntVal(0), p).p
			if c.branch(p + n >= ln):
				node.content = SymBytes(left + d.p)
			else:
				right = node.content.sub(z3.simplify(p + n), ln).p
				node.content = SymBytes(left + d.p + right)
		self.pos = mk(p + n)
		return mk(n)
	def seek(self, off, whence=0):
		self._ok()
		c = C()
		if whence == 0:
			e = ze(off)
			err = "negative seek value"
		elif whence == 1:
			e = ze(self.pos) + ze(off)
		else:
			e = self.node.content.zlen() + ze(off)
		e = z3.simplify(e)
		if c.branch(e < 0):
			raise OSError(22, "Invalid argument")
		self.pos = mk(e)
		return self.pos
	def tell(self):
		self._ok()
		return self.pos
	def truncate(self, n=None):
		raise Unsupported("truncate")
	def getvalue(self):
		return self.node.content
	def getbuffer(self):
		return self.node.content
	def flush(self): pass
	def close(self):
		if not self.closed_:
			self.closed_ = True
			if self._writable():
				self._fault("close")
	def _fault(self, op):
		"""Injected failures concern files of the virtual file system."""
		c = core.CTX
		if self.name is not None and c is self.run and id(c.taken) == self.ntaken:
			s = c.shared.get("vfs")
			if s is not None and s.fault:
				s.fault(op, (self.name,))
	def readable(self): return True
	def seekable(self): return True
	def fileno(self): raise Unsupported("fileno")
	def __enter__(self): return self
	def __exit__(self, *a): self.close()
	def __iter__(self): raise Unsupported("iteration over file lines")

def vc_BytesIO(data=b""):
	f = SymFile(VNode(data), "r+b")
	return f

class VFS(object):
	"""Flat in-memory file system; the trace records every mutation."""
	def __init__(self):
		self.files = {}
		self.dirs = {"/", "/vfs"}
		self.trace = []
		self.fault = None          # callable(op, args) may raise OSError
		self.fds = {}
		self.seq = 0
	def op(self, name, *args):
		self.trace.append((name,) + args)
		if self.fault:
			self.fault(name, args)
	def norm(self, p):
		if isinstance(p, Sym):
			raise Unsupported("symbolic path")
		p = _os.fspath(p)
		if isinstance(p, bytes):
			p = p.decode()
		return _os.path.normpath(_os.path.join("/vfs", p))

def vfs():
	s = C().shared
	if "vfs" not in s:
		s["vfs"] = VFS()
	return s["vfs"]

def vc_open(path, mode="r", *a, **k):
	if isinstance(path, SymFile):
		raise TypeError("path")
	if "b" not in mode:
		raise Unsupported("text file")
	v = vfs()
	p = v.norm(path)
	if "w" in mode or "x" in mode:
		if "x" in mode and p in v.files:
			raise FileExistsError(17, "File exists", path)
		v.op("open-" + mode, p)
		if p in v.dirs:
			raise IsADirectoryError(21, "Is a directory", path)
		node = VNode(b"")
		if p in v.files:
			node = v.files[p]
			node.content = SymBytes([])
		v.files[p] = node
	elif "a" in mode or "+" in mode:
		v.op("open-" + mode, p)
		if p not in v.files:
			if "a" not in mode:
				raise FileNotFoundError(2, "No such file or directory", path)
			v.files[p] = VNode(b"")
	else:
		if v.fault:
			v.fault("open-" + mode, (p,))
		if p not in v.files:
			if p in v.dirs:
				raise IsADirectoryError(21, "Is a directory", path)
			raise FileNotFoundError(2, "No such file or directory", path)
	return SymFile(v.files[p], mode, path)

def _exists(p):
	v = vfs()
	p = v.norm(p)
	return p in v.files or p in v.dirs

def _rename(a, b):
	v = vfs()
	x, y = v.norm(a), v.norm(b)
	v.op("rename", x, y)
	if x not in v.files:
		raise FileNotFoundError(2, "No such file or directory", a)
	if y in v.dirs:
		raise IsADirectoryError(21, "Is a directory", b)
	v.files[y] = v.files.pop(x)

def _remove(a):
	v = vfs()
	x = v.norm(a)
	v.op("remove", x)
	if x not in v.files:
		raise FileNotFoundError(2, "No such file or directory", a)
	del v.files[x]

def _getsize(p):
	v = vfs()
	x = v.norm(p)
	if x not in v.files:
		raise FileNotFoundError(2, "No such file or directory", p)
	return v.files[x].content.vlen()

def _isfile(p):
	return vfs().norm(p) in vfs().files

def _isdir(p):
	return vfs().norm(p) in vfs().dirs

def _makedirs(p, *a, **k):
	v = vfs()
	x = v.norm(p)
	v.op("makedirs", x)
	if x in v.dirs:
		if not k.get("exist_ok"):
			raise FileExistsError(17, "File exists", p)
	while x not in v.dirs and x != "/":
		v.dirs.add(x)
		x = _os.path.dirname(x)

def _unsup(name):
	def f(*a, **k):
		raise Unsupported("%s is not modelled" % name)
	return f

path_mod = types.ModuleType("posixpath")
for _n in dir(_os.path):
	if not _n.startswith("__"):
		setattr(path_mod, _n, getattr(_os.path, _n))
path_mod.exists = _exists
path_mod.lexists = _exists
path_mod.isfile = _isfile
path_mod.isdir = _isdir
path_mod.getsize = _getsize
path_mod.abspath = lambda p: vfs().norm(p)
path_mod.realpath = lambda p: vfs().norm(p)
def _symjoin(a, *p):
	if anysym((a,) + p):
		return SymStr(("path.join", getattr(a, "term", a)) +
			tuple(getattr(x, "term", x) for x in p))
	return _os.path.join(a, *p)
path_mod.join = _symjoin

os_mod = types.ModuleType("os")
for _n in ("SEEK_SET", "SEEK_CUR", "SEEK_END", "sep", "altsep", "linesep", "name",
		"error", "curdir", "pardir", "environ", "fspath", "devnull", "PathLike"):
	setattr(os_mod, _n, getattr(_os, _n))
os_mod.path = path_mod
os_mod.rename = _rename
os_mod.replace = _rename
os_mod.remove = _remove
os_mod.unlink = _remove
os_mod.makedirs = _makedirs
os_mod.mkdir = _makedirs
os_mod.getcwd = lambda: "/vfs"
for _n in ("urandom", "getpid", "get_terminal_size", "walk"):
	setattr(os_mod, _n, getattr(_os, _n))
for _n in ("listdir", "walk", "rmdir", "chdir", "stat", "access", "system"):
	setattr(os_mod, _n, _unsup("os." + _n))

io_mod = types.ModuleType("io")
for _n in dir(_io):
	if not _n.startswith("__"):
		setattr(io_mod, _n, getattr(_io, _n))
io_mod.BytesIO = vc_BytesIO
io_mod.IOBase = object     # the code's own file classes are plain objects here
io_mod.RawIOBase = object
io_mod.open = vc_open
io_mod.SEEK_SET, io_mod.SEEK_CUR, io_mod.SEEK_END = 0, 1, 2
io_mod.UnsupportedOperation = _io.UnsupportedOperation
io_mod.TextIOWrapper = _io.TextIOWrapper
io_mod.StringIO = _io.StringIO

def _tempfile_(*a, **k):
	return SymFile(VNode(b""), "w+b")
def _mkstemp(suffix="", prefix="tmp", dir=None, text=False):
	"""Assumed contract of tempfile: a new file name that is not in use."""
	v = vfs()
	while True:
		v.seq += 1
		p = v.norm(_os.path.join(dir or "/tmp", "%s%d%s" % (prefix or "tmp", v.seq, suffix or "")))
		if p not in v.files:
			break
	v.op("mkstemp", p)
	v.files[p] = VNode(b"")
	v.fds[1000 + v.seq] = p
	return (1000 + v.seq, p)
def _fdopen(fd, mode="r", *a):
	v = vfs()
	if fd not in v.fds or "b" not in mode:
		raise Unsupported("fdopen")
	p = v.fds.pop(fd)
	f = SymFile(v.files[p], mode, p)
	return f
tempfile_mod = types.ModuleType("tempfile")
tempfile_mod.TemporaryFile = _tempfile_
tempfile_mod.mkstemp = _mkstemp
def _mktemp(suffix="", prefix="tmp", dir=None):
	"""Assumed contract of tempfile.mktemp: a name not in use."""
	v = vfs()
	C().trusted.add("tempfile.mktemp returns a name that is not in use in dir")
	while True:
		v.seq += 1
		p = _os.path.join(dir or "/tmp", "%s%d%s" % (prefix or "tmp", v.seq, suffix or ""))
		if v.norm(p) not in v.files:
			return p
tempfile_mod.mktemp = _mktemp
tempfile_mod.gettempdir = lambda: "/tmp"
tempfile_mod.mkdtemp = _unsup("tempfile.mkdtemp")
tempfile_mod.NamedTemporaryFile = _unsup("NamedTemporaryFile")
os_mod.close = lambda fd: None
os_mod.fdopen = _fdopen

# -- crc32 ------------------------------------------------------------------
class CrcInt(SymInt):
	"""CRC-32 of a byte string, as an uninterpreted value of that string."""
	def __init__(self, e, rope):
		SymInt.__init__(self, e)
		self.rope = rope
	def __and__(self, m):
		if m == 0xFFFFFFFF:
			return self
		return SymInt.__and__(self, m)
	__rand__ = __and__

def crc_of(rope):
	c = C()
	if const_of(rope.zlen()) == 0:
		return CrcInt(z3.IntVal(0), rope)
	tab = c.shared.setdefault("crc", [])
	for r, v in tab:
		if r.key() == rope.key() or r.same(rope):
			return CrcInt(v, rope)
	v = z3.Int(c.fresh("crc"))
	c.axiom(z3.And(v >= 0, v < 2 ** 32))
	c.axiom(z3.Implies(rope.zlen() == 0, v == 0))
	tab.append((rope, v))
	return CrcInt(v, rope)

def vc_crc32(data, value=0):
	if not isinstance(data, SymBytes) and not isinstance(value, Sym):
		return _zlib.crc32(data, value)
	C().trusted.add("zlib.crc32(a, crc32(b)) == crc32(b + a), values in 0..2^32-1")
	if isinstance(value, CrcInt):
		return crc_of(SymBytes(value.rope.p + SymBytes.of(data).p))
	if isinstance(value, int) and value == 0:
		return crc_of(SymBytes.of(data))
	raise Unsupported("crc32 with an unknown start value")

zlib_mod = types.ModuleType("zlib")
zlib_mod.crc32 = vc_crc32
zlib_mod.adler32 = _unsup("adler32")
binascii_mod = types.ModuleType("binascii")
binascii_mod.crc32 = vc_crc32
import binascii as _binascii
binascii_mod.hexlify = lambda x: (SymBytes.blob("hexlify", 8) if isinstance(x, Sym) else _binascii.hexlify(x))
binascii_mod.unhexlify = _binascii.unhexlify
binascii_mod.Error = _binascii.Error

# -- re ---------------------------------------------------------------------
import re as _re
try:
	import re._parser as _sre
except ImportError:
	import sre_parse as _sre

class SRe(object):
	"""A compiled pattern.  On symbolic bytes: fixed-width sequences of
	characters and classes, anchored; anything else is unsupported."""
	def __init__(self, pat, flags=0):
		self.pattern, self.flags = pat, flags
		self.real = _re.compile(pat, flags)
	def __getattr__(self, n):
		f = getattr(self.real, n)
		def call(*a, **k):
			if anysym(a, k):
				if n in ("match", "fullmatch") and len(a) == 1 and isinstance(a[0], SymBytes):
					return self._match(a[0], n == "fullmatch")
				raise Unsupported("regular expression %s on symbolic text" % n)
			return f(*a, **k)
		return call if callable(f) else f
	def _match(self, s, full):
		if self.flags:
			raise Unsupported("regular expression flags")
		conds, end = [], full
		n = 0
		def one(op, av):
			if str(op) == "LITERAL":
				return lambda b: b == av
			if str(op) == "NOT_LITERAL":
				return lambda b: b != av
			if str(op) == "ANY":
				return lambda b: b != 10
			if str(op) == "IN":
				neg = any(str(o) == "NEGATE" for o, _ in av)
				def f(b):
					alts = []
					for o, x in av:
						if str(o) == "LITERAL":
							alts.append(b == x)
						elif str(o) == "RANGE":
							alts.append(z3.And(b >= x[0], b <= x[1]))
						elif str(o) != "NEGATE":
							raise Unsupported("character class")
					e = z3.Or(*alts)
					return z3.Not(e) if neg else e
				return f
			raise Unsupported("regular expression %r" % self.pattern)
		items = list(_sre.parse(self.pattern))
		for k, (op, av) in enumerate(items):
			o = str(op)
			if o == "AT" and str(av) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and n == 0:
				continue
			if o == "AT" and str(av) in ("AT_END", "AT_END_STRING") and k == len(items) - 1:
				end = end or str(av)
				continue
			if o in ("MAX_REPEAT", "MIN_REPEAT") and av[0] == av[1] and len(av[2]) == 1:
				f = one(*av[2][0])
				for _ in range(av[0]):
					conds.append(f(s.at(z3.IntVal(n))))
					n += 1
				continue
			conds.append(one(op, av)(s.at(z3.IntVal(n))))
			n += 1
		ln = s.zlen()
		if end == "AT_END":
			le = z3.Or(ln == n, z3.And(ln == n + 1, s.at(z3.IntVal(n)) == 10))
		elif end:
			le = ln == n
		else:
			le = ln >= n
		return True if C().branch(z3.And(le, *conds)) else None

def _re_fn(name):
	def f(pat, *a, **k):
		if isinstance(pat, SRe):
			pat = pat.real
		if anysym(a, k):
			return getattr(SRe(pat), name)(*a, **k)
		return getattr(_re, name)(pat, *a, **k)
	return f
re_mod = types.ModuleType("re")
for _n in dir(_re):
	if not _n.startswith("__"):
		setattr(re_mod, _n, getattr(_re, _n))
re_mod.compile = SRe
for _n in ("match", "fullmatch", "search", "sub", "findall", "split", "finditer", "subn"):
	setattr(re_mod, _n, _re_fn(_n))

# -- copy -------------------------------------------------------------------
import copy as _copy
def _deepcopy(x, memo=None):
	memo = {} if memo is None else memo
	if isinstance(x, SymBytes):
		return SymBytes(list(x.p), x.mutable)
	if isinstance(x, Sym) or x is None or isinstance(x, (int, str, bytes, float, types.FunctionType)):
		return x
	if id(x) in memo:
		return memo[id(x)]
	if isinstance(x, list):
		r = memo[id(x)] = []
		r.extend(_deepcopy(y, memo) for y in x)
		return r
	if isinstance(x, dict):
		return {k: _deepcopy(y, memo) for k, y in x.items()}
	if isinstance(x, tuple):
		return tuple(_deepcopy(y, memo) for y in x)
	if type(x).__module__ in ("builtins",) or not hasattr(x, "__dict__"):
		return _copy.deepcopy(x, memo)
	r = memo[id(x)] = type(x).__new__(type(x))
	for k, y in vars(x).items():
		setattr(r, k, _deepcopy(y, memo))
	return r
copy_mod = types.ModuleType("copy")
copy_mod.copy = _copy.copy
copy_mod.deepcopy = _deepcopy

MODULES = {"re": re_mod, "copy": copy_mod, "struct": struct_mod, "os": os_mod, "io": io_mod, "zlib": zlib_mod,
	"binascii": binascii_mod, "tempfile": tempfile_mod, "os.path": path_mod}

def builtins_dict():
	d = dict(vars(builtins))
	d.update(len=vc_len, range=vc_range, isinstance=vc_isinstance, min=vc_min,
		max=vc_max, sum=vc_sum, abs=vc_abs, ord=vc_ord, chr=vc_chr,
		print=vc_print, hex=vc_hex, divmod=vc_divmod, open=vc_open,
		memoryview=vc_memoryview)
	return d
