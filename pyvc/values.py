"""Symbolic values with the operations of the Python values they stand for."""
import builtins
import z3
from . import core
from .core import Unsupported, PathEnd

def C():
	return core.ctx()

def is_sym(x):
	return isinstance(x, Sym)

class Sym(object):
	pass

def ze(x):
	"""z3 Int expression of a Python or symbolic int."""
	if isinstance(x, SymInt):
		return x.e
	if isinstance(x, SymBool):
		return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
	if isinstance(x, bool):
		return z3.IntVal(int(x))
	if isinstance(x, int):
		return z3.IntVal(x)
	if z3.is_expr(x):
		return x
	raise Unsupported("not an integer: %r" % type(x))

def mk(e):
	"""Python int if the expression is a numeral."""
	e = z3.simplify(e)
	if z3.is_int_value(e):
		return e.as_long()
	return SymInt(e)

def mkb(e):
	e = z3.simplify(e)
	if z3.is_true(e):
		return True
	if z3.is_false(e):
		return False
	return SymBool(e)

class SymBool(Sym):
	def __init__(self, e):
		self.e = e
	def zbool(self):
		return self.e
	def __bool__(self):
		return C().branch(self.e)
	def __and__(self, o):
		return mkb(z3.And(self.e, core.boolexpr(o)))
	__rand__ = __and__
	def __or__(self, o):
		return mkb(z3.Or(self.e, core.boolexpr(o)))
	__ror__ = __or__
	def __invert__(self):
		raise Unsupported("~bool")
	def __eq__(self, o):
		if isinstance(o, (bool, SymBool)):
			return mkb(self.e == core.boolexpr(o))
		if isinstance(o, (int, SymInt)):
			return mkb(ze(self) == ze(o))
		return False
	def __ne__(self, o):
		r = self.__eq__(o)
		return mkb(z3.Not(core.boolexpr(r)))
	def __hash__(self):
		return hash(bool(self))
	def __add__(self, o):
		return mk(ze(self) + ze(o))
	__radd__ = __add__
	def __index__(self):
		return 1 if bool(self) else 0
	__int__ = __index__

def bits_of(x):
	"""Smallest n in a fixed ladder with 0 <= x < 2**n entailed, else None."""
	if isinstance(x, int):
		return x.bit_length() if x >= 0 else None
	for n in (1, 4, 8, 16, 32, 64):
		if C().entails(z3.And(x.e >= 0, x.e < 2 ** n)):
			return n
	return None

def const_mask(x, m):
	"""x & m for a constant m >= 0; exact for every integer x (floor div/mod
	agree with two's complement)."""
	if m == 0:
		return z3.IntVal(0)
	total = []
	b = 0
	while m >> b:
		if (m >> b) & 1:
			a = b
			while (m >> b) & 1:
				b += 1
			run = b - a
			part = x if a == 0 else x / z3.IntVal(1 << a)
			part = part % z3.IntVal(1 << run)
			total.append(part if a == 0 else part * z3.IntVal(1 << a))
		else:
			b += 1
	r = total[0]
	for t in total[1:]:
		r = r + t
	return r

class SymInt(Sym):
	def __init__(self, e):
		self.e = e
	# arithmetic
	def _bin(self, o, f):
		if isinstance(o, (int, SymInt, SymBool)):
			return mk(f(self.e, ze(o)))
		if isinstance(o, (SymReal, float)):
			return SymReal(f(z3.ToReal(self.e), zr(o)))
		return NotImplemented
	def _rbin(self, o, f):
		if isinstance(o, (int, SymInt, SymBool)):
			return mk(f(ze(o), self.e))
		if isinstance(o, float):
			return SymReal(f(zr(o), z3.ToReal(self.e)))
		return NotImplemented
	def __add__(self, o): return self._bin(o, lambda a, b: a + b)
	def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
	def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
	def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
	def __mul__(self, o):
		if isinstance(o, (bytes, bytearray)):
			return SymBytes.of(o) * self
		if isinstance(o, SymBytes):
			return o * self
		if isinstance(o, list) and len(o) == 1:
			x = o[0]
			return SymMList(C().fresh("rep"), mkz(z3.If(self.e > 0, self.e, 0)),
				lambda k: x)
		return self._bin(o, lambda a, b: a * b)
	__rmul__ = __mul__
	def __neg__(self): return mk(-self.e)
	def __pos__(self): return self
	def __abs__(self): return mk(z3.If(self.e >= 0, self.e, -self.e))
	def __invert__(self): return mk(-self.e - 1)
	def __floordiv__(self, o): return idiv(self, o)
	def __rfloordiv__(self, o): return idiv(o, self)
	def __mod__(self, o): return imod(self, o)
	def __rmod__(self, o):
		if isinstance(o, (str, bytes)):
			return NotImplemented
		return imod(o, self)
	def __divmod__(self, o): return (idiv(self, o), imod(self, o))
	def __rdivmod__(self, o): return (idiv(o, self), imod(o, self))
	def __truediv__(self, o):
		if isinstance(o, int) and o:
			C().trusted.add("float division and addition treated as exact real arithmetic")
			return SymReal(z3.ToReal(self.e) / o)
		raise Unsupported("float division")
	def __rtruediv__(self, o): raise Unsupported("float division")
	def __pow__(self, o): raise Unsupported("symbolic power")
	def __rpow__(self, o):
		if o == 2:
			return 1 << self
		raise Unsupported("symbolic power")
	def __lshift__(self, o): return shl(self, o)
	def __rlshift__(self, o): return shl(o, self)
	def __rshift__(self, o): return shr(self, o)
	def __rrshift__(self, o): return shr(o, self)
	def __and__(self, o): return band(self, o)
	__rand__ = __and__
	def __or__(self, o): return bor(self, o)
	__ror__ = __or__
	def __xor__(self, o): return bxor(self, o)
	__rxor__ = __xor__
	# comparison
	def _cmp(self, o, f):
		if isinstance(o, (int, SymInt, SymBool)):
			return mkb(f(self.e, ze(o)))
		if isinstance(o, (float, SymReal)):
			return mkb(f(z3.ToReal(self.e), zr(o)))
		return NotImplemented
	def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
	def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
	def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
	def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
	def __eq__(self, o):
		if isinstance(o, (int, SymInt, SymBool, SymReal, float)):
			return self._cmp(o, lambda a, b: a == b)
		return False
	def __ne__(self, o):
		if isinstance(o, (int, SymInt, SymBool, SymReal, float)):
			return self._cmp(o, lambda a, b: a != b)
		return True
	def __bool__(self):
		return C().branch(self.e != 0)
	def __hash__(self):
		return hash(concretize(self))
	def __index__(self):
		return concretize(self)
	__int__ = __index__
	def __float__(self):
		raise Unsupported("float of a symbolic int")
	def __format__(self, spec):
		return "<sym>"
	def __repr__(self):
		return "<sym %s>" % str(self.e)[:60]
	__str__ = __repr__
	def bit_length(self):
		raise Unsupported("bit_length of a symbolic int")
	def to_bytes(self, length=1, byteorder="big", signed=False):
		if signed or not isinstance(length, int):
			raise Unsupported("to_bytes")
		if not C().branch(z3.And(self.e >= 0, self.e < 256 ** length)):
			raise OverflowError("int too big to convert")
		return SymBytes([PField(length, self.e, byteorder == "little")])

def zr(x):
	if isinstance(x, SymReal):
		return x.e
	if isinstance(x, float):
		return z3.RealVal(repr(x))
	return z3.ToReal(ze(x))

class SymReal(Sym):
	"""A float, as an exact real."""
	def __init__(self, e):
		self.e = z3.simplify(e)
	def __add__(self, o): return SymReal(self.e + zr(o))
	__radd__ = __add__
	def __sub__(self, o): return SymReal(self.e - zr(o))
	def __rsub__(self, o): return SymReal(zr(o) - self.e)
	def __mul__(self, o): return SymReal(self.e * zr(o))
	__rmul__ = __mul__
	def __eq__(self, o): return mkb(self.e == zr(o))
	def __ne__(self, o): return mkb(self.e != zr(o))
	def __lt__(self, o): return mkb(self.e < zr(o))
	def __le__(self, o): return mkb(self.e <= zr(o))
	def __gt__(self, o): return mkb(self.e > zr(o))
	def __ge__(self, o): return mkb(self.e >= zr(o))
	def __bool__(self): return C().branch(self.e != 0)
	def __hash__(self): raise Unsupported("hash of a symbolic float")
	def __int__(self): raise Unsupported("int of a symbolic float")
	__float__ = __index__ = __int__
	def __format__(self, s): return "<symreal>"

def concretize(x, limit=40):
	"""A machine-level use that needs a real int: allowed when the value is
	unique, or has few values (then the run forks over all of them)."""
	if isinstance(x, int):
		return x
	c = C()
	e = x.e
	k = c._key()
	if k not in c.memo:
		vals = []
		r = None
		while len(vals) <= limit:
			r = c._check(*[e != v for v in vals])
			if r != z3.sat:
				break
			vals.append(c.solver.model().eval(e, model_completion=True).as_long())
		c.memo[k] = (sorted(vals), r)
	vals, r = c.memo[k]
	if r != z3.unsat or len(vals) > limit:
		raise Unsupported("needs a concrete integer: %s" % str(e)[:80])
	if not vals:
		raise PathEnd("infeasible")
	for v in vals[:-1]:
		if c.branch(e == v):
			return v
	return vals[-1]

def idiv(a, b):
	if isinstance(a, float) or isinstance(b, float):
		raise Unsupported("float")
	if isinstance(b, int):
		if b == 0:
			raise ZeroDivisionError("integer division or modulo by zero")
		if b > 0:
			return mk(ze(a) / z3.IntVal(b))
		return mk((-ze(a)) / z3.IntVal(-b))
	if C().branch(ze(b) == 0):
		raise ZeroDivisionError("integer division or modulo by zero")
	if C().branch(ze(b) > 0):
		return mk(ze(a) / ze(b))
	return mk((-ze(a)) / (-ze(b)))

def imod(a, b):
	if isinstance(b, int):
		if b == 0:
			raise ZeroDivisionError("integer division or modulo by zero")
		if b > 0:
			return mk(ze(a) % z3.IntVal(b))
	elif C().branch(ze(b) == 0):
		raise ZeroDivisionError("integer division or modulo by zero")
	elif C().branch(ze(b) > 0):
		return mk(ze(a) % ze(b))
	return mk(ze(a) - ze(idiv(a, b)) * ze(b))

def shl(a, k):
	if not isinstance(k, int):
		k = concretize(k)
	if k < 0:
		raise ValueError("negative shift count")
	return mk(ze(a) * z3.IntVal(1 << k))

def shr(a, k):
	if not isinstance(k, int):
		k = concretize(k)
	if k < 0:
		raise ValueError("negative shift count")
	return mk(ze(a) / z3.IntVal(1 << k))

def _viabv(a, b, f):
	na, nb = bits_of(a), bits_of(b)
	if na is None or nb is None:
		raise Unsupported("bit operation on unbounded integers")
	n = max(na, nb, 1)
	e = f(z3.Int2BV(ze(a), n), z3.Int2BV(ze(b), n))
	r = z3.BV2Int(e)
	return mk(r)

def tz(x):
	"""Number of trailing zero bits entailed for x (constants only exact)."""
	if isinstance(x, int):
		return 10 ** 6 if x == 0 else (x & -x).bit_length() - 1
	for n in (56, 48, 40, 32, 28, 24, 21, 16, 14, 8, 7, 4, 3, 2, 1):
		if C().entails(x.e % z3.IntVal(1 << n) == 0):
			return n
	return 0

def band(a, b):
	if isinstance(b, SymBool):
		b = mk(ze(b))
	if isinstance(a, SymBool):
		a = mk(ze(a))
	if isinstance(a, int) and isinstance(b, int):
		return a & b
	if isinstance(a, int):
		a, b = b, a
	if not isinstance(b, (int, SymInt)):
		return NotImplemented
	if isinstance(b, int):
		if b >= 0:
			return mk(const_mask(a.e, b))
		# a & b == a - (a & ~b)
		return mk(a.e - const_mask(a.e, ~b))
	return _viabv(a, b, lambda x, y: x & y)

def bor(a, b):
	if isinstance(a, int) and isinstance(b, int):
		return a | b
	if isinstance(a, int):
		a, b = b, a
	if isinstance(b, SymBool) or isinstance(a, SymBool):
		a, b = mk(ze(a)), mk(ze(b))
		if isinstance(a, int) and isinstance(b, int):
			return a | b
		if isinstance(a, int):
			a, b = b, a
	if not isinstance(b, (int, SymInt)):
		return NotImplemented
	if isinstance(b, int):
		if b >= 0:
			return mk(a.e + z3.IntVal(b) - const_mask(a.e, b))
		raise Unsupported("| with a negative constant")
	# disjoint bit ranges: addition
	for x, y in ((a, b), (b, a)):
		n = tz(x)
		if n and C().entails(z3.And(y.e >= 0, y.e < 2 ** min(n, 64))):
			return mk(a.e + b.e)
	return _viabv(a, b, lambda x, y: x | y)

def bxor(a, b):
	if isinstance(a, int) and isinstance(b, int):
		return a ^ b
	if isinstance(a, int):
		a, b = b, a
	if isinstance(b, SymBool) or isinstance(a, SymBool):
		a, b = mk(ze(a)), mk(ze(b))
		return bxor(a, b)
	if not isinstance(b, (int, SymInt)):
		return NotImplemented
	if isinstance(b, int) and b >= 0:
		# a ^ b == a + b - 2*(a & b)
		return mk(a.e + z3.IntVal(b) - 2 * const_mask(a.e, b))
	if isinstance(b, int):
		return mk(-ze(bxor(a, ~b)) - 1)
	return _viabv(a, b, lambda x, y: x ^ y)

class SymBV(Sym):
	"""Non-negative integer represented as an n-bit vector.  Operations whose
	result could leave the width raise Unsupported (checked), so it agrees with
	the mathematical integer."""
	def __init__(self, e):
		self.e = e
		self.n = e.size()
	def _co(self, o):
		if isinstance(o, SymBV):
			if o.n != self.n:
				raise Unsupported("mixed widths")
			return o.e
		if isinstance(o, SymBool):
			return z3.If(o.e, z3.BitVecVal(1, self.n), z3.BitVecVal(0, self.n))
		if isinstance(o, int) and 0 <= o < 2 ** self.n:
			return z3.BitVecVal(o, self.n)
		raise Unsupported("operand outside the vector width")
	def _mk(self, e):
		e = z3.simplify(e)
		if z3.is_bv_value(e):
			return e.as_long()
		return SymBV(e)
	def __and__(self, o):
		if isinstance(o, int) and o >= 0:
			o &= 2 ** self.n - 1
		return self._mk(self.e & self._co(o))
	__rand__ = __and__
	def __or__(self, o): return self._mk(self.e | self._co(o))
	__ror__ = __or__
	def __xor__(self, o): return self._mk(self.e ^ self._co(o))
	__rxor__ = __xor__
	def __rshift__(self, k):
		k = concretize(k)
		if k >= self.n:
			return 0
		return self._mk(z3.LShR(self.e, k))
	def __lshift__(self, k):
		k = concretize(k)
		if not C().entails(z3.LShR(self.e, max(self.n - k, 0)) == 0):
			raise Unsupported("shift leaves the vector width")
		return self._mk(self.e << k)
	def __eq__(self, o):
		if isinstance(o, int) and not 0 <= o < 2 ** self.n:
			return False
		if not isinstance(o, (int, SymBV, SymBool)):
			return False
		return mkb(self.e == self._co(o))
	def __ne__(self, o):
		return mkb(z3.Not(core.boolexpr(self == o)))
	def __lt__(self, o):
		if isinstance(o, int) and o >= 2 ** self.n: return True
		if isinstance(o, int) and o <= 0: return False
		return mkb(z3.ULT(self.e, self._co(o)))
	def __ge__(self, o): return mkb(z3.Not(core.boolexpr(self < o)))
	def __le__(self, o):
		if isinstance(o, int) and o < 0: return False
		if isinstance(o, int) and o >= 2 ** self.n: return True
		return mkb(z3.ULE(self.e, self._co(o)))
	def __gt__(self, o): return mkb(z3.Not(core.boolexpr(self <= o)))
	def __bool__(self):
		return C().branch(self.e != 0)
	def __floordiv__(self, o):
		if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
			return self >> (o.bit_length() - 1)
		raise Unsupported("bv //")
	def __mod__(self, o):
		if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
			return self & (o - 1)
		raise Unsupported("bv %")
	def __hash__(self): raise Unsupported("hash of a bit vector")
	def __index__(self): raise Unsupported("index of a bit vector")
	def __format__(self, s): return "<symbv>"

# ---------------------------------------------------------------------------
# bytes

class Piece(object):
	def zlen(self):
		n = self.length
		return n if z3.is_expr(n) else z3.IntVal(n)

class PConst(Piece):
	def __init__(self, data):
		self.data = bytes(data)
		self.length = len(self.data)
	def at(self, k):
		k = z3.simplify(k) if z3.is_expr(k) else z3.IntVal(k)
		if z3.is_int_value(k):
			i = k.as_long()
			return z3.IntVal(self.data[i] if 0 <= i < self.length else 0)
		if self.length and len(set(self.data)) == 1:
			return z3.IntVal(self.data[0])
		if self.length > 4096:
			raise Unsupported("symbolic index into a large constant")
		e = z3.IntVal(0)
		for i in range(self.length - 1, -1, -1):
			e = z3.If(k == i, z3.IntVal(self.data[i]), e)
		return e
	def cut(self, a, b):
		a, b = const_of(a), const_of(b)
		if a is None or b is None:
			if len(set(self.data)) == 1:
				return PRep(self.data[0], mkz(zx(b) - zx(a)))
			return None
		return PConst(self.data[a:b])

class PRep(Piece):
	"""byte value repeated length times"""
	def __init__(self, byte, length):
		self.byte, self.length = byte, length
	def at(self, k):
		return z3.IntVal(self.byte)
	def cut(self, a, b):
		return PRep(self.byte, mkz(zx(b) - zx(a)))

class PField(Piece):
	"""`width` bytes holding the non-negative value (proved in range)."""
	def __init__(self, width, value, little=True):
		self.length, self.value, self.little = width, value, little
	def byte(self, i):
		j = i if self.little else self.length - 1 - i
		v = self.value
		if j:
			v = v / z3.IntVal(256 ** j)
		if self.length == 1:
			return v
		return v % z3.IntVal(256)
	def at(self, k):
		k = z3.simplify(k) if z3.is_expr(k) else z3.IntVal(k)
		if z3.is_int_value(k):
			i = k.as_long()
			return self.byte(i) if 0 <= i < self.length else z3.IntVal(0)
		e = z3.IntVal(0)
		for i in range(self.length - 1, -1, -1):
			e = z3.If(k == i, self.byte(i), e)
		return e
	def cut(self, a, b):
		a, b = const_of(a), const_of(b)
		if a is None or b is None:
			return None
		if a == 0 and b == self.length:
			return self
		if b - a == 1:
			return PField(1, self.byte(a), True)
		if self.little:
			v = self.value / z3.IntVal(256 ** a) if a else self.value
		else:
			t = self.length - b
			v = self.value / z3.IntVal(256 ** t) if t else self.value
		v = v % z3.IntVal(256 ** (b - a))
		return PField(b - a, v, self.little)

class Blob(object):
	"""A named symbolic byte string: an SMT array with a length."""
	def __init__(self, name, length):
		self.name = name
		self.arr = z3.Array(name, z3.IntSort(), z3.IntSort())
		self.length = length
		self.seen = set()
	def select(self, i):
		i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
		s = z3.Select(self.arr, i)
		key = i.sexpr()
		c = C()
		seen = c.shared.setdefault(("blob", self.name), set())
		if key not in seen:
			seen.add(key)
			c.axiom(z3.And(s >= 0, s < 256))
		return s

class PSlice(Piece):
	def __init__(self, blob, start, length):
		self.blob, self.start, self.length = blob, start, length
	def at(self, k):
		return self.blob.select(zx(self.start) + zx(k))
	def cut(self, a, b):
		return PSlice(self.blob, mkz(zx(self.start) + zx(a)), mkz(zx(b) - zx(a)))

class PFun(Piece):
	"""Bytes given by a function of their index (specification side)."""
	def __init__(self, key, fn, length, start=0):
		self.k, self.fn, self.length, self.start = key, fn, length, start
	def at(self, k):
		return self.fn(z3.simplify(zx(self.start) + zx(k)))
	def cut(self, a, b):
		return PFun(self.k, self.fn, mkz(zx(b) - zx(a)), mkz(zx(self.start) + zx(a)))

def zx(x):
	return x if z3.is_expr(x) else (x.e if isinstance(x, SymInt) else z3.IntVal(x))

def mkz(e):
	e = z3.simplify(e)
	return e.as_long() if z3.is_int_value(e) else e

def const_of(x):
	if isinstance(x, int):
		return x
	x = z3.simplify(zx(x))
	return x.as_long() if z3.is_int_value(x) else None

class SymBytes(Sym):
	def __init__(self, pieces, mutable=False):
		self.p = pieces
		self.mutable = mutable
		self._len = None

	@staticmethod
	def of(x):
		if isinstance(x, SymBytes):
			return x
		if isinstance(x, (bytes, bytearray)):
			return SymBytes([PConst(x)] if len(x) else [])
		raise Unsupported("not bytes: %r" % type(x))

	@staticmethod
	def blob(name, length):
		b = Blob(name, length)
		return SymBytes([PSlice(b, 0, length)])

	# -- length -----------------------------------------------------------
	def zlen(self):
		if self._len is None:
			e = z3.IntVal(0)
			for p in self.p:
				e = e + p.zlen()
			self._len = z3.simplify(e)
		return self._len
	def sub_at(self, k):
		"""Byte k (known to be inside)."""
		return mk(self.at(z3.simplify(ze(k))))
	def vlen(self):
		return mk(self.zlen())
	def __len__(self):
		return concretize(self.vlen())
	def __bool__(self):
		return C().branch(self.zlen() > 0)

	# -- pieces -----------------------------------------------------------
	def split(self, pos):
		"""(left, right) at a position known to satisfy 0 <= pos <= len."""
		c = C()
		acc = z3.IntVal(0)
		pos = zx(pos)
		left = []
		for i, p in enumerate(self.p):
			end = z3.simplify(acc + p.zlen())
			if c.entails(pos >= end):
				left.append(p)
				acc = end
				continue
			if c.entails(pos <= acc):
				return left, self.p[i:]
			if c.branch(pos >= end):
				left.append(p)
				acc = end
				continue
			if c.branch(pos <= acc):
				return left, self.p[i:]
			off = mkz(pos - acc)
			a = p.cut(0, off)
			b = p.cut(off, p.length)
			if a is None or b is None:
				k = concretize(mk(zx(off)))
				a, b = p.cut(0, k), p.cut(k, p.length)
			return left + [a], [b] + self.p[i + 1:]
		return left, []

	def sub(self, a, b):
		"""[a:b] with 0 <= a <= b <= len known."""
		if len(self.p) == 1 and isinstance(self.p[0], PSlice):
			p = self.p[0]
			return SymBytes([PSlice(p.blob, mkz(zx(p.start) + zx(a)), mkz(zx(b) - zx(a)))],
				self.mutable)
		_, right = self.split(a)
		r = SymBytes(right)
		mid, _ = r.split(z3.simplify(zx(b) - zx(a)))
		return SymBytes(mid, self.mutable)

	def clamp(self, s):
		c = C()
		n = self.zlen()
		def one(v, dflt):
			if v is None:
				return dflt
			e = ze(v)
			if c.branch(e < 0):
				e = e + n
				if c.branch(e < 0):
					return z3.IntVal(0)
			if c.branch(e > n):
				return n
			return z3.simplify(e)
		a = one(s.start, z3.IntVal(0))
		b = one(s.stop, n)
		return a, b

	def __getitem__(self, k):
		c = C()
		if isinstance(k, slice):
			if k.step not in (None, 1):
				# extended slices on a concrete length
				n = len(self)
				return SymBytes([PField(1, ze(self[i]), True)
					for i in range(*k.indices(n))])
			a, b = self.clamp(k)
			if c.branch(b <= a):
				return SymBytes([])
			return self.sub(a, b)
		e = ze(k)
		n = self.zlen()
		if c.branch(e < 0):
			e = e + n
		if not c.branch(z3.And(e >= 0, e < n)):
			raise IndexError("index out of range")
		return mk(self.at(e))

	def at(self, k):
		"""z3 Int of byte k, for 0 <= k < len."""
		k = z3.simplify(zx(k))
		acc = z3.IntVal(0)
		opts = []
		for p in self.p:
			end = z3.simplify(acc + p.zlen())
			kc, ac, ec = const_of(k), const_of(acc), const_of(end)
			if kc is not None and ec is not None and kc >= ec:
				acc = end
				continue
			val = p.at(z3.simplify(k - acc))
			if kc is not None and ac is not None and ec is not None and ac <= kc < ec:
				if not opts:
					return val
			opts.append((k < end, val))
			acc = end
		if not opts:
			return z3.IntVal(0)
		r = opts[-1][1]
		for cond, val in reversed(opts[:-1]):
			r = z3.If(cond, val, r)
		return r

	def __iter__(self):
		i = 0
		while C().branch(self.zlen() > i):
			if i > 300:
				raise Unsupported("iteration over long symbolic bytes")
			yield mk(self.at(i))
			i += 1

	# -- concatenation ----------------------------------------------------
	def __add__(self, o):
		if not isinstance(o, (bytes, bytearray, SymBytes)):
			return NotImplemented
		return SymBytes(self.p + SymBytes.of(o).p, self.mutable)
	def __radd__(self, o):
		if not isinstance(o, (bytes, bytearray, SymBytes)):
			return NotImplemented
		return SymBytes(SymBytes.of(o).p + self.p, isinstance(o, bytearray))
	def __mul__(self, n):
		if isinstance(n, int):
			return SymBytes(self.p * max(n, 0))
		if len(self.p) == 1 and isinstance(self.p[0], PConst) and \
				len(set(self.p[0].data)) == 1:
			if C().branch(ze(n) <= 0):
				return SymBytes([])
			return SymBytes([PRep(self.p[0].data[0],
				mkz(ze(n) * self.p[0].length))])
		raise Unsupported("repeat of symbolic bytes")
	__rmul__ = __mul__

	# -- comparison -------------------------------------------------------
	def eq_expr(self, o):
		if self is o:
			return z3.BoolVal(True)
		o = SymBytes.of(o)
		n1, n2 = const_of(self.zlen()), const_of(o.zlen())
		if n1 is not None and n2 is not None and n1 != n2:
			return z3.BoolVal(False)
		n = n1 if n1 is not None else n2
		if n is not None and n <= 600:
			conj = [self.zlen() == o.zlen()]
			for i in range(n):
				conj.append(self.at(i) == o.at(i))
			return z3.And(*conj)
		if self.same(o):
			return z3.BoolVal(True)
		k = z3.Int(C().fresh("k"))
		c = C()
		if not c.entails(self.zlen() == o.zlen()):
			ln = self.zlen() == o.zlen()
		else:
			ln = z3.BoolVal(True)
		if c.shared.get("opaque"):
			return z3.And(ln, self.opaque_eq(o))
		return z3.And(ln, z3.ForAll([k], z3.Implies(
			z3.And(k >= 0, k < self.zlen()), self.at_q(k) == o.at_q(k))))
	def opaque_eq(self, o):
		"""A name for "the bytes of the two, as far as both go, are equal": the same one when
		the parts are the same (no quantifier; a contract chooses this by ctx.shared["opaque"]).
		Only the first byte is told."""
		c = C()
		o = SymBytes.of(o)
		known = [e for a, b, e in c.shared.get("eqs", []) if self.same(a) and o.same(b)] or \
			[e for a, b, e in c.shared.get("eqs", []) if self.same(b) and o.same(a)]
		for e in known[1:]:
			c.axiom(e == known[0])
		if known:
			return known[0]
		e = z3.Bool(c.fresh("equal"))
		c.axiom(z3.Implies(z3.And(e, self.zlen() > 0, o.zlen() > 0), self.at(z3.IntVal(0)) ==
			o.at(z3.IntVal(0))))
		c.shared.setdefault("eqs", []).append((self, o, e))
		return e
	def at_q(self, k):
		# inside a quantifier: no side axioms on the bound variable
		acc = z3.IntVal(0)
		opts = []
		for p in self.p:
			end = acc + p.zlen()
			if isinstance(p, PSlice):
				val = z3.Select(p.blob.arr, zx(p.start) + (k - acc))
			else:
				val = p.at(k - acc)
			opts.append((k < end, val))
			acc = end
		if not opts:
			return z3.IntVal(0)
		r = opts[-1][1]
		for cond, val in reversed(opts[:-1]):
			r = z3.If(cond, val, r)
		return r
	def __eq__(self, o):
		if not isinstance(o, (bytes, bytearray, SymBytes)):
			return False
		return mkb(self.eq_expr(o))
	def __ne__(self, o):
		r = self.__eq__(o)
		return mkb(z3.Not(core.boolexpr(r)))
	def __hash__(self):
		n = const_of(self.zlen())
		if n is None:
			raise Unsupported("hash of symbolic bytes")
		return hash(bytes(concretize(mk(self.at(i)), 4) for i in range(n)))
	def __lt__(self, o): raise Unsupported("bytes ordering")

	def same(self, o):
		"""Entailed equality by aligning the pieces (incomplete)."""
		c = C()
		if not c.entails(self.zlen() == SymBytes.of(o).zlen()):
			return False
		a, b = list(self.p), list(SymBytes.of(o).p)
		guard = 0
		while a or b:
			guard += 1
			if guard > 400:
				return False
			if a and (const_of(a[0].zlen()) == 0 or (const_of(a[0].zlen()) is None
					and c.entails(a[0].zlen() == 0))):
				a.pop(0)
				continue
			if b and (const_of(b[0].zlen()) == 0 or (const_of(b[0].zlen()) is None
					and c.entails(b[0].zlen() == 0))):
				b.pop(0)
				continue
			if not a or not b:
				return False
			p, q = a[0], b[0]
			# merge adjacent slices of one blob
			lp, lq = p.zlen(), q.zlen()
			if c.entails(lp == lq):
				if not self._psame(p, q):
					return False
				a.pop(0)
				b.pop(0)
				continue
			if c.entails(lp < lq):
				q1, q2 = q.cut(0, p.length), q.cut(p.length, q.length)
				if q1 is None or q2 is None:
					return False
				b[0:1] = [q1, q2]
				continue
			if c.entails(lp > lq):
				p1, p2 = p.cut(0, q.length), p.cut(q.length, p.length)
				if p1 is None or p2 is None:
					return False
				a[0:1] = [p1, p2]
				continue
			# try merging p with its successor
			if len(a) > 1 and self._merge(a) or len(b) > 1 and self._merge(b):
				continue
			return False
		return True

	def _merge(self, lst):
		p, q = lst[0], lst[1]
		if isinstance(p, PSlice) and isinstance(q, PSlice) and \
				p.blob.name == q.blob.name and \
				C().entails(zx(p.start) + p.zlen() == zx(q.start)):
			lst[0:2] = [PSlice(p.blob, p.start, mkz(p.zlen() + q.zlen()))]
			return True
		return False

	def _psame(self, p, q):
		c = C()
		if isinstance(p, PSlice) and isinstance(q, PSlice) and \
				p.blob.name == q.blob.name:
			if c.entails(zx(p.start) == zx(q.start)):
				return True
		if isinstance(p, PFun) and isinstance(q, PFun) and p.k == q.k and \
				c.entails(zx(p.start) == zx(q.start)):
			return True
		if isinstance(p, PField) and isinstance(q, PField) and \
				p.length == q.length and p.little == q.little:
			return c.entails(p.value == q.value)
		if isinstance(p, PConst) and isinstance(q, PConst):
			return p.data == q.data
		if isinstance(p, PRep) and isinstance(q, PRep):
			return p.byte == q.byte
		n = const_of(p.zlen())
		if n is not None and n <= 64:
			return c.entails(z3.And(*[p.at(z3.IntVal(i)) == q.at(z3.IntVal(i))
				for i in range(n)]))
		k = z3.Int(c.fresh("k"))
		return c.entails(z3.Implies(z3.And(k >= 0, k < p.zlen()),
			p.at(k) == q.at(k)))

	def goal_eq(self, o):
		"""z3 goal whose validity (under the path condition) is equality."""
		o = SymBytes.of(o)
		if self.same(o):
			return z3.BoolVal(True)
		k = z3.Int(C().fresh("k"))
		return z3.And(self.zlen() == o.zlen(), z3.Implies(
			z3.And(k >= 0, k < self.zlen(), k < o.zlen()),
			self.at(k) == o.at(k)))

	# -- methods ----------------------------------------------------------
	def startswith(self, pre, *a):
		if len(a) > 1:
			raise Unsupported("startswith with bounds")
		if a and not (isinstance(a[0], int) and a[0] == 0):
			return self[a[0]:].startswith(pre)
		if isinstance(pre, tuple):
			for q in pre:
				if self.startswith(q):
					return True
			return False
		pre = SymBytes.of(pre)
		n = pre.zlen()
		if not C().branch(self.zlen() >= n):
			return False
		return self.sub(z3.IntVal(0), n) == pre
	def endswith(self, suf):
		suf = SymBytes.of(suf)
		n = suf.zlen()
		if not C().branch(self.zlen() >= n):
			return False
		return self.sub(z3.simplify(self.zlen() - n), self.zlen()) == suf
	def decode(self, enc="utf-8", errors="strict"):
		c = C()
		# a blob that came from encoding a symbolic text decodes to it
		if len(self.p) == 1 and isinstance(self.p[0], PSlice):
			b = self.p[0].blob
			src = c.shared.get(("enc", b.name))
			if src is not None and c.entails(z3.And(zx(self.p[0].start) == 0,
					self.p[0].zlen() == zx(b.length))):
				if src[1] == normenc(enc):
					return src[0]
		n = const_of(self.zlen())
		if n is not None and all(isinstance(p, PConst) for p in self.p):
			return b"".join(p.data for p in self.p).decode(enc, errors)
		if errors == "strict":
			ok = c.shared.setdefault(("decok",) + self.key(), None)
			if ok is None:
				ok = z3.Bool(c.fresh("decodes"))
				c.shared[("decok",) + self.key()] = ok
				if n is not None and n <= 16 and normenc(enc) in ("ascii", "utf-8", "cp850",
						"cp437", "latin-1", "iso8859-1"):
					# plain characters always decode
					c.axiom(z3.Implies(z3.And(*[self.at(z3.IntVal(i)) < 128 for i in range(n)]), ok))
			if not c.branch(ok):
				raise UnicodeDecodeError(normenc(enc), b"", 0, 1, "symbolic")
		return SymStr(("decode", normenc(enc), errors) + self.key(), self)
	def key(self):
		out = []
		for p in self.p:
			if isinstance(p, PConst):
				out.append(("c", p.data))
			elif isinstance(p, PRep):
				out.append(("r", p.byte, str(mkz(zx(p.length)))))
			elif isinstance(p, PFun):
				out.append(("u", p.k, str(p.start), str(p.length)))
			elif isinstance(p, PField):
				out.append(("f", p.length, p.little, z3.simplify(p.value).sexpr()))
			else:
				out.append(("s", p.blob.name, z3.simplify(zx(p.start)).sexpr(),
					z3.simplify(zx(p.length)).sexpr()))
		return tuple(out)
	def join(self, it):
		raise Unsupported("join on symbolic separator")
	@staticmethod
	def pattern(x):
		"""bytes, or the number of one byte"""
		if isinstance(x, (int, SymInt)):
			return SymBytes([PField(1, ze(x), True)])
		return SymBytes.of(x)
	def find(self, x, *a):
		x = SymBytes.pattern(x)
		n = const_of(x.zlen())
		if n is None and C().shared.get("opaque") and C().entails(x.zlen() > 0):
			n = x.zlen()
		if len(a) > 1 or n is None or (isinstance(n, int) and n == 0):
			raise Unsupported("find on symbolic bytes")
		start = zx(a[0]) if a else z3.IntVal(0)
		return self._find(x, n, start, False)
	def rfind(self, x, *a):
		x = SymBytes.of(x)
		n = const_of(x.zlen())
		if a or not n:
			raise Unsupported("rfind on symbolic bytes")
		return self._find(x, n, z3.IntVal(0), True)
	def byte_at(self, i):
		"""byte i, any number when it is not there"""
		return mk(self.at(zx(i)))
	def match_at(self, x, i):
		x = SymBytes.of(x)
		if const_of(x.zlen()) is None:
			# only for a place inside the text; equality by name
			return core.boolexpr(x == self[mk(i):mk(i + x.zlen())])
		return z3.And(*[self.at(i + k) == x.at(z3.IntVal(k))
			for k in range(const_of(x.zlen()))])
	def _find(self, x, n, start, last):
		c = C()
		key = ("find", self.key(), str(x.key()), z3.simplify(start).sexpr(), last)
		if key in c.shared:
			return c.shared[key]
		if not c.entails(start >= 0):
			raise Unsupported("find from behind")
		if c.choose(2, "found"):
			i = z3.Int(c.fresh("findpos"))
			c.assume(z3.And(i >= start, i + n <= self.zlen()))
			c.assume(self.match_at(x, i))
			# that it is the first (last) one, or that there is none, is not assumed
			# but for the places a contract asks about: one result per text
			r = mk(i)
		else:
			r = -1
		c.shared[key] = r
		c.shared.setdefault("finds", []).append((self, x, n, start, last, r))
		return r
	def nowhere_else(self, x, at):
		"""what every find of x in this text so far tells about the place `at`"""
		c, at, x = C(), zx(at), SymBytes.pattern(x)
		for t, y, n, start, last, r in c.shared.get("finds", []):
			if (t is not self and t.key() != self.key()) or y.key() != x.key():
				continue
			other = z3.BoolVal(True) if isinstance(r, int) else (at > zx(r) if last else
				at < zx(r))
			where = z3.And(at >= start, at + n <= t.zlen(), other)
			if not isinstance(n, int):
				if bool(mkb(where)):
					c.assume(z3.Not(t.match_at(y, at)))
				continue
			c.assume(z3.Implies(where, z3.Not(t.match_at(y, at))))
	def isdigit_expr(self):
		n = const_of(self.zlen())
		if n is None:
			raise Unsupported("isdigit of symbolic length")
		bs = [self.at(z3.IntVal(i)) for i in range(n)]
		return z3.And(z3.BoolVal(n > 0), *[z3.And(b >= 48, b <= 57) for b in bs])
	def isdigit(self):
		if C().branch(self.zlen() == 0):
			return False
		n = const_of(self.zlen())
		if n is None:
			n = concretize(self.vlen())
			return SymBytes(self.sub(z3.IntVal(0), z3.IntVal(n)).p).isdigit()
		return C().branch(self.isdigit_expr())
	def hex(self):
		return SymStr(("hex",) + self.key())
	def __contains__(self, x):
		raise Unsupported("in symbolic bytes")
	def __format__(self, s): return "<symbytes>"
	def __repr__(self): return "<symbytes %d pieces>" % len(self.p)
	def __setitem__(self, k, x):
		if not self.mutable:
			raise TypeError("'bytes' object does not support item assignment")
		c = C()
		if isinstance(k, slice):
			if k.step not in (None, 1):
				raise Unsupported("slice assignment with step")
			a, b = self.clamp(k)
			if c.branch(b < a):
				b = a
			n = self.zlen()
			self.p = self.sub(z3.IntVal(0), a).p + SymBytes.of(x).p + \
				self.sub(b, n).p
			self._len = None
			return
		e = ze(k)
		n = self.zlen()
		if c.branch(e < 0):
			e = e + n
		if not c.branch(z3.And(e >= 0, e < n)):
			raise IndexError("bytearray index out of range")
		if not c.branch(z3.And(ze(x) >= 0, ze(x) < 256)):
			raise ValueError("byte must be in range(0, 256)")
		e = z3.simplify(e)
		one = PConst(bytes([x])) if isinstance(x, int) else PField(1, ze(x), True)
		self.p = self.sub(z3.IntVal(0), e).p + [one] + \
			self.sub(z3.simplify(e + 1), n).p
		self._len = None
	def extend(self, o):
		if not self.mutable:
			raise AttributeError("'bytes' object has no attribute 'extend'")
		self.p = self.p + SymBytes.of(o).p
		self._len = None
	def append(self, o):
		if not self.mutable:
			raise AttributeError("'bytes' object has no attribute 'append'")
		self.p = self.p + [PField(1, ze(o), True)]
		self._len = None

def normenc(e):
	return e.lower().replace("_", "-").replace("utf8", "utf-8")

# ---------------------------------------------------------------------------
# text

class SymStr(Sym):
	"""Opaque text: a term; equal terms are equal texts."""
	def __init__(self, term, src=None, num=None):
		self.term = term
		self.src = src
		self.num = num       # the number this text is the hexadecimal form of
	def isempty(self):
		c = C()
		k = ("streq", self.term, "")
		if k not in c.shared:
			c.shared[k] = z3.BoolVal(False) if self.num is not None else \
				z3.Bool(c.fresh("streq"))
		return c.shared[k]
	def encode(self, enc="utf-8", errors="strict"):
		c = C()
		enc = normenc(enc)
		if self.term[0] == "decode" and self.term[1] == enc and \
				self.term[2] == "strict" and self.src is not None:
			return self.src
		k = ("encoded", self.term, enc, errors)
		if k not in c.shared:
			n = z3.Int(c.fresh("enclen"))
			c.axiom(n >= 0)
			if enc in ("utf-8", "latin-1", "ascii", "windows-1252", "iso-8859-1"):
				c.axiom((n == 0) == self.isempty())
			name = c.fresh("enc")
			b = SymBytes.blob(name, n)
			c.shared[k] = b
			c.shared[("enc", name)] = (self, enc)
		return c.shared[k]
	def replace(self, a, b, *n):
		if self.term[0] == "replace" and self.term[2:] == (a, b) and len(a) == 1 \
				and a not in b:
			return self          # idempotent: a no longer occurs
		if not n and a and a not in self:
			return self
		return SymStr(("replace", self.term, a, b))
	def _op(self, name, *a):
		return SymStr((name, self.term) + a)
	def lower(self): return self._op("lower")
	def upper(self): return self._op("upper")
	def strip(self, *a): return self._op("strip", *a)
	def rstrip(self, *a): return self._op("rstrip", *a)
	def lstrip(self, *a): return self._op("lstrip", *a)
	def __eq__(self, o):
		c = C()
		if isinstance(o, SymStr):
			if o.term == self.term:
				return True
			ks = [("streq", self.term, o.term), ("streq", o.term, self.term)]
		elif isinstance(o, str):
			if o == "":
				return mkb(self.isempty())
			ks = [("streq", self.term, o)]
		else:
			return False
		for k in ks:
			if k in c.shared:
				return mkb(c.shared[k])
		v = z3.Bool(c.fresh("streq"))
		c.shared[ks[0]] = v
		return SymBool(v)
	def __ne__(self, o):
		return mkb(z3.Not(core.boolexpr(self.__eq__(o))))
	def __hash__(self):
		return hash(self.term)
	def __bool__(self):
		return not bool(self == "")
	def _pred(self, *k):
		c = C()
		kk = ("strpred", self.term) + k
		if kk not in c.shared:
			c.shared[kk] = z3.Bool(c.fresh("strpred"))
		return SymBool(c.shared[kk])
	def startswith(self, x): return self._pred("starts", x)
	def endswith(self, x): return self._pred("ends", x)
	def __contains__(self, x):
		if self.term[0] == "replace" and self.term[2] == x and len(x) == 1 and \
				x not in self.term[3]:
			return False
		return bool(self._pred("contains", x))
	def zlen(self):
		c = C()
		k = ("strlen", self.term)
		if k not in c.shared:
			n = z3.Int(c.fresh("strlen"))
			c.axiom(n >= 0)
			c.axiom((n == 0) == self.isempty())
			if self.term[0] == "%016x":
				c.axiom(z3.And(n >= 16, (n == 16) == z3.And(self.num.e >= 0,
					self.num.e < 2 ** 64)))
			c.shared[k] = n
		return c.shared[k]
	def vlen(self): return mk(self.zlen())
	def __len__(self): return concretize(self.vlen())
	def __add__(self, o): return SymStr(("cat", self.term, getattr(o, "term", o)))
	def __radd__(self, o): return SymStr(("cat", getattr(o, "term", o), self.term))
	def __mod__(self, o): raise Unsupported("symbolic format string")
	def __format__(self, s): return "<symstr>"
	def __repr__(self): return "<symstr %r>" % (self.term,)
	def __getitem__(self, k): return SymStr(("item", self.term, str(k)))
	def __iter__(self): raise Unsupported("iteration over symbolic text")
	def split(self, *a): raise Unsupported("split of symbolic text")
	def __lt__(self, o): return self._pred("lt", getattr(o, "term", o))

# ---------------------------------------------------------------------------
# lists

class SymList(Sym):
	"""Immutable symbolic list: a length and an element function."""
	def __init__(self, name, length, elem):
		self.name, self.length, self.elem = name, length, elem
	@staticmethod
	def ints(name, length, lo=None, hi=None):
		f = z3.Function(name, z3.IntSort(), z3.IntSort())
		def elem(k):
			e = f(zx(k))
			c = C()
			key = ("lst", name, z3.simplify(zx(k)).sexpr())
			if key not in c.shared:
				c.shared[key] = True
				if lo is not None:
					c.axiom(e >= lo)
				if hi is not None:
					c.axiom(e <= hi)
			return mk(e)
		l = SymList(name, length, elem)
		l.f = f
		return l
	def zlen(self): return zx(self.length)
	def vlen(self): return mk(self.zlen())
	def __len__(self): return concretize(self.vlen())
	def __bool__(self): return C().branch(self.zlen() > 0)
	def __getitem__(self, k):
		c = C()
		n = self.zlen()
		if isinstance(k, slice):
			if k.step not in (None, 1):
				raise Unsupported("list step")
			sb = SymBytes([])
			sb._len = n
			a, b = SymBytes.clamp(sb, k)
			if c.branch(b <= a):
				return []
			f = self.elem
			return SymList(self.name + "[]", mkz(b - a),
				lambda i, a=a: f(z3.simplify(zx(i) + a)))
		e = ze(k)
		if c.branch(e < 0):
			e = e + n
		if not c.branch(z3.And(e >= 0, e < n)):
			raise IndexError("list index out of range")
		return self.elem(z3.simplify(e))
	def __iter__(self):
		i = 0
		while C().branch(self.zlen() > i):
			if i > 300:
				raise Unsupported("iteration over a long symbolic list")
			yield self.elem(z3.IntVal(i))
			i += 1

class SymMList(SymList):
	"""Mutable symbolic list of integers with a fixed length: element function
	plus the writes made since, newest last."""
	def __init__(self, name, length, elem):
		SymList.__init__(self, name, length, self._get)
		self.base = elem
		self.writes = []
	def _get(self, k):
		k = z3.simplify(zx(k))
		r = ze(self.base(k))
		for i, x in self.writes:
			r = z3.If(k == i, ze(x), r)
		r = z3.simplify(r)
		if self.writes and not z3.is_int_value(r):
			for i, x in reversed(self.writes):
				if k.eq(i) or C().entails(k == i):
					return mk(ze(x))
				if not C().entails(k != i):
					return mk(r)
			return mk(ze(self.base(k)))
		return mk(r)
	def __setitem__(self, k, x):
		c = C()
		e = ze(k)
		n = self.zlen()
		if c.branch(e < 0):
			e = e + n
		if not c.branch(z3.And(e >= 0, e < n)):
			raise IndexError("list assignment index out of range")
		self.writes.append((z3.simplify(e), x))

class VcRange(object):
	def __init__(self, start, stop, step=1):
		self.start, self.stop, self.step = start, stop, step
		if not isinstance(step, int) or step == 0:
			raise Unsupported("range step")
	def count(self):
		if self.step > 0:
			d = ze(self.stop) - ze(self.start)
			n = (d + self.step - 1) / self.step
		else:
			d = ze(self.start) - ze(self.stop)
			n = (d - self.step - 1) / (-self.step)
		return mkz(z3.If(n > 0, n, z3.IntVal(0)))
	def elem(self, k):
		return mk(ze(self.start) + zx(k) * self.step)
	def vlen(self):
		return mk(zx(self.count()))
	def __len__(self):
		return concretize(self.vlen())
	def __iter__(self):
		x = self.start
		n = 0
		while True:
			if self.step > 0:
				go = C().branch(ze(x) < ze(self.stop))
			else:
				go = C().branch(ze(x) > ze(self.stop))
			if not go:
				return
			yield x
			n += 1
			if n > 400:
				raise Unsupported("loop over a symbolic range without invariant")
			x = mk(ze(x) + self.step)
	def __contains__(self, x):
		if self.step != 1:
			raise Unsupported("in range with step")
		return C().branch(z3.And(ze(x) >= ze(self.start), ze(x) < ze(self.stop)))
	def __getitem__(self, k):
		return self.elem(ze(k))
