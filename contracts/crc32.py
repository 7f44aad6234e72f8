"""C11: crc32_combine.

crc32(A+B) = M^(8|B|) crc32(A) xor crc32(B), M the (linear) operator that feeds
one zero bit.  That identity is derived from the linearity lemma below; the
contracts prove that the code computes its right hand side for every length."""
import types, zlib
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import Sym, SymBV, SymInt, ze, mk
from pyvc import core
from pyvc.core import Unsupported

POLY = 0xedb88320
Q = "rescene.crc32combine.crc32_combine"

def app(mat, vec):
	"""spec: matrix (columns) times bit vector over GF(2)"""
	r = 0
	for i in range(32):
		if vec >> i & 1:
			r ^= mat[i]
	return r

def unit():
	return [(1 << i >> 1) ^ (POLY if i == 0 else 0) for i in range(32)]

# -- the inner product loop ----------------------------------------------------
class Times(LoopSpec):
	def partial(self, k):
		e = z3.BitVecVal(0, 32)
		for i in range(k):
			e = e ^ z3.If(z3.Extract(i, i, self.v0.e) == 1, self.m[i].e,
				z3.BitVecVal(0, 32))
		return SymBV(e)
	def start(self, v, L):
		self.m, self.v0 = L["matrix"], L["vector"]
	def at(self, k):
		return SymBV(z3.LShR(self.v0.e, k)) if k < 32 else 0
	def inv(self, v, L, name):
		k = L["matrix_index"]
		if not isinstance(k, int) or k > 32:
			v.fail(name + ":index")
		v.check(name + ":vector", self.at(k) == L["vector"])
		v.check(name + ":sum", self.partial(k) == L["number_sum"])
	def havoc(self, v, L):
		k = core.CTX.choose(33)
		L["matrix_index"] = k
		L["vector"] = self.at(k)
		L["number_sum"] = self.partial(k)
	def variant(self, v, L):
		return 32 - L["matrix_index"]

@contract("C11", "matrix_times_is_linear_map", [Q + ".matrix_times"], iters=100)
def times(v):
	m = v.mod("rescene.crc32combine")
	code = [c for c in m.crc32_combine.__code__.co_consts
		if isinstance(c, types.CodeType) and c.co_name == "matrix_times"]
	if len(code) != 1 or code[0].co_freevars:
		if not v.symbolic:
			return
		raise Unsupported("matrix_times is not a closed nested function any more")
	f = types.FunctionType(code[0], m.__dict__)
	mat = [v.bv("m%d" % i, 32) for i in range(32)]
	vec = v.bv("x", 32)
	v.loop(Q + ".matrix_times", 0, Times())
	r = f(mat, vec)
	if v.symbolic:
		t = Times()
		t.m, t.v0 = mat, vec
		v.check("product", t.partial(32) == r)
	else:
		v.check("product", app(mat, vec) == r)

# -- the outer loop ---------------------------------------------------------------
class Val(Sym):
	"""M^e applied to a named vector, xor other such values."""
	def __init__(self, e, name, rest=()):
		self.e, self.name, self.rest = e, name, rest
	def __xor__(self, o):
		if not isinstance(o, Val):
			raise Unsupported("xor with an unknown value")
		return Val(self.e, self.name, self.rest + ((o.e, o.name),) + o.rest)
	def __ne__(self, o):
		raise Unsupported("test of an opaque vector")
	__eq__ = __and__ = __rshift__ = __bool__ = __ne__
	__hash__ = None

class Mat(object):
	"""The matrix of M^e: column i is M^e applied to unit vector i."""
	@staticmethod
	def cols(e):
		return [Val(e, ("unit", i)) for i in range(32)]
	@staticmethod
	def exponent(lst):
		if not isinstance(lst, list) or len(lst) != 32:
			raise Unsupported("not a 32 column matrix")
		for i, c in enumerate(lst):
			if not isinstance(c, Val) or c.name != ("unit", i) or c.rest:
				return None
			if not (c.e is lst[0].e or core.CTX.entails(ze(c.e) == ze(lst[0].e))):
				return None
		return lst[0].e

class TimesSummary(LoopSpec):
	"""Postcondition of the loop, proved by matrix_times_is_linear_map."""
	def start(self, v, L):
		if L["number_sum"] != 0 or L["matrix_index"] != 0:
			raise Unsupported("matrix_times starts differently")
		self.m, self.v0 = L["matrix"], L["vector"]
	def havoc(self, v, L):
		L["vector"] = 0
		if isinstance(self.v0, int) and all(isinstance(x, int) for x in self.m):
			L["number_sum"] = app(self.m, self.v0)
			return
		q = Mat.exponent(self.m)
		if q is None or not isinstance(self.v0, Val) or self.v0.rest:
			raise Unsupported("product of unknown operands")
		# M^q (M^e x) = M^(q+e) x
		L["number_sum"] = Val(self.v0.e + q, self.v0.name)

class Outer(LoopSpec):
	def __init__(self, total):
		self.total = total
	def start(self, v, L):
		mat = unit()
		mat = [app(mat, c) for c in mat]
		mat = [app(mat, c) for c in mat]
		v.check("operator-for-four-zero-bits", L["odd"] == mat)
		v.check("starts-with-crc1", isinstance(L["crc1"], Val) and
			L["crc1"].name == "crc1" and not L["crc1"].rest and L["crc1"].e == 0)
		v.check("starts-with-length", L["len2"] == self.total)
		self.first = True
	def inv(self, v, L, name):
		if self.first:
			self.first = False
			return
		q = Mat.exponent(L["odd"])
		if q is None:
			v.fail(name + ":odd-is-a-power")
		v.check(name + ":power", q == 4 * self.q)
		c = L["crc1"]
		if not isinstance(c, Val) or c.name != "crc1" or c.rest:
			v.fail(name + ":crc1")
		v.check(name + ":bits-applied", c.e == self.e + 2 * self.q * self.b0
			+ 4 * self.q * self.b1)
		v.check(name + ":bits-left", L["len2"] * 4 + self.b1 * 2 + self.b0 == self.l)
		v.check(name + ":remaining-not-negative", L["len2"] >= 0)
		e, q, b0, b1, l = z3.Ints("e q b0 b1 l")
		v.check(name + ":bits-conserved", (e + 2 * q * b0 + 4 * q * b1) + 2 * (4 * q) * l
			== e + 2 * q * (4 * l + 2 * b1 + b0))
	def havoc(self, v, L):
		# the spec variables: q zero bits per operator, e bits applied so far and
		# e + 2*q*len2 == 8*length (kept as the definition of e)
		self.q = v.fresh_int("q", 4)
		self.l = v.fresh_int("len2", 0)
		self.e = v.fresh_int("e", 0)
		v.ctx.axiom(ze(self.e) + 2 * ze(self.q) * ze(self.l) == 8 * ze(self.total))
		self.b0 = self.l % 2
		self.b1 = self.l // 2 % 2
		L["len2"] = self.l
		L["odd"][:] = Mat.cols(self.q)
		L["even"][:] = [Val(v.fresh_int("junk"), ("junk", i)) for i in range(32)]
		L["crc1"] = Val(self.e, "crc1")
	def variant(self, v, L):
		return L["len2"]
	def frame(self, v, L):
		return [(L["odd"], "*"), (L["even"], "*")]

@contract("C11", "crc32_combine", [Q, Q + ".matrix_times"], iters=300, budget=90)
def combine(v):
	m = v.mod("rescene.crc32combine")
	if not v.symbolic:
		a, b = v.bytes("a", 0, None), v.bytes("b", 0, None)
		n = v.int("zeros", 0, 70000)
		b = b + bytes(n)
		r = m.crc32_combine(zlib.crc32(a), zlib.crc32(b), len(b))
		v.check("crc-of-concatenation", r == zlib.crc32(a + b), "len %d + %d" % (len(a), len(b)))
		v.check("empty-second", m.crc32_combine(zlib.crc32(a), 0, 0) == zlib.crc32(a))
		big = v.int("len", 1, 2 ** 42)
		x, y = v.int("x", 0, 2 ** 32 - 1), v.int("y", 0, 2 ** 32 - 1)
		v.check("power-law", m.crc32_combine(x, y, big) == power(8 * big, x) ^ y)
		return
	n = v.int("len2")
	c1, c2 = Val(0, "crc1"), Val(0, "crc2")
	o = Outer(n)
	v.loop(Q + ".matrix_times", 0, TimesSummary())
	v.loop(Q, 0, o)
	r = m.crc32_combine(c1, c2, n)
	if n <= 0:
		v.check("empty-second", r is c1)
		return
	if not isinstance(r, Val):
		v.fail("result")
	v.check("result-is-M^k(crc1)-xor-crc2", r.name == "crc1" and len(r.rest) == 1 and
		r.rest[0][1] == "crc2" and r.rest[0][0] == 0)
	# the code leaves the loop inside an iteration or at its head
	for nm, t in (("bits", r.e),):
		v.check("exactly-8-bits-per-byte", exact(o, t, n))

def exact(o, t, n):
	l, q, e = ze(o.l), ze(o.q), ze(o.e)
	b0, b1 = ze(o.b0), ze(o.b1)
	core.CTX.assume(z3.Implies(l == 0, l * q == 0))
	core.CTX.assume(z3.Implies(l == 1, l * q == q))
	core.CTX.assume(z3.Implies(l == 2, l * q == 2 * q))
	core.CTX.assume(z3.Implies(l == 3, l * q == 3 * q))
	return mk(ze(t)) == 8 * n

@contract("C11", "crc_linearity_lemma", [], iters=1)
def lemma(v):
	"""Feeding bits is linear, hence r(A+B) xor r(B) = M^(8|B|)(r(A) xor r(''))
	by induction on B: base and step below, r the CRC register."""
	if not v.symbolic:
		return
	def m8(x):
		for _ in range(8):
			x = z3.LShR(x, 1) ^ z3.If(z3.Extract(0, 0, x) == 1,
				z3.BitVecVal(POLY, 32), z3.BitVecVal(0, 32))
		return x
	x, y = z3.BitVecs("x y", 32)
	c = z3.ZeroExt(24, z3.BitVec("c", 8))
	v.check("step", m8(x ^ c) ^ m8(y ^ c) == m8(x ^ y))
	F = z3.BitVecVal(0xffffffff, 32)
	v.check("final", (x ^ F) ^ (y ^ F) == x ^ y)

def power(n, x):
	mat, r = unit(), x
	while n:
		if n & 1:
			r = app(mat, r)
		mat = [app(mat, c) for c in mat]
		n >>= 1
	return r
