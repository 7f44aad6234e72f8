"""C14: EBML variable length integers and Matroska lacing."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import SymMList, SymInt, SymBytes, ze, mk, zx, mkz
from pyvc import core

FN = ["resample.ebml.MakeEbmlUInt", "resample.ebml.GetEbmlUInt",
	"resample.ebml.GetUIntLength", "resample.ebml.GetEbmlUIntStream"]

@contract("C14", "ebml_uint_roundtrip", FN)
def roundtrip(v):
	"""Every number below 2^56 encodes to n <= 8 bytes, first byte holding the
	marker bit for n, and decodes to itself by both decoders."""
	m = v.mod("resample.ebml")
	x = v.int("x", 0, 2 ** 56 - 1)
	out = v.call(m.MakeEbmlUInt, x)
	v.expect("encodes", out)
	b = out.value
	n = v.len(b)
	if v.symbolic:
		n = int(n)
	v.check("one-to-eight-bytes", 1 <= n <= 8)
	v.check("shortest-form", v.And(x < 2 ** (7 * n), n == 1 or x >= 2 ** (7 * (n - 1))))
	v.check("marker", v.And(b[0] >= 0x80 >> (n - 1), b[0] < 0x100 >> (n - 1)))
	v.check("announced-length", m.GetUIntLength(b[0]) == n)
	v.check("decode", m.GetEbmlUInt(b, 0, n) == x)
	f = v.file(b)
	y, used = m.GetEbmlUIntStream(f)
	v.check("stream-decode", v.And(y == x, used == n))
	v.check("stream-position", f.tell() == n)

@contract("C14", "ebml_uint_decode_value", FN[1:])
def decode(v):
	"""Any first byte 1..255 and any following bytes: the announced length is
	the position of the highest bit, the value its remaining bits base 256; the
	stream decoder consumes exactly that many bytes."""
	m = v.mod("resample.ebml")
	b = v.bytes("b", 8, 8)
	v.assume(b[0] > 0)
	n = m.GetUIntLength(b[0])
	v.check("length-range", v.And(n >= 1, n <= 8))
	if v.symbolic:
		n = int(n)
	val = b[0] - (0x100 >> n)
	v.check("marker-position", v.And(val >= 0, val < (0x100 >> n)))
	for i in range(1, n):
		val = val * 256 + b[i]
	v.check("value", m.GetEbmlUInt(b, 0, n) == val)
	f = v.file(b)
	y, used = m.GetEbmlUIntStream(f)
	v.check("stream-value", v.And(y == val, used == n))
	v.check("stream-position", f.tell() == n)
	pre = v.bytes("pre", 0, None)
	v.check("value-at-offset", m.GetEbmlUInt(pre + b, v.len(pre), n) == val)

# -- lacing -------------------------------------------------------------------
XIPH, FIXED, EBMLL = 2, 4, 6

class Ghost(object):
	"""A list F of frame sizes and its prefix sums P."""
	def __init__(self, v, n):
		c = core.CTX
		self.F = z3.Function(c.fresh("F"), z3.IntSort(), z3.IntSort())
		self.P = z3.Function(c.fresh("P"), z3.IntSort(), z3.IntSort())
		c.axiom(self.P(0) == 0)
		self.lst = SymMList(c.fresh("sizes"), mkz(zx(n)), lambda k: mk(self.F(zx(k))))
	def unfold(self, k):
		"""definition of the prefix sum, at k"""
		core.CTX.axiom(self.P(zx(k) + 1) == self.P(zx(k)) + self.F(zx(k)))

class Outer(LoopSpec):
	def __init__(self, lace, D, f):
		self.lace, self.D, self.f = lace, D, f
	def start(self, v, L):
		self.pos0 = self.f.pos
		self.g = None
	def inv(self, v, L, name):
		fs, k, bc = L["frame_sizes"], L.k, L["bytes_consumed"]
		v.check(name + ":length", v.len(fs) == L.n)
		if self.g is not None and self.lace == EBMLL and bool(bc == self.bc0) and \
				bool(self.f.pos != self.p0):
			# precondition of the property (well-formed header): a size starts with a
			# non-zero byte; the code gets here only for a zero byte
			v.check(name + ":malformed", self.f.node.content[self.p0] == 0)
			v.assume(False)
		v.check(name + ":consumed", bc == 1 + self.f.pos - self.pos0)
		if self.lace == FIXED:
			v.check(name + ":no-more-header", bc == 1)
		if self.g is None:
			return
		k0 = self.k0
		# frames still to come are untouched (they are accumulated into)
		j = v.fresh_int("j")
		v.assume(v.And(j > k0, j < L.n))
		v.ctx.axiom(self.g.F(j.e) == 0)
		v.check(name + ":rest-zero", fs[j] == 0)
		v.check(name + ":history", v.And(*[mk(i) == k0 for i, _ in fs.writes])
			if fs.writes else True)
		new = fs[k0]
		last = bool(k0 == L.n - 1)
		d = bc - self.bc0
		if self.lace == FIXED:
			v.check(name + ":fixed-size", new == (self.D - 1) // L.n)
		elif last:
			v.check(name + ":sum", mk(self.g.P(zx(k0))) + new == self.D - bc)
		elif self.lace == XIPH:
			lastb = self.f.node.content[self.f.pos - 1]
			v.check(name + ":xiph-size", v.And(lastb < 255,
				new == 255 * (d - 1) + lastb))
		else:
			d = int(d)
			b = self.f.node.content
			p = self.p0
			val = b[p] - (0x100 >> d)
			for i in range(1, d):
				val = val * 256 + b[p + i]
			if k0 == 0:
				v.check(name + ":first-size", new == val)
			else:
				v.check(name + ":signed-difference", new == mk(self.g.F(zx(k0) - 1))
					+ val - (2 ** (7 * d - 1) - 1))
	def havoc(self, v, L):
		k = L.k
		self.k0 = k
		g = self.g = Ghost(v, L.n)
		L["frame_sizes"] = g.lst
		bc = 1 if self.lace == FIXED else v.fresh_int("bytes_consumed", 1)
		L["bytes_consumed"] = bc
		self.bc0 = bc
		self.f.pos = self.pos0 + bc - 1
		self.p0 = self.f.pos
		if self.lace != FIXED:
			v.ctx.axiom(z3.Implies(zx(k) == zx(L.n), g.P(zx(k)) == ze(self.D - bc)))
		v.ctx.axiom(z3.Implies(zx(k) < zx(L.n), g.F(zx(k)) == 0))
		if self.lace == FIXED:
			self.elem = v.fresh_int("e", 0)
			v.ctx.axiom(z3.Implies(ze(self.elem) < zx(k), g.F(ze(self.elem)) ==
				ze((self.D - 1) // L.n)))
	def frame(self, v, L):
		return [(self.f, "pos")]

class Xiph(LoopSpec):
	def __init__(self, outer):
		self.o = outer
	def start(self, v, L):
		self.p = self.o.f.pos
		self.bc = L["bytes_consumed"]
	def inv(self, v, L, name):
		m = self.o.f.pos - self.p
		v.check(name + ":consumed", L["bytes_consumed"] == self.bc + m)
		nb = L["nextByte"]
		v.check(name + ":byte", v.And(nb >= 0, nb <= 255))
		v.check(name + ":size", v.Or(v.And(m == 0, nb == 255, L["frame_sizes"][L["i"]] == 0),
			v.And(m >= 1, L["frame_sizes"][L["i"]] == 255 * (m - 1) + nb,
			nb == self.o.f.node.content.sub_at(self.o.f.pos - 1))))
	def havoc(self, v, L):
		f = self.o.f
		m = v.fresh_int("m", 0)
		nb = v.fresh_int("nb", 0, 255)
		v.assume(m + self.p <= f.node.content.vlen())
		if m == 0:
			v.assume(nb == 255)
			size = 0
		else:
			size = 255 * (m - 1) + nb
			v.assume(nb == f.node.content.sub_at(self.p + m - 1))
		f.pos = self.p + m
		L["nextByte"] = nb
		L["bytes_consumed"] = self.bc + m
		g = self.o.g.lst
		g.writes = [(zx(L["i"]), size)]
	def variant(self, v, L):
		return self.o.f.node.content.vlen() - self.o.f.pos
	def frame(self, v, L):
		return [(self.o.f, "pos")]

class Minus(LoopSpec):
	"""subtracts every earlier frame"""
	def __init__(self, outer):
		self.o = outer
	def inv(self, v, L, name):
		g = self.o.g
		v.check(name + ":partial", L["frame_sizes"][L["i"]] ==
			self.o.D - L["bytes_consumed"] - mk(g.P(zx(L.k))))
	def havoc(self, v, L):
		g = self.o.g
		g.unfold(L.k)
		g.lst.writes = [(zx(L["i"]), self.o.D - L["bytes_consumed"] - mk(g.P(zx(L.k))))]

@contract("C14", "lacing_frame_sizes", ["resample.ebml.GetBlockFrameLengths",
	"resample.ebml.GetEbmlUIntStream"], budget=120,
	note="frame count up to 256 and any frame sizes; sums by ghost prefix sums")
def lacing(v):
	m = v.mod("resample.ebml")
	lace = v.choice("lace", [0, 2, 4, 6])
	D = v.int("data_length", 0, 2 ** 56)
	data = v.bytes("header", 0, None, cap=40)
	f = v.file(data)
	if lace != 0:
		o = Outer(lace, D, f)
		v.loop("resample.ebml.GetBlockFrameLengths", 0, o)
		v.loop("resample.ebml.GetBlockFrameLengths", 1, Xiph(o))
		v.loop("resample.ebml.GetBlockFrameLengths", 2, Minus(o))
		v.loop("resample.ebml.GetBlockFrameLengths", 3, Minus(o))
	else:
		v.loop("resample.ebml.GetBlockFrameLengths", 0, None)
	out = v.call(m.GetBlockFrameLengths, lace, D, f)
	# struct.error / AssertionError: the header is cut short or malformed
	v.expect("no-other-error", out, struct.error, AssertionError)
	if not out.ok:
		return
	fs, used = out.value
	if lace == EBMLL and not v.symbolic and data[0] and not data[1]:
		return
	v.check("consumed-is-stream-position", used == f.tell())
	if lace == 0:
		v.check("one-frame", v.And(v.len(fs) == 1, fs[0] == D, used == 0))
		return
	v.check("frame-count", v.len(fs) == data[0] + 1)
	if lace == FIXED:
		v.check("count-byte-only", used == 1)
	if v.symbolic:
		if lace == FIXED:
			k = o.elem
			v.assume(k < v.len(fs))
			v.check("fixed-size", fs[k] == (D - 1) // v.len(fs))
		else:
			v.check("sum", mk(o.g.P(zx(v.len(fs)))) == D - used)
	elif lace == FIXED:
		v.check("fixed-size", all(x == (D - 1) // len(fs) for x in fs))
	else:
		v.check("sum", sum(fs) == D - used)
