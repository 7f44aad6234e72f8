"""C08: recovery records, for every content, sector count and number of slices."""
import zlib
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import SymBytes, SymInt, SymMList, SymList, PFun, ze, mk, zx, mkz
from pyvc import core
from pyvc.core import Unsupported

M = "rescene.main."
I = z3.IntSort()

class Par(SymInt):
	"""A sector as a number: only ever combined by exclusive-or."""
	XOR = z3.Function("xor4096", I, I, I)
	def __xor__(self, o):
		return mk(Par.XOR(ze(o), self.e))
	__rxor__ = __xor__

class Ghost(object):
	"""CR(k): CRC of sector k;  SEC(k): sector k as a number;  SL(k) = k mod slices;
	X(i, k): parity of slice i over the sectors before k."""
	vc_ghost = True
	def __init__(self, v, content, slices, total):
		f = core.CTX.fresh
		self.v, self.c, self.r, self.total = v, content, slices, total
		self.CR = z3.Function(f("crcof"), I, I)
		self.SEC = z3.Function(f("sec"), I, I)
		self.SL = z3.Function(f("slice"), I, I)
		self.X = z3.Function(f("par"), I, I, I)
		self.PB = z3.Function(f("parbyte"), I, I)
		v.ctx.axiom(self.SL(0) == 0)
	def sector(self, k):
		"""the k-th 512 bytes, the last ones zero padded"""
		v, n = self.v, self.v.len(self.c)
		if k * 512 + 512 <= n:
			return self.c[k * 512:k * 512 + 512]
		return self.c[k * 512:] + bytes(1) * (512 - (n - k * 512))
	def low(self, i):
		"""byte i of the CRC part: inverted low half, little endian"""
		i = zx(i)
		x = 65535 - self.CR(i / 2) % 65536
		return z3.If(i % 2 == 0, x % 256, x / 256)
	def slot(self, k):
		v = self.v
		s = self.SL(ze(k))
		v.ctx.axiom(z3.And(s >= 0, s < ze(self.r)))
		v.ctx.axiom(self.SL(ze(k) + 1) == z3.If(s + 1 == ze(self.r), 0, s + 1))
	def step(self, i, k):
		"""definition of X(i, k + 1)"""
		self.v.ctx.axiom(self.X(zx(i), ze(k) + 1) == z3.If(self.SL(ze(k)) == zx(i),
			Par.XOR(self.X(zx(i), ze(k)), self.SEC(ze(k))), self.X(zx(i), ze(k))))
	def crcs(self, done):
		return SymMList(core.CTX.fresh("crcs"), mkz(ze(self.total) * 2), lambda i: mk(
			z3.If(zx(i) < 2 * ze(done), self.low(i), 0)))
	def pars(self, done):
		return SymMList(core.CTX.fresh("pars"), mkz(ze(self.r)), lambda i: mk(
			self.X(zx(i), ze(done))))
	def parity(self, a, n):
		def at(j):
			e = self.PB(j)
			self.v.ctx.axiom(z3.And(e >= 0, e < 256))
			return e
		return SymBytes([PFun(("parity", str(self.PB)), at, mkz(ze(n)), mkz(ze(a)))])

class Sectors(LoopSpec):
	def __init__(self, g, f, base):
		self.g, self.f, self.base, self.k = g, f, base, None
	def inv(self, v, L, name):
		g, n = self.g, v.len(self.g.c)
		crc, rs = L["crc"], L["rs"]
		for what, x, size in (("crc", crc, g.total * 2), ("parity", rs, g.r)):
			if not isinstance(x, (SymMList, list)):
				raise Unsupported("%s list" % what)
			v.check(name + ":%s-list-length" % what, v.len(x) == size)
		k = 0 if self.k is None else self.k + 1
		v.check(name + ":sectors-done", v.And(L["count"] == 512 * k, L["current_sector"] == k))
		v.check(name + ":slice", L["rs_slice"] == mk(g.SL(ze(k))))
		v.check(name + ":position", self.f.pos == v.ite(512 * k < n, 512 * k, n))
		v.check_eq(name + ":volume-untouched", self.f.node.content, g.c)
		j = v.fresh_int("j", 0)
		v.assume(j < g.total * 2)
		v.check(name + ":crc-bytes", crc[j] == mk(z3.If(ze(j) < 2 * ze(k), g.low(ze(j)), 0)))
		i = v.fresh_int("i", 0)
		v.assume(i < g.r)
		if self.k is None:
			v.ctx.axiom(g.X(ze(i), 0) == 0)
		else:
			g.step(ze(i), self.k)
		v.check(name + ":parity", rs[i] == mk(g.X(ze(i), ze(k))))
	def havoc(self, v, L):
		g, n = self.g, v.len(self.g.c)
		k = self.k = v.fresh_int("k", 0)
		# never beyond the sectors there are
		v.assume(512 * k < n + 512)
		L["count"], L["current_sector"] = 512 * k, k
		L["rs_slice"] = mk(g.SL(ze(k)))
		g.slot(k)
		self.f.pos = v.ite(512 * k < n, 512 * k, n)
		self.crc0, self.rs0 = L["crc"], L["rs"]
		L["crc"] = g.crcs(k)
		L["rs"] = g.pars(k)
		self.crc1, self.rs1 = L["crc"], L["rs"]
		if 512 * k < n:
			c = v.crc(g.sector(k))
			v.ctx.axiom(g.CR(ze(k)) == c.e)
	def variant(self, v, L):
		return v.len(self.g.c) + 512 - L["count"]
	def frame(self, v, L):
		return [(self.f, "pos"), (self.f.node, "content")]

class Parities(LoopSpec):
	def __init__(self, g, f, base):
		self.g, self.f, self.base = g, f, base
		self.j = None
	def want(self, k):
		return self.base + self.g.parity(0, 512 * k)
	def inv(self, v, L, name):
		v.check_eq(name + ":written", self.f.node.content, self.want(L.k))
		v.check(name + ":at-the-end", self.f.pos == v.len(self.f.node.content))
	def havoc(self, v, L):
		self.f.node.content = self.want(L.k)
		self.f.pos = v.len(self.f.node.content)
		self.j = L.k
	def frame(self, v, L):
		return [(self.f, "pos"), (self.f.node, "content")]

class Rec(object):
	pass

def spec(content, rs):
	k = (len(content) + 511) // 512
	secs = [content[512 * i:512 * i + 512].ljust(512, b"\0") for i in range(k)]
	out = b"".join((~zlib.crc32(s) & 0xffff).to_bytes(2, "little") for s in secs)
	for i in range(rs):
		p = bytearray(512)
		for s in secs[i::rs]:
			p = bytearray(a ^ b for a, b in zip(p, s))
		out += bytes(p)
	return out

@contract("C08", "recovery_record", [M + "_write_recovery_record"], iters=150,
	note="exclusive-or as an uninterpreted function of the sectors in their order")
def record(v):
	m = v.mod("rescene.main")
	if v.symbolic:
		content = v.bytes("content", 1, None)
		n = v.len(content)
		total = v.int("sectors", 1)
		v.assume(v.And(total * 512 >= n, total * 512 < n + 512))
		slices = v.int("slices", 1)
		hdr = v.bytes("header", 0, 65535)
	else:
		n = v.choice("n", [1, 511, 512, 513, 700, 5120, 140000, 300000, 131072])
		content = (bytes(v.bytes("a", 256, 256)) + bytes(v.bytes("b", 77, 77))) * (n // 333 + 1)
		content = content[:n]
		slices = v.int("slices", 1, 400)
		total = v.int("sectors", 1, 2000)
		if v.bool("by-sectors"):
			content = (content * 1000)[:512 * total - v.int("cut", 0, 511)]
		total = (len(content) + 511) // 512
		hdr = b"header"
	v.patch(m, "_fire", lambda *a, **k: None)
	f = v.file(content)
	b = Rec()
	b.recovery_sectors, b.data_sectors = slices, total
	b.block_bytes = lambda: hdr
	if v.symbolic:
		v.trusted("int.from_bytes, ^ and int.to_bytes (big endian): bytewise exclusive-or")
		g = Ghost(v, content, slices, total)
		one = Sectors(g, f, None)
		def frombytes(x):
			k = one.k
			if k is None:
				raise Unsupported("sector number outside the loop")
			v.check_eq("parity-over-the-sector", x, g.sector(k))
			return Par(g.SEC(ze(k)))
		crcpart = lambda a, n: SymBytes([PFun(("crcs", str(g.CR)), g.low, mkz(ze(n)),
			mkz(ze(a)))])
		two = Parities(g, f, content + hdr + crcpart(0, 2 * total))
		def tobytes(x, size):
			if two.j is None:
				raise Unsupported("parity number outside the loop")
			v.check("parity-of-all-sectors", x == mk(g.X(ze(two.j), ze(total))))
			v.check("parity-size", size == 512)
			return g.parity(512 * two.j, 512)
		v.stub(M + "int_from_bytes_big", frombytes)
		v.stub(M + "int_to_bytes_big", tobytes)
		v.loop(M + "_write_recovery_record", 0, one)
		v.loop(M + "_write_recovery_record", 1, two)
	out = v.call(m._write_recovery_record, b, f)
	v.expect("written", out)
	if v.symbolic:
		v.check_eq("record", f.node.content, two.want(slices))
	else:
		v.check_eq("record", v.content(f), content + hdr + spec(content, slices))
