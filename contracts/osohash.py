"""C10: the ISDb hash of a stream, for every length and content."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import ze, mk, zx
from pyvc import core

M = "rescene.osohash."
B = 65536
W = 2 ** 64

def word(c, off):
	return sum(c.at(z3.simplify(ze(off) + i)) * 256 ** i for i in range(8))

class Sums(object):
	"""P(k): sum of the first k words of the first and of the last 64 KiB"""
	def __init__(self, v, content):
		self.f = z3.Function(core.CTX.fresh("sum"), z3.IntSort(), z3.IntSort())
		self.v, self.c = v, content
		v.ctx.axiom(self.f(0) == 0)
	def __call__(self, k):
		return mk(self.f(zx(ze(k))))
	def unfold(self, k):
		"""definition of P(k + 1)"""
		n = self.v.len(self.c)
		self.v.ctx.axiom(self.f(ze(k) + 1) == self.f(ze(k)) + word(self.c, 8 * k) +
			word(self.c, n - B + 8 * k))

class HashLoop(LoopSpec):
	def __init__(self, sums, n):
		self.P, self.n0 = sums, n
	def inv(self, v, L, name):
		h = L["srr_hash"]
		v.check(name + ":64-bit", h < W)
		v.check(name + ":sum", h % W == (self.n0 + self.P(L.k)) % W)
	def havoc(self, v, L):
		L["srr_hash"] = h = v.fresh_int("h", 0, W - 1)
		v.assume(h % W == (self.n0 + self.P(L.k)) % W)
		self.P.unfold(L.k)

def spec(c):
	w = lambda x: struct.unpack("<8192Q", x)
	return "%016x" % ((len(c) + sum(w(c[:B])) + sum(w(c[-B:]))) % W)

@contract("C10", "hash_of_a_stream", [M + "_osorg_hash", M + "_length"], iters=60, budget=60)
def of_stream(v):
	m = v.mod("rescene.osohash")
	if v.symbolic:
		c = v.bytes("content", 0, 2 ** 63 - 1)
	else:
		n = v.choice("n", [0, 1, 65535, 65536, 65537, 65544, 131071, 131072, 131073, 200001])
		c = bytes(v.bytes("seed", 64, 64)) * (n // 64 + 1)
		c = (c[:n // 2] + v.bytes("mid", 8, 8) + c)[:n]
	n = v.len(c)
	f = v.file(c)
	if v.symbolic:
		P = Sums(v, c)
		v.loop(M + "_osorg_hash", 0, HashLoop(P, n))
	out = v.call(m._osorg_hash, f)
	if not out.ok:
		v.expect("refused", out, ValueError)
		v.check("refused-only-when-small", n < B)
		return
	v.check("small-refused", n >= B)
	text, size = out.value
	v.check("size", size == n)
	if v.symbolic:
		num = getattr(text, "num", None)
		if num is None or text.term[0] != "%016x":
			raise core.Unsupported("hash is not built by '%016x'")
		v.check("sixteen-digits", v.And(num >= 0, num < W))
		v.check("sum", num == (n + P(8192)) % W)
	else:
		v.check_eq("hash", text, spec(c))

class Stream(object):
	def __init__(self):
		self.closed = False
	def seek(self, *a): pass
	def read(self, *a): pass
	def tell(self): pass
	def close(self):
		self.closed = True

@contract("C10", "hash_entry_points", [M + "compute_hash", M + "osohash_from"], iters=1)
def entry(v):
	"""A stream is hashed as given, a path is opened and closed again, an archive goes through
	RarStream."""
	if not v.symbolic:
		return
	m = v.mod("rescene.osohash")
	kind = v.choice("kind", ["stream", "path", "path-bad", "rar"])
	seen = []
	def h(stream):
		seen.append(stream)
		if kind == "path-bad":
			raise ValueError("small")
		return "result"
	v.stub(M + "_osorg_hash", h)
	if kind == "stream":
		s = Stream()
		v.check("hash", m.compute_hash(s) == "result")
		v.check("given-stream", seen == [s] and not s.closed)
	elif kind == "rar":
		s = Stream()
		args = []
		v.stub(M + "RarStream", lambda *a, **k: args.append((a, k)) or s)
		v.check("hash", m.osohash_from("x.rar", "movie.avi", True) == "result")
		a, k = args[0]
		got = dict(zip(("first_rar", "packed_file_name", "middle"), a), **k)
		v.check("opened-as-asked", got == dict(first_rar="x.rar", packed_file_name="movie.avi",
			middle=True) and len(args) == 1)
		v.check("given-stream", seen == [s])
	else:
		c = v.bytes("content", 0, None)
		out = v.call(m.compute_hash, v.path("f.avi", c))
		v.check("result", out.ok == (kind == "path") and (out.value == "result" or not out.ok))
		v.check("opened", len(seen) == 1)
		v.check_eq("that-file", v.content(seen[0]), c)
		v.check("closed", seen[0].closed)
