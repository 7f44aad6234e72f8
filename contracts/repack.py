"""C09: rebuilding packed data, for every source, part size and split."""
import zlib
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import ze, mk

M = "rescene.main."
SPLIT_AFTER = 2

class Chunks(LoopSpec):
	def __init__(self, st):
		self.st = st
	def end(self, v, d):
		st = self.st
		n = v.len(st.content)
		return v.ite(st.pos0 + d < n, st.pos0 + d, n)
	def written(self, v, d):
		st = self.st
		e = self.end(v, d)
		return st.vol + st.content[st.pos0:e] + bytes(1) * (d - (e - st.pos0))
	def inv(self, v, L, name):
		st = self.st
		d = L["bytes_copied_inc"]
		e = self.end(v, d)
		v.check(name + ":within-the-part", v.And(d >= 0, d <= st.size))
		v.check(name + ":source-position", st.src.pos == e)
		v.check_eq(name + ":volume", st.out.node.content, self.written(v, d))
		v.check(name + ":volume-position", st.out.pos == v.len(st.out.node.content))
		v.check_eq(name + ":source-untouched", st.src.node.content, st.content)
		if not st.skip:
			v.check(name + ":running-crc", L["running_crc"] == v.crc(st.content[st.first:e]))
			v.check(name + ":part-crc", L["file_crc"] == v.crc(st.content[st.pos0:e]))
		else:
			v.check(name + ":running-crc", L["running_crc"] == st.running)
	def havoc(self, v, L):
		st = self.st
		d = v.fresh_int("done", 0)
		v.assume(d <= st.size)
		L["bytes_copied_inc"] = d
		e = self.end(v, d)
		st.src.pos = e
		st.out.node.content = self.written(v, d)
		st.out.pos = v.len(st.out.node.content)
		L["running_crc"] = st.running
		L["file_crc"] = 0
		if not st.skip:
			L["running_crc"] = v.crc(st.content[st.first:e])
			L["file_crc"] = v.crc(st.content[st.pos0:e])
	def variant(self, v, L):
		return self.st.size - L["bytes_copied_inc"]
	def frame(self, v, L):
		return [(self.st.src, "pos"), (self.st.out, "pos"), (self.st.out.node, "content")]

class Obj(object):
	vc_ghost = True

@contract("C09", "packed_part", [M + "_repack"], iters=400)
def part(v):
	m = v.mod("rescene.main")
	st = Obj()
	if v.symbolic:
		st.content = v.bytes("source", 0, None)
		st.vol = v.bytes("volume", 0, None)
		n = v.len(st.content)
		st.pos0 = v.int("position", 0)
		v.assume(st.pos0 <= n)
		st.size = v.int("packed_size", 0)
	else:
		n = v.choice("n", [0, 1, 300, 65535, 65536, 65537, 131072, 150000])
		st.content = (v.bytes("seed", 1, 300) * (n + 1))[:n]
		st.vol = v.bytes("volume", 0, 50)
		st.pos0 = min(n, v.int("position", 0, 70000))
		st.size = v.choice("psize", [0, 1, n - st.pos0, v.int("packed_size", 0, 200000)])
	# the parts of this file before this one start here
	st.first = st.pos0
	if v.bool("continued"):
		st.first = v.int("first", 0)
		if not v.symbolic:
			st.first = st.first % (st.pos0 + 1)
		v.assume(st.first <= st.pos0)
	st.skip = v.bool("skip_rar_crc")
	end = v.ite(st.pos0 + st.size < n, st.pos0 + st.size, n)
	st.running = v.crc(st.content[st.first:st.pos0]) if not st.skip else 0
	if v.symbolic:
		if isinstance(st.running, int) or st.first is st.pos0:
			st.running = 0
		st.src, st.out = v.file(st.content), v.file(st.vol)
		st.out.name = "x.rar"
	else:
		st.src = open(v.path("src", st.content), "rb")
		st.out = open(v.path("x.rar", st.vol), "r+b")
	st.src.seek(st.pos0)
	st.out.seek(0, 2)
	fired = []
	v.patch(m, "_fire", lambda code, *a, **k: fired.append(code))
	b = Obj()
	b.packed_size = st.size
	b.flags = v.int("flags", 0, 65535)
	b.file_crc = v.int("file_crc", 0, 2 ** 32 - 1)
	b.file_name = "movie.avi"
	packed = v.bool("compressed")
	b.is_compressed = lambda: packed
	last = b.flags // SPLIT_AFTER % 2 == 0
	if not v.symbolic and v.bool("sound"):
		b.file_crc = v.crc(st.content[st.first if last else st.pos0:end])
	spec = Chunks(st)
	v.loop(M + "_repack", 0, spec)
	out = v.call(m._repack, b, st.out, "in", st.src, st.running, st.skip)
	v.expect("returns", out)
	if v.symbolic:
		v.check_eq("volume", st.out.node.content, spec.written(v, st.size))
		v.check("source-position", st.src.pos == end)
	else:
		v.check("source-position", st.src.tell() == end)
		st.out.close()
		with open(v.path("x.rar"), "rb") as f:
			v.check_eq("volume", f.read(), st.vol + st.content[st.pos0:end] +
				bytes(st.size - (end - st.pos0)))
		st.src.close()
	reports = [c for c in fired if c == m.MsgCode.CRC]
	if st.skip:
		v.check("checksum-skipped", reports == [])
		return
	run, one = v.crc(st.content[st.first:end]), v.crc(st.content[st.pos0:end])
	v.check("next-part-continues-the-checksum", out.value == run)
	if v.symbolic:
		last = bool(last)
	if last:
		wrong = v.And(b.file_crc != run, not packed)
	else:
		wrong = b.file_crc != one
	v.check("mismatch-is-reported", v.Or(v.Not(wrong), len(reports) > 0))
	v.check("match-is-not-reported", v.Or(wrong, len(reports) == 0))
