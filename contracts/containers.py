"""C17: the media container readers, one step at a time.

Each contract puts a reader on a file of any content at any position inside it and
takes one step.  Steps compose: a step starts where the previous one left the
reader, so what holds for one step from every position holds for every walk."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc.values import SymMList, SymList, mk, mkz, ze, zx

DATA = (ValueError, AssertionError, struct.error, OSError, EOFError, IndexError,
	OverflowError)

def be(b, i, n):
	r = 0
	for k in range(n):
		r = r * 256 + b[i + k]
	return r

def le(b, i, n):
	r = 0
	for k in range(n - 1, -1, -1):
		r = r * 256 + b[i + k]
	return r

def same(v, name, got, F, a, n):
	"""got holds the file's bytes a..a+n, as far as they exist"""
	N = v.len(F)
	a = v.ite(a > N, N, a)
	e = v.ite(a + n > N, N, a + n)
	v.check_eq(name, got, F[a:e])

def each(name, functions, ops, **kw):
	"""one contract per operation that follows the step"""
	def deco(fn):
		for op in ops:
			def run(v, op=op):
				fn(v, op)
			run.__doc__ = fn.__doc__
			contract("C17", name + "_" + op, functions, **kw)(run)
		return fn
	return deco

def setup(v, modname, make, at_start=True):
	m = v.mod(modname)
	F = v.bytes("file", 0, None, 80)
	f = v.file(F)
	out = v.call(make, m, f)
	if v.len(F) == 0 and not out.ok:
		v.expect("empty-file", out, *DATA)
		return m, F, f, None, 0
	v.expect("opens", out)
	r = out.value
	v.check("starts-at-the-begin", f.tell() == 0)
	p = v.int("pos", 0, None if v.symbolic else len(F))
	v.assume(p <= v.len(F))
	f.seek(p)
	return m, F, f, r, p

# -- RIFF ---------------------------------------------------------------------
R = "resample.riff.RiffReader."

def fourcc_ok(v, F, p):
	return v.And(*[v.Or(F[p + i] == 32, v.And(F[p + i] >= 48, F[p + i] <= 57),
		v.And(F[p + i] >= 65, F[p + i] <= 90), v.And(F[p + i] >= 97, F[p + i] <= 122))
		for i in range(4)])

def put(v, F, p, data):
	"""concrete runs: plant a plausible header so that steps succeed"""
	return F

@each("riff_step", [R + "__init__", R + "read", R + "read_contents",
	R + "skip_contents", R + "move_to_child"], ["read", "skip", "child", "again"])
def riff_step(v, op):
	m, F, f, r, p = setup(v, "resample.riff", lambda m, f: m.RiffReader(
		v.choice("mode", [m.RiffReadMode.AVI, m.RiffReadMode.Sample, m.RiffReadMode.SRS]),
		stream=f))
	if r is None:
		return
	N = v.len(F)
	out = v.call(r.read)
	v.expect("read", out, *DATA)
	if p + 8 > N:
		v.check("stops-at-the-end", v.And(out.ok, out.value == False))
		return
	ok4 = fourcc_ok(v, F, p)
	L0 = le(F, p + 4, 4)
	first = F[p:p + 4]
	islist = bool(first == b"RIFF") or bool(first == b"LIST")
	if not out.ok:
		v.check("error-only-for-malformed-data", v.Or(v.Not(ok4), p + 8 + L0 > N,
			v.And(islist, L0 < 4)))
		return
	v.check("element-reported", out.value == True)
	v.check("fourcc-checked", ok4)
	c = r.current_chunk
	hl = 12 if islist else 8
	L = L0 - 4 if islist else L0
	v.check("content-length", v.And(c.length == L, c.length >= 0))
	v.check("starts-where-the-previous-ended", c.chunk_start_pos == p)
	same(v, "header", c.raw_header, F, p, hl)
	same(v, "fourcc", c.fourcc, F, p + 8 if islist else p, 4)
	v.check("list", isinstance(c, m.RiffList) == islist)
	v.check("kind-list", (r.chunk_type == m.RiffChunkType.List) == islist)
	if r.mode == m.RiffReadMode.Sample and not bool(first == b"RIFF"):
		v.check("sample-chunk-inside-the-file", p + 8 + L0 <= N)
	q = f.tell()
	v.check("behind-the-header", v.And(q >= p + 8, q == v.ite(p + hl > N, N, p + hl)))
	movi = not islist and bool(v.And(F[p] >= 48, F[p] <= 57, F[p + 1] >= 48, F[p + 1] <= 57))
	v.check("kind-movi", (r.chunk_type == m.RiffChunkType.Movi) == movi)
	if movi:
		v.check("stream-number", c.stream_number == (F[p] - 48) * 10 + F[p + 1] - 48)
	gone = movi and r.mode == m.RiffReadMode.SRS     # its content is not in the file
	body = 0 if gone else L
	pad = L % 2
	full = q + body + pad <= N
	if op == "child":
		out = v.call(r.move_to_child)
		v.expect("child", out, AssertionError)
		v.check("child-only-of-lists", out.ok == islist)
		v.check("child-starts-behind-the-header", f.tell() == q)
		return
	if op == "again":
		if not full or gone:
			return
		v.expect("skip", v.call(r.skip_contents))
		v.check("skip-ends", f.tell() == q + body + pad)
	out = v.call(r.skip_contents if op == "skip" else r.read_contents)
	v.expect("content", out, *DATA)
	if not out.ok:
		v.check("content-error-only-when-cut-off", v.Not(full))
		return
	if op != "skip":
		if gone:
			v.check("removed-content", out.value is None)
		else:
			same(v, "content-bytes", out.value, F, q, L)
	if full:
		v.check("same-place-after-read-or-skip", f.tell() == q + body + pad)
		if pad == 1:
			v.check("padding-byte", r.padding_byte == F[q + body])
		v.check("padding-noted", r.has_padding == (pad == 1))
	else:
		v.check("cut-off-content-ends-the-walk", f.tell() >= N)
		out = v.call(r.read)
		v.check("walk-ends", out.ok and out.value == False)

# -- MP4 ----------------------------------------------------------------------
O = "resample.mov.MovReader."

@each("mov_step", [O + "__init__", O + "read", O + "read_contents",
	O + "skip_contents", O + "move_to_child"], ["read", "skip", "child", "again"])
def mov_step(v, op):
	m, F, f, r, p = setup(v, "resample.mov", lambda m, f: m.MovReader(
		v.choice("mode", [m.MovReadMode.MP4, m.MovReadMode.Sample, m.MovReadMode.SRS]),
		stream=f))
	if r is None:
		return
	N = v.len(F)
	out = v.call(r.read)
	v.expect("read", out, *DATA)
	if p + 8 > N:
		v.check("stops-at-the-end", v.And(out.ok, out.value == False))
		return
	L0 = be(F, p, 4)
	typ = F[p + 4:p + 8]
	hl, size = 8, L0
	bad = False
	if L0 == 1:
		hl = 16
		if p + 16 > N:
			bad = True
		else:
			size = be(F, p + 8, 8)
	elif L0 == 0:
		if typ == b"\0\0\0\0":
			size = 8
		else:
			size = N - p
	if bad:
		v.check("cut-off-header-is-an-error", not out.ok)
		return
	mdat = bool(typ == b"mdat")
	if not out.ok:
		v.check("error-only-for-malformed-data", v.Or(size < hl, p + size > N))
		return
	v.check("element-reported", out.value == True)
	a = r.current_atom
	v.check("size", v.And(a.size == size, a.size >= hl))
	v.check("starts-where-the-previous-ended", a.start_pos == p)
	v.check_eq("type", a.type, typ)
	same(v, "header", a.raw_header, F, p, hl)
	if r.mode == m.MovReadMode.Sample and not mdat:
		v.check("sample-atom-inside-the-file", p + size <= N)
	gone = mdat and r.mode == m.MovReadMode.SRS
	end = p + (hl if gone else size)
	if op == "child":
		v.expect("child", v.call(r.move_to_child))
		v.check("child-starts-behind-the-header", f.tell() == p + hl)
		return
	if op == "again":
		out = v.call(r.skip_contents)
		v.expect("skip", out, *DATA)
		if not out.ok:
			v.check("skip-error-only-when-cut-off", end > N)
			return
	out = v.call(r.skip_contents if op == "skip" else r.read_contents)
	if mdat and not gone and op != "skip":
		v.check("media-data-is-read-in-chunks", not out.ok)
		return
	v.expect("content", out, *DATA)
	if not out.ok:
		v.check("content-error-only-when-cut-off", end > N)
		return
	if op != "skip":
		same(v, "content-bytes", out.value, F, p + hl, end - p - hl)
	if end <= N:
		v.check("same-place-after-read-or-skip", f.tell() == end)
	else:
		v.check("cut-off-content-ends-the-walk", f.tell() >= N)
		out = v.call(r.read)
		v.check("walk-ends", out.ok and out.value == False)
	v.check("progress", f.tell() >= p + 8)

class Chunks(LoopSpec):
	"""the chunks so far are the bytes from the header to the position"""
	def __init__(self, st):
		self.st = st
	def inv(self, v, L, name):
		st = self.st
		todo = L["todo"]
		v.check(name + ":nothing-skipped", st.seen == st.f.tell() - st.begin)
		v.check(name + ":rest", v.And(todo >= 0, todo <= L["end_offset"] - st.begin))
		v.check(name + ":not-beyond", st.f.tell() <= L["end_offset"])
		v.check(name + ":rest-follows", v.Or(todo + st.f.tell() == L["end_offset"],
			st.f.tell() >= st.N))
	def havoc(self, v, L):
		st = self.st
		d = v.fresh_int("done", 0)
		st.seen = d
		st.f.seek(st.begin + d)
		todo = L["todo"] = v.fresh_int("todo", 0)
		v.assume(v.Or(st.begin + d <= st.N, d == 0))
		v.assume(v.And(todo <= L["end_offset"] - st.begin, st.begin + d <= L["end_offset"]))
		v.assume(v.Or(todo + st.f.tell() == L["end_offset"], st.f.tell() >= st.N))
	def variant(self, v, L):
		return L["todo"]
	def frame(self, v, L):
		return [(self.st.f, "pos")]

class St(object):
	pass

@contract("C17", "mov_media_data_chunks", [O + "read_contents_chunks"], iters=60)
def mov_chunks(v):
	"""The media data comes in consecutive pieces that cover it, and the generator
	ends for any announced size."""
	m = v.mod("resample.mov")
	F = v.bytes("file", 0, None, 80)
	f = v.file(F)
	N = v.len(F)
	r = m.MovReader(v.choice("mode", [m.MovReadMode.MP4, m.MovReadMode.Sample]), stream=f)
	p = v.int("pos", 0, None if v.symbolic else len(F))
	hl = v.choice("hl", [8, 16])
	v.assume(p + hl <= N)
	size = v.int("size", hl, 2 ** 64 if v.symbolic else 200)
	a = m.Atom(size, b"mdat")
	a.raw_header, a.start_pos = F[p:p + hl], p
	r.current_atom, r.atom_type, r.read_done = a, b"mdat", False
	f.seek(p)
	n = v.int("chunk", 1, 70000 if v.symbolic else 30)
	st = St()
	st.f, st.begin, st.N, st.seen = f, p + hl, N, 0
	v.loop(O + "read_contents_chunks", 0, Chunks(st))
	def walk():
		for x in r.read_contents_chunks(n):
			# a reader of the chunks only reads; it leaves the position alone
			same(v, "piece", x, F, st.begin + st.seen, n if st.begin + st.seen + n <= p + size
				else p + size - st.begin - st.seen)
			v.check("piece-size", v.len(x) <= n)
			v.check("progress", v.Or(v.len(x) >= 1, st.begin + st.seen >= N))
			st.seen = st.seen + v.len(x)
	v.expect("chunks", v.call(walk))
	if p + size <= N:
		v.check("all-of-it", st.seen == size - hl)
		v.check("ends-behind-the-atom", f.tell() == p + size)
	v.check("marked-read", r.read_done == True)

# -- FLAC ---------------------------------------------------------------------
X = "resample.flac.FlacReader."

@each("flac_step", [X + "__init__", X + "read", X + "read_contents",
	X + "skip_contents", X + "read_part", "resample.mp3.decode_id3_size"],
	["read", "skip", "again", "part"])
def flac_step(v, op):
	m, F, f, r, p = setup(v, "resample.flac", lambda m, f: m.FlacReader(stream=f))
	if r is None:
		return
	N = v.len(F)
	out = v.call(r.read)
	v.expect("read", out, *DATA)
	if p >= N:
		v.check("stops-at-the-end", v.And(out.ok, out.value == False))
		return
	if p + 4 <= N:
		h = F[p:p + 4]
		if h == b"fLaC":
			hl, size, typ = 4, 0, "fLaC"
		elif h[:3] == b"ID3":
			if p + 10 > N:
				v.check("cut-off-header", v.Or(not out.ok, True))
				return
			hl, typ = 10, "ID3"
			bits = v.And(*[F[p + i] < 128 for i in range(6, 10)])
			size = None
			if bits:
				size = ((F[p + 6] * 128 + F[p + 7]) * 128 + F[p + 8]) * 128 + F[p + 9]
		elif h[:3] == b"TAG":
			hl, size, typ = 0, 128, "TAG"
		elif F[p] == 255:
			hl, size, typ = 0, N - p, 255
			if N - p > 128:
				if F[N - 128:N - 125] == b"TAG":
					size = N - p - 128
		else:
			hl, size, typ = 4, be(F, p + 1, 3), None
	else:
		hl, size, typ = None, None, None
	if not out.ok:
		if hl == 4 and typ is None:
			v.check("error-only-for-malformed-data", p + size > N)
		elif typ in ("fLaC", "TAG", 255):
			v.fail("error-only-for-malformed-data", str(out.exc))
		return
	v.check("element-reported", out.value == True)
	b = r.current_block
	v.check("starts-where-the-previous-ended", b.start_pos == p)
	if hl is None:
		hl = v.len(b.raw_header)
		same(v, "short-header", b.raw_header, F, p, hl)
		return
	if size is None:
		v.check("size-not-negative", b.size >= 0)
		size = b.size
	v.check("size", b.size == size)
	same(v, "header", b.raw_header, F, p, hl)
	v.check("kind", b.type == (F[p] if typ is None else typ))
	v.check("progress", hl + size >= 1)
	end = p + hl + size
	if op == "part":
		off = v.int("offset", 0, 2 ** 32)
		n = v.int("n", 0, 2 ** 32)
		at = f.tell()
		out = v.call(r.read_part, n, off)
		v.expect("part", out)
		same(v, "part-bytes", out.value, F, p + hl + off, n)
		v.check("part-leaves-the-position", f.tell() == at)
		return
	if op == "again":
		out = v.call(r.skip_contents)
		v.expect("skip", out, *DATA)
		if not out.ok:
			v.check("skip-error-only-when-cut-off", end > N)
			return
	out = v.call(r.skip_contents if op == "skip" else r.read_contents)
	v.expect("content", out, *DATA)
	if not out.ok:
		v.check("content-error-only-when-cut-off", end > N)
		return
	if op != "skip":
		same(v, "content-bytes", out.value, F, p + hl, size)
	if end <= N:
		v.check("same-place-after-read-or-skip", f.tell() == end)
	else:
		v.check("cut-off-content-ends-the-walk", f.tell() >= N)
		out = v.call(r.read)
		v.expect("next-read", out, *DATA)
		v.check("walk-ends", not out.ok or out.value == False)

# -- Matroska -----------------------------------------------------------------
E = "resample.ebml."
B = E + "EbmlReader."

class Laced(LoopSpec):
	"""any header: what was counted as consumed is what was read from the stream"""
	def __init__(self, f):
		self.f = f
	def start(self, v, L):
		self.least = L["bytes_consumed"]
		self.pos0 = self.f.pos - self.least
	def inv(self, v, L, name):
		v.check(name + ":consumed", L["bytes_consumed"] == self.f.pos - self.pos0)
		v.check(name + ":forward", L["bytes_consumed"] >= self.least)
	def havoc(self, v, L):
		n = v.ctx.fresh("sizes")
		g = z3.Function(n, z3.IntSort(), z3.IntSort())
		L["frame_sizes"] = SymMList(n, mkz(zx(L.n)), lambda k: mk(g(zx(k))))
		bc = v.fresh_int("bc", self.least)
		L["bytes_consumed"] = bc
		self.f.pos = self.pos0 + bc
	def frame(self, v, L):
		return [(self.f, "pos")]

class LacedXiph(LoopSpec):
	def __init__(self, o):
		self.o = o
	def inv(self, v, L, name):
		f = self.o.f
		v.check(name + ":consumed", L["bytes_consumed"] == f.pos - self.o.pos0)
		v.check(name + ":forward", L["bytes_consumed"] >= self.o.least)
	def havoc(self, v, L):
		f = self.o.f
		L["nextByte"] = v.fresh_int("nb", 0, 255)
		bc = v.fresh_int("bc", self.o.least)
		L["bytes_consumed"] = bc
		f.pos = self.o.pos0 + bc
		L["frame_sizes"].writes.append((zx(L["i"]), v.fresh_int("size")))
	def variant(self, v, L):
		f = self.o.f
		return v.ite(f.pos > v.len(f.node.content), 0, v.len(f.node.content) - f.pos)
	def frame(self, v, L):
		return [(self.o.f, "pos")]

class LacedMinus(LoopSpec):
	def inv(self, v, L, name):
		pass
	def havoc(self, v, L):
		L["frame_sizes"].writes.append((zx(L["i"]), v.fresh_int("size")))

@contract("C17", "lacing_of_any_header", [E + "GetBlockFrameLengths", E + "GetEbmlUIntStream",
	E + "GetUIntLength"], budget=120)
def lacing_any(v):
	"""For every lacing header, malformed ones included: the sizes are returned
	and the stream has advanced by the number of bytes reported, or a data error."""
	m = v.mod("resample.ebml")
	lace = v.choice("lace", [0, 2, 4, 6])
	D = v.int("data_length", -2 ** 20, 2 ** 56)
	F = v.bytes("file", 0, None, 60)
	f = v.file(F)
	p = v.int("pos", 0, None if v.symbolic else len(F))
	v.assume(p <= v.len(F))
	f.seek(p)
	if lace != 0:
		o = Laced(f)
		q = E + "GetBlockFrameLengths"
		v.loop(q, 0, o)
		v.loop(q, 1, LacedXiph(o))
		v.loop(q, 2, LacedMinus())
		v.loop(q, 3, LacedMinus())
	else:
		v.loop(E + "GetBlockFrameLengths", 0, None)
	out = v.call(m.GetBlockFrameLengths, lace, D, f)
	v.expect("sizes-or-data-error", out, *DATA)
	if out.ok:
		v.check("advanced-by-what-is-reported", out.value[1] == f.tell() - p)
		v.check("forward", out.value[1] >= 0)
		v.check("counted", out.value[1] >= (0 if lace == 0 else 1))

def descriptor(v, st):
	"""contract of GetUIntLength (C14 ebml_uint_decode_value): the position of the
	highest bit of a byte, 0 for the zero byte"""
	def length(d):
		v.check("descriptor-is-a-byte", v.And(d >= 0, d <= 255))
		return v.ite(d >= 128, 1, v.ite(d >= 64, 2, v.ite(d >= 32, 3, v.ite(d >= 16, 4,
			v.ite(d >= 8, 5, v.ite(d >= 4, 6, v.ite(d >= 2, 7, v.ite(d >= 1, 8, 0))))))))
	return length

@each("ebml_step", [B + "__init__", B + "read", B + "read_contents", B + "skip_contents",
	B + "move_to_child"], [o + k for k in ("", "_block", "_cut") for o in ("read", "skip", "child",
	"again") if k != "_cut" or o in ("read", "skip")], budget=150)
def ebml_step(v, op):
	op, _, kind = op.partition("_")
	m, F, f, r, p = setup(v, "resample.ebml", lambda m, f: m.EbmlReader(
		v.choice("mode", [m.EbmlReadMode.MKV, m.EbmlReadMode.Sample, m.EbmlReadMode.SRS]),
		stream=f))
	N = v.len(F)
	if p + 2 <= N:
		block = v.Or(F[p] == 0xA1, F[p] == 0xA3)
		v.assume(block if kind else v.Not(block))
		block = bool(kind)
	elif kind:
		return
	length = descriptor(v, None)
	vals = []
	lace_n = v.int("lacing", 0)
	if kind:
		# the block header lies within the file or (cut) it does not
		sl = length(F[p + 1])
		tl = 1
		if v.And(sl >= 1, p + 1 + sl < N):
			tl = length(F[p + 1 + sl])
			tl = v.ite(tl == 0, 1, tl)
		inside = v.And(sl >= 1, p + 1 + sl + tl + 3 + lace_n <= N)
		v.assume(inside if kind == "block" else v.Not(inside))
	v.stub(E + "GetUIntLength", length)
	def uint(buff, offset, count):
		# contract of GetEbmlUInt (C14): the number in these bytes, below 2^(7 count)
		x = v.fresh_int("uint", 0)
		v.ctx.axiom(x.e < 2 ** 56)
		if v.len(buff) < offset + count or v.len(buff) <= offset:
			raise struct.error("too short")
		vals.append((x, buff[offset:offset + count], count))
		return x
	v.stub(E + "GetEbmlUInt", uint)
	laces = []
	def lacing(lace, dlen, stream):
		# contract lacing_of_any_header
		if bool(v.int("lacing-error", 0, 1) == 1):
			raise struct.error("cut off")
		n = lace_n
		v.assume(v.Or(n == 0, stream.pos + n <= N))
		laces.append((stream.pos, n, dlen, lace))
		stream.pos = stream.pos + n
		return ["sizes"], n
	v.stub(E + "GetBlockFrameLengths", lacing)
	out = v.call(r.read)
	v.expect("read", out, *DATA)
	if p + 2 > N:
		v.check("stops-at-the-end", v.And(out.ok, out.value == False))
		return
	il = length(F[p])
	whole = v.And(F[p] >= 1, p + il < N)          # the identifier is there
	if not bool(whole):
		v.check("cut-off-identifier", not out.ok or out.value == False)
		return
	sl = length(F[p + il])
	hl = il + sl
	whole = v.And(sl >= 1, p + hl <= N)
	if not bool(whole):
		v.check("cut-off-size", not out.ok)
		return
	ident = F[p:p + il]
	if v.symbolic:
		v.check("size-field-read", len(vals) >= 1)
		L = vals[0][0]
		v.check_eq("size-field", vals[0][1], F[p + il:p + hl])
	else:
		L = be(F, p + il, sl) - (1 << (7 * sl))
	end = p + hl + L
	if not out.ok:
		v.check("error-only-for-malformed-data", v.Or(end > N, block))
		if block and end <= N and not laces and v.symbolic:
			# the block has no room for its own header
			v.check("block-error-only-without-header", v.Or(F[p + hl] == 0 if bool(p + hl < N)
				else True, p + hl + length(F[p + hl]) + 3 > N if bool(p + hl < N) else True,
				bool(v.int("lacing-error", 0, 1) == 1)))
		return
	v.check("element-reported", out.value == True)
	c = r.current_element
	v.check("starts-where-the-previous-ended", c.element_start_pos == p)
	same(v, "header", c.raw_header, F, p, hl)
	v.check("kind", (r.element_type == m.EbmlElementType.Block) == block)
	bh = 0
	if block:
		tl = v.ite(F[p + hl] > 0, length(F[p + hl]), 1) if p + hl < N else 1
		if kind == "cut":
			# what is left of the header is reported; nothing beyond the file
			v.check("cut-off-block", v.And(c.element_start_pos == p, f.tell() >= p + hl,
				c.length >= 0, c.length <= L))
			v.expect("content", v.call(r.skip_contents if op == "skip" else r.read_contents))
			v.check("progress", f.tell() >= p + 2)
			return
		if v.symbolic:
			bh = tl + 3 + laces[0][1]
			v.check("lacing-follows-the-block-header", v.And(laces[0][0] == p + hl + tl + 3,
				laces[0][2] == L - tl - 3))
			v.check("lace-type", laces[0][3] == (F[p + hl + tl + 2] // 2 % 4) * 2)
			v.check("track-number", c.track_number == vals[1][0])
			if F[p + hl] > 0:
				v.check_eq("track-number-field", vals[1][1], F[p + hl:p + hl + tl])
			v.check("timecode", c.timecode == F[p + hl + tl] * 256 + F[p + hl + tl + 1])
		else:
			bh = v.len(c.raw_block_header)
		same(v, "block-header", c.raw_block_header, F, p + hl, bh)
	v.check("content-length", v.And(c.length == L - bh, c.length >= 0))
	q = p + hl + bh
	v.check("behind-the-header", f.tell() == q)
	if r.mode == m.EbmlReadMode.Sample and r.element_type != m.EbmlElementType.Segment:
		v.check("sample-element-inside-the-file", end <= N)
	gone = block and r.mode == m.EbmlReadMode.SRS
	stop = q if gone else end
	if op == "child":
		v.expect("child", v.call(r.move_to_child))
		v.check("child-starts-behind-the-header", f.tell() == q)
		return
	if op == "again":
		if gone or end > N:
			return
		v.expect("skip", v.call(r.skip_contents))
		v.check("skip-ends", f.tell() == end)
	out = v.call(r.skip_contents if op == "skip" else r.read_contents)
	v.expect("content", out)
	if op != "skip":
		if gone:
			v.check("removed-content", out.value is None)
		else:
			same(v, "content-bytes", out.value, F, q, c.length)
	v.check("progress", f.tell() >= p + 2)
	if stop <= N:
		v.check("same-place-after-read-or-skip", f.tell() == stop)
	else:
		v.check("cut-off-content-ends-the-walk", f.tell() >= N)
		out = v.call(r.read)
		v.check("walk-ends", out.ok and out.value == False)

# -- SRS of bare streams ------------------------------------------------------
T = "resample.stream.StreamReader."

class Found(object):
	"""The blocks found so far, and those found in this iteration."""
	vc_ghost = True
	def __init__(self):
		self.new = []
	def append(self, b):
		self.new.append(b)

class StreamLoop(LoopSpec):
	"""blocks are consecutive: each one found starts where the previous ended"""
	def __init__(self, v, F, f):
		self.F, self.f, self.p0 = F, f, None
	def inv(self, v, L, name):
		r, pos, N = L["self"], L["pos"], v.len(self.F)
		v.check(name + ":inside", v.And(pos >= 0, pos <= N))
		v.check(name + ":position", self.f.tell() == pos)
		new = r.blocks.new if isinstance(r.blocks, Found) else r.blocks
		if self.p0 is None:
			v.check(name + ":starts-empty", len(new) == 0)
			v.check(name + ":starts-at-the-begin", pos == 0)
			return
		p = self.p0
		v.check(name + ":one-block-each", len(new) == 1)
		b = new[0]
		v.check(name + ":starts-where-the-previous-ended", b.start_pos == p)
		size = le(self.F, p + 4, 4)
		v.check(name + ":size", b.size == v.ite(v.And(p == 0, size == 0), 8, size))
		v.check(name + ":next-follows", v.And(pos == p + b.size, pos >= p + 8))
	def havoc(self, v, L):
		p = self.p0 = v.fresh_int("pos", 0)
		v.assume(p <= v.len(self.F))
		L["pos"] = p
		self.f.pos = p
		r = L["self"]
		v.ctx.undo.append(lambda: None)
		r.blocks = Found()
	def variant(self, v, L):
		return v.len(self.F) - L["pos"]
	def frame(self, v, L):
		return [(self.f, "pos"), (L["self"], "*")]

@contract("C17", "stream_reader", [T + "__init__", T + "read_contents"])
def stream_reader(v):
	"""An SRS for bare streams divides into consecutive blocks of at least their
	header that end with the file, or is refused."""
	m = v.mod("resample.stream")
	F = v.bytes("file", 0, None, 60)
	f = v.file(F)
	N = v.len(F)
	v.loop(T + "__init__", 0, StreamLoop(v, F, f))
	out = v.call(m.StreamReader, stream=f)
	v.expect("opens", out, *DATA)
	if not out.ok:
		return
	r = out.value
	if not v.symbolic:
		p = 0
		for b in r.read():
			v.check("consecutive", b.start_pos == p and b.size >= 8)
			p += b.size
			same(v, "content", r.read_contents(), F, b.start_pos + 8, b.size - 8)
		v.check("covers", p == N)
		return
	# any block of the division
	p, size = v.int("block", 0), v.int("size", 8)
	v.assume(p + size <= N)
	r.current_block = m.Block(size, "SRSF", p)
	out = v.call(r.read_contents)
	v.expect("content", out)
	same(v, "content-bytes", out.value, F, p + 8, size - 8)

@contract("C17", "stream_reader_accepts", [T + "__init__"])
def stream_accepts(v):
	"""A well-formed SRS (marker block, then known blocks that fill the file) is
	accepted: no step of the division refuses it."""
	m = v.mod("resample.stream")
	F = v.bytes("file", 0, None, 60)
	f = v.file(F)
	N = v.len(F)
	if not v.symbolic:
		return
	lp = StreamLoop(v, F, f)
	v.loop(T + "__init__", 0, lp)
	out = v.call(m.StreamReader, stream=f)
	if out.ok:
		return
	p = lp.p0
	fits = v.And(p + 8 <= N)
	if not fits:
		return
	size = le(F, p + 4, 4)
	mark = F[p:p + 4]
	v.check("refused-only-when-malformed", v.Or(p + size > N, v.And(size < 8,
		v.Or(p > 0, size > 0)), v.And(p == 0, v.Not(v.Or(mark == b"STRM", mark == b"M2TS")))))

# -- WMV ----------------------------------------------------------------------
A = "resample.asf."
AR = A + "AsfReader."

def asf_guid(v, F, p, g):
	return F[p:p + 16] == g

@each("asf_step", [AR + "__init__", AR + "read", AR + "read_contents", AR + "skip_contents",
	AR + "move_to_child", AR + "read_data_part"], ["read", "skip", "child", "again", "part"])
def asf_step(v, op):
	m, F, f, r, p = setup(v, "resample.asf", lambda m, f: m.AsfReader(
		v.choice("mode", [m.AsfReadMode.WMV, m.AsfReadMode.Sample, m.AsfReadMode.SRS]),
		stream=f))
	N = v.len(F)
	header = data = False
	if p + 24 <= N:
		header = bool(asf_guid(v, F, p, m.GUID_HEADER_OBJECT))
		data = bool(asf_guid(v, F, p, m.GUID_DATA_OBJECT))
		if data and r.mode == m.AsfReadMode.SRS:
			return           # asf_srs_data
	out = v.call(r.read)
	v.expect("read", out, *DATA)
	if p + 24 > N:
		v.check("stops-at-the-end", v.And(out.ok, out.value == False))
		return
	size = le(F, p + 16, 8)
	hl = 30 if header else 50 if data else 24
	whole = p + hl <= N
	if not out.ok:
		bad = v.Or(size < hl, p + size > N)
		if data and whole:
			packets = le(F, p + 40, 8)
			bad = v.Or(bad, packets == 0, packets > size)
		v.check("error-only-for-malformed-data", bad)
		return
	v.check("element-reported", out.value == True)
	c = r.current_object
	v.check("starts-where-the-previous-ended", c.start_pos == p)
	v.check_eq("kind", c.type, F[p:p + 16])
	same(v, "header", c.raw_header, F, p, hl)
	if not whole:
		v.check("cut-off-header", v.And(c.size >= 24, p + c.size >= N))
		return
	v.check("size", v.And(c.size == v.ite(size < hl, hl, size), c.size >= 24))
	size = c.size
	if r.mode == m.AsfReadMode.Sample and not data:
		v.check("sample-object-inside-the-file", v.Or(p + size <= N, size == hl))
	end = p + size
	if op == "child":
		v.expect("child", v.call(r.move_to_child))
		v.check("child-starts-behind-the-header", f.tell() == p + hl)
		return
	if op == "part":
		o, n = v.int("offset", 0, 2 ** 62), v.int("n", 0, 2 ** 62)
		out = v.call(r.read_data_part, o, n)
		v.expect("part", out)
		same(v, "part-bytes", out.value, F, o, n)
		v.check("part-done-at-the-end", r.read_done == (o + n == end))
		return
	if op == "again":
		out = v.call(r.skip_contents)
		v.expect("skip", out, *DATA)
		if not out.ok:
			v.check("skip-error-only-when-cut-off", end > N)
			return
	out = v.call(r.skip_contents if op == "skip" else r.read_contents)
	v.expect("content", out, *DATA)
	if not out.ok:
		v.check("content-error-only-when-cut-off", end > N)
		return
	if op != "skip":
		same(v, "content-bytes", out.value, F, p + hl, size - hl)
	v.check("progress", f.tell() >= p + 24)
	if end <= N:
		v.check("same-place-after-read-or-skip", f.tell() == end)
	else:
		v.check("cut-off-content-ends-the-walk", f.tell() >= N)
		out = v.call(r.read)
		v.check("walk-ends", out.ok and out.value == False)

class SrsPackets(LoopSpec):
	"""every packet left in the SRS takes at least one byte of the file"""
	def __init__(self, st):
		self.st = st
	def inv(self, v, L, name):
		st = self.st
		v.check(name + ":counted", v.And(L["rp_offsets"] == st.sum, L["rp_offsets"] >= L.k))
	def havoc(self, v, L):
		st = self.st
		st.sum = L["rp_offsets"] = v.fresh_int("rp", 0)
		v.assume(st.sum >= L.k)
		st.f.pos = v.fresh_int("at", 0)
	def frame(self, v, L):
		return [(self.st.f, "pos")]

@contract("C17", "asf_srs_data", [AR + "read", AR + "read_contents", AR + "skip_contents"])
def asf_srs_data(v):
	"""The data object of an SRS: its size is that of its header and of the packets
	that are left, one after the other; each step of the count uses up file data."""
	if not v.symbolic:
		return
	m = v.mod("resample.asf")
	F = v.bytes("file", 0, None)
	f = v.file(F)
	N = v.len(F)
	p = v.int("pos", 0)
	v.assume(p + 24 <= N)
	v.assume(asf_guid(v, F, p, m.GUID_DATA_OBJECT))
	r = m.AsfReader(m.AsfReadMode.SRS, stream=f)
	f.seek(p)
	st = St()
	st.f, st.N, st.sum = f, N, 0
	def packet(pk, psize, mode):
		# contract asf_packet: an error (always when no data is left), or at least one byte
		v.check("packet-mode", mode == m.AsfReadMode.SRS)
		v.check("packet-follows", pk.data_file_offset == p + 50 + st.sum)
		same(v, "packet-data", pk.data, F, p + 50 + st.sum, N)
		if bool(v.len(pk.data) == 0) or bool(v.int("bad-packet", 0, 1) == 1):
			raise struct.error("cut off")
		s = v.fresh_int("used", 1)
		st.sum = st.sum + s
		return s
	v.stub(A + "asf_data_get_packet", packet)
	v.loop(AR + "read", 0, SrsPackets(st))
	out = v.call(r.read)
	v.expect("read", out, *DATA)
	if not out.ok:
		return
	c = r.current_object
	v.check("starts-where-the-previous-ended", c.start_pos == p)
	same(v, "header", c.raw_header, F, p, 50)
	v.check("size", c.size == 50 + st.sum)
	v.expect("skip", v.call(r.skip_contents))
	v.check("same-place", f.tell() == p + c.size)
	out = v.call(r.read_contents)
	v.expect("content", out)
	same(v, "content-bytes", out.value, F, p + 50, st.sum)
	if p + c.size <= N:
		v.check("same-place-after-read", f.tell() == p + c.size)
	else:
		v.check("cut-off-content-ends-the-walk", f.tell() >= N)

@contract("C17", "asf_variable_fields", [A + "getlen2b", A + "getvalue2b"])
def asf_fields(v):
	"""0, 1, 2 or 4 bytes, little endian; an error when they are not there."""
	m = v.mod("resample.asf")
	bits = v.int("bits", 0, 3)
	data = v.bytes("data", 0, None, 10)
	w = m.getlen2b(bits)
	v.check("width", w == v.ite(bits == 3, 4, bits))
	out = v.call(m.getvalue2b, bits, data)
	v.expect("value", out, *DATA)
	if v.symbolic:
		w = int(w)
	v.check("error-only-when-cut-off", out.ok == (v.len(data) >= w))
	if out.ok:
		v.check("little-endian", out.value == le(data, 0, w))

@contract("C17", "asf_packet", [A + "asf_data_get_packet", A + "asf_data_read_packet_fields"],
	budget=100)
def asf_packet(v):
	"""One data packet: its header and payload data divide it, or a data error."""
	m = v.mod("resample.asf")
	pk = m.AsfDataPacket()
	D = pk.data = v.bytes("data", 0, None, 60)
	size = v.int("size", 0, 2 ** 64 if v.symbolic else 70)
	mode = v.choice("mode", [m.AsfReadMode.WMV, m.AsfReadMode.Sample, m.AsfReadMode.SRS])
	srs = mode == m.AsfReadMode.SRS
	got = []
	def payloads(packet, multiple, prop, data, dlen, md):
		# contract asf_payloads
		v.check("payload-mode", md == mode)
		if bool(v.int("bad-payload", 0, 1) == 1):
			raise ValueError("payload")
		s = v.fresh_int("used", 0)
		got.append((prop, data, dlen, s))
		packet.payloads = SymList.ints(v.ctx.fresh("payloads"), ze(packet.payload_count))
		return s
	v.stub(A + "asf_data_read_payloads", payloads)
	w = widths(v, m) if v.symbolic else m.getlen2b
	out = v.call(m.asf_data_get_packet, pk, size, mode)
	v.expect("packet", out, *DATA)
	if v.len(D) == 0:
		v.check("no-data-is-an-error", not out.ok)
	if not out.ok or not v.symbolic:
		return
	prop, data, dlen, s = got[0]
	# 1 error correction flags, 2 error correction data, 2 flags, then the fields
	fl = D[3]
	h = 5 + w(fl // 2 % 4) + w(fl // 8 % 4) + w(fl // 32 % 4) + 6
	h = h + v.ite(fl % 2 == 1, 1, 0)
	v.check("property-byte", prop == D[4])
	v.check("error-correction", v.And(D[0] == 0x82, pk.ec_length == 2))
	v.check("length-is-the-packet", pk.length == size)
	v.check("payload-data-length", pk.payload_data_len == size - h)
	same(v, "payload-data", data, D, h, v.len(D))
	v.check("padding", dlen == size - h - pk.padding_length)
	plen = field(v, w, fl // 32 % 4, D, 5)
	pad = field(v, w, fl // 8 % 4, D, 5 + w(fl // 32 % 4) + w(fl // 2 % 4))
	v.check("padding-of-the-packet", pk.padding_length == pad + v.ite(v.And(fl // 32 % 4 > 0,
		plen < size), size - plen, 0))
	v.check("payload-count", v.And(pk.payload_count >= 1, pk.payload_count <= 63))
	v.check("send-time", pk.send_time == le(D, h - 6 - v.ite(fl % 2 == 1, 1, 0), 4))
	if srs:
		v.check("header-and-payloads", v.And(out.value == h + s, out.value >= 1))
		v.check("header-length", pk.header_length == h)
	else:
		v.check("whole-packet", out.value == size)
		v.check("payloads-and-padding", s + pk.padding_length == size - h)
		v.check("all-data-there", v.len(D) == size)

class Pays(LoopSpec):
	"""the payloads so far divide the data before the position"""
	def __init__(self, st):
		self.st = st
	def at(self, v, L, name):
		st = self.st
		v.check(name + ":divided", L["skip"] == st.end)
	def inv(self, v, L, name):
		self.at(v, L, name)
		if self.st.began:
			v.check(name + ":progress", L["skip"] > self.st.skip0)
	def havoc(self, v, L):
		st = self.st
		st.began = True
		st.end = st.skip0 = L["skip"] = v.fresh_int("skip", 0)
		L["i"] = v.fresh_int("i", 0)
		p = st.packet
		p.payload_count = v.fresh_int("count", 1)
		p.payloads_size = v.fresh_int("psize", 1)
	def frame(self, v, L):
		return [(self.st.packet, "*")]

class Counting(LoopSpec):
	"""counts the compressed payloads"""
	def __init__(self, st):
		self.st = st
	def start(self, v, L):
		self.used0 = L["used"]
	def inv(self, v, L, name):
		v.check(name + ":sizes", v.And(L["used"] >= L["payloads"], L["payloads"] >= 0))
		if self.st.srs:
			v.check(name + ":one-size-byte-each", L["used_srs"] == L["payloads"])
	def havoc(self, v, L):
		L["payloads"] = v.fresh_int("payloads", 0)
		L["used"] = v.fresh_int("used", 0)
		v.assume(L["used"] >= L["payloads"])
		if self.st.srs:
			L["used_srs"] = L["payloads"]
	def variant(self, v, L):
		return v.ite(L["used"] > L["pl"].data_length, 0, L["pl"].data_length - L["used"])

class Compressed(LoopSpec):
	def __init__(self, st):
		self.st = st
	def start(self, v, L):
		self.first = L["pl"]
		self.skip0 = L["skip"]
		self.head = L["pl"].header_size
	def inv(self, v, L, name):
		st = self.st
		first = bool(L["idx"] == 0)
		v.check(name + ":divided", L["skip"] == st.end + (self.head if first else 0))
		v.check(name + ":count", v.And(L["idx"] >= 0, L["idx"] <= L["payloads"]))
		v.check(name + ":forward", L["skip"] >= self.skip0 + L["idx"])
		if first:
			v.check(name + ":first-header", L["pl"].header_size == self.head)
	def havoc(self, v, L):
		st = self.st
		idx = L["idx"] = v.fresh_int("idx", 0)
		v.assume(idx <= L["payloads"])
		L["i"] = v.fresh_int("i", 0)
		pl = self.cur = st.mod.AsfPayload()
		pl.pts = v.fresh_int("pts")
		L["pl"] = pl
		L["skip"] = v.fresh_int("skip", 0)
		if bool(idx == 0):
			pl.header_size = self.head
			L["skip"] = self.skip0
			# a compressed payload that holds none (malformed) is passed over
			st.end = self.skip0 - (0 if bool(L["payloads"] == 0) else self.head)
		else:
			pl.header_size = v.fresh_int("hs", 1)
			v.assume(L["skip"] >= self.skip0 + idx)
			st.end = L["skip"]
	def frame(self, v, L):
		return [(self.st.packet, "*"), (self.first, "*"), (self.cur, "*")]

class Pieces(object):
	"""The payload list: every payload appended lies right behind the previous one."""
	vc_ghost = True
	def __init__(self, v, st):
		self.v, self.st = v, st
	def append(self, pl):
		v, st = self.v, self.st
		D = st.data
		v.check("header-size", v.And(pl.header_size >= 1, v.len(pl.header_data) <= pl.header_size))
		same(v, "header-follows-the-previous-payload", pl.header_data, D, st.end, pl.header_size)
		a = st.end + pl.header_size
		if st.srs:
			st.end = a           # its data is not in the SRS
			return
		n = v.len(pl.data)
		if pl.data_length >= 0:
			same(v, "data-follows-its-header", pl.data, D, a, pl.data_length)
		st.end = a + pl.data_length

def field(v, w, bits, data, at):
	"""the little-endian number of w(bits) bytes at this place, which lies inside"""
	r = 0
	for i in range(3, -1, -1):
		b = mk(data.at(zx(ze(at)) + i)) if v.symbolic else data[at + i] if at + i < len(data) else 0
		r = v.ite(w(bits) > i, r * 256 + b, r)
	return r

def widths(v, m):
	"""contract asf_variable_fields"""
	w = lambda b: v.ite(b == 3, 4, b)
	v.stub(A + "getlen2b", w)
	def value(bits, data):
		if v.len(data) < w(bits):
			raise struct.error("cut off")
		return field(v, w, bits, data, 0)
	v.stub(A + "getvalue2b", value)
	return w

@contract("C17", "asf_payload_fields", [A + "asf_data_read_payload_fields"])
def asf_payload_fields(v):
	m = v.mod("resample.asf")
	w = widths(v, m) if v.symbolic else m.getlen2b
	data = v.bytes("data", 0, None, 16)
	size = v.int("size", -4, 2 ** 32)
	flags = v.int("flags", 0, 255)
	mode = v.choice("mode", [m.AsfReadMode.Sample, m.AsfReadMode.SRS])
	pl = m.AsfPayload()
	out = v.call(m.asf_data_read_payload_fields, pl, flags, data, size, mode)
	v.expect("fields", out, *DATA)
	n = w(flags % 4) + w(flags // 4 % 4) + w(flags // 16 % 4)
	if not out.ok:
		v.check("error-only-when-cut-off", v.Or(v.len(data) < n, v.And(n > size,
			mode == m.AsfReadMode.Sample)))
		return
	v.check("consumed", v.And(out.value == n, n <= v.len(data)))
	v.check("fields-are-numbers", v.And(pl.media_object_number >= 0,
		pl.media_object_offset >= 0, pl.replicated_length >= 0))

@contract("C17", "asf_payloads", [A + "asf_data_read_payloads"], budget=150)
def asf_payloads(v):
	"""The payload headers and payloads of a packet divide its payload data: each
	starts where the previous one ended; every step makes progress."""
	if not v.symbolic:
		return
	m = v.mod("resample.asf")
	st = St()
	st.mod, st.data = m, v.bytes("data", 0, None)
	pk = st.packet = m.AsfDataPacket()
	pk.payload_count = v.int("count", 1, 63)
	pk.send_time = v.int("send", 0, 2 ** 32 - 1)
	mode = v.choice("mode", [m.AsfReadMode.Sample, m.AsfReadMode.SRS])
	st.srs = mode == m.AsfReadMode.SRS
	st.end, st.began = 0, False
	pk.payloads = Pieces(v, st)
	multiple = v.choice("multiple", [0, 1])
	flags = v.int("property", 0, 255)
	dlen = v.int("datalen", 0)
	if not st.srs:
		v.assume(dlen <= v.len(st.data))      # what asf_packet passes
	def fields(pl, fl, data, size, md):
		# contract asf_payload_fields
		n = v.fresh_int("fields", 0, 12)
		if v.len(data) < n:
			raise struct.error("cut off")
		if not st.srs and bool(n > size):
			raise ValueError("length")
		pl.media_object_number = v.fresh_int("number", 0)
		pl.media_object_offset = v.fresh_int("offset", 0)
		pl.replicated_length = v.fresh_int("replicated", 0)
		return n
	v.stub(A + "asf_data_read_payload_fields", fields)
	q = A + "asf_data_read_payloads"
	v.loop(q, 0, Pays(st))
	v.loop(q, 1, Counting(st))
	v.loop(q, 2, Counting(st))
	v.loop(q, 3, Compressed(st))
	out = v.call(m.asf_data_read_payloads, pk, multiple, flags, st.data, dlen, mode)
	v.expect("payloads", out, *DATA)
	if out.ok:
		v.check("all-of-it", v.And(out.value == st.end, out.value >= 0))
