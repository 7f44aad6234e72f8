"""C18: the stream data of a sample is located in the main file and taken from it, one
element of the main file at a time.

The reader is a stand-in that hands out an element with any content (what the real readers
hand out: C17).  Signature, content and the state of the search so far are arbitrary."""
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc.values import SymBytes, ze, zx, mk
from contracts.samples import same_items

M = "resample.main."

class C(object):
	vc_ghost = True

def few(v, b):
	"""random runs: few different bytes, so that parts match"""
	if v.symbolic or getattr(v, "given", None):
		return b
	return bytes(x & 1 for x in b)

def opaque(v):
	"""equality of parts of texts by name, see SymBytes.opaque_eq"""
	if v.symbolic:
		v.ctx.shared["opaque"] = True

def lo(v, a, b):
	return v.ite(a < b, a, b)

def fits(v, S, X, p):
	"""the signature, as far as it goes, is at p of the content"""
	n = lo(v, v.len(S), v.len(X) - p)
	if not v.symbolic:
		return X[p:p + n] == S[:n]
	return v.And(S[:n] == X[p:p + n], v.Implies(n > 0, S[0] == X.byte_at(p)))

class Chunk(object):
	"""A reader on one element."""
	vc_ghost = True
	def __init__(self, v, X, **kw):
		self.v, self.X, self.log = v, X, []
		self.__dict__.update(kw)
	def read_contents(self):
		self.v.check("not-behind-the-element", "skip" not in self.log)
		self.log.append("read")
		return self.X
	def skip_contents(self):
		self.log.append("skip")

class FirstFit(LoopSpec):
	"""No place before found_pos fits: told for an arbitrary one, j."""
	def __init__(self, S, X, t, m0, names):
		self.S, self.X, self.t, self.m0 = S, X, t, m0
		self.pos, self.data = names
	def ruled_out(self, v, p):
		j = self.j
		n = v.len(self.X)
		return v.Implies(v.And(j >= 0, j < v.ite(p == -1, n, p)),
			v.Not(fits(v, self.S, self.X, j)))
	def inv(self, v, L, name):
		if name.endswith("entry"):
			self.j = v.fresh_int("anyplace")
		p = L[self.pos]
		X = L[self.data]
		v.check(name + ":whole-content", X is self.X)
		v.check(name + ":in-the-content", v.And(p >= -1, p < v.len(X)))
		v.assume(v.And(self.j >= 0, self.j < v.len(X)))
		X.nowhere_else(self.S[0], self.j)
		if name.endswith("preserved"):
			bool(self.j == self.was)
		v.check(name + ":no-place-before", self.ruled_out(v, p))
		v.check(name + ":not-yet-found", v.And(v.len(self.t.check_bytes) == 0,
			self.t.match_offset == self.m0[0]))
	def havoc(self, v, L):
		p = L[self.pos] = v.fresh_int("found_pos", -1)
		v.assume(p < v.len(self.X))
		self.was = p
		v.assume(self.ruled_out(v, p))
		L["lcb"] = L["check_bytes"] = None
		self.visited = True
		if p >= 0:
			v.assume(self.X[p] == self.S[0])
	def variant(self, v, L):
		p = L[self.pos]
		return v.ite(p < 0, 0, v.len(self.X) + 1 - p)
	def frame(self, v, L):
		return []

@contract("C18", "avi_find_step", [M + "_avi_normal_chunk_find"], budget=90, max_paths=20000)
def avi_find_step(v):
	"""A chunk of a track continues the match so far, or the first place of it that fits
	starts a new one."""
	m = v.mod("resample.main")
	opaque(v)
	v.patch(m, "show_spinner", lambda *a: None)
	S = few(v, v.bytes("signature", 0, None, 5))
	X = few(v, v.bytes("content", 0, None, 9))
	head = 8
	pos = v.int("chunk", 12, None if v.symbolic else 10 ** 5)
	t = m.TrackData()
	t.signature_bytes = S
	c = v.int("matched", 0, None if v.symbolic else len(S))
	v.assume(c <= v.len(S))
	t.check_bytes = S[:c] if c > 0 else b""
	t.match_offset = off = v.int("offset", 0, None if v.symbolic else 10 ** 5)
	v.assume((off == 0) == (c == 0))
	t.data_length = dl = v.int("data_length", 0, None if v.symbolic else 30)
	t.match_length = ml = v.int("match_length", 0, None if v.symbolic else 30)
	o = m.TrackData()
	o.data_length = v.int("other_length", 0, None if v.symbolic else 3)
	o.match_length = v.int("other_match", 0, None if v.symbolic else 3)
	number = v.int("number", 0, 99)
	oth = v.int("other_number", 0, 99)
	v.assume(number != oth)
	known = v.bool("known")
	chunk = C()
	chunk.stream_number = number
	chunk.length = v.len(X)
	chunk.chunk_start_pos = pos
	chunk.raw_header = b"x" * head
	r = Chunk(v, X, chunk_type=m.RiffChunkType.Movi, current_chunk=chunk)
	tracks = Numbers(v, {"o": (oth, o)})
	if known:
		tracks.add(number, t)
	spec = FirstFit(S, X, t, [0], ("found_pos", "chunk_bytes"))
	v.loop(M + "_avi_normal_chunk_find", 0, spec)
	done0 = v.bool("done")
	out = v.call(m._avi_normal_chunk_find, tracks, r, v.int("count", 0, 100), done0)
	v.expect("returns", out)
	tr, _, done = out.value
	v.check("same-tracks", same_items(tr, tracks))
	v.check("chunk-passed", r.log[-1:] == ["skip"] and r.log.count("skip") == 1)
	if not known:
		n = tracks[number]
		v.check("new-track", v.And(n.track_number == number, v.len(n.signature_bytes) == 0,
			n.data_length == 0))
		v.check("not-done", done == done0)
		return
	matched(v, S, X, c, off, t, pos + head, spec)
	if done and not done0:
		v.check("done-when-all-is-matched", v.And(t.match_length >= t.data_length,
			o.match_length >= o.data_length))

def matched(v, S, X, c, off, t, at, spec):
	"""what the track must know after this content"""
	s, L = v.len(S), v.len(X)
	if bool(s == 0) or bool(v.And(off != 0, c >= s)):
		v.check("complete-match-stays", v.And(t.match_offset == off, v.len(t.check_bytes) == c))
		return
	if c > 0:
		n = lo(v, s - c, L)
		ext = S[:c] + X[:n]
		if bool(S[:c + n] == ext):
			v.check("match-goes-on", v.And(S[:c + n] == t.check_bytes,
				v.len(t.check_bytes) == c + n))
			v.check("match-stays-where-it-began", t.match_offset == off)
			return
	if v.symbolic:
		if bool(t.match_offset == 0):
			if not spec.visited:
				v.check("nothing-fits", L == 0)
			else:
				v.check("nothing-fits", v.Not(v.And(spec.j >= 0, spec.j < L, fits(v, S, X,
					spec.j))))
			v.check("no-match", v.len(t.check_bytes) == 0)
			return
		p = t.match_offset - at
		v.check("in-this-content", v.And(p >= 0, p < L))
		v.check("fits", fits(v, S, X, p))
		v.check("matched-so-far", S[:lo(v, s, L - p)] == t.check_bytes)
		v.check("first-place-that-fits", v.Not(v.And(spec.j >= 0, spec.j < p, fits(v, S, X,
			spec.j))))
		return
	ps = [p for p in range(L) if fits(v, S, X, p)]
	v.check("no-match", bool(ps) == (t.match_offset != 0) == bool(t.check_bytes))
	if ps:
		v.check("first-place-that-fits", t.match_offset == at + ps[0])
		v.check_eq("matched-so-far", t.check_bytes, S[:min(s, L - ps[0])])

class Numbers(object):
	"""tracks by number"""
	vc_ghost = True
	def __init__(self, v, items):
		self.v, self.items_ = v, [list(x) for x in items.values()]
	def add(self, k, t):
		self.items_.append([k, t])
	def find(self, k):
		for x in self.items_:
			if bool(x[0] == k):
				return x
	def __contains__(self, k):
		return self.find(k) is not None
	def __getitem__(self, k):
		x = self.find(k)
		if x is None:
			raise KeyError(k)
		return x[1]
	def __setitem__(self, k, t):
		x = self.find(k)
		if x is None:
			self.items_.append([k, t])
		else:
			x[1] = t
	def values(self):
		return [x[1] for x in self.items_]
	def keys(self):
		return [x[0] for x in self.items_]
	def items(self):
		return [tuple(x) for x in self.items_]
	def __iter__(self):
		return iter(self.keys())

# -- taking the data ------------------------------------------------------------------
class Temp(object):
	"""The file the data of a track is collected in."""
	vc_ghost = True
	def __init__(self, v, data=b""):
		self.v, self.data = v, data
	def write(self, b):
		self.data = self.data + b
	def tell(self):
		return self.v.len(self.data)

class Temps(object):
	vc_ghost = True
	def __init__(self, v):
		self.v, self.made = v, []
	def TemporaryFile(self, *a):
		self.made.append(Temp(self.v))
		return self.made[-1]

def collected(v, t, name):
	"""some state of the collecting: no file yet, or one with any data"""
	if v.bool(name + "_begun"):
		t.track_file = Temp(v, v.bytes(name + "_data", 0, None, 12))

def have(v, t):
	return v.len(t.track_file.data) if t.track_file is not None else 0

def complete(v, tracks):
	return v.And(*[v.And(t.track_file is not None, have(v, t) >= t.data_length)
		for t in tracks])

@contract("C18", "avi_extract_step", [M + "_avi_normal_chunk_extract"], budget=90)
def avi_extract_step(v):
	"""Until a track is complete, every chunk of it gives what is at its match offset or behind
	it; nothing else is taken."""
	m = v.mod("resample.main")
	v.patch(m, "show_spinner", lambda *a: None)
	temps = Temps(v)
	v.patch(m, "tempfile", temps)
	X = v.bytes("content", 0, None, 12)
	pos = v.int("chunk", 0, None if v.symbolic else 40)
	head = 8
	t = m.TrackData()
	t.match_offset = off = v.int("offset", 0, None if v.symbolic else 60)
	t.data_length = v.int("data_length", 0, None if v.symbolic else 20)
	collected(v, t, "track")
	old = t.track_file.data if t.track_file else b""
	begun = t.track_file is not None
	o = m.TrackData()
	o.data_length = v.int("other_length", 0, None if v.symbolic else 9)
	collected(v, o, "other")
	obefore = o.track_file and o.track_file.data
	number = v.int("number", 0, 99)
	oth = v.int("other_number", 0, 99)
	v.assume(number != oth)
	kind = v.choice("kind", ["stream", "new", "other"])
	chunk = C()
	chunk.stream_number = number
	chunk.length = v.len(X)
	chunk.chunk_start_pos = pos
	chunk.raw_header = b"x" * head
	r = Chunk(v, X, chunk_type=m.RiffChunkType.Movi if kind != "other" else
		m.RiffChunkType.Index, current_chunk=chunk)
	tracks = Numbers(v, {"o": (oth, o)})
	if kind != "new":
		tracks.add(number, t)
	done0 = v.bool("done")
	out = v.call(m._avi_normal_chunk_extract, tracks, r, v.int("count", 0, 100), done0)
	v.expect("returns", out)
	tr, _, done = out.value
	v.check("same-tracks", same_items(tr, tracks))
	v.check("chunk-passed", r.log[-1:] == ["skip"] and r.log.count("skip") == 1)
	v.check("other-track-untouched", (o.track_file is None) == (obefore is None) and
		(obefore is None or o.track_file.data is obefore))
	if kind == "other":
		v.check("nothing-taken", not temps.made and (t.track_file is not None) == begun and
			(not begun or t.track_file.data is old))
		v.check("not-done", done == done0)
		return
	if kind == "new":
		n = tracks[number]
		v.check("new-track", v.And(n.track_number == number, n.data_length == 0))
		v.check("nothing-taken", have(v, n) == 0)
		t = n
	else:
		at = pos + head
		if bool(v.And(at + v.len(X) > off, v.len(old) < t.data_length)):
			v.check("begun", t.track_file is not None)
			k = v.ite(off > at, off - at, 0)
			v.check_eq("data-from-the-match-offset", t.track_file.data, old + X[k:])
		else:
			v.check("nothing-taken", have(v, t) == v.len(old))
			v.check("begun", (t.track_file is not None) == (begun or bool(at + v.len(X) > off)))
	if done and not done0:
		v.check("done-when-all-is-taken", complete(v, [t, o]))

# -- Matroska: the frames of a block --------------------------------------------------
class Lengths(object):
	"""lengths of the frames of a block"""
	vc_ghost = True
	def __init__(self, v, total, cut):
		"""together they are the content; each frame holds what the sample cuts off"""
		self.v, self.n = v, v.fresh_int("frames", 0, 255)
		self.f = z3.Function(v.ctx.fresh("framelen"), z3.IntSort(), z3.IntSort())
		self.p = z3.Function(v.ctx.fresh("frameoff"), z3.IntSort(), z3.IntSort())
		self.total, self.cut = total, cut
		v.ctx.axiom(self.p(0) == 0)
		v.ctx.axiom(self.p(zx(self.n)) == zx(total))
	def vlen(self):
		return self.n
	def at(self, k):
		k = zx(k)
		c = self.v.ctx
		c.axiom(z3.Implies(z3.And(k >= 0, k < zx(self.n)), z3.And(self.f(k) >= zx(self.cut),
			self.p(k + 1) == self.p(k) + self.f(k), self.p(k) >= 0,
			self.p(k + 1) <= zx(self.total))))
		return mk(self.f(k))
	def offset(self, k):
		return mk(self.p(zx(k)))
	def __getitem__(self, k):
		return self.at(k)

KINDS = {
	"none": "no frame is cut", "sample": "the frames of the sample are cut",
	"main": "the frames of the main file are cut",
	"moreinsample": "both are cut, the sample's more", "moreinmain": "both are cut, "
	"the main file's more"}

def block(v, m, kind):
	"""A block of any frames; what the sample (A) and the main file (B) cut off every frame
	(one is the begin of the other)."""
	X = few(v, v.bytes("content", 0, None, 9))
	b = C()
	b.element_start_pos = v.int("element", 0, None if v.symbolic else 30)
	b.raw_header = b"x" * v.choice("header", [2, 9])
	b.raw_block_header = b"x" * v.choice("blockheader", [4, 6])
	b.length = v.len(X)
	b.at = b.element_start_pos + len(b.raw_header) + len(b.raw_block_header)
	H = few(v, v.bytes("removed", 0, None if v.symbolic else 4, 4))
	a = z = 0
	if kind not in ("none", "main"):
		a = v.int("removed_in_sample", 1, None if v.symbolic else max(1, len(H)))
	if kind not in ("none", "sample"):
		z = v.int("removed_in_main", 1, None if v.symbolic else max(1, len(H)))
	v.assume(v.And(a <= v.len(H), z <= v.len(H)))
	if kind.startswith("more"):
		v.assume(a >= z if kind == "moreinsample" else a <= z)
	A = H[:a] if a is not 0 else b""
	B = H[:z] if z is not 0 else b""
	cut = a - z if kind in ("sample", "moreinsample") else 0
	if v.symbolic:
		b.frame_lengths = Lengths(v, v.len(X), cut)
	else:
		ls, left = [], len(X)
		for i in range(v.int("nframes", 0, 4)):
			n = v.int("frame%d" % i, cut, max(cut, left))
			v.assume(n <= left)
			ls.append(n)
			left -= n
		if left:
			v.assume(left >= cut)
			ls.append(left)
		b.frame_lengths = ls
	def frame(off, n):
		"""a frame as it is in the sample"""
		if not v.symbolic:
			return (B + X[off:off + n])[a:]
		rest = X[off + cut:off + n]
		return rest if isinstance(B, bytes) else B[a:] + rest
	return X, b, A, B, frame

def step_of(v, S, c, off, F, at):
	"""The search on one frame: (bytes matched, where that began), None for any place"""
	s, L = v.len(S), v.len(F)
	if bool(c >= s):
		return c, off
	if c > 0:
		n = lo(v, s - c, L)
		if bool(S[:c + n] == S[:c] + F[:n]):
			return c + n, off
	n = lo(v, s, L)
	if bool(S[:n] == F[:n]):
		return n, at
	return 0, None

class FrameSearch(LoopSpec):
	def __init__(self, S, t, b, frame, first, name):
		self.S, self.t, self.b, self.frame_, self.name = S, t, b, frame, name
		self.first = first
	def start(self, v, L):
		self.fresh_ = True
	def state(self, v, name, c, off):
		t = self.t
		v.check(name + ":matched-so-far", v.And(v.len(t.check_bytes) == c,
			self.S[:c] == t.check_bytes if c is not 0 else True))
		if off is not None:
			v.check(name + ":where-it-began", t.match_offset == off)
	def inv(self, v, L, name):
		k = L.loop.k
		if self.fresh_:
			c, off = self.first
			self.state(v, name, c, off)
			v.check(name + ":first-frame", L["offset"] == 0)
			return
		n = self.b.frame_lengths.at(self.k)
		F = self.frame_(self.o, n)
		c, off = step_of(v, self.S, self.c, self.off, F, self.b.at + self.o)
		self.state(v, name, c, off)
		v.check(name + ":next-frame", L["offset"] == self.o + n)
	def havoc(self, v, L):
		self.fresh_ = False
		self.k = L.loop.k
		t = self.t
		self.o = L["offset"] = self.b.frame_lengths.offset(self.k)
		self.b.frame_lengths.at(self.k)
		v.assume(self.o >= 0)
		self.c = v.fresh_int("matched", 0)
		v.assume(self.c <= v.len(self.S))
		t.check_bytes = self.S[:self.c] if self.c > 0 else b""
		t.match_offset = self.off = v.fresh_int("offset", 0)
		v.assume(v.Or(self.c == 0, self.off > 0))
		t.match_length = v.fresh_int("length")
		for x in ("flength", "lcb", "check_bytes"):
			L[x] = None
	def frame(self, v, L):
		return [(self.t, "*")]

class Er(Chunk):
	vc_ghost = True

def mkv_find_step(v, kind):
	"""A frame of a track continues the match so far, or starts a new one when it fits; what
	sample and main file cut off their frames is made up for."""
	m = v.mod("resample.main")
	opaque(v)
	S = few(v, v.bytes("signature", 0, None, 5))
	X, b, A, B, frame = block(v, m, kind)
	t, t2, o = m.TrackData(), m.TrackData(), m.TrackData()
	t.signature_bytes = S
	c = v.int("matched", 0, None if v.symbolic else len(S))
	v.assume(c <= v.len(S))
	t.check_bytes = S[:c] if c > 0 else b""
	t.match_offset = off = v.int("offset", 0, None if v.symbolic else 100)
	v.assume((off == 0) == (c == 0))
	t.data_length = v.int("data_length", 0, None if v.symbolic else 30)
	t.match_length = v.int("match_length", 0, None if v.symbolic else 30)
	t.compression_settings, t2.compression_settings = A, B
	o.data_length = v.int("other_length", 0, None if v.symbolic else 3)
	o.match_length = v.int("other_match", 0, None if v.symbolic else 3)
	number = v.int("number", 0, 127)
	oth = v.int("other_number", 0, 127)
	v.assume(number != oth)
	b.track_number = number
	r = Er(v, X, current_element=b)
	known = v.bool("known")
	tracks, main = Numbers(v, {"o": (oth, o)}), Numbers(v, {})
	if known:
		tracks.add(number, t)
		main.add(number, t2)
	me = C()
	me.cut_data = {}
	if v.symbolic:
		v.loop(M + "_mkv_block_find", 0, FrameSearch(S, t, b, frame, (c, off), "search"))
	done0 = False
	out = v.call(m._mkv_block_find, me, tracks, r, done0, main)
	v.expect("returns", out)
	v.check("content-passed", len(r.log) == 1)
	if not known:
		n = tracks[number]
		v.check("new-track", v.And(n.track_number == number, v.len(n.signature_bytes) == 0,
			main[number].track_number == number))
		return
	if out.value:
		v.check("done-when-all-is-matched", v.And(t.match_length >= t.data_length,
			o.match_length >= o.data_length))
	if v.symbolic:
		return
	p = 0
	for n in b.frame_lengths:
		if len(S) and (off == 0 or c < len(S)):
			c, x = step_of(v, S, c, off, frame(p, n), b.at + p)
			off = x if x is not None else 0
		p += n
	if len(S):
		v.check_eq("matched", t.check_bytes, S[:c])
		v.check("where", c == 0 or t.match_offset == off)

for _k in KINDS:
	contract("C18", "mkv_find_step_" + _k, [M + "_mkv_block_find"], budget=200,
		max_paths=20000, note=KINDS[_k])(lambda v, _k=_k: mkv_find_step(v, _k))

class FrameTake(LoopSpec):
	"""Each frame at the match offset or behind it is added while the track is not complete."""
	def __init__(self, t, b, frame):
		self.t, self.b, self.frame_ = t, b, frame
	def start(self, v, L):
		self.fresh_, self.old = True, self.t.track_file.data if self.t.track_file else b""
	def inv(self, v, L, name):
		t = self.t
		v.check(name + ":collecting", t.track_file is not None)
		if self.fresh_:
			v.check(name + ":nothing-taken-yet", v.And(v.len(t.track_file.data) ==
				v.len(self.was)))
			v.check_eq(name + ":as-it-was", t.track_file.data, self.was)
			v.check(name + ":first-frame", L["offset"] == 0)
			return
		n = self.b.frame_lengths.at(self.k)
		new = self.D
		if bool(v.And(self.b.at + self.o >= t.match_offset, v.len(self.D) < t.data_length)):
			new = self.D + self.frame_(self.o, n)
		v.check_eq(name + ":frame-taken", t.track_file.data, new)
		v.check(name + ":next-frame", L["offset"] == self.o + n)
	def havoc(self, v, L):
		self.fresh_ = False
		self.k = L.loop.k
		self.o = L["offset"] = self.b.frame_lengths.offset(self.k)
		self.b.frame_lengths.at(self.k)
		v.assume(self.o >= 0)
		self.D = self.t.track_file.data = v.fresh_bytes("collected")
		L["cut"] = L["add"] = None
	def frame(self, v, L):
		return [(self.t.track_file, "data")]

def mkv_extract_step(v, kind):
	"""Until a track is complete, every frame of it at its match offset or behind it is taken as
	it was in the sample; nothing else is."""
	m = v.mod("resample.main")
	temps = Temps(v)
	v.patch(m, "tempfile", temps)
	X, b, A, B, frame = block(v, m, kind)
	t, t2, o = m.TrackData(), m.TrackData(), m.TrackData()
	t.match_offset = off = v.int("offset", 0, None if v.symbolic else 60)
	t.data_length = v.int("data_length", 0, None if v.symbolic else 20)
	t.compression_settings, t2.compression_settings = A, B
	collected(v, t, "track")
	old = t.track_file.data if t.track_file else b""
	begun = t.track_file is not None
	o.data_length = v.int("other_length", 0, None if v.symbolic else 9)
	collected(v, o, "other")
	obefore = o.track_file and o.track_file.data
	number = v.int("number", 0, 127)
	oth = v.int("other_number", 0, 127)
	v.assume(number != oth)
	b.track_number = number
	r = Er(v, X, current_element=b)
	known = v.bool("known")
	tracks, main = Numbers(v, {"o": (oth, o)}), Numbers(v, {})
	main.add(number, t2)
	if known:
		tracks.add(number, t)
	spec = FrameTake(t, b, frame)
	spec.was = old
	if v.symbolic:
		v.loop(M + "_mkv_block_extract", 0, spec)
	done0 = v.bool("done")
	out = v.call(m._mkv_block_extract, tracks, main, r, done0)
	v.expect("returns", out)
	v.check("content-passed", len(r.log) == 1)
	v.check("other-track-untouched", (o.track_file is None) == (obefore is None) and
		(obefore is None or o.track_file.data is obefore))
	if not known:
		v.check("not-done", out.value == done0)
		v.check("no-track-made", len(tracks.keys()) == 1 and not temps.made)
		return
	if bool(b.at + v.len(X) > off):
		v.check("read", r.log == ["read"])
		v.check("begun", t.track_file is not None and temps.made == ([] if begun else
			[t.track_file]))
		v.check("done-when-all-is-taken", out.value == complete(v, [t, o]))
		if v.symbolic:
			return
		want, p = old, 0
		for n in b.frame_lengths:
			if b.at + p >= off and len(want) < t.data_length:
				want += frame(p, n)
			p += n
		v.check_eq("frames-taken", t.track_file.data, want)
	else:
		v.check("nothing-taken", (t.track_file is not None) == begun and not temps.made and
			(not begun or t.track_file.data is old))
		v.check("not-done", out.value == done0)

for _k in KINDS:
	contract("C18", "mkv_extract_step_" + _k, [M + "_mkv_block_extract"], budget=120,
		max_paths=20000, note=KINDS[_k])(lambda v, _k=_k: mkv_extract_step(v, _k))

# -- stream files ---------------------------------------------------------------------
KIB = 0x10000

class MainFile(object):
	vc_ghost = True
	def __init__(self, v, F):
		self.v, self.F, self.pos, self.closed, self.log = v, F, 0, False, []
	def read(self, n):
		v = self.v
		end = lo(v, self.pos + n, v.len(self.F))
		b = self.F[self.pos:end]
		self.pos = v.ite(end > self.pos, end, self.pos)
		return b
	def tell(self):
		return self.pos
	def seek(self, n):
		self.v.check("seek-in-range", n >= 0)
		self.pos = n
	def close(self):
		self.closed = True

def main_file(v, m, F):
	"""symbolically what `open` gives; otherwise the path of a real file"""
	if not v.symbolic:
		return v.path("main", F)
	f = MainFile(v, F)
	v.patch(m, "open", lambda name, mode: f)
	return f

class Windows(LoopSpec):
	"""No place of the main file that ends before the current window fits: told for an
	arbitrary one, j."""
	def __init__(self, S, F, f):
		self.S, self.F, self.f, self.first = S, F, f, True
	def windows(self, v, n):
		F, q, e = self.F, n * KIB, v.len(self.F)
		x = F[lo(v, q, e):lo(v, q + KIB, e)]
		if bool(n == 0):
			return b"", x, lo(v, q + KIB, e)
		v.assume(q - KIB < e) if self.first is None else v.check("windows:some-before",
			q - KIB < e)
		return F[q - KIB:lo(v, q, e)], x, lo(v, q + KIB, e)
	def ruled_out(self, v, q):
		s = v.len(self.S)
		if bool(v.And(self.j + s <= q, self.j + s <= v.len(self.F))):
			return v.Not(self.S == self.F[self.j:self.j + s])
		return True
	def start(self, v, L):
		self.j = v.fresh_int("anyplace", 0)
	def inv(self, v, L, name):
		n = L["count"]
		p, x, pos = self.windows(v, n)
		v.check_eq(name + ":previous-window", L["p"], p)
		v.check_eq(name + ":window", L["x"], x)
		v.check(name + ":position", self.f.pos == pos)
		if not self.first and name.endswith("preserved"):
			self.learn(v, L)
		v.check(name + ":nothing-before", self.ruled_out(v, n * KIB))
	def learn(self, v, L):
		"""what the search of the window tells about the place j"""
		n = self.n
		if bool(n == 0):
			self.x.nowhere_else(self.S, self.j)
		else:
			(self.p + self.x).nowhere_else(self.S, self.j - (n - 1) * KIB)
	def havoc(self, v, L):
		self.first = None
		n = L["count"] = self.n = v.fresh_int("windows", 0)
		self.p, self.x, self.f.pos = self.windows(v, n)
		L["p"], L["x"] = self.p, self.x
		v.assume(self.ruled_out(v, n * KIB))
		L["match"] = None
		self.first = False
	def variant(self, v, L):
		return v.len(self.F) + 2 * KIB - L["count"] * KIB
	def frame(self, v, L):
		return [(self.f, "pos")]

@contract("C18", "stream_find", [M + "stream_find_sample_streams"], budget=90)
def stream_find(v):
	"""The first place of the main file where the signature is, or -1 when it is nowhere."""
	m = v.mod("resample.main")
	opaque(v)
	for n in ("show_spinner", "remove_spinner"):
		v.patch(m, n, lambda *a: None)
	if v.symbolic:
		v.patch(m, "is_rar", lambda *a: False)
		F = v.bytes("file", 0)
		S = v.bytes("signature", 1, KIB)
	else:
		n = v.int("size", 0, 3 * KIB)
		n = v.choice("sized", [n, KIB, 2 * KIB, KIB + 1, n % 600])
		S = v.bytes("signature", 1, 256, 256)
		F = bytearray(n)
		for k in range(v.int("places", 0, 3)):
			at = v.choice("near%d" % k, [0, KIB, 2 * KIB, n]) + v.choice("by%d" % k, [
				v.int("at%d" % k, -300, 3), -len(S), 1 - len(S), -1, 0])
			cut = S[:v.choice("cut%d" % k, [len(S), len(S) - 1])]
			if at >= 0 and at + len(cut) <= n:
				F[at:at + len(cut)] = cut
		F = bytes(F)
	f = main_file(v, m, F)
	t = m.TrackData()
	t.signature_bytes = S
	spec = Windows(S, F, f)
	v.loop(M + "stream_find_sample_streams", 0, spec)
	me = C()
	me.archived_file_name = ""
	out = v.call(m.stream_find_sample_streams, me, {1: t}, "main" if v.symbolic else f)
	v.expect("returns", out)
	v.check("closed", not v.symbolic or f.closed)
	at = t.match_offset
	if not v.symbolic:
		v.check_eq("first-place", at, F.find(S))
		v.check("matched", (t.check_bytes == S) == (at >= 0))
		return
	s = v.len(S)
	if bool(at == -1):
		v.check("nowhere", spec.ruled_out(v, v.len(F)))
		v.check("nothing-matched", v.len(t.check_bytes) == 0)
		return
	spec.learn(v, None)
	v.check("in-the-file", v.And(at >= 0, at + s <= v.len(F)))
	v.check("fits", S == F[at:at + s])
	v.check("first-place", v.Or(spec.j >= at, spec.ruled_out(v, v.len(F))))
	v.check("matched", v.And(v.len(t.check_bytes) == s, S == t.check_bytes))

@contract("C18", "stream_extract", [M + "stream_extract_sample_streams"])
def stream_extract(v):
	"""The data of the sample is what begins at the match offset."""
	m = v.mod("resample.main")
	if v.symbolic:
		temps = Temps(v)
		v.patch(m, "tempfile", temps)
		v.patch(m, "is_rar", lambda *a: False)
	F = few(v, v.bytes("file", 0, None, 30))
	f = main_file(v, m, F)
	t = m.TrackData()
	off = t.match_offset = v.int("offset", 0, None if v.symbolic else 30)
	n = t.data_length = v.int("data_length", 0, None if v.symbolic else 30)
	s = v.int("signature_length", 1, 256)
	v.assume(off + s <= v.len(F))
	there = v.choice("there", [True, False])
	S = t.signature_bytes = F[off:off + s] if there else v.bytes("signature", 1, 256)
	me = C()
	me.archived_file_name = ""
	out = v.call(m.stream_extract_sample_streams, me, {1: t}, "main" if v.symbolic else f)
	v.check("closed", not v.symbolic or f.closed)
	if out.exc is not None:
		v.expect("refused-only-without-the-signature", out, AssertionError)
		v.check("refused-only-without-the-signature", not there)
		return
	if v.symbolic:
		v.check("one-file", len(temps.made) == 1 and temps.made[0] is t.track_file)
	else:
		t.track_file.seek(0)
	v.check_eq("data-from-the-match-offset", t.track_file.data if v.symbolic else
		t.track_file.read(),
		F[off:lo(v, off + n, v.len(F))])

# -- MP3 and FLAC ---------------------------------------------------------------------
class Audio(object):
	"""A reader on the blocks of a file; the first audio block has the content D."""
	vc_ghost = True
	def __init__(self, v, D, start, blocks=None):
		self.v, self.D, self.start, self.blocks = v, D, start, blocks
		self.cur, self.closed, self.passed = None, False, None
	def block(self, kind):
		b = C()
		b.type, b.size, b.start_pos = kind, self.v.len(self.D), self.start
		b.is_frame_data = lambda: kind in ("MP3", "fLaC")
		self.cur = self.current_block = b
		self.log = []
		return b
	def read_part(self, n, off=0):
		v = self.v
		v.check("audio-is-read", self.cur.type in ("MP3", "fLaC"))
		v.check("inside-the-block", v.And(n >= 0, off >= 0))
		end = lo(v, off + n, v.len(self.D))
		return self.D[off:v.ite(end > off, end, off)] if v.symbolic else self.D[off:off + n]
	def read_contents(self):
		self.log.append("read")
		return self.D
	def skip_contents(self):
		self.log.append("skip")
	def close(self):
		self.closed = True

class Batches(LoopSpec):
	"""No place in front of the batch fits: told for an arbitrary one, j."""
	def __init__(self, S, D, t, m0):
		self.S, self.D, self.t, self.m0, self.visited = S, D, t, m0, False
	def ruled_out(self, v, b):
		s = v.len(self.S)
		if bool(v.And(self.j < b, self.j + s <= v.len(self.D))):
			return v.Not(self.S == self.D[self.j:self.j + s])
		return True
	def learn(self, v, L, b):
		for f in v.ctx.shared.get("finds", [])[-1:]:
			f[0].nowhere_else(self.S, self.j - b)
	def start(self, v, L):
		self.j = v.fresh_int("anyplace", 0)
	def inv(self, v, L, name):
		b = L["boffset"]
		v.check(name + ":in-the-block", b >= 0)
		v.check(name + ":not-yet-found", self.t.match_offset == self.m0)
		if name.endswith("preserved"):
			self.learn(v, L, self.b)
		v.check(name + ":nothing-before", self.ruled_out(v, b))
	def havoc(self, v, L):
		self.visited = True
		self.b = L["boffset"] = v.fresh_int("batch", 0)
		L["size"] = L["data"] = L["found_offset"] = None
		v.assume(self.ruled_out(v, self.b))
	def variant(self, v, L):
		return v.len(self.D) + KIB - L["boffset"]
	def frame(self, v, L):
		return []

@contract("C18", "mp3_match_signature", [M + "mp3_match_signature"], budget=90)
def mp3_match_signature(v):
	"""The first place of the audio block where the signature is; none: nothing changes."""
	m = v.mod("resample.main")
	opaque(v)
	if v.symbolic:
		D, S = v.bytes("audio", 0), v.bytes("signature", 1, 256)
	else:
		S = v.bytes("signature", 1, 256, 256)
		D = bytearray(v.int("size", 0, 3 * KIB))
		for k in range(v.int("places", 0, 2)):
			at = v.choice("near%d" % k, [0, KIB - 255, KIB, 2 * KIB - 510, len(D)]) + v.choice(
				"by%d" % k, [v.int("at%d" % k, -300, 300), -len(S), 1 - len(S), -1, 0])
			if at >= 0 and at + len(S) <= len(D):
				D[at:at + len(S)] = S
		D = bytes(D)
	r = Audio(v, D, v.int("start", 0, None if v.symbolic else 999))
	t = m.TrackData()
	t.signature_bytes = S
	t.match_offset = -1
	t.data_length = v.int("data_length", 0, None if v.symbolic else 999)
	spec = Batches(S, D, t, -1)
	v.loop(M + "mp3_match_signature", 0, spec)
	out = v.call(m.mp3_match_signature, t, r.block("MP3"), r)
	v.expect("returns", out)
	v.check("the-track", out.value is t)
	if not v.symbolic:
		p = D.find(S)
		v.check_eq("first-place", t.match_offset, r.start + p if p >= 0 else -1)
		return
	if bool(t.match_offset == -1):
		v.check("nowhere", spec.ruled_out(v, v.len(D)))
		return
	p = t.match_offset - r.start
	spec.learn(v, None, spec.b)
	v.check("in-the-block", v.And(p >= 0, p + v.len(S) <= v.len(D)))
	v.check("fits", S == D[p:p + v.len(S)])
	v.check("first-place", spec.ruled_out(v, p))
	v.check("as-much-as-there-is", v.Or(t.match_length == t.data_length,
		t.match_length == v.len(D)))

class Before(LoopSpec):
	"""The blocks in front of the audio change nothing."""
	def __init__(self, t, r):
		self.t, self.r = t, r
	def inv(self, v, L, name):
		v.check(name + ":nothing-changed", self.t.track_file is None and
			self.t.match_offset is self.off)
	def start(self, v, L):
		self.off = self.t.match_offset
	def havoc(self, v, L):
		for n in self.names:
			L[n] = None
	def frame(self, v, L):
		return [(self.r, "*")]
	names = ("block", "sig_size", "read_size", "data", "sync", "offset")

def blocks(v, r):
	"""the blocks of an MP3 file: metadata of any kind, one audio block"""
	def elem(k):
		return r.block(v.choice("kind", ["MP3", "fLaC", "ID3", "LYRICS", "APE"]))
	if v.symbolic:
		from contracts.samples import Iter
		return Iter(v, elem)
	ks = [["ID3", "APE", "LYRICS"][v.int("b%d" % i, 0, 2)] for i in range(v.int("n", 0, 3))]
	if v.bool("audio"):
		ks.append("MP3")
	r.kinds = ks
	return (r.block(k) for k in ks)

def audio(v, m):
	D = few(v, v.bytes("audio", 0, None, 300))
	if v.symbolic:
		S = v.bytes("signature", 1, 256)
	else:
		S = D[:256] if v.bool("same") and D else few(v, v.bytes("signature", 1, 256, 5))
		if v.bool("sync") and len(D) > 1:
			D = b"\xff\xfb" + D[2:]
	r = Audio(v, D, v.int("start", 0, None if v.symbolic else 999))
	t = m.TrackData()
	t.signature_bytes = S
	t.data_length = v.int("data_length", 0, None if v.symbolic else 400)
	me = C()
	me.archived_file_name = ""
	return D, S, r, t, me

@contract("C18", "mp3_find", [M + "mp3_find_sample_streams"])
def mp3_find(v):
	"""The audio begins with the signature, or the signature is looked for when the block does
	not begin like MP3 audio; otherwise there is no match."""
	m = v.mod("resample.main")
	opaque(v)
	D, S, r, t, me = audio(v, m)
	r.read = lambda: blocks(v, r)
	v.patch(m, "Mp3Reader", lambda *a, **k: r)
	looked = []
	def match(tr, b, mr):
		looked.append((tr, b, mr))
		tr.match_offset = v.int("found_at", -1, None if v.symbolic else 9)
		return tr
	v.patch(m, "mp3_match_signature", match)
	spec = Before(t, r)
	if v.symbolic:
		v.loop(M + "mp3_find_sample_streams", 0, spec)
	tracks = {1: t}
	out = v.call(m.mp3_find_sample_streams, me, tracks, "main")
	v.expect("returns", out)
	v.check("same-tracks", same_items(out.value, tracks) and tracks[1] is t)
	v.check("closed", r.closed)
	b = r.cur
	if b is None or b.type not in ("MP3", "fLaC"):
		v.check("no-audio-no-match", t.match_offset == 0 and not looked)
		return
	n = lo(v, v.len(S), v.len(D))
	if bool(v.And(v.len(D) >= v.len(S), S == D[:n])):
		v.check("at-the-start-of-the-audio", t.match_offset == r.start)
		v.check("as-much-as-there-is", t.match_length == lo(v, t.data_length, v.len(D)))
		v.check("not-looked-for", not looked)
		return
	if bool(n < 2):
		v.check("no-match", t.match_offset == -1)
		return
	sync = v.And(D[0] == 255, D[1] >= 0xE0)
	if looked:
		v.check("looked-for-in-this-block", looked == [(t, b, r)] and r.closed)
		v.check("not-like-audio", v.Not(sync))
	else:
		v.check("like-audio", sync)
		v.check("no-match", t.match_offset == -1)

@contract("C18", "mp3_extract", [M + "mp3_extract_sample_streams"])
def mp3_extract(v):
	"""The data is what begins at the match offset of the audio block."""
	m = v.mod("resample.main")
	temps = Temps(v)
	v.patch(m, "tempfile", temps)
	D, S, r, t, me = audio(v, m)
	t.match_offset = v.int("offset", 0, None if v.symbolic else 1400)
	t.match_length = v.int("match_length", 0, None if v.symbolic else 400)
	r.read = lambda: blocks(v, r)
	v.patch(m, "Mp3Reader", lambda *a, **k: r)
	spec = Before(t, r)
	if v.symbolic:
		v.loop(M + "mp3_extract_sample_streams", 0, spec)
	out = v.call(m.mp3_extract_sample_streams, me, {1: t}, "main")
	b = r.cur
	if out.exc is not None:
		v.expect("refused-in-front-of-the-audio", out, AssertionError)
		v.check("refused-in-front-of-the-audio", t.match_offset < r.start)
		return
	if b is None or b.type not in ("MP3", "fLaC"):
		v.check("nothing-taken", not temps.made)
		return
	off = t.match_offset - r.start
	v.check("in-the-audio", off >= 0)
	v.check("one-file", len(temps.made) == 1 and temps.made[0] is t.track_file)
	if bool(off >= v.len(D)):
		v.check("nothing-there", v.len(t.track_file.data) == 0)
		return
	v.check_eq("data-from-the-match-offset", t.track_file.data,
		D[off:lo(v, off + t.match_length, v.len(D))])

class Blocks(LoopSpec):
	"""FLAC: one block after the other."""
	def __init__(self, t, r, step, names):
		self.t, self.r, self.step, self.names = t, r, step, names
	def start(self, v, L):
		self.first = True
	def inv(self, v, L, name):
		if not self.first:
			v.check(name + ":passed", len(self.r.log) >= 1 and self.r.log[-1] == "skip")
			self.step(v, name)
	def havoc(self, v, L):
		self.first = False
		for n in self.names:
			L[n] = None
		if self.r.fresh:
			self.r.fresh(v)
	def frame(self, v, L):
		return [(self.r, "*"), (self.t, "*")]

def flac(v, r):
	"""read() of the FLAC reader: a block of metadata or audio, or the end"""
	ks = [] if v.symbolic else [["meta", "fLaC"][v.bool("k%d" % i)] for i in
		range(v.int("n", 0, 3))]
	def read():
		if v.symbolic:
			if v.ctx.choose(2):
				return False
			k = v.choice("kind", ["meta", "fLaC"])
		else:
			if not ks:
				return False
			k = ks.pop(0)
		r.block(k)
		r.seen.append(k)
		r.read_done = False
		return True
	old = r.skip_contents
	def skip():
		old()
		r.read_done = True
	r.seen = []
	r.read, r.skip_contents, r.fresh = read, skip, None

@contract("C18", "flac_find", [M + "flac_find_sample_streams"])
def flac_find(v):
	"""The audio of a FLAC file matches when it begins with the signature."""
	m = v.mod("resample.main")
	opaque(v)
	D, S, r, t, me = audio(v, m)
	flac(v, r)
	v.patch(m, "FlacReader", lambda *a, **k: r)
	ok = lambda: v.And(v.len(D) >= v.len(S), S == D[:lo(v, v.len(S), v.len(D))])
	def step(v, name):
		v.check(name + ":no-match-yet", t.match_offset == 0)
		if r.cur.type == "fLaC":
			v.check(name + ":does-not-begin-with-it", v.Not(ok()))
	if v.symbolic:
		v.loop(M + "flac_find_sample_streams", 0, Blocks(t, r, step, ("track", "sig_size",
			"read_size", "data")))
	out = v.call(m.flac_find_sample_streams, me, {1: t}, "main")
	v.expect("returns", out)
	v.check("closed", r.closed)
	if not v.symbolic:
		v.check("found", (t.match_length == min(t.data_length, len(D)) and t.match_offset ==
			r.start and t.check_bytes == S) if ok() and "fLaC" in r.seen else
			not t.match_offset and not t.check_bytes)
		return
	if v.len(t.check_bytes) is not 0 and bool(v.len(t.check_bytes) > 0):
		v.check("begins-with-it", v.And(r.cur.type == "fLaC", ok()))
		v.check("at-the-start-of-the-audio", t.match_offset == r.start)
		v.check("as-much-as-there-is", t.match_length == lo(v, t.data_length, v.len(D)))

@contract("C18", "flac_extract", [M + "flac_extract_sample_streams"])
def flac_extract(v):
	"""The data is the whole audio."""
	m = v.mod("resample.main")
	temps = Temps(v)
	v.patch(m, "tempfile", temps)
	D, S, r, t, me = audio(v, m)
	flac(v, r)
	v.patch(m, "FlacReader", lambda *a, **k: r)
	def step(v, name):
		if r.cur.type == "fLaC":
			v.check_eq(name + ":audio-taken", t.track_file.data, D)
		else:
			v.check(name + ":nothing-taken", t.track_file is r.was)
	def fresh(v):
		r.was = t.track_file = Temp(v, v.fresh_bytes("old")) if v.bool("old") else None
	if v.symbolic:
		r.fresh = fresh
		v.loop(M + "flac_extract_sample_streams", 0, Blocks(t, r, step, ("track",)))
	out = v.call(m.flac_extract_sample_streams, me, {1: t}, "main")
	v.expect("returns", out)
	v.check("closed", r.closed)
	if not v.symbolic:
		v.check("audio-taken", (t.track_file is not None and t.track_file.data == D) if
			"fLaC" in r.seen else t.track_file is None)

# -- WMV: the payloads of the data packets --------------------------------------------
class Anything(LoopSpec):
	"""An outer loop about whose state nothing is assumed; what one round does is checked."""
	def __init__(self, w, names, fresh=None, step=None, frame=()):
		self.w, self.names, self.fresh_, self.step, self.frame_ = w, names, fresh, step, frame
	def start(self, v, L):
		self.first = True
	def inv(self, v, L, name):
		if not self.first and self.step:
			self.step(v, L, name)
	def havoc(self, v, L):
		self.first = False
		for n in self.names:
			L[n] = None
		self.k = L.loop.k
		if self.fresh_:
			self.fresh_(v, L, self)
	def frame(self, v, L):
		return self.w.frame() + list(self.frame_)

class Wmv(object):
	"""A main WMV file: its reader and the state of two tracks."""
	vc_ghost = True
	def __init__(self, v, m, extract):
		self.v, self.m, self.extract = v, m, extract
		self.S = few(v, v.bytes("signature", 0, None, 5))
		self.t, self.o = m.TrackData(), m.TrackData()
		self.number, self.oth = v.int("number", 0, 127), v.int("other_number", 0, 127)
		v.assume(self.number != self.oth)
		self.tracks = Numbers(v, {"o": (self.oth, self.o), "t": (self.number, self.t)})
		self.base = [list(x) for x in self.tracks.items_]
		self.closed, self.reads, self.skips, self.k = False, [], 0, 0
		v.patch(m, "AsfReader", lambda *a, **k: self)
		v.patch(m, "asf_data_get_packet", self.packet)
		for n in ("show_spinner", "remove_spinner"):
			v.patch(m, n, lambda *a: None)
		self.total = v.int("packets", 1, None if v.symbolic else 3)
		v.assume(self.total < 2 ** 32)
		self.psize = v.int("packet_size", 1, None if v.symbolic else 60)
		self.o_ = d = C()
		d.start_pos = v.int("data_object", 0, None if v.symbolic else 50)
		d.raw_header = b"h" * 40 + v.pack("<Q", self.total) + b"hh"
		d.size = self.total * self.psize + len(d.raw_header)
		self.start = d.start_pos + len(d.raw_header)
		if not v.symbolic:
			self.kinds = [self.m.GUID_DATA_OBJECT, b"other" * 3]
			self.packets = [[self.payload((i, k)) for k in range(v.int("n%d" % i, 0, 3))] for
				i in range(self.total)]
	def state(self, i=""):
		"""any state of the tracks"""
		v, t, o = self.v, self.t, self.o
		self.tracks.items_[:] = [list(x) for x in self.base]
		dl = lambda n, m: v.int(n, 0, m) if not v.symbolic else v.fresh_int(n, 0)
		if self.extract:
			return
		self.c = v.fresh_int("matched", 0)
		v.assume(self.c <= v.len(self.S))
		t.check_bytes = self.S[:self.c] if self.c > 0 else b""
		self.off = t.match_offset = v.fresh_int("offset", 0)
		v.assume((self.off == 0) == (self.c == 0))
		t.match_length, o.match_length = v.fresh_int("length"), v.fresh_int("olength")
	def frame(self):
		return [(self.t, "*"), (self.o, "*"), (self.tracks.items_, "*"), (self, "*")]
	# reader
	def read(self):
		v = self.v
		if v.symbolic:
			if v.ctx.choose(2):
				return False
			data = v.choice("kind", [True, False])
		else:
			if not self.kinds:
				return False
			data = self.kinds.pop(0) == self.m.GUID_DATA_OBJECT
		self.o_.type = self.object_guid = self.m.GUID_DATA_OBJECT if data else b"other"
		self.current_object = self.o_
		self.passed = False
		return True
	def skip_contents(self):
		self.passed = True
	def read_data_part(self, pos, n):
		v = self.v
		v.check("whole-packet-is-read", n == self.psize)
		v.check("packet-is-read-where-it-is", pos == self.start + self.k * self.psize if
			v.symbolic else (pos - self.start) % self.psize == 0)
		self.reads.append(pos)
		return Packet(self.psize) if v.symbolic else b"d" * n
	def packet(self, p, size, mode=None):
		v = self.v
		self.p = p
		v.check("packet-position", p.data_file_offset == self.reads[-1])
		p.length = size
		if v.symbolic:
			from contracts.samples import Iter
			p.payloads = Iter(v, self.payload)
		else:
			p.payloads = self.packets[(p.data_file_offset - self.start) // self.psize]
		return size
	def payload(self, k):
		v = self.v
		p = C()
		p.name = "" if v.symbolic else "%d_%d" % k
		p.stream_number = v.fresh_int("stream", 0, 127) if v.symbolic else v.choice(
			"stream" + p.name, [self.number, self.oth, 100])
		p.data = v.fresh_bytes("payload") if v.symbolic else few(v, v.bytes("payload" +
			p.name, 0, None, 9))
		p.data_length = v.len(p.data)
		p.header_size = v.fresh_int("header", 0) if v.symbolic else 3
		self.cur = p
		return p
	def close(self):
		self.closed = True

class Packet(object):
	vc_ghost = True
	def __init__(self, n):
		self.n = n
	def vlen(self):
		return self.n

class Payloads(Anything):
	"""one payload"""
	def havoc(self, v, L):
		Anything.havoc(self, v, L)
		w = self.w
		w.state()
		w.prev = L["prev_payloads_size"] = v.fresh_int("before", 0)
		w.done = L["done"] = v.bool("done%s" % v.ctx.fresh(""))
	def inv(self, v, L, name):
		if self.first:
			v.check(name + ":first-payload", L["prev_payloads_size"] == 0)
			return
		p = self.w.cur
		v.check(name + ":next-payload", L["prev_payloads_size"] == self.w.prev +
			p.data_length + p.header_size)
		self.step(v, L, name)

class PayloadFit(FirstFit):
	def start(self, v, L):
		self.X = self.w.cur.data

@contract("C18", "wmv_find", [M + "wmv_find_sample_streams"], budget=120, max_paths=20000)
def wmv_find(v):
	"""A payload of a track continues the match so far, or the first place of it that fits
	starts a new one."""
	m = v.mod("resample.main")
	opaque(v)
	w = Wmv(v, m, False)
	t, o, S = w.t, w.o, w.S
	t.signature_bytes = S
	t.data_length = v.int("data_length", 0, None if v.symbolic else 30)
	o.data_length = v.int("other_length", 0, None if v.symbolic else 3)
	q = M + "wmv_find_sample_streams"
	if v.symbolic:
		fit = PayloadFit(S, None, t, [0], ("found_pos", "payload_bytes"))
		fit.w = w
		def fresh(v, L, s):
			w.state()
			w.k = s.k
			L["done"] = False
		def payload(v, L, name):
			p = w.cur
			if L["done"] and not w.done:
				v.check(name + ":done-when-all-is-matched", v.And(t.match_length >=
					t.data_length, o.match_length >= o.data_length))
			if bool(p.stream_number == w.number):
				matched(v, S, p.data, w.c, w.off, t, w.p.data_file_offset + w.prev +
					p.header_size, fit)
				return
			v.check(name + ":other-streams", v.And(t.match_offset == w.off,
				v.len(t.check_bytes) == w.c))
			if bool(p.stream_number != w.oth):
				n = w.tracks[p.stream_number]
				v.check(name + ":new-track", v.And(n.track_number == p.stream_number,
					v.len(n.signature_bytes) == 0, n.data_length == 0))
		def begin(v, L, s):
			fit.visited = False
		locs = ["o", "total_data_packets", "psize", "start", "data", "packet",
			"prev_payloads_size", "track_number", "track", "lcb", "check_bytes",
			"payload_bytes", "search_byte", "found_pos", "track_done"]
		v.loop(q, 0, Anything(w, ["i"] + locs, lambda v, L, s: (w.state(),
			L.__setitem__("done", v.bool("dn"))), lambda v, L, n: v.check(n + ":passed",
			w.passed)))
		v.loop(q, 1, Anything(w, locs[4:], fresh))
		v.loop(q, 2, Payloads(w, locs[7:], begin, payload))
		v.loop(q, 3, fit)
	me = C()
	me.archived_file_name = ""
	out = v.call(m.wmv_find_sample_streams, me, w.tracks, "main")
	v.expect("returns", out)
	v.check("same-tracks", out.value is w.tracks)
	v.check("closed", w.closed)
	if v.symbolic or not len(S):
		return
	c, off = 0, 0
	for i, ps in enumerate(w.packets):
		at = w.start + i * w.psize
		if w.start + i * w.psize not in w.reads:
			break
		for p in ps:
			at += p.header_size
			if p.stream_number == w.number and c < len(S):
				X = p.data
				n = min(len(S) - c, len(X))
				if c and X[:n] == S[c:c + n]:
					c += n
				else:
					c, off = 0, 0
					for k in range(len(X)):
						if S.startswith(X[k:k + len(S)]):
							c, off = min(len(S), len(X) - k), at + k
							break
			at += p.data_length
	v.check_eq("matched", t.check_bytes, S[:c])
	v.check("where", t.match_offset == off)

class Unknown(object):
	"""something the code must not look at here"""
	vc_ghost = True
	def __getattr__(self, n):
		raise Unsupported("state of the loop is used outside of it: " + n)

@contract("C18", "wmv_extract", [M + "wmv_extract_sample_streams"], budget=120, max_paths=20000)
def wmv_extract(v):
	"""Until a track is complete, every payload of it gives what is at its match offset or
	behind it; only packets that end before every match offset are passed over."""
	m = v.mod("resample.main")
	temps = Temps(v)
	v.patch(m, "tempfile", temps)
	w = Wmv(v, m, True)
	t, o = w.t, w.o
	for x, n in ((t, "track"), (o, "other")):
		x.data_length = v.int(n + "_length", 0, None if v.symbolic else 20)
		x.match_offset = v.int(n + "_offset", 0, 2 ** 62 if v.symbolic else 250)
	q = M + "wmv_extract_sample_streams"
	if v.symbolic:
		def collect(name):
			for x in (t, o):
				x.track_file = Temp(v, v.fresh_bytes("data")) if v.bool("begun%s" %
					v.ctx.fresh("")) else None
			w.tracks.items_[:] = [list(x) for x in w.base]
		def unknown():
			for x in (t, o):
				x.track_file = Unknown()
			w.tracks.items_[:] = [list(x) for x in w.base]
		def packet(v, L, s):
			unknown()
			w.k = s.k
			w.nreads = len(w.reads)
			L["done"] = False
		def passed(v, L, name):
			if len(w.reads) == w.nreads:
				end = w.start + (w.k + 1) * w.psize
				for x in (t, o):
					v.check(name + ":passed-over-in-front-of-the-match", v.Implies(
						x.match_offset > 0, end <= x.match_offset))
		def begin(v, L, s):
			collect("y")
			w.files, w.datas = [x.track_file for x in (t, o)], \
				[x.track_file and x.track_file.data for x in (t, o)]
		def payload(v, L, name):
			p = w.cur
			if L["done"] and not w.done:
				v.check(name + ":done-when-all-is-taken", complete(v, [t, o]))
			at = w.p.data_file_offset + w.prev + p.header_size
			for x, n, f, d in zip((t, o), (w.number, w.oth), w.files, w.datas):
				if bool(p.stream_number == n):
					old = b"" if f is None else d
					if bool(v.And(at + p.data_length >= x.match_offset)):
						v.check(name + ":begun", x.track_file is not None)
						k = v.ite(x.match_offset > at, x.match_offset - at, 0)
						new = old
						if bool(v.len(old) < x.data_length):
							new = old + p.data[k:]
						v.check_eq(name + ":data-from-the-match-offset", x.track_file.data,
							new)
						continue
				v.check(name + ":nothing-taken", (x.track_file is None) == (f is None) and
					(f is None or (x.track_file is f and f.data is d)))
			if bool(v.And(p.stream_number != w.number, p.stream_number != w.oth)):
				n = w.tracks[p.stream_number]
				v.check(name + ":new-track", v.And(n.track_number == p.stream_number,
					n.data_length == 0))
		locs = ["o", "oguid", "total_data_packets", "psize", "start", "data", "packet", "tmp",
			"prev_payloads_size", "track_number", "track", "payload_offset", "tracks_done",
			"track_data"]
		v.loop(q, 1, Anything(w, ["i"] + locs, lambda v, L, s: (unknown(),
			L.__setitem__("done", v.bool("dn"))), lambda v, L, n: v.check(n + ":passed",
			w.passed)))
		v.loop(q, 2, Anything(w, locs[5:], packet, passed))
		v.loop(q, 3, Payloads(w, locs[9:], begin, payload))
	me = C()
	me.archived_file_name = ""
	out = v.call(m.wmv_extract_sample_streams, me, w.tracks, "main")
	v.expect("returns", out)
	v.check("same-tracks", out.value[0] is w.tracks and out.value[1] == {})
	v.check("closed", w.closed)
	if v.symbolic:
		return
	want = {w.number: None, w.oth: None}
	done = False
	for i, ps in enumerate(w.packets):
		at = w.start + i * w.psize
		for p in ps:
			at += p.header_size
			if p.stream_number in want and not done:
				n, x = p.stream_number, w.tracks[p.stream_number]
				if at + len(p.data) >= x.match_offset and w.start + (i + 1) * w.psize >= min(
						[z.match_offset for z in (t, o) if z.match_offset > 0] + [2 ** 63]):
					want[n] = want[n] or b""
					if len(want[n]) < x.data_length:
						want[n] += p.data[max(0, x.match_offset - at):]
			at += p.data_length
		if all(want[n] is not None and len(want[n]) >= w.tracks[n].data_length for n in want) \
				and not any(p.stream_number == 100 for ps in w.packets for p in ps):
			break
	for n in want:
		x = w.tracks[n]
		if x.match_offset > 0 and x.data_length:
			v.check_eq("data-from-the-match-offset", (x.track_file.data if x.track_file else
				b"")[:x.data_length], (want[n] or b"")[:x.data_length])

# -- AVI and Matroska: what becomes of every element ----------------------------------
class Walk(object):
	"""A reader that hands out any elements."""
	vc_ghost = True
	def __init__(self, v, kinds):
		self.v, self.kinds, self.closed, self.log = v, kinds, False, []
		self.left = [] if v.symbolic else [v.choice("kind%d" % i, kinds) for i in
			range(v.int("elements", 0, 9))]
		self.all = []
	def read(self):
		v = self.v
		v.check("element-passed", not self.all or len(self.log) == 1)
		if v.symbolic:
			if v.ctx.choose(2):
				return False
			k = v.choice("kind", self.kinds)
		else:
			if not self.left:
				return False
			k = self.left.pop(0)
		self.kind = k
		self.chunk_type = self.element_type = k
		self.all.append(k)
		self.log = []
		self.make(k)
		return True
	def make(self, k):
		pass
	def move_to_child(self):
		self.log.append("child")
	def read_contents(self):
		self.log.append("read")
		return self.content
	def skip_contents(self):
		self.log.append("skip")
	def close(self):
		self.closed = True

class Each(LoopSpec):
	"""the loop over the elements: step() is what one of them must do"""
	def __init__(self, r, fresh, step, frame=(), names=()):
		self.r, self.fresh_, self.step, self.frame_, self.names = r, fresh, step, frame, names
	def start(self, v, L):
		self.first = True
	def inv(self, v, L, name):
		if self.first:
			self.entry(v, L, name)
		else:
			v.check(name + ":element-passed", len(self.r.log) == 1)
			self.step(v, L, name)
	def entry(self, v, L, name):
		v.check(name + ":not-done", L["done"] == False)
	def havoc(self, v, L):
		self.first = False
		for n in self.names:
			L[n] = None
		self.r.log, self.r.all = [], []
		L["done"] = self.done = v.bool("done%s" % v.ctx.fresh(""))
		self.fresh_(v, L, self)
	def frame(self, v, L):
		return [(self.r, "*")] + list(self.frame_)

def offsets(v, m, n=2):
	"""tracks and the first of their match offsets"""
	ts, first = {}, 2 ** 63
	for k in range(n):
		t = ts[k] = m.TrackData()
		t.match_offset = v.int("offset%d" % k, 0, 2 ** 62 if v.symbolic else 50)
		first = v.ite(v.And(t.match_offset > 0, t.match_offset < first), t.match_offset, first)
	return ts, first

def avi_walk(v, extract):
	"""Lists are entered, the chunks in them handed on, until everything is there; the reader
	starts at the first match offset."""
	m = v.mod("resample.main")
	T = m.RiffChunkType
	r = Walk(v, [T.List, T.Movi, T.Index] if hasattr(T, "Index") else [T.List, T.Movi])
	tracks, first = offsets(v, m)
	opened = []
	def reader(mode, path=None, **kw):
		opened.append((mode, path, kw))
		return r
	v.patch(m, "RiffReader", reader)
	v.patch(m, "remove_spinner", lambda *a: None)
	calls = []
	def normal(tr, rr, count, done):
		v.check("handed-on", tr is tracks and rr is r and r.kind != T.List)
		calls.append((len(r.all), done))
		r.skip_contents()
		r.done = v.bool("d%s" % v.ctx.fresh("")) if v.symbolic else v.bool("d%d" % len(r.all))
		return tr, count + 1, r.done
	which = "_avi_normal_chunk_" + ("extract" if extract else "find")
	v.patch(m, which, normal)
	q = "avi_%s_sample_streams" % ("extract" if extract else "find")
	def step(v, L, name):
		if r.kind == T.List:
			v.check(name + ":entered", r.log == ["child"] and L["done"] == spec.done)
		else:
			v.check(name + ":handed-on", r.log == ["skip"] and L["done"] == r.done)
			v.check(name + ":done-so-far", calls[-1][1] == spec.done)
		v.check(name + ":same-tracks", L["tracks"] is tracks)
	def fresh(v, L, s):
		L["block_count"] = v.fresh_int("count", 0)
		L["tracks"] = tracks
	spec = Each(r, fresh, step, [(calls, "*")])
	if v.symbolic:
		v.loop(M + q, int(extract), spec)
	me = C()
	me.archived_file_name = "in the archive"
	out = v.call(getattr(m, q), me, tracks, "main")
	v.expect("returns", out)
	v.check("same-tracks", same_items(out.value[0] if extract else out.value, tracks))
	v.check("closed", r.closed)
	v.check("main-file-opened", len(opened) == 1 and opened[0][:2] == (m.RiffReadMode.AVI,
		"main") and opened[0][2].get("archived_file_name") == "in the archive")
	if extract:
		v.check("starts-at-the-first-match", opened[0][2]["match_offset"] == first)
	if not v.symbolic:
		n = [i + 1 for i, k in enumerate(r.all) if k != T.List]
		v.check("every-chunk-handed-on", [c for c, d in calls] == n[:len(calls)] and
			len(calls) >= len(n) - 1)
		v.check("ends-when-done", not r.left or calls and r.done)

for _e in (False, True):
	contract("C18", "avi_%s" % ("extract" if _e else "find"), [M + "avi_%s_sample_streams" %
		("extract" if _e else "find")])(lambda v, _e=_e: avi_walk(v, _e))

def mkv_walk(v, extract):
	"""Containers are entered, blocks handed on, the track settings and attachments noted; a
	cluster is passed over only when it ends in front of every match offset."""
	m = v.mod("resample.main")
	T = m.EbmlElementType
	inner = [T.Segment, T.BlockGroup, T.TrackList, T.Track, T.ContentEncodingList,
		T.ContentEncoding, T.Compression] + ([T.AttachmentList, T.Attachment] if extract else
		[])
	kinds = inner + [T.Cluster, T.Block, T.TrackNumber, T.TrackCodec, T.CompressionAlgorithm,
		T.CompressionSettings, T.Timecode, T.Unknown] + ([T.AttachedFileName,
		T.AttachedFileData] if extract else [])
	r = Walk(v, kinds)
	tracks, first = offsets(v, m)
	temps = Temps(v)
	v.patch(m, "tempfile", temps)
	for n in ("show_spinner", "remove_spinner"):
		v.patch(m, n, lambda *a: None)
	opened, calls = [], []
	def reader(mode, path=None, **kw):
		opened.append((mode, path, kw))
		return r
	v.patch(m, "EbmlReader", reader)
	def make(k):
		e = r.current_element = C()
		i = v.ctx.fresh("e") if v.symbolic else str(len(r.all))
		e.element_start_pos = v.int("at" + i, 0, None if v.symbolic else 60)
		e.raw_header = b"h" * 6
		e.length = v.int("length" + i, 0, None if v.symbolic else 40)
		r.number = v.int("number" + i, 0, None if v.symbolic else 4)
		r.content = v.choice("content" + i, [b"cover.jpg", b"x.ttf"])
	r.make = make
	v.patch(m, "GetUIntContent", lambda b: (v.check("number-of-the-content", b is r.content),
		r.number)[1])
	def block(*a):
		if extract:
			tr, main, er, done = a
		else:
			_, tr, er, done, main = a
		v.check("handed-on", tr is tracks and er is r and r.kind == T.Block)
		if spec.L:
			v.check("main-tracks", main is spec.main)
		calls.append((len(r.all), done, main))
		r.skip_contents()
		r.done = v.bool("d%s" % v.ctx.fresh("")) if v.symbolic else v.bool("d%d" % len(r.all))
		return r.done
	v.patch(m, "_mkv_block_" + ("extract" if extract else "find"), block)
	q = "mkv_%s_sample_streams" % ("extract" if extract else "find")
	def fresh(v, L, s):
		s.L = True
		s.cur = L["current_track_nb"] = v.fresh_int("track", 0)
		s.td = m.TrackData()
		s.td.compression_settings = s.settings = b"old"
		s.main = L["tracks_main"] = Numbers(v, {"t": (s.cur, s.td)})
		s.strip = L["header_stripping"] = v.bool("strip%s" % v.ctx.fresh(""))
		L["cluster_count"] = v.fresh_int("clusters", 0)
		if extract:
			# names are distinct (see the property): the data of this one comes once
			s.att = m.AttachmentData(b"cover.jpg")
			L["attachments"] = s.atts = {b"cover.jpg": s.att}
			L["current_attachment"] = b"cover.jpg"
			s.frame_ = s.frame_[:3] + [(s.atts, "*"), (s.att, "*")]
	def step(v, L, name):
		s, k = spec, r.kind
		done = s.done
		want = ["skip"]
		if k in inner:
			want = ["child"]
		elif k == T.Cluster:
			e = r.current_element
			end = e.element_start_pos + len(e.raw_header) + e.length
			want = ["child"]
			if extract:
				v.check(name + ":passed-over-in-front-of-the-match", v.Or(r.log == ["child"],
					end <= first))
				want = r.log if r.log in (["skip"], ["child"]) else want
		elif k == T.Block:
			done = r.done
			v.check(name + ":done-so-far", calls[-1][1] == s.done)
		elif k == T.TrackNumber:
			want, done = ["read"], False
			v.check(name + ":track", L["current_track_nb"] == r.number)
			new = s.main.find(r.number)
			v.check(name + ":track-known", new is not None)
			if bool(r.number != s.cur):
				v.check(name + ":new-track", v.And(new[1].track_number == r.number,
					not new[1].compression_settings))
		elif k in (T.CompressionAlgorithm, T.CompressionSettings):
			want = ["read"]
		if k == T.TrackCodec:
			want = r.log if r.log in (["skip"], ["read"]) else want
		if k == T.AttachedFileName:
			want = ["read"]
			v.check(name + ":attachment", L["current_attachment"] == r.content)
			a = s.atts.get(r.content)
			v.check(name + ":attachment-known", a is not None and (r.content != b"cover.jpg" or
				a is s.att))
		if k == T.AttachedFileData:
			want = ["read"]
			f = s.att.attachment_file
			v.check(name + ":attachment-taken", f is not None and f.data == r.content and
				temps.made[-1:] == [f] and f.begun)
		if k != T.TrackNumber:
			v.check(name + ":same-track", L["current_track_nb"] == s.cur)
		v.check(name + ":passed", r.log == want)
		v.check(name + ":done", L["done"] == done)
		v.check(name + ":header-stripping", L["header_stripping"] == (r.number == 3 if k ==
			T.CompressionAlgorithm else s.strip))
		v.check(name + ":settings", s.td.compression_settings is (r.content if k ==
			T.CompressionSettings and bool(s.strip) else s.settings))
		v.check(name + ":main-tracks", L["tracks_main"] is s.main)
	spec = Each(r, fresh, step, [(calls, "*"), (temps, "*"), (temps.made, "*")],
		("elm_content", "algorithm", "td", "attachment", "att"))
	spec.L = False
	def entry(v, L, name):
		v.check(name + ":at-first", L["done"] == False and L["tracks_main"] == {} and
			not L["header_stripping"] and (not extract or L["attachments"] == {}))
	spec.entry = entry
	if v.symbolic:
		Temp.seek = lambda self, n: setattr(self, "begun", True)
		v.loop(M + q, int(extract), spec)
	me = C()
	me.archived_file_name = "in the archive"
	out = v.call(getattr(m, q), me, tracks, "main")
	if not v.symbolic and out.exc is not None:
		return
	v.expect("returns", out)
	v.check("same-tracks", same_items(out.value[0] if extract else out.value, tracks))
	v.check("closed", r.closed)
	v.check("main-file-opened", len(opened) == 1 and opened[0][:2] == (m.EbmlReadMode.MKV,
		"main") and opened[0][2].get("archived_file_name") == "in the archive")
	if v.symbolic:
		return
	v.check("ends-when-done", not r.left or r.done)

for _e in (False, True):
	contract("C18", "mkv_%s" % ("extract" if _e else "find"), [M + "mkv_%s_sample_streams" %
		("extract" if _e else "find")], budget=90)(lambda v, _e=_e: mkv_walk(v, _e))
