"""C18, C15: what profiling a sample records, one element of the sample at a time.

Size, checksum and tracks of a sample go from here into its SRS file; a wrong value makes a
rebuild impossible or lets a wrong one pass.  The reader is a stand-in that hands out an
element of any kind (the real readers: C17); the checksum so far is that of any bytes."""
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc.values import SymBytes, ze, mk
from contracts.samples import (C, Iter, Reader, Gen, avi_kinds, avi_show, flac_kinds, flac_show,
	mp3_kinds, mp3_show)

M = "resample.main."
SIG = 256

class Table(object):
	"""Tracks by number, any number of them; those a step touches are remembered."""
	vc_ghost = True
	def __init__(self, v, m, most=SIG):
		self.v, self.m, self.most, self.seen = v, m, most, []
		self.total = v.fresh_int("stream_bytes", 0)      # of all tracks so far
	def find(self, n):
		for x in self.seen:
			if bool(x.n == n):
				return x
		x = C()
		x.n, x.t, x.d0, x.s0 = n, None, 0, b""
		if self.may(n) and bool(self.v.bool("known")):
			self.known(x)
		self.seen.append(x)
		return x
	def may(self, n):
		return True
	def known(self, x):
		v = self.v
		t = x.t = self.m.TrackData()
		t.track_number = x.n
		x.d0 = t.data_length = v.fresh_int("track_bytes", 0)
		x.s0 = t.signature_bytes = v.fresh_bytes("track_signature")
		v.assume(v.And(x.d0 <= self.total, v.len(x.s0) <= x.d0, v.len(x.s0) <= self.most,
			v.Or(v.len(x.s0) >= SIG, v.len(x.s0) == x.d0)))
		return t
	def __contains__(self, n):
		return self.find(n).t is not None
	def __getitem__(self, n):
		x = self.find(n)
		if x.t is None:
			raise KeyError(n)
		return x.t
	def __setitem__(self, n, t):
		x = self.find(n)
		self.v.check("a-known-track-is-kept", x.t is None or x.t is t)
		x.t = t
	def setdefault(self, n, t):
		x = self.find(n)
		if x.t is None:
			x.t = t
		return x.t
	def items(self):
		self.listed = True
		def elem(k):
			t = self.last = self.m.TrackData()
			t.track_number = self.v.fresh_int("number", 0)
			t.data_length = self.v.fresh_int("track_bytes", 0)
			return t.track_number, t
		return Iter(self.v, elem)
	def grown(self):
		"""the sum of all lengths now"""
		s = self.total
		for x in self.seen:
			if x.t is not None:
				s = s + x.t.data_length - x.d0
		return s

class Totals(LoopSpec):
	"""total_size: what is no stream data, and the lengths of all tracks"""
	def __init__(self, p, base=None):
		self.p, self.first = p, True
	def inv(self, v, L, name):
		p = self.p
		if self.first:
			v.check(name + ":rest-first", L["total_size"] == p.rest())
		elif name.endswith("preserved"):
			v.check(name + ":one-track-more", L["total_size"] == self.s +
				p.table.last.data_length)
	def havoc(self, v, L):
		p = self.p
		self.first = False
		self.s = L["total_size"] = v.fresh_int("sum", 0)
		if "stream_length" in L:
			L["stream_length"] = v.fresh_int("streams", 0)
		if not bool(L.k < L.n):
			v.assume(self.s == p.rest() + p.table.total)
	def frame(self, v, L):
		return []

class Profile(LoopSpec):
	"""The main loop: counts, checksum and tracks grew by what the element holds."""
	other = "other_length"
	table = None
	def __init__(self, v, m, data, r, stream, carried=None, most=SIG, after=None):
		self.v, self.m, self.data, self.r, self.stream = v, m, data, r, stream
		self.carried, self.most, self.first, self.post = carried, most, True, after
		self.at = 0
	def rest(self):
		return self.at
	def inv(self, v, L, name):
		if self.first:
			v.check(name + ":nothing-yet", v.And(len(L["tracks"]) == 0, L[self.other] == 0))
			v.check(name + ":checksum-of-nothing", self.data.crc32 == 0)
			return
		e = self.r.cur
		track, n = self.stream(e)
		whole = self.piece(e)
		same_crc(v, name + ":checksum-of-all", self.data.crc32, self.before + whole)
		v.check(name + ":every-byte-counted", self.size(L) == v.len(self.before) +
			v.len(whole))
		v.check(name + ":read-in-full", self.passed(e))
		got = n if track is not None else 0
		v.check(name + ":stream-bytes", self.table.grown() == self.table.total + got)
		if track is not None:
			x = self.table.find(track)
			v.check(name + ":track", x.t is not None)
			t = x.t
			v.check(name + ":track-number", t.track_number == track)
			v.check(name + ":track-length", t.data_length == x.d0 + n)
			self.signature(v, name, x, t, e)
		for x in self.table.seen:
			if x.t is not None and (track is None or not bool(x.n == track)):
				v.check(name + ":other-tracks", v.And(x.t.data_length == x.d0,
					x.t.track_number == x.n))
				v.check_eq(name + ":other-signatures", x.t.signature_bytes, x.s0)
		if self.post:
			self.post(v, L, name)
	def size(self, L):
		return L[self.other] + self.table.grown()
	def signature(self, v, name, x, t, e):
		c = e.content
		have, sig = v.len(x.s0), t.signature_bytes
		if bool(have >= SIG):
			return v.check_eq(name + ":signature-is-complete", sig, x.s0)
		n = v.len(sig)
		v.check(name + ":signature-long-enough", v.Or(n >= SIG, n == have + v.len(c)))
		v.check(name + ":signature-not-too-long", n <= self.most)
		v.check(name + ":signature-grows", v.And(n >= have, n <= have + v.len(c)))
		v.check_eq(name + ":signature-is-the-beginning", sig, x.s0 + c[:n - have])
	def piece(self, e):
		w = e.header + e.content
		if e.pad:
			w = w + self.v.pack("<B", e.padbyte)
		return w
	def passed(self, e):
		return len(e.did) == 1
	def havoc(self, v, L):
		self.first = False
		self.before = v.fresh_bytes("bytes_so_far")
		self.data.crc32 = v.crc(self.before)
		self.table = L["tracks"] = Table(v, self.m, self.most)
		self.at = L[self.other] = v.fresh_int("rest_so_far", 0)
		v.assume(self.at + self.table.total == v.len(self.before))
		if self.carried:
			self.carried(v, L)
	def frame(self, v, L):
		return [(self.data, "crc32"), (L["tracks"], "*"), (self.r, "*")]

def same_crc(v, name, got, whole):
	"""the checksum of exactly these bytes"""
	if hasattr(got, "rope"):
		return v.check_eq(name, got.rope, whole)
	v.check(name, got == v.crc(whole))

def counters(*names):
	"""locals that only the progress display and the next element use"""
	def carried(v, L):
		for n in names:
			L[n] = v.fresh_int(n)
	return carried

def quiet(v, m):
	for n in ("show_spinner", "remove_spinner"):
		v.patch(m, n, lambda *a: None)
	v.patch(m, "sep", lambda *a: "0")
	v.patch(m, "print", lambda *a, **k: None)

def sample(v, r):
	d = C()
	d.name, d.crc32 = "sample", None
	d.size = v.int("size", 0, None if v.symbolic else 1)
	return d

def finish(v, m, out, data, r, spec):
	v.check("reader-closed", r.closed)
	if out.exc is not None:
		v.expect("refused-for-its-size", out, m.IncompleteSample)
		v.check("refused-for-its-size", data.size != v.len(spec.before))
		return
	v.check("size-is-that-of-the-file", data.size == v.len(spec.before))
	v.check("checksum-of-the-file", data.crc32 == v.crc(spec.before))
	v.check("all-tracks", out.value[0] is spec.table)

def concrete(v, m, fn, data, r, stream, piece, most=SIG, sized=True):
	"""The same on a whole list of elements.  The size is right, or one off."""
	def listed():
		return b"".join(piece(e) for e in r.log)
	off = v.choice("off", [0, 0, 1, -1]) if sized else 0
	# the size is known only when the elements are: compare late
	class Late(int):
		def __eq__(self, o):
			return o == len(listed()) + off
		def __ne__(self, o):
			return not self == o
		__hash__ = int.__hash__
	data.size = Late(0)
	me = C()
	me.archived_file_name = ""
	out = v.call(fn, me, data)
	if not out.ok:
		v.expect("refused-for-its-size", out, m.IncompleteSample)
		v.check("refused-for-its-size", off != 0)
		return None
	v.check("size-is-that-of-the-file", off == 0)
	v.check("reader-closed", r.closed)
	v.check_eq("checksum-of-the-file", data.crc32 & 0xffffffff, v.crc(listed()))
	want = {}
	for e in r.log:
		k, n = stream(e)
		if k is not None:
			want[k] = want.get(k, b"") + e.content
	got = out.value[0]
	for k in want:
		t = got.get(k)
		v.check("track", t is not None and t.track_number == k)
		v.check_eq("track-length", t.data_length, len(want[k]))
		v.check("signature", want[k].startswith(t.signature_bytes) and
			min(SIG, len(want[k])) <= len(t.signature_bytes) <= most)
	v.check("no-other-stream-bytes", sum(t.data_length for t in got.values()) ==
		sum(len(w) for w in want.values()))
	return out

def with_stream(show, v, name="stream"):
	def shown(r, e):
		e.stream = v.int("stream%d" % r.i, 0, None if v.symbolic else 2)
		show(r, e)
	return shown

# -- AVI ---------------------------------------------------------------------------------
def avi_pad(show):
	"""nothing is padded but a chunk that is read"""
	def shown(r, e):
		if e.kind[0] in ("list", "movilist"):
			e.pad = False
		show(r, e)
		r.current_chunk.chunk_start_pos = 0
		r.read_done = False
	return shown

@contract(["C18", "C15"], "avi_profile", [M + "avi_profile_sample"], budget=120)
def avi_profile(v):
	m = v.mod("resample.main")
	quiet(v, m)
	r = Reader(v, None, avi_kinds(m), avi_pad(with_stream(avi_show(m), v)))
	v.patch(m, "RiffReader", lambda *a, **k: r)
	data = sample(v, r)
	def stream(e):
		return (e.stream, e.length) if e.kind[0] == "movi" else (None, 0)
	if not v.symbolic:
		return concrete(v, m, m.avi_profile_sample, data, r, stream, lambda e: e.header +
			(b"" if e.kind[0] in ("list", "movilist") else e.content) +
			(bytes([e.padbyte]) if e.pad else b"")) and None
	spec = Profile(v, m, data, r, stream, carried=counters("blockcount"))
	spec.piece = lambda e: e.header if e.kind[0] in ("list", "movilist") else \
		Profile.piece(spec, e)
	v.loop(M + "avi_profile_sample", 0, spec)
	v.loop(M + "avi_profile_sample", 1, Totals(spec))
	out = v.call(m.avi_profile_sample, C(), data)
	finish(v, m, out, data, r, spec)

# -- FLAC and MP3 ------------------------------------------------------------------------
class Parts(LoopSpec):
	"""A block is read in pieces: the checksum is that of all up to `read`."""
	def __init__(self, v, data, r, start):
		self.v, self.data, self.r, self.begin = v, data, r, start
	def inv(self, v, L, name):
		e = self.r.cur
		n, k = L["read"], v.len(e.content)
		v.check(name + ":in-the-block", v.And(n >= 0, n <= k))
		if "to_read" in L:
			v.check(name + ":pieces-remain", v.Or(L["to_read"] >= 1, n == k))
		same_crc(v, name + ":checksum-so-far", self.data.crc32, self.begin(e) + e.content[:n])
	def havoc(self, v, L):
		e = self.r.cur
		n = L["read"] = v.fresh_int("read", 0)
		k = v.len(e.content)
		v.assume(n <= k)
		if "to_read" in L:
			p = L["to_read"] = v.fresh_int("to_read")
			v.assume(v.Or(p >= 1, n == k))
		self.data.crc32 = v.crc(self.begin(e) + e.content[:n])
		if "data" in L:
			L["data"] = None
		e.did[:] = ["part"]
	def variant(self, v, L):
		return v.len(self.r.cur.content) - L["read"]
	def frame(self, v, L):
		return [(self.data, "crc32"), (self.r, "*"), (self.r.cur, "*")]

class Music(object):
	def read_part(self, n, at=0):
		v, e = self.v, self.cur
		v.check("part-in-the-block", v.And(n >= 0, at >= 0, at + n <= v.len(e.content)))
		e.did.append("part")
		return e.content[at:at + n]
	def move(self, what):
		Reader.move(self, what)
		self.read_done = True

class FlacR(Music, Reader):
	pass

class Mp3R(Music, Gen):
	def check_moved(self):
		pass

def fingerprinted(v, m):
	fp = ("%d" % v.int("duration", 0, 9) if not v.symbolic else "7", "AQADtE")
	v.patch(m, "fingerprint", lambda *a: fp)
	return fp

def one_audio(show):
	"""one block of audio data at most"""
	def shown(r, e):
		if not r.v.symbolic:
			while e.kind[0] in ("frames", "music") and [x for x in r.log[:-1] if
					x.kind[0] == e.kind[0]]:
				e.kind = r.kinds[-1]
		e.pad = False
		e.stream = 1
		show(r, e)
	return shown

def audio_contract(kind, fn, reader, cls, kinds, show, sort, head, other):
	def run(v):
		m = v.mod("resample.main")
		quiet(v, m)
		fp = fingerprinted(v, m)
		r = cls(v, None, kinds(m), one_audio(show(m)))
		v.patch(m, reader, lambda *a, **k: r)
		data = sample(v, r)
		def stream(e):
			return (1, e.length) if e.kind[0] == sort else (None, 0)
		def piece(e):
			h = e.header if head else b""
			return h if e.kind[0] == "mark" else h + e.content
		def result(out):
			t = out.value[0].get(1)
			if t is not None:
				v.check("fingerprint", t.duration == fp[0] and t.fingerprint == fp[1])
		if not v.symbolic:
			out = concrete(v, m, getattr(m, fn), data, r, stream, piece)
			if out:
				result(out)
			return
		spec = Profile(v, m, data, r, stream, carried=lambda v, L: setattr(L["tracks"],
			"may", lambda n: r.cur is None or r.cur.kind[0] != sort))
		spec.other = other
		spec.piece = piece
		spec.passed = lambda e: e.did[-1:] in (["skip"], ["read"], ["part"])
		def begin(e):
			return spec.before + (e.header if head else b"")
		v.loop(M + fn, 0, spec)
		v.loop(M + fn, 1, Parts(v, data, r, begin))
		v.loop(M + fn, 2, Totals(spec))
		out = v.call(getattr(m, fn), C(), data)
		finish(v, m, out, data, r, spec)
		if out.ok:
			x = spec.table.find(1)
			if x.t is not None:
				v.check("fingerprint", x.t.duration == fp[0] and x.t.fingerprint == fp[1])
	contract(["C18", "C15"], kind + "_profile", [M + fn], budget=120)(run)

audio_contract("flac", "flac_profile_sample", "FlacReader", FlacR, flac_kinds, flac_show,
	"frames", True, "meta_length")
audio_contract("mp3", "mp3_profile_sample", "Mp3Reader", Mp3R, mp3_kinds, mp3_show, "music",
	False, "meta_length")

# -- M2TS --------------------------------------------------------------------------------
def m2ts_show(r, e):
	p = r.current_packet = C()
	e.pad = False
	e.stream = p.pid = r.v.int("pid%d" % r.i, 0, 8191 if r.v.symbolic else 2)
	p.raw_header, p.size = e.header, e.length

@contract("C18", "m2ts_profile", [M + "m2ts_profile_sample"], budget=120)
def m2ts_profile(v):
	m = v.mod("resample.main")
	quiet(v, m)
	r = Reader(v, None, [("packet",)], m2ts_show)
	v.patch(m, "M2tsReader", lambda *a, **k: r)
	data = sample(v, r)
	data.size = None
	def stream(e):
		return e.stream, e.length
	def piece(e):
		return e.header + e.content
	if not v.symbolic:
		concrete(v, m, m.m2ts_profile_sample, data, r, stream, piece, sized=False)
		return
	spec = Profile(v, m, data, r, stream)
	spec.other = "meta_length"
	v.loop(M + "m2ts_profile_sample", 0, spec)
	v.loop(M + "m2ts_profile_sample", 1, Totals(spec))
	out = v.call(m.m2ts_profile_sample, C(), data)
	v.expect("returns", out)
	v.check("reader-closed", r.closed)
	same_crc(v, "checksum-of-the-file", data.crc32, spec.before)
	v.check("all-tracks", out.value[0] is spec.table)

# -- stream files ------------------------------------------------------------------------
@contract(["C18", "C15"], "stream_profile", [M + "stream_profile_sample"])
def stream_profile(v):
	"""One track: the whole file."""
	m = v.mod("resample.main")
	quiet(v, m)
	F = v.bytes("file", 0, None, 700)
	p = v.path("s.vob", F)
	data = sample(v, None)
	data.name = p
	def crc(name):
		v.check("checksum-of-the-sample", name == p)
		return v.crc(F)
	if v.symbolic:
		v.patch(m, "calc_crc32", crc)
	out = v.call(m.stream_profile_sample, C(), data)
	v.expect("returns", out)
	same_crc(v, "checksum", data.crc32, F)
	ts = out.value[0]
	v.check("one-track", list(ts) == [1] and ts[1].track_number == 1)
	v.check("length-of-the-file", ts[1].data_length == v.len(F))
	n = v.ite(v.len(F) < SIG, v.len(F), SIG)
	v.check_eq("signature", ts[1].signature_bytes, F[:n])

# -- Matroska ----------------------------------------------------------------------------
def mkv_profile_kinds(m):
	T = m.EbmlElementType
	def all(kind, names):
		return [(kind, getattr(T, n)) for n in names.split()]
	return [("segment", T.Segment), ("block", T.Block), ("number", T.TrackNumber),
		("codec", T.TrackCodec), ("compression", T.Compression), ("name", T.AttachedFileName),
		("algorithm", T.CompressionAlgorithm), ("settings", T.CompressionSettings),
		("filedata", T.AttachedFileData)] + all("child", "Cluster BlockGroup TrackList Track "
		"ContentEncodingList ContentEncoding AttachmentList Attachment") + all("other",
		"TimecodeScale Timecode Unknown") + [("block", T.Block), ("other", T.Unknown)]

NESTED = ("segment", "child", "compression")
OF_TRACK = ("codec", "compression", "algorithm", "settings")

def mkv_profile_show(v):
	def show(r, e):
		k = e.kind[0]
		e.pad = False
		if not v.symbolic and k in OF_TRACK and not [x for x in r.log if x.kind[0] == "number"]:
			k = "other"
			e.kind = (k, r.kinds[-1][1])
		if k == "codec":
			e.content = v.choice("codec%d" % r.i, [b"V_MPEG4/ISO/AVC", b"\xff\x00S_TEXT", b""])
		elif k == "name":
			e.content = v.choice("filename%d" % r.i, [b"a.ttf", u"\u00e9.ttf".encode("utf-8")])
		elif not v.symbolic and k in ("number", "algorithm"):
			e.content = bytes([v.int("number%d" % r.i, 0, 3)])
		e.length = v.len(e.content)
		e.stream = v.int("stream%d" % r.i, 0, None if v.symbolic else 3)
		c = r.current_element = C()
		c.raw_header, c.length, c.element_start_pos = e.header, e.length, 0
		e.blockheader = c.raw_block_header = v.bytes("blockheader%d" % r.i, 1, None, 8)
		c.track_number = e.stream
		r.element_type = e.kind[1]
		r.read_done = False
	return show

class MkvR(Reader):
	def move(self, what):
		Reader.move(self, what)
		self.read_done = True

class Attached(object):
	"""Attachments by name, any number of them"""
	vc_ghost = True
	def __init__(self, v, m):
		self.v, self.m, self.free, self.new = v, m, [], 0
		self.total = v.fresh_int("attached_bytes", 0)
	def __contains__(self, k):
		if k in self.free or not bool(self.v.bool("attached")):
			self.free.append(k)
			return False
		return True
	def __setitem__(self, k, a):
		self.v.check("no-attachment-is-replaced", k in self.free)
		self.new = self.new + a.size
	def vlen(self):
		n = self.v.fresh_int("attachments", 0)
		if bool(n == 0):
			self.v.assume(self.total == 0)
		return n
	def items(self):
		def elem(k):
			self.last = self.m.AttachmentData("x", self.v.fresh_int("attachment", 0))
			return "x", self.last
		return Iter(self.v, elem)

class Nothing(LoopSpec):
	"""No more than the loop's own control: any number of rounds."""
	def __init__(self, names):
		self.names = names
	def inv(self, v, L, name):
		pass
	def havoc(self, v, L):
		for n, f in self.names.items():
			if n in L:
				L[n] = f(L)
	def frame(self, v, L):
		return []

class AttTotals(LoopSpec):
	"""both sums grow by the size of each attachment"""
	def __init__(self, p):
		self.p, self.first = p, True
	def inv(self, v, L, name):
		p = self.p
		if self.first:
			v.check(name + ":rest-first", v.And(L["total_size"] == p.at,
				L["attachment_size"] == 0))
		elif name.endswith("preserved"):
			n = p.attached.last.size
			v.check(name + ":one-attachment-more", v.And(L["total_size"] == p.at + self.s + n,
				L["attachment_size"] == self.s + n))
	def havoc(self, v, L):
		p = self.p
		self.first = False
		self.s = L["attachment_size"] = v.fresh_int("attachment_sum", 0)
		L["total_size"] = p.at + self.s
		if not bool(L.k < L.n):
			v.assume(self.s == p.attached.total)
	def frame(self, v, L):
		return []

class MkvProfile(Profile):
	def inv(self, v, L, name):
		if self.first:
			v.check(name + ":no-attachments", len(L["attachments"]) == 0)
		elif self.r.cur.kind[0] == "filedata":
			v.check(name + ":attachment-size", self.attached.new == self.r.cur.length)
		else:
			v.check(name + ":no-other-attachment", self.attached.new is 0)
		Profile.inv(self, v, L, name)
	def size(self, L):
		return Profile.size(self, L) + self.attached.total + self.attached.new
	def rest(self):
		return self.at + self.attached.total
	def havoc(self, v, L):
		self.attached = L["attachments"] = Attached(v, self.m)
		Profile.havoc(self, v, L)
		self.before = v.fresh_bytes("all_so_far")
		self.data.crc32 = v.crc(self.before)
		v.assume(self.at + self.table.total + self.attached.total == v.len(self.before))
	def frame(self, v, L):
		return Profile.frame(self, v, L) + [(L["attachments"], "*")]

@contract(["C18", "C15"], "mkv_profile", [M + "mkv_profile_sample"], budget=200,
	max_paths=20000)
def mkv_profile(v):
	m = v.mod("resample.main")
	quiet(v, m)
	r = MkvR(v, None, mkv_profile_kinds(m), mkv_profile_show(v))
	v.patch(m, "EbmlReader", lambda *a, **k: r)
	data = sample(v, r)
	most = 40 * SIG
	def stream(e):
		return (e.stream, e.length) if e.kind[0] == "block" else (None, 0)
	def piece(e):
		if e.kind[0] in NESTED:
			return e.header
		return e.header + (e.blockheader if e.kind[0] == "block" else b"") + e.content
	if not v.symbolic:
		concrete(v, m, m.mkv_profile_sample, data, r, stream, piece, most)
		return
	v.patch(m, "isascii", lambda b: v.bool("ascii"))
	v.patch(m, "GetUIntContent", lambda b: v.fresh_int("number", 0))
	now = {}
	def carried(v, L):
		counters("cluster_count", "block_count")(v, L)
		L["elm_content"] = None
		L["current_attachment_name"] = v.choice("name_before", ["", "a.ttf"])
		now["track"] = L["current_track_nb"] = v.fresh_int("track_before", 0)
		L["current_flag"] = v.bool("stripped")
	spec = MkvProfile(v, m, data, r, stream, carried, most)
	spec.piece = piece
	F = M + "mkv_profile_sample"
	v.loop(F, 0, spec)
	v.loop(F, 1, Nothing(dict(attkey=lambda L: "other")))
	v.loop(F, 2, AttTotals(spec))
	v.loop(F, 3, Totals(spec))
	v.loop(F + ".minimum_signature_size", 0, Nothing(dict(loop=lambda L: L.k,
		offs=lambda L: None)))
	out = v.call(m.mkv_profile_sample, C(), data)
	if isinstance(out.exc, KeyError):
		v.check("only-without-a-track", r.cur.kind[0] in OF_TRACK and
			spec.table.find(now["track"]).t is None)
		return
	finish(v, m, out, data, r, spec)
	if out.ok:
		v.check("all-attachments", out.value[1] is spec.attached)

# -- WMV ---------------------------------------------------------------------------------
def wmv_kinds(m):
	return [("data", m.GUID_DATA_OBJECT), ("other", m.GUID_FILE_OBJECT),
		("header", m.GUID_HEADER_OBJECT), ("stream", m.GUID_STREAM_OBJECT),
		("other", bytes(range(16)))]

def le(v, b, i, n):
	if not v.symbolic:
		return int.from_bytes(b[i:i + n], "little")
	r = 0
	for k in range(n - 1, -1, -1):
		r = r * 256 + b[i + k]
	return r

class WmvR(Reader):
	hdr = (50, 50)
	def read_data_part(self, offset, size):
		v, e = self.v, self.cur
		e.did[:] = ["part"]
		k = self.at(e)
		v.check("packet-place", v.And(offset == e.start + 50 + k * e.psize, size == e.psize))
		self.part = v.fresh_bytes("packet", size) if v.symbolic else \
			e.content[k * e.psize:(k + 1) * e.psize]
		e.k = k + 1
		return self.part

def wmv_show(v, m):
	def show(r, e):
		e.pad = False
		i = r.i
		e.start = v.int("start%d" % i, 0, 2 ** 62)
		if e.kind[0] in ("stream", "other"):
			v.assume(v.len(e.content) >= 50) if v.symbolic else None
			if not v.symbolic:
				e.content = e.content.ljust(50, bytes([i]))
				e.length = len(e.content)
		if e.kind[0] == "data":
			if v.symbolic:
				e.packets = v.int("packets%d" % i, 1)
				e.psize = v.int("psize%d" % i, 1)
				e.left = v.int("left%d" % i, 0)
				v.assume(e.left < e.packets)
				v.assume(le(v, e.header, 40, 8) == e.packets)
				e.length = e.packets * e.psize + e.left
				# the integer quotient
				v.assume((e.length) // e.packets == e.psize)
			else:
				e.packets = v.int("packets%d" % i, 1, 4)
				e.psize = v.int("psize%d" % i, 1, 400)
				e.left = 0
				e.header = e.header[:40] + e.packets.to_bytes(8, "little") + e.header[48:]
				e.content = bytes((i * 7 + j * 31) % 251 for j in range(e.packets * e.psize))
				e.length = len(e.content)
		c = r.current_object = C()
		c.raw_header, c.type, c.start_pos = e.header, e.kind[1], e.start
		c.size = c.osize = 50 + e.length
		r.object_guid = e.kind[1]
		r.read_done = False
	return show

class Packets(LoopSpec):
	"""Packets: all their bytes in the checksum, stream data with the tracks, the rest
	counted; what is padding is collected."""
	def __init__(self, p):
		self.p, self.first = p, True
	def inv(self, v, L, name):
		p = self.p
		e = p.r.cur
		if self.first:
			self.base = p.before + e.header
			same_crc(v, name + ":header-first", p.data.crc32, self.base)
			v.check(name + ":only-the-header-counted", L["meta_length"] == p.at + 50)
			v.check(name + ":no-stream-data", p.table.grown() == p.table.total)
			v.check(name + ":no-padding", L["padding_amount"] == 0)
			v.check_eq(name + ":no-padding", L["padding_bytes"], b"")
			return
		q = p.packet
		n = v.len(q.data)
		same_crc(v, name + ":checksum-of-all", p.data.crc32, self.base + self.pk + q.data)
		v.check(name + ":every-byte-counted", L["meta_length"] + p.table.grown() ==
			v.len(self.base) + v.len(self.pk) + n)
		v.check(name + ":padding-counted", L["padding_amount"] == self.amount +
			q.padding_length)
		v.check_eq(name + ":padding-kept", L["padding_bytes"], self.padding +
			q.data[n - q.padding_length:])
	def havoc(self, v, L):
		p = self.p
		e = p.r.cur
		self.first = False
		self.pk = e.pk = v.fresh_bytes("packets")
		v.assume(v.len(self.pk) == L.k * e.psize)
		p.data.crc32 = v.crc(self.base + self.pk)
		p.table = L["tracks"] = Table(v, p.m)
		m = L["meta_length"] = v.fresh_int("rest_of_packets", 0)
		v.assume(m + p.table.total == v.len(self.base) + v.len(self.pk))
		self.padding = L["padding_bytes"] = e.padding = v.fresh_bytes("padding")
		self.amount = L["padding_amount"] = v.len(self.padding)
		p.k = L.k
		e.did[:] = ["part"]
	def frame(self, v, L):
		p = self.p
		return [(p.data, "*"), (L["tracks"], "*"), (p.r, "*"), (p.r.cur, "*")]

class OfPacket(LoopSpec):
	"""payloads: each adds to its own track"""
	def __init__(self, p):
		self.p, self.first = p, True
	def inv(self, v, L, name):
		p = self.p
		if self.first:
			q = p.packet
			v.check(name + ":nothing-yet", v.And(L["payloads_sizes"] == 0,
				L["headers_sizes"] == 0))
			v.check_eq(name + ":packet-header", L["header_data"],
				q.data[:v.len(q.data) - q.payload_data_len])
			self.total = p.table.grown()
			self.q = q
			return
		y = p.payload
		n = v.len(y.data)
		v.check(name + ":sizes", v.And(L["payloads_sizes"] == self.s + n,
			L["headers_sizes"] == self.h + v.len(y.header_data)))
		v.check(name + ":headers", v.len(L["header_data"]) == self.hl + v.len(y.header_data))
		v.check(name + ":stream-bytes", p.table.grown() == p.table.total + n)
		x = p.table.find(y.stream_number)
		v.check(name + ":track", x.t is not None)
		t = x.t
		v.check(name + ":track-number", t.track_number == y.stream_number)
		v.check(name + ":track-length", t.data_length == x.d0 + n)
		e = C()
		e.content = y.data
		p.signature(v, name, x, t, e)
	def havoc(self, v, L):
		p, q = self.p, self.q
		self.first = False
		s = self.s = L["payloads_sizes"] = v.fresh_int("payloads_so_far", 0)
		h = self.h = L["headers_sizes"] = v.fresh_int("headers_so_far", 0)
		L["header_data"] = v.fresh_bytes("header_data")
		self.hl = v.len(L["header_data"])
		v.assume(self.hl == v.len(q.data) - q.payload_data_len + h)
		p.table = L["tracks"] = Table(v, p.m)
		v.assume(p.table.total == self.total + s)
		for n in ("track", "b", "sig", "lsig", "td"):
			if n in L:
				L[n] = None
		if not bool(L.k < L.n):
			# contract of asf_data_get_packet (C17): payloads and padding fill the packet
			v.assume(s + h + q.padding_length == q.payload_data_len)
	def frame(self, v, L):
		return [(L["tracks"], "*")]

class WmvProfile(Profile):
	def inv(self, v, L, name):
		if self.first:
			return Profile.inv(self, v, L, name)
		e = self.r.cur
		if e.kind[0] != "data":
			return Profile.inv(self, v, L, name)
		same_crc(v, name + ":checksum-of-all", self.data.crc32, self.before + e.header + e.pk)
		v.check(name + ":all-packets", v.len(e.pk) == e.packets * e.psize)
		v.check(name + ":every-byte-counted", self.size(L) == v.len(self.before) + 50 +
			v.len(e.pk))
		v.check_eq(name + ":padding", self.data.padding_bytes, e.padding)
		v.check(name + ":padding-counted", self.data.padding_amount == v.len(e.padding))
	def frame(self, v, L):
		return [(self.data, "*"), (L["tracks"], "*"), (self.r, "*")]

@contract(["C18", "C15"], "wmv_profile", [M + "profile_wmv"], budget=120)
def wmv_profile(v):
	m = v.mod("resample.main")
	quiet(v, m)
	r = WmvR(v, None, wmv_kinds(m), wmv_show(v, m))
	v.patch(m, "AsfReader", lambda *a, **k: r)
	data = sample(v, r)
	st = C()
	st.streams, st.pad = {}, []
	def getpacket(p, psize, *mode):
		e = r.cur
		v.check("packet-size", psize == e.psize)
		v.check("packet-data-size", p.data_size == v.len(p.data))
		v.check_eq("packet-data", p.data, r.part)
		n = v.len(p.data)
		if v.symbolic:
			p.payload_data_len = v.fresh_int("paylen", 1)
			p.padding_length = v.fresh_int("padding", 0)
			v.assume(p.payload_data_len <= n)
			v.assume(p.padding_length <= p.payload_data_len)
			def elem(k):
				y = spec.payload = C()
				y.header_data = v.fresh_bytes("payloadheader")
				y.data = v.fresh_bytes("payload")
				y.header_size, y.data_length = v.len(y.header_data), v.len(y.data)
				y.stream_number = v.fresh_int("stream", 0, 127)
				return y
			p.payloads = Iter(v, elem)
			spec.packet = p
			return psize
		cut = v.int("cut%d.%d" % (r.i, e.k), 0, n - 1)
		p.payload_data_len = n - cut
		p.padding_length = v.int("pad%d.%d" % (r.i, e.k), 0, n - cut)
		rest = p.data[cut:n - p.padding_length]
		p.payloads = []
		while rest:
			y = C()
			h = v.int("h%d" % len(rest), 0, min(9, len(rest)))
			k = v.int("d%d" % len(rest), 1, len(rest)) if h < len(rest) else 0
			y.header_data, y.data, rest = rest[:h], rest[h:h + k], rest[h + k:]
			y.header_size, y.data_length = len(y.header_data), len(y.data)
			y.stream_number = k % 3
			st.streams[k % 3] = st.streams.get(k % 3, b"") + y.data
			p.payloads.append(y)
		st.pad.append(p.data[n - p.padding_length:])
		return psize
	v.patch(m, "asf_data_get_packet", getpacket)
	if not v.symbolic:
		r.at = lambda e: getattr(e, "k", 0)
		out = v.call(m.profile_wmv, data)
		if isinstance(out.exc, AssertionError):
			return v.check("refused-for-a-second-stream-object", [e for e in r.log if
				e.kind[0] == "stream"])
		v.expect("returns", out)
		whole = b"".join(e.header + (b"" if e.kind[0] == "header" else e.content)
			for e in r.log)
		v.check_eq("checksum", data.crc32 & 0xffffffff, v.crc(whole))
		ts = out.value
		for k, w in st.streams.items():
			v.check_eq("track-length", ts[k].data_length, len(w))
			v.check_eq("signature", ts[k].signature_bytes, w[:SIG])
			v.check("track-number", ts[k].track_number == k)
		v.check_eq("rest", data.other_length, len(whole) - sum(map(len, st.streams.values())))
		return
	r.at = lambda e: spec.k
	def stream(e):
		return None, 0
	def passed_not(e):
		return True
	spec = WmvProfile(v, m, data, r, stream)
	spec.piece = lambda e: e.header if e.kind[0] == "header" else e.header + e.content
	spec.other = "meta_length"
	F = M + "profile_wmv"
	v.loop(F, 0, spec)
	v.loop(F, 1, Packets(spec))
	v.loop(F, 2, OfPacket(spec))
	out = v.call(m.profile_wmv, data)
	if isinstance(out.exc, AssertionError):
		return v.check("refused-for-a-second-stream-object", r.cur.kind[0] == "stream")
	v.expect("returns", out)
	v.check("reader-closed", r.closed)
	v.check("rest", data.other_length == spec.at)
	v.check("all-tracks", out.value is spec.table)

@contract(["C18", "C15"], "wmv_profile_total", [M + "wmv_profile_sample"])
def wmv_profile_total(v):
	"""Accepted exactly when tracks and the rest make up the file."""
	profile_total(v, "wmv_profile_sample", "profile_wmv")

def profile_total(v, fn, called, extra=0):
	m = v.mod("resample.main")
	quiet(v, m)
	data = C()
	data.name, data.crc32 = "sample", 0
	data.size = v.int("size", 0, None if v.symbolic else 60)
	data.other_length = v.int("rest", 0, None if v.symbolic else 60)
	data.mdat_size = v.int("mdat", 0, None if v.symbolic else 60)
	p = C()
	p.rest = lambda: data.other_length
	if v.symbolic:
		p.table = Table(v, m)
	else:
		p.table = {}
		for k in range(v.int("tracks", 0, 2)):
			t = p.table[k] = m.TrackData()
			t.track_number, t.data_length = k, v.int("length%d" % k, 0, 30)
	def profile(d, *a, **k):
		v.check("of-the-sample", d is data)
		return p.table
	v.patch(m, called, profile)
	me = C()
	me.archived_file_name = ""
	if v.symbolic:
		v.loop(M + fn, 0, Totals(p))
		v.loop(M + fn, 1, Streams(p))
	out = v.call(getattr(m, fn), me, data)
	total = data.other_length + (p.table.total if v.symbolic else
		sum(t.data_length for t in p.table.values()))
	if fn.startswith("mp4") and bool(v.And(total < data.size, total < 100)):
		total = total + data.mdat_size
	if out.exc is not None:
		v.expect("refused-for-its-size", out, m.IncompleteSample)
		return v.check("refused-for-its-size", data.size != total)
	v.check("size-is-that-of-the-file", data.size == total)
	v.check("all-tracks", out.value[0] is p.table)

class Streams(LoopSpec):
	"""the sum that is shown"""
	def __init__(self, p):
		pass
	def inv(self, v, L, name):
		pass
	def havoc(self, v, L):
		L["stream_length"] = v.fresh_int("streams", 0)
	def frame(self, v, L):
		return []

@contract(["C18", "C15"], "mp4_profile_total", [M + "mp4_profile_sample"])
def mp4_profile_total(v):
	profile_total(v, "mp4_profile_sample", "profile_mp4")
