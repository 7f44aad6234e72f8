"""C18: the sample is rebuilt one element at a time from the SRS file and the extracted
tracks, and the checksum that decides success is the checksum of what was written."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc import core, models
from pyvc.values import SymBytes, ze, mk
from contracts.samples import (M, C, Iter, St, Step, Each, Reader, Gen, Tr, le, moved,
	avi_kinds, avi_show, mkv_kinds, mkv_show, mov_kinds, mov_show, flac_kinds, flac_show,
	mp3_kinds, mp3_show, asf_kinds_srs, asf_show, AsfR, padded)

class Track(object):
	"""extracted stream data and how far it has been used"""
	vc_ghost = True
	def __init__(self, v, name, data, pos=0):
		self.name, self.data, self.pos0 = name, data, pos
		self.f = v.file(data)
		if v.symbolic or pos:
			self.f.seek(pos)
		self.track_file = self.f
		self.track_number = name
		self.flags = 0
	@property
	def attachment_file(self):
		return self.f

class TrackMap(object):
	"""tracks by number: any data, used up to any point"""
	vc_ghost = True
	def __init__(self, v, fresh=True, atbegin=False):
		self.v, self.got, self.atbegin = v, [], atbegin
		self.seekers = []
	def __getitem__(self, k):
		for q, t in self.got:
			if q is k or bool(q == k):
				return t
		v = self.v
		d = v.fresh_bytes("trackdata")
		p = 0 if self.atbegin else v.fresh_int("used", 0)
		if not self.atbegin:
			v.ctx.axiom(p.e <= d.zlen())
		t = Track(v, k, d, p)
		self.got.append((k, t))
		return t
	def __contains__(self, k):
		return True
	def values(self):
		def elem(k):
			t = C()
			t.track_file = C()
			t.seeks = []
			def seek(*a):
				t.seeks.append(a)
				return 0
			t.track_file.seek = seek
			self.seekers.append(t)
			return t
		return Iter(self.v, elem)

class Rewind(LoopSpec):
	"""every track starts at its begin"""
	def __init__(self, tracks):
		self.tracks, self.first = tracks, True
	def inv(self, v, L, name):
		if not self.first:
			t = self.tracks.seekers[-1]
			v.check(name + ":track-at-its-begin", t.seeks and t.seeks[-1] in ((0,), (0, 0)))
	def havoc(self, v, L):
		self.first = False
		self.tracks.seekers = []

class RStep(Step):
	"""adds: the checksum so far is that of the output so far"""
	crcname = "crc"
	def inv(self, v, L, name):
		Step.inv(self, v, L, name)
		v.check(name + ":checksum-of-what-was-written",
			L[self.crcname] == v.crc(self.st.content()))
	def havoc(self, v, L):
		Step.havoc(self, v, L)
		L[self.crcname] = v.crc(self.st.before)

def own_records(kinds):
	return lambda m: kinds(m) + {avi_kinds: lambda: [
		("own", m.RiffChunkType.Unknown, None, b"SRSF"),
		("own", m.RiffChunkType.Unknown, None, b"SRST")],
		mov_kinds: lambda: [("own", b"SRSF"), ("own", b"SRST")],
		mkv_kinds: lambda: [("own", m.EbmlElementType.ReSample)],
		flac_kinds: lambda: [("own", ord("s")), ("own", ord("t")), ("own", ord("u"))],
		mp3_kinds: lambda: [("own", "SRSF"), ("own", "SRST"), ("own", "SRSP")]}[kinds]()

class FD(object):
	"""FileData of the file that was written"""
	vc_ghost = True

def rebuilder(name, fn, reader, cls, kinds, show, body, allowed, rewind=None, main=0,
		reset=False, carried=None, shapes=None, before=None, atbegin=False, attach=False,
		finish=None):
	"""body(v, m, r, e, tracks, st): the bytes an element gives back"""
	def run(v):
		"""Every element gives back what the sample had there: headers, metadata and
		padding as stored, stream data from its track, in order; our own records are left
		out.  The result carries the checksum of exactly the bytes written."""
		m = v.mod("resample.main")
		st = St(v, m, "sample.out")
		r = cls(v, st, kinds(m), show(m))
		v.patch(m, reader, lambda *a, **k: r)
		st.r = r
		data = C()
		data.flags = 3 if v.bool("removed") else 1
		data.crc32 = v.int("crc", 0, 2 ** 32 - 1)
		st.data = data
		if v.symbolic:
			tracks = TrackMap(v, atbegin=atbegin)
			st.attachments = TrackMap(v)
			class Made(object):
				vc_ghost = True
				NO_FLAGS, SIMPLE_BLOCK_FIX, ATTACHMENTS_REMOVED = 0, 1, 2
				def __init__(self, buff=None, file_name=None):
					v.check("result-describes-the-output", file_name == st.path)
			v.patch(m, "FileData", Made)
		else:
			tracks = {}
			for k in range(1, 5):
				tracks[k] = Track(v, k, v.bytes("trackdata%d" % k, 0, None, 60))
			if reset:
				# a stream of the main file only
				tracks[5] = Track(v, 5, b"", 0)
				tracks[5].track_file = None
			st.attachments = {}
		st.tracks = tracks
		def after():
			e = r.cur
			if e.kind[0] == "own":
				moved(v, e, "step", ("skip", "read")) if not issubclass(cls, Gen) else None
			else:
				a = allowed(e)
				if a:
					moved(v, e, "step", a)
			return body(v, m, r, e, tracks, st), False, b""
		if v.symbolic:
			if rewind is not None:
				v.loop(M + fn, rewind, Rewind(tracks))
			if reset:
				v.stub(M + "reset_file_positions", lambda t: v.check("rewinds-the-tracks",
					t is tracks))
			v.loop(M + fn, main, RStep(st, after, carried and (lambda v, L: carried(v, L, st))))
			if before:
				before(v, m, st)
		else:
			v.patch(m, "show_spinner", lambda *a: None)
			if before:
				before(v, m, st)
		out = v.call(getattr(m, fn), C(), data, tracks, st.attachments, "in.srs", st.path)
		v.expect("rebuilds", out, *((AssertionError,) if name == "flac" else ()))
		if not out.ok:
			return
		v.check("reader-closed", r.closed)
		if v.symbolic:
			v.check("output-closed", st.out.closed)
			v.check_eq("nothing-else", st.out.node.content, st.before)
			v.check("checksum-of-the-output", out.value.crc32 == v.crc(st.before))
			return
		got = v.fcontent(st.path)
		v.check("checksum-of-the-output", out.value.crc32 == v.crc(got))
		want = b""
		used = {}
		for t in list(tracks.values()) + list(st.attachments.values()):
			t.used = 0
		for e in r.log:
			want += body(v, m, r, e, tracks, st)
		v.check_eq("bytes", got, want)
		v.check("size-of-the-output", out.value.size == len(got))
	contract("C18", "rebuild_" + name, [M + fn], budget=120)(run)

def take(v, t, n=None):
	"""the next n bytes of the track (all of them)"""
	if v.symbolic:
		p = t.pos0
		N = v.len(t.data)
		e = N if n is None else v.ite(p + n > N, N, p + n)
		return t.data[p:e]
	b = t.data[t.used:] if n is None else t.data[t.used:t.used + n]
	t.used += len(b)
	return b

def with_stream(show):
	def make(m):
		s = show(m)
		def show2(r, e):
			e.stream = r.v.int("stream%d" % (r.i - 1), 1, 4)
			if "block" in e.kind or "movi" in e.kind:
				# stream data is not in the SRS file; its length is
				e.length = r.v.int("streamlen%d" % (r.i - 1), 0, None if r.v.symbolic else 30)
			s(r, e)
		return show2
	return make

# AVI
def avi_body(v, m, r, e, tracks, st):
	k = e.kind[0]
	if k == "own":
		return b""
	if k in ("list", "movilist"):
		return e.header
	return e.header + padded(v, e, take(v, tracks[e.stream], e.length) if k == "movi"
		else e.content)

def counted(name):
	def carried(v, L, st):
		L[name] = v.fresh_int("count", 0)
	return carried

rebuilder("avi", "avi_rebuild_sample", "RiffReader", Reader, own_records(avi_kinds),
	with_stream(avi_show), avi_body, lambda e: ("child",) if e.kind[0] in ("list", "movilist")
	else ("skip", "read") if e.kind[0] == "movi" else ("read",), reset=True,
	carried=counted("block_count"))

# Matroska
def mkv_body(v, m, r, e, tracks, st):
	k = e.kind[0]
	if k == "own":
		return b""
	if k in ("segment", "child"):
		return e.header
	if k == "block":
		return e.header + e.blockheader + take(v, tracks[e.stream], e.length)
	if k == "filedata":
		key = st.current
		return e.header + take(v, st.attachments[key])
	if e.kind[1] == m.EbmlElementType.AttachedFileName and not v.symbolic:
		st.current = e.content
	return e.header + e.content

def mkv_carried(v, L, st):
	L["cluster_count"] = v.fresh_int("count", 0)
	st.current = v.fresh_bytes("attachment")
	L["current_attachment"] = st.current

class MkvStep(RStep):
	def inv(self, v, L, name):
		RStep.inv(self, v, L, name)
		if not self.first:
			e = self.st.r.cur
			m = self.st.m
			if e.kind[1] == m.EbmlElementType.AttachedFileName:
				v.check_eq(name + ":name-of-the-attachment", L["current_attachment"], e.content)
			else:
				v.check(name + ":same-attachment", L["current_attachment"] is self.st.current)

def mkv_before(v, m, st):
	if v.symbolic:
		s = v.env.loops[(M + "mkv_rebuild_sample", 0)]
		s.__class__ = MkvStep
		return
	names = [b"a.ttf", b"", b"b"]
	for n in names:
		st.attachments[n] = Track(v, n, v.bytes("att%d" % len(st.attachments), 0, None, 30))
	show = st.r.show
	def show2(r, e):
		if e.kind[1] == m.EbmlElementType.AttachedFileName:
			e.content = v.choice("attname%d" % r.i, names)
			r.named = True
		if e.kind[0] == "filedata" and not getattr(r, "named", False):
			e.kind = ("other", m.EbmlElementType.Unknown)
		show(r, e)
	st.r.show = show2

rebuilder("mkv", "mkv_rebuild_sample", "EbmlReader", Reader, own_records(mkv_kinds),
	with_stream(mkv_show), mkv_body, lambda e: dict(segment=("child",), child=("child",),
	filedata=("skip", "child"), block=("skip", "child", "read"), other=("read",))[e.kind[0]],
	reset=True, carried=mkv_carried, before=mkv_before)

@contract("C18", "rewind_tracks", [M + "reset_file_positions"])
def rewind_tracks(v):
	"""Every extracted track is read from its begin; tracks without data are left alone."""
	m = v.mod("resample.main")
	if v.symbolic:
		has = v.bool("extracted")
		t = C()
		t.seeks = []
		t.track_file = None
		if has:
			t.track_file = C()
			t.track_file.seek = lambda *a: t.seeks.append(a)
		class L0(LoopSpec):
			first = True
			def inv(self, v, L, name):
				if not self.first:
					v.check(name + ":at-its-begin", t.seeks in ([(0,)], [(0, 0)]) if has
						else not t.seeks)
			def havoc(self, v, L):
				self.first = False
				t.seeks[:] = []
		spec = L0()
		v.loop(M + "reset_file_positions", 0, spec)
		tracks = C()
		tracks.values = lambda: Iter(v, lambda k: t)
		v.expect("rewinds", v.call(m.reset_file_positions, tracks))
		v.check("every-track", spec.visited)
		return
	tracks = {}
	for k in range(v.int("n", 0, 4)):
		tracks[k] = Track(v, k, b"abcdef", 3)
		if v.bool("none%d" % k):
			tracks[k].track_file = None
	v.expect("rewinds", v.call(m.reset_file_positions, tracks))
	for t in tracks.values():
		v.check("at-its-begin", t.f.tell() == (0 if t.track_file else 3))

# MP4: the chunks of all tracks in the order of their offsets
def mov_body(v, m, r, e, tracks, st):
	k = e.kind[0]
	if k == "own":
		return b""
	if k != "mdat":
		return e.header + e.content
	if v.symbolic:
		return None
	return e.header + b"".join(take(v, tracks[n], sum(c.samples)) for c, n in st.chunks)

class MovStep(RStep):
	def done(self, v, name):
		st = self.st
		e = st.r.cur
		if e.kind[0] == "mdat":
			moved(v, e, name, ("child", "skip"))
			v.check(name + ":chunks-written", st.inner)
			v.check_eq(name + ":behind-the-chunks", st.content(), st.mid)
		else:
			RStep.done(self, v, name)

def mov_before(v, m, st):
	if not v.symbolic:
		st.chunks = []
		for k in range(v.int("chunks", 0, 4)):
			c = C()
			c.samples = [v.int("sample%d_%d" % (k, j), 0, 9) for j in range(v.int("s%d" % k, 0, 3))]
			st.chunks.append((c, v.int("chunktrack%d" % k, 1, 4)))
		v.patch(m, "order_chunks", lambda t: st.chunks)
		v.patch(m, "profile_mp4_srs", lambda srs, t: t)
		v.patch(m, "mp4_add_track_stream", lambda t: t)
		return
	v.env.loops[(M + "mp4_rebuild_sample", 1)].__class__ = MovStep
	v.patch(m, "profile_mp4_srs", lambda srs, t: t)
	v.patch(m, "mp4_add_track_stream", lambda t: t)
	def chunk(k):
		c = C()
		c.samples = Iter(v, lambda k: v.fresh_int("sample", 0))
		st.size = c.samples.total = v.fresh_int("chunk", 0)
		st.nb = v.fresh_int("track", 1)
		return (c, st.nb)
	def order(t):
		v.check("orders-these-tracks", t is st.tracks)
		return Iter(v, chunk)
	v.patch(m, "order_chunks", order)
	m.sum = lambda s: s.total
	v.ctx.undo.append(lambda: delattr(m, "sum"))
	class Chunks(Each):
		def inv(self, v, L, name):
			Each.inv(self, v, L, name)
			v.check(name + ":checksum-of-what-was-written", L["crc"] == v.crc(st.content()))
		def havoc(self, v, L):
			Each.havoc(self, v, L)
			L["crc"] = v.crc(st.mid)
	v.loop(M + "mp4_rebuild_sample", 2, Chunks(st, lambda: st.before + st.r.cur.header,
		lambda L: take(v, st.tracks[st.nb], st.size)))

rebuilder("mp4", "mp4_rebuild_sample", "MovReader", Reader, own_records(mov_kinds),
	mov_show, mov_body, lambda e: None if e.kind[0] == "mdat" else ("read",), rewind=0, main=1,
	before=mov_before)

# FLAC
def flac_body(v, m, r, e, tracks, st):
	if e.kind[0] == "own":
		return b""
	if e.kind[0] == "mark":
		return b"fLaC"
	b = e.header + e.content
	if e.pad:                    # the last metadata block: the frames follow
		b += tracks[1].data
	return b

def flac_rebuild_kinds(m):
	return [k for k in own_records(flac_kinds)(m) if k[0] != "frames" and
		not (k[0] == "other" and k[1] == ord("s"))]

def flac_carried(v, L, st):
	L["srs_flac_blocks"] = v.fresh_int("own", 0, 3)

def flac_show2(m):
	s = flac_show(m)
	def show(r, e):
		if any(x.pad for x in r.log[:-1]) or e.kind[0] in ("mark", "own"):
			e.pad = False          # one last block
		if e.kind[0] == "own" and not r.v.symbolic and \
				sum(x.kind[0] == "own" for x in r.log[:-1]) >= 3:
			e.kind = ("other", 4)
		s(r, e)
		inner = r.move
	return show

class FlacReader(Reader):
	def move(self, what):
		Reader.move(self, what)
		self.read_done = True

rebuilder("flac", "flac_rebuild_sample", "FlacReader", FlacReader, flac_rebuild_kinds,
	flac_show2, flac_body, lambda e: ("skip", "read") if e.kind[0] == "mark" else ("read",),
	rewind=0, main=1, carried=flac_carried, atbegin=True)

# MP3
def mp3_body(v, m, r, e, tracks, st):
	if e.kind[0] != "own":
		return e.content
	if v.symbolic:
		return tracks[1].data if not st.written else b""
	first = [x for x in r.log if x.kind[0] == "own"][0]
	return tracks[1].data if e is first else b""

def mp3_carried(v, L, st):
	st.written = bool(v.fresh_int("written", 0, 1) == 1)
	L["main_data_written"] = st.written

class Mp3Step(RStep):
	def inv(self, v, L, name):
		RStep.inv(self, v, L, name)
		if not self.first:
			v.check(name + ":music-once", L["main_data_written"] ==
				(self.st.written or self.st.r.cur.kind[0] == "own"))
		else:
			v.check(name + ":no-music-yet", not L["main_data_written"])

def mp3_before(v, m, st):
	if v.symbolic:
		v.env.loops[(M + "mp3_rebuild_sample", 1)].__class__ = Mp3Step

rebuilder("mp3", "mp3_rebuild_sample", "Mp3Reader", Gen,
	lambda m: [k for k in own_records(mp3_kinds)(m) if k[0] != "music"], mp3_show, mp3_body,
	lambda e: ("read",), rewind=0, main=1, carried=mp3_carried, before=mp3_before,
	atbegin=True)

@contract("C18", "rebuild_stream", [M + "stream_rebuild_sample"])
def rebuild_stream(v):
	"""The whole track, from its begin, is the sample."""
	m = v.mod("resample.main")
	d = v.bytes("data", 0, None, 100)
	p = v.int("pos", 0, None if v.symbolic else len(d))
	v.assume(p <= v.len(d))
	t = Track(v, 1, d, p)
	path = v.path("sample.out")
	if v.symbolic:
		class Made(object):
			vc_ghost = True
			def __init__(self, buff=None, file_name=None):
				v.check("result-describes-the-output", file_name == path)
		v.patch(m, "FileData", Made)
	out = v.call(m.stream_rebuild_sample, C(), C(), {1: t}, {}, "x.srs", path)
	v.expect("rebuilds", out)
	v.check_eq("bytes", v.fcontent(path), d)
	v.check("checksum-of-the-output", out.value.crc32 == v.crc(d))

# WMV
@contract("C18", "rebuild_wmv", [M + "wmv_rebuild_sample"], budget=120)
def rebuild_wmv(v):
	"""Objects as stored; of the data object every packet: its header, each payload's
	header and data, and the padding (the stored bytes, or zeros)."""
	m = v.mod("resample.main")
	st = St(v, m, "sample.out")
	r = AsfR(v, st, asf_kinds_srs(m), asf_show(m))
	r.parts = []
	v.patch(m, "AsfReader", lambda *a, **k: r)
	data = C()
	stored = v.bool("stored_padding")
	if stored:
		data.padding_bytes = v.bytes("padding", 0, None, 60)
	if v.symbolic:
		tracks = TrackMap(v)
		class Made(object):
			vc_ghost = True
			def __init__(self, buff=None, file_name=None):
				v.check("result-describes-the-output", file_name == st.path)
		v.patch(m, "FileData", Made)
		v.stub(M + "reset_file_positions", lambda t: v.check("rewinds-the-tracks",
			t is tracks))
	else:
		tracks = {}
		for k in range(1, 4):
			tracks[k] = Track(v, k, v.bytes("trackdata%d" % k, 0, None, 200))
			tracks[k].used = 0
		v.patch(m, "show_spinner", lambda *a: None)
	show = r.show
	def show2(r, e):
		if not v.symbolic and e.kind[0] == "data":
			e.header = e.header[:40] + bytes([v.int("packets%d" % r.i, 1, 3)]) + bytes(7) + \
				e.header[48:]
		show(r, e)
		if v.symbolic:
			if e.kind[0] == "data":
				v.assume(le(e.header, 40, 8) >= 1)
		else:
			n = le(e.header, 40, 8)
			e.size = 50 + n * v.int("psize%d" % r.i, 1, 30)
			r.current_object.size = r.current_object.osize = e.size
			e.bytes, e.at, e.k = b"", 0, 0
	r.show = show2
	st.pad = 0
	def getpacket(p, psize, *mode):
		e = r.cur
		n = le(e.header, 40, 8)
		ps = (e.size - 50) // n
		v.check("packet-size", psize == ps)
		v.check_eq("packet-data", p.data, r.part)
		v.check("packet-data-size", p.data_size == v.len(p.data))
		v.check("stored-without-payload", len(mode) == 1 and mode[0] == m.AsfReadMode.SRS)
		v.check("packet-place", r.parts[-1][0] == e.start + 50 + st.at if v.symbolic else
			r.parts[-1] == (e.start + 50 + e.at, ps))
		st.packet = p
		if v.symbolic:
			p.header_length = v.fresh_int("headlen", 0, v.len(p.data))
			p.padding_length = v.fresh_int("padlen", 0)
			st.used = v.fresh_int("consumed", 0)
			def elem(k):
				q = C()
				q.header_data = v.fresh_bytes("payloadheader")
				q.header_size = v.len(q.header_data)
				q.stream_number = v.fresh_int("stream", 1)
				q.data_length = v.fresh_int("paylen", 0)
				st.payload = q
				return q
			p.payloads = Iter(v, elem)
			return st.used
		k = e.k
		e.k += 1
		p.header_length = (k * 5 + r.i) % (len(p.data) + 1)
		p.padding_length = (k * 3) % 5
		p.payloads = []
		for j in range((k + r.i) % 3):
			q = C()
			q.header_data = bytes([k % 256, j])
			q.header_size = 2
			q.stream_number = 1 + (k + j) % 3
			q.data_length = (k * 7 + j) % 11
			p.payloads.append(q)
		used = ps - (k % 2)
		e.at += used
		e.bytes += p.data[:p.header_length]
		for q in p.payloads:
			e.bytes += q.header_data + take(v, tracks[q.stream_number], q.data_length)
		e.bytes += data.padding_bytes[st.pad:st.pad + p.padding_length] if stored else \
			bytes(p.padding_length)
		st.pad += p.padding_length
		return used
	v.patch(m, "asf_data_get_packet", getpacket)
	def crc(v, L, name):
		v.check(name + ":checksum-of-what-was-written", L["crc"] == v.crc(st.content()))
	if v.symbolic:
		fn = M + "wmv_rebuild_sample"
		class Main(RStep):
			def inv(self, v, L, name):
				if self.first:
					v.check(name + ":padding-from-its-begin", L["padding_index"] == 0)
				RStep.inv(self, v, L, name)
			def havoc(self, v, L):
				RStep.havoc(self, v, L)
				st.packets = False
				st.pad = v.fresh_int("padused", 0)
				L["padding_index"] = st.pad
			def done(self, v, name):
				e = r.cur
				if e.kind[0] == "data":
					v.check(name + ":packets-written", st.packets)
					v.check_eq(name + ":behind-the-packets", st.content(), st.packets0)
				else:
					moved(v, e, name, ("skip", "read") if e.kind[0] == "own" else ("read",))
					v.check_eq(name + ":bytes", st.content(), st.before +
						(b"" if e.kind[0] == "own" else e.header + e.content))
		class Packets(LoopSpec):
			first = True
			def inv(self, v, L, name):
				p = getattr(st, "packet", None)
				if self.first:
					v.check_eq(name + ":header-first", st.content(), st.before + r.cur.header)
					v.check(name + ":at-the-first-packet", L["rp_offsets"] == 0)
					v.check(name + ":padding-goes-on", L["padding_index"] is st.pad)
					n = le(r.cur.header, 40, 8)
					v.check(name + ":all-packets", L.n == n)
				else:
					v.check(name + ":payloads-written", st.pay)
					k = p.padding_length
					if stored:
						b = data.padding_bytes
						N = v.len(b)
						a = v.ite(st.pad > N, N, st.pad)
						e = v.ite(st.pad + k > N, N, st.pad + k)
						want = b[a:e]
						v.check(name + ":padding-used", L["padding_index"] == st.pad + k)
					else:
						want = SymBytes([models.PRep(0, ze(k))])
					v.check_eq(name + ":padding", st.content(), st.mid2 + want)
					v.check(name + ":next-packet", L["rp_offsets"] == st.at + st.used)
				crc(v, L, name)
			def havoc(self, v, L):
				self.first, st.pay, st.packets = False, False, True
				r.parts = []
				st.packets0 = st.put(v.fresh_bytes("out"))
				st.at = v.fresh_int("at", 0)
				L["rp_offsets"] = st.at
				st.pad = v.fresh_int("padused", 0)
				L["padding_index"] = st.pad
				L["crc"] = v.crc(st.packets0)
			def frame(self, v, L):
				return st.frame()
		class Pay(LoopSpec):
			first = True
			def inv(self, v, L, name):
				p = st.packet
				if self.first:
					v.check_eq(name + ":packet-header", st.content(), st.packets0 +
						p.data[:p.header_length])
				else:
					q = st.payload
					v.check_eq(name + ":payload", st.content(), st.mid2 + q.header_data +
						take(v, tracks[q.stream_number], q.data_length))
				crc(v, L, name)
			def havoc(self, v, L):
				self.first, st.pay = False, True
				st.mid2 = st.put(v.fresh_bytes("out"))
				L["crc"] = v.crc(st.mid2)
			def frame(self, v, L):
				return st.frame()
		v.loop(fn, 0, Main(st, None))
		v.loop(fn, 1, Packets())
		v.loop(fn, 2, Pay())
	out = v.call(m.wmv_rebuild_sample, C(), data, tracks, {}, "in.srs", st.path)
	v.expect("rebuilds", out)
	v.check("reader-closed", r.closed)
	if v.symbolic:
		v.check("output-closed", st.out.closed)
		v.check_eq("nothing-else", st.out.node.content, st.before)
		v.check("checksum-of-the-output", out.value.crc32 == v.crc(st.before))
		return
	want = b""
	for e in r.log:
		if e.kind[0] != "own":
			want += e.header + (e.bytes if e.kind[0] == "data" else e.content)
	got = v.fcontent(st.path)
	v.check_eq("bytes", got, want)
	v.check("checksum-of-the-output", out.value.crc32 == v.crc(got))
