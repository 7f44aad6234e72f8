"""C15, C18: writing an SRS file from a sample and the sample from an SRS file, one
container element, packet or payload at a time.

The reader is a stand-in that hands out an element of any kind with any header and any
content; the output file holds any bytes before the step.  A step must add exactly the
bytes it owes.  What the real readers hand out is the subject of C17; what the record
serializers return is the subject of C15."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc import core, models
from pyvc.values import SymBytes, ze, mk

M = "resample.main."

class C(object):
	vc_ghost = True

def same_items(a, b):
	"""the same table, or another one with the same entries"""
	return a is b or isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and \
		all(a[k] is b[k] for k in b)

class Iter(object):
	"""any number of elements"""
	vc_ghost = True
	vc_star = True
	def __init__(self, v, elem):
		self.n, self.e = v.fresh_int("elements", 0), elem
	def vc_iter(self):
		return self.n.e, self.e
	def __iter__(self):
		raise Unsupported("an abstract sequence without a loop contract")

class St(object):
	"""Everything a run needs: the stand-ins and the output file."""
	vc_ghost = True
	def __init__(self, v, m, name):
		self.v, self.m, self.name = v, m, name
		self.path = v.path(name)
		self.inner = False
		self.expected = b""          # concrete runs: what the file must hold
		self.out = None
		if v.symbolic:
			self.patch_open()
	def patch_open(self):
		m, v = self.m, self.v
		def opened(p, mode="r", *a):
			v.check("only-the-output-is-opened", p == self.path and mode in ("wb", "w+b", "wb+"))
			self.out = models.SymFile(models.VNode(SymBytes([])), "w+b", p)
			return self.out
		m.open = opened
		v.ctx.undo.append(lambda: delattr(m, "open"))
	def content(self):
		c = self.out.node.content
		self.v.check("at-the-end-of-the-output", self.out.pos == c.vlen())
		return c
	def put(self, c):
		self.out.node.content = c
		self.out.pos = c.vlen()
		return c
	def frame(self):
		return [(self.out, "*"), (self.out.node, "*")]

class Step(LoopSpec):
	"""The main loop: after every element the output grew by what spec() says."""
	def __init__(self, st, spec, carried=None, start=b"", entry=None, post=None):
		self.st, self.spec, self.carried, self.begin = st, spec, carried, start
		self.entry, self.post = entry, post
		self.first = True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check_eq(name + ":output-at-first", st.content(), self.begin)
			if self.entry:
				self.entry(v, L, name)
			return
		self.done(v, name)
		if self.post:
			self.post(v, L, name)
	def done(self, v, name):
		pre, rec, post = self.spec()
		if rec:
			v.check(name + ":records-written", self.st.inner)
			v.check_eq(name + ":behind-the-records", self.st.content(), self.st.mid + post)
		else:
			v.check(name + ":no-records", not self.st.inner)
			v.check_eq(name + ":bytes", self.st.content(), self.st.before + pre + post)
	def havoc(self, v, L):
		st = self.st
		self.first, st.inner = False, False
		st.before = st.put(v.fresh_bytes("out"))
		if self.carried:
			self.carried(v, L)
	def frame(self, v, L):
		return self.st.frame()

class Each(LoopSpec):
	"""An inner loop: what it starts from, and what one round adds."""
	def __init__(self, st, start, step, carried=None, post=None):
		self.st, self.begin, self.step, self.carried, self.post = st, start, step, carried, post
		self.first = True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check_eq(name + ":before-the-loop", st.content(), self.begin())
		else:
			v.check_eq(name + ":bytes", st.content(), st.mid + self.step(L))
			if self.post:
				self.post(v, L, name)
	def havoc(self, v, L):
		st = self.st
		self.first, st.inner = False, True
		st.mid = st.put(v.fresh_bytes("out"))
		if self.carried:
			self.carried(v, L)
	def frame(self, v, L):
		return self.st.frame()

def odd(v, b):
	"""the padding byte RIFF wants behind it"""
	if not v.symbolic:
		return b"\0" * (len(b) % 2)
	return SymBytes([models.PRep(0, z3.simplify(b.zlen() % 2))])

class Tr(object):
	vc_ghost = True

def records(v, st, kind, big):
	"""sample_data and tracks whose serialized forms are any bytes"""
	ser = "serialize_as_" + kind
	data = C()
	st.filerec = v.bytes("file_record", 1, None, 30)
	setattr(data, ser, lambda: st.filerec)
	BIG = st.m.TrackData.BIG_FILE
	def track(k):
		t = Tr()
		t.flags = 0
		t.track_number = k
		t.rec = v.bytes("track%s" % k, 1, None, 30) if not v.symbolic else \
			v.fresh_bytes("track")
		if v.symbolic:
			v.ctx.axiom(t.rec.zlen() >= 1)
		def serialize():
			v.check("big-file-flag", bool(t.flags & BIG) or not big)
			st.cur = t
			return t.rec
		setattr(t, ser, serialize)
		st.cur = t
		return t
	if v.symbolic:
		tracks = C()
		tracks.values = lambda: Iter(v, track)
		tracks.items = lambda: Iter(v, lambda k: (k, track(k)))
	else:
		tracks = {}
		for k in range(v.int("tracks", 0, 3)):
			tracks[k] = track(k)
	return data, tracks

class Reader(object):
	"""A container reader over elements of any kind."""
	vc_ghost = True
	def __init__(self, v, st, kinds, show):
		self.v, self.st, self.kinds, self.show = v, st, kinds, show
		self.i = 0
		self.n = 1 if v.symbolic else v.int("elements", 0, 6)
		self.cur = None
		self.closed = False
		self.log = []
	def _next(self, forced=False):
		v, i = self.v, self.i
		if (v.symbolic and i == 0 and not forced and v.ctx.choose(2)) or i >= self.n:
			return None
		self.i += 1
		e = C()
		e.kind = v.choice("kind%d" % i, self.kinds)
		e.header = v.bytes("header%d" % i, *getattr(self, "hdr", (1, None, 20)))
		e.content = v.bytes("content%d" % i, 0, None, 20)
		e.length = v.len(e.content)
		e.pad = v.bool("pad%d" % i)
		e.padbyte = v.int("padbyte%d" % i, 0, 255)
		e.did = []
		self.cur = e
		self.log.append(e)
		self.show(self, e)
		return e
	def read(self):
		if self.cur is not None and not self.v.symbolic:
			self.check_moved()
		return self._next() is not None
	def check_moved(self):
		d = self.cur.did
		self.v.check("one-move-per-element", d and len([x for x in d if x != "part"]) <= 1)
	def move(self, what):
		self.cur.did.append(what)
		self.has_padding = self.cur.pad
		self.padding_byte = self.cur.padbyte
	def read_contents(self):
		self.move("read")
		return self.cur.content
	def skip_contents(self):
		self.move("skip")
	def move_to_child(self):
		self.move("child")
	def close(self):
		self.closed = True

class Gen(Reader):
	"""its read() is a generator of blocks"""
	def read(self):
		if self.v.symbolic:
			return self
		return self.gen()
	def gen(self):
		while True:
			e = self._next()
			if e is None:
				return
			yield self.current_block
	def vc_iter(self):
		def elem(k):
			self._next(True)
			return self.current_block
		return self.v.fresh_int("blocks", 0).e, elem

def moved(v, e, name, allowed):
	v.check(name + ":moves-on", len(e.did) == 1 and e.did[0] in allowed)

# -- creating -----------------------------------------------------------------
def creator(name, fn, reader, cls, kinds, show, spec, kind, recloop=1, prefix=None,
		header=True, pad=False, allowed=None):
	"""spec(e): (bytes before the records, are there records, bytes behind them)"""
	def run(v):
		"""The SRS file gets everything of the sample except stream data, and the records
		of the sample file and of every track once, in their place."""
		m = v.mod("resample.main")
		st = St(v, m, "x.srs")
		big = v.bool("big")
		data, tracks = records(v, st, kind, big)
		r = cls(v, st, kinds(m), show(m))
		v.patch(m, reader, lambda *a, **k: r)
		def sp(e=None):
			e = e or r.cur
			return spec(v, m, e)
		def after():
			if kind != "mp3" or r.cur.kind[0] != "music":
				moved(v, r.cur, "step", allowed(r.cur))
			return sp()
		def recstart():
			v.check("records-have-their-place", sp()[1])
			f = st.filerec
			return st.before + sp()[0] + f + (odd(v, f) if pad else b"")
		def rec(L):
			b = st.cur.rec
			return b + (odd(v, b) if pad else b"")
		if v.symbolic:
			v.loop(M + fn, 0, Step(st, after))
			v.loop(M + fn, recloop, Each(st, recstart, rec))
		out = v.call(getattr(m, fn), C(), tracks, data, "sample", st.path, big)
		v.expect("creates", out)
		v.check("reader-closed", r.closed)
		if v.symbolic:
			v.check("output-closed", st.out.closed)
			v.check_eq("nothing-else", st.out.node.content, st.before)
			return
		want = b""
		for e in r.log:
			pre, has, post = sp(e)
			want += pre
			if has:
				for b in [st.filerec] + [t.rec for t in tracks.values()]:
					want += b + (odd(v, b) if pad else b"")
			want += post
		v.check_eq("bytes", v.fcontent(st.path), want)
	contract(["C15", "C18"], "create_" + name, [M + fn], budget=120)(run)

# AVI
def avi_kinds(m):
	T = m.RiffChunkType
	return [("movilist", T.List, b"LIST", b"movi"), ("list", T.List, b"RIFF", b"AVI "),
		("list", T.List, b"LIST", b"hdrl"), ("list", T.List, b"RIFF", b"movi"),
		("movi", T.Movi, None, b"00dc"), ("other", T.Unknown, None, b"JUNK"),
		("other", T.Unknown, None, b"idx1"), ("other", T.Unknown, None, b"movi")]

def avi_show(m):
	def show(r, e):
		c = r.current_chunk = C()
		c.raw_header, c.length, c.fourcc = e.header, e.length, e.kind[3]
		c.stream_number = getattr(e, "stream", None)
		if e.kind[2]:
			c.list_type = e.kind[2]
		r.chunk_type = e.kind[1]
		r.has_padding, r.padding_byte = not e.pad, (e.padbyte + 1) % 256   # of the last one
	return show

def padded(v, e, b):
	return b + v.pack("<B", e.padbyte) if e.pad else b

def avi_create_spec(v, m, e):
	k = e.kind[0]
	if k == "movilist":
		return e.header, True, b""
	if k == "list":
		return e.header, False, b""
	return e.header, False, padded(v, e, b"" if k == "movi" else e.content)

def avi_allowed(e):
	return ("child",) if e.kind[0] in ("list", "movilist") else \
		("skip", "read") if e.kind[0] == "movi" else ("read",)

creator("avi", "avi_create_srs", "RiffReader", Reader, avi_kinds, avi_show,
	avi_create_spec, "riff", pad=True, allowed=avi_allowed)

# MP4
def mov_kinds(m):
	return [("mdat", b"mdat"), ("other", b"moov"), ("other", b"ftyp"), ("other", b"free")]

def mov_show(m):
	def show(r, e):
		c = r.current_atom = C()
		c.raw_header, c.size, c.type = e.header, e.length + r.v.len(e.header), e.kind[1]
		r.atom_type = e.kind[1]
	return show

creator("mp4", "mp4_create_srs", "MovReader", Reader, mov_kinds, mov_show,
	lambda v, m, e: (b"", True, e.header) if e.kind[0] == "mdat" else
	(e.header, False, e.content), "mov",
	allowed=lambda e: ("skip", "read", "child") if e.kind[0] == "mdat" else ("read",))

# FLAC
def flac_kinds(m):
	return [("mark", "fLaC"), ("frames", 0xff), ("other", 0), ("other", 4), ("other", "ID3"),
		("other", ord("s"))]

def flac_show(m):
	def show(r, e):
		c = r.current_block = C()
		c.raw_header, c.size, c.type = e.header, e.length, e.kind[1]
		c.is_frame_data = lambda: e.kind[0] == "frames"
		c.is_last_block = lambda: e.pad
		r.block_type = e.kind[1]
		r.read_done = False
	return show

creator("flac", "flac_create_srs", "FlacReader", Reader, flac_kinds, flac_show,
	lambda v, m, e: (e.header, e.kind[0] == "mark",
	b"" if e.kind[0] == "frames" else e.content), "flac",
	allowed=lambda e: ("skip", "read") if e.kind[0] == "frames" else ("read",))

# MP3
def mp3_kinds(m):
	return [("music", "MP3"), ("music", "fLaC"), ("other", "ID3"), ("other", "TAG"),
		("other", "LYRICS"), ("other", "LYRICS200"), ("other", "APE2000")]

def mp3_show(m):
	def show(r, e):
		c = r.current_block = C()
		c.type, c.size, c.start_pos = e.kind[1], e.length, 0
	return show

creator("mp3", "mp3_create_srs", "Mp3Reader", Gen, mp3_kinds, mp3_show,
	lambda v, m, e: (b"", True, b"") if e.kind[0] == "music" else (b"", False, e.content),
	"mp3", allowed=lambda e: ("skip", "read") if e.kind[0] == "music" else ("read",))

# Matroska: the records form one element whose size is known before they are written
def mkv_kinds(m):
	T = m.EbmlElementType
	names = "Cluster BlockGroup AttachmentList Attachment".split()
	return [("segment", T.Segment)] + [("child", getattr(T, n)) for n in names] + [
		("filedata", T.AttachedFileData), ("block", T.Block),
		("other", T.AttachedFileName), ("other", T.Timecode), ("other", T.TrackList),
		("other", T.Unknown)]

def mkv_show(m):
	def show(r, e):
		c = r.current_element = C()
		c.raw_header, c.length = e.header, e.length
		c.raw_block_header = r.v.bytes("blockheader%d" % (r.i - 1), 1, None, 8)
		e.blockheader = c.raw_block_header
		c.track_number = getattr(e, "stream", None)
		r.element_type = e.kind[1]
	return show

def mkv_spec(e):
	k = e.kind[0]
	if k == "block":
		return e.header + e.blockheader, False, b""
	return e.header, k == "segment", e.content if k == "other" else b""

class Build(LoopSpec):
	"""The list of serialized tracks and the sum of their lengths grow together."""
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check(name + ":no-track-yet", L["track_elements"] == [])
			v.check(name + ":size-of-the-file-record", L["element_size"] == v.len(st.filerec))
			return
		l = L["track_elements"]
		v.check(name + ":one-more-track", len(l) == 2 and l[0] is st.all)
		v.check_eq(name + ":its-record", l[1], st.cur.rec)
		v.check(name + ":its-length-counted", L["element_size"] == st.size0 +
			v.len(st.cur.rec))
	def havoc(self, v, L):
		st = self.st
		self.first = False
		def elem(k):
			st.piece = v.fresh_bytes("trackrecord")
			return st.piece
		st.all = Iter(v, elem)
		L["track_elements"] = [st.all]
		st.size0 = v.len(st.filerec) + v.fresh_int("sum", 0)
		L["element_size"] = st.size0
	def frame(self, v, L):
		return [(L["track_elements"], "*")]

@contract(["C15", "C18"], "create_mkv", [M + "mkv_create_srs"], budget=120)
def create_mkv(v):
	"""As above; the records are the children of one element of exactly their size."""
	m = v.mod("resample.main")
	st = St(v, m, "x.srs")
	big = v.bool("big")
	data, tracks = records(v, st, "ebml", big)
	r = Reader(v, st, mkv_kinds(m), mkv_show(m))
	v.patch(m, "EbmlReader", lambda *a, **k: r)
	def after():
		k = r.cur.kind[0]
		moved(v, r.cur, "step", dict(segment=("child",), child=("child",),
			filedata=("skip", "read"), block=("skip", "read"), other=("read",))[k])
		return mkv_spec(r.cur)
	if v.symbolic:
		def size(n):
			v.check("size-of-all-records", n == st.size0)
			st.coded = v.fresh_bytes("size")
			return st.coded
		v.patch(m, "MakeEbmlUInt", size)          # its contract: C14
		v.loop(M + "mkv_create_srs", 0, Step(st, after))
		v.loop(M + "mkv_create_srs", 1, Build(st))
		v.loop(M + "mkv_create_srs", 2, Each(st, lambda: st.before + r.cur.header +
			m.EbmlID.RESAMPLE + st.coded + st.filerec, lambda L: st.piece))
	out = v.call(m.mkv_create_srs, C(), tracks, data, "sample", st.path, big)
	v.expect("creates", out)
	v.check("reader-closed", r.closed)
	if v.symbolic:
		v.check("output-closed", st.out.closed)
		return v.check_eq("nothing-else", st.out.node.content, st.before)
	want = b""
	recs = [st.filerec] + [t.rec for t in tracks.values()]
	for e in r.log:
		pre, has, post = mkv_spec(e)
		want += pre
		if has:
			b = b"".join(recs)
			want += bytes(m.EbmlID.RESAMPLE) + bytes(m.MakeEbmlUInt(len(b))) + b
		want += post
	v.check_eq("bytes", v.fcontent(st.path), want)

# WMV: the data object's packets keep their headers
def asf_kinds(m):
	return [("data", m.GUID_DATA_OBJECT), ("other", m.GUID_FILE_OBJECT),
		("other", m.GUID_HEADER_OBJECT), ("other", bytes(range(16)))]

def asf_kinds_srs(m):
	return asf_kinds(m) + [("own", m.GUID_SRS_FILE), ("own", m.GUID_SRS_TRACK),
		("own", m.GUID_SRS_PADDING)]

def le(b, i, n):
	r = 0
	for k in range(n - 1, -1, -1):
		r = r * 256 + b[i + k]
	return r

def asf_show(m):
	def show(r, e):
		v = r.v
		e.size = v.int("size%d" % (r.i - 1), 50, 2 ** 62)
		e.start = v.int("start%d" % (r.i - 1), 0, 2 ** 62)
		c = r.current_object = C()
		c.raw_header, c.type, c.start_pos = e.header, e.kind[1], e.start
		c.size = c.osize = e.size
		r.object_guid = e.kind[1]
	return show

class AsfR(Reader):
	hdr = (50, 50)
	def read_data_part(self, offset, size):
		v = self.v
		e = self.cur
		self.parts.append((offset, size))
		e.did[:] = ["part"]
		b = v.fresh_bytes("packet", size) if v.symbolic else bytes(
			(self.i * 7 + len(self.parts) * 13 + j) % 251 for j in range(min(size, 40)))
		self.part = b
		return b

class AsfPackets(LoopSpec):
	"""packets: step(L) -> the bytes of packet k"""
	def __init__(self, st, r, start, step, carried=None, post=None):
		self.st, self.r, self.begin, self.step = st, r, start, step
		self.carried, self.post = carried, post
		self.first = True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check_eq(name + ":header-first", st.content(), self.begin())
			return
		v.check(name + ":payloads-visited", st.pay)
		v.check_eq(name + ":packet", st.content(), self.step(L))
		if self.post:
			self.post(v, L, name)
	def havoc(self, v, L):
		st = self.st
		self.first, st.pay = False, False
		self.r.parts = []
		st.packets0 = st.put(v.fresh_bytes("out"))
		st.packets = True
		st.k = L.k
		if self.carried:
			self.carried(v, L)
	def frame(self, v, L):
		return self.st.frame()

def packet_geometry(v, r, e, i):
	n = le(e.header, 40, 8)
	return n, (e.size - 50) // n

@contract(["C15", "C18"], "create_wmv", [M + "wmv_create_srs"], budget=120)
def create_wmv(v):
	"""As above; of the data object every packet header and payload header is kept, read
	from where the packet is; irregular padding is stored behind the records."""
	m = v.mod("resample.main")
	st = St(v, m, "x.srs")
	big = v.bool("big")
	data, tracks = records(v, st, "asf", big)
	data.padding_amount = v.int("padding", 0, 2 ** 40 if v.symbolic else 30)
	zero = v.bool("zero")
	pb = bytes(data.padding_amount) if zero and not v.symbolic else v.bytes("padbytes", 0,
		2 ** 40, 20)
	if zero and v.symbolic:
		pb = SymBytes([models.PRep(0, ze(data.padding_amount))])
	data.padding_bytes = pb
	r = AsfR(v, st, asf_kinds(m), asf_show(m))
	r.parts = []
	v.patch(m, "AsfReader", lambda *a, **k: r)
	def goodheader(e):
		if e.kind[0] == "data":
			v.assume(le(e.header, 40, 8) >= 1)
			if not v.symbolic:
				v.assume(le(e.header, 40, 8) <= 4)
	show = r.show
	def show2(r, e):
		if not v.symbolic and e.kind[0] == "data":
			e.header = e.header[:40] + bytes([v.int("packets%d" % r.i, 1, 3)]) + bytes(7) + \
				e.header[48:]
		show(r, e)
		if v.symbolic:
			goodheader(e)
		else:
			# the packets lie inside the object
			n = le(e.header, 40, 8)
			e.size = 50 + n * v.int("psize%d" % r.i, 1, 30)
			r.current_object.size = e.size
	r.show = show2
	pks = []
	def getpacket(p, psize, *mode):
		e = r.cur
		n, ps = packet_geometry(v, r, e, 0)
		v.check("packet-size", psize == ps)
		v.check("packet-data-size", p.data_size == v.len(p.data))
		v.check_eq("packet-data", p.data, r.part)
		if v.symbolic:
			v.check("packet-place", r.parts == [] or len(r.parts) == 1 and v.And(
				r.parts[0][0] == e.start + 50 + st.k * ps, r.parts[0][1] == ps))
			v.assume(v.len(p.data) >= 1)
			p.payload_data_len = v.fresh_int("paylen", 1, v.len(p.data))
			def elem(k):
				q = C()
				q.header_data = st.payhead = v.fresh_bytes("payloadheader")
				return q
			p.payloads = Iter(v, elem)
		else:
			k = len(r.parts) - 1
			v.check("packet-place", r.parts[-1] == (e.start + 50 + getattr(e, "k", 0) * ps, ps))
			e.k = getattr(e, "k", 0) + 1
			p.payload_data_len = 1 + (k * 5) % len(p.data)
			p.payloads = []
			for j in range((k + r.i) % 3):
				q = C()
				q.header_data = bytes([k % 256, j])
				p.payloads.append(q)
		st.packet = p
		if not v.symbolic:
			e.bytes = getattr(e, "bytes", b"") + p.data[:-p.payload_data_len] + b"".join(
				q.header_data for q in p.payloads)
		return psize
	v.patch(m, "asf_data_get_packet", getpacket)
	def padobj():
		irregular = pb != bytes(data.padding_amount) if not v.symbolic else True
		return (m.GUID_SRS_PADDING + v.pack("<Q", v.len(pb) + 24) + pb) if irregular else b""
	def spec():
		e = r.cur
		if e.kind[0] != "data":
			moved(v, e, "step", ("read",))
			return e.header, False, e.content
		v.check("packets-kept", st.packets)
		if v.symbolic:
			same = v.len(pb) == data.padding_amount and bool(zero)
			regular = bool(same) or bool(_iszero(v, pb, data.padding_amount))
			st.regular = regular
			return None, True, b"" if regular else padobj()
		return None
	if v.symbolic:
		class Main(Step):
			def havoc(self, v, L):
				Step.havoc(self, v, L)
				st.packets = False
		v.loop(M + "wmv_create_srs", 0, Main(st, spec))
		v.loop(M + "wmv_create_srs", 1, AsfPackets(st, r, lambda: st.before + r.cur.header,
			lambda L: st.mid2))
		class Pay(LoopSpec):
			first = True
			def inv(self, v, L, name):
				p = st.packet
				if self.first:
					v.check_eq(name + ":packet-header", st.content(), st.packets0 +
						p.data[:v.len(p.data) - p.payload_data_len])
				else:
					v.check_eq(name + ":payload-header", st.content(), st.mid2 + st.payhead)
			def havoc(self, v, L):
				self.first, st.pay = False, True
				st.mid2 = st.put(v.fresh_bytes("out"))
			def frame(self, v, L):
				return st.frame()
		v.loop(M + "wmv_create_srs", 2, Pay())
		v.loop(M + "wmv_create_srs", 3, Each(st, lambda: st.packets0 + st.filerec,
			lambda L: st.cur.rec))
	out = v.call(m.wmv_create_srs, C(), tracks, data, "sample", st.path, big)
	v.expect("creates", out)
	v.check("reader-closed", r.closed)
	if v.symbolic:
		v.check("output-closed", st.out.closed)
		return v.check_eq("nothing-else", st.out.node.content, st.before)
	want = b""
	for e in r.log:
		want += e.header
		if e.kind[0] == "data":
			want += e.bytes + st.filerec + b"".join(t.rec for t in tracks.values()) + padobj()
		else:
			want += e.content
	v.check_eq("bytes", v.fcontent(st.path), want)

def _iszero(v, pb, n):
	"""pb == n zero bytes"""
	return pb == SymBytes([models.PRep(0, ze(n))])

# bare streams and M2TS
@contract(["C15", "C18"], "create_stream", [M + "stream_create_srs"])
def create_stream(v):
	m = v.mod("resample.main")
	st = St(v, m, "x.srs")
	big = v.bool("big")
	data, tracks = records(v, st, "stream", big)
	if v.symbolic:
		v.loop(M + "stream_create_srs", 0, Each(st, lambda: b"STRM\x08\0\0\0" + st.filerec,
			lambda L: st.cur.rec))
	out = v.call(m.stream_create_srs, C(), tracks, data, "sample", st.path, big)
	v.expect("creates", out)
	if v.symbolic:
		v.check("tracks-visited", st.inner)
		v.check("output-closed", st.out.closed)
		return v.check_eq("nothing-else", st.out.node.content, st.mid)
	v.check_eq("bytes", v.fcontent(st.path), b"STRM\x08\0\0\0" + st.filerec +
		b"".join(t.rec for t in tracks.values()))

@contract(["C15", "C18"], "create_m2ts", [M + "m2ts_create_srs"])
def create_m2ts(v):
	"""The packet headers form one block whose length field counts them all."""
	m = v.mod("resample.main")
	st = St(v, m, "x.srs")
	big = v.bool("big")
	data, tracks = records(v, st, "m2ts", big)
	def show(r, e):
		c = r.current_packet = C()
		c.raw_header = e.header
	r = Reader(v, st, ["packet"], show)
	v.patch(m, "M2tsReader", lambda *a, **k: r)
	if v.symbolic:
		class Packets(LoopSpec):
			first = True
			def inv(self, v, L, name):
				if self.first:
					v.check(name + ":tracks-visited", st.inner)
					st.head = st.mid
					v.check_eq(name + ":block-header", st.content()[:v.len(st.head) + 4],
						st.head + b"HDRS")
					v.check(name + ":length-field", v.len(st.content()) == v.len(st.head) + 8)
				else:
					moved(v, r.cur, "step", ("skip", "read"))
					v.check_eq(name + ":packet-header", st.content(), st.head + b"HDRS0000" +
						st.got + r.cur.header)
			def havoc(self, v, L):
				self.first = False
				st.got = v.fresh_bytes("headers")
				v.assume(v.len(st.got) <= 2 ** 32 - 9)      # a sample below 96 GiB
				st.put(st.head + b"HDRS0000" + st.got)
			def frame(self, v, L):
				return st.frame()
		v.loop(M + "m2ts_create_srs", 0, Each(st, lambda: b"M2TS\x08\0\0\0" + st.filerec,
			lambda L: st.cur.rec))
		v.loop(M + "m2ts_create_srs", 1, Packets())
	out = v.call(m.m2ts_create_srs, C(), tracks, data, "sample", st.path, big)
	v.expect("creates", out)
	if v.symbolic:
		v.check("output-closed", st.out.closed)
		return v.check_eq("block-length-fixed-up", st.out.node.content, st.head + b"HDRS" +
			v.pack("<L", v.len(st.got) + 8) + st.got)
	hs = b"".join(e.header for e in r.log)
	v.check_eq("bytes", v.fcontent(st.path), b"M2TS\x08\0\0\0" + st.filerec +
		b"".join(t.rec for t in tracks.values()) + b"HDRS" + struct.pack("<L", len(hs) + 8) + hs)
