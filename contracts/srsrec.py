"""C15: the records of an SRS file: fields, wrappers of every container, loading."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported

M = "resample.main."
NAMES_BOUND = ("the application name and the sample name are any strings: their UTF-8 "
	"encoding and decoding are inverse functions (assumed of Python's codec)")

def le(b, i, n):
	r = 0
	for k in range(n - 1, -1, -1):
		r = r * 256 + b[i + k]
	return r

def bare(m, cls):
	return getattr(m, cls).__new__(getattr(m, cls))

def noname(v, m, name):
	"""the sample's path has no directory part: basename is the identity on it"""
	if v.symbolic:
		v.patch(m, "basename", lambda p: p)
		return name
	return name.replace("/", "_")

@contract("C15", "file_record", [M + "FileData.__init__", M + "FileData.serialize"],
	note=NAMES_BOUND)
def file_record(v):
	"""Every name, size, CRC and flag combination: what is written is read back."""
	m = v.mod("resample.main")
	pkg = v.mod("resample")
	app = v.text("app")
	name = noname(v, m, v.text("name"))
	fd = bare(m, "FileData")
	fd.flags = v.int("flags", 0, 2 ** 16 - 1)
	fd.sample_name = name
	fd.size = v.int("size", 0, 2 ** 64 - 1)
	fd.crc32 = v.int("crc", 0, 2 ** 32 - 1)
	v.patch(pkg, "APPNAME", app)
	out = v.call(fd.serialize)
	a, n = app.encode("utf-8"), name.encode("utf-8")
	fits = v.And(v.len(a) < 2 ** 16, v.len(n) < 2 ** 16)
	if not out.ok:
		v.expect("serialize", out, struct.error)
		v.check("error-only-for-names-that-do-not-fit", v.Not(fits))
		return
	v.check("fits", fits)
	b = out.value
	v.check("size-of-the-record", v.len(b) == 18 + v.len(a) + v.len(n))
	back = v.call(lambda: m.FileData(buff=b))
	v.expect("parses", back)
	r = back.value
	v.check("flags", r.flags == fd.flags)
	v.check("sample-size", r.size == fd.size)
	v.check("crc", r.crc32 == fd.crc32)
	v.check_eq("application", r.appname, app)
	v.check_eq("sample-name", r.sample_name, name)
	v.check_eq("name", r.name, name)
	v.check_eq("layout", b, v.pack("<HH", fd.flags, v.len(a)) + a + v.pack("<H", v.len(n)) +
		n + v.pack("<QL", fd.size, fd.crc32))

@contract("C15", "track_record", [M + "TrackData.__init__", M + "TrackData.serialize"])
def track_record(v):
	"""Every track number, length, offset and signature: read back as written."""
	m = v.mod("resample.main")
	t = m.TrackData()
	v.check("no-flags-at-first", t.flags == 0)
	# the big file flag may be set already (files over 2 GiB)
	t.flags = 4 if v.bool("big") else 0
	t.track_number = v.int("number", 0, 2 ** 32 - 1)
	t.data_length = v.int("length", 0, 2 ** 64 - 1)
	t.match_offset = v.int("offset", 0, 2 ** 64 - 1)
	sig = v.bytes("signature", 0, None, 300)
	t.signature_bytes = sig
	out = v.call(t.serialize)
	if not out.ok:
		v.expect("serialize", out, struct.error)
		v.check("error-only-for-a-signature-that-does-not-fit", v.len(sig) >= 2 ** 16)
		return
	v.check("fits", v.len(sig) < 2 ** 16)
	b = out.value
	back = v.call(lambda: m.TrackData(b))
	v.expect("parses", back)
	r = back.value
	v.check("number", r.track_number == t.track_number)
	v.check("length", r.data_length == t.data_length)
	v.check("offset", r.match_offset == t.match_offset)
	v.check_eq("signature", r.signature_bytes, sig)
	v.check("flags", r.flags == t.flags)
	v.check("flags-mark-wide-fields", v.And(
		v.Implies(t.data_length >= 2 ** 32, t.flags // 4 % 2 == 1),
		v.Implies(t.track_number >= 2 ** 16, t.flags // 8 % 2 == 1)))
	v.check("length-of-the-record", v.len(b) == 18 + v.len(sig) +
		v.ite(t.flags // 4 % 2 == 1, 4, 0) + v.ite(t.flags // 8 % 2 == 1, 2, 0))

@contract("C15", "track_record_parse", [M + "TrackData.__init__"])
def track_parse(v):
	"""Every byte string: the fields come from the places the flags say."""
	m = v.mod("resample.main")
	b = v.bytes("record", 1, None, 60)
	out = v.call(lambda: m.TrackData(b))
	if v.len(b) < 2:
		v.expect("short", out, struct.error)
		return
	fl = le(b, 0, 2)
	bn, bf = bool(fl // 8 % 2 == 1), bool(fl // 4 % 2 == 1)
	nw, lw = (4 if bn else 2), (8 if bf else 4)
	if not out.ok:
		v.expect("short", out, struct.error)
		v.check("error-only-when-short", v.len(b) < 2 + nw + lw + 10)
		return
	t = out.value
	v.check("long-enough", v.len(b) >= 2 + nw + lw + 10)
	v.check("flags", t.flags == fl)
	v.check("number", t.track_number == le(b, 2, nw))
	v.check("length", t.data_length == le(b, 2 + nw, lw))
	v.check("offset", t.match_offset == le(b, 2 + nw + lw, 8))
	k = 2 + nw + lw + 8
	v.check_eq("signature", t.signature_bytes, b[k + 2:k + 2 + le(b, k, 2)])

@contract("C15", "fingerprint_record", [M + "read_fingerprint_data",
	M + "TrackData.serialize_as_flac", M + "TrackData.serialize_as_mp3"])
def fingerprint(v):
	"""The finger print behind the track record of FLAC and MP3 files."""
	m = v.mod("resample.main")
	t = m.TrackData()
	rec = v.bytes("record", 1, 200000, 60)
	t.serialize = lambda: rec
	t.duration = v.int("duration", 0, 2 ** 32 - 1)
	t.fingerprint = v.bytes("fingerprint", 0, 2 ** 20, 60)
	n = v.len(t.fingerprint)
	if v.choice("kind", ["flac", "mp3"]) == "flac":
		out = v.call(t.serialize_as_flac)
		v.expect("serialize", out)
		head = b"t" + v.pack(">L", v.len(rec))[1:] + rec
		data = b"u" + v.pack(">L", n + 8)[1:]
	else:
		out = v.call(t.serialize_as_mp3)
		v.expect("serialize", out)
		head = b"SRST" + v.pack("<L", v.len(rec) + 8) + rec
		data = b"SRSP" + v.pack("<L", n + 16)
	body = v.pack("<LL", t.duration, n) + t.fingerprint
	v.check_eq("bytes", out.value, head + data + body)
	r = m.read_fingerprint_data(m.TrackData(), body)
	v.check("duration", r.duration == t.duration)
	v.check_eq("fingerprint", r.fingerprint, t.fingerprint)

KINDS = ["ebml", "riff", "mov", "asf", "flac"]

def record(v, m, rec):
	if v.bool("isfile"):
		o = bare(m, "FileData")
		mark = 0
	else:
		o = m.TrackData()
		mark = 1
	o.serialize = lambda: rec
	return o, mark

def wrapped(kind):
	def run(v):
		"""A record in its wrapper, anywhere in a file: the container's own reader finds an
		element of the record's type holding exactly the record, and nothing behind it is
		lost."""
		m = v.mod("resample.main")
		rec = v.bytes("record", 1, 200000, 60)
		o, t = record(v, m, rec)
		out = v.call(getattr(o, "serialize_as_" + kind))
		v.expect("serialize", out)
		w = out.value
		pre = v.bytes("before", 0, None, 30)
		post = v.bytes("behind", 0, None, 30)
		F = pre + w + post
		if not v.symbolic and len(F) < 8 and kind in ("asf",):
			return
		f = v.file(F)
		mod, cls, mode = dict(ebml=("ebml", "EbmlReader", "EbmlReadMode"),
			riff=("riff", "RiffReader", "RiffReadMode"),
			mov=("mov", "MovReader", "MovReadMode"),
			asf=("asf", "AsfReader", "AsfReadMode"),
			flac=("flac", "FlacReader", None))[kind]
		mm = v.mod("resample." + mod)
		if mode:
			mk = lambda: getattr(mm, cls)(getattr(mm, mode).SRS, stream=f)
		else:
			mk = lambda: getattr(mm, cls)(stream=f)
		r = v.call(mk)
		v.expect("opens", r)
		r = r.value
		f.seek(v.len(pre))
		got = v.call(r.read)
		v.expect("reads", got)
		v.check("found", got.value == True)
		typ = dict(ebml=lambda: r.element_type, riff=lambda: r.current_chunk.fourcc,
			mov=lambda: r.atom_type, asf=lambda: r.current_object.type,
			flac=lambda: r.block_type)[kind]()
		want = dict(ebml=lambda: (mm.EbmlElementType.ReSampleFile,
				mm.EbmlElementType.ReSampleTrack),
			riff=lambda: (b"SRSF", b"SRST"), mov=lambda: (b"SRSF", b"SRST"),
			asf=lambda: (m.GUID_SRS_FILE, m.GUID_SRS_TRACK),
			flac=lambda: (ord("s"), ord("t")))[kind]()[t]
		v.check_eq("type-of-the-element", typ, want)
		pad = 0
		if kind == "riff":
			pad = v.len(rec) % 2
			if v.len(pre) + v.len(w) + pad > v.len(F):
				return          # create_srs writes the padding byte behind the wrapper
		if v.bool("again"):
			v.expect("skips", v.call(r.skip_contents))
			v.check("skipped", f.tell() == v.len(pre) + v.len(w) + pad)
		c = v.call(r.read_contents)
		v.expect("contents", c)
		v.check_eq("the-record", c.value, rec)
		v.check("next-element-right-behind", f.tell() == v.len(pre) + v.len(w) + pad)
	fns = [M + "FileData.serialize_as_" + kind, M + "TrackData.serialize_as_" + kind]
	contract("C15", "wrapper_" + kind, fns, budget=120)(run)

for k in KINDS:
	wrapped(k)

# wrappers of the containers without a header of their own: the readers that walk them
# are under contract in containers.py (stream_reader) and mp3.py
def flat(kind):
	def run(v):
		"""Marker, length of marker, length and record, record; the readers hand back what
		lies behind the marker and length."""
		m = v.mod("resample.main")
		rec = v.bytes("record", 1, 200000, 60)
		o, t = record(v, m, rec)
		out = v.call(getattr(o, "serialize_as_" + kind))
		v.expect("serialize", out)
		w = out.value
		v.check_eq("bytes", w, (b"SRST" if t else b"SRSF") + v.pack("<L", v.len(rec) + 8) + rec)
		pre = v.bytes("before", 0, None, 30)
		F = pre + w + v.bytes("behind", 0, None, 30)
		f = v.file(F)
		mm = v.mod("resample.mp3" if kind == "mp3" else "resample.stream")
		r = bare(mm, "Mp3Reader" if kind == "mp3" else "StreamReader")
		setattr(r, "_mp3_stream" if kind == "mp3" else "_stream", f)
		r.current_block = mm.Block(v.len(w), "SRST" if t else "SRSF", v.len(pre))
		c = v.call(r.read_contents)
		v.expect("contents", c)
		v.check_eq("the-record", c.value[8:] if kind == "mp3" else c.value, rec)
	contract("C15", "wrapper_" + kind, [M + "FileData.serialize_as_" + kind,
		M + "TrackData.serialize_as_" + kind, "resample.mp3.Mp3Reader.read_contents"
		if kind == "mp3" else "resample.stream.StreamReader.read_contents"])(run)

for k in ("mp3", "stream", "m2ts"):
	flat(k)

# -- loading ------------------------------------------------------------------
class Tracks(object):
	"""the tracks found so far: any, apart from what this step adds"""
	vc_ghost = True
	def __init__(self, v):
		self.v, self.ops, self.old = v, [], []
	def has(self, k):
		for o, t in self.ops:
			if o is k or bool(o == k):
				return t
		for o, t in self.old:
			if o is k or bool(o == k):
				return t
		t = Track(None, None) if self.v.ctx.choose(2) else None
		self.old.append((k, t))
		return t
	def __setitem__(self, k, t):
		self.ops.append((k, t))
	def __getitem__(self, k):
		t = self.has(k)
		if t is None:
			raise KeyError(k)
		return t
	def __contains__(self, k):
		return self.has(k) is not None
	def get(self, k, d=None):
		t = self.has(k)
		return d if t is None else t
	def values(self):
		return []

class Track(object):
	vc_ghost = True
	def __init__(self, buff, number):
		self.buff, self.track_number = buff, number
		self.signature_bytes, self.data_length = b"", 0

class Elem(object):
	vc_ghost = True

class Ghost(object):
	"""A container reader: a list of elements of any kind and content."""
	vc_ghost = True
	def __init__(self, v, kinds, n):
		self.v, self.kinds, self.n = v, kinds, n
		self.i = 0
		self.cur = None
		self.did = []
		self.log = []
		self.closed = False
		self.file = None
		self.tracks = {}
		self.ended = False
	def next(self, forced=False):
		v, i = self.v, self.i
		if (v.symbolic and i == 0 and not forced and v.ctx.choose(2)) or i >= self.n:
			self.ended = True
			return None
		self.i += 1
		e = Elem()
		e.kind = v.choice("kind%d" % i, self.kinds)
		e.content = v.bytes("content%d" % i, 1, 40, 30)
		e.number = v.int("number%d" % i, 0, 2 ** 32 - 1)
		e.last = v.bool("last%d" % i)
		self.cur = e
		self.did = []
		self.log.append(e)
		return e
	def close(self):
		self.closed = True
	def read_contents(self):
		self.did.append("read")
		return self.cur.content
	def skip_contents(self):
		self.did.append("skip")
	def move_to_child(self):
		self.did.append("child")

class C(object):
	vc_ghost = True

def avi_kinds(m):
	T = m.RiffChunkType
	return [("SRSF", b"SRSF", T.Unknown), ("SRST", b"SRST", T.Unknown),
		("child", b"LIST", T.List), ("stop", b"00dc", T.Movi), ("other", b"JUNK", T.Unknown),
		("other", b"idx1", T.Unknown)]

class AviReader(Ghost):
	def read(self):
		e = self.next()
		if e is None:
			return False
		self.current_chunk = C()
		self.current_chunk.fourcc = e.kind[1]
		self.chunk_type = e.kind[2]
		self.current_chunk.length = self.v.len(e.content)
		return True

def mkv_kinds(m):
	T = m.EbmlElementType
	k = [("SRSF", T.ReSampleFile), ("SRST", T.ReSampleTrack), ("child", T.Segment),
		("child", T.ReSample), ("child", T.TrackList), ("child", T.Track),
		("child", T.ContentEncodingList), ("child", T.ContentEncoding),
		("child", T.Compression), ("number", T.TrackNumber), ("codec", T.TrackCodec),
		("algorithm", T.CompressionAlgorithm), ("settings", T.CompressionSettings),
		("stop", T.Cluster), ("stop", T.AttachmentList), ("other", T.Unknown),
		("other", T.Void) if hasattr(T, "Void") else ("other", T.Unknown)]
	return k

class MkvReader(Ghost):
	def read(self):
		e = self.next()
		if e is None:
			return False
		self.element_type = e.kind[1]
		return True

def mov_kinds(m):
	return [("SRSF", b"SRSF"), ("SRST", b"SRST"), ("child", b"mdat"), ("other", b"moov"),
		("other", b"ftyp")]

class MovR(Ghost):
	def read(self):
		e = self.next()
		if e is None:
			return False
		self.atom_type = e.kind[1]
		self.current_atom = C()
		self.current_atom.type = e.kind[1]
		return True

def asf_kinds(m):
	return [("SRSF", m.GUID_SRS_FILE), ("SRST", m.GUID_SRS_TRACK),
		("padding", m.GUID_SRS_PADDING), ("other", bytes(range(16)))]

class AsfR(Ghost):
	def read(self):
		e = self.next()
		if e is None:
			return False
		self.current_object = C()
		self.current_object.type = e.kind[1]
		return True

def flac_kinds(m):
	return [("SRSF", ord("s")), ("SRST", ord("t")), ("finger", ord("u")), ("stop", 0),
		("other", 4), ("other", 0x7f)]

class FlacR(Ghost):
	def read(self):
		e = self.next()
		if e is None:
			return False
		self.block_type = e.kind[1]
		self.current_block = C()
		self.current_block.is_last_block = lambda: e.last
		return True

def blockkinds(m):
	return [("SRSF", "SRSF"), ("SRST", "SRST"), ("other", "STRM"), ("other", "HDRS")]

class Blocks(Ghost):
	pass

class BlockR(Ghost):
	"""a reader whose read() is a generator"""
	def read(self):
		if self.v.symbolic:
			return self
		return self.gen()
	def gen(self):
		while True:
			e = self.next()
			if e is None:
				return
			e.type = e.kind[1]
			self.current_block = e
			yield e
	def vc_iter(self):
		def elem(k):
			e = self.next(True)
			e.type = e.kind[1]
			self.current_block = e
			return e
		n = self.v.fresh_int("blocks", 0)
		return n.e, elem

def loader(name, fn, reader, cls, kinds, head=0):
	def run(v):
		"""A container holding any elements in any order: every record that is not behind
		the end of the interesting part is parsed and kept, nothing else is."""
		m = v.mod("resample.main")
		g = cls(v, kinds(m), 1 if v.symbolic else v.int("elements", 0, 8))
		v.patch(m, reader, lambda *a, **k: g)
		made = []
		def FD(buff=None, file_name=None):
			o = C()
			o.buff = buff
			made.append(o)
			v.check("file-record-only-from-its-element", g.cur.kind[0] == "SRSF")
			v.check_eq("file-record-content", buff, g.cur.content[head:])
			return o
		def TD(buff=None):
			t = Track(buff, g.cur.number)
			made.append(t)
			v.check("track-record-only-from-its-element", g.cur.kind[0] == "SRST")
			v.check_eq("track-record-content", buff, g.cur.content[head:])
			return t
		def RF(track, data):
			v.check("finger-print-only-from-its-element", g.cur.kind[0] == "finger")
			v.check_eq("finger-print-content", data, g.cur.content[head:])
			track.finger = data
			return track
		v.patch(m, "FileData", FD)
		v.patch(m, "TrackData", TD)
		v.patch(m, "read_fingerprint_data", RF)
		v.patch(m, "enough_signature_data", lambda t: True)
		start = C()
		state = C()
		state.tracks, state.data = {}, None
		def done(tracks, data):
			"""the step just taken"""
			e = g.cur
			k = e.kind[0]
			v.check("one-move", len(g.did) <= 1 if kinds is blockkinds or "mp3" in name
				else len(g.did) == 1)
			if k in ("SRSF", "SRST", "finger", "padding"):
				v.check("record-read", g.did == ["read"])
			elif k == "child":
				v.check("entered", g.did == ["child"] or (name == "mp4" and g.did == ["skip"]))
			else:
				v.check("not-entered", "child" not in g.did)
			if k == "SRSF":
				v.check("file-record-kept", len(made) == 1 and data is made[0])
			else:
				v.check("file-record-untouched", data is state.data)
			ops = tracks.ops
			if k == "SRST":
				v.check("track-kept", len(made) == 1 and len(ops) == 1 and ops[0][1] is made[0])
				v.check("track-number", ops[0][0] == g.cur.number)
			elif k == "finger":
				v.check("finger-print-kept", len(ops) == 1 and hasattr(ops[0][1], "finger"))
				v.check("finger-print-of-track-1", ops[0][0] == 1)
			else:
				v.check("tracks-untouched", not ops)
		class Loop(LoopSpec):
			def inv(self, v, L, what):
				if what.endswith("entry"):
					v.check("no-tracks-at-first", L["tracks"] == {})
					v.check("nothing-read-before", g.cur is None)
				else:
					done(L["tracks"], L["srs_data"])
			def havoc(self, v, L):
				L["tracks"] = state.tracks = Tracks(v)
				L["srs_data"] = state.data = C()
				if "done" in L:
					L["done"] = False
				if name == "mkv":
					L["header_stripping"] = bool(v.fresh_int("strip", 0, 1) == 1)
					L["current_track_nb"] = v.fresh_int("current", 0)
		if v.symbolic:
			v.loop(M + fn, 0, Loop())
			# its contract: C14
			v.patch(m, "GetUIntContent", lambda b: v.fresh_int("uint", 0))
		class Self(object):
			vc_ghost = True
			cut_data = {}
		out = v.call(getattr(m, fn), Self(), "infile")
		if not v.symbolic:
			return concrete(v, m, g, out, made, kinds)
		if not out.ok and isinstance(out.exc, KeyError):
			v.check("finger-print-needs-its-track", g.cur.kind[0] == "finger")
			return
		v.expect("loads", out)
		data, tracks = out.value
		v.check("closed", g.closed)
		if g.ended or g.cur is None:
			v.check("all-records-returned", data is state.data and tracks is state.tracks)
			v.check("nothing-else", not tracks.ops)
			return
		# left the loop behind an element
		if g.cur.kind[0] != "stop":
			done(tracks, data)
		v.check("stops-only-at-the-end-of-the-interesting-part", g.cur.kind[0] == "stop" or
			(name == "flac" and g.cur.last))
		v.check("stop-adds-nothing", g.cur.kind[0] != "stop" or not tracks.ops)
	def concrete(v, m, g, out, made, kinds):
		data, tracks, need = None, {}, list(made)
		for i, e in enumerate(g.log):
			k = e.kind[0]
			if k == "SRSF":
				v.check("file-record-kept", need)
				data = need.pop(0)
			elif k == "SRST":
				v.check("track-kept", need)
				tracks[e.number] = need.pop(0)
			elif k == "padding" and data is None:
				v.expect("padding-needs-the-file-record", out, UnboundLocalError, AttributeError)
				return
			elif k == "finger" and 1 not in tracks:
				v.check("finger-print-needs-its-track", isinstance(out.exc, KeyError))
				return
			stops = k == "stop" or (name == "flac" and e.last)
			v.check("stops-only-at-the-end-of-the-interesting-part",
				stops or i + 1 < len(g.log) or g.ended)
		if data is None and not out.ok:
			return v.expect("loads", out, UnboundLocalError, AttributeError)
		v.expect("loads", out)
		v.check("file-record-kept", out.value[0] is data)
		v.check("track-kept", out.value[1] == tracks and
			all(out.value[1][k] is tracks[k] for k in tracks))
		v.check("closed", g.closed)
	contract("C15", "load_" + name, [M + fn], budget=120)(run)

loader("avi", "avi_load_srs", "RiffReader", AviReader, avi_kinds)
loader("mkv", "mkv_load_srs", "EbmlReader", MkvReader, mkv_kinds)
loader("mp4", "mp4_load_srs", "MovReader", MovR, mov_kinds)
loader("wmv", "wmv_load_srs", "AsfReader", AsfR, asf_kinds)
loader("flac", "flac_load_srs", "FlacReader", FlacR, flac_kinds)
loader("mp3", "mp3_load_srs", "Mp3Reader", BlockR,
	lambda m: blockkinds(m) + [("finger", "SRSP")], 8)
loader("stream", "stream_load_srs", "StreamReader", BlockR, blockkinds)
