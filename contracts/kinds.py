"""C15, C18: which kind of file something is, and that each kind is handled by its own
functions from profiling a sample to rebuilding it."""
from pyvc.registry import contract
from contracts.samples import C

M = "resample.main."
CLASSES = dict(AVI="AviReSample", MKV="MkvReSample", MP4="Mp4ReSample", WMV="WmvReSample",
	FLAC="FlacReSample", MP3="Mp3ReSample", STREAM="StreamSample", M2TS="M2tsReSample")
STEPS = ("profile_sample", "create_srs", "load_srs", "find_sample_streams",
	"extract_sample_streams", "rebuild_sample")

@contract(["C15", "C18"], "each_kind_has_its_functions", [M + "sample_class_factory"] +
	[M + c + "." + s for c in sorted(CLASSES.values()) for s in STEPS])
def each_kind(v):
	m = v.mod("resample.main")
	kind = v.choice("kind", sorted(CLASSES))
	step = v.choice("step", STEPS)
	calls = []
	def note(name):
		def fn(*a, **k):
			calls.append((name, a, k))
			return name
		return fn
	for k in CLASSES:
		for s in STEPS:
			n = k.lower() + "_" + s
			if hasattr(m, n):
				v.patch(m, n, note(n))
	out = v.call(m.sample_class_factory, getattr(m.FileType, kind))
	v.expect("made", out)
	me = out.value
	v.check("kind", me.file_type == getattr(m.FileType, kind))
	a, b = C(), C()
	out = v.call(getattr(me, step), a, big=b)
	v.expect("returns", out)
	v.check("its-own-function", len(calls) == 1 and calls[0][0] == kind.lower() + "_" + step)
	v.check("with-what-was-given", calls[0][1] == (me, a) and calls[0][2] == {"big": b})
	v.check("and-its-result", out.value == calls[0][0])

HEADS = [b"\x1a\x45\xdf\xa3", b"RIFF", b"....ftyp", b"3gp5", b"\x30\x26\xb2\x75", b"fLaC",
	b"STRM", b"ID3\x03\x00\x00", b"SRSF", b"\xff\xfb", b"\xff\xe0", b"\xff\xd0", b"", b"\x47"]

@contract(["C15", "C18"], "kind_of_a_file", [M + "file_type_info"], budget=120,
	note="files that are no RAR archives")
def kind_of_a_file(v):
	"""The container form by the first bytes, by the tags of music, or by the name."""
	m = v.mod("resample.main")
	T = m.FileType
	name = v.choice("name", ["x.vob", "X.M2TS", "x.mp3", "x.bin"])
	if v.symbolic:
		F = v.bytes("file", 0)
	else:
		F = v.choice("head", HEADS) + v.bytes("rest", 0, 20, 20)
		if v.choice("id3", [True, False]):
			n = v.choice("id3size", [0, 5, 127, 128])
			F = b"ID3\x03\x00\x00" + bytes([0, 0, n >> 7, n & 127]) + bytes(n) + v.choice(
				"music", [b"fLaC", b"\xff\xfb.."]) + F
		if v.choice("tag", [True, False]):
			F += b"TAG" + bytes(v.choice("taglen", [125, 125, 124, 126]))
	v.assume(v.Not(F[:6] == b"Rar!\x1a\x07"))
	size = v.int("id3", 0, 2 ** 28 - 1) if v.symbolic else (0 if len(F) < 10 else
		sum((c & 127) << (7 * (3 - i)) for i, c in enumerate(F[6:10])))
	if v.symbolic:
		v.patch(m, "decode_id3_size", lambda b: size)
	p = v.path(name, F)
	out = v.call(m.file_type_info, p)
	v.expect("returns", out)
	got = out.value.file_type
	v.check("not-in-an-archive", out.value.archived_file == "")
	def starts(x, at=0):
		return bool(F[at:at + len(x)] == x)
	e = v.len(F)
	def want():
		if bool(e < 14):
			return T.Unknown
		if starts(b"\x1a\x45\xdf\xa3"):
			return T.MKV
		if starts(b"RIFF"):
			return T.MP3 if name.endswith(".mp3") else T.AVI
		if starts(b"ftyp", 4) or starts(b"3gp5"):
			return T.MP4
		if starts(b"\x30\x26\xb2\x75"):
			return T.WMV
		if starts(b"fLaC"):
			return T.FLAC
		if starts(m.MARKER_STREAM_SRS):
			return T.STREAM
		if starts(m.MARKER_M2TS_SRS):
			return T.M2TS
		if starts(b"ID3"):
			return T.FLAC if bool(F[10 + size:14 + size] == b"fLaC") else T.MP3
		if starts(b"SRSF"):
			return T.MP3
		if bool(v.And(F[0] == 0xff, F[1] >= 0xe0)):
			return T.MP3
		if bool(e >= 128) and bool(F[e - 128:e - 125] == b"TAG"):
			return T.MP3
		return T.STREAM if name[-3:] in ("vob", "2TS") else T.Unknown
	v.check("kind", got == want())
