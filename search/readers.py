"""C15, C16, C17, C21: bounded searches over the media container readers."""
import io, os, struct
from pyvc.registry import search
from gen import media as g

# exceptions that report bad data
DATA_ERRORS = (ValueError, AssertionError, struct.error, OSError, EOFError, IndexError,
	OverflowError)

# -- building media files ------------------------------------------------------------
KINDS = ("avi", "mkv", "mp4", "wmv", "flac", "mp3", "stream")
EXT = dict(avi="avi", mkv="mkv", mp4="mp4", wmv="wmv", flac="flac", mp3="mp3", stream="vob")

def pieces_of(r, tracks):
	"""the frames of all tracks interleaved at random: [(track, frame)]"""
	left = {t: list(f) for t, f in tracks.items()}
	out = []
	while any(left.values()):
		t = r.choice([t for t in left if left[t]])
		out.append((t, left[t].pop(0)))
	return out

PCM = 500

def mux(r, kind, tracks, strip=None, atts=(), att_first=False):
	"""tracks: {number: [frames]} in one container"""
	nums = sorted(tracks)
	r.shuffle(nums)
	p = pieces_of(r, tracks)
	if kind == "avi":
		return g.avi(r, p)
	if kind == "mkv":
		ps = []
		i = 0
		while i < len(p):
			n = 1 if r.random() < 0.6 else r.randint(1, 6)
			t = p[i][0]
			fr = []
			while i < len(p) and len(fr) < n and p[i][0] == t:
				fr.append(p[i][1])
				i += 1
			ps.append((t, fr))
		return g.mkv(r, ps, nums, strip, atts, att_first)
	if kind == "mp4":
		# sound that is not compressed: many small samples of one size
		fine = [t for t in tracks if all(len(f) == PCM for f in tracks[t])]
		ch = []
		i = 0
		while i < len(p):
			n = r.randint(1, 4)
			t = p[i][0]
			n = 1 if t in fine else n
			fr = []
			while i < len(p) and len(fr) < n and p[i][0] == t:
				x = p[i][1]
				fr += [x[j:j + 2] for j in range(0, PCM, 2)] if t in fine else [x]
				i += 1
			ch.append((t, fr))
		return g.mp4(r, nums, ch)
	if kind == "wmv":
		return g.asf(r, nums, p)
	if kind == "flac":
		return g.flac(r, b"\xff\xf8" + b"".join(x[1] for x in p))
	if kind == "mp3":
		h, t = g.mp3_tags(r)
		return b"".join(h) + b"\xff\xfb" + b"".join(x[1] for x in p) + b"".join(t)
	return b"\x00\x00\x01\xba" + b"".join(x[1] for x in p)

def movie(r, kind, **kw):
	m = g.Movie(r, kind, **kw)
	return m, mux(r, kind, m.tracks)

def quiet_fp(s):
	"""no fpcalc in the sandbox: a fixed fingerprint"""
	m = s.mod("resample.main")
	m.fingerprint = lambda *a, **k: ("120", b"AQADtFingerprint" * 3)
	return m

# -- C15 -----------------------------------------------------------------------------
NAMES = ("sample.avi", "a", "sämple-über.mkv", "日本語サンプル.mkv", "x" * 200 + ".mp4", "a b.c.d",
	"\u00e9\U0001f600.wmv", "s.vob")

def rnd(r, bits):
	"""a number below 2**bits, often near an edge"""
	k = r.random()
	if k < 0.35:
		e = r.choice([x for x in (7, 8, 15, 16, 31, 32, 63, 64) if x <= bits])
		return max(0, min((1 << bits) - 1, (1 << e) + r.randint(-2, 1)))
	return r.getrandbits(r.randint(1, bits))

@search("C15", "srs_records", "records inside real SRS files of every container form, "
	"numbers at the limits of their fields, up to 3 tracks, signatures up to 65535 bytes")
def srs_records(s):
	r = s.rng
	m = quiet_fp(s)
	res = s.mod("resample")
	FT = m.FileType
	types = dict(avi=FT.AVI, mkv=FT.MKV, mp4=FT.MP4, wmv=FT.WMV, flac=FT.FLAC, mp3=FT.MP3,
		stream=FT.STREAM)
	while s.more():
		kind = r.choice(KINDS)
		def case():
			d = s.dir()
			_, data = movie(r, kind)
			fn = os.path.join(d, "in." + EXT[kind])
			with open(fn, "wb") as h:
				h.write(data)
			cls = m.sample_class_factory(types[kind])
			fd = m.FileData(file_name=fn)
			tracks, atts = cls.profile_sample(fd)
			app = r.choice(("pyReScene 1.0", "", "äpp", "x" * 300))
			old = res.APPNAME
			name = r.choice(NAMES)
			fd.sample_name = name if r.random() < 0.5 else os.path.join(d, name)
			fd.size, fd.crc32 = rnd(r, 64), rnd(r, 32)
			want = {}
			out = {}
			n = 1 if kind in ("flac", "mp3", "stream") else r.randint(1, 3)
			for i in range(n):
				t = m.TrackData()
				t.track_number = 1 if n == 1 and kind in ("flac", "mp3") else rnd(r, 32)
				t.data_length = rnd(r, 64)
				t.match_offset = rnd(r, 64)
				t.signature_bytes = r.randbytes(r.choice((0, 1, 2, 255, 256, 257, 2000) +
					((65535,) if kind == "mkv" else ())))
				if kind in ("flac", "mp3") and r.random() < 0.9:
					t.duration = r.choice((0, 5, "77", 2 ** 31))
					t.fingerprint = r.randbytes(r.choice((0, 1, 300)))
				if t.track_number in want:
					continue
				want[t.track_number] = (t.data_length, t.match_offset, bytes(t.signature_bytes),
					int(t.duration) if hasattr(t, "duration") else None,
					getattr(t, "fingerprint", None))
				out[t.track_number] = t
			big = r.random() < 0.5
			s.note(kind=kind, app=app, name=name, size=fd.size, crc=fd.crc32, big=big,
				tracks={k: (v[0], v[1], len(v[2])) for k, v in want.items()})
			s.seen((kind, len(want), big, fd.size.bit_length() // 16))
			srs = os.path.join(d, "o.srs")
			try:
				res.APPNAME = app
				cls.create_srs(out, fd, fn, srs, big)
			finally:
				res.APPNAME = old
			fd2, tr = m.sample_class_factory(types[kind]).load_srs(srs)
			got = (fd2.appname, fd2.sample_name, fd2.name, fd2.size, fd2.crc32)
			exp = (app, name, name, fd.size, fd.crc32)
			if got != exp:
				s.violate("file-record", "%s: written %r, read %r" % (kind, exp, got))
			if set(tr) != set(want):
				s.violate("track-numbers", "%s: written %r, read %r" % (kind, sorted(want),
					sorted(tr)))
			for k, w in want.items():
				t = tr[k]
				dur, fp = w[3], w[4]
				g2 = (t.track_number, t.data_length, t.match_offset, bytes(t.signature_bytes))
				if g2 != (k,) + w[:3]:
					s.violate("track-record", "%s: track %d written %r, read %r" % (kind, k,
						(w[:2], len(w[2])), (g2[:3], len(g2[3]))))
				if dur is not None and (t.duration, bytes(t.fingerprint)) != (dur, fp):
					s.violate("fingerprint-record", "%s: written %r, read %r" % (kind, (dur,
						fp), (t.duration, t.fingerprint)))
			# the wrapper announces the length of the record
			for o in [fd] + list(out.values()):
				res.APPNAME = app
				try:
					check_wrappers(s, m, o, isinstance(o, m.FileData))
				finally:
					res.APPNAME = old
		s.case(case)

def check_wrappers(s, m, o, isfile):
	rec = o.serialize()
	w = o.serialize_as_ebml()
	head = bytes((m.EbmlID.RESAMPLE_FILE if isfile else m.EbmlID.RESAMPLE_TRACK))
	exp = {
		"ebml": g.el(head, rec),
		"riff": (b"SRSF" if isfile else b"SRST") + struct.pack("<L", len(rec)) + rec,
		"mov": struct.pack(">L", len(rec) + 8) + (b"SRSF" if isfile else b"SRST") + rec,
		"asf": bytes(m.GUID_SRS_FILE if isfile else m.GUID_SRS_TRACK) +
			struct.pack("<Q", len(rec) + 24) + rec,
		"stream": (b"SRSF" if isfile else b"SRST") + struct.pack("<L", len(rec) + 8) + rec,
	}
	for k, e in exp.items():
		b = bytes(getattr(o, "serialize_as_" + k)())
		if b != e:
			s.violate("wrapper-length", "%s wrapper: %r instead of %r for a record of %d bytes"
				% (k, b[:24], e[:24], len(rec)))
	if len(rec) < 1 << 24:
		b = bytes(o.serialize_as_flac())
		e = (b"s" if isfile else b"t") + struct.pack(">L", len(rec))[1:] + rec
		if b[:len(e)] != e:
			s.violate("wrapper-length", "flac wrapper: %r instead of %r" % (b[:8], e[:8]))
	b = bytes(o.serialize_as_mp3())
	e = exp["stream"]
	if b[:len(e)] != e:
		s.violate("wrapper-length", "mp3 wrapper: %r instead of %r" % (b[:8], e[:8]))

# -- C16 -----------------------------------------------------------------------------
@search("C16", "mp3_tags", "MP3 files of up to 200 KB with up to 3 leading and 4 trailing tags, "
	"tag sizes at the limits of the search windows, mutated tag sizes")
def mp3_tags(s):
	r = s.rng
	M = s.mod("resample.mp3")
	while s.more():
		def case():
			d = s.dir()
			head, tail = g.mp3_tags(r)
			if r.random() < 0.1:
				head = [g.id3v2(r, r.choice((127, 128, 129, 16383, 16384, 70000)))]
			k = r.random()
			audio = r.choice((b"\xff\xfb", b"\xff\xe0", b"\xff\xff", b"RIFF"))
			n = r.choice((0, 1, 2, 3, 30, 127, 128, 129, 5000, 66000)) if r.random() < 0.3 else \
				r.randint(0, 3000)
			if k < 0.8:
				audio += r.randbytes(n)
			junk = b""
			if head and r.random() < 0.15:
				junk = g.nosync(r, r.choice((1, 5, 100, 65500, 65540)))
				if r.random() < 0.6:
					junk += g.id3v2(r, r.choice((0, 10, 300)))
			if not head and r.random() < 0.1:
				audio = g.nosync(r, n + 5)
			data = b"".join(head) + junk + audio + b"".join(tail)
			fn = os.path.join(d, "a.mp3")
			if data[-128:-125] == b"TAG" and tail and not tail[-1].startswith(b"TAG"):
				return          # part of the word APETAGEX: two valid readings
			mutated = r.random() < 0.25 and (head or tail)
			if mutated:
				b = bytearray(data)
				for _ in range(r.randint(1, 4)):
					j = r.choice([r.randrange(len(b)), max(0, len(b) - r.randint(1, 160)),
						r.randrange(min(len(b), 12))])
					b[j] = r.choice((0, 1, 0x30, 0x39, 0x7f, 0xff, r.randrange(256)))
				data = bytes(b)
				if r.random() < 0.3:
					data = data[:r.randrange(len(data) + 1)]
			with open(fn, "wb") as h:
				h.write(data)
			s.note(head=[len(x) for x in head], junk=len(junk), audio=len(audio),
				tail=[(x[:11], len(x)) for x in tail], mutated=mutated,
				data=data if len(data) < 3000 else data[:200] + data[-300:])
			s.seen((len(head), len(tail), bool(junk), bool(mutated), len(data) < 128))
			try:
				rd = M.Mp3Reader(path=fn)
				blocks = [(b.start_pos, b.size, b.type, bytes(rd.read_contents()))
					for b in rd.read()]
				rd.close()
			except Exception:
				if mutated:
					s.count("refused")
					return
				raise
			if mutated:
				return
			pos = 0
			for st, z, t, c in blocks:
				if st != pos or z < 0:
					s.violate("parts-cover-file", "part %s starts at %d, expected %d; parts %r"
						% (t, st, pos, [b[:3] for b in blocks]))
				if c != data[st:st + z]:
					s.violate("part-content", "part %s at %d: %d bytes read, %d bytes in file"
						% (t, st, len(c), z))
				pos = st + z
			if pos != len(data):
				s.violate("parts-cover-file", "parts end at %d of %d: %r" % (pos, len(data),
					[b[:3] for b in blocks]))
			main = [b for b in blocks if b[2] == "MP3"]
			if len(main) != 1:
				s.violate("one-audio-part", repr([b[:3] for b in blocks]))
			if not junk:
				at = sum(map(len, head))
				if (main[0][0], main[0][1]) != (at, len(audio)):
					s.violate("audio-between-tags", "audio part %r, expected %r; parts %r" % (
						main[0][:2], (at, len(audio)), [b[:3] for b in blocks]))
				exp = [len(x) for x in head] + [len(audio)] + [len(x) for x in tail]
				if [b[1] for b in blocks] != exp:
					s.violate("tag-boundaries", "parts %r, expected sizes %r" % (
						[b[:3] for b in blocks], exp))
		s.case(case)

# -- C17 -----------------------------------------------------------------------------
def u(b, o, n, little=False):
	return int.from_bytes(b[o:o + n], "little" if little else "big")

def o_riff(data, p, srs):
	"""-> (header length, content length, bytes to the next element)"""
	z = u(data, p + 4, 4, True)
	h = 8
	cc = data[p:p + 4]
	if cc in (b"RIFF", b"LIST"):
		h, z = 12, z - 4
	if srs and cc[:2].isdigit() and cc not in (b"RIFF", b"LIST"):
		return h, z, h + (z & 1)
	return h, z, h + z + (z & 1)

def vl(b):
	for i in range(8):
		if b & (0x80 >> i):
			return i + 1
	return 0

def o_ebml(data, p, srs):
	a = vl(data[p])
	b = vl(data[p + max(a, 1)])
	ih = max(a, 1)
	h = ih + max(b, 1)
	z = u(data, p + ih, max(b, 1)) & ((1 << (7 * b)) - 1 if b else 0xff)
	if data[p:p + ih] in (b"\xa1", b"\xa3"):
		q = p + h
		q += max(1, vl(data[q]))
		lace = data[q + 2] & 6
		q += 3
		q0 = p + h
		if lace:
			n = data[q] + 1
			q += 1
			if lace == 2:
				for _ in range(n - 1):
					while data[q] == 255:
						q += 1
					q += 1
			elif lace == 6:
				for _ in range(n - 1):
					q += max(1, vl(data[q]))
		bh = q - q0
		return h, z - bh, (h + bh) if srs else h + z
	return h, z, h + z

def o_mov(data, p, srs):
	z = u(data, p, 4)
	h = 8
	if z == 1:
		z = u(data, p + 8, 8)
		h = 16
	elif z == 0:
		z = 8 if data[p + 4:p + 8] == bytes(4) else len(data) - p
	if srs and data[p + 4:p + 8] == b"mdat":
		return h, z - h, None
	return h, z - h, z

def o_asf(data, p, srs):
	gd = data[p:p + 16]
	z = u(data, p + 16, 8, True)
	h = 24
	if gd == g.G_HEADER:
		h = 30
		return h, 0, h          # children follow
	if gd == g.G_DATA:
		h = 50
		if srs:
			return h, None, None
	return h, z - h, z

def o_flac(data, p, srs):
	b = data[p:p + 4]
	if b == b"fLaC":
		return 4, 0, 4
	if b[:3] == b"ID3":
		z = 0
		for x in data[p + 6:p + 10]:
			z = z * 128 + x
		return 10, z, 10 + z
	if b[:3] == b"TAG":
		return 0, 128, 128
	if b[0] == 255:
		z = len(data) - p
		if z > 128 and data[-128:-125] == b"TAG":
			z -= 128
		return 0, z, z
	z = u(data, p + 1, 3)
	return 4, z, 4 + z

class Walk(object):
	"""One reader with one name for the things they have in common."""
	def __init__(self, s, kind, mode, data):
		self.kind, self.mode, self.data = kind, mode, data
		self.f = io.BytesIO(data)
		if kind == "avi":
			m = s.mod("resample.riff")
			self.rd = m.RiffReader(getattr(m.RiffReadMode, mode), stream=self.f)
			self.oracle, self.attr, self.min = o_riff, "current_chunk", 8
		elif kind == "mkv":
			m = s.mod("resample.ebml")
			self.rd = m.EbmlReader(getattr(m.EbmlReadMode, mode), stream=self.f)
			self.oracle, self.attr, self.min = o_ebml, "current_element", 2
		elif kind == "mp4":
			m = s.mod("resample.mov")
			self.rd = m.MovReader(getattr(m.MovReadMode, mode), stream=self.f)
			self.oracle, self.attr, self.min = o_mov, "current_atom", 8
		elif kind == "wmv":
			m = s.mod("resample.asf")
			self.rd = m.AsfReader(getattr(m.AsfReadMode, mode), stream=self.f)
			self.oracle, self.attr, self.min = o_asf, "current_object", 24
		elif kind == "flac":
			m = s.mod("resample.flac")
			self.rd = m.FlacReader(stream=self.f)
			self.oracle, self.attr, self.min = o_flac, "current_block", 1
	def cur(self):
		e = getattr(self.rd, self.attr)
		for a in ("chunk_start_pos", "element_start_pos", "start_pos"):
			if hasattr(e, a):
				return e, getattr(e, a)
	def container(self, p):
		d = self.data
		if self.kind == "avi":
			return d[p:p + 4] in (b"RIFF", b"LIST")
		if self.kind == "mkv":
			return any(d[p:p + len(i)] == i for i in (b"\x18\x53\x80\x67", b"\x1f\x43\xb6\x75",
				b"\xa0", b"\x16\x54\xae\x6b", b"\xae", b"\x19\x41\xa4\x69", b"\x61\xa7",
				b"\x6d\x80", b"\x62\x40", b"\x50\x34", b"\x1f\x69\x75\x76"))
		if self.kind == "mp4":
			return d[p + 4:p + 8] in (b"moov", b"trak", b"mdia", b"minf", b"stbl")
		return False
	def contents(self):
		if self.kind == "mp4" and self.mode != "SRS" and self.rd.atom_type == b"mdat":
			return b"".join(self.rd.read_contents_chunks(7))
		return self.rd.read_contents()

MODES = dict(avi=("AVI", "Sample", "SRS"), mkv=("MKV", "Sample", "SRS"),
	mp4=("MP4", "Sample", "SRS"), wmv=("WMV", "Sample", "SRS"), flac=("",))

def walk(s, r, kind, mode, data, intact):
	"""Walks the data with a random choice of skip, read and step into; every element
	is compared with the independent element parser."""
	w = Walk(s, kind, mode, data)
	srs = mode == "SRS"
	pos = 0
	trace = []
	s.note(trace=trace)
	steps = 0
	while True:
		steps += 1
		if steps > len(data) + 50:
			s.violate("terminates", "%d steps on %d bytes" % (steps, len(data)))
		ok = w.rd.read()
		if not ok:
			left = len(data) - pos if pos is not None else 0
			if left >= w.min and (kind != "mkv" or intact):
				s.violate("stops-at-end", "reader stops at %d of %d" % (pos, len(data)))
			return trace
		e, start = w.cur()
		if pos is not None and start != pos:
			s.violate("elements-adjoin", "element at %d, previous ended at %d: %r" % (start,
				pos, trace[-4:]))
		h, c, adv = w.oracle(data, start, srs)
		trace.append((start, bytes(data[start:start + 8]), c))
		raw = bytes(e.raw_header)
		if raw != data[start:start + h]:
			s.violate("header-bytes", "element at %d: header %r, file has %r" % (start, raw,
				data[start:start + h]))
		inside = c is not None and adv is not None and start + adv <= len(data)
		k = r.random()
		# the data of these is removed from an SRS: only to step into
		if srs and kind == "mkv" and data[start:start + 2] == b"\x46\x5c":
			w.rd.move_to_child()
			nxt = start + h
		elif w.container(start) and (k < 0.85 or srs):
			w.rd.move_to_child()
			nxt = start + h
		elif k < 0.55:
			b = w.contents()
			if inside and b is not None and not (srs and adv < h + c):
				want = data[start + adv - c - ((c & 1) if kind == "avi" else 0):][:c]
				if kind == "wmv" and data[start:start + 16] == g.G_HEADER:
					want = None
				if want is not None and bytes(b) != want:
					s.violate("content-bytes", "element at %d (%r): %d bytes read, expected %d"
						% (start, data[start:start + 8], len(b), len(want)))
			if kind == "wmv" and data[start:start + 16] == g.G_HEADER:
				nxt = None
			else:
				nxt = None if adv is None else start + adv
			if r.random() < 0.1 and kind in ("avi", "mkv", "flac") and inside and not srs:
				b2 = w.contents()
				if bytes(b2) != bytes(b):
					s.violate("read-again", "element at %d: second read differs" % start)
		else:
			w.rd.skip_contents()
			nxt = None if adv is None else start + adv
			if kind == "wmv" and data[start:start + 16] == g.G_HEADER:
				nxt = None
		if nxt is None:
			nxt = w.f.tell()
		if nxt <= start:
			s.violate("progress", "element at %d: next one at %d" % (start, nxt))
		pos = nxt if nxt <= len(data) or mode != "SRS" else None
		if pos is not None and pos > len(data):
			pos = None

def make_srs(s, r, kind, d, data):
	m = quiet_fp(s)
	FT = m.FileType
	types = dict(avi=FT.AVI, mkv=FT.MKV, mp4=FT.MP4, wmv=FT.WMV, flac=FT.FLAC, mp3=FT.MP3,
		stream=FT.STREAM)
	fn = os.path.join(d, "in." + EXT[kind])
	with open(fn, "wb") as h:
		h.write(data)
	cls = m.sample_class_factory(types[kind])
	fd = m.FileData(file_name=fn)
	tracks, atts = cls.profile_sample(fd)
	srs = os.path.join(d, "o.srs")
	cls.create_srs(tracks, fd, fn, srs, False)
	with open(srs, "rb") as h:
		return h.read()

def mutate(r, data):
	b = bytearray(data)
	for _ in range(r.randint(1, 4)):
		k = r.random()
		if not b:
			break
		j = min(int(len(b) * r.random() ** 2), len(b) - 1)
		if k < 0.5:
			b[j] = r.choice((0, 0, 1, 0x7f, 0x80, 0xff, r.randrange(256)))
		elif k < 0.8:
			n = r.choice((2, 4, 4, 8))
			b[j:j + n] = r.choice((bytes(n), b"\xff" * n, bytes(n - 1) + b"\x01", b"\x01" +
				bytes(n - 1)))
		elif k < 0.9:
			del b[j:]
		else:
			del b[j:j + r.randint(1, 9)]
	return bytes(b)

@search("C17", "containers", "files of at most about 30 KB in every container form and reading "
	"mode, random choice of skip, read and step into; 40 % with mutated bytes or truncated")
def containers(s):
	r = s.rng
	while s.more():
		kind = r.choice(("avi", "mkv", "mp4", "wmv", "flac"))
		mode = r.choice(MODES[kind])
		def case():
			d = s.dir()
			mv = g.Movie(r, kind)
			atts = [("f%d.ttf" % i, r.randbytes(r.randint(0, 50))) for i in
				range(r.choice((0, 0, 1, 2)))] if kind == "mkv" else ()
			strip = {}
			data = mux(r, kind, mv.tracks, strip, atts)
			if mode == "SRS" or kind == "flac" and r.random() < 0.4:
				data = make_srs(s, r, kind, d, data)
			intact = r.random() < 0.6
			if not intact:
				data = mutate(r, data)
			s.note(kind=kind, mode=mode, intact=intact, data=data)
			s.seen((kind, mode, intact))
			if intact:
				walk(s, r, kind, mode, data, True)
			else:
				try:
					walk(s, r, kind, mode, data, False)
				except DATA_ERRORS:
					s.count("data errors")
		s.case(case, 20)

@search("C17", "stream_srs", "stream SRS files and mutations of them")
def stream_srs(s):
	r = s.rng
	m = s.mod("resample.stream")
	while s.more():
		def case():
			blocks = [(b"STRM", b"")] + [(r.choice((b"SRSF", b"SRST", b"HDRS")),
				r.randbytes(r.choice((0, 1, 20, 300)))) for _ in range(r.randint(0, 4))]
			data = b"".join(n + struct.pack("<L", len(c) + 8) + c for n, c in blocks)
			intact = r.random() < 0.5
			if not intact:
				data = mutate(r, data)
			s.note(data=data, intact=intact)
			s.seen((len(blocks), intact))
			try:
				rd = m.StreamReader(stream=io.BytesIO(data))
				got = []
				for b in rd.read():
					got.append((b.start_pos, b.size, b.type, bytes(rd.read_contents())))
			except DATA_ERRORS:
				if intact:
					raise
				s.count("data errors")
				return
			pos = 0
			for st, z, t, c in got:
				if st != pos or z < 8 or c != data[st + 8:st + z]:
					s.violate("blocks-adjoin", "block %r at %d size %d, previous ended at %d" %
						(t, st, z, pos))
				pos = st + z
			if pos != len(data):
				s.violate("blocks-cover-file", "blocks end at %d of %d" % (pos, len(data)))
			if intact and [(x[2], x[3]) for x in got] != [(n.decode(), c) for n, c in blocks]:
				s.violate("blocks-as-written", repr([x[:3] for x in got]))
		s.case(case, 20)

# -- C21 -----------------------------------------------------------------------------
@search("C21", "mp4_tables", "MP4 tables of up to 3 tracks, 40 samples in up to 40 chunks per "
	"track, samples of 0 to 900 bytes; one of 300 with 65535 to 70001 samples")
def mp4_tables(s):
	r = s.rng
	m = s.mod("resample.main")
	while s.more():
		def many():
			# sound that is not compressed: more samples than fit in 16 bits
			n, z = r.choice((65535, 65536, 70001)), r.randint(1, 3)
			data = r.randbytes(n * z)
			fr = [data[i:i + z] for i in range(0, n * z, z)]
			fn = os.path.join(s.dir(), "a.mp4")
			with open(fn, "wb") as h:
				h.write(g.mp4(r, [2], [(2, fr[i:i + 500]) for i in range(0, n, 500)]))
			s.note(samples=n, size=z)
			t = m.profile_mp4(m.FileData(file_name=fn))[2]
			if t.data_length != n * z or bytes(t.signature_bytes) != data[:256]:
				s.violate("track-length", "%d, expected %d" % (t.data_length, n * z))
			with open(fn, "rb") as h:
				ts = m.mp4_add_track_stream(t).trackstream
				ts.stream = h
				if sum(len(c.samples) for c in ts.chunks) != n:
					s.violate("samples-of-chunks", "%d, expected %d" % (sum(len(c.samples) for c
						in ts.chunks), n))
		def case():
			if r.random() < 0.003:
				return many()
			tracks = {}
			for t in r.sample(range(1, 50), r.randint(1, 3)):
				n = r.randint(1, 40)
				same = r.random() < 0.2
				z = r.randint(1, 300)
				if r.random() < 0.2:
					tracks[t] = [r.randbytes(r.randint(0, 15)) for _ in range(n)]
					continue
				tracks[t] = [r.randbytes(z if same else r.choice((0, 1, 2, 30, 255, 256, 257,
					900))) for _ in range(n)]
			nums = sorted(tracks)
			r.shuffle(nums)
			left = {t: list(f) for t, f in tracks.items()}
			chunks = []
			fixed = r.random() < 0.3
			per = r.randint(1, 5)
			while any(left.values()):
				t = r.choice([t for t in left if left[t]])
				n = per if fixed else r.choice((1, 1, 2, 2, 3, 7))
				chunks.append((t, left[t][:n]))
				left[t] = left[t][n:]
			data = g.mp4(r, nums, chunks)
			fn = os.path.join(s.dir(), "a.mp4")
			with open(fn, "wb") as h:
				h.write(data)
			s.note(samples={t: [len(x) for x in f] for t, f in tracks.items()},
				chunks=[(t, [len(x) for x in c]) for t, c in chunks])
			s.seen((len(tracks), len(chunks)))
			fd = m.FileData(file_name=fn)
			got = m.profile_mp4(fd, calculate_crc32=r.random() < 0.5)
			if sorted(got) != sorted(tracks):
				s.violate("tracks", "%r, expected %r" % (sorted(got), sorted(tracks)))
			with open(fn, "rb") as h:
				for t in nums:
					one_track(s, r, m, got[t], tracks[t], [c for x, c in chunks if x == t], data,
						h)
			ex_runs(s, r, m)
		s.case(case)

def ex_runs(s, r, m):
	"""the expansion of a run table alone"""
	runs, first, exp = [], 1, []
	for i in range(r.randint(1, 8)):
		runs.append((first, r.randint(1, 9), r.randint(1, 2)))
		n = r.choice((1, 1, 2, 5, 30))
		exp += [(first + k, runs[-1][1], runs[-1][2]) for k in range(n)]
		first += n
	last = runs[-1][0]
	got = m.stsc(list(runs))
	if [tuple(x) for x in got] != exp[:last]:
		s.violate("expanded-table", "runs %r give %r, expected %r" % (runs, got, exp[:last]))

def one_track(s, r, m, track, samples, chunks, data, h):
	whole = b"".join(samples)
	if track.data_length != len(whole):
		s.violate("track-length", "%d, expected %d" % (track.data_length, len(whole)))
	if bytes(track.signature_bytes) != whole[:256]:
		s.violate("signature", "track %d: signature of %d bytes is not the start of the track" %
			(track.track_number, len(track.signature_bytes)))
	def stream():
		ts = m.mp4_add_track_stream(track).trackstream
		ts.stream = h
		return ts
	ts = stream()
	if [[x for x in c.samples] for c in ts.chunks] != [[len(x) for x in c] for c in chunks]:
		s.violate("samples-of-chunks", "track %d: %r, expected %r" % (track.track_number,
			[c.samples for c in ts.chunks], [[len(x) for x in c] for c in chunks]))
	# every sample: its place in the file and in the track
	starts, pos, k = [], 0, 0
	for c, off in zip(chunks, track.chunk_offsets):
		for x in c:
			starts.append((off, pos))
			if data[off:off + len(x)] != x:
				s.violate("chunk-offset", "sample at %d" % off)
			off += len(x)
			pos += len(x)
	# stepping over the samples
	ts = stream()
	for i, (off, pos) in enumerate(starts):
		n = r.choice((1, 16, 256, 300, 2000, len(whole) + 1))
		b = ts.read(n)
		if b != whole[pos:pos + n]:
			s.violate("read-from-sample", "track %d, sample %d: read(%d) gives %d bytes, expected "
				"the %d bytes at %d of the track" % (track.track_number, i, n, len(b),
				len(whole[pos:pos + n]), pos))
		if ts.current_offset() != off:
			s.violate("sample-offset", "sample %d at %d, expected %d" % (i, ts.current_offset(),
				off))
		more = next(ts)
		if bool(more) != (i + 1 < len(starts)):
			s.violate("sample-count", "after sample %d of %d: %r" % (i + 1, len(starts), more))
	for _ in range(6):
		off, pos = r.choice(starts)
		ts = stream()
		ts.seek(off)
		n = r.choice((0, 1, 16, 256, 2000, len(whole), len(whole) + 1))
		b = ts.read(n)
		if b != whole[pos:pos + n]:
			s.violate("read-after-seek", "track %d: seek(%d), read(%d) gives %d bytes, expected "
				"%d" % (track.track_number, off, n, len(b), len(whole[pos:pos + n])))
