"""C18 and C19 (srs): bounded searches over creating an SRS and rebuilding the sample."""
import os, sys, io, errno, random, struct
from pyvc.registry import search
from gen import media as g, rargen as rg
from search.readers import mux, quiet_fp, EXT, KINDS
from search.srrs import put, get

def run_main(mod, argv, secs=None):
	"""exit status of the program; anything but SystemExit is passed on"""
	try:
		mod.main(argv)
	except SystemExit as e:
		return 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
	return 0

def chop(r, b):
	"""the bytes in frames of any size"""
	out = []
	while b:
		n = r.choice((1, 2, 7, 8, 9, 40, 255, 256, 257, 1000))
		out.append(b[:n])
		b = b[n:]
	return out

def located(frames, start, S, anywhere):
	"""The signature's first place is the start, and no false start goes on matching up to it
	(known finding start-inside-partial-match).  start: a frame number, or a position in the
	stream when a match may begin anywhere."""
	T = b"".join(frames)
	if anywhere:
		at, q = range(start), start
	else:
		pos = [0]
		for f in frames:
			pos.append(pos[-1] + len(f))
		at, q = pos[:start], pos[start]
	sig = S[:256]
	return not any(T[p:q + 1] == S[:q + 1 - p] or T[p:p + len(sig)] == sig for p in at if p < q)

def like_header(frames, x):
	"""The four bytes eight before a start inside an AVI chunk read as the type of one: the
	chunk is taken to begin there (known finding chunk-type-in-data)."""
	for f in frames:
		if x < len(f):
			return x > 0 and all(c in LETTERS for c in (b"00dc" + struct.pack("<L", len(f)) +
				f)[x:x + 4])
		x -= len(f)
	return False

LETTERS = b" 0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

def cut(r, m, kind):
	"""A part of every track: a range of its frames, or of its bytes in other frames.  What is
	in front of it may begin like it."""
	out = {}
	for t in list(m.tracks):
		f = list(m.tracks[t])
		total = len(b"".join(f))
		for _ in range(50):
			if kind in ("avi", "wmv") and r.random() < 0.35 and total > 40:
				x = r.randrange(total - 20)
				y = r.choice((total, r.randint(x + 17, total)))
				S = b"".join(f)[x:y]
				part, start = chop(r, S), x
				anywhere = True
				fr = f
			else:
				ok = [i for i in range(len(f)) if len(f[i]) >= 16]
				a = r.choice((r.choice(ok), r.randrange(len(f)), 0))
				b = r.choice((len(f), r.randint(a + 1, len(f))))
				part = f[a:b]
				S = b"".join(part)
				fr = list(f)
				if a and r.random() < 0.4:     # a false start
					k = r.choice((1, 2, r.randint(1, max(1, min(len(S), 300)))))
					if kind == "mkv" and os.path.commonprefix(f):
						k = max(k, 5)
					i = r.choice((a - 1, r.randrange(a)))
					fr[i] = S[:k] if kind in ("mkv", "mp4") else fr[i][:r.randint(0, 40)] + S[:k]
					if r.random() < 0.3 and i + 1 < a:
						fr[i + 1] = S[k:k + r.randint(0, 60)] + r.randbytes(20)
				anywhere = kind in ("avi", "wmv")
				start = len(b"".join(fr[:a])) if anywhere else a
			if S and located(fr, start, S, anywhere) and not (kind == "avi" and
				like_header(fr, start)):
				m.tracks[t] = fr
				out[t] = part
				break
		else:
			out[t] = list(f)
	for t in list(out):
		if any(any(f) for u, f in out.items() if u != t):
			x = r.random()
			if x < 0.1:                          # in the main file only
				del out[t]
			elif x < 0.2 and kind in ("mkv", "avi", "wmv"):
				out[t] = []                      # none of its data
	return out

def music(r, kind, tracks):
	while True:
		d = mux(r, kind, tracks)
		if d[-131:-123] != b"APETAGEX":     # would read as an ID3v1 tag as well
			return d

class Pair(object):
	"""A main file and a sample of it."""
	def __init__(self, r, kind, big=False):
		self.kind = kind
		m = self.movie = g.Movie(r, kind, nframes=None, big=big)
		if kind in ("flac", "mp3"):
			self.audio = b"".join(m.tracks[list(m.tracks)[0]])
			h = b"\xff\xf8" if kind == "flac" else b"\xff\xfb"
			self.tracks = m.tracks
			self.sample = music(r, kind, m.tracks)
			self.main = music(r, kind, m.tracks)
			if kind == "mp3" and r.random() < 0.3:
				while True:
					h, t = g.mp3_tags(r)
					n = r.choice((1, 5, 300, 65536 - r.randint(0, 300), 131072 - r.randint(0, 600)))
					self.main = b"".join(h or [g.id3v2(r)]) + g.nosync(r, n) + self.audio_of(
						r, m) + b"".join(t)
					if self.main[-131:-123] != b"APETAGEX":
						break
		elif kind == "stream":
			whole = b"\x00\x00\x01\xba" + b"".join(m.tracks[list(m.tracks)[0]])
			a = r.choice((0, 0, r.randrange(max(1, len(whole) - 300)))) if len(whole) > 320 else 0
			# a cut that happens to begin like another file type is taken for that type
			while a and whole[a] in b"\xff\x47\x49\x52\x66\x4d\x54\x1a\x30\x00":
				a -= 1
			b = r.randint(min(len(whole), a + 40), len(whole))
			while whole[a:b][-128:-125] == b"TAG":
				b -= 1
			self.sample = whole[a:b]
			self.main = whole + r.randbytes(r.choice((0, 5, 3000)))
			if r.random() < 0.5:
				k = r.choice((1, 255, 256, 5000, 65536, 65536 - r.randint(0, 600),
					131072 - r.randint(0, 600)))
				pre = r.randbytes(max(1, k - r.choice((0, a + 4))))
				self.main = b"\x00\x00\x01\xba" + pre + self.main
			self.tracks = m.tracks
		else:
			if kind == "mkv" and r.random() < 0.5:
				shared_prefix(r, m)
			full = {t: os.path.commonprefix([bytes(x[:4]) for x in f]) for t, f in
				m.tracks.items()}
			self.tracks = cut(r, m, kind)
			if kind == "mkv":
				self.atts = [("%s %d.TTF" % (r.choice(("f", "Fönt", "F")), i),
					r.randbytes(r.choice((0, 1, 300, 3000)))) for i in
					range(r.choice((0, 0, 1, 2)))]
				def strip():
					out = {}
					for t, f in m.tracks.items():
						p = os.path.commonprefix([full[t]] + [bytes(x) for x in f])
						p = p[:r.randint(0, len(p))]
						if p and r.random() < 0.7:
							out[t] = p
					return out
				self.strips = (strip(), strip())
				self.sample = mux(r, kind, self.tracks, self.strips[0], self.atts)
				# attachments behind the media data: known finding mkv-attachments-last
				self.main = mux(r, kind, m.tracks, self.strips[1], self.atts, True)
			else:
				self.sample = mux(r, kind, self.tracks)
				self.main = mux(r, kind, m.tracks)
	def audio_of(self, r, m):
		return b"\xff\xfb" + b"".join(b"".join(f) for f in m.tracks.values())
	def note(self):
		return dict(kind=self.kind, strips=getattr(self, "strips", None), main={t: [len(x) for x in f] for t, f in
			self.movie.tracks.items()}, sample={t: [len(x) for x in f] for t, f in
			self.tracks.items()}, sizes=(len(self.sample), len(self.main)), sample_end=self.sample[-260:])

def shared_prefix(r, m):
	"""Lets all frames of some tracks start with the same bytes (for header stripping)."""
	for t in list(m.tracks):
		if r.random() < 0.5:
			p = r.randbytes(r.randint(1, 3))
			# nothing left of a frame in a lace: known finding empty-frame-before-match
			m.tracks[t] = [p + (x or b"x") for x in m.tracks[t]]

def place_main(r, d, data, name, where):
	"""Writes the main file, plain or inside a RAR set; returns the path to give."""
	if where == "plain":
		p = os.path.join(d, name)
		put(p, data)
		return p
	files = [rg.F(name, data)]
	if where == "rar2":
		files.insert(0, rg.F("a-first.nfo", r.randbytes(300)))
	n = r.randint(1, 5)
	# the movie starts in the first volume: only that one is searched for it
	rs = rg.RarSet("mov", files, max(340, len(data) // n + 40) if n > 1 else 0,
		r.choice((rg.OLD, rg.NEW)), 2, r.choice((0, 1)))
	return rs.write(os.path.join(d, "rar"))

def damage(r, data, how, kind):
	b = bytearray(data)
	lo = hi = 0
	if kind == "mp4":
		# the sample tables stay: their counts may stand for any amount of memory
		lo = data.index(b"moov") - 4
		hi = lo + int.from_bytes(data[lo:lo + 4], "big")
	j = r.choice([i for i in range(len(b)) if not lo <= i < hi])
	if how == "flip":
		for _ in range(r.randint(1, 6)):
			b[j] ^= r.choice((1, 0x80, 0xff))
			j = r.choice([i for i in range(len(b)) if not lo <= i < hi])
	elif how == "cut":
		del b[j:]
	elif how == "insert":
		b[j:j] = r.randbytes(r.randint(1, 9))
	return bytes(b)

def samples_case(s, r, m, srsm, kind):
	d = s.dir()
	p = Pair(r, kind, s.tier != "quick" and r.random() < 0.2)
	ext = EXT[kind]
	sname = r.choice(("s.%s", "the-sample.%s", "sämple x.%s")) % ext
	sp = os.path.join(d, "in", sname)
	put(sp, p.sample)
	where = r.choice(("plain", "plain", "rar", "rar2"))
	if kind in ("flac", "mp3", "stream"):
		where = "plain" if r.random() < 0.8 or kind != "stream" else "rar"
	mname = "movie." + ext
	main = place_main(r, os.path.join(d, "m"), p.main, mname, where)
	check = r.random() < 0.4
	big = r.random() < 0.2
	opts = ["-m"] if r.random() < 0.3 else []
	if r.random() < 0.3:
		opts.append("-k")
	keep = "-k" in opts
	s.note(where=where, check=check, big=big, opts=opts, **p.note())
	s.seen((kind, where, check, bool(opts)))
	srs = os.path.join(d, "o.srs")
	rc = run_main(srsm, [sp, "-o", srs, "-y"] + (["-c", main] if check else []) +
		(["-b"] if big else []))
	if rc != 0 or not os.path.exists(srs):
		s.violate("srs-created", "creating the SRS of a sound %s sample ends with %s%s" % (kind,
			rc, "" if not check else " (checked against the main file)"))
	if get(sp) != p.sample:
		s.violate("sample-untouched", "creating an SRS changed the sample")
	out = os.path.join(d, "out")
	os.makedirs(out)
	old = r.choice((None, None, b"old content"))
	if old is not None:
		put(os.path.join(out, sname), old)
	rc = run_main(srsm, [srs, main, "-o", out, "-y"] + opts)
	res = os.path.join(out, sname)
	have = get(res) if os.path.exists(res) else None
	if rc != 0 or have != p.sample:
		s.violate("rebuilt-sample", "rebuilding a %s sample with its main file: status %s, %s" % (
			kind, rc, "no result" if have is None else "%d bytes, expected %d, equal: %s" % (
			len(have), len(p.sample), have == p.sample)))
	if sorted(os.listdir(out)) != [sname]:
		s.violate("only-the-sample", repr(sorted(os.listdir(out))))
	s.count("rebuilt " + kind)
	# other main files: never a wrong sample that is reported as good
	for _ in range(2):
		how = r.choice(("flip", "flip", "cut", "insert", "other"))
		if how == "other":
			q = Pair(r, kind)
			bad = q.main
		else:
			bad = damage(r, p.main, how, kind)
		if not bad or bad == p.main:
			continue
		bd = s.dir()
		bmain = place_main(r, os.path.join(bd, "m"), bad, mname, where)
		out = os.path.join(bd, "out")
		os.makedirs(out)
		old = r.choice((None, b"old content"))
		res = os.path.join(out, sname)
		if old is not None:
			put(res, old)
		s.note(bad_main=how)
		rc = run_main(srsm, [srs, bmain, "-o", out, "-y"] + opts)
		have = get(res) if os.path.exists(res) else None
		if rc == 0 and have != p.sample:
			s.violate("success-only-when-identical", "main file damaged (%s): success reported, "
				"%s" % (how, "no result" if have is None else "%d bytes" % len(have)))
		if rc != 0 and have != old and not keep:
			s.violate("no-wrong-sample", "main file damaged (%s): status %d, the target holds %s"
				% (how, rc, "nothing" if have is None else "%d bytes, the original: %s" % (
				len(have), have == p.sample)))
		if rc == 99:
			s.count("status 99")
		s.count("bad main %s" % ("refused" if rc else "still good"))

def make(kinds, name, weight=1.0):
	@search("C18", name, "%s: movies of up to 3 tracks and 12 frames per track, plain or in up to "
		"8 RAR volumes; damaged and foreign main files" % "/".join(kinds), weight)
	def f(s):
		r = s.rng
		m = quiet_fp(s)
		srsm = s.mod("resample.srs")
		while s.more():
			kind = r.choice(kinds)
			s.case(lambda: samples_case(s, r, m, srsm, kind), 60)
	return f

make(("avi", "mkv"), "avi_mkv")
make(("mp4", "wmv"), "mp4_wmv")
make(("flac", "mp3", "stream"), "music_stream")
