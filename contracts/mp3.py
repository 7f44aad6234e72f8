"""C16: ID3v2 size coding."""
import struct
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import mk, zx

class C(object):
	pass

@contract("C16", "id3_size_decode_encode",
	["resample.mp3.decode_id3_size", "resample.mp3.encode_id3_size"])
def id3_decode(v):
	"""Every 4 byte string of 7-bit groups decodes to its base-128 number, and
	encodes back to the same bytes."""
	m = v.mod("resample.mp3")
	b = v.bytes("b", 4, 4)
	for i in range(4):
		v.assume(b[i] < 128)
	s = m.decode_id3_size(b)
	v.check("base-128-value", s == b[0] * 2097152 + b[1] * 16384 + b[2] * 128 + b[3])
	v.check_eq("encode-inverts-decode", m.encode_id3_size(s), b)

@contract("C16", "id3_size_encode_decode",
	["resample.mp3.decode_id3_size", "resample.mp3.encode_id3_size"])
def id3_encode(v):
	m = v.mod("resample.mp3")
	n = v.int("n", 0, 2 ** 28 - 1)
	e = m.encode_id3_size(n)
	v.check("four-bytes", v.len(e) == 4)
	for i in range(4):
		v.check("seven-bits-%d" % i, e[i] < 128)
	v.check("decode-inverts-encode", m.decode_id3_size(e) == n)

# -- the division of a file -----------------------------------------------------------
R = "resample.mp3.Mp3Reader."
DATA = (ValueError, struct.error)

def le(F, p):
	return F[p] + F[p + 1] * 256 + F[p + 2] * 65536 + F[p + 3] * 16777216

def let(v, x):
	"""a name for the number"""
	if not v.symbolic:
		return x
	y = v.fresh_int("is")
	v.assume(y == x)
	return y

def at(v, F, p, word):
	"""the word is in the file at p"""
	n = len(word)
	return bool(v.And(p >= 0, p + n <= v.len(F), F[p:p + n] == word))

def at_(v, F, p, word):
	return v.And(p >= 0, p + len(word) <= v.len(F), *[byte(v, F, p + i) == c
		for i, c in enumerate(word)])

def byte(v, F, p):
	"""byte p, whatever it is behind the end"""
	if v.symbolic:
		return mk(F.at(zx(p)))
	return F[p] if 0 <= p < len(F) else -1

def sync_at(v, F, p):
	return v.And(p + 4 <= v.len(F), v.Or(v.And(byte(v, F, p) == 255, byte(v, F, p + 1) >= 224),
		at_(v, F, p, b"RIFF")))

def start_is(v, F, B, mode, led):
	"""what follows the leading tags, in each contract"""
	srs = at_(v, F, B, b"SRS")
	if mode == "audio":
		return v.And(B + 4 <= v.len(F), v.Not(srs), sync_at(v, F, B) if led else True)
	if mode == "junk":
		return v.And(bool(led), v.Not(srs), v.Not(sync_at(v, F, B)))
	return at_(v, F, B, b"SRSF")

def ends_with(v, F, kind):
	"""there is no other kind of tag at the end"""
	N = v.len(F)
	words = {"id3v1": (128, b"TAG"), "lyrics2": (9, b"LYRICS200"), "lyrics1": (9, b"LYRICSEND"),
		"ape": (32, b"APETAGEX")}
	for k, (n, w) in words.items():
		if k != kind:
			v.assume(v.Not(at_(v, F, N - n, w)))
			if kind == "id3v1":
				v.assume(v.Not(at_(v, F, N - 128 - n, w)))

def id3_size(v, F, p):
	for i in range(4):
		v.assume(F[p + 6 + i] < 128)
	return 10 + F[p + 6] * 2097152 + F[p + 7] * 16384 + F[p + 8] * 128 + F[p + 9]

def lyrics_start(v, F, E):
	"""where the Lyrics3 v1 tag that ends at E begins: at most 5100 bytes before"""
	word = b"LYRICSBEGIN"
	low = v.ite(E > 5100, E - 5100, 0)
	if not v.symbolic:
		s = F.find(word, low, E)
		v.assume(s >= 0)
		return s
	s = v.fresh_int("lyrics")
	v.assume(v.And(s >= low, s + 20 <= E))
	v.assume(at(v, F, s, word))
	w = F[low:E]
	# the tag has this word once, at its begin
	for t, y, n, start, last, r in list(v.ctx.shared.get("finds", [])):
		if not last and t.same(w):
			t.nowhere_else(word, s - low)
			if not isinstance(r, int):
				v.assume(r == s - low)
	return s

def trailing(v, F, E):
	"""sizes of the tags at the end, in file order, by the formats"""
	out = []
	if E >= 128 and at(v, F, E - 128, b"TAG"):
		out.insert(0, 128)
		E = E - 128
	if E >= 15 and at(v, F, E - 9, b"LYRICS200"):
		z = 0
		for i in range(6):
			d = F[E - 15 + i]
			v.assume(v.And(d >= 48, d <= 57))
			z = z * 10 + d - 48
		z = let(v, z)
		out.insert(0, z + 15)
		E = E - z - 15
	if E >= 9 and at(v, F, E - 9, b"LYRICSEND"):
		s = lyrics_start(v, F, E)
		out.insert(0, E - s)
		E = s
	if E >= 32 and at(v, F, E - 32, b"APETAGEX"):
		z = le(F, E - 20)
		v.assume(z >= 32)
		z = let(v, z + v.ite(le(F, E - 24) == 2000, 32, 0))
		out.insert(0, z)
		E = E - z
	return out, E

class Leading(LoopSpec):
	"""The tags at the begin: each starts where the previous one ends."""
	def __init__(self, m, F, st):
		self.m, self.F, self.st = m, F, st
	def inv(self, v, L, name):
		st, F = self.st, self.F
		b, blocks, last = L["begin_main_content"], L["self"].blocks, L["last_id3v2"]
		if name.endswith("entry"):
			v.check(name + ":none-yet", b == 0 and len(blocks) == 0 and last is None)
			return
		v.check(name + ":one-more-tag", len(blocks) == st.n + 1 and blocks[-1] is last and
			all(x is y for x, y in zip(blocks, st.blocks)))
		v.check(name + ":is-a-tag", at(v, F, st.B, b"ID3"))
		v.check(name + ":place", v.And(last.start_pos == st.B, b == st.B + last.size))
		v.check(name + ":size", last.size == id3_size(v, F, st.B))
	def havoc(self, v, L):
		st, m = self.st, self.m
		st.seen = True
		k = v.ctx.choose(3) if st.tags is None else st.tags
		st.B, st.lead = 0, []
		last = None
		if k:
			pos = v.fresh_int("before", 1) if k == 2 else 0
			z = v.fresh_int("tagsize", 10)
			last = m.Block(z, "ID3", pos)
			st.B = pos + z
			st.lead = ([m.Block(pos, "ID3", 0)] if k == 2 else []) + [last]
		F, N, B = self.F, v.len(self.F), st.B
		if v.ctx.choose(2):
			v.assume(at(v, F, B, b"ID3"))          # one more round of the loop
		else:
			v.assume(v.Not(at_(v, F, B, b"ID3")))
			v.assume(start_is(v, F, B, st.mode, k))
		L["self"].blocks = list(st.lead)
		st.blocks, st.n = list(st.lead), len(st.lead)
		L["begin_main_content"], L["last_id3v2"] = st.B, last
	def variant(self, v, L):
		return v.len(self.F) - L["begin_main_content"]
	def frame(self, v, L):
		s = L["self"]
		return [(s, "*"), (s.blocks, "*"), (s._mp3_stream, "*")]

class SrsParts(LoopSpec):
	"""The blocks of an SRS file: each starts where the previous one ends, none is empty."""
	def __init__(self, m, st):
		self.m, self.st = m, st
	def start(self, v, L):
		self.st.srs = True
		self.begin, self.old = L["begin_main_content"], list(L["self"].blocks)
	def inv(self, v, L, name):
		blocks = L["self"].blocks
		if name.endswith("entry"):
			v.check(name + ":begin", v.And(L["cur_pos"] == self.begin))
			return
		b = blocks[-1]
		v.check(name + ":one-more", len(blocks) == self.n + 1)
		v.check(name + ":follows", v.And(b.start_pos == self.pos, b.size > 0,
			L["cur_pos"] == self.pos + b.size))
		self.old_kept(v, name, blocks)
	def old_kept(self, v, name, blocks):
		v.check(name + ":kept", all(x is y for x, y in zip(blocks, self.old)))
	def havoc(self, v, L):
		self.pos = L["cur_pos"] = v.fresh_int("srs-at")
		v.assume(self.pos >= self.begin)
		L["self"].blocks = self.old + [self.m.Block(self.pos - self.begin, "SRS", self.begin)]
		self.n = len(self.old) + 1
	def variant(self, v, L):
		return L["begin_main_content"] + L["main_size"] - L["cur_pos"]
	def frame(self, v, L):
		s = L["self"]
		return [(s, "*"), (s.blocks, "*"), (s._mp3_stream, "*")]

def leading_of(v, F):
	B, out = 0, []
	while F[B:B + 3] == b"ID3":
		v.assume(B + 10 <= len(F))
		z = id3_size(v, F, B)
		out.append(z)
		B += z
	return out, B

def divide(v, mode, last_tag=None, lead=None, id3v1=None,
		lyrics=None):
	m = v.mod("resample.mp3")
	F = v.bytes("file", 0, None, 6000)
	N = v.len(F)
	f = v.file(F)
	st = C()
	st.tags = lead
	st.mode, st.seen, st.srs, st.asked = mode, False, False, False
	if mode == "audio":
		v.assume(at_(v, F, N - 128, b"TAG") if id3v1 else v.Not(at_(v, F, N - 128, b"TAG")))
		e = N - (137 if id3v1 else 9)
		v.assume(at_(v, F, e, b"LYRICS200") if lyrics else v.Not(at_(v, F, e, b"LYRICS200")))
	else:
		ends_with(v, F, last_tag)
	v.loop(R + "__init__", 0, Leading(m, F, st))
	v.loop(R + "__init__", 1, SrsParts(m, st))
	def before_sync(stream, length):
		v.check("whole-file-searched", v.And(stream is f, length == N))
		st.asked = True
		r = v.fresh_int("marker", 0)
		v.assume(v.Or(r == 0, at_(v, F, r, b"ID3")))
		return r
	v.stub("resample.mp3.last_id3v2_before_sync", before_sync)
	out = v.call(m.Mp3Reader, stream=f)
	if not out.ok:
		v.check("data-error", isinstance(out.exc, DATA))
	if v.symbolic:
		if not st.seen:
			v.check("data-error", not out.ok)
			return None
		lead, B = [x.size for x in st.blocks], st.B
		if at(v, F, B, b"ID3"):
			v.check("only-a-cut-off-header-is-refused", v.And(not out.ok, B + 10 > N))
			return None
	else:
		lead, B = leading_of(v, F)
		v.assume(start_is(v, F, B, mode, len(lead)))
	return F, N, st, out, lead, B

def ends(name):
	def deco(fn):
		def one(k, t, l):
			def run(v):
				fn(v, k, t, l)
			run.__doc__ = fn.__doc__
			contract("C16", "%s_%d%s%s" % (name, k, "_id3v1" if t else "", "_lyrics" if l else
				""), [R + "__init__", "resample.mp3.decode_id3_size"], budget=180,
				max_paths=20000, note="the begin of a Lyrics3 v1 tag is the only LYRICSBEGIN "
				"in its window")(run)
		for k in (0, 1, 2):
			for t in (True, False):
				for l in (True, False):
					one(k, t, l)
		return fn
	return deco

@ends("division")
def division(v, k, id3v1, lyrics2):
	"""For every file that starts with tags (none, one, several) and audio and whose tags lie
	within it: the parts are the tags at both ends and what is between."""
	x = divide(v, "audio", None, k, id3v1, lyrics2)
	if x is None:
		return
	F, N, st, out, lead, B = x
	parts, E = trailing(v, F, N)
	if not bool(E > B):
		v.check("overlapping-tags-refused", v.Or(E == B, not out.ok))
		return
	v.expect("divides", out)
	want = lead + [E - B] + parts
	got = out.value.blocks
	v.check("number-of-parts", len(got) == len(want))
	p = 0
	for i, (b, z) in enumerate(zip(got, want)):
		v.check("part-starts-where-the-previous-ends", v.And(b.start_pos == p, b.size == z))
		v.check("audio", (isinstance(b.type, str) and b.type == "MP3") == (i == len(lead)))
		p = p + z
	v.check("ends-with-the-file", p == N)

def tags(name):
	def deco(fn):
		for t in ("none", "id3v1"):
			def run(v, t=t):
				fn(v, t)
			run.__doc__ = fn.__doc__
			contract("C16", name + "_" + t, [R + "__init__"], budget=150, max_paths=20000,
				note="the only tag at the end is ID3v1, if any: what is done at both ends is "
				"apart from the tags at the end, see division")(run)
		return fn
	return deco

@tags("junk_before_audio")
def junk_before_audio(v, tag):
	"""Leading tags that no audio follows: parts that cover the file without overlap, or an
	error."""
	x = divide(v, "junk", tag)
	if x is None:
		return
	F, N, st, out, lead, B = x
	if not out.ok or st.srs:
		return
	if v.symbolic:
		v.check("looked-for-another-tag", st.asked)
	v.assume(B <= N)
	p = 0
	for b in out.value.blocks:
		v.assume(b.size > 0 if b.type == "MP3" else True)
	for b in out.value.blocks:
		v.check("part-starts-where-the-previous-ends", v.And(b.start_pos == p, b.size >= 0))
		p = p + b.size
	v.check("ends-with-the-file", p == N)

@tags("srs_file")
def srs_file(v, tag):
	"""The blocks of an SRS file: one after the other, or an error (see SrsParts)."""
	x = divide(v, "srs", tag)
	if x is None:
		return
	F, N, st, out, lead, B = x
	if v.symbolic and out.ok:
		v.check("blocks-were-read", st.srs)

# -- reading the parts -----------------------------------------------------------------
@contract("C16", "parts_are_read", [R + "read_contents", R + "read_part", R + "read"])
def parts_are_read(v):
	"""Reading a part returns its bytes, at any offset within it; nothing behind its end."""
	m = v.mod("resample.mp3")
	F = v.bytes("file", 0, None, 60)
	N = v.len(F)
	r = object.__new__(m.Mp3Reader)
	f = r._mp3_stream = v.file(F)
	blocks = []
	for i in range(v.choice("n", (0, 1, 3))):
		a = v.int("start%d" % i, 0, None if v.symbolic else len(F))
		z = v.int("size%d" % i, 0, None if v.symbolic else len(F))
		v.assume(a + z <= N)
		blocks.append(m.Block(z, "MP3", a))
	r.blocks = list(blocks)
	seen = []
	for b in r.read():
		seen.append(b)
		v.check("current", r.current_block is b)
		a, z = b.start_pos, b.size
		out = v.call(r.read_contents)
		v.expect("content", out)
		v.check_eq("content", out.value, F[a:a + z])
		o, n = v.int("offset%d" % len(seen), 0, None if v.symbolic else 80), \
			v.int("length%d" % len(seen), 0, None if v.symbolic else 80)
		out = v.call(r.read_part, n, o)
		if o + n > z:
			v.check("not-behind-the-end", not out.ok and isinstance(out.exc, ValueError))
		else:
			v.expect("part", out)
			v.check_eq("part", out.value, F[a + o:a + o + n])
	v.check("every-part-once", len(seen) == len(blocks) and all(x is y for x, y in
		zip(seen, blocks)))

class Batches(LoopSpec):
	def __init__(self, F, st):
		self.F, self.st = F, st
	def good(self, v, x):
		return v.Or(x == 0, at_(v, self.F, x, b"ID3"))
	def inv(self, v, L, name):
		v.check(name + ":a-marker", v.And(self.good(v, L["last_good_id3"]),
			self.good(v, L["id3"]), L["last_good_id3"] >= 0, L["id3"] >= 0))
	def havoc(self, v, L):
		for k in ("last_good_id3", "current", "id3"):
			L[k] = v.fresh_int(k, 0)
		for k in ("last_good_id3", "id3"):
			v.assume(self.good(v, L[k]))
	def variant(self, v, L):
		return L["length"] - L["current"]
	def frame(self, v, L):
		return [(L["stream"], "*")]

class Syncs(LoopSpec):
	def inv(self, v, L, name):
		v.check(name + ":place", v.And(L["c"] >= -1, L["c"] <= v.len(L["bytespart"]),
			L["sync"] == -1))
	def havoc(self, v, L):
		L["c"], L["sync"] = v.fresh_int("c", -1), -1
		v.assume(L["c"] <= v.len(L["bytespart"]))
		L["match"] = b""
	def variant(self, v, L):
		return v.ite(L["c"] < 0, 0, 0x10003 + 2 - L["c"])
	
@contract("C16", "last_marker", ["resample.mp3.last_id3v2_before_sync"])
def last_marker(v):
	"""The search for a later ID3 marker ends; what it finds is one (or the begin)."""
	m = v.mod("resample.mp3")
	F = v.bytes("file", 0, None, 400)
	st = C()
	v.loop("resample.mp3.last_id3v2_before_sync", 0, Batches(F, st))
	v.loop("resample.mp3.last_id3v2_before_sync", 1, Syncs())
	out = v.call(m.last_id3v2_before_sync, v.file(F), v.len(F))
	v.expect("returns", out)
	v.check("a-marker-or-the-begin", v.Or(out.value == 0, at_(v, F, out.value, b"ID3")))
