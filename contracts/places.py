"""C01, C02, C12, C14, C18: where data comes from, and in which order it is taken: archived
files on disk, volumes named by an SFV or by their first volume, tracks of an MP4, and the
checksum of a file."""
import os
import zlib
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc.values import SymBytes
from contracts.samples import C, Iter, same_items

R = "rescene.main."
U = "rescene.utility."
S = "resample.main."

# -- the checksum of a file --------------------------------------------------------------
class Reading(object):
	vc_ghost = True
	def __init__(self, v, F):
		self.v, self.F, self.pos, self.closed = v, F, 0, False
	def __enter__(self):
		return self
	def __exit__(self, *a):
		self.closed = True
	def close(self):
		self.closed = True
	def seek(self, n):
		self.pos = n
	def read(self, n=-1):
		v, a, e = self.v, self.pos, self.v.len(self.F)
		if n == -1:
			self.pos = e
			return self.F[a:]
		self.pos = v.ite(a + n < e, a + n, e)
		return self.F[a:self.pos]

@contract(["C18", "C01"], "checksum_of_a_file", [U + "calculate_crc32"])
def checksum(v):
	m = v.mod("rescene.utility")
	for n in ("show_spinner", "remove_spinner"):
		v.patch(m, n, lambda *a: None)
	F = v.bytes("file", 0, None, 40)
	if not v.symbolic:
		F = F * v.choice("times", [1, 0x10000 // max(1, len(F)), 7000])
	f = Reading(v, F)
	if v.symbolic:
		v.patch(m, "open", lambda name, mode="r": f if (name, mode) == ("x", "rb") else None)
	class Sum(LoopSpec):
		def inv(self, v, L, name):
			x, c = L["x"], L["crc"]
			n = f.pos - v.len(x)
			v.check(name + ":all-but-the-piece", n >= 0)
			v.check_eq(name + ":piece", x, F[n:f.pos])
			v.check(name + ":ends-at-the-end", v.Or(v.len(x) > 0, f.pos == v.len(F)))
			if hasattr(c, "rope"):
				v.check_eq(name + ":checksum-so-far", c.rope, F[:n])
			else:
				v.check(name + ":checksum-so-far", v.And(c == 0, n == 0))
		def havoc(self, v, L):
			n = v.fresh_int("summed", 0)
			k = v.fresh_int("piece", 0)
			v.assume(n + k <= v.len(F))
			v.assume(v.Or(k > 0, n == v.len(F)))
			f.pos = n + k
			L["x"], L["crc"] = F[n:n + k], v.crc(F[:n])
			if "count" in L:
				L["count"] = v.fresh_int("count", 0)
		def variant(self, v, L):
			return v.len(F) - f.pos + v.len(L["x"])
		def frame(self, v, L):
			return [(f, "pos")]
	if v.symbolic:
		v.loop(U + "calculate_crc32", 0, Sum())
	out = v.call(m.calculate_crc32, "x" if v.symbolic else v.path("x", F))
	v.expect("returns", out)
	v.check("closed", not v.symbolic or f.closed)
	if hasattr(out.value, "rope"):
		v.check_eq("of-the-whole-file", out.value.rope, F)
	else:
		v.check("of-the-whole-file", out.value == v.crc(F))

# -- unsigned integers of Matroska -------------------------------------------------------
@contract("C14", "unsigned_content", ["resample.ebml.GetUIntContent"], iters=400)
def uint_content(v):
	"""big-endian value of any number of bytes"""
	m = v.mod("resample.ebml")
	b = v.bytes("content", 0, None, 12)
	if not v.symbolic:
		out = v.call(m.GetUIntContent, bytearray(b))
		v.expect("returns", out)
		return v.check_eq("value", out.value, int.from_bytes(b, "big"))
	g = C()
	class Value(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":nothing-yet", L["value"] == 0)
			else:
				v.check(name + ":next-byte", L["value"] == 256 * g.val + b.byte_at(g.k))
		def havoc(self, v, L):
			g.k = L.k
			g.val = L["value"] = v.fresh_int("value", 0)
			v.check("all-bytes", L.n == v.len(b))
		def frame(self, v, L):
			return []
	v.loop("resample.ebml.GetUIntContent", 0, Value())
	out = v.call(m.GetUIntContent, b)
	v.expect("returns", out)
	v.check("value", v.Or(out.value == g.val))

# -- SFV files ---------------------------------------------------------------------------
@contract("C12", "sfv_from_file_or_stream", [U + "parse_sfv_file"])
def sfv_source(v):
	"""All bytes of the file or stream are parsed, whatever was read of it before."""
	m = v.mod("rescene.utility")
	F = v.bytes("file", 0, None, 60)
	f = Reading(v, F)
	kind = v.choice("kind", ["stream", "name", "failing"])
	got = []
	def parse(b):
		got.append(b)
		return "parsed"
	v.patch(m, "parse_sfv_data", parse)
	def opened(name, mode="r"):
		v.check("the-file", name in ("x.sfv", "\\\\?\\x.sfv") and mode == "rb")
		if kind == "failing" and name == "x.sfv":
			raise IOError("cannot be opened")
		return f
	if v.symbolic:
		v.patch(m, "open", opened)
	elif kind == "stream":
		f = v.file(F)
		f.seek(v.int("pos", 0, 60))
	name = "x.sfv" if v.symbolic else v.path("x.sfv", F)
	if v.symbolic and kind == "stream":
		f.pos = v.int("pos", 0)
	out = v.call(m.parse_sfv_file, f if kind == "stream" else name)
	v.expect("parsed", out)
	v.check("parsed-once", len(got) == 1 and out.value == "parsed")
	v.check_eq("all-bytes", got[0], F)
	v.check("closed", f.closed or kind == "stream" or not v.symbolic)

@contract("C12", "same_sfv", [U + "same_sfv"])
def same_sfv(v):
	"""True exactly when the sorted entries are the same."""
	m = v.mod("rescene.utility")
	class Entries(object):
		vc_ghost = True
		def __init__(self, k):
			self.k, self.sorted = k, False
		def sort(self):
			self.sorted = True
		def __iter__(self):
			raise Unsupported("the entries one by one")
		def __len__(self):
			raise Unsupported("the number of entries")
		def __eq__(self, o):
			v.check("both-sorted", self.sorted and o.sorted and self.k != o.k)
			return same
		__hash__ = None
	same = bool(v.bool("same"))
	def in_order(x, *a, **kw):
		if not isinstance(x, Entries) or a or kw:
			return sorted(x, *a, **kw)
		c = Entries(x.k)
		c.sorted = True
		return c
	v.patch(m, "sorted", in_order)
	v.patch(m, "parse_sfv_file", lambda p: (Entries(p), ["; x %s" % p], ["bad %s" % p]))
	out = v.call(m.same_sfv, "a", "b")
	v.expect("returns", out)
	v.check("same", out.value == same)

class Seq(object):
	"""any number of elements, made one at a time"""
	vc_ghost = True
	def __init__(self, v, elem, many):
		self.v, self.elem, self.many, self.made = v, elem, many, []
	def vc_iter(self):
		def elem(k):
			x = self.elem(k)
			self.made.append(x)
			return x
		self.n = self.v.fresh_int("elements", 0)
		return self.n.e, elem
	def vlen(self):
		n = self.v.fresh_int("length", 0)
		self.length = n
		return n
	def __len__(self):
		return self.many
	def __iter__(self):
		if self.v.symbolic:
			raise Unsupported("an abstract sequence without a loop contract")
		for k in range(self.many):
			x = self.elem(k)
			self.made.append(x)
			yield x

@contract("C02", "volumes_of_an_sfv", [R + "_handle_sfv"])
def volumes_of_sfv(v):
	"""The volumes are the entries that are RAR names, each in its order, beside the SFV."""
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	name = v.choice("sfv", ["/in/CD1/x.sfv", "x.sfv", "a/x.SFV"])
	yielded = []
	empty = bool(v.bool("empty"))
	def entry(k):
		e = C()
		e.rar = v.bool("rar") if v.symbolic else v.bool("rar%d" % k)
		e.file_name = v.choice("name", ["x.rar", "sub/x.r00"]) if v.symbolic else \
			"x.r%02d" % k
		entry.last = e
		return e
	es = Seq(v, entry, 0 if empty else v.int("entries", 1, 4) if not v.symbolic else 1)
	es.vlen = lambda: 0 if empty else 1
	def parsed(f):
		v.check("of-the-sfv", f == name)
		return es, [], []
	v.patch(m, "parse_sfv_file", parsed)
	def filtered(l):
		v.check("duplicates-are-filtered", l is es)
		return es
	v.patch(m, "filter_sfv_duplicates", filtered)
	v.patch(m, "is_rar", lambda n: bool(entry.last.rar) if n == entry.last.file_name else None)
	class Entries(LoopSpec):
		def inv(self, v, L, name_):
			if name_.endswith("preserved"):
				e = entry.last
				v.check(name_ + ":volume-or-not", len(yielded) == (1 if bool(e.rar) else 0))
		def havoc(self, v, L):
			del yielded[:]
		def frame(self, v, L):
			return []
	v.loop(R + "_handle_sfv", 0, Entries())
	def run():
		import posixpath
		for p in m._handle_sfv(name):
			e = entry.last
			v.check("beside-the-sfv", p == posixpath.join(posixpath.dirname(name),
				e.file_name) and bool(e.rar))
			yielded.append(p)
	out = v.call(run)
	if out.exc is not None:
		v.expect("refused", out, m.EmptySfv)
		return v.check("refused-only-when-empty", empty)
	v.check("not-refused", not empty)
	if not v.symbolic:
		v.check("each-volume-once", len(yielded) == len([e for e in es.made if e.rar]))

@contract("C02", "volumes_of_first", [R + "_handle_rar"])
def volumes_of_first(v):
	"""From the first volume on, one after the other until one is not there; the style of
	naming is that of the volume header; a later volume is refused."""
	m = v.mod("rescene.main")
	BT = m.BlockType
	first = bool(v.bool("first"))
	style = v.choice("style", ["no-header", "single", "old", "new"])
	class Blk(object):
		vc_ghost = True
		VOLUME, NEW_NUMBERING = 1, 16
	def blocks(f, retries):
		v.check("of-the-first-volume", f == "vol0")
		h = Blk()
		h.rawtype, h.flags = BT.RarVolumeHeader, {"single": 16, "old": 1, "new": 17}.get(style)
		o = Blk()
		o.rawtype, o.flags = BT.RarPackedFile, 1
		return [o] if style == "no-header" else [h, o]
	v.patch(m, "_rarreader_usenet", blocks)
	v.patch(m, "first_rars", lambda l: list(l) if first else [])
	there = v.int("there", 0, None if v.symbolic else 5)
	g = C()
	g.k, g.yielded = 0, 0
	class Name(object):
		vc_ghost = True
		def __init__(self, k):
			self.k = k
		def __eq__(self, o):
			return isinstance(o, Name) and bool(self.k == o.k)
		__hash__ = None
	def number(n):
		return 0 if n == "vol0" else n.k
	def isfile(n):
		return bool(number(n) < there)
	v.patch(m.os.path, "isfile", isfile)
	def nxt(n, old=False):
		v.check("style-of-the-header", bool(old) == (style == "old"))
		return Name(number(n) + 1)
	v.patch(m, "next_archive", nxt)
	class Volumes(LoopSpec):
		def inv(self, v, L, name):
			k = number(L["next_file"])
			if name.endswith("entry"):
				v.check(name + ":from-the-first", L["next_file"] == "vol0" and g.yielded == 0)
			else:
				v.check(name + ":one-volume-more", k == g.k + 1)
				v.check(name + ":yielded", g.yielded == g.k + 1)
			v.check(name + ":all-before-are-there", v.Or(k == 0, k <= there))
		def havoc(self, v, L):
			g.k = v.fresh_int("volume", 0)
			v.assume(v.Or(g.k == 0, g.k <= there))
			g.yielded = g.k
			L["next_file"] = Name(g.k)
		def variant(self, v, L):
			return there - number(L["next_file"]) + 1
		def frame(self, v, L):
			return []
	v.loop(R + "_handle_rar", 1, Volumes())
	def run():
		for n in m._handle_rar("vol0"):
			v.check("in-order", number(n) == g.yielded)
			g.yielded = g.yielded + 1
	out = v.call(run)
	if out.exc is not None:
		v.expect("refused", out, ValueError)
		return v.check("refused-only-a-later-volume", not first)
	v.check("not-refused", first)
	v.check("all-that-are-there", v.Or(g.yielded == there, v.And(there <= 0, g.yielded == 0)))

# -- archived files on disk --------------------------------------------------------------
@contract(["C01", "C06"], "archived_file_on_disk", [R + "_locate_file"], iters=400)
def locate(v):
	"""The file with the (hinted or archived) name in the folder, or one that was found by
	its size; of the archived size unless that is not known."""
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	v.patch(m, "print", lambda *a, **k: None)
	b = C()
	b.file_name = "CD1\\x.avi"
	bad = bool(v.bool("badname"))
	def os_name():
		if bad:
			raise ValueError("bad name")
		return "CD1/x.avi"
	b.os_file_name = os_name
	b.unpacked_size = v.choice("unknown", [None, 4294967295, 18446744073709551615])
	if b.unpacked_size is None:
		b.unpacked_size = v.int("size", 0, None if v.symbolic else 3)
	hints = v.choice("hints", [{}, {"other": "y"}, {"CD1\\x.avi": "renamed/y.avi"},
		{"CD1\\x.avi": "/abs/y.avi"}])
	folder = v.choice("folder", ["/in", "/in/", "/in/../in"])
	auto = bool(v.bool("auto"))
	found = v.choice("found", ["", "/in/z.avi", "/in/gone.avi"])
	there = bool(v.bool("there"))
	disk = v.int("disksize", 0, None if v.symbolic else 3)
	hint = hints.get(b.file_name)
	want = "/in/CD1/x.avi" if hint is None else hint if hint[0] == "/" else "/in/" + hint
	asked = []
	def isfile(p):
		asked.append(p)
		return there if p == want else p == "/in/z.avi"
	v.patch(m.os.path, "isfile", isfile)
	v.patch(m.os.path, "getsize", lambda p: disk)
	def search(name, size, where):
		v.check("search-for-this-file", name == "CD1/x.avi" and os.path.normpath(where) ==
			os.path.normpath(folder))
		v.check("search-for-this-size", size == b.unpacked_size)
		return found
	v.patch(m, "_auto_locate_renamed", search)
	out = v.call(m._locate_file, b, folder, hints, auto)
	if isinstance(out.exc, m.FileNotFound):
		return v.check("missing", not there and not (auto and found == "/in/z.avi"))
	if isinstance(out.exc, m.InvalidFileSize):
		v.check("wrong-size", disk != b.unpacked_size)
		return v.check("size-is-known", v.And(b.unpacked_size != 4294967295,
			b.unpacked_size != 18446744073709551615))
	if out.exc is not None:
		v.expect("refused", out, ValueError)
		return v.check("refused-only-a-bad-name", bad)
	v.check("a-file", out.value == want and there or auto and not there and
		out.value == "/in/z.avi" == found)
	v.check("no-bad-name", not bad or hint is not None and there)
	v.check("right-size", v.Or(disk == b.unpacked_size, b.unpacked_size == 4294967295,
		b.unpacked_size == 18446744073709551615))

@contract("C01", "renamed_file_by_size", [R + "_auto_locate_renamed"],
	note="any number of folders; up to three names in one")
def renamed(v):
	"""A file below the folder with the extension and the size, or none."""
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	size = v.int("size", 0, None if v.symbolic else 2)
	ext = v.choice("ext", [".avi", ""])
	n = v.int("folders", 0, 3) if not v.symbolic else 1
	seen = {}
	def level(k):
		fs = v.choice("files%s" % ("" if v.symbolic else k), [[], ["a.avi"], ["a.txt", "b.avi"],
			["b.mkv", "c.avi", "d.avi"]])
		return ("/in/f%s" % ("" if v.symbolic else k), [], list(fs))
	def walk(top):
		v.check("below-the-folder", top == "/in")
		return Iter(v, level) if v.symbolic else [level(k) for k in range(n)]
	v.patch(m.os, "walk", walk)
	def getsize(p):
		if p not in seen:
			seen[p] = v.int("size of " + p, 0, None if v.symbolic else 2)
		return seen[p]
	v.patch(m.os.path, "getsize", getsize)
	class Folders(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("preserved"):
				for p in seen:
					if p.endswith(ext):
						v.check(name + ":none-fits-here", seen[p] != size)
				root, _, fs = L["root"], None, L["filenames"]
				for f in fs:
					v.check(name + ":all-looked-at", root + "/" + f in seen or
						not f.endswith(ext))
		def havoc(self, v, L):
			seen.clear()
		def frame(self, v, L):
			return []
	v.loop(R + "_auto_locate_renamed", 0, Folders())
	out = v.call(m._auto_locate_renamed, "x" + ext, size, "/in")
	v.expect("returns", out)
	p = out.value
	if p == "":
		if not v.symbolic:
			v.check("none-fits", not [q for q in seen if seen[q] == size and q.endswith(ext)])
		return
	v.check("extension", p.endswith(ext) and p in seen)
	v.check("size", seen[p] == size)

# -- MP4: tracks of the main file --------------------------------------------------------
class Found(object):
	vc_ghost = True
	def __init__(self, n):
		self.track_number = n

@contract("C18", "mp4_find_tracks", [S + "mp4_find_sample_streams"],
	bounded="up to 3 tracks of the sample")
def mp4_find_tracks(v):
	"""Every track of the sample is searched for in the main file's track of that number."""
	m = v.mod("resample.main")
	me = C()
	me.archived_file_name = "inner.mp4"
	n = v.int("sample", 0, 3)
	tracks = {k: Found(k) for k in range(1, n + 1)}
	mtracks = {k: Found(k) for k in v.choice("main", [[], [1], [2, 1], [1, 2, 3, 7], [5, 3]])}
	def profile(d, calculate_crc32=True, archived_file_name=""):
		v.check("profile-of-the-main-file", d.name == "main" if hasattr(d, "name") else
			d == "main")
		v.check("inside-the-archive", archived_file_name == "inner.mp4")
		return mtracks
	v.patch(m, "profile_mp4", profile)
	v.patch(m, "FileData", lambda buff=None, file_name=None: file_name)
	calls = []
	def find(t, mt, main, inner=""):
		v.check("same-number", t.track_number == mt.track_number and t is tracks[
			t.track_number] and main == "main" and inner == "inner.mp4")
		calls.append(t.track_number)
		return t
	v.patch(m, "mp4_find_sample_stream", find)
	out = v.call(m.mp4_find_sample_streams, me, tracks, "main")
	v.expect("returns", out)
	v.check("each-once", sorted(calls) == sorted(set(tracks) & set(mtracks)))
	v.check("all-tracks", same_items(out.value, tracks) and len(tracks) == n)

@contract("C18", "mp4_extract_tracks", [S + "mp4_extract_sample_streams"],
	bounded="up to 3 tracks of the sample")
def mp4_extract_tracks(v):
	m = v.mod("resample.main")
	me = C()
	me.archived_file_name = "inner.mp4"
	n = v.int("sample", 0, 3)
	old = {k: Found(k) for k in range(1, n + 1)}
	tracks = dict(old)
	mtracks = {k: Found(k) for k in v.choice("main", [[2, 1], [1, 2, 3, 7], [3, 2, 1]])}
	v.patch(m, "profile_mp4", lambda d, calculate_crc32=True, archived_file_name="": mtracks)
	v.patch(m, "FileData", lambda buff=None, file_name=None: file_name)
	calls = []
	def extract(t, mt, main, inner=""):
		v.check("same-number", t.track_number == mt.track_number and t is old[
			t.track_number] and main == "main" and inner == "inner.mp4")
		calls.append(t.track_number)
		return t
	v.patch(m, "mp4_extract_sample_stream", extract)
	out = v.call(m.mp4_extract_sample_streams, me, tracks, "main")
	if out.exc is not None:
		v.expect("refused", out, KeyError)
		return v.check("refused-only-without-the-track", set(old) - set(mtracks))
	v.check("each-once", calls == sorted(old))
	v.check("all-tracks", out.value[0] == old and not out.value[1])
