"""C20: what the information of an SRR and its content hash are made of, block by block."""
import posixpath
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported

M = "rescene.main."

class C(object):
	vc_ghost = True

class Map(object):
	"""a dictionary with some entries known; what is set is recorded"""
	vc_ghost = True
	def __init__(self, known=()):
		self.d, self.set = dict(known), []
	def __setitem__(self, k, x):
		self.d[k] = x
		self.set.append((k, x))
	def __getitem__(self, k):
		return self.d[k]
	def __contains__(self, k):
		return k in self.d
	def get(self, k, *a):
		return self.d.get(k, *a)
	def setdefault(self, k, x):
		if k not in self.d:
			self[k] = x
		return self.d[k]

class Items(object):
	vc_ghost = True
	def __init__(self):
		self.added = []
	def append(self, x):
		self.added.append(x)
	def extend(self, x):
		self.added += list(x)
	def __iadd__(self, x):
		self.extend(x)
		return self
	def __setitem__(self, k, x):
		self.final = x
	def __iter__(self):
		return iter([])

KINDS = ("header", "stored", "sfv", "volume", "packed", "recovery", "newsub", "old-recovery",
	"oso", "padding", "auth", "rar")

def block(v, m, kind):
	b = C()
	t = m.BlockType
	b.rawtype = dict(header=t.SrrHeader, stored=t.SrrStoredFile, sfv=t.SrrStoredFile,
		volume=t.SrrRarFile, packed=t.RarPackedFile, recovery=t.RarNewSub, newsub=t.RarNewSub,
		oso=t.SrrOsoHash, padding=t.SrrRarPadding, auth=t.RarOldAuthenticity76,
		rar=t.RarVolumeHeader).get(kind, t.RarOldRecovery)
	b.block_position, b.header_size = v.int("position", 0), v.int("header_size", 7, 65535)
	b.add_size = v.int("add_size", 0)
	b.file_name = "x/File.nfo"
	if kind == "header":
		b.appname = "some application"
	elif kind == "sfv":
		b.file_name = "x/A.Sfv"
	elif kind == "volume":
		b.file_name = v.choice("name", ["d/A.rar", "A.rar", "\xc4.r00"])
	elif kind == "packed":
		b.file_name = b.unicode_filename = "movie.avi"
		b.orig_filename = b"movie.avi"
		b.unpacked_size = v.int("unpacked", 0, 2 ** 64 - 1)
		b.packed_size = v.int("packed", 0)
		b.file_crc = v.choice("crc", [0xabc, 0xffffffff])
		z = b.z = v.bool("compressed")
		b.is_compressed = lambda: z
	elif kind == "recovery":
		b.file_name = "RR"
		b.recovery_sectors, b.data_sectors = v.int("rsectors", 0), v.int("dsectors", 0)
		v.assume(b.add_size == 512 * b.recovery_sectors + 2 * b.data_sectors)
	elif kind == "newsub":
		b.file_name = v.choice("sub", ["CMT", "AV", "ACL", "other"])
	elif kind == "oso":
		b.oso_hash = "0123456789abcdef"
	if kind in ("stored", "sfv", "oso"):
		b.file_size = v.int("file_size", 0)
		if kind != "oso":
			v.assume(b.file_size == b.add_size)
	return b

@contract("C20", "info_step", [M + "info"], iters=1, budget=120,
	note="RarReader by contract (C03), SFV data by contract (C12)")
def info_step(v):
	"""What one block of any kind adds to the information, whatever came before."""
	if not v.symbolic:
		return
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	kind = v.choice("kind", KINDS)
	b = block(v, m, kind)
	st = C()
	total = v.int("size_of_srr", 0)
	class Blocks(object):
		vc_ghost = True
		def __init__(self, f):
			v.check("reads-the-srr", f == "/vfs/a.srr")
		def read_all(self):
			it = C()
			it.vc_iter = lambda: (v.fresh_int("blocks", 0).e, lambda k: b)
			return it
		__iter__ = None
	v.patch(m, "RarReader", Blocks)
	content = v.bytes("srr")
	v.path("a.srr", content)
	entry, note, bad = C(), "comment", "bad line"
	entry.file_name, entry.crc32 = "other.r00", "abcdef01"
	def sfv(data):
		st.sfv = data
		return [entry], [note], [bad]
	v.stub(M + "parse_sfv_data", sfv)
	st.rars = None
	def fi(name, size):
		f = m.FileInfo()
		f.file_name, f.file_size = name, size
		return f
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":empty", not L["stored_files"] and not L["rar_files"] and
					not L["archived_files"] and L["sfv_entries"] == [] and L["oso_hashes"] == [] and
					L["current_rar"] is None and L["recovery"] is None and
					L["compression"] is False)
				return
			chk = lambda n, c: v.check(name + ":" + n, c)
			chk("appname", L["appname"] == ("some application" if kind == "header" else "before"))
			# stored files
			s = st.stored.set
			chk("stored", len(s) == (kind in ("stored", "sfv")))
			if s:
				chk("stored-file", s[0][0] == b.file_name and s[0][1].file_name == b.file_name)
				chk("stored-size", s[0][1].file_size == b.file_size)
			e, n = st.entries.added, st.notes.added
			if kind == "sfv":
				o = b.block_position + b.header_size
				v.check_eq(name + ":sfv-data", st.sfv, content[o:o + b.file_size])
				chk("sfv-entries", e == [entry] and entry.folder == "x" and n == [note, bad])
			else:
				chk("no-sfv-entries", e == [] and n == [])
			# volumes
			r = L["current_rar"]
			cur = st.cur
			if kind in ("header", "stored", "sfv", "oso"):
				chk("volume-ends", r is None)
				chk("no-volume", all(x is cur for k, x in st.rars.set))
			elif kind == "volume":
				key = posixpath.basename(b.file_name).lower()
				if st.other and key == "a.rar" and b.file_name.lower() != "e/a.rar":
					key = b.file_name.lower()
				chk("volume-name", r is not None and r is not cur and r.file_name == b.file_name)
				chk("volume-key", r.key == key and st.rars.d.get(key) is r)
				if st.other:
					chk("other-volume-stays", st.rars.d.get("e/a.rar" if False else "a.rar") is
						(r if key == "a.rar" else st.oth))
				chk("volume-empty", r.file_size == 0)
				p = b.block_position + b.header_size
				chk("volume-start", v.And(r.offset_start_rar == p, r.offset_end_rar == p))
			else:
				chk("same-volume", r is cur)
				if cur is not None:
					add = b.add_size
					if kind != "padding":
						add = add + b.header_size
					chk("volume-size", cur.file_size == st.size + add)
					chk("volume-end", cur.offset_end_rar == b.block_position + b.header_size)
					chk("volume-stays", st.rars.d.get("now.rar") is cur and
						cur.offset_start_rar == st.start and cur.file_name == "d/Now.rar")
			# archived files
			a = st.arch.set
			chk("archived", len(a) == (kind == "packed"))
			if kind == "packed":
				k, f = a[0]
				u, big, huge = b.unpacked_size, 0xffffffff, 0xffffffffffffffff
				chk("archived-name", k == "movie.avi" and f.file_name == "movie.avi")
				chk("archived-crc", f.crc32 == "%08X" % b.file_crc)
				if st.known is not None:
					chk("same-file", f is st.known)
					was = st.ksize
				else:
					was = 0
				z = st.kz if st.known is not None else b.z
				if st.known is None:
					chk("compressed", L["compression"] is (True if b.z else st.comp))
				if u != big and u != huge:
					chk("archived-size", f.file_size == v.ite(was == 0, u, was))
				elif u == big:
					chk("archived-size-sum", z or f.file_size == v.ite(was + b.packed_size == 0, u,
						was + b.packed_size))
				else:
					chk("archived-size-later", f.file_size == was)
			# recovery records
			rec = L["recovery"]
			if kind in ("recovery", "old-recovery"):
				chk("recovery", rec is not None and (st.rec is None or rec is st.rec))
				chk("recovery-size", rec.file_size == (0 if st.rec is None else st.rsize) +
					b.add_size)
			else:
				chk("no-recovery", rec is st.rec)
			h = st.oso.added
			chk("hashes", len(h) == (kind == "oso"))
			if h:
				chk("hash", h[0][0] == b.file_name and h[0][1] == b.oso_hash)
				chk("hash-size", h[0][2] == b.file_size)
		def havoc(self, v, L):
			st.stored, st.rars, st.arch = Map(), Map(), Map()
			st.entries, st.notes, st.oso = Items(), Items(), Items()
			L["appname"] = "before"
			st.comp = L["compression"] = v.bool("some_compressed")
			st.cur = st.rec = st.known = None
			st.other = False
			if kind == "volume":
				st.other = v.bool("same_name")
				if st.other:
					st.oth = st.rars.d["a.rar"] = fi("e/a.rar", 10)
			if v.bool("in_volume"):
				c = st.cur = fi("d/Now.rar", v.int("volume_size", 0))
				st.size, c.key = c.file_size, "now.rar"
				st.start = c.offset_start_rar = v.int("volume_start", 0)
				c.offset_end_rar = v.int("volume_end", 0)
				st.rars.d[c.key] = c
			if kind in ("recovery", "old-recovery", "rar") and v.bool("recovery_before"):
				st.rec = fi("Protect+", v.int("recovery_size", 0))
				st.rsize = st.rec.file_size
			if kind == "packed" and v.bool("file_before"):
				k = st.known = fi("movie.avi", v.int("size_before", 0))
				st.ksize = k.file_size
				st.kz = k.compression = v.bool("compressed_before")
				st.arch.d["movie.avi"] = k
			L["stored_files"], L["rar_files"], L["archived_files"] = st.stored, st.rars, st.arch
			L["sfv_entries"], L["sfv_comments"], L["oso_hashes"] = st.entries, st.notes, st.oso
			L["current_rar"], L["recovery"] = st.cur, st.rec
			for x in ("add_size", "f", "key", "msg", "entries", "comments", "errors"):
				L[x] = None
		def frame(self, v, L):
			return [(x, "*") for x in (st.cur, st.rec, st.known, st.stored, st.rars, st.arch, st.oso,
				st.entries, st.notes, b, entry)]
	v.loop(M + "info", 0, Spec())
	out = v.call(m.info, "/vfs/a.srr")
	v.expect("returns", out)
	r = out.value
	v.check("all-told", r["stored_files"] is st.stored and r["rar_files"] is st.rars and
		r["archived_files"] is st.arch and r["oso_hashes"] is st.oso and
		r["recovery"] is st.rec and r["appname"] == "before" and
		r["compression"] is st.comp and r["sfv_entries"] is st.entries and
		r["sfv_comments"] is st.notes)

@contract("C20", "content_hash", [M + "content_hash"], iters=1, note="info by contract; the "
	"hash function and the builtin sorted are trusted")
def content_hash(v):
	"""The hash is over the sorted pairs of base name and the volume's bytes in the SRR."""
	if not v.symbolic:
		return
	m = v.mod("rescene.main")
	content = v.bytes("srr")
	p = v.path("a.srr", content)
	st = C()
	start, end = v.int("start", 0), v.int("end", 0)
	v.assume(start <= end)
	r = C()
	r.file_name, r.offset_start_rar = "d/A.Rar", start
	if v.bool("has_end"):
		r.offset_end_rar = end
	else:
		end = None
	key = v.choice("key", ["a.rar", "d/a.rar"])
	rars = C()
	rars.keys = lambda: some
	some = C()
	some.vc_iter = lambda: (v.fresh_int("volumes", 0).e, lambda k: key)
	pair = C()
	pair.vc_iter = lambda: (v.fresh_int("volumes", 0).e, lambda k: (key, r))
	rars.items = lambda: pair
	rars.vc_iter = some.vc_iter
	class Rars(object):
		vc_ghost = True
		def keys(self):
			return some
		def items(self):
			return pair
		def vc_iter(self):
			return some.vc_iter()
		def __getitem__(self, k):
			v.check("asks-for-a-volume", k == key)
			return r
	v.stub(M + "info", lambda f: {"rar_files": Rars()})
	h = C()
	st.fed = []
	h.update = lambda d: st.fed.append(d)
	h.hexdigest = lambda: "digest"
	lib = C()
	lib.new = lambda a: h
	v.patch(m, "hashlib", lib)
	st.rec = None
	nm, dt = "a.rar", v.bytes("sorted")
	def srt(x, key=None, reverse=False):
		v.check("sorts-all-volumes", x is st.rec and key is None and not reverse)
		it = C()
		st.n = v.fresh_int("sorted", 0)
		it.vc_iter = lambda: (st.n.e, lambda k: (nm, dt))
		return it
	m.sorted = srt
	v.ctx.undo.append(lambda: delattr(m, "sorted"))
	class Each(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":none", L["rars"] == [])
				return
			a = st.rec.added
			v.check(name + ":one", len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2)
			v.check(name + ":name-without-folder", a[0][0] == "a.rar")
			v.check_eq(name + ":bytes-of-the-volume", a[0][1], content[start:] if end is None else
				content[start:end])
		def havoc(self, v, L):
			L["rars"] = st.rec = Items()
			for x in ("start", "end", "amount", "data"):
				L[x] = None
		def frame(self, v, L):
			return [(st.rec, "*"), (L["sfile"], "*")]
	class Feed(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":nothing-hashed", st.fed == [])
			else:
				v.check(name + ":one", len(st.fed) == 1)
				v.check_eq(name + ":all-bytes", st.fed[0], dt)
		def havoc(self, v, L):
			st.fed = []
			L["_name"] = L["data"] = None
	v.loop(M + "content_hash", 0, Each())
	v.loop(M + "content_hash", 1, Feed())
	out = v.call(m.content_hash, p)
	v.expect("returns", out)
	v.check("digest", out.value == "digest" and st.fed == [])
