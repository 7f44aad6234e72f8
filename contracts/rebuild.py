"""C01: creating an SRR and rebuilding volumes from it, block by block, for every
sequence of blocks.  Each loop is cut at an arbitrary block in an arbitrary state
of the loop; the obligations say which bytes this block adds to which file."""
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import ze, mk
from pyvc.core import Unsupported
from pyvc import core

M = "rescene.main."

class Ghost(object):
	vc_ghost = True

class Vol(Ghost):
	"""A volume that is being written; only the trace of what is added matters."""
	def __init__(self, st, name):
		self.st, self.name, self.open_ = st, name, True
	def write(self, data):
		if not self.open_:
			raise ValueError("write to closed file")
		log = self.st.log
		if log and log[-1][:2] == ("write", self):
			log[-1] = ("write", self, log[-1][2] + data)
		else:
			log.append(("write", self, data))
		return len(data) if isinstance(data, bytes) else data.vlen()
	def close(self):
		self.open_ = False

class Src(Ghost):
	"""An open source file at some position."""
	def __init__(self, st, name):
		self.st, self.name, self.open_, self.at = st, name, True, 0
	def seek(self, pos, how=0):
		if how != 0:
			raise Unsupported("relative seek in a source")
		self.at = pos
		return pos
	def close(self):
		self.open_ = False

KINDS = ("header", "stored", "volume", "recovery", "old-recovery", "packed", "rar",
	"newsub", "zeros", "oso", "padding", "unknown")

class Blk(Ghost):
	"""An arbitrary block of this kind."""
	def __init__(self, v, m, kind):
		t, f = m.BlockType, core.CTX.fresh
		self.kind = kind
		self.rawtype = {"header": t.SrrHeader, "stored": t.SrrStoredFile,
			"volume": t.SrrRarFile, "recovery": t.RarNewSub, "newsub": t.RarNewSub,
			"old-recovery": t.RarOldRecovery, "packed": t.RarPackedFile,
			"oso": t.SrrOsoHash, "padding": t.SrrRarPadding, "zeros": 0}.get(kind)
		if kind == "rar":
			self.rawtype = v.choice(f("type"), [0x72, t.RarVolumeHeader, 0x75, 0x76,
				0x77, 0x79, t.RarMax])
		if kind == "unknown":
			self.rawtype = v.choice(f("type"), [0x01, 0x68, 0x6d, 0x70, 0x7c, 0xff])
		self.flags = v.int(f("flags"), 0, 65535)
		self.header_size = v.int(f("header_size"), 7, 65535)
		if kind == "zeros":
			self.header_size = 20
		self.is_recovery = kind == "recovery"
		self.appname = "app"
		self.block_position = v.int(f("pos"), 0)
		self.fname = f("fname")
		self.raw = v.fresh_bytes("raw")
		v.assume(v.len(self.raw) >= self.header_size)
		self.packed_size = v.int(f("packed_size"), 0)
		self.unpacked_size = v.int(f("unpacked_size"), 0)
		self.compression_method = v.int(f("method"), 0, 255)
		self.recovery_sectors = v.int(f("recovery_sectors"), 0)
		self.data_sectors = v.int(f("data_sectors"), 0)
		b = m.RarPackedFileBlock
		for n in ("SPLIT_BEFORE", "SPLIT_AFTER", "DIRECTORY"):
			setattr(self, n, getattr(b, n))
		self.SUPPORTED_FLAG_MASK = 1
		self.file_name = None
	def block_bytes(self):
		return self.raw
	def os_file_name(self):
		return self.file_name

class Blocks(Ghost):
	def __init__(self, st, kinds=KINDS):
		self.st, self.kinds = st, kinds
		self.n = st.v.int(core.CTX.fresh("blocks"), 0)
	def vc_iter(self):
		return ze(self.n), self.at
	def at(self, k):
		st, v = self.st, self.st.v
		b = st.block = Blk(v, st.m, v.choice(core.CTX.fresh("kind"), self.kinds))
		st.prepare(b)
		return b
	def __iter__(self):
		raise Unsupported("the blocks are used in another way")
	__len__ = __getitem__ = __bool__ = __iter__

class Rebuild(LoopSpec):
	"""State: the volume being written (with its name), the open source (with its
	name) and the checksum of what was taken from it."""
	def __init__(self, st):
		self.st = st
		self.first = True
	def inv(self, v, L, name):
		st = self.st
		vol, src = L["rarfs"], L["srcfs"]
		if self.first:
			v.check(name + ":nothing-yet", not vol and not src and L["rar_name"] == "" and
				L["running_crc"] == 0 and not L["skip_volume"] and st.log == [])
			return
		b, log = st.block, st.log
		kind = b.kind
		name += ":" + kind
		writes = [e for e in log if e[0] in ("write", "recovery", "repack")]
		opens = [e for e in log if e[0] == "open"]
		extracts = [e for e in log if e[0] == "extract"]
		def exactly(n):
			if len(writes) != n:
				v.fail(name + ":additions-to-the-volume", repr([e[0] for e in writes]))
			for e in writes:
				if e[1] is not st.vol:
					v.fail(name + ":other-volume", "")
		def copied(i, want, what="bytes"):
			if writes[i][0] != "write":
				v.fail(name + ":" + what, writes[i][0])
			v.check_eq(name + ":" + what, writes[i][2], want)
		if extracts:
			v.check(name + ":extracts", v.And(kind == "stored", st.extract))
		if kind != "packed":
			if kind != "volume" and opens:
				v.fail(name + ":opens", "")
			v.check(name + ":source-kept", src is st.src and L["source_name"] == st.source_name)
			v.check(name + ":checksum-kept", L["running_crc"] == st.running)
		if kind != "volume":
			v.check(name + ":volume-kept", vol is st.vol and L["rar_name"] == st.rar_name)
			v.check(name + ":volume-open", vol is None or vol.open_)
			v.check(name + ":recovery-flag-kept", L["rebuild_recovery"] == st.rebuild)
		v.check(name + ":no-volume-skipped", not L["skip_volume"])
		if kind in ("header", "oso", "unknown"):
			exactly(0)
		elif kind == "stored":
			exactly(0)
			v.check(name + ":extracted", v.Implies(st.extract, len(extracts) == 1 and
				extracts[0][1] is b and extracts[0][2] == st.path(b.file_name)))
		elif kind == "volume":
			exactly(0)
			v.check(name + ":name", L["rar_name"] == b.file_name)
			if b.file_name == st.rar_name:
				v.check(name + ":same-volume-goes-on", vol is st.vol and vol.open_ and not opens)
			else:
				v.check(name + ":new-volume", len(opens) == 1 and opens[0][1] is vol and
					opens[0][3] == st.path(b.file_name) and "w" in opens[0][2] and
					"b" in opens[0][2])
				v.check(name + ":not-over-existing-files", not st.exists)
				v.check(name + ":old-volume-finished", st.vol is None or not st.vol.open_)
				v.check(name + ":recovery-flag", v.And(v.Or(b.flags % 2 == 0,
					L["rebuild_recovery"]), v.Or(b.flags % 2 == 1, v.Not(L["rebuild_recovery"]))))
		elif kind in ("recovery", "old-recovery"):
			exactly(1)
			removed = v.And(b.recovery_sectors > 0, st.rebuild)
			if writes[0][0] == "recovery":
				v.check(name + ":rebuilt-only-when-removed", removed)
				v.check(name + ":of-this-block", writes[0][2] is b)
			else:
				v.check(name + ":copied-only-when-complete", v.Not(removed))
				copied(0, b.raw)
		elif kind == "packed":
			exactly(2)
			copied(0, b.raw, "header-bytes")
			if writes[1][0] != "repack" or writes[1][2] is not b:
				v.fail(name + ":packed-data", "")
			_, _, _, used, at, running, skip, folder = writes[1]
			v.check(name + ":arguments", skip is st.skip and folder == "/vfs/in")
			again = v.And(b.file_name == st.source_name, b.flags // 1 % 2 == 1)
			new = [e[1] for e in log if e[0] in ("open", "fake", "compressed")]
			if used is st.src and st.src is not None:
				v.check(name + ":goes-on-only-in-the-next-part", again)
				v.check(name + ":position-kept", at is st.at)
				v.check(name + ":checksum-goes-on", running == st.running)
				v.check(name + ":nothing-opened", new == [])
			else:
				v.check(name + ":opened-again-only-for-a-new-file", v.Not(again))
				v.check(name + ":from-the-start", at == 0)
				v.check(name + ":checksum-from-0", running == 0)
				v.check(name + ":one-source", len(new) == 1 and new[0] is used)
				v.check(name + ":previous-source-closed", st.src is None or not st.src.open_)
				isdir = b.flags // 32 % 8 == 7
				how = [e for e in log if e[0] in ("open", "fake", "compressed")][0]
				located = "locate" in [e[0] for e in log]
				if how[0] == "fake":
					v.check(name + ":empty-data-only-for-directories-or-on-request", v.Or(isdir,
						v.And(st.missing, st.empty)))
					v.check(name + ":size-of-empty-data", how[2] == b.unpacked_size)
				elif how[0] == "open":
					v.check(name + ":located-file", located and how[3] == "/vfs/in/" + b.file_name
						and how[2] == "rb")
					v.check(name + ":stored-file", v.And(v.Not(isdir),
						b.compression_method == 0x30))
				else:
					v.check(name + ":compressed-file", v.And(v.Not(isdir), located,
						b.compression_method != 0x30))
			v.check(name + ":source", src is used and src.open_ and
				L["source_name"] == b.file_name)
			v.check(name + ":checksum", L["running_crc"] is st.result)
		elif kind in ("rar", "newsub", "zeros"):
			exactly(1)
			copied(0, b.raw)
		elif kind == "padding":
			exactly(1)
			copied(0, b.raw[b.header_size:])
	def havoc(self, v, L):
		st = self.st
		self.first = False
		st.vol, st.rar_name = None, ""
		if v.ctx.choose(2, "volume open"):
			st.vol, st.rar_name = Vol(st, "a.rar"), "a.rar"
		st.src, st.source_name = None, None
		if v.ctx.choose(2, "source open"):
			st.src, st.source_name = Src(st, "f.avi"), "f.avi"
			st.at = st.src.at = v.fresh_int("at", 0)
		st.rebuild = v.bool("rebuild")
		st.running = v.fresh_int("running", 0)
		L["rarfs"], L["rar_name"] = st.vol, st.rar_name
		L["srcfs"], L["source_name"] = st.src, st.source_name
		L["running_crc"], L["rebuild_recovery"] = st.running, st.rebuild
		L["skip_volume"], L["partial_set"], L["skip_offset"] = False, False, 0
		L["ofile"] = ""
		L["compressed_block_encountered"] = False
		st.log = []

@contract(["C01", "C06"], "rebuild_step", [M + "reconstruct", M + "_is_recovery",
	M + "_is_new_recovery", M + "_is_old_recovery", M + "_flag_check_srr"], iters=1,
	budget=90, note="the helpers by their own contracts; sources of compressed files abstract")
def rebuild(v):
	if not v.symbolic:
		return
	m = v.mod("rescene.main")
	st = Ghost()
	st.v, st.m, st.log, st.block = v, m, [], None
	st.vol = st.src = None
	st.extract = v.int("extract_files", 0, 1) == 1
	st.empty = v.int("empty", 0, 1) == 1
	st.skip = Ghost()
	st.exists = st.missing = False
	st.cleaned = 0
	st.path = lambda name: "/vfs/out/" + name
	def prepare(b):
		if b.kind == "volume":
			b.file_name = v.choice("volume_name", ["a.rar", "b.rar"])
		elif b.kind == "stored":
			b.file_name = "s.nfo"
		else:
			b.file_name = v.choice("packed_name", ["f.avi", "g.avi"])
		# blocks of a volume follow a volume reference
		if b.kind not in ("header", "stored", "volume", "oso", "unknown"):
			v.assume(st.vol is not None)
	st.prepare = prepare
	blocks = Blocks(st)
	class Reader(object):
		def __init__(self, f):
			v.check("reads-the-srr", f == "x.srr")
		def read_all(self):
			return blocks
	v.stub(M + "RarReader", Reader)
	v.stub(M + "_fire", lambda *a, **k: None)
	def opath(b, paths, out):
		v.check("path-arguments", paths is True and out == "/vfs/out")
		return st.path(b.file_name)
	v.stub(M + "_opath", opath)
	v.stub(M + "_extract", lambda b, p: st.log.append(("extract", b, p)) or True)
	def can(p):
		v.check("asks-for-the-volume", st.block is not None and p == st.path(st.block.file_name))
		st.exists = v.bool("exists")
		return not st.exists
	v.stub(M + "can_overwrite", can)
	def locate(b, folder, hints, auto):
		v.check("locate-arguments", b is st.block and folder == "/vfs/in" and
			hints is st.hints and auto is st.auto)
		st.log.append(("locate", b))
		if v.bool("missing"):
			st.missing = True
			raise m.FileNotFound("not there")
		if v.bool("wrong_size"):
			raise m.InvalidFileSize("wrong")
		return "/vfs/in/" + b.file_name
	v.stub(M + "_locate_file", locate)
	v.stub(M + "_write_recovery_record", lambda b, f: st.log.append(("recovery", f, b)))
	def repack(b, vol, folder, src, running, skip):
		st.result = v.fresh_int("crc", 0)
		st.log.append(("repack", vol, b, src, src.at, running, skip, folder))
		src.at = src.at + b.packed_size
		return st.result
	v.stub(M + "_repack", repack)
	def data_object(b, *a):
		s = Src(st, b.file_name)
		st.log.append(("compressed", s))
		return s
	v.stub(M + "get_rar_data_object", data_object)
	def fake(size):
		s = Src(st, "fake")
		st.log.append(("fake", s, size))
		return s
	v.stub(M + "FakeFile", fake)
	v.stub(M + "UncompressedRarFile", lambda *a: None)
	def cleanup():
		st.cleaned += 1
	v.stub(M + "temp_folder_cleanup", cleanup)
	def opened(p, mode="r"):
		f = (Vol if "w" in mode else Src)(st, p)
		st.log.append(("open", f, mode, p))
		return f
	m.open = opened
	v.ctx.undo.append(lambda: delattr(m, "open"))
	st.hints, st.auto = {}, Ghost()
	v.loop(M + "reconstruct", 0, Rebuild(st))
	out = v.call(m.reconstruct, "x.srr", "/vfs/in", "/vfs/out", True, st.hints, st.skip,
		st.auto, st.empty, extract_files=st.extract)
	b, log = st.block, st.log
	if not out.ok:
		v.expect("documented-failure", out, m.FileNotFound, m.InvalidFileSize)
		if isinstance(out.exc, m.FileNotFound):
			v.check("missing-file", v.And(st.missing, v.Not(st.empty)))
		v.check("failed-before-the-data", not any(e[0] == "repack" for e in log))
		return
	if out.value == -1:
		v.check("stops-only-at-an-existing-volume", b is not None and b.kind == "volume" and
			b.file_name != st.rar_name and st.exists)
		v.check("nothing-opened-or-written", [e for e in log if e[0] != "extract"] == [])
		return
	v.check("volume-finished", st.vol is None or not st.vol.open_)
	v.check("source-closed", st.src is None or not st.src.open_)
	v.check("temporary-files-removed", st.cleaned == 1)
	v.check("nothing-after-the-last-block", log == [])

class Star(Ghost):
	"""Stands for any number of elements in a list built by the code."""
	vc_star = True
	def __init__(self, v, elem):
		self.n, self.elem = v.int(core.CTX.fresh("elements"), 0), elem
	def vc_iter(self):
		return ze(self.n), self.elem

class Hashes(Ghost):
	"""The stored files seen so far, in order (file name -> volume)."""
	def __init__(self, st):
		self.st = st
		self.added = []
	def setdefault(self, k, x):
		self.added.append((k, x))
		return x
	def items(self):
		return Star(self.st.v, lambda k: (self.st.v.choice(core.CTX.fresh("ext"),
			["f.avi", "d/g.mkv", "h.txt"]), self.st.volume))

class Volumes(LoopSpec):
	"""Behind every volume: its reference, then the bytes of all its blocks."""
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check_eq(name + ":header-and-stored-files", st.content(), st.start)
		else:
			# the block loop ended with this
			v.check_eq(name + ":only-the-blocks", st.content(), st.before)
			v.check(name + ":blocks-were-read", st.inner)
	def havoc(self, v, L):
		st = self.st
		self.first, st.inner = False, False
		st.outer = st.put(v.fresh_bytes("srr"))
		st.before = st.outer
		L["oso_dict"] = Hashes(st)
	def frame(self, v, L):
		return self.st.frame()

class Copied(LoopSpec):
	"""Every block of the volume adds its own bytes."""
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			ref = st.m.SrrRarFileBlock(file_name=st.refname).block_bytes()
			v.check_eq(name + ":volume-reference", st.content(), st.outer + ref)
			return
		b = st.block
		name += ":" + b.kind
		v.check_eq(name + ":bytes", st.content(), st.before + b.raw)
		if st.single:
			return
		new = [x for x in L["oso_dict"].added[self.seen:] if isinstance(L["oso_dict"], Hashes)]
		if b.kind == "packed":
			v.check(name + ":hash-candidate", v.Implies(b.compression_method == 0x30,
				new == [(b.file_name, st.volume)]))
			v.check(name + ":compressed-on-request", v.Or(b.compression_method == 0x30,
				st.compressed))
	def havoc(self, v, L):
		st = self.st
		self.first, st.inner = False, True
		st.before = st.put(v.fresh_bytes("srr"))
		if not st.single:
			self.seen = len(L["oso_dict"].added)
	def frame(self, v, L):
		return self.st.frame()

class Isdb(LoopSpec):
	"""One hash block for every video file a hash can be calculated for."""
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check_eq(name + ":nothing-yet", st.content(), st.before)
			return
		want = st.before
		if st.hashed:
			base, size, h = st.hashed
			want = want + st.m.SrrOsoHashBlock(file_name=base, file_size=size,
				oso_hash=h).block_bytes()
		v.check_eq(name + ":hash-block", st.content(), want)
	def havoc(self, v, L):
		st = self.st
		self.first, st.hashed = False, None
		st.before = st.put(v.fresh_bytes("srr"))
		L["oso_hash"] = True
	def frame(self, v, L):
		return self.st.frame()

VOLKINDS = ("recovery", "old-recovery", "packed", "rar", "newsub", "zeros", "padding")

def creating(v, single):
	m = v.mod("rescene.main")
	st = Ghost()
	st.v, st.m, st.single = v, m, single
	st.inner = False
	st.compressed = v.int("compressed", 0, 1) == 1
	st.refname, st.volume = "vol.rar", "/vfs/in/vol.rar"
	tmp = v.choice("name", ["/vfs/x.srr", "/vfs/x.srr.tmp"])
	old = None
	if v.bool("exists"):
		old = v.bytes("old", 0, None)
		v.path("x.srr", old)
	other = v.bytes("volume", 0, None)
	v.path("in/vol.rar", other)
	def node():
		from pyvc.models import vfs
		return vfs().files.get(tmp)
	st.content = lambda: node().content
	def put(x):
		node().content = x
		st.handle.pos = v.len(x)
		return x
	st.put = put
	st.frame = lambda: [(st.handle, "pos"), (node(), "content")]
	header = m.SrrHeaderBlock(appname=v.mod("rescene").APPNAME).block_bytes()
	st.start = header
	st.outer = header
	st.failed = None
	def prepare(b):
		b.file_name = "f.avi"
		if v.bool(core.CTX.fresh("broken")):
			st.failed = OSError("Invalid RAR block length")
			raise st.failed
	st.prepare = prepare
	class Reader(object):
		def __init__(self, f):
			v.check("reads-the-volume", f == "/vfs/in/vol.rar")
		def read_all(self):
			return Blocks(st, VOLKINDS)
	v.stub(M + "RarReader", Reader)
	v.stub(M + "_fire", lambda *a, **k: None)
	# the files to store: their bytes by the contract of _store
	def store(f, stream, paths, folder):
		v.check("store-arguments", stream is st.handle and f in st.storing)
		x = st.blobs[f]
		stream.write(x)
	v.stub(M + "_store", store)
	st.storing = [[], ["a.nfo"], ["a.nfo", "b.sfv"]][0 if single else v.ctx.choose(3, "files to store")]
	st.blobs = {f: v.fresh_bytes("stored") for f in st.storing}
	v.stub(M + "_search", lambda files, folder="": list(st.storing))
	if not single:
		for f in st.storing:
			st.start = st.start + st.blobs[f]
	v.stub(M + "_handle_rar", lambda f: [Star(v, lambda k: "/vfs/in/vol.rar")])
	v.stub(M + "capitalized_fn", lambda f: (f, f))
	def isdb(rar, name, first):
		v.check("hash-arguments", rar == st.volume and first is True)
		if v.bool(core.CTX.fresh("too_small")):
			raise ValueError("too small")
		size, h = v.int(core.CTX.fresh("size"), 0, 2 ** 64 - 1), "0123456789abcdef"
		st.hashed = (name.rsplit("/", 1)[-1], size, h)
		return h, size
	v.stub(M + "osohash_from", isdb)
	from pyvc.models import vc_open
	def opened(p, mode="r"):
		f = vc_open(p, mode)
		v.check("opens-only-the-result", p == tmp)
		st.handle = f
		return f
	m.open = opened
	v.ctx.undo.append(lambda: delattr(m, "open"))
	name = M + ("create_srr_single_volume" if single else "create_srr")
	if single:
		v.loop(name, 0, Copied(st))
		out = v.call(m.create_srr_single_volume, "/vfs/x.srr", "/vfs/in/vol.rar", tmp)
	else:
		v.loop(name, 0, UnrolledInfiles())
		v.loop(name, 1, Volumes(st))
		v.loop(name, 2, Copied(st))
		v.loop(name, 3, Isdb(st))
		out = v.call(m.create_srr, "/vfs/x.srr", ["/vfs/in/vol.rar"], "/vfs/in", None, False,
			st.compressed, v.bool("oso"), tmp)
	v.check_eq("volume-untouched", v.fcontent("/vfs/in/vol.rar"), other)
	if old is not None:
		v.check_eq("existing-srr-kept", v.fcontent("/vfs/x.srr"), old)
	if not out.ok:
		if out.exc is not st.failed:
			v.expect("documented-failure", out, ValueError)
			v.check("compressed-refused", v.And(st.block.kind == "packed", v.Not(st.compressed),
				st.block.compression_method != 0x30))
		v.check("no-partial-result", v.fcontent(tmp) is None and st.handle.closed)
		return
	if old is not None:
		v.check("refused", out.value is False)
		if tmp != "/vfs/x.srr":
			v.check("nothing-written", v.fcontent(tmp) is None)
		return
	v.check("created", out.value is True and st.handle.closed)
	v.check_eq("nothing-behind-the-blocks", st.content(), st.before)

class UnrolledInfiles(LoopSpec):
	cut = False

@contract(["C01", "C19"], "create_step", [M + "create_srr", M + "can_overwrite"], iters=1, budget=90,
	note="one input file, up to 2 stored files, any number of volumes and blocks")
def create(v):
	if v.symbolic:
		creating(v, False)

@contract(["C01", "C19"], "create_single_volume_step", [M + "create_srr_single_volume",
	M + "can_overwrite"], iters=1, budget=60)
def create_single(v):
	if v.symbolic:
		creating(v, True)
