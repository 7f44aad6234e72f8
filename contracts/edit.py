"""C04, C05: editing and merging SRR files, for every sequence of blocks and with
one failing file operation anywhere.  Loops are cut at an arbitrary block."""
import os, sys
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import ze
from pyvc.core import Unsupported, PathEnd
from pyvc import core
from contracts.rebuild import Ghost, Blk, Star

M = "rescene.main."
SRR = "/vfs/d/x.srr"
KINDS = ("header", "stored", "volume", "recovery", "packed", "rar", "oso", "padding")

class Nodes(object):
	"""The files of the scratch file system, and one injected failure."""
	def __init__(self, v):
		from pyvc.models import vfs
		self.v, self.fs, self.failed = v, vfs(), None
		self.after = False         # failures once the result is in place do not count
	def arm(self):
		def fault(op, args):
			if sys.exc_info()[0] is PathEnd:
				return
			if self.failed is None and op in ("write", "close", "rename", "open-r+b", "open-rb",
					"mkstemp") and self.v.ctx.choose(2, "%s fails" % op):
				self.failed = OSError(28, "injected")
				raise self.failed
		self.fs.fault = fault
	def disarm(self):
		self.fs.fault = None
	def others(self, *known):
		return sorted(p for p in self.fs.files if p not in known)

class Block(Blk):
	def __init__(self, v, m, kind):
		Blk.__init__(self, v, m, kind)
		self.data = v.fresh_bytes("data")
	def srr_data(self):
		return self.data
	def renameto(self, new):
		self.renamed = new

class Blocks(Ghost):
	def __init__(self, st):
		self.st = st
		self.n = st.v.int(core.CTX.fresh("blocks"), 0)
	def vc_iter(self):
		return ze(self.n), self.at
	def at(self, k):
		st, v = self.st, self.st.v
		b = st.block = Block(v, st.m, v.choice(core.CTX.fresh("kind"), KINDS))
		if b.kind == "stored":
			b.file_name = v.choice(core.CTX.fresh("name"), ["s.nfo", "t.nfo"])
		if st.nodes.failed is None and v.ctx.choose(2, "broken block"):
			st.nodes.failed = OSError("Invalid block")
			raise st.nodes.failed
		return b
	def __iter__(self):
		raise Unsupported("the blocks are used in another way")
	__len__ = __getitem__ = __bool__ = __iter__

def setup(v, kinds=KINDS):
	m = v.mod("rescene.main")
	st = Ghost()
	st.v, st.m, st.block, st.tmp = v, m, None, None
	st.old = v.bytes("srr", 0, None)
	v.path("d/x.srr", st.old)
	st.nodes = Nodes(v)
	st.issrr = v.int("is_srr", 0, 1) == 1
	class Reader(object):
		SRR, RAR = 1, 2
		def __init__(self, f):
			v.check("reads-the-srr", f == SRR)
		def file_type(self):
			return self.SRR if st.issrr else self.RAR
		def read_all(self):
			return Blocks(st)
	v.stub(M + "RarReader", Reader)
	v.stub(M + "_fire", lambda *a, **k: None)
	from pyvc.models import _fdopen
	def fdopen(fd, mode="r", *a):
		st.tmp = _fdopen(fd, mode, *a)
		return st.tmp
	v.patch(m.os, "fdopen", fdopen)
	st.content = lambda: st.tmp.node.content
	def put(x):
		st.tmp.node.content = x
		st.tmp.pos = v.len(x)
		return x
	st.put = put
	st.frame = lambda: [(st.tmp, "pos"), (st.tmp.node, "content")]
	return m, st

def verdict(v, st, m, out, *refused):
	"""On failure the SRR is unchanged; no temporary file stays in any case."""
	st.nodes.disarm()
	if not out.ok:
		if out.exc is not st.nodes.failed:
			v.expect("documented-failure", out, *refused)
		v.check_eq("original-unchanged", v.fcontent(SRR), st.old)
	v.check("no-temporary-file-left", st.nodes.others(SRR) == [])
	return out.ok

class Copy(LoopSpec):
	"""What this block adds to the new SRR."""
	def __init__(self, st, want):
		self.st, self.first, self.want = st, True, want
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check_eq(name + ":empty", st.content(), b"")
			v.check_eq(name + ":original-untouched", v.fcontent(SRR), st.old)
			if "location" in L:
				v.check(name + ":not-added-yet", not L["location"])
			return
		b = st.block
		name += ":" + b.kind
		v.check_eq(name + ":bytes", st.content(), st.before + self.want(v, L, b))
		v.check_eq(name + ":original-untouched", v.fcontent(SRR), st.old)
		if "location" in L:
			v.check(name + ":where", bool(L["location"]) == (st.location or b.kind == "volume"))
	def havoc(self, v, L):
		st = self.st
		self.first = False
		st.before = st.put(v.fresh_bytes("srr"))
		if "location" in L:
			st.location = L["location"] = bool(v.ctx.choose(2, "already added"))
	def frame(self, v, L):
		return self.st.frame()

@contract(["C04", "C19"], "remove_step", [M + "remove_stored_files", "rescene.utility.replace_file"],
	iters=1, note="one name to remove; one failing file operation anywhere")
def remove(v):
	if not v.symbolic:
		return
	m, st = setup(v)
	def want(v, L, b):
		if b.kind == "stored":
			return b"" if b.file_name == "s.nfo" else b.raw + b.data
		return b.raw
	v.loop(M + "remove_stored_files", 0, Copy(st, want))
	st.nodes.arm()
	out = v.call(m.remove_stored_files, SRR, ["s.nfo"])
	if verdict(v, st, m, out, m.NotSrrFile):
		v.check("only-srr-files", st.issrr)
		v.check("no-failure-hidden", st.nodes.failed is None)
		v.check_eq("result", v.fcontent(SRR), st.before)
	elif isinstance(out.exc, m.NotSrrFile):
		v.check("refused-other-files", v.Not(st.issrr))

class Dupes(LoopSpec):
	"""Nothing is written while looking for duplicates."""
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		v.check_eq(name + ":original-untouched", v.fcontent(SRR), self.st.old)
		left = list(L["store_files"])
		if self.first:
			v.check(name + ":all-files", left == self.st.asked)
			return
		b = self.st.block
		gone = [b.file_name] if b.kind == "stored" and b.file_name in self.before else []
		v.check(name + ":only-duplicates-dropped", left == [f for f in self.before
			if f not in gone])
		v.check(name + ":duplicates-refused", not gone or self.st.usenet)
	def havoc(self, v, L):
		self.first = False
		self.before = L["store_files"] = list(self.st.asked)
		if self.st.usenet and v.ctx.choose(2, "duplicate seen"):
			self.before = L["store_files"] = [f for f in self.st.asked if f != "s.nfo"]
		self.before = list(self.before)
		self.st.left = list(self.before)
	def frame(self, v, L):
		return [(L["store_files"], "*")]

@contract(["C04", "C19"], "add_step", [M + "add_stored_files", "rescene.utility.replace_file"],
	iters=1, budget=120, note="two files to add; one failing file operation anywhere; "
	"_store and _search by contract")
def add(v):
	if not v.symbolic:
		return
	m, st = setup(v)
	st.usenet = bool(v.ctx.choose(2, "usenet"))
	st.asked = ["s.nfo", "u/v.jpg"]
	Block.os_file_name = lambda self: self.file_name
	blobs = {f: v.fresh_bytes("stored") for f in st.asked}
	paths = Ghost()
	def store(f, stream, save, folder):
		v.check("store-arguments", stream is st.tmp and save is paths and folder == "/vfs/in")
		stream.write(blobs[f])
	v.stub(M + "_store", store)
	def store_fh(f, stream):
		v.check("store-arguments", stream is st.tmp)
		stream.write(blobs[f])
	v.stub(M + "_store_fh", store_fh)
	def search(files, folder=""):
		v.check("search-arguments", list(files) == st.left and folder == "/vfs/in")
		return list(files)
	v.stub(M + "_search", search)
	def added():
		r = b""
		for f in st.left:
			r = r + blobs[f]
		return r
	def want(v, L, b):
		r = b""
		if b.kind == "volume" and not st.location:
			r = added()
		r = r + b.raw
		return r + b.data if b.kind == "stored" else r
	v.loop(M + "add_stored_files", 0, Dupes(st))
	v.loop(M + "add_stored_files", 1, Copy(st, want))
	st.nodes.arm()
	out = v.call(m.add_stored_files, SRR, list(st.asked), "/vfs/in", paths, st.usenet)
	if verdict(v, st, m, out, m.NotSrrFile, m.DupeFileName):
		v.check("only-srr-files", st.issrr)
		v.check("no-failure-hidden", st.nodes.failed is None)
		v.check_eq("result", v.fcontent(SRR), st.before + (b"" if st.location else added()))

class Find(LoopSpec):
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		st = self.st
		v.check_eq(name + ":original-untouched", v.fcontent(SRR), st.old)
		if not self.first:
			v.check(name + ":not-the-file", not (st.block.kind == "stored" and
				st.block.file_name == "s.nfo"))
			v.check(name + ":not-renamed", not hasattr(st.block, "renamed"))
	def havoc(self, v, L):
		self.first = False
		self.st.block = None

@contract(["C04", "C19"], "rename_step", [M + "rename_stored_file"], iters=1,
	note="renameto by contract")
def rename(v):
	if not v.symbolic:
		return
	m, st = setup(v)
	v.loop(M + "rename_stored_file", 0, Find(st))
	st.nodes.arm()
	out = v.call(m.rename_stored_file, SRR, "s.nfo", "new/name.nfo")
	st.nodes.disarm()
	v.check_eq("original-untouched", v.fcontent(SRR), st.old)
	if not out.ok:
		if out.exc is not st.nodes.failed:
			v.expect("documented-failure", out, m.NotSrrFile, m.FileNotFound)
			v.check("not-an-srr-or-no-such-file", v.Or(v.Not(st.issrr),
				isinstance(out.exc, m.FileNotFound)))
			v.check("nothing-renamed", not hasattr(st.block, "renamed"))
		return
	v.check("only-srr-files", st.issrr)
	v.check("renamed", st.block is not None and st.block.kind == "stored" and
		st.block.file_name == "s.nfo" and getattr(st.block, "renamed", None) == "new/name.nfo")

@contract(["C04", "C19"], "rename_one_block", ["rescene.rar.SrrStoredFileBlock.renameto",
	"rescene.rar.SrrStoredFileBlock.srr_data", "rescene.utility.replace_file",
	"rescene.utility.is_good_srr"], budget=120)
def renameto(v):
	m = v.mod("rescene.rar")
	head, tail = v.bytes("before", 0, None), v.bytes("after", 0, None)
	data = v.bytes("data", 0, None)
	name, new = v.text("name"), v.text("new")
	v.assume(v.len(data) < 2 ** 32)
	v.assume(v.len(head) > 0)
	made = v.call(m.SrrStoredFileBlock, file_name=name, file_size=v.len(data))
	if not made.ok:
		return
	raw = made.value.block_bytes()
	old = head + raw + data + tail
	path = v.path("x.srr", old)
	out = v.call(m.SrrStoredFileBlock, raw, v.len(head), path)
	v.expect("parses", out)
	b = out.value
	v.check_eq("stored-bytes", b.srr_data(), data)
	want = v.call(m.SrrStoredFileBlock, file_name=new, file_size=v.len(data))
	failed = []
	if v.symbolic:
		nodes = Nodes(v)
		nodes.arm()
	else:
		if v.bool("fail"):
			def boom(*a):
				failed.append(OSError(28, "injected"))
				raise failed[0]
			v.patch(m.utility, "replace_file", boom)
	out = v.call(b.renameto, new)
	if v.symbolic:
		nodes.disarm()
		failed = [nodes.failed] if nodes.failed else []
		others = nodes.others(path)
	else:
		others = [f for f in os.listdir(os.path.dirname(path)) if f != "x.srr"]
	v.check("no-temporary-file-left", others == [])
	if not out.ok:
		v.check("fails-only-for-a-reason", bool(failed) or not want.ok)
		v.check_eq("original-unchanged", v.fcontent(path), old)
		return
	v.check("accepts-only-good-names", want.ok and not failed)
	v.check_eq("only-the-name-changed", v.fcontent(path), head + want.value.block_bytes() +
		data + tail)

# -- merging --------------------------------------------------------------------
class Gathered(Ghost):
	"""The blocks of one kind gathered so far, in order; additions are traced."""
	def __init__(self, st, what):
		self.st, self.what, self.log = st, what, []
	def append(self, b):
		self.log.append(b)
	def extend(self, bs):
		self.log.extend(bs)
	def __iadd__(self, bs):
		self.log.extend(bs)
		return self
	def insert(self, i, b):
		self.st.v.fail("order-of-gathered-blocks", "insert")
	def vc_iter(self):
		def at(k):
			b = self.st.block = Block(self.st.v, self.st.m, "stored" if self.what == "stored"
				else self.st.v.choice(core.CTX.fresh("kind"), KINDS[2:]))
			b.origin = self
			return b
		return ze(self.st.v.int(core.CTX.fresh("gathered"), 0)), at

class Inputs(LoopSpec):
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		if self.first:
			v.check(name + ":nothing-yet", L["stored_files"] == [] and L["other_blocks"] == [] and
				L["application_name"] == self.st.given)
		else:
			v.check(name + ":nothing-besides-the-blocks", L["stored_files"] is self.st.stored and
				L["other_blocks"] is self.st.other and self.st.stored.log == [] == self.st.other.log
				and L["application_name"] == self.st.app)
	def havoc(self, v, L):
		st = self.st
		self.first = False
		st.stored = L["stored_files"] = Gathered(st, "stored")
		st.other = L["other_blocks"] = Gathered(st, "other")
		st.app = L["application_name"] = st.given or v.choice(core.CTX.fresh("app"),
			[st.given, "first", ""])

class Gather(LoopSpec):
	"""Every block goes to the end of its list, headers give the name."""
	def __init__(self, st):
		self.st, self.first = st, True
	def inv(self, v, L, name):
		st = self.st
		if self.first:
			v.check(name + ":nothing-besides-the-blocks", L["stored_files"] is st.stored and
				L["other_blocks"] is st.other and st.stored.log == [] == st.other.log and
				L["application_name"] == st.app)
			return
		b = st.block
		name += ":" + b.kind
		v.check(name + ":stored-files", st.stored.log == ([b] if b.kind == "stored" else []) and
			L["stored_files"] is st.stored)
		v.check(name + ":other-blocks", L["other_blocks"] is st.other and st.other.log ==
			([] if b.kind in ("stored", "header") else [b]))
		v.check(name + ":application", L["application_name"] == (b.appname if b.kind == "header"
			and not st.app0 else st.app0))
	def havoc(self, v, L):
		st = self.st
		self.first = False
		st.stored = L["stored_files"] = Gathered(st, "stored")
		st.other = L["other_blocks"] = Gathered(st, "other")
		st.app0 = st.app = L["application_name"] = st.given or v.choice(core.CTX.fresh("app"),
			[st.given, "first", ""])

class WriteAll(LoopSpec):
	def __init__(self, st, what):
		self.st, self.what, self.first = st, what, True
	def inv(self, v, L, name):
		st = self.st
		content = v.fcontent("/vfs/out.srr")
		if self.first:
			want = None if self.what == "stored" else st.before
			if want is None:
				app = L["application_name"]
				want = st.m.SrrHeaderBlock(appname=app).block_bytes()
				v.check(name + ":application", app == st.app)
			v.check_eq(name + ":nothing-in-between", content, want)
			return
		b = st.block
		v.check(name + ":from-this-list", b.origin is getattr(st, self.what))
		v.check_eq(name + ":" + b.kind, content, st.before + b.raw + (b.data if
			self.what == "stored" else b""))
	def havoc(self, v, L):
		st = self.st
		self.first = False
		st.phase = self.what
		st.before = v.fresh_bytes("srr")
		st.handle.node.content = st.before
		st.handle.pos = v.len(st.before)
	def frame(self, v, L):
		return [(self.st.handle, "pos"), (self.st.handle.node, "content")]

@contract("C05", "merge_step", [M + "merge_srrs"], iters=1,
	note="any number of inputs and blocks; the data of a stored file by the contract of srr_data")
def merge(v):
	if not v.symbolic:
		return
	m, st = setup(v)
	st.given = v.choice("application", [None, "", "given"])
	st.phase = None
	from pyvc.models import vc_open
	def opened(p, mode="r"):
		v.check("opens-only-the-result", p == "/vfs/out.srr" and mode == "wb")
		st.handle = vc_open(p, mode)
		return st.handle
	m.open = opened
	v.ctx.undo.append(lambda: delattr(m, "open"))
	n = M + "merge_srrs"
	v.loop(n, 0, Inputs(st))
	v.loop(n, 1, Gather(st))
	v.loop(n, 2, WriteAll(st, "stored"))
	v.loop(n, 3, WriteAll(st, "other"))
	out = v.call(m.merge_srrs, [Star(v, lambda k: SRR)], "/vfs/out.srr", st.given)
	v.check_eq("input-untouched", v.fcontent(SRR), st.old)
	if st.app is None and (st.phase is None or not out.ok):
		return    # not even a header: the inputs are no SRR files
	if not out.ok:
		v.check("fails-only-with-the-input", out.exc is st.nodes.failed)
		v.check("nothing-created", v.fcontent("/vfs/out.srr") is None)
		return
	v.check("both-lists-written", st.phase == "other" and st.handle.closed)
	v.check_eq("nothing-behind-the-blocks", v.fcontent("/vfs/out.srr"), st.before)
