"""C06: nothing is written outside the output folder; C04: what is stored."""
import os, struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import SymStr, mkb, ze
from pyvc.core import Unsupported
from pyvc import core
from contracts.rebuild import Ghost

M = "rescene.main."
ILLEGAL = ("", ".", "..")

# -- joining path elements ---------------------------------------------------------
def slash(t):
	"""t contains a separator of the running system"""
	return t._pred("has", "/")

class Elements(Ghost):
	"""Any number of path elements of any text."""
	def __init__(self, v):
		self.v, self.made = v, {}
		self.n = v.int("elements", 1)
	def at(self, k):
		key = str(k)
		if key not in self.made:
			self.made[key] = self.last = SymStr(("elem", key))
		return self.made[key]
	def vc_iter(self):
		return ze(self.n), self.at
	def __iter__(self):
		# only for joining all of them
		return iter([All(self)])

class All(Ghost):
	def __init__(self, elements):
		self.elements = elements
		self.term = ("all elements",)

class Checked(LoopSpec):
	"""no element so far is illegal"""
	def __init__(self, els):
		self.els, self.first = els, True
	def inv(self, v, L, name):
		if self.first:
			return
		e = self.els.last
		for bad in ILLEGAL:
			v.check("%s:not-%r" % (name, bad), v.Not(e == bad))
		v.check(name + ":no-separator", v.Not(slash(e)))
	def havoc(self, v, L):
		self.first = False

@contract("C06", "joinpath", ["rescene.utility.joinpath"], iters=400)
def joinpath(v):
	m = v.mod("rescene.utility")
	if not v.symbolic:
		n = v.int("n", 1, 5)
		els = [v.choice("e%d" % i, ["", ".", "..", "a", "a/b", "/", "/etc", "b.c", "...", "a\\b",
			"\u2025", " ", "../x", "x/", "dev", "/dev/null"]) for i in range(n)]
		start = v.choice("start", ["", "out", "/tmp/out"])
		out = v.call(m.joinpath, els, start)
		bad = any("/" in e or e in ILLEGAL for e in els)
		if out.ok:
			v.check("accepts-only-plain-names", not bad)
			v.check_eq("joined", out.value, os.path.join(start, *els))
			root = os.path.normpath(start or ".")
			v.check("inside", (os.path.normpath(out.value) + "/").startswith(root + "/") or
				root == "." and not (os.path.normpath(out.value) + "/").startswith(("/", "../")))
		else:
			v.expect("refused", out, ValueError)
			v.check("refuses-only-bad-names", bad)
		return
	els = Elements(v)
	joins = []
	def join(start, *rest):
		if len(rest) != 1 or not isinstance(rest[0], All):
			raise Unsupported("join")
		r = SymStr(("joined", start))
		joins.append((start, rest[0].elements, r))
		return r
	v.patch(m.os.path, "join", join)
	def dirname(e):
		v.trusted("os.path.dirname(e) is empty exactly when e contains no separator")
		r = SymStr(("dirname", e.term))
		v.ctx.axiom(core.boolexpr(r == "") == z3.Not(core.boolexpr(slash(e))))
		return r
	v.patch(m.os.path, "dirname", dirname)
	v.trusted("os.path.join(start, *names) of names without separator that are not empty, "
		"'.' or '..' lies below start; str.split leaves no separator in its parts")
	spec = Checked(els)
	v.loop("rescene.utility.joinpath", 0, spec)
	out = v.call(m.joinpath, els, "start")
	if not out.ok:
		v.expect("refused", out, ValueError)
		e = els.last
		v.check("refuses-only-bad-names", v.Or(slash(e), *[e == b for b in
			ILLEGAL + (os.path.devnull,)]))
		return
	v.check("joined", len(joins) == 1 and out.value is joins[0][2] and joins[0][0] == "start"
		and joins[0][1] is els)
	v.check("every-element-was-checked", spec.visited)

NAMES = ["s.nfo", "d/s.nfo", "d\\s.nfo", "../s.nfo", "..\\s.nfo", "/etc/s.nfo", "", "a//b", "d\\..\\x",
	"C:\\x", ".", "d/", "d\\", "\\x", "./x", "\u00e9/\u6f22", "...", "a/../../x"]

def safe(p):
	return not p.startswith("/") and not any(e in ILLEGAL for e in p.split("/"))

@contract("C06", "names_of_blocks", ["rescene.rar._SrrFileNameBlock.os_file_name",
	"rescene.rar.RarPackedFileBlock.os_file_name"], iters=400, note="joinpath by contract")
def names(v):
	m = v.mod("rescene.rar")
	kind = v.choice("kind", ["stored", "volume", "packed"])
	cls = {"stored": m.SrrStoredFileBlock, "volume": m.SrrRarFileBlock,
		"packed": m.RarPackedFileBlock}[kind]
	b = cls.__new__(cls)
	if not v.symbolic:
		name = b.file_name = v.choice("name", NAMES)
		out = v.call(b.os_file_name)
		seps = name.replace("\\", "/")
		if out.ok:
			v.check("safe", safe(out.value))
			v.check_eq("same-elements", out.value, seps)
		else:
			v.expect("refused", out, ValueError)
			v.check("refuses-only-bad-names", not safe(seps) or kind == "packed" and "/" in name)
		return
	b.file_name = SymStr(("in", "name"))
	parts, made = [], []
	def split(self, sep):
		parts.append(SymStr(("split", self.term, sep)))
		return parts[-1]
	v.patch(SymStr, "split", split)
	def join(elements, start=""):
		v.check("every-element-is-checked", parts and elements is parts[-1] and start == "")
		# no element may keep a separator of the running system unnoticed; the other one
		# is a separator as well
		term, seps = parts[-1].term, set()
		seps.add(term[2])
		term = term[1]
		while term[0] == "replace":
			if term[3] in seps:
				seps.add(term[2])
			term = term[1]
		v.check("splits-at-separators", seps <= {"/", "\\"} and term == ("in", "name")
			and ("\\" in seps or "\\" not in b.file_name))
		if v.bool("bad"):
			raise ValueError("bad element")
		made.append(SymStr(("safe",)))
		return made[-1]
	v.stub("rescene.utility.joinpath", join)
	out = v.call(b.os_file_name)
	if out.ok:
		v.check("only-joined-elements", made and out.value is made[-1])
	else:
		v.expect("refused", out, ValueError)

class Stored(Ghost):
	def __init__(self, name, data, path):
		self.file_name, self.data, self.path = name, data, path
		self.rawtype = 0x6a
	def os_file_name(self):
		if self.path is None:
			raise ValueError("bad name")
		return self.path
	def srr_data(self):
		return self.data

@contract("C06", "output_path", [M + "_opath"], iters=100)
def opath(v):
	m = v.mod("rescene.main")
	name = v.choice("name", [None, "s.nfo", "d/s.nfo", "d/e/s.nfo"])
	folder = v.choice("folder", ["/vfs/out", "out", "out/", "/vfs/a/../out", "."])
	paths = v.bool("paths")
	out = v.call(m._opath, Stored("x", b"", name), paths, folder)
	if not out.ok:
		v.expect("refused", out, ValueError)
		v.check("only-bad-names", name is None)
		return
	root = os.path.normpath(folder)
	want = name if paths else name.split("/")[-1]
	v.check_eq("below-the-folder", os.path.normpath(out.value), os.path.normpath(root + "/" + want))

@contract("C06", "extract_one_file", [M + "_extract", M + "can_overwrite"], iters=100)
def extract(v):
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	data = v.bytes("data", 0, None)
	name = v.choice("name", ["s.nfo", "d/s.nfo"])
	path = v.path("out/" + name)
	old = None
	if v.bool("exists"):
		old = v.bytes("old", 0, None)
		v.path("out/" + name, old)
		if v.symbolic:
			m.os.makedirs(os.path.dirname(path), exist_ok=True)
	allowed = v.bool("allowed")
	if allowed:
		v.patch(m, "can_overwrite", lambda p: p == path)
	keep = v.bytes("other", 0, None)
	v.path("out/other.nfo", keep)
	out = v.call(m._extract, Stored(name, data, name), path)
	v.expect("returns", out)
	if old is not None and not allowed:
		v.check("refused", out.value is False)
		v.check_eq("existing-file-kept", v.fcontent(path), old)
	else:
		v.check("extracted", out.value is True)
		v.check_eq("exact-bytes", v.fcontent(path), data)
	v.check_eq("other-file-kept", v.fcontent(v.path("out/other.nfo")), keep)
	if v.symbolic:
		from pyvc.models import vfs
		v.check("no-other-file", len(vfs().files) == (2 if v.fcontent(path) is not None else 1))

@contract("C06", "extract_selected_files", [M + "extract_files"], iters=200,
	bounded="up to 3 stored files, 6 names")
def files(v):
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	n = v.int("files", 0, 2 if v.symbolic else 3)
	blocks, calls = [], []
	for i in range(3):
		if n == i:
			break
		name = v.choice("name%d" % i, ["a.nfo", "d/a.nfo", "b.sfv"])
		blocks.append(Stored(name, b"x", name))
		if i == 0 and v.bool("other"):
			blocks[-1].rawtype = 0x71
	class Reader(object):
		def __init__(self, f): pass
		def read_all(self): return iter(blocks)
	v.patch(m, "RarReader", Reader)
	def one(b, path):
		calls.append((b, path))
		return True
	v.patch(m, "_extract", one)
	paths = v.bool("paths")
	want = v.choice("packed_name", ["", "a.nfo", "d/a.nfo", "d/../a.nfo", "x"])
	out = v.call(m.extract_files, "x.srr", "/vfs/out", paths, want)
	v.expect("returns", out)
	exp = []
	for b in blocks:
		p = b.file_name if paths else b.file_name.split("/")[-1]
		if b.rawtype == 0x6a and (not want or want == b.file_name or os.path.normpath(want) ==
				b.file_name or "/" not in want and b.file_name.split("/")[-1] == want):
			exp.append((b, "/vfs/out/" + p))
	v.check("exactly-the-selected-files", [(id(a), p) for a, p in calls] ==
		[(id(a), p) for a, p in exp])
	v.check("reported", out.value == [(p, True) for a, p in exp])

# -- storing -----------------------------------------------------------------------
@contract(["C04", "C01"], "store_one_file", [M + "_store"], iters=100)
def store(v):
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	data, pre = v.bytes("data", 0, None), v.bytes("pre", 0, None)
	sub = v.choice("sub", ["f.nfo", "d/f.nfo", "d/\u00e9 f.jpg"])
	path = v.path("in/" + sub, data)
	out = v.file(pre)
	out.seek(0, 2)
	folder = os.path.dirname(path[:len(path) - len(sub)] + "x")
	inside = v.bool("inside")
	if not inside:
		folder = folder + "2"
	paths = v.bool("paths")
	if v.symbolic:
		v.assume(v.len(data) < 2 ** 32)
		v.patch(m.os.path, "relpath", os.path.relpath)
	r = v.call(m._store, path, out, paths, folder)
	v.expect("returns", r)
	name = sub if paths and inside else sub.split("/")[-1]
	head = v.mod("rescene.rar").SrrStoredFileBlock(file_name=name, file_size=v.len(data))
	v.check_eq("block-and-content", v.content(out), pre + head.block_bytes() + data)
	v.check_eq("file-untouched", v.fcontent(path), data)

class Handle(Ghost):
	def __init__(self, name, data, n):
		self.name, self.data, self.n, self.at = name, data, n, 1
	def seek(self, p): self.at = p
	def read(self, n=-1): return self.data[self.at:]
	def file_size(self): return self.n

@contract("C04", "store_one_handle", [M + "_store_fh"], iters=60)
def store_fh(v):
	m = v.mod("rescene.main")
	v.patch(m, "_fire", lambda *a, **k: None)
	data, pre = v.bytes("data", 0, None), v.bytes("pre", 0, None)
	v.assume(v.len(data) < 2 ** 32)
	out = v.file(pre)
	out.seek(0, 2)
	r = v.call(m._store_fh, Handle("d/f.nfo", data, v.len(data)), out)
	v.expect("returns", r)
	head = v.mod("rescene.rar").SrrStoredFileBlock(file_name="d/f.nfo", file_size=v.len(data))
	v.check_eq("block-and-content", v.content(out), pre + head.block_bytes() + data)
