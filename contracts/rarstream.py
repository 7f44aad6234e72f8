"""C07: a file inside RAR volumes reads like a plain file.

The volume table is a list of any length; part i holds the packed bytes
S(i)..S(i+1) of the file.  __init__/_process establish the table invariant, seek
and read keep the stream invariant, so any sequence of calls behaves like a file."""
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import SymBytes, SymStr, ze, mk, zx
from pyvc import core
from pyvc.core import Unsupported

M = "rescene.rarstream."
R = M + "RarStream."

class Part(object):
	# its stream is private to the read loop, which positions it before every use
	"""Element of the volume table, with the attributes _process gives it."""
	def __init__(self, t, k):
		self.t_, self.k_ = t, k
		self.pfile_start = t.S(k)
		self.pfile_end = t.S(k + 1) - 1
		self.pfile_offset = mk(t.off(ze(k)))
		self.archive_path = ("archive", t, k)

class Archive(object):
	"""The open archive of a part, at any position; its packed bytes lie at pfile_offset."""
	vc_ghost = True
	def __init__(self, t, k):
		self.t_, self.k_ = t, k
		self.at_ = t.v.fresh_int("at", 0)
		self.closed = False
	def seek(self, pos, how=0):
		if how != 0:
			raise Unsupported("relative seek in the archive")
		self.at_ = pos
		return pos
	def read(self, n=-1):
		t, v = self.t_, self.t_.v
		d = self.at_ - mk(t.off(ze(self.k_)))
		size = t.S(self.k_ + 1) - t.S(self.k_)
		if not v.And(d >= 0, n >= 0, d + n <= size):
			v.fail("reads-outside-the-packed-bytes", "")
		a = t.S(self.k_) + d
		self.at_ = self.at_ + n
		return t.content[a:a + n]
	def close(self):
		self.closed = True

class Table(object):
	"""The volume table: any number of parts of any size, empty ones included."""
	vc_ghost = True
	def __init__(self, v):
		f = lambda h: z3.Function(core.CTX.fresh(h), z3.IntSort(), z3.IntSort())
		self.v, self.s, self.off = v, f("S"), f("off")
		self.n = v.int("parts", 1)
		self.content = v.bytes("content", 0, None)
		self.total = v.len(self.content)
		v.ctx.axiom(self.s(0) == 0)
		v.ctx.axiom(self.s(ze(self.n)) == ze(self.total))
		self.parts = {}
	def S(self, k):
		return mk(self.s(ze(k)))
	def part(self, k):
		k = mk(zx(ze(k)))
		key = str(k if isinstance(k, int) else k.e)
		if key not in self.parts:
			a, b = self.s(ze(k)), self.s(ze(k) + 1)
			# the starts ascend from 0 to the file size
			self.v.ctx.axiom(z3.Implies(z3.And(ze(k) >= 0, ze(k) < ze(self.n)), z3.And(
				a >= 0, a <= b, b <= ze(self.total), self.off(ze(k)) >= 0)))
			self.parts[key] = Part(self, k)
		return self.parts[key]
	def vc_iter(self):
		return ze(self.n), self.part
	def holding(self, pos):
		"""some part that holds the position"""
		j = self.v.fresh_int("part", 0)
		self.v.assume(j < self.n)
		p = self.part(j)
		self.v.assume(self.v.And(p.pfile_start <= pos, pos <= p.pfile_end))
		return p
	def __iter__(self):
		raise Unsupported("volume table is used in another way")
	__len__ = __getitem__ = __bool__ = __iter__

def state(v, t, pos):
	"""the stream invariant"""
	m = v.mod("rescene.rarstream")
	s = m.RarStream.__new__(m.RarStream)
	s._rar_volumes = t
	s._packed_file_length = t.total
	s._closed = False
	s._current_position = pos
	s._current_volume = t.holding(pos) if pos < t.total else None
	return s

def invariant(v, t, s, pos):
	v.check("position", s._current_position == pos)
	c = s._current_volume
	if c is None:
		v.check("no-part-only-at-the-end", pos >= t.total)
	else:
		if not isinstance(c, Part) or c.t_ is not t:
			v.fail("part-of-the-table", "")
		v.check("part-holds-position", v.And(c.pfile_start <= pos, pos <= c.pfile_end))

class Find(LoopSpec):
	"""no part before the current one holds the position"""
	def __init__(self, t, s):
		self.t, self.s = t, s
	def inv(self, v, L, name):
		v.check(name + ":behind-the-parts-seen", self.s._current_position >= self.t.S(L.k))
		v.check(name + ":none-yet", self.s._current_volume is None)
	def havoc(self, v, L):
		v.assume(self.s._current_position >= self.t.S(L.k))

@contract("C07", "seek", [R + "seek", R + "tell", R + "length"], iters=1)
def seek(v):
	if not v.symbolic:
		return
	t = Table(v)
	pos = v.int("pos", 0)
	s = state(v, t, pos)
	how = v.choice("origin", [0, 1, 2])
	off = v.int("offset")
	v.loop(R + "seek", 0, Find(t, s))
	out = v.call(s.seek, off, how)
	dest = off + (0, pos, t.total)[how]
	if not out.ok:
		v.expect("refused", out, IndexError, ValueError, OSError)
		v.check("refused-only-before-the-start", dest < 0)
		invariant(v, t, s, pos)
		return
	v.check("new-position", v.And(out.value == dest, dest >= 0))
	v.check("tell", s.tell() == dest)
	v.check("length", s.length() == t.total)
	invariant(v, t, s, dest)

class Copy(LoopSpec):
	"""what was read so far is the file from the start position to the current one"""
	def __init__(self, t, s, p0, size, arg):
		self.t, self.s, self.p0, self.size, self.arg = t, s, p0, size, arg
	def inv(self, v, L, name):
		t, s, p = self.t, self.s, self.s._current_position
		v.check(name + ":inside", v.And(p >= self.p0, p < t.total))
		c = s._current_volume
		if not isinstance(c, Part) or c.t_ is not t:
			v.fail(name + ":part-of-the-table", "")
		v.check(name + ":part-holds-position", v.And(c.pfile_start <= p, p <= c.pfile_end))
		v.check_eq(name + ":read-so-far", L["dbuffer"], t.content[self.p0:p])
		if self.size is not None:
			v.check(name + ":left", v.And(L["size"] == self.size - (p - self.p0),
				L["size"] >= 0))
	def havoc(self, v, L):
		t, s = self.t, self.s
		p = v.fresh_int("pos", self.p0)
		v.assume(p < t.total)
		s._current_position = p
		s._current_volume = t.holding(p)
		if v.ctx.choose(2, "opened before"):
			s._current_volume.file_stream = Archive(t, s._current_volume.k_)
		L["dbuffer"] = t.content[self.p0:p]
		L["size"] = -1 if self.arg is None else self.arg
		if self.size is not None:
			L["size"] = self.size - (p - self.p0)
			v.assume(L["size"] >= 0)
	def variant(self, v, L):
		return self.t.total - self.s._current_position
	def frame(self, v, L):
		return [(self.s, "_current_position"), (self.s, "_current_volume")] + \
			[(x, "file_stream") for x in self.t.parts.values()]

@contract("C07", "read", [R + "read"], iters=1, note="seek by contract")
def read(v):
	if not v.symbolic:
		return
	m = v.mod("rescene.rarstream")
	t = Table(v)
	pos = v.int("pos", 0)
	s = state(v, t, pos)
	def opened(path, mode="r"):
		v.check("opens-the-archive", mode == "rb" and path[0] == "archive" and path[1] is t)
		return Archive(t, path[2])
	if v.symbolic:
		m.open = opened
		v.ctx.undo.append(lambda: delattr(m, "open"))
	def seek(self, off, how=0):
		dest = off + (0, self._current_position, t.total)[how]
		if dest < 0:
			raise IndexError("Negative index.")
		self._current_position = dest
		self._current_volume = t.holding(dest) if dest < t.total else None
		return dest
	v.stub(R + "seek", seek)
	arg = v.choice("arg", ["none", "all", "size"])
	size = None if arg == "none" else v.int("size", *((None, -1) if arg == "all" else (0,)))
	v.loop(R + "read", 0, Copy(t, s, pos, size if arg == "size" else None, size))
	out = v.call(s.read, *(() if arg == "none" else (size,)))
	v.expect("returns", out)
	end = v.ite(pos > t.total, pos, t.total)
	if arg == "size":
		end = v.ite(pos + size < end, pos + size, end)
	v.check_eq("bytes", out.value, t.content[pos:end])
	invariant(v, t, s, end)

# -- the table -----------------------------------------------------------------------
class Grow(list):
	"""The table while it is built: what _process appends continues the file."""
	def __init__(self, v, s):
		list.__init__(self)
		self.v, self.s, self.added = v, s, []
	def append(self, x):
		self.added.append(x)

class Block(object):
	def __init__(self, v, m, k):
		r = m.rar
		self.kind = v.choice("kind%s" % k, ["volume", "file", "other"])
		self.rawtype = dict(volume=r.BlockType.RarVolumeHeader, file=r.BlockType.RarPackedFile,
			other=v.choice("rawtype%s" % k, [0x69, 0x6a, 0x72, 0x78, 0x7a, 0x7b]))[self.kind]
		self.NEW_NUMBERING = r.RarVolumeHeaderBlock.NEW_NUMBERING
		self.flags = v.fresh_int("flags", 0, 65535)
		self.compression_method = v.fresh_int("method", 0, 255)
		self.packed_size = v.fresh_int("packed", 0)
		self.block_position = v.fresh_int("at", 0)
		self.header_size = v.fresh_int("head", 7, 65535)
		self.file_name = SymStr(("blockname", str(k)))

class Blocks(object):
	def __init__(self, v, m):
		self.v, self.m, self.memo = v, m, {}
		self.n = v.int("blocks", 0)
	def elem(self, k):
		k = z3.simplify(k)
		if str(k) not in self.memo:
			self.memo[str(k)] = Block(self.v, self.m, k)
		return self.memo[str(k)]
	def vc_iter(self):
		return ze(self.n), self.elem
	def __iter__(self):
		raise Unsupported("blocks are used in another way")

class Build(LoopSpec):
	def __init__(self, s, given, compressed, blocks, vols, path):
		self.s, self.given, self.compressed = s, given, compressed
		self.blocks, self.vols, self.path = blocks, vols, path
		self.first = True
	def inv(self, v, L, name):
		s = self.s
		if self.first:
			self.first = False
			self.name = L["packed_file_name"]
			if self.given is None:
				v.check(name + ":no-name", self.name is None or self.name == "")
			else:
				# names inside archives have backslashes
				v.check(name + ":name-asked-for", self.name == self.given)
			v.check(name + ":new-style", L["is_old_style_naming"] is False)
			return
		b = self.blocks.elem(ze(L.k - 1))
		name_now = L["packed_file_name"]
		old = self.old or (b.kind == "volume" and not bool(b.flags // 16 % 2 == 1))
		v.check(name + ":naming-style", bool(L["is_old_style_naming"]) == old)
		wanted = False
		if b.kind == "file":
			if self.name is None:
				wanted = True
				v.check(name + ":first-file-chosen", name_now == b.file_name)
			else:
				v.check(name + ":name-kept", name_now is self.name)
				wanted = bool(self.name == b.file_name)
			v.check(name + ":stored-only", self.compressed or b.compression_method == 0x30)
		else:
			v.check(name + ":name-kept", name_now is self.name)
		if not wanted:
			v.check(name + ":nothing-added", self.vols.added == [])
			v.check(name + ":length-kept", s._packed_file_length == self.len)
			return
		if len(self.vols.added) != 1:
			v.fail(name + ":one-part-added", "%d" % len(self.vols.added))
		p = self.vols.added[0]
		v.check(name + ":continues", p.pfile_start == self.len)
		v.check(name + ":part-end", p.pfile_end == self.len + b.packed_size - 1)
		v.check(name + ":data-offset", p.pfile_offset == b.block_position + b.header_size)
		v.check(name + ":archive", p.archive_path == self.path)
		v.check(name + ":no-stale-stream", not hasattr(p, "file_stream"))
		v.check(name + ":length", s._packed_file_length == self.len + b.packed_size)
	def havoc(self, v, L):
		self.len = v.fresh_int("len", 0)
		self.s._packed_file_length = self.len
		if self.given is None:
			self.name = SymStr(("first",)) if v.ctx.choose(2, "name known") else None
			if self.name is not None:
				v.assume(v.Not(self.name == ""))
		else:
			self.name = self.given
		L["packed_file_name"] = self.name
		self.old = bool(v.ctx.choose(2, "old"))
		L["is_old_style_naming"] = self.old
	def frame(self, v, L):
		return [(self.s, "_packed_file_length"), (self.vols, "*"), (self.vols.added, "*")] + \
			[(self.vols, "added")]

@contract("C07", "volume_table_step", [R + "_process"], iters=1,
	note="any list of blocks; block reader by contract C03")
def process(v):
	if not v.symbolic:
		return
	m = v.mod("rescene.rarstream")
	blocks = Blocks(v, m)
	s = m.RarStream.__new__(m.RarStream)
	vols = Grow(v, s)
	s._rar_volumes = vols
	len0 = s._packed_file_length = v.int("len", 0)
	given = None
	arg = v.choice("name", ["none", "given"])
	compressed = v.bool("compressed")
	if arg == "given":
		arg = SymStr(("asked",))
		v.assume(v.Not(arg == ""))
		given = arg.replace("/", "\\")
		v.assume(v.Not(given == ""))
	else:
		arg = None
	log = []
	class Reader(object):
		def __init__(self, path):
			v.check("reads-the-archive", path == "a.rar")
			log.append(self)
			self.open = True
		def read_all(self):
			return blocks
		def close(self):
			self.open = False
	v.patch(m.rar, "RarReader", Reader)
	spec = Build(s, given, compressed, blocks, vols, "a.rar")
	v.loop(R + "_process", 0, spec)
	out = v.call(s._process, "a.rar", arg, compressed)
	if not out.ok:
		v.expect("refused", out, AttributeError)
		b = blocks.memo.get(str(list(blocks.memo)[-1])) if blocks.memo else None
		v.check("refused-only-compressed", b is not None and b.kind == "file" and not compressed
			and b.compression_method != 0x30)
		return
	v.check("closed", all(not r.open for r in log))
	v.check("naming-style", bool(out.value) == spec.old)
	v.check("name-remembered", s.packed_file_name is spec.name)

class Chain(object):
	"""path number k of the set"""
	def __init__(self, k):
		self.k = k

class Walk(LoopSpec):
	def __init__(self, v, s, given, n, st):
		self.s, self.given, self.n, self.st = s, given, n, st
		self.first = True
	def inv(self, v, L, name):
		c = L["rar_file"]
		if not isinstance(c, Chain):
			v.fail(name + ":volume-path", "")
		v.check(name + ":each-volume-once", v.And(c.k == self.st["done"], c.k <= self.n))
		if self.first:
			self.first = False
			v.check(name + ":from-the-first", c.k == 0)
			v.check(name + ":name-asked-for", L["packed_file_name"] is self.given)
			v.check(name + ":empty-table", len(self.s._rar_volumes) == 0 and
				self.s._packed_file_length == 0)
		else:
			v.check(name + ":same-file-in-every-volume", L["packed_file_name"] is
				self.s.packed_file_name)
	def havoc(self, v, L):
		k = v.fresh_int("volume", 0)
		v.assume(k <= self.n)
		L["rar_file"] = Chain(k)
		self.st["done"] = k
		self.s.packed_file_name = L["packed_file_name"] = self.given or SymStr(("kept",)) if \
			bool(k == 0) is False else self.given
		self.s._rar_volumes = [object()] if bool(k > 0) and v.ctx.choose(2, "found") else []
	def variant(self, v, L):
		return self.n - L["rar_file"].k
	def frame(self, v, L):
		return [(self.s, "packed_file_name"), (self.s, "_rar_volumes"), (self.st, "*")]

@contract("C07", "volume_chain", [R + "__init__"], iters=1,
	note="_process, seek, next_archive by contract")
def chain(v):
	if not v.symbolic:
		return
	m = v.mod("rescene.rarstream")
	n = v.int("volumes", 1)
	given = v.choice("name", [None, "movie.avi"])
	middle, compressed = v.bool("middle"), v.bool("compressed")
	checked = v.choice("check", [True, False, "notfirst"])
	s = m.RarStream.__new__(m.RarStream)
	st = {"done": 0, "sought": 0, "checked": 0}
	def check(first):
		st["checked"] += 1
		v.check("checks-the-first", isinstance(first, Chain) and first.k == 0)
		if checked == "notfirst":
			raise AttributeError("not the first")
		return checked
	v.stub(M + "_check", check)
	def process(self, rar_file, packed_file_name=None, comp=False):
		v.check("volumes-in-order", rar_file.k == st["done"])
		v.check("mode-passed-on", comp is compressed)
		st["done"] = rar_file.k + 1
		st["name"] = packed_file_name
		self.packed_file_name = packed_file_name or SymStr(("kept",))
		old = SymStr(("style", str(rar_file.k)))
		st["style"] = old
		return old
	v.stub(R + "_process", process)
	def isfile(p):
		if not isinstance(p, Chain):
			raise Unsupported("path")
		return bool(p.k < n)
	v.patch(m.os, "path", type("P", (), {"isfile": staticmethod(isfile)}))
	def nxt(p, is_old):
		v.check("style-passed-on", is_old is st["style"])
		return Chain(p.k + 1)
	v.patch(m.utility, "next_archive", nxt)
	def seek(self, off, how=0):
		v.check("starts-at-zero", off == 0 and how == 0)
		st["sought"] += 1
	v.stub(R + "seek", seek)
	v.loop(R + "__init__", 0, Walk(v, s, given, n, st))
	out = v.call(s.__init__, Chain(0), given, middle, compressed)
	if not out.ok:
		v.expect("refused", out, AttributeError)
		v.check("refused-for-a-reason", (not middle and checked is not True) or
			s._rar_volumes == [])
		return
	v.check("checked-unless-middle", middle or checked is True)
	v.check("all-volumes", st["done"] == n)
	v.check("positioned", st["sought"] == 1)
	v.check("file-found", len(s._rar_volumes) > 0)
	v.check("start-part", s._current_volume is s._rar_volumes[0])
	v.check("open", s.closed is False)
