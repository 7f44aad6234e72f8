"""C02: SRR blocks survive serialisation; C03: one step of the block reader."""
import os, struct
import z3
from pyvc.core import Unsupported
from pyvc.instrument import LoopSpec
from pyvc.registry import contract
from pyvc.values import SymBytes

M = "rescene.rar."

def le(b, off, n):
	return sum(b[off + i] * 256 ** i for i in range(n))

def sep(v, m):
	"""the separator of the running system"""
	s = v.choice("sep", ["/", "\\"])
	v.patch(m.os, "sep", s)
	return s

def stored(name, s):
	return name.replace("\\", "/") if s == "\\" else name

def header(v, raw, crc, typ, flags, size):
	v.check("magic", le(raw, 0, 2) == crc)
	v.check("type", raw[2] == typ)
	v.check("flags", le(raw, 3, 2) == flags)
	v.check("announced-header-size", le(raw, 5, 2) == size)

def isname(v, got, want):
	if v.symbolic:
		v.check("name-read-back", got.term == want.term if hasattr(got, "term") and
			hasattr(want, "term") else got == want)
	else:
		v.check_eq("name-read-back", got, want)

@contract("C02", "srr_header_block", [M + "SrrHeaderBlock.__init__", M + "RarBlock.__init__",
	M + "RarBlock._write_header"])
def srr_header(v):
	m = v.mod("rescene.rar")
	name = v.text("appname")
	out = v.call(m.SrrHeaderBlock, appname=name)
	data = name.encode("utf-8")
	if not out.ok:
		v.expect("only-too-long", out, struct.error)
		v.check("too-long", v.len(data) + 9 >= 65536)
		return
	raw = out.value.block_bytes()
	empty = v.len(data) == 0
	if v.symbolic:
		empty = bool(empty)
	header(v, raw, 0x6969, 0x69, 0 if empty else 1, v.len(raw))
	if not empty:
		v.check_eq("layout", raw[7:], v.pack("<H", v.len(data)) + data)
	out = v.call(m.SrrHeaderBlock, raw, 0, "f")
	v.expect("read-back", out)
	b = out.value
	v.check("header-size", b.header_size == v.len(raw))
	if empty:
		v.check_eq("no-name", b.appname, "")
	else:
		isname(v, b.appname, name)

@contract("C02", "srr_stored_file_block", [M + "SrrStoredFileBlock.__init__",
	M + "SrrStoredFileBlock._write_rawdata", M + "_SrrFileNameBlock._pack_file_name",
	M + "_SrrFileNameBlock._unpack_file_name", "rescene.utility.is_good_srr"])
def srr_stored(v):
	m = v.mod("rescene.rar")
	s = sep(v, m)
	name = v.text("name")
	size = v.int("size", None, 2 ** 40)
	want = stored(name, s)
	data = want.encode("utf-8")
	out = v.call(m.SrrStoredFileBlock, file_name=name, file_size=size)
	good = v.And(size >= 0, v.len(data) > 0, v.len(data) + 13 < 65536)
	if not out.ok:
		v.expect("refused-only-for-bad-values", out, AttributeError, struct.error)
		if isinstance(out.exc, struct.error):
			v.check("too-big", v.Or(size >= 2 ** 32, v.len(data) >= 65536))
		else:
			bad = any([c in want for c in '\\:*?"<>|'])
			v.check("bad", bad or v.Not(good))
		return
	v.check("accepted-only-good", v.And(good, size < 2 ** 32))
	raw = out.value.block_bytes()
	header(v, raw, 0x6a6a, 0x6a, 0x8000, v.len(raw))
	v.check_eq("layout", raw[7:], v.pack("<IH", size, v.len(data)) + data)
	pos = v.int("pos", 1)
	out = v.call(m.SrrStoredFileBlock, raw, pos, "f")
	v.expect("read-back", out)
	b = out.value
	isname(v, b.file_name, want)
	v.check("size", v.And(b.file_size == size, b.add_size == size))
	v.check("header-size", b.header_size == v.len(raw))
	v.check("position", b.block_position == pos)

@contract("C02", "srr_rar_file_block", [M + "SrrRarFileBlock.__init__",
	M + "_SrrFileNameBlock._pack_file_name", M + "_SrrFileNameBlock._unpack_file_name"])
def srr_rar(v):
	m = v.mod("rescene.rar")
	s = sep(v, m)
	name = v.text("name")
	want = stored(name, s)
	data = want.encode("utf-8")
	v.assume(v.len(data) > 0)
	if v.symbolic:
		v.assume(v.Not(name == ""))
	out = v.call(m.SrrRarFileBlock, file_name=name)
	if not out.ok:
		v.expect("only-too-long", out, struct.error)
		v.check("too-long", v.len(data) + 9 >= 65536)
		return
	raw = out.value.block_bytes()
	header(v, raw, 0x7171, 0x71, 1, v.len(raw))
	v.check_eq("layout", raw[7:], v.pack("<H", v.len(data)) + data)
	out = v.call(m.SrrRarFileBlock, raw, 5, "f")
	v.expect("read-back", out)
	isname(v, out.value.file_name, want)
	v.check("header-size", out.value.header_size == v.len(raw))
	v.check("no-data", out.value.add_size == 0)

@contract("C02", "srr_oso_hash_block", [M + "SrrOsoHashBlock.__init__",
	M + "_SrrFileNameBlock._pack_file_name", M + "_SrrFileNameBlock._unpack_file_name"])
def srr_oso(v):
	m = v.mod("rescene.rar")
	s = sep(v, m)
	name = v.text("name")
	want = stored(name, s)
	data = want.encode("utf-8")
	size = v.int("size", 0, 2 ** 64 - 1)
	h = v.int("hash", 0, 2 ** 64 - 1)
	if v.symbolic:
		from pyvc.models import vc_mod
		text = vc_mod("%016x", h)
	else:
		text = "%016x" % h
	out = v.call(m.SrrOsoHashBlock, file_size=size, file_name=name, oso_hash=text)
	if not out.ok:
		v.expect("only-too-long", out, struct.error)
		v.check("too-long", v.len(data) + 25 >= 65536)
		return
	raw = out.value.block_bytes()
	header(v, raw, 0x6b6b, 0x6b, 0, v.len(raw))
	v.check_eq("layout", raw[7:], v.pack("<QQH", size, h, v.len(data)) + data)
	out = v.call(m.SrrOsoHashBlock, raw, 5, "f")
	v.expect("read-back", out)
	b = out.value
	isname(v, b.file_name, want)
	v.check("size", b.file_size == size)
	isname(v, b.oso_hash, text)
	v.check("header-size", b.header_size == v.len(raw))

@contract("C02", "srr_padding_block", [M + "SrrRarPaddingBlock.__init__"])
def srr_padding(v):
	m = v.mod("rescene.rar")
	pad = v.bytes("pad", 0, 2 ** 32 - 1)
	out = v.call(m.SrrRarPaddingBlock, padding_bytes=pad)
	v.expect("written", out)
	raw = out.value.block_bytes()
	header(v, raw, 0x6c6c, 0x6c, 0x8000, 11)
	v.check_eq("layout", raw[7:], v.pack("<I", v.len(pad)) + pad)
	out = v.call(m.SrrRarPaddingBlock, raw, 5, "f")
	v.expect("read-back", out)
	v.check("size", v.And(out.value.padding_size == v.len(pad), out.value.add_size ==
		v.len(pad), out.value.header_size == 11))
	v.check_eq("bytes", out.value.block_bytes(), raw)

# -- C03 ------------------------------------------------------------------------------
TYPES = [0x69, 0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79,
	0x7a, 0x7b]

def stubs(v, m):
	if not v.symbolic:
		return
	def decode(self):
		if v.ctx.choose(2, "malformed"):
			raise IndexError("list index out of range")
		from pyvc.values import SymStr
		return SymStr(("uniname",) + self.std_name.key() + self.encdata.key())
	v.stub(M + "UnicodeFilename.decode", decode)
	def ext(block, pos):
		block.mtime = block.ctime = block.atime = block.arctime = None
		if v.ctx.choose(2, "cut short"):
			raise struct.error("unpack_from")
		return pos + v.fresh_int("ext", 0, 30)
	v.stub(M + "_parse_ext_time", ext)

def constructors(v, m):
	"""Contract of the block constructors (block_constructors, file_block_fields)
	in place of their bodies."""
	if not v.symbolic:
		return
	def fails():
		if v.ctx.choose(2, "fields missing"):
			raise struct.error("unpack_from")
	def init(self, bb, pos, fname):
		m.RarBlock.__init__(self, bb, pos, fname)
		fails()
	def finit(self, bb, pos, fname):
		m.RarBlock.__init__(self, bb, pos, fname)
		large = bool(self.flags // 256 % 2 == 1)
		if not v.len(bb) >= (40 if large else 32) or v.ctx.choose(2, "fields missing"):
			raise struct.error("unpack_from")
		self.packed_size = le(bb, 7, 4) + (le(bb, 32, 4) * 2 ** 32 if large else 0)
		self.add_size = self.packed_size
	for c in ("SrrHeaderBlock", "SrrStoredFileBlock", "SrrRarFileBlock", "SrrOsoHashBlock",
			"RarVolumeHeaderBlock", "RarOldRecoveryBlock", "RarEndArchiveBlock"):
		v.stub(M + c + ".__init__", init)
	old = m.SrrRarPaddingBlock.__init__
	v.stub(M + "SrrRarPaddingBlock.__init__", lambda self, bbytes=None, filepos=None,
		fname=None, padding_bytes=None: init(self, bbytes, filepos, fname) if bbytes is not
		None else old(self, filepos=filepos, fname=fname, padding_bytes=padding_bytes))
	v.stub(M + "RarPackedFileBlock.__init__", finit)
	v.stub(M + "RarNewSubBlock.__init__", finit)

def reader(v, m, content, p, mode, end_seen, removed):
	r = m.RarReader.__new__(m.RarReader)
	if v.symbolic:
		f = v.file(content)
		f.name = "x.rar"
	else:
		f = open(v.path("x.rar", content), "rb")
	f.seek(p)
	r._rarstream = f
	r._initial_offset = 0
	r._file_length = v.len(content)
	r._readmode = mode
	r._rar_end_block_encountered = end_seen
	r.recovery_blocks_removed = removed
	return r

def step(v, mode):
	m = v.mod("rescene.rar")
	constructors(v, m)
	t = v.choice("type", TYPES + [None])
	if v.symbolic:
		content = v.bytes("content", 0, None)
		n = v.len(content)
	else:
		head = v.bytes("head", 0, 40)
		b = bytearray(v.bytes("body", 0, None, cap=120))
		fl = v.int("flags", 0, 65535)
		if len(b) > 6:
			b[2] = t or (b[2] if b[2] not in TYPES else 0x10)
			b[3:5] = struct.pack("<H", fl)
			b[5:7] = struct.pack("<H", v.int("hsize", 0, 80))
			if v.bool("small") and len(b) > 11:
				b[7:11] = struct.pack("<I", v.int("add", 0, 60))
			if len(b) > 40 and v.bool("rr"):
				b[26:28] = b"\x02\x00"
				b[32:34] = b"RR"
		content = head + bytes(b)
		n = len(content)
	p = v.int("p", 1, None if v.symbolic else max(1, n))
	if not v.symbolic:
		p = max(1, len(head))
	v.assume(p <= n)
	seen = mode == 0 and v.bool("end-seen")
	removed = mode == 1 and v.bool("removed")
	if v.symbolic:
		if not p + 7 <= n:
			if t is not None:
				v.assume(False)
		elif t is not None:
			v.assume(content[p + 2] == t)
		else:
			for x in TYPES:
				v.assume(content[p + 2] != x)
	r = reader(v, m, content, p, mode, seen, removed)
	f = r._rarstream
	out = v.call(r._read)
	rest = n - p
	if not out.ok:
		v.expect("documented-error", out, EnvironmentError, ValueError, struct.error)
		v.check("no-error-at-the-end", rest > 0)
		if rest >= 7 and not (seen and mode == 0) and isinstance(out.exc, EnvironmentError):
			hs = le(content, p + 5, 2)
			# the system refuses positions behind what its file system can hold
			far = not v.symbolic and hs >= 36 and p + 36 <= n and le(content, p + 32, 4) > 0xff
			v.check("error-only-for-a-bad-size", v.Or(hs < 7, p + hs > n, far))
		return
	b = out.value
	if b is None:
		v.check("none-only-at-the-end", rest == 0)
		return
	q = f.tell()
	v.check("progress", q > p)
	v.check("not-at-the-end", rest > 0)
	if seen and mode == 0:
		v.check("padding", isinstance(b, m.SrrRarPaddingBlock))
		v.check("padding-to-the-end", q == n)
		v.check("padding-starts-where-asked", b.block_position == p)
		v.check_eq("padding-bytes", b.block_bytes()[11:], content[p:])
		return
	hs = le(content, p + 5, 2)
	fl = le(content, p + 3, 2)
	v.check("header-inside", v.And(hs >= 7, p + hs <= n))
	v.check("starts-where-asked", b.block_position == p)
	v.check("header-size", b.header_size == hs)
	v.check("type", b.rawtype == content[p + 2])
	v.check("flags", b.flags == fl)
	long = fl // 32768 % 2 == 1
	isfile = t == 0x74
	if v.symbolic:
		hs7 = bool(hs == 7)
		long = bool(long)
	else:
		hs7 = hs == 7
	has = (long or isfile or t == 0x7a) and not hs7
	add = le(content, p + 7, 4) if has else 0
	v.check("class", type(b) is (m.BTYPES_CLASSES[t] if t is not None and
		(not hs7 or t == 0x69) else m.RarBlock) or hs7)
	rr = t == 0x78 and not hs7
	if t == 0x7a and not hs7:
		rr = v.And(hs > 34, content[p + 26] == 2, content[p + 27] == 0,
			content[p + 32] == 0x52, content[p + 33] == 0x52) if not v.symbolic or \
			bool(hs > 34) else False
		if v.symbolic:
			rr = bool(rr)
	v.check("current-block-state", r._rar_end_block_encountered == (seen or t == 0x7b))
	if t == 0x71 and mode == 1 and not hs7:
		v.check("recovery-removed-flag", v.Or(v.And(fl % 2 == 1, bool(
			r.recovery_blocks_removed)), v.And(fl % 2 == 0, not
			bool(r.recovery_blocks_removed))))
	# where the block ends: only data that is really there is skipped
	if hs7 or t == 0x6a:
		end = p + hs + (add if t == 0x6a else 0)
		raw = content[p:p + hs]
	elif isfile or rr:
		raw = content[p:p + hs]
		if mode == 1:
			end = p + hs + (add if rr and not removed else 0)
		elif isfile and not v.Not(fl // 256 % 2 == 1):
			end = p + hs + add + le(content, p + 32, 4) * 2 ** 32
		else:
			end = p + hs + add
	else:
		end = v.ite(p + hs + add <= n, p + hs + add, n)
		raw = content[p:end]
	v.check("next-starts-behind", q == end)
	v.check_eq("bytes", b.block_bytes(), raw)

for _i, _n in enumerate(("rar", "srr", "sfx")):
	contract("C03", "reader_step_" + _n, [M + "RarReader._read", M + "RarBlock.__init__"],
		budget=150, max_paths=20000, iters=1000, note="one call of _read from any position of "
		"any content")(lambda v, i=_i: step(v, i))

CLASSES = ["SrrHeaderBlock", "SrrStoredFileBlock", "SrrRarFileBlock", "SrrOsoHashBlock",
	"SrrRarPaddingBlock", "RarVolumeHeaderBlock", "RarOldRecoveryBlock", "RarEndArchiveBlock"]

@contract("C03", "block_constructors", [M + c + ".__init__" for c in CLASSES] +
	[M + "_SrrFileNameBlock._unpack_file_name", M + "RarBlock.__init__"], budget=120,
	iters=1000, note="any bytes: header kept, fields at their offsets, documented errors")
def construct(v):
	m = v.mod("rescene.rar")
	name = v.choice("class", CLASSES)
	raw = v.bytes("raw", 7, None, cap=60)
	if not v.symbolic and v.bool("long"):
		raw += bytes(40)
	pos = v.int("pos", 1)
	out = v.call(getattr(m, name), raw, pos, "f")
	v.expect("documented-error", out, struct.error, UnicodeDecodeError)
	if not out.ok:
		return
	b = out.value
	fl = le(raw, 3, 2)
	v.check("header", v.And(b.crc == le(raw, 0, 2), b.rawtype == raw[2], b.flags == fl,
		b.header_size == le(raw, 5, 2), b.block_position == pos))
	v.check_eq("all-bytes-kept", b.block_bytes(), raw)
	if name != "RarOldRecoveryBlock":
		v.check("data-size", b.add_size == (le(raw, 7, 4) if bool(fl >= 32768) else 0))
	def text(got, off):
		want = raw[off + 2:off + 2 + le(raw, off, 2)].decode("utf-8")
		isname(v, got, want)
	if name == "SrrHeaderBlock":
		if fl % 2 == 1:
			text(b.appname, 7)
		else:
			v.check_eq("no-name", b.appname, "")
	elif name == "SrrStoredFileBlock":
		v.check("file-size", b.file_size == le(raw, 7, 4))
		text(b.file_name, 11)
	elif name == "SrrRarFileBlock":
		text(b.file_name, 7)
	elif name == "SrrOsoHashBlock":
		v.check("file-size", b.file_size == le(raw, 7, 8))
		if v.symbolic:
			v.check("hash", b.oso_hash.num == le(raw, 15, 8))
		else:
			v.check_eq("hash", b.oso_hash, "%016x" % le(raw, 15, 8))
		text(b.file_name, 23)
	elif name == "SrrRarPaddingBlock":
		v.check("padding-size", b.padding_size == le(raw, 7, 4))
	elif name == "RarOldRecoveryBlock":
		v.check("old-recovery", v.And(b.packed_size == le(raw, 7, 4), b.rar_version ==
			raw[11], b.recovery_sectors == le(raw, 12, 2), b.data_sectors == le(raw, 14, 4),
			b.add_size == le(raw, 7, 4)))
	elif name == "RarVolumeHeaderBlock":
		v.check("reserved", v.And(b.reserved1 == le(raw, 7, 2), b.reserved2 == le(raw, 9, 4)))

@contract("C03", "reader_next", [M + "RarReader.__next__"], iters=1)
def nxt(v):
	"""What _read reports becomes a block, a documented error or the end."""
	if not v.symbolic:
		return
	m = v.mod("rescene.rar")
	kind = v.choice("kind", ["block", "end", "env", "struct", "value"])
	content = v.bytes("content", 0, None)
	off = v.int("offset", 0)
	r = reader(v, m, content, v.int("p", 0), 0, False, False)
	r._initial_offset = off
	blk = object()
	exc = dict(env=EnvironmentError("x"), struct=struct.error("x"), value=ValueError("x"))
	def _read(self):
		if kind in exc:
			raise exc[kind]
		return blk if kind == "block" else None
	v.stub(M + "RarReader._read", _read)
	out = v.call(r.__next__)
	if kind == "block":
		v.check("block", out.ok and out.value is blk)
	elif kind == "end":
		v.check("nothing-remembered", not r._rar_end_block_encountered)
		v.check("end", isinstance(out.exc, StopIteration))
		v.check("rewound", r._rarstream.tell() == off)
	elif kind == "struct":
		v.check("documented", isinstance(out.exc, EnvironmentError))
	else:
		v.check("same-error", out.exc is exc[kind])
	if kind in ("env", "struct"):
		v.check("closed", r._rarstream.closed)

def fields(v, whole):
	m = v.mod("rescene.rar")
	stubs(v, m)
	if v.symbolic:
		raw = v.bytes("raw", 32, 65535)
	else:
		raw = bytearray(v.bytes("raw", 32, 32) + v.bytes("rest", 0, 60))
		raw[26:28] = struct.pack("<H", v.int("name_len", 0, 70))
		if v.bool("exact") and v.bool("rr"):
			raw[26:28] = b"\2\0"
			raw = raw[:32] + b"RR" + raw[32:]
			raw[3:5] = struct.pack("<H", v.int("fl", 0, 65535) & 0x8000)
		raw = bytes(raw)
	if v.symbolic:
		v.stub(M + "_parse_dos_time", lambda x: ("dos", x))
	if whole:
		# a header that holds the fields it announces
		v.assume(v.len(raw) >= 32 + 8 + 8 + 20 + le(raw, 26, 2))
	out = v.call(m.RarPackedFileBlock, raw, 7, "f")
	fl = le(raw, 3, 2)
	bit = lambda k: bool(fl // k % 2 == 1)
	if not whole:
		v.expect("only-missing-fields", out, struct.error)
		if out.ok:
			b = out.value
			v.check("header", v.And(b.rawtype == raw[2], b.flags == fl, b.header_size ==
				le(raw, 5, 2), b.block_position == 7, b.crc == le(raw, 0, 2)))
			v.check_eq("all-bytes-kept", b.block_bytes(), raw)
			v.check("data-size", b.add_size == b.packed_size)
			v.check("packed-size", b.packed_size == le(raw, 7, 4) +
				(le(raw, 32, 4) * 2 ** 32 if bit(0x100) else 0))
		return
	if not out.ok:
		v.expect("only-missing-fields", out, struct.error)
		v.check("cause", bit(0x100) or bit(0x1000))
		return
	b = out.value
	v.check("header", v.And(b.rawtype == raw[2], b.flags == fl, b.header_size ==
		le(raw, 5, 2), b.block_position == 7, b.crc == le(raw, 0, 2)))
	v.check_eq("all-bytes-kept", b.block_bytes(), raw)
	off = 32
	hp = hu = 0
	if bit(0x100):
		v.check("high-fields-there", v.len(raw) >= 40)
		hp, hu = le(raw, 32, 4), le(raw, 36, 4)
		off = 40
	v.check("packed-size", b.packed_size == le(raw, 7, 4) + hp * 2 ** 32)
	v.check("unpacked-size", b.unpacked_size == le(raw, 11, 4) + hu * 2 ** 32)
	v.check("data-size", b.add_size == b.packed_size)
	v.check("host", b.os == raw[15])
	v.check("crc", b.file_crc == le(raw, 16, 4))
	if v.symbolic:
		v.check("time", b.file_datetime[1] == le(raw, 20, 4))
	else:
		from contracts.times import dos
		v.check_eq("time", b.file_datetime, dos(le(raw, 20, 4)))
	v.check("version", b.rar_version == raw[24])
	v.check("method", b.compression_method == raw[25])
	v.check("attributes", b.file_attributes == le(raw, 28, 4))
	nl = le(raw, 26, 2)
	name = raw[off:off + nl]
	def text(want):
		if v.symbolic:
			v.check("name", b.file_name.term == want.term if hasattr(want, "term") and
				hasattr(b.file_name, "term") else b.file_name == want)
		else:
			v.check_eq("name", b.file_name, want)
	if not bit(0x200):
		text(name.decode("windows-1252", "replace"))
		v.check_eq("plain-name", b.orig_filename, name)
	elif v.symbolic and not v.len(name) > 0:
		v.check("empty-name", v.len(b.orig_filename) == 0)
	else:
		z = name.find(b"\0")
		if z < 0:
			text(name.decode("utf-8", "replace"))
			v.check_eq("plain-name", b.orig_filename, name)
		else:
			plain = name[:z]
			v.check_eq("plain-name", b.orig_filename, plain)
			if not v.symbolic:
				from contracts.times import decode_spec
				try:
					text(decode_spec(plain, name[z + 1:]))
				except IndexError:
					text(plain.decode("windows-1252", "replace"))
			elif getattr(b.file_name, "term", " ")[0] == "uniname":
				v.check("decoded-from-both-parts", b.file_name.term ==
					("uniname",) + plain.key() + name[z + 1:].key())
			else:
				text(plain.decode("windows-1252", "replace"))
@contract("C03", "newsub_block_fields", [M + "RarNewSubBlock.__init__"], iters=1000,
	note="file block part by contract")
def newsub(v):
	m = v.mod("rescene.rar")
	if v.symbolic:
		raw = v.bytes("raw", 32, 65535)
		p = v.int("p", 32)
	else:
		n = v.choice("name", [b"RR", b"CMT", b"AV", b"R", b""])
		big = v.bool("large")
		raw = v.bytes("raw", 32, 32)
		raw = raw[:3] + struct.pack("<H", 0x100 if big else 0) + raw[5:26] + struct.pack("<H",
			len(n)) + raw[28:] + bytes(8 if big else 0) + n + v.bytes("rest", 0, 40)
		p = 32 + (8 if big else 0) + len(n)
	def init(self, bb, pos, fname):
		m.RarBlock.__init__(self, bb, pos, fname)
		if v.ctx.choose(2, "fields missing"):
			raise struct.error("unpack_from")
		from pyvc.values import SymStr
		self.file_name = SymStr(("name",))
		self._p = p
	v.stub(M + "RarPackedFileBlock.__init__", init)
	out = v.call(m.RarNewSubBlock, raw, 7, "f")
	v.expect("only-missing-fields", out, struct.error)
	if not out.ok:
		return
	b = out.value
	rr = bool(b.file_name == "RR")
	v.check("is-recovery", b.is_recovery == rr)
	if rr:
		v.check("recovery-sectors", b.recovery_sectors == le(raw, p + 8, 4))
		v.check("data-sectors", b.data_sectors == le(raw, p + 12, 8))

for _w in (True, False):
	contract("C03", "file_block_%s" % ("fields" if _w else "any_bytes"),
		[M + "RarPackedFileBlock.__init__"], budget=200, iters=1000,
		note="any header bytes; name decoder and extended times by contract")(
		lambda v, w=_w: fields(v, w))

RAR5 = b"Rar!\x1a\x07\x01\x00"
MARKER = b"Rar!\x1a\x07\x00"

def first_mebibyte(v, content, p):
	if not v.symbolic:
		return content[p:p + 0x100000]
	f = v.file(content)
	f.seek(p)
	return f.read(0x100000)

@contract("C03", "reader_opened", [M + "RarReader.__init__"], iters=600,
	note="any content, place in the stream and announced length")
def opened(v):
	"""What is opened: kind of file, where its blocks begin and where they end."""
	m = v.mod("rescene.rar")
	start = v.choice("start", ["any", "marker", "rar5", "srr"])
	sfx = bool(v.bool("sfx"))
	head = {"any": b"", "marker": MARKER, "rar5": RAR5, "srr": b"\x69\x69\x69"}[start]
	pre = v.bytes("before", 0, None, cap=30)
	body = v.bytes("body", 0, None, cap=60)
	if not v.symbolic and v.bool("marker-inside"):
		k = v.int("where", 0, 40)
		body = body[:k] + MARKER + body[k:]
	content = pre + head + body
	p = v.len(pre)
	n = v.len(content)
	announced = 0
	if v.bool("part"):
		announced = v.int("length", 1, None if v.symbolic else 80)
		v.assume(announced <= n - p)
	if v.symbolic:
		f = v.file(content)
	else:
		f = open(v.path("x.rar", content), "rb")
	f.seek(p)
	out = v.call(m.RarReader, f, announced, sfx)
	end = p + announced if announced else n
	rest = content[p:n]
	small = end - p < 20
	if small:
		v.expect("too-small", out, ValueError)
		v.check("refused", not out.ok)
		return v.check("closed", f.closed)
	rar = rest[2] == 0x72
	srr = rest[2] == 0x69
	is5 = v.And(*[rest[i] == RAR5[i] for i in range(8)])
	if not out.ok:
		v.expect("refused", out, ValueError)
		v.check("closed", f.closed)
		v.check("not-an-archive", v.Or(is5, v.Not(v.Or(rar, srr))))
		if sfx and not is5:
			window = first_mebibyte(v, content, p)
			at = v.fresh_int("place", 0) if v.symbolic else max(0, window.find(MARKER))
			v.assume(at + 7 <= v.len(window))
			if v.symbolic:
				v.assume(window.match_at(MARKER, at))
				window.nowhere_else(MARKER, at)
			else:
				v.assume(window[at:at + 7] == MARKER)
			v.check("no-marker-in-the-first-mebibyte", p + at > end)
		return
	r = out.value
	v.check("no-rar5", v.Not(is5))
	q = f.tell()
	v.check("at-the-first-block", q == r._initial_offset)
	v.check("end", r._file_length == end)
	t = r.file_type()
	v.check("kind", v.Or(v.And(rar, t == r.RAR), v.And(srr, t == r.SRR),
		v.And(v.Not(rar), v.Not(srr), sfx, t == r.SFX)))
	v.check("new", r._rar_end_block_encountered is False)
	if t != r.SFX:
		return v.check("from-the-start", q == p)
	at = q - p
	v.check("marker-inside", v.And(at >= 0, at + 7 <= v.len(rest), at + 7 <= 0x100000))
	v.check_eq("behind-the-program", content[q:q + 7], MARKER)
	if v.symbolic:
		o = v.fresh_int("other", 0)
		window = first_mebibyte(v, content, p)
		v.assume(o < at)
		v.assume(window.match_at(MARKER, o))
		window.nowhere_else(MARKER, o)
		v.check("first-marker", o >= at)
	else:
		v.check("first-marker", rest.find(MARKER) == at)

class Chain(object):
	"""Any number of blocks, handed out one after the other."""
	vc_ghost = True
	def __init__(self, v):
		self.v, self.last = v, None
	def vc_iter(self):
		n = self.v.fresh_int("blocks", 0)
		def elem(k):
			self.last = object()
			return self.last
		return n.e, elem

class Found(object):
	vc_ghost = True
	def __init__(self, base):
		self.base, self.added = base, []
	def append(self, b):
		self.added.append(b)

@contract("C03", "reader_all", [M + "RarReader.read_all", M + "RarReader.list_files"],
	iters=200, note="any number of blocks")
def everything(v):
	"""Every block once and in order, from the first one whatever was read before; again the
	same list the next time."""
	m = v.mod("rescene.rar")
	if not v.symbolic:
		import struct as st
		names = ["f%d" % i for i in range(v.int("files", 0, 4))]
		def hdr(t, fl, b):
			return st.pack("<HBHH", 1, t, fl, 7 + len(b)) + b
		data = MARKER + hdr(0x73, 0, bytes(6))
		for x in names:
			k = v.int("size", 0, 9)
			data += hdr(0x74, 0x8000, st.pack("<IIBIIBBHI", k, k, 2, 0, 0, 20, 0x30, len(x), 0)
				+ x.encode()) + bytes(k)
		if v.bool("ends"):
			data += hdr(0x7b, 0x4000, b"") + v.bytes("padding", 0, 20)
		r = m.RarReader(v.path("x.rar", data))
		want = [(b.rawtype, b.block_bytes()) for b in m.RarReader(v.path("x.rar", data))]
		for _ in range(v.int("read-before", 0, 9)):
			try:
				next(r)
			except StopIteration:
				break
		out = v.call(r.read_all)
		v.expect("reads", out)
		v.check_eq("all-blocks", [(b.rawtype, b.block_bytes()) for b in out.value], want)
		v.check("kept", r.read_all() is out.value)
		v.check_eq("names", r.list_files(), names)
		v.check_eq("walked-again", [(b.rawtype, b.block_bytes()) for b in r], want)
		v.check_eq("and-again", [(b.rawtype, b.block_bytes()) for b in r], want)
		return
	srr = bool(v.bool("srr"))
	content = v.bytes("content", 20, None)
	p = v.int("p", 0)
	seen = bool(v.bool("end-seen"))
	r = reader(v, m, content, p, 1 if srr else 0, seen, bool(v.bool("removed")))
	first = v.int("first", 0)
	v.assume(p >= first)
	r._initial_offset = first
	chain = Chain(v)
	def begin(self):
		v.check("from-the-first-block", self._rarstream.tell() == first)
		v.check("nothing-remembered", not self._rar_end_block_encountered)
		if srr:
			v.check("recovery-state-of-a-new-reader", self.recovery_blocks_removed is True)
		return chain.vc_iter()
	v.patch(m.RarReader, "vc_iter", begin)
	def plain(self):
		raise Unsupported("the blocks without a loop contract")
	v.stub(M + "RarReader.__iter__", plain)
	v.stub(M + "RarReader.__next__", plain)
	g = type("G", (), {})()
	class Blocks(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":none-yet", len(r._found_blocks) == 0)
			else:
				b = r._found_blocks
				v.check(name + ":this-block-behind-the-others", b is g.found and
					len(b.added) == 1 and b.added[0] is chain.last)
		def havoc(self, v, L):
			g.found = r._found_blocks = Found(L)
		def frame(self, v, L):
			return [(r, "_found_blocks"), (r, "_current_index")]
	v.loop(M + "RarReader.read_all", 0, Blocks())
	out = v.call(r.read_all)
	v.expect("reads", out)
	v.check("the-blocks", out.value is g.found and not g.found.added)
	again = v.call(r.read_all)
	v.check("kept", again.ok and again.value is g.found)
