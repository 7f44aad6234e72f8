"""C22: archived file times and compact unicode names."""
import struct
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.values import SymBytes, SymReal, PFun, PSlice, ze, mk, zx, mkz

M = "rescene.rar."

def dos(x):
	"""spec: fields of a DOS date and time"""
	return (x // 2 ** 25 % 128 + 1980, x // 2 ** 21 % 16, x // 2 ** 16 % 32,
		x // 2 ** 11 % 32, x // 32 % 64, x % 32 * 2)

def le(b, off, n):
	return sum(b[off + i] * 256 ** i for i in range(n))

@contract("C22", "dos_time", [M + "_parse_dos_time"])
def dostime(v):
	"""Every 32 bit stamp."""
	m = v.mod("rescene.rar")
	x = v.int("stamp", 0, 2 ** 32 - 1)
	out = v.call(m._parse_dos_time, x)
	v.expect("decodes", out)
	for n, a, b in zip(("year", "month", "day", "hour", "minute", "second"), out.value,
			dos(x)):
		v.check(n, a == b)
	v.check("six-fields", len(out.value) == 6)

@contract("C22", "dos_time_inverts_encoding", [M + "_parse_dos_time"])
def dostime2(v):
	"""Every date: encoding followed by decoding is the identity."""
	m = v.mod("rescene.rar")
	f = (v.int("year", 1980, 2107), v.int("month", 0, 15), v.int("day", 0, 31),
		v.int("hour", 0, 31), v.int("minute", 0, 63), v.int("half", 0, 31) * 2)
	y, mo, d, h, mi, s = f
	x = (y - 1980) * 2 ** 25 + mo * 2 ** 21 + d * 2 ** 16 + h * 2 ** 11 + mi * 32 + s // 2
	got = m._parse_dos_time(x)
	for a, b in zip(got, f):
		v.check("field", a == b)

def seconds(v, name, got, base, odd, rem):
	"""got == base + odd + rem * 100 ns"""
	want = base + odd
	if v.symbolic:
		v.check(name, (got - want) * 10 ** 7 == rem)
	else:
		v.check(name, round((got - want) * 10 ** 7) == rem)

@contract("C22", "extended_time_field", [M + "_parse_xtime"])
def xtime(v):
	"""Every nibble, data and position: one time field of the extended times."""
	m = v.mod("rescene.rar")
	flag = v.int("flag", 0, 2 ** 16 - 1)
	data = v.bytes("data", 0, None, cap=20)
	pos = v.int("pos", 0, None if v.symbolic else 20)
	given = v.bool("given")
	base = dos(v.int("stamp", 0, 2 ** 32 - 1)) if given else None
	v.stub(M + "_parse_dos_time", dos)      # its contract: dos_time
	out = v.call(m._parse_xtime, flag, data, pos, base)
	present = flag // 8 % 2 == 1
	n = flag % 4
	if v.symbolic:
		n = int(n)
	if not present:
		v.expect("absent", out)
		v.check("absent-consumes-nothing", out.value[1] == pos)
		v.check("absent-keeps-the-dos-time", out.value[0] is base)
		return
	need = n + (0 if given else 4)
	if not out.ok:
		v.expect("only-cut-short", out, struct.error)
		v.check("cut-short", v.And(need > 0, pos + need > v.len(data)))
		return
	v.check("complete", v.Or(need == 0, pos + need <= v.len(data)))
	got, p = out.value
	v.check("consumed", p == pos + need)
	if given:
		want = base
		q = pos
	else:
		want = dos(le(data, pos, 4))
		q = pos + 4
	# the n bytes are the high bytes of a 24 bit number
	rem = 0
	for i in range(n):
		rem = rem + data[q + i] * 256 ** (3 - n + i)
	for k in range(5):
		v.check("field-%d" % k, got[k] == want[k])
	seconds(v, "second", got[5], want[5], flag // 4 % 2, rem)

@contract("C22", "extended_times", [M + "_parse_ext_time"])
def exttime(v):
	"""The four fields: order, nibbles, positions.  _parse_xtime by contract."""
	m = v.mod("rescene.rar")
	data = v.bytes("data", 0, None, cap=24)
	pos = v.int("pos", 0, None if v.symbolic else 24)
	class Block(object):
		pass
	b = Block()
	b._rawdata = data
	b.file_datetime = dos(v.int("stamp", 0, 2 ** 32 - 1))
	calls = []
	if v.symbolic:
		def stub(flag, d, p, dostime=None):
			r = (object(), p + v.fresh_int("used", 0, 7))
			calls.append((flag, d, p, dostime, r))
			return r
		v.stub(M + "_parse_xtime", stub)
	out = v.call(m._parse_ext_time, b, pos)
	has = pos + 2 <= v.len(data)
	if v.symbolic:
		has = bool(has)
	flags = le(data, pos, 2) if has else 0
	p = pos + 2 if has else pos
	if not v.symbolic:
		ref = v.mod("rescene.rar")._parse_xtime
		res = []
		try:
			for i, dt in enumerate((b.file_datetime, None, None, None)):
				t, p = ref(flags >> 4 * (3 - i), data, p, dt)
				res.append(t)
		except struct.error:
			v.check("error", not out.ok)
			return
		v.expect("parsed", out)
		v.check_eq("times", [b.mtime, b.ctime, b.atime, b.arctime], res)
		v.check_eq("end", out.value, p)
		return
	v.expect("parsed", out)
	v.check("four-fields", len(calls) == 4)
	for i, (flag, d, q, dt, r) in enumerate(calls):
		v.check("nibble-%d" % i, flag % 16 == flags // 16 ** (3 - i) % 16)
		v.check("data", d is data)
		v.check("follows-previous-%d" % i, q == p)
		v.check("dos-time-for-mtime-only", dt is (b.file_datetime if i == 0 else None))
		v.check("result-%d" % i, (b.mtime, b.ctime, b.atime, b.arctime)[i] is r[0])
		p = r[1]
	v.check("end", out.value == p)

# -- unicode names ------------------------------------------------------------------
def decode_spec(std, enc):
	"""RAR's compact unicode encoding; IndexError when it is cut short."""
	hi, e, fl, bits, out = enc[0], 1, 0, 0, []
	while e < len(enc):
		if not bits:
			fl, bits, e = enc[e], 8, e + 1
		bits -= 2
		t = fl >> bits & 3
		if t < 2:
			out += [enc[e], hi if t else 0]
			e += 1
		elif t == 2:
			if e + 1 >= len(enc):
				raise IndexError()
			out += [enc[e], enc[e + 1]]
			e += 2
		else:
			n = enc[e]
			e += 1
			if n & 0x80:
				c = enc[e]
				e += 1
			for _ in range((n & 0x7f) + 2):
				s = std[len(out) // 2]
				out += [s + c & 255, hi] if n & 0x80 else [s, 0]
	return bytes(out).decode("utf-16le", "replace")

class Decode(LoopSpec):
	"""Every iteration performs exactly one operation of the encoding."""
	def __init__(self, std, enc):
		self.std, self.enc, self.first = std, enc, True
	def start(self, v, L):
		u = L["self"]
		v.check("starts-empty", v.And(v.len(u.buf) == 0, u.pos == 0, u.encpos == 1,
			L["flagbits"] == 0, L["hi"] == self.enc[0]))
		self.hi = L["hi"]
	def inv(self, v, L, name):
		u = L["self"]
		if self.first:
			self.first = False
			return
		enc, e, fl, fb = self.enc, self.e, self.fl, self.fb
		if fb == 0:
			fl, fb, e = enc[e], 8, e + 1
		fb -= 2
		v.check(name + ":two-flag-bits-used", L["flagbits"] == fb)
		v.check(name + ":flags", v.Or(fb == 0, L["flags"] == fl))
		t = fl // 2 ** fb % 4
		cnt = 1
		hi = self.hi
		if t == 0:
			new, e = [enc[e], 0], e + 1
		elif t == 1:
			new, e = [enc[e], hi], e + 1
		elif t == 2:
			new, e = [enc[e], enc[e + 1]], e + 2
		else:
			n = enc[e]
			cnt = n % 128 + 2
			cor = n >= 128
			new = run(self, v, bool(cor), cnt)
			e = e + (2 if cor else 1)
		if isinstance(new, list):
			from pyvc.models import vc_bytes
			new = vc_bytes(new)
		v.check(name + ":consumed", u.encpos == e)
		v.check(name + ":one-character-each", u.pos == self.p + cnt)
		v.check(name + ":appended", (self.buf + new).goal_eq(u.buf))
	def havoc(self, v, L):
		u = L["self"]
		self.fb = 2 * v.ctx.choose(4)
		self.fl = v.fresh_int("flags", 0, 255)
		self.e = v.fresh_int("encpos", 1)
		self.p = v.fresh_int("pos", 0)
		self.buf = v.fresh_bytes("buf", self.p * 2)
		L["flagbits"], L["flags"] = self.fb, self.fl
		u.encpos, u.pos = self.e, self.p
		u.buf = SymBytes(list(self.buf.p), True)
	def frame(self, v, L):
		u = L["self"]
		return [(u, "pos"), (u, "encpos"), (u, "buf")]
	def variant(self, v, L):
		return v.len(self.enc) - L["self"].encpos + 1

def run(o, v, corrected, cnt):
	"""spec: bytes of `cnt` characters taken from the plain name"""
	std, hi, p = o.std, o.hi, o.p
	base = o.e0 if False else None
	def at(k):
		j = k / 2
		s = std.at(z3.simplify(ze(p) + j))
		if corrected:
			lo, up = (s + ze(o.c)) % 256, ze(hi)
		else:
			lo, up = s, z3.IntVal(0)
		return z3.If(k % 2 == 0, lo, up)
	if corrected:
		e = o.e + (1 if o.fb == 0 else 0)
		o.c = o.enc[e + 1]
	return SymBytes([PFun(("run", corrected), at, mkz(zx(mk(ze(cnt) * 2))))])

class Run(LoopSpec):
	def __init__(self, outer, corrected):
		self.o, self.cor = outer, corrected
	def start(self, v, L):
		u = L["self"]
		self.buf = SymBytes(list(u.buf.p))
		self.p = u.pos
	def inv(self, v, L, name):
		u = L["self"]
		v.check(name + ":position", u.pos == self.p + L.k)
		v.check(name + ":characters", (self.buf + run(self.o, v, self.cor, L.k))
			.goal_eq(u.buf))
	def havoc(self, v, L):
		u = L["self"]
		u.pos = self.p + L.k
		u.buf = SymBytes(list((self.buf + run(self.o, v, self.cor, L.k)).p), True)
	def frame(self, v, L):
		u = L["self"]
		return [(u, "pos"), (u, "buf")]

@contract("C22", "unicode_name_decoder", [M + "UnicodeFilename.decode",
	M + "UnicodeFilename.enc_byte", M + "UnicodeFilename.std_byte",
	M + "UnicodeFilename.put"], budget=120,
	note="every operation of the encoding appends exactly its characters; any name length")
def uniname(v):
	m = v.mod("rescene.rar")
	std = v.bytes("std", 0, None, cap=60)
	enc = v.bytes("enc", 0, None, cap=60)
	u = m.UnicodeFilename(std, enc)
	D = Decode(std, enc)
	if v.symbolic:
		v.loop(M + "UnicodeFilename.decode", 0, D)
		v.loop(M + "UnicodeFilename.decode", 1, Run(D, True))
		v.loop(M + "UnicodeFilename.decode", 2, Run(D, False))
	out = v.call(u.decode)
	v.expect("only-cut-short", out, IndexError)
	if not v.symbolic:
		try:
			want = decode_spec(std, enc)
		except IndexError:
			v.check("cut-short-is-reported", not out.ok)
			return
		v.expect("decodes", out)
		v.check_eq("name", out.value, want)
		return
	if out.ok:
		t = out.value.term
		v.check("utf-16", t[0] == "decode" and t[1] == "utf-16le" and t[2] == "replace")
		v.check("all-of-it", out.value.src.key() == u.buf.key())
		v.check("stream-used-up", u.encpos >= v.len(enc))
	else:
		v.check("cut-short", v.Or(u.encpos >= v.len(enc), u.pos >= v.len(std)))
