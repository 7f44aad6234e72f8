"""Independent generator of RAR 2.9 style volumes, their SRR and the oracle
values.  Written from the RAR technical note; imports nothing from /repo."""
import os, struct, zlib

MARK = b"\x52\x61\x72\x21\x1a\x07\x00"
OLD, NEW, NUM = "old", "new", "num"

def crc(d, v=0):
	return zlib.crc32(d, v) & 0xffffffff

def hdr(btype, flags, body):
	"""A RAR block header with its CRC."""
	h = struct.pack("<BHH", btype, flags, 7 + len(body)) + body
	return struct.pack("<H", crc(h) & 0xffff) + h

def dos(t):
	y, mo, d, h, mi, s = t
	return (y - 1980) << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | s // 2

def rr_data(data, rs, newstyle=True):
	"""Recovery data for `data` with rs recovery sectors: the sector checksums
	followed by the parity sectors."""
	n = (len(data) + 511) // 512
	d = data + bytes(n * 512 - len(data))
	sums = b""
	par = [0] * rs
	for i in range(n):
		s = d[i * 512:i * 512 + 512]
		sums += struct.pack("<H", ~crc(s) & 0xffff)
		par[i % rs] ^= int.from_bytes(s, "little")
	return n, sums + b"".join(p.to_bytes(512, "little") for p in par)

def new_rr(prefix, rs, host=2):
	n, data = rr_data(prefix, rs)
	name = b"RR"
	fcrc = crc(data, 0xf0000000)
	body = struct.pack("<IIBIIBBHI", len(data), len(data), host, fcrc, 0, 29, 0x30,
		len(name), 0) + name + b"Protect+" + struct.pack("<IQ", rs, n)
	return hdr(0x7a, 0x8000 | 0x4000, body), data

def old_rr(prefix, rs):
	n, data = rr_data(prefix, rs)
	body = struct.pack("<IBHI", len(data), 20, rs, n) + b"Protect!"
	return hdr(0x78, 0x8000 | 0x4000, body), data

def ext_time(e):
	"""e: four entries (m, c, a, arc): None or (dosbase or None, odd, remainder
	bytes).  Returns the encoded field."""
	flags, body = 0, b""
	for i, x in enumerate(e):
		sh = (3 - i) * 4
		if x is None:
			continue
		base, odd, rem = x
		flags |= (8 | (4 if odd else 0) | len(rem)) << sh
		if i:
			body += struct.pack("<L", base)
		body += rem
	return struct.pack("<H", flags) + body

class F(object):
	"""An archived file."""
	def __init__(self, name, data=b"", isdir=False, large=False, salt=None, ext=None,
			uni=None, time=(2009, 3, 7, 21, 14, 36), host=2, attr=0x20, method=0x30,
			ver=20, bad_crc=False, flags=0):
		self.__dict__.update(locals())

def file_header(f, packed, unpacked, fcrc, flags):
	flags |= 0x8000 | f.flags
	if f.isdir:
		flags |= 0xe0
	nm = f.name if isinstance(f.name, bytes) else f.name.encode("ascii")
	if f.uni is not None:
		flags |= 0x200
		nm = f.uni
	if f.large:
		flags |= 0x100
	if f.salt is not None:
		flags |= 0x400
	if f.ext is not None:
		flags |= 0x1000
	body = struct.pack("<IIBIIBBHI", packed & 0xffffffff, unpacked & 0xffffffff, f.host,
		fcrc, dos(f.time), f.ver, f.method, len(nm), f.attr)
	if f.large:
		body += struct.pack("<II", packed >> 32, unpacked >> 32)
	body += nm
	if f.salt is not None:
		body += f.salt
	if f.ext is not None:
		body += ext_time(f.ext)
	return hdr(0x74, flags, body)

def vol_name(base, style, i, width=2):
	if style == OLD:
		if i == 0:
			return base + ".rar"
		i -= 1
		return base + ".%s%02d" % (chr(ord("r") + i // 100), i % 100)
	if style == NEW:
		return base + ".part%0*d.rar" % (width, i + 1)
	return base + ".%03d" % (i + 1)

class Vol(object):
	"""One volume: name, bytes and the SRR image of its blocks."""
	def __init__(self, name):
		self.name, self.data, self.srr, self.blocks = name, b"", b"", []
		self.parts = []       # (file index, offset of data in volume, length)
	def put(self, header, data=b"", keep_data=True, kind=""):
		self.blocks.append((kind, len(self.data), header, len(data)))
		self.data += header + data
		self.srr += header + (data if keep_data else b"")

class RarSet(object):
	def __init__(self, base="grp-rel", files=(), volsize=0, style=OLD, width=2, rr=0,
			rrkind="new", end="full", padding=None, cmt=None, sub=None, first_flag=True,
			locator=None, avol=None, newnum=None, reserved=(0, 0), between=None,
			extra_head=b"", sfx=b""):
		self.files = list(files)
		self.vols = []
		self.style = style
		self.o = dict(locals())
		self.build()
	def build(self):
		o = self.o
		style = o["style"]
		multi = o["volsize"] > 0
		queue = [(i, 0) for i in range(len(self.files))]
		ext = False
		n = 0
		while queue or n == 0:
			v = Vol(vol_name(o["base"], style, n, o["width"]))
			if o["sfx"]:
				v.data = o["sfx"]
			v.put(MARK, kind="mark")
			fl = 0
			if multi:
				fl |= 1
			if (style == NEW) if o["newnum"] is None else o["newnum"]:
				fl |= 0x10
			if n == 0 and o["first_flag"]:
				fl |= 0x100
			if o["rr"]:
				fl |= 0x40
			v.put(hdr(0x73, fl, struct.pack("<HL", *o["reserved"]) + o["extra_head"]),
				kind="head")
			if o["cmt"] and n == 0:
				body = struct.pack("<IIBIIBBHI", len(o["cmt"]), len(o["cmt"]) + 3, 2,
					crc(o["cmt"]), 0, 29, 0x33, 3, 0) + b"CMT"
				v.put(hdr(0x7a, 0x8000, body), o["cmt"], kind="cmt")
			if o["between"]:
				for h, d in o["between"]:
					v.put(h, d, kind="other")
			room = o["volsize"] if multi else None
			while queue:
				i, off = queue[0]
				f = self.files[i]
				left = len(f.data) - off
				take = left if room is None else min(left, room)
				if room is not None and room <= 0 and left > 0:
					break
				last = off + take == len(f.data)
				part = f.data[off:off + take]
				c = crc(f.data) if last else crc(part)
				if f.bad_crc:
					c ^= 1
				fl = (1 if off or (f.__dict__.get("cont") == 1) else 0) | (0 if last else 2)
				v.parts.append((i, len(v.data) + len(file_header(f, take, len(f.data), c, fl)),
					take))
				v.put(file_header(f, take, len(f.data), c, fl), part, False, "file")
				if room is not None:
					room -= take
				queue.pop(0)
				if not last:
					queue.insert(0, (i, off + take))
					break
			if o["sub"] and not queue:
				name, d = o["sub"]
				body = struct.pack("<IIBIIBBHI", len(d), len(d), 2, crc(d), 0, 29, 0x30,
					len(name), 0) + name
				v.put(hdr(0x7a, 0x8000, body), d, kind="sub")
			if o["avol"]:
				v.put(hdr(0x79, 0x8000, struct.pack("<I", len(o["avol"]))), o["avol"],
					kind="av")
			if o["rr"]:
				h, d = (new_rr if o["rrkind"] == "new" else old_rr)(v.data, o["rr"])
				v.put(h, d, False, "rr")
			more = bool(queue)
			e = o["end"]
			if e == "full":
				fl = 0x4000 | 2 | 8 | (1 if more else 0)
				body = struct.pack("<IH", crc(v.data), n)
				if e == "full" and o["locator"]:
					fl |= 4
					body += bytes(o["locator"])
				v.put(hdr(0x7b, fl, body), kind="end")
			elif e == "short":
				v.put(hdr(0x7b, 0x4000 | (1 if more else 0), b""), kind="end")
			elif e == "zero":       # cleared end block: zeros but for the size
				v.put(b"\0" * 5 + struct.pack("<H", 20) + b"\0" * 13, kind="end0")
			pad = o["padding"]
			if pad and e in ("full", "short"):
				p = pad if isinstance(pad, bytes) else pad[min(n, len(pad) - 1)]
				if p:
					v.blocks.append(("pad", len(v.data), p, 0))
					v.data += p
					v.srr += b"\x6c\x6c\x6c\x00\x80\x0b\x00" + struct.pack("<I", len(p)) + p
			self.vols.append(v)
			n += 1
	def write(self, d):
		os.makedirs(d, exist_ok=True)
		for v in self.vols:
			with open(os.path.join(d, v.name), "wb") as f:
				f.write(v.data)
		return os.path.join(d, self.vols[0].name)
	def extract(self, d):
		for f in self.files:
			name = f.__dict__.get("uname") or (f.name if isinstance(f.name, str)
				else f.name.decode("ascii"))
			p = os.path.join(d, *name.split("\\"))
			if f.isdir:
				os.makedirs(p, exist_ok=True)
				continue
			os.makedirs(os.path.dirname(p), exist_ok=True)
			with open(p, "wb") as h:
				h.write(f.data)
	def sfv(self):
		return "".join("%s %08x\r\n" % (v.name, crc(v.data)) for v in self.vols)

# -- SRR side --------------------------------------------------------------------
def srr_header(app):
	a = app.encode("utf-8")
	if not a:
		return b"\x69\x69\x69\x00\x00\x07\x00"
	return b"\x69\x69\x69\x01\x00" + struct.pack("<HH", 9 + len(a), len(a)) + a

def srr_stored(name, data):
	n = name.encode("utf-8")
	return b"\x6a\x6a\x6a\x00\x80" + struct.pack("<HIH", 13 + len(n), len(data),
		len(n)) + n + data

def srr_rar(name, flags=1):
	n = name.encode("utf-8")
	return b"\x71\x71\x71" + struct.pack("<HHH", flags, 9 + len(n), len(n)) + n

def srr_oso(name, size, h):
	n = name.encode("utf-8")
	return b"\x6b\x6b\x6b\x00\x00" + struct.pack("<HQQH", 25 + len(n), size, h,
		len(n)) + n

def oso(data):
	"""OSO hash by its definition; None when too small."""
	if len(data) < 65536:
		return None
	s = len(data)
	for part in (data[:65536], data[-65536:]):
		s += sum(struct.unpack("<8192Q", part))
	return s & (2 ** 64 - 1)

def srr_volumes(sets, paths=None):
	out = b""
	for s in sets:
		for v in s.vols:
			out += srr_rar((paths or "") + v.name) + v.srr
	return out

def parse_srr(b):
	"""Splits SRR bytes in blocks: (type, flags, header bytes, data bytes).  The
	data of RAR file and recovery blocks is not there."""
	out = []
	p = 0
	while p < len(b):
		if p + 7 > len(b):
			raise ValueError("short header at %d" % p)
		c, t, fl, hs = struct.unpack_from("<HBHH", b, p)
		if hs < 7 or p + hs > len(b):
			raise ValueError("bad header size %d at %d" % (hs, p))
		h = b[p:p + hs]
		add = 0
		if t == 0x6a or t == 0x6c:
			add = struct.unpack_from("<I", h, 7)[0]
		elif t == 0x74:
			add = 0
		elif fl & 0x8000 or t == 0x7a:
			add = struct.unpack_from("<I", h, 7)[0]
			if t == 0x78 or (t == 0x7a and hs >= 34 and h[26:28] == b"\x02\x00" and
					h[32:34] == b"RR"):
				add = 0
		if p + hs + add > len(b):
			raise ValueError("data past the end at %d" % p)
		out.append((t, fl, h, b[p + hs:p + hs + add]))
		p += hs + add
	return out

def stored_name(h):
	n = struct.unpack_from("<H", h, 11)[0]
	return h[13:13 + n].decode("utf-8")

def rar_name(h):
	n = struct.unpack_from("<H", h, 7)[0]
	return h[9:9 + n].decode("utf-8")

# -- random sets -----------------------------------------------------------------
def rbytes(r, n):
	k = r.random()
	if k < 0.1:
		return bytes(n)
	if k < 0.2:
		return bytes([r.getrandbits(8)]) * n
	if k < 0.3:
		pat = r.randbytes(r.choice((3, 7, 512, 16)))
		return (pat * (n // len(pat) + 1))[:n]
	return r.randbytes(n)

def random_files(r, big=False, maxn=4):
	files = []
	n = r.choice((1, 1, 2, 3, maxn))
	exts = (".avi", ".mkv", ".nfo", ".iso", ".bin", ".sub", "", ".MP4")
	for i in range(n):
		sub = r.choice(("", "", "", "dir\\", "a\\b\\"))
		nm = sub + "f%d%s" % (i, r.choice(exts))
		m = r.random()
		if m < 0.12:
			sz = 0
		elif m < 0.5:
			sz = r.randint(1, 3000)
		elif m < 0.8:
			sz = r.choice((511, 512, 513, 1024, 4096, 65535, 65536, 65537, 131072))
		else:
			sz = r.randint(60000, 300000 if big else 140000)
		f = F(nm, rbytes(r, sz))
		if r.random() < 0.25:
			f.large = True
		if r.random() < 0.25:
			f.ext = rand_ext(r)
		if r.random() < 0.08:
			f.salt = r.randbytes(8)
			f.flags |= 4 if r.random() < 0.3 else 0
		f.host = r.choice((0, 2, 3))
		f.ver = r.choice((20, 29))
		f.attr = r.choice((0x20, 0x81a4, 0xffffffff, 0))
		f.time = rand_time(r)
		if r.random() < 0.1:
			f.uni = (f.name.encode() + b"\0" + enc_unicode(f.name.encode(), f.name))
		files.append(f)
	if r.random() < 0.25:
		files.insert(r.randint(0, len(files)), F("emptydir", b"", isdir=True, attr=0x10))
	return files

def rand_time(r):
	return (r.randint(1980, 2107), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23),
		r.randint(0, 59), r.randrange(0, 60, 2))

def rand_ext(r):
	e = []
	for i in range(4):
		if r.random() < 0.4:
			e.append(None)
		else:
			e.append((dos(rand_time(r)) if i else None, r.random() < 0.5,
				r.randbytes(r.randint(0, 3))))
	return e

def random_set(r, base=None, big=False, files=None):
	files = random_files(r, big) if files is None else files
	total = sum(len(f.data) for f in files)
	style = r.choice((OLD, OLD, NEW, NUM))
	m = r.random()
	if m < 0.3 or not total:
		vs = 0
	else:
		vs = max(1, total // r.randint(1, 7) + r.choice((0, 1, 7)))
		if total // vs > 40:
			vs = total // 40 + 1
	width = r.choice((1, 2, 2, 3))
	rr = r.choice((0, 0, 1, 2, 3, 5, 8))
	if rr and total > 400000:
		rr = 2
	return RarSet(base or r.choice(("grp-rel", "x", "a.b.c-GRP", "Rel.Name.2009-GRP")),
		files, vs, style, width if vs == 0 or total // vs < 9 else max(width, 2), rr,
		r.choice(("new", "old")), r.choice(("full", "full", "short", "none", "zero")),
		r.choice((None, None, [b"\0" * 5, b"", b"x" * 900], b"\0\0", r.randbytes(7),
			r.randbytes(30), b"Rar!\x1a\x07\x00" + bytes(40))),
		cmt=r.choice((None, None, r.randbytes(40), r.randbytes(1))),
		sub=r.choice((None, None, (b"AV", r.randbytes(20)), (b"ACL", r.randbytes(9)),
			(b"STM", b""), (b"RRX", b"abc"))),
		first_flag=r.random() < 0.8,
		locator=r.choice((None, 7)), avol=r.choice((None, None, None, r.randbytes(33))),
		reserved=r.choice(((0, 0), (0, 0), (7, 0xdeadbeef))))

# -- compact unicode names -------------------------------------------------------
def enc_unicode(std, uni, r=None):
	"""RAR's compact encoding of `uni` relative to the byte name `std`.  With a
	random source every applicable form is used."""
	u = uni.encode("utf-16le")
	ch = [u[i] | u[i + 1] << 8 for i in range(0, len(u), 2)]
	hi = 0
	if ch:
		his = sorted(c >> 8 for c in ch)
		hi = his[len(his) // 2] if r is None else r.choice(his)
	items = []
	i = 0
	while i < len(ch):
		c = ch[i]
		forms = []
		if c < 256:
			forms.append(0)
		if c >> 8 == hi:
			forms.append(1)
		forms.append(2)
		k = 0
		while i + k < len(ch) and i + k < len(std) and ch[i + k] == std[i + k] and k < 129:
			k += 1
		if k >= 2:
			forms.append(3)
		k2 = 0
		d = None
		while i + k2 < len(ch) and i + k2 < len(std) and ch[i + k2] >> 8 == hi and k2 < 129:
			dd = (ch[i + k2] - std[i + k2]) & 255
			if d is None:
				d = dd
			if dd != d:
				break
			k2 += 1
		if k2 >= 2:
			forms.append(4)
		if r is None:
			f = 3 if 3 in forms else (1 if 1 in forms and hi else (0 if 0 in forms else
				forms[0]))
		else:
			f = r.choice(forms)
		if f == 0:
			items.append((0, bytes([c])))
		elif f == 1:
			items.append((1, bytes([c & 255])))
		elif f == 2:
			items.append((2, bytes([c & 255, c >> 8])))
		elif f == 3:
			n = k if r is None else r.randint(2, k)
			items.append((3, bytes([n - 2])))
			i += n - 1
		else:
			n = k2 if r is None else r.randint(2, k2)
			items.append((3, bytes([0x80 | n - 2, d])))
			i += n - 1
		i += 1
	out = bytearray([hi])
	for j in range(0, len(items), 4):
		g = items[j:j + 4]
		fl = 0
		for q in range(4):
			fl = fl << 2 | (g[q][0] if q < len(g) else 0)
		out.append(fl)
		for q in g:
			out += q[1]
	return bytes(out)
