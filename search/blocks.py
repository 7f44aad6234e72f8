"""C03: bounded search over valid, huge (sparse) and damaged RAR / SRR files."""
import io, os, struct, zlib
from pyvc.registry import search
from gen import rargen as g
from search.rebuild import describe

KNOWN = {0x69, 0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79,
	0x7a, 0x7b}

def is_rr(t, h):
	return t == 0x78 or (t == 0x7a and len(h) > 34 and h[26:28] == b"\x02\x00" and
		h[32:34] == b"RR")

def walk(size, get, srr):
	"""Independent block walk: yields (pos, type, header, bytes present behind the
	header); ends with None at the end or an error text."""
	p = 0
	removed = True
	end = False
	while True:
		if p == size:
			yield None
			return
		if end and not srr and p < size:
			yield (p, 0x6c, b"", size - p)
			yield None
			return
		if p + 7 > size:
			yield "cut" if p > size else "short"
			return
		h = get(p, 7)
		c, t, fl, hs = struct.unpack("<HBHH", h)
		if t == 0x7b:
			end = True
		if hs < 7 or p + hs > size:
			yield "size"
			return
		h = get(p, hs)
		add = 0
		if hs > 7 and (fl & 0x8000 or t in (0x74, 0x7a)):
			if hs < 11:
				yield "field"
				return
			add = struct.unpack_from("<I", h, 7)[0]
		if srr and t == 0x71:
			removed = fl & 1
		present = add
		if t == 0x74:
			if srr:
				present = 0
			else:
				if fl & 0x100 and hs >= 40:
					add |= struct.unpack_from("<I", h, 32)[0] << 32
				present = add
		elif srr and is_rr(t, h) and removed:
			present = 0
		yield (p, t, h, present)
		p += hs + present

def reader_steps(m, path, s, limit, **kw):
	"""Runs the real reader step by step."""
	rr = m.RarReader(path, **kw)
	out = []
	while True:
		try:
			b = next(rr)
		except StopIteration:
			out.append(None)
			break
		except (EnvironmentError, ValueError) as e:
			out.append("%s: %s" % (type(e).__name__, e))
			break
		out.append(b)
		if len(out) > limit:
			s.violate("iteration-ends", "more than %d blocks" % limit)
	rr.close()
	return out

def compare(s, m, data_size, get, path, srr, strict, **kw):
	steps = list(walk(data_size, get, srr))
	got = reader_steps(m, path, s, data_size // 7 + 3, **kw)
	pos = 0
	for i, b in enumerate(got):
		w = steps[i] if i < len(steps) else "missing"
		if b is None:
			if w is not None and w != "cut":
				s.violate("nothing-lost", "the reader stops after %d blocks, expected %r"
					% (i, w if isinstance(w, str) else w[:2]))
			return
		if isinstance(b, str):
			if strict:
				s.violate("valid-file-is-read", "block %d: %s" % (i, b))
			return
		if w is None or isinstance(w, str):
			s.violate("nothing-invented", "block %d (%#x) where the file has %r" % (i,
				b.rawtype, w))
		p, t, h, present = w
		if t == 0x6c and h == b"":
			pad = get(p, present)
			if b.rawtype != 0x6c or b.block_bytes()[b.header_size:] != pad or \
					b.padding_size != len(pad) or b.block_position != p:
				s.violate("padding-kept", "padding of %d bytes at %d" % (len(pad), p))
			continue
		if b.rawtype != t or b.header_size != len(h) or b.block_position != p:
			s.violate("block-starts-where-the-previous-ended", "block %d: type %#x at %r "
				"size %r, expected %#x at %d size %d" % (i, b.rawtype, b.block_position,
				b.header_size, t, p, len(h)))
		if b.crc != struct.unpack_from("<H", h)[0] or b.flags != struct.unpack_from("<H",
				h, 3)[0]:
			s.violate("basic-fields", "block %d" % i)
		raw = b.block_bytes()
		if raw[:len(h)] != h:
			s.violate("header-bytes", "block %d at %d" % (i, p))
		body = raw[len(h):]
		if t in (0x74, 0x6a) or is_rr(t, h):
			if body:
				s.violate("no-data-in-header", "block %d" % i)
		elif body != get(p + len(h), len(body)) or len(body) != min(present,
				data_size - p - len(h)):
			s.violate("data-kept", "block %d at %d: %d bytes, present %d" % (i, p,
				len(body), present))
		fields(s, b, t, h, i)
	s.violate("reader-ends", "no end")

def fields(s, b, t, h, i):
	if len(h) == 7:
		return
	try:
		if t == 0x74 or t == 0x7a:
			(pk, un, osn, crc, tm, ver, meth, nl, attr) = struct.unpack_from("<IIBIIBBHI",
				h, 7)
			fl = struct.unpack_from("<H", h, 3)[0]
			if fl & 0x100:
				hp, hu = struct.unpack_from("<II", h, 32)
				pk |= hp << 32
				un |= hu << 32
			got = (b.packed_size, b.unpacked_size, b.os, b.file_crc, b.rar_version,
				b.compression_method, b.file_attributes)
			if got != (pk, un, osn, crc, ver, meth, attr):
				s.violate("file-fields", "block %d: %r expected %r" % (i, got, (pk, un, osn,
					crc, ver, meth, attr)))
			if b.add_size != pk:
				s.violate("add-size", "block %d" % i)
		elif t == 0x78:
			pk, ver, rs, ds = struct.unpack_from("<IBHI", h, 7)
			if (b.packed_size, b.recovery_sectors, b.data_sectors) != (pk, rs, ds):
				s.violate("recovery-fields", "block %d" % i)
		elif t == 0x6a:
			sz, n = struct.unpack_from("<IH", h, 7)
			if b.file_size != sz or b.file_name.encode("utf-8") != h[13:13 + n]:
				s.violate("stored-fields", "block %d" % i)
		elif t == 0x71:
			n = struct.unpack_from("<H", h, 7)[0]
			if b.file_name.encode("utf-8") != h[9:9 + n]:
				s.violate("rar-name", "block %d" % i)
		elif t == 0x73:
			if (b.reserved1, b.reserved2) != struct.unpack_from("<HL", h, 7):
				s.violate("head-fields", "block %d" % i)
	except struct.error:
		pass

def small_srr(r, rs):
	out = g.srr_header(r.choice(("", "app", "ReScene é")))
	for i in range(r.randint(0, 3)):
		out += g.srr_stored(r.choice(("a.nfo", "Sample/x.srs", "漢.sfv", "p/q/r.txt")),
			r.randbytes(r.choice((0, 1, 10, 300))))
	keep = r.random() < 0.3
	for v in rs.vols:
		if keep:
			out += g.srr_rar(v.name, 0)
			for kind, off, h, n in v.blocks:
				if kind == "pad":
					out += b"\x6c\x6c\x6c\x00\x80\x0b\x00" + struct.pack("<I", len(h)) + h
				elif kind == "file":
					out += h
				else:
					out += v.data[off:off + len(h) + n]
		else:
			out += g.srr_rar(v.name) + v.srr
	if r.random() < 0.5:
		out += g.srr_oso("f.avi", r.getrandbits(40), r.getrandbits(64))
	return out

def getter(data):
	return lambda p, n: data[p:p + n]

def again(s, m, r, path, **kw):
	"""The same blocks are read whatever was read before."""
	want = [(b.rawtype, b.block_bytes()) for b in m.RarReader(path, **kw)]
	rr = m.RarReader(path, **kw)
	steps = []
	for _ in range(r.randint(1, 3)):
		k = r.choice((1, 2, len(want) - 1, len(want), None, "all") if not steps else
			(None, None, "all"))
		steps.append(k)
		got = []
		if k == "all":
			got = [(b.rawtype, b.block_bytes()) for b in rr.read_all()]
		elif k is None:
			got = [(b.rawtype, b.block_bytes()) for b in rr]
		else:
			got = [(b.rawtype, b.block_bytes()) for b in (next(rr, None) for _ in range(k))
				if b is not None]
			if got != want[:k]:
				s.violate("read-again", "%r after %r: types %r, file has %r" % (k, steps,
					[hex(x[0]) for x in got], [hex(x[0]) for x in want]))
			k = "all"
			steps.append(k)
			got = [(b.rawtype, b.block_bytes()) for b in rr.read_all()]
		if got != want:
			s.violate("read-again", "%r: types %r, file has %r" % (steps, [hex(x[0]) for x in
				got], [hex(x[0]) for x in want]))
	rr.close()

def valid(s, r):
	m = s.mod("rescene.rar")
	d = s.dir()
	files = g.random_files(r, maxn=3)
	for f in files:
		f.data = f.data[:r.choice((0, 1, 50, 4000))]
	rs = g.random_set(r, files=files)
	s.note(set=describe(rs))
	v = r.choice(rs.vols)
	p = os.path.join(d, v.name)
	with open(p, "wb") as f:
		f.write(v.data)
	s.seen(("rar", tuple(k for k, _, _, _ in v.blocks)))
	compare(s, m, len(v.data), getter(v.data), p, False, True)
	again(s, m, r, p)
	# the generator's own list of the blocks
	got = [b for b in m.RarReader(p).read_all()]
	want = [(k, off) for k, off, h, n in v.blocks]
	if [b.block_position for b in got if b.rawtype != 0x6c] != [off for k, off in want
			if k != "pad"]:
		s.violate("blocks-of-the-volume", repr(want))
	names = [f.name for i, f in enumerate(rs.files) if any(x[0] == i for x in v.parts)]
	if m.RarReader(p).list_files()[:] and [n for n in m.RarReader(p).list_files()
			if n not in ("RR", "CMT", "AV", "ACL", "STM", "RRX")] != [rs.files[x[0]].name
			for x in v.parts]:
		s.violate("list-files", repr(m.RarReader(p).list_files()))
	# inside a stream
	pre = r.randbytes(r.choice((0, 1, 40)))
	post = r.choice((b"", r.randbytes(30)))
	q = os.path.join(d, "embedded")
	with open(q, "wb") as f:
		f.write(pre + v.data + post)
	with open(q, "rb") as f:
		f.seek(len(pre))
		rr = m.RarReader(f, len(v.data)) if post or r.random() < .5 else m.RarReader(f)
		blocks = rr.read_all()
		a = [(b.rawtype, b.block_bytes()) for b in blocks]
		b2 = [(b.rawtype, b.block_bytes()) for b in got]
		if a != b2:
			s.violate("same-blocks-inside-a-stream", "prefix %d suffix %d: %r vs %r" % (
				len(pre), len(post), [x[0] for x in a], [x[0] for x in b2]))
	if v.blocks[-1][0] != "pad":      # padding is a matter of plain volumes
		sfx = b"MZ" + bytes(x & 0x51 for x in r.randbytes(r.choice((30, 5000))))
		with open(q, "wb") as f:
			f.write(sfx + v.data)
		b3 = [(b.rawtype, b.block_bytes()) for b in m.RarReader(q, enable_sfx=True).read_all()]
		if b3 != b2:
			s.violate("same-blocks-behind-sfx", "%r" % [x[0] for x in b3])
	data = small_srr(r, rs)
	p = os.path.join(d, "x.srr")
	with open(p, "wb") as f:
		f.write(data)
	s.note(srr=data)
	compare(s, m, len(data), getter(data), p, True, True)
	again(s, m, r, p)

def sparse(s, r):
	"""files beyond 4 GiB"""
	m = s.mod("rescene.rar")
	d = s.dir()
	p = os.path.join(d, "big.rar")
	segs = []
	pos = 0
	def put(b):
		nonlocal pos
		segs.append((pos, b))
		pos += len(b)
	put(g.MARK)
	put(g.hdr(0x73, 1, bytes(6)))
	for i in range(r.randint(1, 3)):
		n = r.choice((2 ** 32, 2 ** 32 + 5, 2 ** 33 - 1, 2 ** 32 - 1, 7, 3 * 2 ** 32, 2 ** 31))
		f = g.F("big%d.iso" % i, large=n >= 2 ** 32 or r.random() < .5)
		put(g.file_header(f, n, r.choice((n, n * 2, 2 ** 64 - 1 if f.large else n)),
			r.getrandbits(32), r.choice((0, 2))))
		pos += n
	put(g.hdr(0x7b, 0x4000, b""))
	with open(p, "wb") as f:
		for q, b in segs:
			f.seek(q)
			f.write(b)
		f.truncate(pos)
	s.note(segments=[(q, b) for q, b in segs], size=pos)
	f = open(p, "rb")
	def get(a, n):
		f.seek(a)
		return f.read(n)
	compare(s, m, pos, get, p, False, True) if pos < 2 ** 36 else None
	f.close()
	os.unlink(p)
	data = g.srr_header("x") + g.srr_rar("big.rar") + b"".join(b for _, b in segs)
	p = os.path.join(d, "big.srr")
	with open(p, "wb") as h:
		h.write(data)
	compare(s, m, len(data), getter(data), p, True, True)
	s.count("sparse files")

def damage(r, data):
	b = bytearray(data)
	for _ in range(r.choice((1, 1, 2, 4))):
		k = r.random()
		if not b:
			break
		i = r.randrange(len(b))
		if k < 0.3:
			b[i] = r.getrandbits(8)
		elif k < 0.45:
			del b[i:]
		elif k < 0.6:
			n = r.choice((2, 4))
			b[i:i + n] = r.choice((b"\0" * n, b"\xff" * n, r.randbytes(n)))
		elif k < 0.7:
			b[i:i] = r.randbytes(r.randint(1, 9))
		elif k < 0.8:
			del b[i:i + r.randint(1, 9)]
		elif k < 0.9:
			j = r.randrange(len(b))
			b[i:i + 16] = b[j:j + 16]
		else:
			b[i:i + 7] = g.hdr(r.choice(sorted(KNOWN)), r.choice((0, 0x8000, 0x8100, 0x9000,
				0x8200, 0x8400)), r.randbytes(r.choice((0, 2, 4, 25, 33))))
	return bytes(b)

def damaged(s, r):
	m = s.mod("rescene.rar")
	d = s.dir()
	files = g.random_files(r, maxn=2)
	for f in files:
		f.data = f.data[:r.choice((0, 1, 60))]
	rs = g.random_set(r, files=files)
	srr = r.random() < 0.5
	base = small_srr(r, rs) if srr else r.choice(rs.vols).data
	for _ in range(12):
		data = damage(r, base)
		p = os.path.join(d, "d.bin")
		with open(p, "wb") as f:
			f.write(data)
		s.note(data=data)
		s.count("damaged files")
		try:
			rr = m.RarReader(p)
		except (ValueError, EnvironmentError):
			continue
		mode = rr.file_type()
		rr.close()
		compare(s, m, len(data), getter(data), p, mode == m.RarReader.SRR, False)

def crafted(s, r):
	"""one block of every type with every kind of header length and flags"""
	m = s.mod("rescene.rar")
	d = s.dir()
	srr = r.random() < 0.5
	data = g.srr_header("") + g.srr_rar("a.rar", r.getrandbits(1)) if srr else b""
	data += g.MARK + g.hdr(0x73, 0, bytes(6))
	for _ in range(r.randint(1, 4)):
		t = r.choice(sorted(KNOWN - {0x7b} if not srr else KNOWN) + [0, 0x60, 0x80, 0xff])
		fl = r.choice((0, 0x8000, 0x8100, 0xc000, 0x9000, 0x8200, 0x8400, 0x81e0))
		n = r.choice((0, 1, 2, 3, 4, 5, 6, 12, 15, 19, 25, 26, 33, 40, 60))
		body = bytearray(r.randbytes(n))
		k = r.choice((0, 0, 1, 30))
		if n >= 4:
			body[:4] = struct.pack("<I", k)
		if n >= 21:
			body[19:21] = struct.pack("<H", r.choice((0, 1, 2, 2, 5, 70)))
			if r.random() < .5:
				body[25:27] = b"RR"
		data += g.hdr(t, fl, bytes(body)) + r.randbytes(k)
	data += bytes(r.choice((0, 0, 3, 20)))
	p = os.path.join(d, "c.bin")
	with open(p, "wb") as f:
		f.write(data)
	s.note(data=data)
	s.count("crafted files")
	try:
		rr = m.RarReader(p)
	except (ValueError, EnvironmentError):
		return
	rr.close()
	compare(s, m, len(data), getter(data), p, srr, False)

@search("C03", "block_walk", "generated volumes and SRR files of up to ~30 blocks, sparse files up "
	"to 36 GiB, up to 4 damages per file; compared with an independent block walk")
def run(s):
	r = s.rng
	n = 0
	while s.more():
		n += 1
		fn = (valid, damaged, crafted, damaged, crafted, valid, sparse if n % 5 == 0 else crafted)[n % 7]
		s.case(lambda: fn(s, r))
