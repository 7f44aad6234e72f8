"""C07, C08, C09, C10: bounded searches over volumes and packed data."""
import io, os, shutil
from pyvc.registry import search
from gen import rargen as g
from search.rebuild import describe, tree

def first_diff(a, b):
	return next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))

# -- C07 -------------------------------------------------------------------------
def empty_part_set(r):
	"""A set in which some volumes hold an empty part of the file."""
	rs = g.random_set(r, files=[g.F("v.avi", g.rbytes(r, r.randint(1, 5000)))])
	return rs

def build_parts(r, d, base, style, width, parts, name, others, newnum):
	"""Volumes with the given parts of one file, other files around it."""
	n = len(parts)
	for i, p in enumerate(parts):
		b = g.MARK + g.hdr(0x73, 1 | (0x10 if newnum else 0) | (0x100 if not i else 0),
			bytes(6))
		if i == 0 and others[0] is not None:
			o = g.F("before.bin", others[0])
			b += g.file_header(o, len(o.data), len(o.data), g.crc(o.data), 0) + o.data
		f = g.F(name, b"", large=r.random() < 0.3)
		tot = sum(map(len, parts))
		fl = (1 if i else 0) | (2 if i < n - 1 else 0)
		b += g.file_header(f, len(p), tot, 0, fl) + p
		if i == n - 1 and others[1] is not None:
			o = g.F("dir\\after.bin", others[1])
			b += g.file_header(o, len(o.data), len(o.data), g.crc(o.data), 0) + o.data
		b += g.hdr(0x7b, 0x4000, b"")
		with open(os.path.join(d, g.vol_name(base, style, i, width)), "wb") as h:
			h.write(b)
	return os.path.join(d, g.vol_name(base, style, 0, width))

def compare_ops(s, r, st, ref, nops):
	size = len(ref)
	p = io.BytesIO(ref)
	ops = []
	s.note(ops=ops)
	for _ in range(nops):
		k = r.random()
		if k < 0.45:
			n = r.choice((0, 1, 2, 7, 511, 512, 65536, size, size + 5, -1, r.randint(0, size + 3),
				r.randint(0, size // 3 + 3)))
			ops.append(("read", n))
			a, b = st.read(n), p.read(n)
			if a != b:
				s.violate("read-equals-plain-file", "after %s: read %d bytes, expected %d, "
					"first difference at %d" % (ops[-6:], len(a), len(b), first_diff(a, b)))
		elif k < 0.5:
			ops.append(("read",))
			a, b = st.read(), p.read()
			if a != b:
				s.violate("read-equals-plain-file", "after %s: %d bytes, expected %d" %
					(ops[-6:], len(a), len(b)))
		elif k < 0.9:
			w = r.choice((0, 0, 1, 2))
			base = (0, p.tell(), size)[w]
			to = r.choice((0, 1, size, size - 1, size + 3, r.randint(0, size + 2),
				r.randint(0, size + 2), -1))
			off = to - base
			ops.append(("seek", off, w))
			if to < 0:
				try:
					st.seek(off, w)
				except (IndexError, ValueError, OSError):
					pass
				else:
					s.violate("negative-seek-refused", str(ops[-6:]))
			else:
				a = st.seek(off, w) if r.random() < 0.8 or w else st.seek(off)
				p.seek(to)
				if a != to:
					s.violate("seek-returns-position", "after %s: %r, expected %d" %
						(ops[-6:], a, to))
		ops.append(("tell",))
		if st.tell() != p.tell():
			s.violate("tell", "after %s: %r, expected %d" % (ops[-6:], st.tell(), p.tell()))

def rarstream_case(s, r):
	m = s.mod("rescene.rarstream")
	d = s.dir()
	if r.random() < 0.5:
		rs = g.random_set(r)
		fs = [f for f in rs.files if not f.isdir]
		# the same content twice must be told apart
		s.note(set=describe(rs))
		first = rs.write(d)
		if not fs:
			return
		if r.random() < 0.3 and len(rs.vols) > 1 or r.random() < 0.2:
			nb = r.choice(("renamed", "ren.2009", "a b"))
			for i, v in enumerate(rs.vols):
				os.rename(os.path.join(d, v.name), os.path.join(d, g.vol_name(nb, rs.style, i,
					rs.o["width"])))
			first = os.path.join(d, g.vol_name(nb, rs.style, 0, rs.o["width"]))
		f = r.choice(fs)
		name = f.name.replace("\\", r.choice(("\\", "/")))
		if f is next(x for x in rs.files) and r.random() < 0.5:
			name = None
		s.note(name=name)
		st = m.RarStream(first, name)
		ref = f.data
	else:
		n = r.choice((1, 2, 3, 5))
		parts = [g.rbytes(r, r.choice((0, 1, 2, 10, 600, 66000))) for _ in range(n)]
		style = r.choice((g.OLD, g.NEW, g.NUM))
		others = [r.choice((None, b"", b"hello"))] + [r.choice((None, b"xyz"))]
		s.note(parts=[len(x) for x in parts], style=style, others=str(others))
		first = build_parts(r, d, r.choice(("x", "y.part02", "z")) if style == g.OLD
			else "x", style, 2, parts, "dir\\v.avi", others, style == g.NEW)
		st = m.RarStream(first, "dir/v.avi" if others[0] is not None or r.random() < 0.5
			else None)
		ref = b"".join(parts)
		name = "dir\\v.avi"
	if st.length() != len(ref):
		s.violate("length", "%r, expected %d" % (st.length(), len(ref)))
	compare_ops(s, r, st, ref, r.randint(1, 25))
	st.close()
	s.seen((len(ref), first[-4:]))
	# a start in the middle of a set is only accepted when asked for
	if r.random() < 0.3 and "parts" in s.inputs and len(parts) > 1:
		k = r.randrange(1, len(parts))
		mid = os.path.join(d, g.vol_name(os.path.basename(first).split(".")[0]
			if not first.endswith("part02.rar") else "y.part02", style, k, 2))
		try:
			m.RarStream(mid, name)
		except AttributeError:
			pass
		else:
			s.violate("later-volume-refused", os.path.basename(mid))
		st = m.RarStream(mid, name, middle=True)
		ref = b"".join(parts[k:])
		if st.read() != ref:
			s.violate("middle-start", "start at volume %d" % k)
		st.close()
	# unknown names and compressed sets are refused
	try:
		m.RarStream(first, "no such file")
	except AttributeError:
		pass
	else:
		s.violate("unknown-name-refused")
	if r.random() < 0.2:
		f = g.F("c.bin", b"abc" * 9, method=r.randint(0x31, 0x35))
		rs = g.RarSet("compr", [f])
		first = rs.write(d)
		try:
			m.RarStream(first)
		except AttributeError:
			pass
		else:
			s.violate("compressed-refused", "method %#x" % f.method)
		st = m.RarStream(first, compressed=True)
		if st.read() != f.data:
			s.violate("compressed-bytes")
		st.close()

def fakefile_case(s, r):
	m = s.mod("rescene.rarstream")
	size = r.choice((0, 1, 5, 512, 70000))
	f = m.FakeFile(size)
	p = io.BytesIO(bytes(size))
	for _ in range(r.randint(1, 12)):
		if r.random() < 0.6:
			n = r.choice((-1, 0, 1, 3, size, size + 1, 600))
			if f.read(n) != p.read(n):
				s.violate("fake-file-read", "size %d read %d" % (size, n))
		elif size:
			to = r.randrange(size)
			w = r.choice((0, 1, 2))
			f.seek(to - (0, p.tell(), size)[w], w)
			p.seek(to)
		if f.tell() != p.tell():
			s.violate("fake-file-tell", "size %d" % size)
	if f.length() != size:
		s.violate("fake-file-length")

def big_case(s, r):
	"""Parts above 4 GiB in sparse volumes."""
	m = s.mod("rescene.rarstream")
	d = s.dir()
	sizes = [r.choice((2 ** 32 + 9, 2 ** 31 + 1, 100)) for _ in range(r.randint(1, 3))]
	marks = {}
	tot = sum(sizes)
	s.note(part_sizes=sizes)
	pos = 0
	for i, n in enumerate(sizes):
		f = g.F("v.mkv", large=True)
		fl = (1 if i else 0) | (2 if i < len(sizes) - 1 else 0)
		with open(os.path.join(d, g.vol_name("x", g.NEW, i)), "wb") as h:
			h.write(g.MARK + g.hdr(0x73, 0x11 | (0x100 if not i else 0), bytes(6)))
			h.write(g.file_header(f, n, tot, 0, fl))
			base = h.tell()
			for q in (0, n - 8):
				marks[pos + q] = r.randbytes(8)
				h.seek(base + q)
				h.write(marks[pos + q])
		pos += n
	st = m.RarStream(os.path.join(d, g.vol_name("x", g.NEW, 0)))
	if st.length() != tot:
		s.violate("length", "%r, expected %d" % (st.length(), tot))
	for _ in range(12):
		q = r.choice(sorted(marks))
		w = r.choice((0, 1, 2))
		st.seek(q - (0, st.tell(), tot)[w], w)
		if st.read(8) != marks[q]:
			s.violate("read-equals-plain-file", "at %d" % q)
		if st.tell() != q + 8:
			s.violate("tell", "%r, expected %d" % (st.tell(), q + 8))
	st.close()

@search("C07", "stream_against_plain_file", "generated sets of up to 40 volumes with empty "
	"parts, several files, renamed sets; up to 25 seek/tell/read operations")
def c07(s):
	for _ in range(3):
		s.case(lambda: big_case(s, s.rng))
	while s.more():
		s.case(lambda: rarstream_case(s, s.rng))
		s.case(lambda: fakefile_case(s, s.rng))

# -- C10 -------------------------------------------------------------------------
class SomeStream(io.BytesIO):
	pass

def oso_case(s, r):
	m = s.mod("rescene.osohash")
	d = s.dir()
	k = r.random()
	if k < 0.15:
		n = r.choice((0, 1, 8, 65535, r.randint(0, 65535)))
		p = os.path.join(d, "f")
		with open(p, "wb") as h:
			h.write(g.rbytes(r, n))
		s.note(size=n)
		for x in (p, io.BytesIO(g.rbytes(r, n))):
			try:
				m.compute_hash(x)
			except ValueError:
				pass
			else:
				s.violate("small-file-refused", "%d bytes" % n)
		return
	n = r.choice((65536, 65537, 65543, 131071, 131072, 131073, r.randint(65536, 300000),
		r.randint(65536, 140000)))
	data = r.choice((g.rbytes(r, n), b"\xff" * n, r.randbytes(n)))
	want = ("%016x" % g.oso(data), n)
	s.note(size=n, kind=data[:16].hex())
	if k < 0.6:
		p = os.path.join(d, "f")
		with open(p, "wb") as h:
			h.write(data)
		got = m.compute_hash(p)
		if tuple(got) != want:
			s.violate("hash-of-file", "%r, expected %r" % (got, want))
		with open(p, "rb") as h:
			got = m.compute_hash(h)
		if tuple(got) != want:
			s.violate("hash-of-stream", "%r, expected %r" % (got, want))
	else:
		files = [g.F("a\\v.avi", data)]
		if r.random() < 0.5:
			files.insert(r.choice((0, 1)), g.F("o.nfo", g.rbytes(r, r.randint(0, 900))))
		rs = g.random_set(r, files=files)
		s.note(set=describe(rs))
		first = rs.write(d)
		got = m.osohash_from(first, r.choice(("a\\v.avi", "a/v.avi")))
		if tuple(got) != want:
			s.violate("hash-in-rar", "%r, expected %r" % (got, want))
		if files[0].data is data:
			got = m.osohash_from(first)
			if tuple(got) != want:
				s.violate("hash-in-rar", "%r, expected %r" % (got, want))
	s.seen(n)

def oso_big(s, r):
	"""Sparse files above 4 GiB."""
	m = s.mod("rescene.osohash")
	d = s.dir()
	n = r.choice((2 ** 32, 2 ** 32 + 5, 2 ** 31 + 70000, 9 * 10 ** 9))
	p = os.path.join(d, "f")
	a, b = r.randbytes(65536), r.randbytes(65536)
	with open(p, "wb") as h:
		h.write(a)
		h.seek(n - 65536)
		h.write(b)
	want = ("%016x" % ((g.oso(a + b) - 131072 + n) % 2 ** 64), n)
	got = m.compute_hash(p)
	if tuple(got) != want:
		s.violate("hash-of-file", "%r, expected %r (sparse file)" % (got, want))

@search("C10", "hash_by_definition", "files of 0 to 300 kB and sparse files up to 9 GB, plain "
	"and in generated sets")
def c10(s):
	s.case(lambda: oso_big(s, s.rng))
	while s.more():
		s.case(lambda: oso_case(s, s.rng))

# -- C08 -------------------------------------------------------------------------
def recovery_case(s, r):
	m = s.mod("rescene.main")
	rar = s.mod("rescene.rar")
	d = s.dir()
	n = r.choice((1, 20, 511, 512, 513, 1023, 1024, r.randint(1, 9000), r.randint(1, 60000)))
	rs = r.choice((1, 1, 2, 3, 4, 7, 8, 16, 50, 255, r.randint(1, 300)))
	kind = r.choice(("new", "old")) if rs < 65536 else "new"
	f = g.F("f.bin", g.rbytes(r, n))
	extra = {}
	if r.random() < 0.5:
		extra = dict(volsize=max(1, n // r.randint(1, 4)))
	st = g.RarSet("x", [f], rr=rs, rrkind=kind, end=r.choice(("full", "none")), **extra)
	s.note(size=n, sectors=rs, kind=kind, set=describe(st))
	src = os.path.join(d, "src")
	st.extract(src)
	srr = os.path.join(d, "x.srr")
	with open(srr, "wb") as h:
		h.write(g.srr_header("x") + g.srr_volumes([st]))
	out = os.path.join(d, "out")
	os.makedirs(out)
	m.reconstruct(srr, src, out)
	got = tree(out)
	for v in st.vols:
		if got.get(v.name) != v.data:
			a = got.get(v.name, b"")
			i = first_diff(a, v.data)
			k, p, hd, ln = next(x for x in v.blocks if x[0] == "rr")
			s.violate("recovery-record", "%s: %d bytes, expected %d, first difference at %d "
				"(record at %d, data at %d)" % (v.name, len(a), len(v.data), i, p, p + len(hd)))
	s.seen((n, rs, kind))
	# the same bytes split in other writes
	if hasattr(m, "_write_recovery_record"):
		v = st.vols[0]
		k, p, hd, ln = next(x for x in v.blocks if x[0] == "rr")
		with open(os.path.join(d, "h.rar"), "wb") as h:
			h.write(v.data)
		blk = [b for b in rar.RarReader(os.path.join(d, "h.rar"))
			if b.rawtype in (0x78, 0x7a) and b.block_position == p][0]
		with open(os.path.join(d, "part.rar"), "w+b") as h:
			q = 0
			while q < p:
				z = r.choice((1, 100, 511, 512, 4096, p))
				h.write(v.data[q:min(p, q + z)])
				q += z
			if r.random() < 0.3:
				h.flush()
			m._write_recovery_record(blk, h)
			h.seek(0)
			got = h.read()
		if got != v.data[:p + len(hd) + ln]:
			s.violate("recovery-record-direct", "%d bytes, difference at %d" % (len(got),
				first_diff(got, v.data)))

@search("C08", "recovery_against_definition", "volumes of up to 60 kB with 1 to 300 recovery "
	"sectors, both record kinds")
def c08(s):
	while s.more():
		s.case(lambda: recovery_case(s, s.rng))

# -- C09 -------------------------------------------------------------------------
def repack_case(s, r):
	m = s.mod("rescene.main")
	d = s.dir()
	files = [f for f in g.random_files(r, False, 3) if not f.isdir]
	if r.random() < 0.4:
		files = files[:1]
		f = files[0]
		f.data = g.rbytes(r, r.choice((65535, 65536, 65537, 131071, 131072, 131073, 200000)))
	for f in files:
		f.bad_crc = r.random() < 0.1
		f.uni = None
	rs = g.random_set(r, files=files)
	src = os.path.join(d, "src")
	rs.extract(src)
	# change some sources; the size stays
	now = {}
	for f in files:
		now[f.name] = f.data
		if f.data and r.random() < 0.4:
			b = bytearray(f.data)
			for _ in range(r.choice((1, 1, 3))):
				i = r.choice((0, len(b) - 1, r.randrange(len(b))))
				b[i] ^= 1 << r.randrange(8)
			now[f.name] = bytes(b)
			with open(os.path.join(src, *f.name.split("\\")), "wb") as h:
				h.write(b)
	s.note(set=describe(rs), changed=[n for n in now if now[n] !=
		next(f.data for f in files if f.name == n)], bad_crc=[f.name for f in files if f.bad_crc])
	srr = os.path.join(d, "x.srr")
	with open(srr, "wb") as h:
		h.write(g.srr_header("x") + g.srr_volumes([rs]))
	out = os.path.join(d, "out")
	os.makedirs(out)
	hints = {}
	kw = {}
	if r.random() < 0.3:
		f = r.choice(files)
		p = os.path.join(src, *f.name.split("\\"))
		if sum(1 for x in files if len(x.data) == len(f.data)) == 1:
			ext = os.path.splitext(f.name.split("\\")[-1])[1]
			other = os.path.join("q", "moved" + ext)
			os.makedirs(os.path.join(src, "q"), exist_ok=True)
			os.rename(p, os.path.join(src, other))
			if r.random() < 0.5:
				hints[f.name] = other
			else:
				kw["auto_locate_renamed"] = True
	skip = r.random() < 0.15
	s.note(hints=hints, options=kw, skip_rar_crc=skip)
	events = []
	cb = lambda e: events.append(e) if e.code == m.MsgCode.CRC else None
	m.subscribe(cb)
	try:
		m.reconstruct(srr, src, out, hints=hints, skip_rar_crc=skip, **kw)
	finally:
		m.callbacks.remove(cb)
	got = tree(out)
	# expected: headers as recorded, data from the sources; record the mismatches
	want_events = 0
	pos = {f.name: 0 for f in files}
	for v in rs.vols:
		data = bytearray(v.data)
		rrpos = None
		for (i, off, ln) in v.parts:
			f = rs.files[i]
			q = pos[f.name]
			part = now[f.name][q:q + ln]
			data[off:off + ln] = part
			pos[f.name] = q + ln
			last = pos[f.name] == len(f.data)
			orig = g.crc(f.data) if last else g.crc(f.data[q:q + ln])
			if f.bad_crc:
				orig ^= 1
			is_ = g.crc(now[f.name]) if last else g.crc(part)
			if orig != is_:
				want_events += 1
		k = [x for x in v.blocks if x[0] == "rr"]
		a = got.get(v.name)
		if a is None:
			s.violate("volume-written", v.name)
		if len(a) != len(v.data):
			s.violate("exact-size", "%s: %d bytes, expected %d" % (v.name, len(a), len(v.data)))
		if k:   # the record follows the data that was copied
			p, hd, ln = k[0][1], k[0][2], k[0][3]
			_n, rec = g.rr_data(bytes(data[:p]), rs.o["rr"])
			data[p + len(hd):p + len(hd) + ln] = rec
		if a != bytes(data):
			s.violate("copied-bytes", "%s: first difference at %d" % (v.name,
				first_diff(a, data)))
	if skip:
		if events:
			s.violate("no-report-when-skipped", str(len(events)))
	elif len(events) != want_events:
		s.violate("mismatch-reported", "%d reports, expected %d: %s" % (len(events),
			want_events, [e.message for e in events]))
	s.count("parts", sum(len(v.parts) for v in rs.vols))
	s.count("mismatches expected", want_events)
	s.seen((len(rs.vols), want_events, skip, bool(kw), bool(hints)))

def same_name_case(s, r):
	"""Two sets that pack the same file one after the other."""
	m = s.mod("rescene.main")
	d = s.dir()
	f = g.F("a.avi", g.rbytes(r, r.randint(1, 70000)))
	one = g.random_set(r, base="one", files=[f])
	two = g.random_set(r, base="two", files=[f])
	s.note(sets=[describe(one), describe(two)])
	src, out = os.path.join(d, "src"), os.path.join(d, "out")
	one.extract(src)
	os.makedirs(out)
	srr = os.path.join(d, "x.srr")
	with open(srr, "wb") as h:
		h.write(g.srr_header("x") + g.srr_volumes([one, two]))
	events = []
	cb = lambda e: events.append(e) if e.code == m.MsgCode.CRC else None
	m.subscribe(cb)
	try:
		m.reconstruct(srr, src, out)
	finally:
		m.callbacks.remove(cb)
	got = tree(out)
	for v in one.vols + two.vols:
		if got.get(v.name) != v.data:
			s.violate("copied-bytes", v.name)
	if events:
		s.violate("mismatch-reported", "correct source reported")

@search("C09", "repack_against_source", "generated sets, sources with single changed bits, "
	"wrong recorded checksums, renamed sources")
def c09(s):
	n = 0
	while s.more():
		n += 1
		s.case(lambda: repack_case(s, s.rng))
		if n % 8 == 0:
			s.case(lambda: same_name_case(s, s.rng))
