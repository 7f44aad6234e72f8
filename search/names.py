"""C12, C13, C22: bounded searches over names, SFV data, times."""
import io, os, struct
from pyvc.registry import search
from gen import rargen as g

# -- C12 -------------------------------------------------------------------------
WS = b" \t\x0b\x0c\r\n"
UWS = "".join(chr(i) for i in range(256) if chr(i).isspace())

def oracle_line(line):
	"""Classification of one line (bytes without line break characters)."""
	if not line.strip(WS):
		return None
	if line.lstrip(WS).startswith(b";"):
		return ("c", line.decode("latin-1"))
	t = line.rstrip(WS).decode("latin-1").replace("\t", "    ")
	i = t.rfind(" ")
	crc = t[i + 1:].lstrip(UWS)
	if i >= 0 and 1 <= len(crc) <= 8 and all(c in "0123456789abcdefABCDEF" for c in crc):
		return ("e", t[:i].strip(UWS).strip('"'), "0" * (8 - len(crc)) + crc)
	return ("x", line.rstrip(WS).decode("latin-1"))

def rand_line(r):
	k = r.random()
	ws = lambda: r.choice((b" ", b"\t", b"  ", b" \t ", b" ", b" "))
	name = r.choice((b"a.rar", b"group-x.r00", b"A B c.r01", b'"quoted name.rar"', b"x",
		b"name;with.rar", b"\xe9t\xe9.rar", b"..\\x.rar", b"CD1/y.r05", b"\xa0n.r00", b"a.sfv",
		b"crc 12345678.rar", b'"half.rar', r.randbytes(r.randint(1, 6)).replace(b"\n", b"x")))
	crc = r.choice((b"00000000", b"deadBEEF", b"1", b"ABCDEF", b"123456789", b"xyz",
		b"1234567g", b"", b"-1234567", b"0x123456", b"+1", b"\xb2", b"12 34", b"1_2",
		b"%08x" % r.getrandbits(32), b"%08X" % r.getrandbits(32)))
	if k < 0.55:
		return name + ws() + crc
	if k < 0.65:
		return ws() + name + ws() + crc + r.choice((b"", b" ", b"\t"))
	if k < 0.75:
		return r.choice((b"", b" ", b"\t")) + b";" + name + b" " + crc
	if k < 0.8:
		return r.choice((b"", b" ", b"\t", b"  \t", b"\x0c", b"\x85", b"\xa0", b"\x1c"))
	if k < 0.9:
		return r.randbytes(r.randint(0, 20))
	return name + crc

def sfv_case(s, r):
	m = s.mod("rescene.utility")
	lines = [rand_line(r) for _ in range(r.randint(0, 12))]
	data = b""
	for l in lines:
		data += l + r.choice((b"\n", b"\r\n", b"\r", b"\r\r\n", b"\n\n"))
	if lines and r.random() < 0.3:
		data = data.rstrip(b"\r\n")
	s.note(data=data)
	how = r.choice(("data", "stream", "file"))
	if how == "data":
		e, c, x = m.parse_sfv_data(data)
	elif how == "stream":
		st = io.BytesIO(data)
		st.read(r.randint(0, 5))
		e, c, x = m.parse_sfv_file(st)
	else:
		p = os.path.join(s.dir(), "x.sfv")
		with open(p, "wb") as h:
			h.write(data)
		e, c, x = m.parse_sfv_file(p)
	want = [oracle_line(l) for l in data.replace(b"\r", b"\n").split(b"\n")]
	we = [w[1:] for w in want if w and w[0] == "e"]
	wc = [w[1] for w in want if w and w[0] == "c"]
	wx = [w[1] for w in want if w and w[0] == "x"]
	got = [(i.file_name, i.crc32) for i in e]
	if got != we:
		s.violate("entries", "%r, expected %r" % (got, we))
	if list(c) != wc:
		s.violate("comments", "%r, expected %r" % (c, wc))
	if list(x) != wx:
		s.violate("errors", "%r, expected %r" % (x, wx))
	s.count("lines", len(want))

def rank(name):
	"""(set key, position) in the archiver's order."""
	l = name.lower()
	if l.endswith(".rar"):
		b = l[:-4]
		i = len(b)
		while i and b[i - 1].isdigit():
			i -= 1
		if i < len(b) and b[:i].endswith(".part"):
			return ("new", b[:i]), int(b[i:])
		return ("old", b), -1
	e = l[-3:]
	if e.isdigit():
		return ("num", l[:-4]), int(e)
	return ("old", l[:-4]), (ord(e[0]) - ord("r")) * 100 + int(e[1:])

def sort_case(s, r):
	m = s.mod("rescene.utility")
	names = []
	for _ in range(r.randint(1, 4)):
		b = r.choice(("a", "ab", "grp-x", "grp-y", "a.r", "A", "x.2009", "cd1", "cd2", "a.rap",
			"z9", "a.r0", "xpart10", "xpart9", "a-part2", "grp.part"))
		st = r.choice((g.OLD, g.OLD, g.NEW, g.NUM))
		n = r.choice((1, 2, 3, 12, 105, 1100) if st == g.NEW else (1, 2, 3, 12, 105, 850))
		w = r.choice((1, 2, 3))
		names += [g.vol_name(b, st, i, w) for i in r.sample(range(n), r.randint(1, min(n, 6)))]
	names += r.sample(["a.nfo", "a.r00.txt", "a.raa", "b.mp3", "a.sfv", "grp-x.rb"],
		r.randint(0, 3))
	if r.random() < 0.2:
		names = [n.upper() if r.random() < 0.5 else n for n in names]
	ents = [m.SfvEntry(n, "%08x" % r.getrandbits(4)) for n in names]
	for _ in range(r.randint(0, 5)):      # duplicates in any form
		e = r.choice(ents)
		ents.append(m.SfvEntry(r.choice((e.file_name, e.file_name.upper())),
			r.choice((e.crc32, e.crc32.upper(), "%08x" % r.getrandbits(4)))))
	r.shuffle(ents)
	s.note(entries=[(e.file_name, e.crc32) for e in ents])
	show = lambda es: [(e.file_name, e.crc32) for e in es]
	out = m.filter_sfv_duplicates(list(ents))
	key = lambda e: (e.file_name.lower(), e.crc32.lower())
	firsts = {}
	for e in ents:
		firsts.setdefault(key(e), e)
	if sorted(map(id, firsts.values())) != sorted(map(id, out)):
		s.violate("first-occurrences-kept", "%r" % show(out))
	a = sorted(ents)
	for _ in range(3):
		b = list(ents)
		r.shuffle(b)
		if show(sorted(b)) != show(a):
			s.violate("order-independent", "%r and %r" % (show(sorted(b)), show(a)))
		if [key(e) for e in m.filter_sfv_duplicates(b)] != [key(e) for e in out]:
			s.violate("order-independent", "after filtering")
	for lst in (a, out):
		last = {}
		for e in lst:
			n = e.file_name
			if not is_vol(n):
				continue
			k, p = rank(n)
			if last.get(k, -2) > p:
				s.violate("archive-order", "%s too late in %r" % (n, show(lst)))
			last[k] = p
	# an SFV is the same as itself in another order
	if r.random() < 0.3:
		d = s.dir()
		pp = []
		for i in range(2):
			b = list(ents)
			r.shuffle(b)
			p = os.path.join(d, "%d.sfv" % i)
			with open(p, "w") as h:
				h.write("; %d\n" % i + "".join("%s %s\n" % x for x in show(b)))
			pp.append(p)
		if not m.same_sfv(*pp):
			s.violate("same-sfv", "equal files differ")
		with open(pp[1], "a") as h:
			h.write("other.rar 12345678\n")
		if m.same_sfv(*pp):
			s.violate("same-sfv", "different files are equal")

def is_vol(n):
	e = n.lower()[-4:]
	return e == ".rar" or (len(e) == 4 and e[0] == "." and e[2:].isdigit() and
		e[1] in "0123456789rstuvwxyz")

@search("C12", "sfv_against_oracle", "SFV data of up to 12 lines and arbitrary bytes, lists of "
	"up to 30 entries in random order")
def c12(s):
	while s.more():
		for _ in range(20):
			s.case(lambda: sfv_case(s, s.rng))
		s.case(lambda: sort_case(s, s.rng))

# -- C13 -------------------------------------------------------------------------
def next_case(s, r):
	m = s.mod("rescene.utility")
	style = r.choice((g.OLD, g.NEW, g.NUM))
	base = r.choice(("a", "grp-x", "x.part01", "x.part1", "rel.2009", "CD1/a", "/t/x.rar/y",
		"part", "a.part", "a b", "x.r00", "q99", "a.001"))
	if style == g.NEW:
		base = r.choice((base, "x.part1.y", "apart"))
	w = r.choice((1, 2, 3, 4))
	n = {g.OLD: 901, g.NEW: 1200, g.NUM: 999}[style]
	n = r.choice((n, r.randint(2, n)))
	old = style == g.OLD
	up = r.random() < 0.2
	name = g.vol_name(base, style, 0, w)
	if up:
		name = name.upper()
	s.note(first=name, style=style, volumes=n)
	seen = set()
	ambiguous = old and base.lower().rstrip("0123456789").endswith(".part") and \
		base[-1].isdigit()
	for i in range(n):
		want = g.vol_name(base, style, i, w)
		if up:
			want = want.upper()
		if i == 1 and old and up:
			want = want[:-3] + "r00"
			base, up = base.upper(), False
		elif not up and old and i > 1:
			want = g.vol_name(base, style, i, w)
		if name != want:
			s.violate("next-in-order", "volume %d is %r, expected %r" % (i, name, want))
		if name in seen:
			s.violate("no-repeat", name)
		seen.add(name)
		if not m.is_rar(name):
			s.violate("recognised", name)
		if i + 1 == {g.OLD: 901, g.NUM: 999}.get(style):
			break
		name = m.next_archive(name, old) if ambiguous or r.random() < 0.3 and old else \
			m.next_archive(name)
	# past the end of the scheme nothing is a volume
	if i + 1 == {g.OLD: 901, g.NUM: 999}.get(style):
		try:
			x = m.next_archive(name, old)
		except (AttributeError, ValueError, IndexError):
			pass
		else:
			if x in seen or m.is_rar(x):
				s.violate("end-of-scheme", "%r after %r" % (x, name))
	s.count("names", n)
	# names outside the schemes
	for x in ("a.nfo", "a.rar.txt", "x.exe", "a", "", "a.r0", "a.00", "a.rarx", "a.q00",
			"a.cbr", "rar", "a.r000"):
		if m.is_rar(x):
			s.violate("not-recognised", x)
		try:
			y = m.next_archive(x)
		except AttributeError:
			pass
		else:
			s.violate("refuses-other-names", "%r -> %r" % (x, y))

BASES = ("a", "grp-x", "rel.2009-GRP", "cd1", "x264", "a.b.c", "name7", "zz", "q-9q",
	"x2009", "2009", "a.31415", "q123456", "Q-9-10")

def firsts_case(s, r):
	m = s.mod("rescene.utility")
	names, want = [], set()
	used = set()
	for _ in range(r.randint(1, 5)):
		b = r.choice(("", "CD1/", "cd2\\")) + r.choice(BASES)
		st = r.choice((g.OLD, g.NEW, g.NUM, "num0"))
		if (b, ) in used:
			continue
		used.add((b, ))
		n = r.choice((1, 1, 2, 5, 30))
		w = r.choice((1, 2, 3, 4))
		if st == "num0":
			vs = [b + ".%03d" % i for i in range(n)]
		else:
			vs = [g.vol_name(b, st, i, w) for i in range(n)]
		if st in (g.OLD, g.NEW) and r.random() < 0.15:
			vs = [x[:-3] + x[-3:].upper() for x in vs]
		want.add(vs[0])
		names += vs
	names += r.sample(["a.sfv", "b.nfo", "s.avi", "x.txt"], r.randint(0, 2))
	r.shuffle(names)
	s.note(names=names)
	got = m.first_rars(r.choice((list, iter, tuple))(names))
	if sorted(got) != sorted(want):
		s.violate("one-first-per-set", "%r, expected %r" % (sorted(got), sorted(want)))
	s.seen(tuple(sorted(want)))

@search("C13", "volume_names", "names of up to 1200 volumes of every style; collections of up "
	"to 5 sets in random order")
def c13(s):
	while s.more():
		s.case(lambda: next_case(s, s.rng))
		for _ in range(20):
			s.case(lambda: firsts_case(s, s.rng))

# -- C22 -------------------------------------------------------------------------
def same_time(a, b):
	return a is not None and len(a) == 6 and tuple(a[:5]) == tuple(b[:5]) and \
		abs(a[5] - b[5]) < 2e-8

def xt(e, base):
	t = base
	sec = t[5] + (1 if e[1] else 0)
	v = 0
	for i, x in enumerate(e[2]):
		v |= x << 8 * (i + 3 - len(e[2]))
	return t[:5] + (sec + v / 1e7,)

def undos(x):
	return ((x >> 25) + 1980, x >> 21 & 15, x >> 16 & 31, x >> 11 & 31, x >> 5 & 63,
		(x & 31) * 2)

NAMES = "abcXYZ 019._-\\()\u00e9\u00fc\u00df\u0416\u0430\u65e5\u672c\u8a9e\uac00\u20ac\u0100"

def times_case(s, r):
	m = s.mod("rescene.rar")
	d = s.dir()
	p = os.path.join(d, "x.rar")
	b = g.MARK + g.hdr(0x73, 0, bytes(6))
	want = []
	for i in range(r.randint(1, 20)):
		f = g.F("n", time=g.rand_time(r))
		raw = None
		exp = {}
		k = r.random()
		if k < 0.5:
			f.ext = [None if x is None else x for x in g.rand_ext(r)]
		if r.random() < 0.5:
			raw = r.getrandbits(32)
			f.time = None
		k = r.random()
		if k < 0.4:
			uni = "".join(r.choice(NAMES) for _ in range(r.randint(1, 40)))
			if r.random() < 0.2:
				uni += r.choice("ab\u0416") * r.randint(2, 140)
			if r.random() < 0.1:
				uni += "\U0001f600"
			std = r.choice((uni.encode("ascii", "replace"), uni.encode("latin-1", "replace"),
				b"plain"))
			f.uni = std + b"\0" + g.enc_unicode(std, uni, r if r.random() < 0.8 else None)
			exp["name"], exp["orig"] = uni, std
		elif k < 0.5:
			uni = "".join(r.choice(NAMES) for _ in range(r.randint(1, 40)))
			f.uni = uni.encode("utf-8")
			exp["name"] = uni
		elif k < 0.65:
			std = b"plain.nfo"
			f.uni = std + b"\0" + r.randbytes(r.randint(0, 9))
			exp["plain or any"] = std
		else:
			f.name = "p%d.nfo" % i
			exp["name"] = f.name
		if f.time is None:
			f.time = undos(raw)
			# fields may be out of range: bytes are written as they are
		if r.random() < 0.3:
			f.salt = r.randbytes(8)
		if r.random() < 0.3:
			f.large = True
		b += g.file_header(f, 0, 0, 0, 0)
		exp["time"] = f.time
		exp["ext"] = f.ext
		want.append(exp)
	with open(p, "wb") as h:
		h.write(b)
	s.note(file=b, expected=want)
	blocks = [x for x in m.RarReader(p) if x.rawtype == 0x74]
	if len(blocks) != len(want):
		s.violate("blocks", "%d, expected %d" % (len(blocks), len(want)))
	for i, (x, e) in enumerate(zip(blocks, want)):
		if tuple(x.file_datetime) != e["time"]:
			s.violate("dos-time", "block %d: %r, expected %r" % (i, x.file_datetime, e["time"]))
		if e["ext"] is not None:
			for j, a in enumerate(("mtime", "ctime", "atime", "arctime")):
				v = getattr(x, a)
				q = e["ext"][j]
				if q is None:
					if j and v is not None or not j and v not in (None, e["time"]):
						s.violate("absent-time", "block %d %s: %r" % (i, a, v))
				else:
					t = xt(q, e["time"] if j == 0 else undos(q[0]))
					if not same_time(v, t):
						s.violate("ext-time", "block %d %s: %r, expected %r" % (i, a, v, t))
		if "name" in e:
			n = e["name"].encode("utf-16le", "replace").decode("utf-16le")
			if x.file_name != n or x.unicode_filename != n:
				s.violate("unicode-name", "block %d: %r, expected %r" % (i, x.file_name, n))
			if "orig" in e and bytes(x.orig_filename) != e["orig"]:
				s.violate("plain-name", "block %d: %r, expected %r" % (i, x.orig_filename,
					e["orig"]))
		else:
			if bytes(x.orig_filename) != e["plain or any"]:
				s.violate("plain-name", "block %d: %r" % (i, x.orig_filename))
	s.count("headers", len(want))

@search("C22", "headers_against_encoder", "20 file headers per case, every encoding form, "
	"names of up to 180 characters")
def c22(s):
	while s.more():
		s.case(lambda: times_case(s, s.rng))
