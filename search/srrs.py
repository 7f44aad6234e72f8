"""C02, C04, C05, C06, C19, C20: bounded searches over SRR files."""
import builtins, errno, hashlib, io, os, random, shutil, struct
from pyvc.registry import search
from gen import rargen as g
from search.rebuild import describe, tree

CH = "abcXYZ 019._-()[]+,\u00e9\u0416\u65e5\u672c\U0001f600"

def rname(r, depth=2):
	n = r.randint(0, depth)
	el = lambda: "".join(r.choice(CH) for _ in range(r.randint(1, 12))).strip(" .") or "n"
	return "/".join([el() for _ in range(n)] + [el() + r.choice((".nfo", ".jpg", ".sfv", "",
		".srs", ".txt"))])

def put(p, data):
	os.makedirs(os.path.dirname(p), exist_ok=True)
	with open(p, "wb") as h:
		h.write(data)

def get(p):
	with open(p, "rb") as h:
		return h.read()

class Srr(object):
	"""A random SRR: parts are (kind, name, bytes)."""
	def __init__(self, r, nsets=None, small=True, app=None, prefixes=("",), stored=None,
			sfv=True, base=None):
		self.app = r.choice(("", "x", "pyReScene 0.7", "ReSc\u00e9ne")) if app is None else app
		self.stored, self.sets, self.oso = [], [], []
		names = set()
		for _ in range(r.randint(0, 4) if stored is None else stored):
			n = rname(r)
			if n.lower() not in names and not any(x.startswith(n + "/") or n.startswith(x + "/")
					for x in names):
				names.add(n.lower())
				self.stored.append((n, g.rbytes(r, r.choice((0, 1, 40, 700, 5000)))))
		n = r.choice((0, 1, 1, 2)) if nsets is None else nsets
		for i in range(n):
			rs = g.random_set(r, base=(base or r.choice(("x", "rel-grp", "A.b"))) + "%d" % i)
			self.sets.append((r.choice(prefixes), rs))
		if sfv:
			self.stored = [(n, d) for n, d in self.stored if not n.lower().endswith(".sfv")]
			for p, rs in self.sets:
				if r.random() < 0.7:
					self.stored.append((p + rs.o["base"] + ".sfv", rs.sfv().encode("latin-1")))
		for p, rs in self.sets:
			for f in rs.files:
				if r.random() < 0.3 and not f.isdir:
					self.oso.append((f.name.split("\\")[-1], len(f.data), r.getrandbits(64)))
		r.shuffle(self.stored)
	def bytes(self, r=None):
		b = g.srr_header(self.app)
		b += b"".join(g.srr_stored(n, d) for n, d in self.stored)
		b += b"".join(g.srr_volumes([rs], p) for p, rs in self.sets)
		b += b"".join(g.srr_oso(*o) for o in self.oso)
		return b
	def note(self):
		return dict(app=self.app, stored=[(n, len(d)) for n, d in self.stored],
			sets=[(p, describe(rs)) for p, rs in self.sets], oso=self.oso)

def blocks(b):
	return g.parse_srr(b)

def raw(x):
	return x[2] + x[3]

# -- C02 -------------------------------------------------------------------------
def c02_case(s, r):
	m = s.mod("rescene.rar")
	d = s.dir()
	p = os.path.join(d, "x.srr")
	out, want = b"", []
	L = lambda mx: r.choice((1, 2, 50, 255, 256, 257, mx - 1, mx, r.randint(1, 300)))
	def text(mx):
		n = L(mx)
		if n > 2000:
			return "".join(r.choice("ab/") if 0 < i < n - 1 else "x" for i in range(n))
		t = "".join(r.choice(CH + "/") for _ in range(n))
		while len(t.encode("utf-8")) > mx:
			t = t[:-1]
		return t
	app = r.choice(("", text(0xfff6)))
	blk = m.SrrHeaderBlock(appname=app)
	out += blk.block_bytes()
	want.append((0x69, dict(appname=app), len(out)))
	for _ in range(r.randint(1, 8)):
		k = r.choice("SRHP")
		if k == "S":
			data = g.rbytes(r, r.choice((0, 1, 100, 3000)))
			n = text(0xfff2)
			b = m.SrrStoredFileBlock(file_name=n, file_size=r.choice((len(data),
				str(len(data)))))
			out += b.block_bytes() + data
			want.append((0x6a, dict(file_name=n, file_size=len(data)), len(b.block_bytes())))
		elif k == "R":
			n = text(0xfff6)
			b = m.SrrRarFileBlock(file_name=n)
			out += b.block_bytes()
			want.append((0x71, dict(file_name=n), len(b.block_bytes())))
		elif k == "H":
			n = text(0xffe6)
			size = r.choice((0, 1, 2 ** 32, 2 ** 64 - 1, r.getrandbits(40)))
			h = "%016x" % r.choice((0, 2 ** 64 - 1, r.getrandbits(64), r.getrandbits(20)))
			b = m.SrrOsoHashBlock(file_size=size, file_name=n, oso_hash=h)
			out += b.block_bytes()
			want.append((0x6b, dict(file_name=n, file_size=size, oso_hash=h),
				len(b.block_bytes())))
		else:
			# a volume with padding, its last header ended by the padding
			data = g.rbytes(r, r.choice((1, 2, 900)))
			b = m.SrrRarPaddingBlock(padding_bytes=data)
			out += b.block_bytes()
			want.append((0x6c, dict(add_size=len(data)), len(b.block_bytes()) - len(data)))
	if len(out) < 20:      # the readers refuse files smaller than that
		return
	put(p, out)
	s.note(file=out if len(out) < 5000 else len(out), expected=str(want)[:3000])
	# independent structure check
	try:
		ind = g.parse_srr(out)
	except ValueError as e:
		s.violate("announced-lengths", str(e))
	if [x[0] for x in ind] != [w[0] for w in want]:
		s.violate("announced-lengths", "%r" % [hex(x[0]) for x in ind])
	for x, w in zip(ind, want):
		if len(x[2]) != w[2]:
			s.violate("announced-lengths", "type %#x: header %d, serialised %d" % (x[0],
				len(x[2]), w[2]))
	got = list(m.RarReader(p))
	if len(got) != len(want):
		s.violate("read-back", "%d blocks, expected %d" % (len(got), len(want)))
	pos = 0
	for b, (t, f, hl), x in zip(got, want, ind):
		if b.rawtype != t:
			s.violate("read-back", "type %#x, expected %#x" % (b.rawtype, t))
		if b.block_position != pos:
			s.violate("next-block-position", "%d, expected %d" % (b.block_position, pos))
		for k, v in f.items():
			if getattr(b, k) != v:
				s.violate("same-fields", "%#x %s: %r, expected %r" % (t, k, getattr(b, k), v))
		if t == 0x6a and b.srr_data() != x[3]:
			s.violate("same-data", "stored file")
		if t == 0x6c and b.block_bytes()[b.header_size:] != x[3]:
			s.violate("same-data", "padding")
		pos += len(x[2]) + len(x[3])
	s.count("blocks", len(want))
	# too long names are refused, nothing is written wrong
	for fn in (lambda n: m.SrrStoredFileBlock(file_name=n, file_size=1),
			lambda n: m.SrrRarFileBlock(file_name=n),
			lambda n: m.SrrOsoHashBlock(file_size=1, file_name=n, oso_hash="0" * 16)):
		n = "x" * r.choice((0x10000, 0xfff7, 70000)) if r.random() < 0.1 else None
		if n:
			try:
				b = fn(n)
			except (AttributeError, ValueError, struct.error):
				pass
			else:
				s.violate("too-long-refused", "%d characters" % len(n))

@search("C02", "write_read_inverse", "files of up to 9 blocks, names up to the format limit")
def c02(s):
	while s.more():
		s.case(lambda: c02_case(s, s.rng))

# -- C04 -------------------------------------------------------------------------
class Fault(OSError):
	pass

def with_fault(r, n, fn):
	"""Runs fn; the n-th file system operation that changes something fails.
	Returns the number of operations seen and the exception."""
	state = [0]
	def wrap(real):
		def f(*a, **k):
			state[0] += 1
			if state[0] == n:
				raise Fault(errno.EIO, "injected")
			return real(*a, **k)
		return f
	names = ("rename", "replace", "remove", "unlink", "mkdir", "makedirs")
	saved = {x: getattr(os, x) for x in names}
	ropen, rfdopen = builtins.open, os.fdopen
	class W(object):
		def __init__(self, f):
			self.__dict__["_f"] = f
		def write(self, data):
			state[0] += 1
			if state[0] == n:
				self._f.write(bytes(data)[:len(data) // 2])
				raise Fault(errno.ENOSPC, "injected")
			return self._f.write(data)
		def __getattr__(self, k):
			return getattr(self._f, k)
		def __enter__(self):
			return self
		def __exit__(self, *a):
			self._f.close()
	def fopen(f, mode="r", *a, **k):
		o = ropen(f, mode, *a, **k)
		return W(o) if "b" in mode and ("w" in mode or "+" in mode or "a" in mode) else o
	def ffd(fd, mode="r", *a, **k):
		o = rfdopen(fd, mode, *a, **k)
		return W(o) if "w" in mode else o
	import tempfile
	try:
		for x in ("rename", "replace", "makedirs"):
			setattr(os, x, wrap(saved[x]))
		rm = wrap(saved["remove"])
		builtins.open = fopen
		os.fdopen = ffd
		# the first deletion can fail too, clean-up afterwards must be possible
		def dele(p, *a, **k):
			if state[0] < n:
				return rm(p, *a, **k)
			return saved["remove"](p, *a, **k)
		os.remove = os.unlink = dele
		try:
			fn()
			return state[0], None
		except Fault as e:
			return state[0], e
	finally:
		for x in names:
			setattr(os, x, saved[x])
		builtins.open, os.fdopen = ropen, rfdopen

def edit_case(s, r):
	m = s.mod("rescene.main")
	rar = s.mod("rescene.rar")
	d = s.dir()
	x = Srr(r, prefixes=("", "CD1/"))
	if not x.sets:
		x.stored.append(("some.nfo", b"n" * 20))
	op = r.choice(("add", "remove", "rename", "add-fail", "bad"))
	if r.random() < 0.003:     # more than is read at once anywhere
		x.stored.append(("big.bin", b"big" + bytes(r.choice((0x1000000, 0x1100000)))))
	if op == "remove" and x.stored and r.random() < 0.3:
		# other names that only look like one of the stored ones
		n = r.choice(x.stored)[0]
		for o in (n.replace("/", "\\"), n.upper(), n + " "):
			if o not in [q for q, _ in x.stored]:
				x.stored.append((o, b"o" * 30))
	b0 = x.bytes()
	if r.random() < 0.3:   # OSO blocks at the front, stored files behind
		b0 = g.srr_header(x.app) + b"".join(g.srr_volumes([rs], p) for p, rs in x.sets) + \
			b"".join(g.srr_stored(n, c) for n, c in x.stored) + \
			b"".join(g.srr_oso(*o) for o in x.oso)
		if not x.sets:
			b0 = x.bytes()
	p = os.path.join(d, "x.srr")
	put(p, b0)
	s.note(srr=x.note())
	old = blocks(b0)
	src = os.path.join(d, "in")
	s.note(op=op)
	def intact(b, what):
		if get(p) != b:
			s.violate("unchanged-when-refused", what)
	def no_temp(extra=()):
		left = [f for f in os.listdir(d) if f not in ("x.srr", "in") + tuple(extra)]
		if left:
			s.violate("no-temporary-left", "%r" % left)
	n_fault = None
	if r.random() < 0.4:
		n_fault = r.randint(1, 12)
		s.note(fault_at=n_fault)
	def run(fn):
		if n_fault is None:
			fn()
			return True
		seen, e = with_fault(r, n_fault, fn)
		if e is None:
			return True
		s.count("faults injected")
		intact(b0, "after a failing operation (%d)" % n_fault)
		no_temp()
		return False
	if op in ("add", "add-fail"):
		new = []
		taken = set(n for n, _ in x.stored)
		for _ in range(r.randint(1, 3)):
			n = rname(r, 2)
			if n in taken or any(t.startswith(n + "/") or n.startswith(t + "/") for t in taken):
				continue
			taken.add(n)
			data = g.rbytes(r, r.choice((0, 1, 700, 20000)))
			put(os.path.join(src, n), data)
			new.append((n, data))
		if not new:
			return
		save = r.random() < 0.5
		if not save:
			bn = [os.path.basename(n) for n, _ in new]
			if len(set(bn)) < len(bn) or set(bn) & set(n for n, _ in x.stored):
				return
		kind = r.choice(("abs", "rel"))
		args = [os.path.join(src, n) if kind == "abs" else n for n, _ in new]
		s.note(new=[(n, len(c)) for n, c in new], save_paths=save, kind=kind)
		if op == "add-fail":
			if not x.stored:
				return
			dup = r.choice(x.stored)[0]
			put(os.path.join(src, dup), b"other") if not os.path.isdir(os.path.join(src, dup)) \
				else None
			try:
				m.add_stored_files(p, [dup] + args, src, True)
			except m.DupeFileName:
				pass
			else:
				s.violate("duplicate-refused", dup)
			intact(b0, "duplicate name")
			no_temp()
			return
		if not run(lambda: m.add_stored_files(p, args, src, save)):
			return
		want = [g.srr_stored(n if save else os.path.basename(n), c) for n, c in new]
		b1 = get(p)
		try:
			now = blocks(b1)
		except ValueError as e:
			s.violate("readable-after-edit", str(e))
		seq = [raw(z) for z in now]
		oldseq = [raw(z) for z in old]
		# the new ones in between, once, in order; the others as before
		rest = list(seq)
		for w in want:
			if w not in rest:
				s.violate("added-content", "not found: %r" % w[:80])
		i = seq.index(want[0])
		if seq[i:i + len(want)] != want:
			s.violate("added-content", "added files are not together in order")
		rest = seq[:i] + seq[i + len(want):]
		if rest != oldseq:
			s.violate("other-blocks-kept", "adding changed other blocks")
		if i == 0:
			s.violate("readable-after-edit", "stored file before the SRR header")
		out = os.path.join(d, "out")
		try:
			if all("." not in n.split("/") and ".." not in n.split("/") for n, _ in x.stored):
				m.extract_files(p, out)
				for n, c in new:
					n = n if save else os.path.basename(n)
					if get(os.path.join(out, n)) != c:
						s.violate("added-content", n)
		finally:
			shutil.rmtree(out, ignore_errors=True)
	elif op == "remove":
		some = [n for n, _ in x.stored if r.random() < 0.5]
		args = some + ["not there", "no/such.file"][:r.randint(0, 2)]
		s.note(remove=args)
		if not run(lambda: m.remove_stored_files(p, args)):
			return
		try:
			now = [raw(z) for z in blocks(get(p))]
		except ValueError as e:
			s.violate("readable-after-edit", str(e))
		want = [raw(z) for z in old if not (z[0] == 0x6a and g.stored_name(z[2]) in some)]
		if now != want:
			s.violate("other-blocks-kept", "removing %r" % (some,))
	elif op == "rename":
		if not x.stored:
			return
		n = r.choice(x.stored)[0]
		to = rname(r)
		if any(to == q for q, _ in x.stored):
			return
		s.note(rename=(n, to))
		if not run(lambda: m.rename_stored_file(p, n, to)):
			return
		try:
			now = [raw(z) for z in blocks(get(p))]
		except ValueError as e:
			s.violate("readable-after-edit", str(e))
		want = []
		for z in old:
			if z[0] == 0x6a and g.stored_name(z[2]) == n:
				want.append(g.srr_stored(to, z[3]))
			else:
				want.append(raw(z))
		if now != want:
			s.violate("other-blocks-kept", "renaming %r to %r" % (n, to))
	else:
		for fn, errs in (
				(lambda: m.rename_stored_file(p, "not there", "y"), (m.FileNotFound,)),
				(lambda: x.stored and m.rename_stored_file(p, x.stored[0][0],
					r.choice(("a:b", "a\\b", "x*", "q?", '"', "<", "|"))), (AttributeError,)),
				(lambda: m.add_stored_files(os.path.join(d, "none.srr"), ["x"]),
					(rar.ArchiveNotFoundError,)),
				(lambda: x.stored and m.rename_stored_file(p, x.stored[0][0],
					"n" * 66000), (AttributeError, ValueError, struct.error))):
			try:
				done = fn()
			except errs:
				pass
			else:
				if x.stored or done is None:
					s.violate("refused", "no error")
			intact(b0, "refused operation")
		if x.sets:
			# a RAR file is no SRR file
			q = x.sets[0][1].write(os.path.join(d, "in"))
			for fn in (lambda: m.add_stored_files(q, ["x"]), lambda: m.remove_stored_files(q,
					["x"]), lambda: m.rename_stored_file(q, "x", "y")):
				c = get(q)
				try:
					fn()
				except m.NotSrrFile:
					pass
				else:
					s.violate("refused", "RAR file accepted")
				if get(q) != c:
					s.violate("unchanged-when-refused", "RAR file")
	no_temp()
	s.seen((op, len(x.stored), len(x.sets), n_fault))

@search("C04", "edits_against_block_model", "SRR files with up to 6 stored files and 2 sets; "
	"one failing file operation (of the first 12) in 40% of the cases")
def c04(s):
	while s.more():
		s.case(lambda: edit_case(s, s.rng))

# -- C05 -------------------------------------------------------------------------
def merge_case(s, r):
	m = s.mod("rescene.main")
	d = s.dir()
	xs = [Srr(r, nsets=r.choice((0, 1, 1)), prefixes=("", "CD%d/" % i), base="s%d" % i)
		for i in range(r.randint(1, 3))]
	for x in xs[1:]:
		for n, c in xs[0].stored:
			if r.random() < 0.2:      # the same name in another SRR file
				x.stored.insert(r.randrange(len(x.stored) + 1), (r.choice((n, n.upper())),
					r.choice((b"", c, b"other"))))
	ps = []
	for i, x in enumerate(xs):
		p = os.path.join(d, "%d.srr" % i)
		put(p, x.bytes())
		ps.append(p)
	app = r.choice((None, None, "other app", ""))
	s.note(srrs=[x.note() for x in xs], app=app)
	if any(len(x.bytes()) < 20 for x in xs):      # the readers refuse files smaller than that
		return
	out = os.path.join(d, "out.srr")
	m.merge_srrs(r.choice((list, iter, tuple))(ps), out, app)
	b = get(out)
	try:
		now = blocks(b)
	except ValueError as e:
		s.violate("readable", str(e))
	want_app = app or next((x.app for x in xs if x.app), "")
	if raw(now[0]) != g.srr_header(want_app):
		s.violate("one-header", "%r, expected application name %r" % (raw(now[0]), want_app))
	if sum(1 for z in now if z[0] == 0x69) != 1:
		s.violate("one-header", "several")
	olds = [blocks(x.bytes()) for x in xs]
	st = [raw(z) for o in olds for z in o if z[0] == 0x6a]
	ot = [raw(z) for o in olds for z in o if z[0] not in (0x6a, 0x69)]
	if [raw(z) for z in now[1:1 + len(st)]] != st:
		s.violate("stored-files-kept", "%d stored files expected in order" % len(st))
	if [raw(z) for z in now[1 + len(st):]] != ot:
		s.violate("rar-blocks-kept", "%d blocks expected in order" % len(ot))
	for i, x in enumerate(xs):
		if get(ps[i]) != x.bytes():
			s.violate("inputs-unchanged", str(i))
	# all volumes can be rebuilt
	sets = [(p, rs) for x in xs for p, rs in x.sets]
	names = [f.name for p, rs in sets for f in rs.files]
	if sets and len(set(names)) == len(names) and r.random() < 0.5:
		src, to = os.path.join(d, "src"), os.path.join(d, "to")
		os.makedirs(to)
		for p, rs in sets:
			rs.extract(src)
		m.reconstruct(out, src, to, extract_files=False)
		got = tree(to)
		for p, rs in sets:
			for v in rs.vols:
				if got.get(p + v.name) != v.data:
					s.violate("volumes-reconstructable", p + v.name)
	s.seen(tuple((len(x.stored), len(x.sets), len(x.oso)) for x in xs))

@search("C05", "merge_against_block_model", "up to 3 SRR files with up to 4 stored files and one "
	"set each")
def c05(s):
	while s.more():
		s.case(lambda: merge_case(s, s.rng))

# -- C06 -------------------------------------------------------------------------
EVIL = ("..", ".", "", "../x", "../../x", "a/../../x", "a//b", "./a", "a/./b", "a/..", "/abs",
	"..\\x", "a\\..\\..\\x", "\\abs", "a/", "/", "..\\", "a\\/b", "con/../..", "\\..\\x",
	"a/../b", ".../x", "..x", "x..", " ..", "C:\\x", "//x/y")

def evil_name(r, sep=None):
	"""a name of up to nine elements, most of them harmless, some leading out"""
	els = [r.choice(("a", "b", "Sub", "...", "x y")) for _ in range(r.randint(1, 9))]
	for _ in range(r.choice((0, 1, 1, 2, 4))):
		els.insert(r.randint(0, len(els)), r.choice(("..", "..", "..", ".", "")))
	els.append(r.choice(("f.bin", "s.nfo", "..", "")) if r.random() < 0.2 else "f.bin")
	if sep:
		return sep.join(els)
	out = els[0]
	for e in els[1:]:
		out += r.choice("/\\") + e
	return out

def bad_elements(n):
	e = n.replace("\\", "/").split("/")
	return any(q in ("", ".", "..") for q in e)

def snapshot(base):
	out = {}
	for root, dirs, files in os.walk(base):
		for f in files:
			out[os.path.join(root, f)] = get(os.path.join(root, f))
		for x in dirs:
			out[os.path.join(root, x) + "/"] = None
	return out

def contained(s, before, after, out):
	out = os.path.realpath(out)
	for p in after:
		if p in before and before[p] == after[p]:
			continue
		q = os.path.realpath(p)
		if not (q + "/").startswith(out + "/"):
			s.violate("inside-output-folder", "%s was created or changed" %
				os.path.relpath(p, out))
	for p in before:
		if p not in after:
			s.violate("nothing-deleted", os.path.relpath(p, out))

def extract_case(s, r):
	m = s.mod("rescene.main")
	d = s.dir()
	root = os.path.join(d, "p", "q", "out")
	out = os.path.join(root, "o")
	os.makedirs(out)
	stored = []
	for _ in range(r.randint(1, 4)):
		n = r.choice(EVIL + (rname(r), rname(r), "same.nfo", "a/same.nfo", "Sub\\y.nfo"))
		if r.random() < 0.25:
			n = evil_name(r, r.choice((None, "/", "\\")))
		if n.startswith("/abs"):
			n = os.path.join(d, "abs")
		stored.append((n, g.rbytes(r, r.randint(0, 300))))
	pre = {}
	for n, c in stored:
		if not bad_elements(n) and r.random() < 0.3:
			q = os.path.join(out, *n.replace("\\", "/").split("/"))
			if not os.path.exists(q):
				try:
					put(q, b"already here")
					pre[q] = b"already here"
				except (OSError, NotADirectoryError):
					pass
	srr = os.path.join(d, "x.srr")
	put(srr, g.srr_header("x") + b"".join(g.srr_stored(n, c) for n, c in stored))
	allow = r.random() < 0.3
	flat = r.random() < 0.3
	one = r.choice(("", "", r.choice(stored)[0], os.path.basename(r.choice(stored)[0])))
	s.note(stored=[(n, c) for n, c in stored], overwrite=allow, extract_paths=not flat,
		packed_name=one, existing=sorted(os.path.relpath(q, out) for q in pre))
	before = snapshot(d)
	how = r.choice(("extract", "reconstruct"))
	save = m.can_overwrite
	if allow:
		m.can_overwrite = lambda p: True
	cwd = os.getcwd()
	os.chdir(root)
	target = r.choice((out, "o", "./o", os.path.join(root, "o", "")))
	err = None
	res = []
	try:
		if how == "extract":
			res = m.extract_files(srr, target, not flat, one)
		else:
			one = ""
			m.reconstruct(srr, d, target, not flat)
	except ValueError as e:
		err = e
	except (IsADirectoryError, NotADirectoryError, FileExistsError, PermissionError) as e:
		err = e       # a name that is a folder of another one
	finally:
		m.can_overwrite = save
		os.chdir(cwd)
	after = snapshot(d)
	contained(s, before, after, out)
	if not allow:
		for q in pre:
			if after.get(q) != pre[q]:
				s.violate("existing-kept", os.path.relpath(q, out))
	last = {}
	for n, c in stored:
		if bad_elements(n):
			continue
		e = n.replace("\\", "/").split("/")
		q = os.path.join(out, *(e[-1:] if flat else e))
		last.setdefault(q, []).append(c)
	for q in after:
		if q.startswith(out) and after[q] is not None and q not in before:
			if q not in last or after[q] not in last[q]:
				s.violate("stored-bytes", "%s holds other bytes" % os.path.relpath(q, out))
	if any(bad_elements(n) for n, c in stored) and err is None:
		s.violate("refused", "names %r were accepted" % [n for n, c in stored if
			bad_elements(n)])
	if err is None and not one:
		for q in last:
			if q not in after:
				s.violate("extracted", os.path.relpath(q, out))
			if q not in pre and after[q] not in last[q] or \
					q in pre and allow and after[q] not in last[q]:
				s.violate("stored-bytes", os.path.relpath(q, out))
	if err is None and one and how == "extract":
		want = set()
		for n, c in stored:
			e = n.replace("\\", "/").split("/")
			q = os.path.join(out, *(e[-1:] if flat else e))
			if one == os.path.basename(one) == e[-1] or os.path.normpath(one) == "/".join(e):
				want.add(q)
		new = set(q for q in after if q not in before and after[q] is not None)
		if new - want:
			s.violate("only-the-named-file", "%r" % sorted(os.path.relpath(q, out)
				for q in new - want))
		if want - set(after):
			s.violate("extracted", "%r" % sorted(want - set(after)))
	s.seen((len(stored), allow, flat, bool(one), how, type(err).__name__))

def volume_name_case(s, r):
	"""Volume names and archived names out of the SRR."""
	m = s.mod("rescene.main")
	d = s.dir()
	root = os.path.join(d, "p", "q", "out")
	out = os.path.join(root, "o")
	src = os.path.join(root, "src")
	os.makedirs(out)
	os.makedirs(src)
	vn = r.choice(EVIL + ("x.rar", "CD1/x.rar", "CD1\\x.rar", "../x.rar"))
	if r.random() < 0.3:
		vn = evil_name(r, r.choice((None, "/", "\\")))
	if vn.startswith("/abs"):
		vn = os.path.join(d, "abs.rar")
	fnm = r.choice(("f.bin", "f.bin", "dir\\f.bin", "..\\f.bin", "..\\..\\f.bin", "/f", "a/b",
		evil_name(r, "\\")))
	content = b"secret"
	for q in (os.path.join(src, "f.bin"), os.path.join(src, "dir", "f.bin"),
			os.path.join(root, "f.bin"), os.path.join(d, "p", "q", "f.bin")):
		put(q, content)
	if fnm.count("\\") > 2:
		# the file the name leads to, and every folder on the way
		q = src
		for e in fnm.split("\\")[:-1]:
			q = os.path.normpath(os.path.join(q, e))
			if not (q + "/").startswith(d + "/"):
				break
			os.makedirs(q, exist_ok=True)
		else:
			q = os.path.normpath(os.path.join(q, fnm.split("\\")[-1]))
			if (q + "/").startswith(d + "/") and not os.path.exists(q):
				put(q, content)
	f = g.F(fnm, content)
	rs = g.RarSet("x", [f])
	srr = os.path.join(d, "x.srr")
	if not vn:
		return
	put(srr, g.srr_header("x") + g.srr_rar(vn) + rs.vols[0].srr)
	exist = None
	if not bad_elements(vn) and r.random() < 0.4:
		exist = os.path.join(out, *vn.replace("\\", "/").split("/"))
		put(exist, b"already here")
	s.note(volume=vn, archived=fnm, exists=bool(exist))
	before = snapshot(d)
	rc = err = None
	try:
		rc = m.reconstruct(srr, src, out)
	except (ValueError, m.FileNotFound) as e:
		err = e
	after = snapshot(d)
	contained(s, before, after, out)
	if exist and after.get(exist) != b"already here":
		s.violate("existing-kept", vn)
	if bad_elements(vn) and err is None:
		s.violate("refused", "volume name %r was accepted" % vn)
	if bad_elements(fnm) and err is None and not exist and not bad_elements(vn):
		s.violate("refused", "archived name %r was accepted" % fnm)
	if err is None and not exist and not bad_elements(vn):
		q = os.path.join(out, *vn.replace("\\", "/").split("/"))
		if after.get(q) != rs.vols[0].data:
			s.violate("stored-bytes", "volume %r" % vn)

@search("C06", "containment", "names with empty, dot, parent and rooted elements in every place; "
	"existing files; nested scratch folders")
def c06(s):
	while s.more():
		s.case(lambda: extract_case(s, s.rng))
		s.case(lambda: volume_name_case(s, s.rng))

# -- C20 -------------------------------------------------------------------------
def info_case(s, r):
	m = s.mod("rescene.main")
	d = s.dir()
	x = Srr(r, prefixes=("", "CD1/", "cd2/"), base=r.choice((None, "CAPS.Rel")))
	if r.random() < 0.3 and x.sets:
		# the same volume names in two folders
		p, a = x.sets[0]
		o = dict(a.o)
		o.pop("self")
		files = [g.F("other%d.bin" % i, f.data + b"!", time=f.time) for i, f in
			enumerate(a.files) if not f.isdir]
		o["files"] = files
		b = g.RarSet(**o)
		x.sets = [("CD1/", a), ("CD2/", b)]
		x.stored = [z for z in x.stored if not z[0].lower().endswith(".sfv")]
		x.stored += [("CD1/" + a.o["base"] + ".sfv", a.sfv().encode()),
			("CD2/" + b.o["base"] + ".sfv", b.sfv().encode())]
	extra_sfv = []
	if r.random() < 0.3:
		x.stored.append(("subs/s.sfv", b"; some comment\r\nsubs-x.rar 0123abcd\r\nbad line\r\n"))
	p = os.path.join(d, "x.srr")
	if not x.sets:
		x.stored.append(("some.nfo", b"n" * 20))
	put(p, x.bytes())
	s.note(srr=x.note())
	i = m.info(p)
	if i["appname"] != x.app:
		s.violate("appname", "%r, expected %r" % (i["appname"], x.app))
	got = [(f.file_name, f.file_size) for f in i["stored_files"].values()]
	want = [(n, len(c)) for n, c in x.stored]
	if got != want:
		s.violate("stored-files", "%r, expected %r" % (got, want))
	sfv = {}
	sfv_names = set()
	for n, c in x.stored:
		if n.lower().endswith(".sfv") and not n.startswith("subs/"):
			sfv_names.add(n)
	got = sorted((f.file_name, f.file_size) for f in i["rar_files"].values())
	want = sorted((pp + v.name, len(v.data)) for pp, rs in x.sets for v in rs.vols)
	if got != want:
		s.violate("volumes", "%r, expected %r" % (got, want))
	for f in i["rar_files"].values():
		for pp, rs in x.sets:
			for v in rs.vols:
				if pp + v.name == f.file_name and pp + rs.o["base"] + ".sfv" in sfv_names:
					c = "%08X" % g.crc(v.data)
					if getattr(f, "crc32", None) != c:
						s.violate("volume-checksum", "%s: %r, expected %s" % (f.file_name,
							getattr(f, "crc32", None), c))
	arch = {}
	for pp, rs in x.sets:
		for f in rs.files:
			arch[f.name] = f
	names = [f.name for pp, rs in x.sets for f in rs.files]
	if len(set(names)) == len(names):
		got = [(f.file_name, f.file_size, f.crc32) for f in i["archived_files"].values()]
		want = [(f.name, len(f.data), "%08X" % g.crc(f.data)) for pp, rs in x.sets
			for f in rs.files]
		if sorted(got) != sorted(want):
			s.violate("archived-files", "%r, expected %r" % (got, want))
	got = [tuple(o) for o in i["oso_hashes"]]
	want = [(n, "%016x" % h, z) for n, z, h in x.oso]
	if got != want:
		s.violate("oso-hashes", "%r, expected %r" % (got, want))
	if any(n == "subs/s.sfv" for n, c in x.stored):
		if [(e.file_name, e.crc32) for e in i["sfv_entries"]] != [("subs-x.rar", "0123abcd")]:
			s.violate("sfv-entries", "%r" % i["sfv_entries"])
		if list(i["sfv_comments"]) != ["; some comment", "bad line"]:
			s.violate("sfv-comments", "%r" % i["sfv_comments"])
	elif i["sfv_entries"]:
		s.violate("sfv-entries", "%r" % i["sfv_entries"])
	rec = sum(ln for pp, rs in x.sets for v in rs.vols for k, q, h, ln in v.blocks if k == "rr")
	got = i["recovery"].file_size if i["recovery"] else 0
	if got != rec:
		s.violate("recovery", "%d, expected %d" % (got, rec))
	if bool(i["compression"]):
		s.violate("compression", "store mode set reported as compressed")
	# content hash
	h = m.content_hash(p)
	if h != m.content_hash(p):
		s.violate("content-hash-same", "not deterministic")
	y = p + "2"
	sets = [(pp, v) for pp, rs in x.sets for v in rs.vols]
	dup = len(set(v.name.lower() for pp, v in sets)) < len(sets)
	r.shuffle(sets)
	up = r.choice((str.upper, str.lower, str))
	b = g.srr_header(r.choice(("", "another")))
	parts = [g.srr_rar(up(r.choice(("", "x/") if not dup else (pp,)) + v.name)) + v.srr
		for pp, v in sets]
	parts += [g.srr_stored(rname(r) + ".z%d" % k, b"abc" * k) for k in range(r.randint(0, 3))]
	oso = [g.srr_oso("a.avi", 7, 9)] if r.random() < 0.3 else []
	r.shuffle(parts)
	# a stored file or hash block ends the volume before it: no padding in between
	if not sets:
		parts.append(g.srr_stored("another.nfo", b"abc"))
	put(y, b + b"".join(parts) + b"".join(oso))
	if m.content_hash(y) != h:
		s.violate("content-hash-same", "other order, case, stored files")
	if sets:
		k = r.randrange(len(sets))
		pp, v = sets[k]
		hdrs = [z for z in v.blocks if z[0] not in ("mark", "pad") and len(z[2]) > 7]
		if hdrs:
			z = r.choice(hdrs)
			# change one header bit that keeps the structure
			q = v.srr.find(z[2])
			nb = bytearray(v.srr)
			where = r.choice((0, 1))         # the header checksum
			nb[q + where] ^= 1 << r.randrange(8)
			parts = [g.srr_rar(pq + w.name) + (bytes(nb) if w is v else w.srr)
				for pq, w in sets]
			put(y, g.srr_header("") + b"".join(parts))
			s.note(changed=(pp + v.name, z[0], where))
			if m.content_hash(y) == h:
				s.violate("content-hash-differs", "changed header of %s" % v.name)
		if len(sets) > 1:
			parts = [g.srr_rar(pq + w.name) + w.srr for pq, w in sets if w is not v]
			put(y, g.srr_header("") + b"".join(parts))
			if m.content_hash(y) == h:
				s.violate("content-hash-differs", "without %s" % v.name)
	s.seen((len(sets), dup, len(x.stored)))

@search("C20", "info_against_generator", "SRR files with up to 3 sets of up to 40 volumes, same "
	"names in other folders; changed order, case, stored files")
def c20(s):
	while s.more():
		s.case(lambda: info_case(s, s.rng))
