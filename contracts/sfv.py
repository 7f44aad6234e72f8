"""C12: SFV files.

Lines and texts are abstract: a stand-in answers what the parser asks of it (is it blank, does
it start with a semicolon, where is its last space, is that a checksum) in any consistent way."""
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
import re

U = "rescene.utility."

class C(object):
	vc_ghost = True

class Rec(object):
	"""a list of results: what one step adds"""
	vc_ghost = True
	def __init__(self):
		self.added = []
	def append(self, x):
		self.added.append(x)

class Line(object):
	"""a line of bytes; form says how much of it was cut off"""
	vc_ghost = True
	def __init__(self, st, form=()):
		self.st, self.form = st, frozenset(form)
	def strip(self, *a):
		return self.cut(a, "l", "r")
	def lstrip(self, *a):
		return self.cut(a, "l")
	def rstrip(self, *a):
		return self.cut(a, "r")
	def cut(self, a, *f):
		if a:
			raise Unsupported("strip of something else than white space")
		return Line(self.st, self.form | set(f))
	def __bool__(self):
		if "l" not in self.form and "r" not in self.form:
			raise Unsupported("is a line empty")
		return not self.st.blank
	def startswith(self, x):
		if x != b";":
			raise Unsupported("startswith")
		if "l" not in self.form and self.st.indented:
			return False
		return not self.st.blank and self.st.comment
	def decode(self, enc="utf-8", errors="strict"):
		if enc.lower().replace("_", "-") not in ("latin-1", "latin1", "iso-8859-1"):
			# other encodings cannot take every byte
			raise Unsupported("decoding as " + enc)
		return Text(self.st, self.form)

class Text(object):
	"""a decoded line; tabs: replaced by spaces"""
	vc_ghost = True
	def __init__(self, st, form, tabs=False):
		self.st, self.form, self.tabs = st, form, tabs
	def replace(self, a, b):
		if a != "\t" or b.strip(" ") or not b:
			raise Unsupported("replace")
		return Text(self.st, self.form, True)
	def strip(self):
		return Text(self.st, self.form | {"l", "r"}, self.tabs)
	def rstrip(self):
		return Text(self.st, self.form | {"r"}, self.tabs)
	def rindex(self, x):
		if x != " " or "r" not in self.form:
			raise Unsupported("rindex")
		# with tabs as they are the last separator may be missed
		self.st.v.check("tabs-separate-too", self.tabs)
		if not self.st.space:
			raise ValueError("substring not found")
		return Place(self.st)
	def rfind(self, x):
		try:
			return self.rindex(x)
		except ValueError:
			return -1
	def __getitem__(self, s):
		if not isinstance(s, slice) or s.step is not None:
			raise Unsupported("a character of a line")
		if s.start is None and isinstance(s.stop, Place) and s.stop.d == 0:
			return Field(self.st, "name")
		if s.stop is None and isinstance(s.start, Place) and s.start.d in (0, 1):
			return Field(self.st, "crc", s.start.d == 1)
		raise Unsupported("slice of a line")
	def __eq__(self, o):
		return isinstance(o, Text) and o.st is self.st and o.form == self.form
	__hash__ = None

class Place(object):
	vc_ghost = True
	def __init__(self, st, d=0):
		self.st, self.d = st, d
	def __add__(self, n):
		return Place(self.st, self.d + n)
	__radd__ = __add__
	def __lt__(self, n):
		return False if n <= 0 else NotImplemented
	def __eq__(self, n):
		return False if n == -1 else NotImplemented
	__hash__ = None

class Field(object):
	vc_ghost = True
	def __init__(self, st, kind, clean=False):
		self.st, self.kind, self.clean = st, kind, clean
	def strip(self):
		return Field(self.st, self.kind, True)
	def lstrip(self):
		return Field(self.st, self.kind, self.clean or self.kind == "crc")
	rstrip = lambda self: self

class Data(object):
	"""the file: lines end with \\n or \\r"""
	vc_ghost = True
	def __init__(self, st, cr=True):
		self.st, self.cr = st, cr
	def replace(self, a, b):
		if (a, b) == (b"\r", b"\n"):
			return Data(self.st, False)
		if (a, b) == (b"\r\n", b"\n"):
			return Data(self.st, self.cr)
		raise Unsupported("replace")
	def split(self, x):
		if x != b"\n":
			raise Unsupported("split")
		self.st.v.check("all-line-ends", not self.cr)
		n = self.st.v.fresh_int("lines", 1)
		it = C()
		it.vc_iter = lambda: (n.e, lambda k: self.st.line)
		return it

@contract("C12", "line_classification", [U + "parse_sfv_data"], iters=400,
	note="SfvEntry by contract; abstract lines")
def line_classification(v):
	"""A line adds one item to one of the three lists; blank lines none; nothing fails."""
	u = v.mod("rescene.utility")
	if not v.symbolic:
		data = v.bytes("data", 0, 60, 60)
		r = v.choice("mix", [b"", b" ;a\n", b"a b 12\r", b"\tx\t1234ABCD\n\n", b"\xa0 12"])
		data = data + r + data[::-1]
		out = v.call(u.parse_sfv_data, data)
		v.expect("never-fails", out)
		e, c, x = out.value
		n = len([l for l in data.replace(b"\r", b"\n").split(b"\n") if l.strip()])
		v.check("one-each", len(e) + len(c) + len(x) == n)
		v.check("comments", all(l.lstrip().startswith(";") for l in c))
		return
	st = C()
	st.v = v
	st.blank, st.comment = v.bool("blank"), v.bool("comment")
	st.indented = v.bool("indented")
	st.space, st.good = v.bool("space"), v.bool("good")
	st.line = Line(st)
	def entry(name, crc="00000000"):
		v.check("name-before-the-space", isinstance(name, Field) and name.kind == "name" and
			name.clean)
		v.check("checksum-behind-the-space", isinstance(crc, Field) and crc.kind == "crc" and
			crc.clean)
		if not st.good:
			raise ValueError("not a CRC32 hash")
		x = C()
		x.is_entry = True
		return x
	v.stub(U + "SfvEntry", entry)
	st.lists = None
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":empty", L["entries"] == [] and L["comments"] == [] and
					L["errors"] == [])
				return
			e, c, x = [l.added for l in st.lists]
			kind = "none" if st.blank else "comment" if st.comment else \
				"entry" if st.space and st.good else "error"
			v.check(name + ":entries", len(e) == (kind == "entry") and
				all(hasattr(i, "is_entry") for i in e))
			v.check(name + ":comments", len(c) == (kind == "comment") and
				all(isinstance(i, Text) and not i.form and not i.tabs for i in c))
			v.check(name + ":errors", len(x) == (kind == "error") and
				all(isinstance(i, Text) and "l" not in i.form and not i.tabs for i in x))
		def havoc(self, v, L):
			st.lists = [Rec(), Rec(), Rec()]
			L["entries"], L["comments"], L["errors"] = st.lists
		def frame(self, v, L):
			return [(l, "*") for l in st.lists]
	v.loop(U + "parse_sfv_data", 0, Spec())
	out = v.call(u.parse_sfv_data, Data(st))
	v.expect("never-fails", out)
	v.check("all-lists", isinstance(out.value, tuple) and list(out.value) == st.lists)

@contract("C12", "checksum_field", [U + "SfvEntry.__init__", U + "SfvEntry.set_crc_32",
	U + "SfvEntry.get_crc_32"], iters=2000)
def checksum_field(v):
	"""One to eight hexadecimal digits, padded with zeros; anything else is refused."""
	u = v.mod("rescene.utility")
	if not v.symbolic:
		t = v.text("crc")
		if v.bool("hex"):
			t = "".join(c for c in "%X%x" % (v.int("a", 0, 1 << 40), v.int("b", 0, 1 << 20)))[
				:v.int("n", 0, 10)]
		out = v.call(u.SfvEntry, "a b.rar", t)
		v.expect("accepted-or-refused", out, ValueError)
		good = 1 <= len(t) <= 8 and all(c in "0123456789abcdefABCDEF" for c in t)
		v.check("accepted", out.ok == good)
		if good:
			v.check_eq("padded", out.value.crc32, "0" * (8 - len(t)) + t)
			v.check_eq("name", out.value.file_name, "a b.rar")
		return
	# the pattern decides on every text of up to nine characters of every kind
	st = C()
	n = v.choice("length", list(range(10)))
	kinds = ["a", "F", "0", "9", "g", " ", "z", "\n", "\xb2"] if n <= 1 else ["f", "g"]
	t = "".join(v.choice("c%d" % i, kinds) for i in range(min(n, 2)))
	t += "7" * (n - len(t))
	out = v.call(u.SfvEntry, "a b.rar", t)
	v.expect("accepted-or-refused", out, ValueError)
	good = 1 <= len(t) <= 8 and all(c in "0123456789abcdefABCDEF" for c in t)
	v.check("accepted", out.ok == good, repr(t))
	if good:
		v.check_eq("padded", out.value.crc32, "0" * (8 - len(t)) + t)

class Low(object):
	"""a text whose lower case form is the number n"""
	vc_ghost = True
	def __init__(self, n, low=False):
		self.n, self.low = n, low
	def lower(self):
		return Low(self.n, True)
	def upper(self):
		return Low(self.n, True)
	casefold = lower

@contract("C12", "duplicates", [U + "filter_sfv_duplicates"], iters=300,
	note="the builtin sorted is trusted")
def duplicates(v):
	"""An entry stays when no earlier entry has its name and checksum, whatever the case."""
	u = v.mod("rescene.utility")
	if not v.symbolic:
		names = ["a.rar", "A.rar", "b.r00", "b.R00", "c"]
		es = [u.SfvEntry(names[x % 5], "%08x" % (x // 5 % 2 + 170) if x % 3 else "%08X" %
			(x // 5 % 2 + 170)) for x in v.intlist("entries", 0, 60)]
		out = v.call(u.filter_sfv_duplicates, list(es))
		v.expect("returns", out)
		first = []
		for e in es:
			if not any(e == f for f in first):
				first.append(e)
		v.check("first-of-each", sorted(map(id, first)) == sorted(map(id, out.value)))
		return
	st = C()
	e = C()
	e.file_name, e.crc32 = Low(1), Low(2)
	class Seen(object):
		vc_ghost = True
		def __init__(self):
			self.new = False
		def key(self, k):
			v.check("key", isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, Low) and
				x.low for x in k) and [x.n for x in k] == [1, 2])
		def __contains__(self, k):
			self.key(k)
			return self.new or st.known
		def add(self, k):
			self.key(k)
			self.new = True
	it = C()
	it.vc_iter = lambda: (v.fresh_int("entries", 0).e, lambda k: e)
	def srt(x, key=None, reverse=False):
		v.check("sorts-the-result", isinstance(x, Rec) and key is None and not reverse)
		st.sorted = C()
		return st.sorted
	u.sorted = srt
	v.ctx.undo.append(lambda: delattr(u, "sorted"))
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":nothing-seen", L["result"] == [] and L["seen"] == set())
				return
			v.check(name + ":known", st.known or st.seen.new)
			v.check(name + ":kept", st.rec.added == ([] if st.known else [e]))
		def havoc(self, v, L):
			st.known = v.bool("known")
			L["result"] = st.rec = Rec()
			L["seen"] = st.seen = Seen()
			for x in ("key",):
				L[x] = None
		def frame(self, v, L):
			return [(st.rec, "*"), (st.seen, "*")]
	v.loop(U + "filter_sfv_duplicates", 0, Spec())
	out = v.call(u.filter_sfv_duplicates, it)
	v.expect("returns", out)
	v.check("sorted", out.value is st.sorted)
