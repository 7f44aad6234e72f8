"""C13: names of volumes.

A name is an opaque beginning (any text of any length without a line break) followed by the
characters and digits of its style.  Patterns the code matches it with become regular languages
(read by the re module's own parser), decided by the string solvers."""
import re
from pyvc.registry import contract
from pyvc import texts
import z3

U = "rescene.utility."
SAMPLES = ("a", "grp-x", "x.part01", "x.part1", "rel.2009", "CD1/a", "/t/x.rar/y", "part", "a b",
	"a.part", "x.r00", "q99", "a.001", "", "abpart3", "7", "x.Part12", "\u00e9", "y.rar",
	"a.part1.rar", "x.part7.r99", "cd\\2", "b.000", "9")

def start(v):
	m = v.mod("rescene.utility")
	if v.symbolic:
		texts.install(v, m)
		v.trusted("texts: patterns are translated from the parse tree of the re module into regular "
			"languages; characters outside ASCII are told apart as far as a pattern can")
	return m

def line(v, name, lang=None, fits=None):
	"""a text without line breaks"""
	l = None
	if v.symbolic:
		l = z3.Star(texts.chars_of(".", 0))
		if lang is not None:
			l = z3.Intersect(l, lang())
	return texts.opaque(v, name, SAMPLES, l, lambda x: "\n" not in x and
		(fits is None or fits(x)))

def digit(v, n):
	return texts.Txt([texts.Digit(n.e if hasattr(n, "e") else z3.IntVal(n))]) \
		if v.symbolic else str(n)

def run(v, k, w):
	if not v.symbolic:
		return str(k).zfill(w)
	z = lambda x: x.e if hasattr(x, "e") else z3.IntVal(x)
	return texts.Txt([texts.Run(z(k), z(w))])

def same(v, a, b):
	return texts.same(a, b) if v.symbolic else a == b

def not_part_number():
	"""beginnings that do not make `.rar` a new style name"""
	return z3.Complement(texts.language(r".*\.part\d+", re.I | re.S, "fullmatch"))

def is_part_number(x):
	return re.fullmatch(r".*\.part\d+", x, re.I | re.S) is not None

def volume(v, m, name, x):
	out = v.call(m.is_rar, x)
	v.expect(name, out)
	v.check(name, out.value is True or out.value == 1)

@contract("C13", "next_of_new_style", [U + "next_archive", U + "is_rar"], iters=300)
def next_new(v):
	"""base.partN.rar is followed by base.part(N+1).rar with the same number of digits, more
	only when needed; both are recognised."""
	m = start(v)
	p = line(v, "base")
	k = v.int("k", 0, None if v.symbolic else 10 ** 12)
	w = v.int("w", 1, None if v.symbolic else 6)
	word = v.choice("word", (".part", ".PART"))
	ext = v.choice("ext", (".rar", ".RAR"))
	num = run(v, k, w)
	name = p + word + num + ext
	volume(v, m, "recognised", name)
	out = v.call(m.next_archive, name)
	v.expect("no-exception", out)
	want = p + word + run(v, k + 1, v.len(num)) + ext
	v.check("next-number", same(v, out.value, want))
	volume(v, m, "next-recognised", want)

@contract("C13", "next_of_old_style_first", [U + "next_archive", U + "is_rar"], iters=300)
def next_first(v):
	"""base.rar is followed by base.r00, unless it is the new style; with is_old always."""
	m = start(v)
	old = v.bool("is_old")
	if old:
		p = line(v, "base")
	else:
		p = line(v, "base", not_part_number, lambda x: not is_part_number(x))
	ext = v.choice("ext", (".rar", ".RAR"))
	volume(v, m, "recognised", p + ext)
	out = v.call(m.next_archive, p + ext, True) if old else v.call(m.next_archive, p + ext)
	v.expect("no-exception", out)
	v.check("next-is-r00", same(v, out.value, p + ".r00"))

def past(v, m, out, *names):
	"""Behind the last name of a scheme: an exception or something no volume has as name."""
	if not out.ok:
		v.check("end-of-scheme", isinstance(out.exc, (AttributeError, ValueError, IndexError)))
		return
	for n in names:
		v.check("end-not-a-repeat", v.Not(same(v, out.value, n)))
	r = v.call(m.is_rar, out.value)
	v.expect("end-of-scheme", r)
	v.check("end-of-scheme", not r.value)

@contract("C13", "next_of_old_style", [U + "next_archive", U + "is_rar"], iters=300)
def next_old(v):
	"""base.r00 ... base.r99, base.s00 ... base.z99: the next one; after the last, none."""
	m = start(v)
	p = line(v, "base")
	c = v.choice("letter", tuple("rstuvwxyz"))
	if v.bool("upper"):
		c = c.upper()
	a, b = v.int("tens", 0, 9), v.int("ones", 0, 9)
	name = p + "." + c + digit(v, a) + digit(v, b)
	volume(v, m, "recognised", name)
	old = v.bool("is_old")
	out = v.call(m.next_archive, name, old)
	n = a * 10 + b
	if n < 99:
		carry = v.ite(b == 9, 1, 0)
		want = p + "." + c + digit(v, a + carry) + digit(v, v.ite(b == 9, 0, b + 1))
	elif c not in "zZ":
		want = p + "." + chr(ord(c) + 1) + "00"
	else:
		past(v, m, out, name)
		return
	v.expect("no-exception", out)
	v.check("next-volume", same(v, out.value, want))

@contract("C13", "next_of_numbers", [U + "next_archive", U + "is_rar"], iters=300)
def next_num(v):
	"""base.000 ... base.999"""
	m = start(v)
	p = line(v, "base")
	a, b, c = [v.int("d%d" % i, 0, 9) for i in range(3)]
	name = p + "." + digit(v, a) + digit(v, b) + digit(v, c)
	volume(v, m, "recognised", name)
	out = v.call(m.next_archive, name, v.bool("is_old"))
	n = a * 100 + b * 10 + c
	if n == 999:
		past(v, m, out, name)
		return
	x = n + 1
	v.expect("no-exception", out)
	want = p + "." + digit(v, x // 100) + digit(v, x // 10 % 10) + digit(v, x % 10)
	v.check("next-volume", same(v, out.value, want))

@contract("C13", "only_volumes_are_recognised", [U + "is_rar", U + "next_archive"], iters=300)
def only_volumes(v):
	"""For every ASCII name: recognised exactly when it ends in .rar, .rNN to .zNN or .NNN;
	the next-volume rule refuses every other name."""
	m = start(v)
	ascii_ = lambda: z3.Star(texts.chars_of(r"[\x00-\x09\x0b-\x7f]", 0))
	p = line(v, "name", ascii_, lambda x: x.isascii())
	tail = v.choice("tail", ("", ".rar", ".r05", ".t9", ".999", ".rar ", ".q00", ".r0a", ".0001",
		"rar", "r00", "000", ".rr00", ".cbr", ".exe", ".rarx", ".RAR", ".A00", ".R99"))
	name = p + tail
	out = v.call(m.is_rar, name)
	v.expect("no-exception", out)
	spec = r".*\.([rR][aA][rR]|[r-zR-Z][0-9][0-9]|[0-9][0-9][0-9])"
	if v.symbolic:
		name = texts.of(name)
		want = texts.decide(z3.InRe(name.z(), texts.language(spec, re.S, "fullmatch")), name)
	else:
		want = re.fullmatch(spec, name, re.S) is not None
	v.check("recognised-iff-volume", (not out.value) != want)
	if want:
		return
	nxt = v.call(m.next_archive, name)
	v.check("refuses-other-names", not nxt.ok and isinstance(nxt.exc, AttributeError))

def old_base():
	# base<N>.rar with "part" before the number looks like the new style: not in a collection
	return z3.Intersect(z3.Complement(texts.language(r".*part\d+", re.I | re.S, "fullmatch")),
		z3.Plus(texts.chars_of(".", re.S)))

def old_base_ok(x):
	return x != "" and re.fullmatch(r".*part\d+", x, re.I | re.S) is None

def a_set(v, i):
	"""(first volume, any later volume) of a set in one of the styles"""
	style = v.choice("style%d" % i, ("old", "new", "num1", "num0"))
	n = "base%d" % i
	if style == "old":
		p = line(v, n, old_base, old_base_ok)
		if v.bool("ext%d" % i):
			return p + ".RAR", p + ".R" + digit(v, v.int("a%d" % i, 0, 9)) + \
				digit(v, v.int("b%d" % i, 0, 9))
		return p + ".rar", p + "." + v.choice("l%d" % i, ("r", "s", "z")) + \
			digit(v, v.int("a%d" % i, 0, 9)) + digit(v, v.int("b%d" % i, 0, 9))
	p = line(v, n)
	if style == "new":
		w = v.int("w%d" % i, 1, None if v.symbolic else 4)
		k = v.int("k%d" % i, 2, None if v.symbolic else 1000)
		word = v.choice("word%d" % i, (".part", ".Part"))
		return p + word + run(v, 1, w) + ".rar", p + word + run(v, k, w) + ".rar"
	a, b, c = [v.int("%s%d" % (x, i), 0, 9) for x in "abc"]
	f = 0 if style == "num0" else 1
	v.assume(a * 100 + b * 10 + c > f)
	return p + ".00%d" % f, p + "." + digit(v, a) + digit(v, b) + digit(v, c)

def chosen(v, m, names, want):
	out = v.call(m.first_rars, v.choice("how", (list, iter, tuple))(names))
	v.expect("no-exception", out)
	got = list(out.value)
	v.check("one-first-per-set", len(got) == len(want))
	for i, w in enumerate(want):
		v.check("first-of-set-%d" % i, v.Or(*[same(v, g, w) for g in got]))

@contract("C13", "first_of_one_set", [U + "first_rars"], max_paths=20000, iters=300,
	bounded="collections of three names")
def first_one(v):
	"""The first volume is chosen from one set, wherever it is in the list."""
	m = start(v)
	f, l = a_set(v, 0)
	names = [f, l]
	at = v.choice("at", (0, 1))
	names = names if at == 0 else names[::-1]
	if v.bool("other"):
		names.insert(v.choice("where", (0, 1, 2)), v.choice("extra", ("x.sfv", "y.nfo")))
	chosen(v, m, names, [f])

@contract("C13", "first_of_two_sets", [U + "first_rars"], max_paths=20000, iters=300,
	bounded="collections of two sets, two names of one of them")
def first_two(v):
	"""Two sets with different first names: the first volume of each."""
	m = start(v)
	f, l = a_set(v, 0)
	g, _ = a_set(v, 1)
	if v.symbolic:
		a, b = texts.of(f), texts.of(g)
		pa, pb = texts.Txt(a.parts[:1]), texts.Txt(b.parts[:1])
		texts.path_facts().append(pa.z() != pb.z())
	else:
		v.assume(v.used["base0"] != v.used["base1"])
	names = [[f, l, g], [g, l, f], [l, g, f]][v.choice("order", (0, 1, 2))]
	chosen(v, m, names, [f, g])
