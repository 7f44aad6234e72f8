"""Texts made of parts: an opaque prefix of any content and length, literal characters, single
symbolic digits and runs of digits (a number with zero padding).

What the code asks about such a text (does it match this pattern, does it end with that, are
these two equal) becomes a question about regular languages and word equations, answered by the
string solvers of z3 and cvc5.  A question that may go either way forks the path and is
remembered as a fact."""
import re, time
import z3
try:
	import re._parser as sre_parse, re._constants as K
except ImportError:
	import sre_parse, sre_constants as K
from . import core
from .core import Unsupported
from .values import SymInt, SymBool, mk, mkb, ze

_ALL = "".join(map(chr, range(0x110000)))
_CACHE = {}
RS = z3.ReSort(z3.StringSort())

def C():
	return core.ctx()

# -- regular languages ---------------------------------------------------------
def esc(s):
	return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)

def lit(s):
	if not s.isascii():
		raise Unsupported("a literal outside ASCII")
	return z3.StringVal(esc(s))

def ranges(chars):
	out, a, b = [], None, None
	for c in sorted(map(ord, chars)):
		if a is not None and c == b + 1:
			b = c
			continue
		if a is not None:
			out.append((a, b))
		a = b = c
	if a is not None:
		out.append((a, b))
	return out

def union(l):
	l = list(l)
	return l[0] if len(l) == 1 else z3.Union(*l) if l else z3.Empty(RS)

def concat(*l):
	return l[0] if len(l) == 1 else z3.Concat(*l)

EPS = z3.Re("")
ANYSTR = z3.Full(RS)

# Characters outside ASCII are told apart only as far as a pattern can: by \d, \s, \w and by
# the ASCII letters they equal when case is ignored.  Four characters stand for each kind, so
# that up to two pairs of different texts of one kind stay different.
_ATOMS = (r"\d", r"\s", r"\w", r"(?i:i)", r"(?i:k)", r"(?i:s)")
REPS = 4

def alphabet():
	if "alphabet" not in _CACHE:
		kinds = {}
		sets = [set(re.findall(a, _ALL[128:])) for a in _ATOMS]
		for c in _ALL[128:]:
			kinds.setdefault(tuple(c in s for s in sets), []).append(c)
		table, n = [], 128
		for k in sorted(kinds):
			m = min(REPS, len(kinds[k]))
			table.append((frozenset(kinds[k]), range(n, n + m)))
			n += m
		_CACHE["alphabet"] = (table, n)
	return _CACHE["alphabet"]

def code(chars):
	"""The codes of a set of characters in the small alphabet."""
	chars = set(chars)
	out = {ord(c) for c in chars if ord(c) < 128}
	high = {c for c in chars if ord(c) >= 128}
	for kind, codes in alphabet()[0]:
		both = len(kind & high)
		if both == len(kind):
			out.update(codes)
		elif both:
			raise Unsupported("a pattern with particular characters outside ASCII")
	return {chr(x) for x in out}

def chars_of(pat, flags):
	"""The language of a one-character pattern, as the re module itself sees it."""
	k = (pat, int(flags))
	if k not in _CACHE:
		_CACHE[k] = union(z3.Range(esc(chr(a)), esc(chr(b))) for a, b in
			ranges(code(re.findall(pat, _ALL, flags))))
	return _CACHE[k]

def anytext():
	return z3.Star(z3.Range(esc("\0"), esc(chr(alphabet()[1] - 1))))

_CAT = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s",
	K.CATEGORY_NOT_SPACE: r"\S", K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}

def set_source(items):
	out = "["
	for op, av in items:
		if op is K.NEGATE:
			out += "^"
		elif op is K.LITERAL:
			out += re.escape(chr(av)) if chr(av) != "^" else "\\^"
		elif op is K.RANGE:
			out += "%s-%s" % tuple(re.escape(chr(x)) for x in av)
		elif op is K.CATEGORY:
			out += _CAT[av]
		else:
			raise Unsupported("pattern: " + str(op))
	return out + "]"

def single(op, av, flags):
	f = flags & (re.I | re.S | re.A)
	if op is K.LITERAL:
		return chars_of(re.escape(chr(av)), f)
	if op is K.NOT_LITERAL:
		return chars_of("[^%s]" % re.escape(chr(av)), f)
	if op is K.ANY:
		return chars_of(".", f)
	if op is K.IN:
		return chars_of(set_source(av), f)
	return None

class End(object):
	"""what was consumed, and after $ nothing but one line break may follow"""
	def __init__(self, lang):
		self.lang = lang

def walk(x, items, flags):
	"""x: the language of what was consumed so far, from the start of the text."""
	for i, (op, av) in enumerate(items):
		if isinstance(x, End):
			raise Unsupported("pattern: something after $")
		s = single(op, av, flags)
		if s is not None:
			x = concat(x, s)
		elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
			lo, hi, sub = av
			l = walk(EPS, list(sub), flags)
			if has_look(list(sub)) or isinstance(l, End):
				raise Unsupported("pattern: a repeated assertion")
			if hi is K.MAXREPEAT or hi == K.MAXREPEAT:
				r = z3.Star(l) if lo == 0 else z3.Plus(l) if lo == 1 else \
					concat(z3.Loop(l, lo, lo), z3.Star(l))
			else:
				r = z3.Loop(l, lo, hi) if hi else EPS
			x = concat(x, r)
		elif op is K.SUBPATTERN:
			g, add, dele, sub = av
			if add or dele:
				raise Unsupported("pattern: inline flags")
			x = walk(x, list(sub), flags)
		elif op is K.BRANCH:
			alts = [walk(x, list(a), flags) for a in av[1]]
			ends = [isinstance(a, End) for a in alts]
			if any(ends) and not all(ends):
				raise Unsupported("pattern: $ in one alternative")
			x = End(union(a.lang for a in alts)) if any(ends) else union(alts)
		elif op is K.AT:
			if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and not flags & re.M:
				x = z3.Intersect(x, EPS)
			elif av is K.AT_END and not flags & re.M:
				x = End(union([x, concat(x, z3.Re(lit("\n")))]))
			elif av is K.AT_END_STRING:
				x = End(x)
			else:
				raise Unsupported("pattern: " + str(av))
		elif op in (K.ASSERT, K.ASSERT_NOT) and av[0] < 0:
			l = walk(EPS, list(av[1]), flags)
			behind = concat(ANYSTR, l)
			x = z3.Intersect(x, behind if op is K.ASSERT else z3.Complement(behind))
		else:
			raise Unsupported("pattern: " + str(op))
	return x

def has_look(items):
	for op, av in items:
		if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
			return True
		if op is K.SUBPATTERN and has_look(list(av[3])) or op is K.BRANCH and \
				any(has_look(list(a)) for a in av[1]) or op in (K.MAX_REPEAT, K.MIN_REPEAT) and \
				has_look(list(av[2])):
			return True
	return False

def language(pattern, flags=0, how="match"):
	"""All texts the pattern matches (match: from the start, fullmatch, search)."""
	k = ("lang", pattern, int(flags), how)
	if k not in _CACHE:
		p = sre_parse.parse(pattern, int(flags))
		flags = int(p.state.flags)
		x = walk(ANYSTR if how == "search" else EPS, list(p), flags)
		if isinstance(x, End):
			x = x.lang
			if how == "fullmatch":
				raise Unsupported("fullmatch with $")
		elif how != "fullmatch":
			x = concat(x, ANYSTR)
		_CACHE[k] = x
	return _CACHE[k]

# -- parts -----------------------------------------------------------------------
class Opaque(object):
	def __init__(self, name, lang=None):
		self.name, self.lang = name, lang
		self.z = z3.String(name)
	def facts(self):
		return [z3.InRe(self.z, anytext() if self.lang is None else self.lang)]
	def vlen(self):
		n = z3.Int("len." + self.name)
		C().axiom(n >= 0)
		return n

class Digit(object):
	"""one digit: an integer term between 0 and 9"""
	def __init__(self, e):
		self.e = z3.simplify(e)
		self.z = z3.String("digit(%s)" % self.e.sexpr())
	def facts(self):
		f = [z3.InRe(self.z, z3.Range("0", "9"))]
		for c in range(10):
			if C().entails(self.e == c):
				f.append(self.z == str(c))
		return f
	def vlen(self):
		return z3.IntVal(1)

ND = z3.Function("number_of_digits", z3.IntSort(), z3.IntSort())

def nd(e):
	c = C()
	c.axiom(ND(e) >= 1)
	c.axiom(z3.Implies(e >= 0, ND(e) <= ND(e + 1)))
	for i in range(1, 8):
		c.axiom(z3.Implies(e >= 0, (ND(e) <= i) == (e < 10 ** i)))
	return ND(e)

class Run(object):
	"""a number, padded with zeros to the width w"""
	def __init__(self, k, w):
		self.k, self.w = z3.simplify(k), z3.simplify(w)
		self.z = z3.String("run(%s,%s)" % (self.k.sexpr(), self.w.sexpr()))
	def facts(self):
		f = [z3.InRe(self.z, z3.Plus(z3.Range("0", "9")))]
		one = z3.InRe(self.z, concat(z3.Star(z3.Re("0")), z3.Re("1")))
		zero = z3.InRe(self.z, z3.Plus(z3.Re("0")))
		for val, r in ((1, one), (0, zero)):
			if C().entails(self.k == val):
				f.append(r)
			elif C().entails(self.k != val):
				f.append(z3.Not(r))
		return f
	def vlen(self):
		n = nd(self.k)
		return z3.If(self.w > n, self.w, n)

def norm(parts):
	out = []
	for p in parts:
		if isinstance(p, str):
			if out and isinstance(out[-1], str):
				out[-1] += p
			elif p:
				out.append(p)
		else:
			out.append(p)
	return out

def of(x):
	if isinstance(x, Txt):
		return x
	if type(x) is str:
		return Txt([x])
	raise Unsupported("a text is combined with %s" % type(x).__name__)

def zstr(parts):
	l = [lit(p) if isinstance(p, str) else p.z for p in parts]
	return z3.Concat(*l) if len(l) > 1 else l[0] if l else z3.StringVal("")

# -- questions -------------------------------------------------------------------
STATS = {"queries": 0, "secs": 0.0}

def path_facts():
	return C().shared.setdefault("text facts", [])

def known(*texts):
	seen, out = set(), list(path_facts())
	parts = list(C().shared.get("text inputs", {}).values()) + \
		[p for t in texts for p in t.parts]
	for p in parts:
		if not isinstance(p, str) and p.z.sexpr() not in seen:
			seen.add(p.z.sexpr())
			out += p.facts()
	return out

def solve(facts, want_model=False):
	"""sat / unsat / unknown for a set of facts about texts."""
	s = z3.Solver()
	s.set("timeout", 4000)
	s.add(*facts)
	key = s.sexpr()
	if key in _CACHE and not (want_model and _CACHE[key][0] == z3.sat):
		return _CACHE[key]
	t = time.time()
	r = s.check()
	m = s.model() if r == z3.sat else None
	if r == z3.unknown and C().second is not None and not want_model:
		st = C().second(list(facts), z3.BoolVal(False))[0]
		r = z3.unsat if st == "unsat" else r
	STATS["queries"] += 1
	STATS["secs"] += time.time() - t
	C().solver_secs += time.time() - t
	C().queries += 1
	_CACHE[key] = (r, m)
	return r, m

def entailed(goal, *texts):
	return solve(known(*texts) + [z3.Not(goal)])[0] == z3.unsat

def decide(cond, *texts):
	"""The truth of a condition on texts; forks when both are possible."""
	f = known(*texts)
	no = solve(f + [cond])[0] == z3.unsat
	if no:
		return False
	if solve(f + [z3.Not(cond)])[0] == z3.unsat:
		return True
	# which digits are they?  The facts about numbers and those about texts stay together
	for t in texts:
		for p in t.parts:
			if isinstance(p, Digit) and not any(C().entails(p.e == c) for c in range(10)):
				for c in range(10):
					if C().branch(p.e == c):
						break
				return decide(cond, *texts)
			if isinstance(p, Run):
				if not any(C().entails(q) for c in (0, 1) for q in (p.k == c, p.k != c)):
					C().branch(p.k == 1) or C().branch(p.k == 0)
					return decide(cond, *texts)
				raise Unsupported("a question about the digits of a number")
	r = C().branch(z3.Bool(C().fresh("text")))
	path_facts().append(cond if r else z3.Not(cond))
	return r

def oblige(name, goal, *texts):
	"""An obligation about texts."""
	c = C()
	r, m = solve(known(*texts) + [z3.Not(goal)])
	if r == z3.unsat:
		c.check(name, True)
		return
	if r == z3.unknown:
		raise Unsupported("%s: the string solvers do not know" % name)
	c.shared["text model"] = m
	c.check(name, False)

def value_of(part):
	"""For counter-models: a concrete text for an opaque part."""
	def conc(_):
		c = core.CTX
		m = c.shared.get("text model")
		if m is None:
			r, m = solve(known(), True)
		if m is None:
			return None
		s = m.eval(part.z, model_completion=True).as_string()
		s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda x: chr(int(x.group(1), 16)), s)
		return "".join(c if ord(c) < 128 else next((min(k) for k, r in alphabet()[0]
			if ord(c) in r), "?") for c in s)
	return conc

# -- the text ---------------------------------------------------------------------
class Txt(object):
	vc_ghost = True
	vc_concat = True
	def __init__(self, parts):
		self.parts = norm(parts)
	def z(self):
		return zstr(self.parts)
	def vlen(self):
		n = z3.IntVal(0)
		for p in self.parts:
			n = n + (len(p) if isinstance(p, str) else p.vlen())
		return mk(n)
	def __add__(self, o):
		if not isinstance(o, (Txt, str)):
			return NotImplemented
		return Txt(self.parts + of(o).parts)
	def __radd__(self, o):
		return Txt(of(o).parts + self.parts)
	def chars(self, n):
		"""(rest, the last n characters as parts of length one)"""
		ps, out = list(self.parts), []
		while len(out) < n:
			if not ps:
				raise Unsupported("a text that may be too short")
			p = ps.pop()
			if isinstance(p, str):
				take = min(len(p), n - len(out))
				out = list(p[len(p) - take:]) + out
				if take < len(p):
					ps.append(p[:-take])
			elif isinstance(p, Digit):
				out.insert(0, p)
			else:
				raise Unsupported("a character of an unknown part of a text")
		return ps, out
	def back(self, i):
		"""distance from the end of an index"""
		if isinstance(i, SymInt):
			d = z3.simplify(i.e - ze(self.vlen()))
			if not z3.is_int_value(d):
				raise Unsupported("an index into a text")
			return -d.as_long()
		return -i if i < 0 else None
	def __getitem__(self, i):
		if isinstance(i, slice):
			if i.step is not None:
				raise Unsupported("a slice of a text")
			a = 0 if i.start in (0, None) and not isinstance(i.start, SymInt) else \
				self.back(i.start)
			b = 0 if i.stop is None else self.back(i.stop)
			if a is None or b is None or b is not None and b < 0:
				raise Unsupported("a slice of a text")
			rest, tail = self.chars(b)
			if i.start is None or type(i.start) is int and i.start == 0:
				return Txt(rest)
			if a < b:
				return ""
			return simple(Txt(Txt(rest).chars(a - b)[1]))
		d = self.back(i)
		if d is None or d < 1:
			raise Unsupported("a character of a text")
		return simple(Txt(self.chars(d)[1][:1]))
	def __iter__(self):
		raise Unsupported("the characters of a text")
	def _no(self, *a):
		raise Unsupported("the value of a text")
	__str__ = __repr__ = __format__ = __int__ = __index__ = __mod__ = __bool__ = _no
	def __bool__(self):
		if any(isinstance(p, (str, Digit, Run)) for p in self.parts):
			return True
		return not decide(self.z() == "", self)
	def __eq__(self, o):
		if not isinstance(o, (Txt, str)):
			return NotImplemented
		return equal(self, of(o))
	def __ne__(self, o):
		r = self.__eq__(o)
		return r if r is NotImplemented else not r
	__hash__ = None
	def change(self, f):
		out = []
		for p in self.parts:
			if isinstance(p, str):
				out.append(getattr(p, f)())
			elif isinstance(p, Opaque):
				out.append(Opaque("%s.%s" % (p.name, f), p.lang))
			else:
				out.append(p)
		return Txt(out)
	def lower(self):
		return self.change("lower")
	def upper(self):
		return self.change("upper")
	def endswith(self, x, *a):
		if a:
			raise Unsupported("endswith")
		xs = x if isinstance(x, tuple) else (x,)
		return any(ends(self, of(q)) for q in xs)
	def startswith(self, x, *a):
		if a:
			raise Unsupported("startswith")
		xs = x if isinstance(x, tuple) else (x,)
		return any(decide(z3.PrefixOf(of(q).z(), self.z()), self, of(q)) for q in xs)
	def isdigit(self):
		ps = pieces(self.parts)
		if any(isinstance(p, str) and not p.isdigit() for p in ps):
			return False
		if any(isinstance(p, Opaque) for p in ps):
			raise Unsupported("isdigit")
		return True
	isdecimal = isdigit
	def vc_contains(self, x):
		return decide(z3.Contains(self.z(), of(x).z()), self, of(x))
	def number(self):
		if len(self.parts) == 1 and isinstance(self.parts[0], Run):
			return self.parts[0]
		ps = []
		for p in self.parts:
			if isinstance(p, str):
				if not p.isdigit() or not p.isascii():
					raise Unsupported("the number in a text")
				ps += [z3.IntVal(int(c)) for c in p]
			elif isinstance(p, Digit):
				ps.append(p.e)
			else:
				raise Unsupported("the number in a text")
		if not ps:
			raise Unsupported("the number in a text")
		r = z3.IntVal(0)
		for p in ps:
			r = r * 10 + p
		return Run(r, z3.IntVal(len(ps)))
	def vc_int(self, *a):
		if a and a != (10,):
			raise Unsupported("int")
		return mk(self.number().k)
	def vc_str(self):
		return self
	def zfill(self, w):
		n = self.number()
		e = ze(w)
		return Txt([Run(n.k, z3.If(n.w > e, n.w, e))])
	def rjust(self, w, fill=" "):
		if fill != "0":
			raise Unsupported("rjust")
		return self.zfill(w)
	def vc_ord(self):
		if len(self.parts) == 1 and isinstance(self.parts[0], Digit):
			return mk(self.parts[0].e + 48)
		if len(self.parts) == 1 and isinstance(self.parts[0], str) and \
				len(self.parts[0]) == 1:
			return ord(self.parts[0])
		raise Unsupported("ord of a text")
	def rpartition(self, sep):
		ps, after = list(self.parts), []
		while ps:
			p = ps.pop()
			if isinstance(p, str) and sep in p:
				a, s, b = p.rpartition(sep)
				return (simple(Txt(ps + [a])), s, simple(Txt([b] + after)))
			if isinstance(p, Opaque) or len(sep) != 1 or sep.isdigit():
				raise Unsupported("rpartition")
			after.insert(0, p)
		return ("", "", self)
	def rsplit(self, sep=None, maxsplit=-1):
		if sep is None or maxsplit != 1:
			raise Unsupported("rsplit")
		a, s, b = self.rpartition(sep)
		return [a, b] if s else [b]

def simple(t):
	"""a plain str when nothing in the text is symbolic"""
	if not t.parts:
		return ""
	if len(t.parts) == 1 and isinstance(t.parts[0], str):
		return t.parts[0]
	return t

def pieces(parts):
	"""characters and symbolic parts"""
	out = []
	for p in parts:
		out += list(p) if isinstance(p, str) else [p]
	return out

def part_eq(a, b):
	"""condition for two parts to be equal; None when unclear"""
	if isinstance(a, str) and isinstance(b, str):
		return z3.BoolVal(a == b)
	if isinstance(a, Digit) and isinstance(b, Digit):
		return a.e == b.e
	if isinstance(a, str) and isinstance(b, Digit):
		a, b = b, a
	if isinstance(a, Digit) and isinstance(b, str):
		return a.e == int(b) if b in "0123456789" else z3.BoolVal(False)
	if isinstance(a, Run) and isinstance(b, Run):
		return z3.And(a.k == b.k, a.vlen() == b.vlen())
	if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
		return z3.BoolVal(True)
	return None

def align(a, b):
	"""equality of two texts with the same shape, or None"""
	a, b = pieces(a.parts), pieces(b.parts)
	pre, post = [], []
	while a and b:
		c = part_eq(a[-1], b[-1])
		if c is None:
			break
		post.append(c)
		a.pop()
		b.pop()
		if z3.is_false(z3.simplify(c)):
			return z3.BoolVal(False)
	while a and b:
		c = part_eq(a[0], b[0])
		if c is None:
			break
		pre.append(c)
		a.pop(0)
		b.pop(0)
	if a or b:
		return None
	return z3.And(*(pre + post)) if pre or post else z3.BoolVal(True)

def ends(t, q):
	"""does t end with q?"""
	a, b, cs = pieces(t.parts), pieces(q.parts), []
	while b:
		c = part_eq(a[-1], b[-1]) if a else None
		if c is None:
			return decide(z3.SuffixOf(q.z(), t.z()), t, q)
		if z3.is_false(z3.simplify(c)):
			return False
		cs.append(c)
		a.pop()
		b.pop()
	return C().branch(z3.And(*cs)) if cs else True

def equal(a, b):
	c = align(a, b)
	if c is not None:
		return mkb(c)
	return decide(a.z() == b.z(), a, b)

def same(a, b):
	"""For specifications: the condition that two texts are equal (never forks)."""
	if isinstance(a, str) and isinstance(b, str):
		return a == b
	if not isinstance(a, (Txt, str)) or not isinstance(b, (Txt, str)):
		return False
	a, b = of(a), of(b)
	c = align(a, b)
	if c is not None:
		return mkb(c)
	f = known(a, b)
	if solve(f + [a.z() != b.z()])[0] == z3.unsat:
		return True
	return False

# -- mutable characters ---------------------------------------------------------
class Chars(object):
	"""list(text): only what is near the end can be looked at"""
	vc_ghost = True
	def __init__(self, t):
		self.t = t
		self.set = {}
	def vlen(self):
		return self.t.vlen()
	def pos(self, i):
		d = self.t.back(i)
		if d is None or d < 1:
			raise Unsupported("an index into the characters of a text")
		return d
	def __getitem__(self, i):
		if isinstance(i, slice):
			raise Unsupported("a slice of characters")
		d = self.pos(i)
		if d in self.set:
			return self.set[d]
		return simple(Txt(self.t.chars(d)[1][:1]))
	def __setitem__(self, i, x):
		d = self.pos(i)
		self.t.chars(d)
		if type(x) is str and len(x) != 1 or isinstance(x, Txt) and len(pieces(x.parts)) != 1:
			raise Unsupported("a character is replaced by a longer text")
		self.set[d] = x
	def __iter__(self):
		raise Unsupported("the characters of a text")
	def vc_join(self, sep):
		if sep:
			raise Unsupported("join")
		n = max(self.set) if self.set else 0
		rest, tail = self.t.chars(n)
		for d, x in self.set.items():
			tail[n - d] = x if isinstance(x, str) else of(x).parts[0]
		return simple(Txt(rest + tail))

def vc_list(x=()):
	return Chars(x) if isinstance(x, Txt) else list(x)

def vc_chr(x):
	if isinstance(x, SymInt):
		if C().entails(z3.And(x.e >= 48, x.e <= 57)):
			return Txt([Digit(x.e - 48)])
		raise Unsupported("chr")
	return chr(x)

# -- the re module ---------------------------------------------------------------
class Match(object):
	vc_ghost = True
	def __init__(self, t, pattern, flags):
		self.t, self.pattern, self.flags = t, pattern, flags
		self.found = None
	def __bool__(self):
		return True
	def split(self):
		"""The one way to cut the text into the top-level items of the pattern."""
		if self.found is not None:
			return self.found
		p = sre_parse.parse(self.pattern, int(self.flags))
		flags = int(p.state.flags)
		items = list(p)
		if items and items[-1][0] is K.AT and items[-1][1] in (K.AT_END, K.AT_END_STRING):
			items.pop()
		else:
			raise Unsupported("groups of an open pattern")
		if has_look(items):
			raise Unsupported("groups of a pattern with assertions")
		langs = [walk(EPS, [it], flags) for it in items]
		n = len(items)
		atoms = pieces(self.t.parts)
		sure = lambda ps, l: entailed(z3.InRe(zstr(ps), l), Txt(ps))
		def search(i, at):
			if i == n - 1:
				return [[len(atoms)]] if sure(atoms[at:], langs[i]) else []
			for e in range(at, len(atoms) + 1):
				if sure(atoms[at:e], langs[i]):
					r = search(i + 1, e)
					if r:
						return [[e] + r[0]]
			return []
		r = search(0, 0)
		if not r:
			raise Unsupported("groups of a match")
		cuts = r[0]
		got, at = [], 0
		for e in cuts:
			got.append(atoms[at:e])
			at = e
		# no other way to cut: then greediness does not matter
		xs = [z3.String("piece%d" % i) for i in range(n)]
		f = known(self.t) + [z3.Concat(*xs) == self.t.z() if n > 1 else xs[0] == self.t.z()]
		f += [z3.InRe(x, l) for x, l in zip(xs, langs)]
		f += [z3.Or(*[z3.Length(x) != z3.Length(zstr(g)) for x, g in zip(xs, got)])]
		if solve(f)[0] != z3.unsat:
			raise Unsupported("the groups of a match are not unique")
		groups = {0: self.t}
		for (op, av), g in zip(items, got):
			if op is K.SUBPATTERN and av[0] is not None:
				groups[av[0]] = simple(Txt(g))
		self.found = (groups, p.state.groups, p.state.groupdict)
		return self.found
	def group(self, *a):
		groups, n, names = self.split()
		r = []
		for i in a or (0,):
			i = names.get(i, i)
			if i not in groups:
				raise Unsupported("an inner group")
			r.append(groups[i])
		return r[0] if len(r) == 1 else tuple(r)
	__getitem__ = group
	def groups(self, default=None):
		return tuple(self.group(i) for i in range(1, self.split()[1]))

class Pattern(object):
	vc_ghost = True
	def __init__(self, real):
		self.real = real
	def __getattr__(self, n):
		return getattr(self.real, n)
	def match(self, t, *a):
		return RE.match(self.real, t) if isinstance(t, Txt) and not a else \
			self.real.match(t, *a)
	def search(self, t, *a):
		return RE.search(self.real, t) if isinstance(t, Txt) and not a else \
			self.real.search(t, *a)
	def fullmatch(self, t, *a):
		return RE.fullmatch(self.real, t) if isinstance(t, Txt) and not a else \
			self.real.fullmatch(t, *a)

class Re(object):
	"""the re module, on texts made of parts too"""
	vc_ghost = True
	def __getattr__(self, n):
		return getattr(re, n)
	def run(self, how, p, t, flags):
		if isinstance(p, Pattern):
			p = p.real
		if not isinstance(t, Txt):
			return getattr(re, how)(p, t, flags)
		if isinstance(p, re.Pattern):
			p, flags = p.pattern, p.flags
		if type(p) is not str:
			raise Unsupported("a pattern that is not plain text")
		l = language(p, int(flags), how)
		return Match(t, p, flags) if decide(z3.InRe(t.z(), l), t) else None
	def match(self, p, t, flags=0):
		return self.run("match", p, t, flags)
	def search(self, p, t, flags=0):
		return self.run("search", p, t, flags)
	def fullmatch(self, p, t, flags=0):
		return self.run("fullmatch", p, t, flags)
	def compile(self, p, flags=0):
		return p if isinstance(p, Pattern) else Pattern(re.compile(p, flags))

RE = Re()

def opaque(v, name, samples, lang=None, fits=None):
	"""An arbitrary text of a language; concrete mode: one of the samples (or the text of a
	counter-model) that fits."""
	if v.symbolic:
		p = Opaque("in." + name, lang)
		C().shared.setdefault("text inputs", {})[name] = p
		v._in(name, value_of(p))
		return Txt([p])
	x = v._get(name, lambda: v.rng.choice(samples))
	v.assume(isinstance(x, str) and (fits is None or bool(fits(x))))
	return x

def install(v, m):
	"""Texts in module m: patterns, lists of characters, chr."""
	v.patch(m, "re", RE)
	for n, x in list(vars(m).items()):
		if isinstance(x, re.Pattern):
			v.patch(m, n, Pattern(x))
	for n, f in (("list", vc_list), ("chr", vc_chr)):
		setattr(m, n, f)
		v.ctx.undo.append(lambda n=n: delattr(m, n))
	C().shared["texts"] = True
