"""C21: the sample tables of an MP4 track.

Tables are abstract sequences of any length: chunk offsets OFF(k), samples per chunk, sizes
of samples with prefix sums S.  Chunk and sample objects are stand-ins that only know their
place in these sequences; the stream is a file with any content."""
import z3
from pyvc.registry import contract
from pyvc.instrument import LoopSpec
from pyvc.core import Unsupported
from pyvc import core, models
from pyvc.values import ze, mk, mkb

M = "resample.main."

class C(object):
	vc_ghost = True

def ax(v, *facts):
	for f in facts:
		v.ctx.axiom(f)

def fun(v, name):
	return z3.Function(v.ctx.fresh(name), z3.IntSort(), z3.IntSort())

class Row(object):
	"""a list of n abstract elements; as in Python, out of range is an IndexError"""
	vc_ghost = True
	def __init__(self, v, n, elem):
		self.v, self.n, self.elem = v, n, elem
	def vc_iter(self):
		return ze(self.n), lambda k: self.elem(mk(z3.simplify(k) if z3.is_expr(k) else k))
	def vlen(self):
		return self.n
	def __len__(self):
		raise Unsupported("len of an abstract list")
	def __iter__(self):
		raise Unsupported("an abstract list without a loop contract")
	def __getitem__(self, k):
		if isinstance(k, slice):
			return Part(self, k)
		if k < 0:
			k = k + self.n
		if k < 0 or k >= self.n:
			raise IndexError("list index out of range")
		return self.elem(k)
	def __bool__(self):
		return bool(self.n > 0)

class Part(object):
	"""row[a:b] for 0 <= a"""
	vc_ghost = True
	def __init__(self, row, s):
		v = row.v
		if s.step is not None:
			raise Unsupported("slice step")
		a = 0 if s.start is None else s.start
		b = row.n if s.stop is None else s.stop
		v.check("slice-from-the-front", v.And(a >= 0, b >= 0))
		n = row.n
		self.row = row
		self.a = v.ite(a < n, a, n)
		self.b = v.ite(b < n, b, n)
		self.b = v.ite(self.b < self.a, self.a, self.b)
	def vlen(self):
		return self.b - self.a

def enumerated(v, m):
	def enum(x, start=0):
		if not hasattr(x, "vc_iter"):
			return enumerate(x, start)
		n, e = x.vc_iter()
		r = C()
		r.vc_iter = lambda: (n, lambda k: (mk(k if z3.is_expr(k) else z3.IntVal(k)) + start, e(k)))
		return r
	m.enumerate = enum
	v.ctx.undo.append(lambda: delattr(m, "enumerate"))

def summed(v, m, S):
	"""the builtin sum, on a part of the row: a difference of prefix sums"""
	def total(x, start=0):
		if isinstance(x, Part):
			return mk(S(ze(x.b)) - S(ze(x.a))) + start
		if isinstance(x, Row):
			return mk(S(ze(x.n))) + start
		return sum(x, start)
	m.sum = total
	v.ctx.undo.append(lambda: delattr(m, "sum"))

# -- the expanded run table --------------------------------------------------------------

def expanded(runs):
	out = []
	for i, (first, per, desc) in enumerate(runs):
		last = runs[i + 1][0] if i + 1 < len(runs) else first + 1
		out += [(c, per, desc) for c in range(first, last)]
	return out

class Table(object):
	"""the expanded table: entry by entry compared when it is added"""
	vc_ghost = True
	def __init__(self, v, check, count=0):
		self.v, self.check, self.count = v, check, count
	def append(self, t):
		v = self.v
		if not isinstance(t, tuple) or len(t) != 3:
			v.fail("entry", repr(t))
		c = self.count + 1
		v.check_eq("chunk-number", t[0], c)
		self.check(c, t)
		self.count = c
	def vlen(self):
		return self.count

@contract("C21", "expanded_runs", [M + "stsc"], iters=300,
	note="runs as the format wants them: the first chunk is 1, then increasing")
def expanded_runs(v):
	"""Chunk number c gets the values of the last run that starts at or before c."""
	m = v.mod("resample.main")
	if not v.symbolic:
		runs, first = [], 1
		for x in v.intlist("gaps", 1, 9):
			runs.append((first, v.int("per%d" % len(runs), 1, 50), len(runs) % 3))
			first += x
		out = v.call(m.stsc, list(runs))
		v.expect("returns", out)
		v.check("table", [tuple(x) for x in out.value] == expanded(runs))
		return
	n = v.int("runs", 0)
	F, S, D = fun(v, "first"), fun(v, "per"), fun(v, "desc")
	ax(v, F(z3.IntVal(0)) == 1)
	def elem(k):
		k = ze(k)
		ax(v, z3.Implies(k >= 1, F(k) > F(k - 1)), F(k) >= 1)
		return (mk(F(k)), mk(S(k)), mk(D(k)))
	old = Row(v, n, elem)
	st = C()
	def check(c, t):
		k = ze(st.k)
		first = mk(F(k))
		v.check("not-behind-the-run", c <= first)
		# chunks before the run belong to the run before it
		r = z3.If(ze(c) < F(k), k - 1, k)
		v.check("of-a-run", mk(r) >= 0)
		v.check("samples-per-chunk", mkb(ze(t[1]) == S(r)))
		v.check("description", mkb(ze(t[2]) == D(r)))
	class Outer(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":empty", L["new"] == [] and L["index"] == 1)
				st.k = None
				return
			v.check(name + ":up-to-the-run", mkb(ze(L["new"].count) == F(ze(L.k) - 1)))
			v.check(name + ":index", L["index"] == L["new"].count + 1)
			v.check(name + ":run", v.And(mkb(ze(L["prev_samples_per_chunk"]) == S(ze(L.k) - 1)),
				mkb(ze(L["prev_sample_description_index"]) == D(ze(L.k) - 1))))
		def havoc(self, v, L):
			k = ze(L.k)
			st.k = L.k
			if L.k == 0:
				cnt = 0
				L["prev_samples_per_chunk"] = L["prev_sample_description_index"] = None
			else:
				elem(L.k - 1)
				cnt = mk(F(k - 1))
				L["prev_samples_per_chunk"] = mk(S(k - 1))
				L["prev_sample_description_index"] = mk(D(k - 1))
			st.table = L["new"] = Table(v, check, cnt)
			L["index"] = cnt + 1
		def frame(self, v, L):
			return [(st.table, "*")]
	class Fill(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				st.at = L["index"]
			v.check(name + ":index", L["index"] == st.at + L.k)
			v.check(name + ":count", st.table.count == L["index"] - 1)
		def havoc(self, v, L):
			L["index"] = st.at + L.k
			st.table.count = L["index"] - 1
		def frame(self, v, L):
			return [(st.table, "*")]
	v.loop(M + "stsc", 0, Outer())
	v.loop(M + "stsc", 1, Fill())
	out = v.call(m.stsc, old)
	v.expect("returns", out)
	if n == 0:
		v.check("empty", v.len(out.value) == 0)
	else:
		v.check("complete", mkb(ze(out.value.count) == F(ze(n) - 1)))

# -- chunks of a track -------------------------------------------------------------------

class Chunks(object):
	vc_ghost = True
	def __init__(self):
		self.added = []
	def append(self, c):
		self.added.append(c)

@contract("C21", "chunks_of_a_track", [M + "mp4_add_track_stream", M + "TrackStream.add_chunk",
	M + "TrackStream.__init__", M + "TrackChunk.__init__"], iters=100)
def chunks_of_a_track(v):
	"""Chunk k has the sizes that follow those of the chunks before it, as many as its run
	says (the last entry of the table counts on), and links to its neighbours."""
	m = v.mod("resample.main")
	t = C()
	if not v.symbolic:
		t.chunk_offsets = [10 * x for x in v.intlist("offsets", 0, 99)]
		n = len(t.chunk_offsets)
		e = v.int("entries", 1, max(1, n))
		t.chunk_lengths = [(k + 1, v.int("per%d" % k, 0, 5), 1) for k in range(e)]
		t.sample_lengths = v.intlist("sizes", 0, 1000)
		sizes = list(t.sample_lengths)
		out = v.call(m.mp4_add_track_stream, t)
		v.expect("returns", out)
		cs = t.trackstream.chunks
		v.check("chunks", [c.chunk_offset for c in cs] == t.chunk_offsets)
		at = 0
		for k, c in enumerate(cs):
			per = t.chunk_lengths[min(k, e - 1)][1]
			v.check("samples", list(c.samples) == sizes[at:at + per])
			v.check("number", c.samples_in_chunk == len(c.samples))
			at += per
			v.check("links", c.prev_chunk is (cs[k - 1] if k else None) and
				c.next_chunk is (cs[k + 1] if k + 1 < n else None))
		return
	n, e, s = v.int("chunks", 0), v.int("entries", 1), v.int("samples", 0)
	OFF, PER, P = fun(v, "offset"), fun(v, "per"), fun(v, "before")
	st = C()
	def per(k):
		"""samples that chunk k should have"""
		k = ze(k)
		r = PER(z3.If(k < ze(e), k, ze(e) - 1))
		ax(v, r >= 0)
		return r
	def entry(k):
		ax(v, PER(ze(k)) >= 0)
		return (k + 1, mk(PER(ze(k))), 1)
	t.chunk_offsets = Row(v, n, lambda k: mk(OFF(ze(k))))
	t.chunk_lengths = Row(v, e, entry)
	t.sample_lengths = Row(v, s, lambda k: None)
	enumerated(v, m)
	st.n = 0
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":start", L["samples_amount"] == 0 and L["prev_chunk"] is None and
					L["ts"].chunks == [])
				return
			k = ze(L.k) - 1
			add = st.chunks.added
			v.check(name + ":one-chunk", len(add) == 1)
			c = add[0]
			v.check(name + ":offset", mkb(ze(c.chunk_offset) == OFF(k)))
			x = c.samples
			if isinstance(x, list) and not x:
				x = Part(t.sample_lengths, slice(0, 0))
			v.check(name + ":sizes", isinstance(x, Part) and x.row is t.sample_lengths)
			a, b = P(k), P(k) + per(k)
			lim = lambda y: z3.If(y < ze(s), y, ze(s))
			v.check(name + ":samples", v.Or(v.And(mkb(ze(x.a) == lim(a)), mkb(ze(x.b) == lim(b))),
				v.And(x.vlen() == 0, mkb(lim(a) == lim(b)))))
			v.check(name + ":number", c.samples_in_chunk == x.vlen())
			v.check(name + ":previous", c.prev_chunk is st.prev)
			if st.prev is not None:
				v.check(name + ":next", st.prev.next_chunk is c)
			v.check(name + ":last", L["prev_chunk"] is c and c.next_chunk is None)
			v.check(name + ":samples-before", mkb(ze(L["samples_amount"]) == P(k) + per(k)))
		def havoc(self, v, L):
			k = ze(L.k)
			ax(v, P(z3.IntVal(0)) == 0, P(k) >= 0)
			st.chunks = Chunks()
			st.ts = L["ts"]
			st.ts.chunks = st.chunks
			st.prev = None
			if L.k > 0:
				st.prev = m.TrackChunk(mk(OFF(k - 1)), 0, None)
			L["prev_chunk"] = st.prev
			L["samples_amount"] = mk(P(k))
		def frame(self, v, L):
			return [(st.ts, "*"), (st.prev, "*"), (st.chunks, "*")]
	v.loop(M + "mp4_add_track_stream", 0, Spec())
	out = v.call(m.mp4_add_track_stream, t)
	v.expect("returns", out)
	v.check("is-the-track", out.value is t and t.trackstream is st.ts)

# -- one chunk ---------------------------------------------------------------------------

def real_chunk(v, m):
	sizes = v.intlist("sizes", 0, 500)
	c = m.TrackChunk(v.int("offset", 0, 1 << 40), len(sizes), None)
	c.samples = sizes
	return c

def chunk(v, m):
	"""a real chunk object with any sizes"""
	if not v.symbolic:
		c = real_chunk(v, m)
		return c, len(c.samples), lambda k: sum(c.samples[:k])
	n = v.int("samples", 0)
	Z, S = fun(v, "size"), fun(v, "sum")
	def size(k):
		k = ze(k)
		ax(v, S(z3.IntVal(0)) == 0, Z(k) >= 0, S(k + 1) == S(k) + Z(k), S(k) >= 0)
		return mk(Z(k))
	c = m.TrackChunk(v.int("offset", 0), n, None)
	c.samples = Row(v, n, size)
	summed(v, m, S)
	ax(v, S(z3.IntVal(0)) == 0)
	return c, n, lambda k: mk(S(ze(k)))

@contract("C21", "left_in_chunk", [M + "TrackChunk.bytes_left_in_chunk"], iters=100)
def left_in_chunk(v):
	m = v.mod("resample.main")
	c, n, S = chunk(v, m)
	k = v.int("k", 0, 1 << 40 if v.symbolic else 12)
	v.assume(k <= n)
	out = v.call(c.bytes_left_in_chunk, k)
	v.expect("returns", out)
	v.check("sum-of-the-rest", out.value == S(n) - S(k))

@contract("C21", "consumed_of_chunk", [M + "TrackChunk.bytes_consumed"], iters=100)
def consumed_of_chunk(v):
	m = v.mod("resample.main")
	c, n, S = chunk(v, m)
	k = v.int("k", 0, 1 << 40 if v.symbolic else 12)
	v.assume(k <= n)
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			v.check(name + ":prefix", L["amount"] == S(L.k))
		def havoc(self, v, L):
			L["amount"] = S(L.k)
	v.loop(M + "TrackChunk.bytes_consumed", 0, Spec())
	out = v.call(c.bytes_consumed, k)
	v.expect("returns", out)
	v.check("sum-of-the-first", out.value == S(k))

@contract("C21", "sample_at_offset", [M + "TrackChunk.get_sample_nb"], iters=200)
def sample_at_offset(v):
	"""For the start of sample w: a sample that starts there (w itself, or one without
	bytes before it).  Between two starts: refused."""
	m = v.mod("resample.main")
	c, n, S = chunk(v, m)
	inside = v.bool("inside")
	w = v.int("w", 0, 1 << 40 if v.symbolic else 12)
	v.assume(w < n)
	d = 0
	if inside:
		d = v.int("d", 1, 1 << 40 if v.symbolic else 600)
		v.assume(w + 1 < n)
		c.samples[w]
		v.assume(S(w) + d < S(w + 1))
		if v.symbolic:
			# no start between two that follow each other
			st0 = c.samples.elem
	offset = c.chunk_offset + S(w) + d
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			v.check(name + ":sum", L["sample_sum"] == S(L.k))
			v.check(name + ":count", L["count"] == L.k)
			# all starts so far lie before the offset, so:
			v.check(name + ":not-yet", L.k <= w if not inside else L.k <= w + 1)
		def havoc(self, v, L):
			L["sample_sum"], L["count"] = S(L.k), L.k
			c.samples.elem(L.k)
			# sums never decrease (lemma over sizes >= 0), used at k, w and w + 1
			k = ze(L.k)
			for x in (ze(w), ze(w) + 1):
				ax(v, z3.Implies(k <= x, ze(S(mk(k))) <= ze(S(mk(x)))),
					z3.Implies(k >= x, ze(S(mk(k))) >= ze(S(mk(x)))))
			v.assume(L.k <= w if not inside else L.k <= w + 1)
	v.loop(M + "TrackChunk.get_sample_nb", 0, Spec())
	out = v.call(c.get_sample_nb, offset)
	if inside:
		v.expect("refused", out, m.InvalidMatchOffset)
		v.check("not-accepted", not out.ok)
		return
	v.expect("returns", out)
	v.check("in-the-chunk", v.And(out.value >= 0, out.value <= w))
	v.check("starts-there", c.chunk_offset + S(out.value) == offset)

# -- the stream over the chunks ----------------------------------------------------------

class Ch(object):
	"""chunk j of the track, by the contracts above"""
	vc_ghost = True
	def __init__(self, st, j):
		self.st, self.j = st, j
		self.chunk_offset = st.off(j)
		self.samples_in_chunk = st.cnt(j)
	@property
	def next_chunk(self):
		if self.j + 1 < self.st.n:
			return self.st.chunk(self.j + 1)
		return None
	@property
	def prev_chunk(self):
		return self.st.chunk(self.j - 1) if self.j > 0 else None
	def bytes_left_in_chunk(self, k):
		v = self.st.v
		v.check("a-sample-of-the-chunk", v.And(k >= 0, k <= self.samples_in_chunk))
		return self.st.total(self.j) - self.st.pre(self.j, k)
	def bytes_consumed(self, k):
		v = self.st.v
		v.check("a-sample-of-the-chunk", v.And(k >= 0, k <= self.samples_in_chunk))
		return self.st.pre(self.j, k)
	def get_sample_nb(self, offset):
		self.st.asked.append((self.j, offset))
		return self.st.sample

def track(v, m):
	"""any track: n chunks at increasing places in a file"""
	st = C()
	st.v, st.m, st.asked, st.made = v, m, [], {}
	st.n = v.int("chunks", 1)
	OFF, CNT, TOT = fun(v, "offset"), fun(v, "count"), fun(v, "total")
	PRE = z3.Function(v.ctx.fresh("prefix"), z3.IntSort(), z3.IntSort(), z3.IntSort())
	st.data = v.bytes("file")
	def facts(j):
		j = ze(j)
		ax(v, OFF(j) >= 0, CNT(j) >= 0, TOT(j) >= 0, PRE(j, CNT(j)) == TOT(j),
			PRE(j, z3.IntVal(0)) == 0, OFF(j) + TOT(j) <= st.data.zlen())
		return j
	st.off = lambda j: mk(OFF(facts(j)))
	st.cnt = lambda j: mk(CNT(facts(j)))
	st.total = lambda j: mk(TOT(facts(j)))
	def pre(j, k):
		facts(j)
		r = PRE(ze(j), ze(k))
		ax(v, r >= 0, r <= TOT(ze(j)))
		return mk(r)
	st.pre = pre
	st.OFF = OFF
	def mkchunk(j):
		key = z3.simplify(ze(j)).sexpr()
		if key not in st.made:
			st.made[key] = Ch(st, j)
		return st.made[key]
	st.chunk = mkchunk
	st.ts = m.TrackStream()
	st.ts.chunks = Row(v, st.n, mkchunk)
	st.ts.stream = v.file(st.data)
	return st

@contract("C21", "stream_read", [M + "TrackStream.read"],
	note="TrackChunk by contract", iters=1)
def stream_read(v):
	"""What is left of the chunk, then chunk after chunk from its start, up to the amount or
	the end of the track; where the stream stands does not change."""
	if not v.symbolic:
		return
	m = v.mod("resample.main")
	st = track(v, m)
	ts = st.ts
	amount = v.int("amount", 0)
	if v.bool("first_use"):
		j, k = 0, 0
		o = st.off(0)
	else:
		j, k = v.int("chunk", 0), v.int("sample", 0)
		v.assume(j < st.n)
		v.assume(k <= st.cnt(j))
		ts._current_chunk, ts._current_sample = st.chunk(j), k
		o = ts._current_offset = st.off(j) + st.pre(j, k)
	left = st.total(j) - st.pre(j, k)
	st.loop = False
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			got, nc = L["firstb"], L["next_chunk"]
			if name.endswith("entry"):
				v.check(name + ":chunk", v.And(left <= amount, nc.j == j))
				v.check_eq(name + ":rest-of-chunk", got, st.data[o:o + left])
				return
			v.check(name + ":next", nc.j == st.j + 1)
			want = amount - v.len(st.got)
			tot = st.total(nc.j)
			size = v.ite(want < tot, want, tot)
			p = st.off(nc.j)
			v.check_eq(name + ":part-of-chunk", got, st.got + st.data[p:p + size])
			v.check(name + ":complete-or-enough", v.Or(size == tot, v.len(got) == amount))
		def havoc(self, v, L):
			st.loop = True
			st.j = v.fresh_int("chunk", 0)
			v.assume(v.And(st.j >= j, st.j < st.n))
			st.got = L["firstb"] = v.fresh_bytes("got")
			v.assume(v.len(st.got) <= amount)
			L["next_chunk"] = st.chunk(st.j)
		def variant(self, v, L):
			return st.n - L["next_chunk"].j
		def frame(self, v, L):
			return [(ts.stream, "*")]
	v.loop(M + "TrackStream.read", 0, Spec())
	out = v.call(ts.read, amount)
	v.expect("returns", out)
	if not st.loop:
		v.check("in-one-chunk", left > amount)
		v.check_eq("bytes", out.value, st.data[o:o + amount])
	else:
		v.check_eq("bytes", out.value, st.got)
		v.check("enough-or-end", v.Or(v.len(out.value) == amount, st.j + 1 == st.n))
	v.check("place", v.And(ts._current_offset == o, ts._current_chunk.j == j,
		ts._current_sample == k))

@contract("C21", "stream_next", [M + "TrackStream.__next__", M + "TrackStream.current_offset"],
	note="TrackChunk by contract", iters=1)
def stream_next(v):
	"""The next sample of the chunk or the first of the next chunk; false after the last."""
	if not v.symbolic:
		return
	m = v.mod("resample.main")
	st = track(v, m)
	ts = st.ts
	j, k = v.int("chunk", 0), v.int("sample", 0)
	v.assume(v.And(j < st.n, k < st.cnt(j)))
	ts._current_chunk, ts._current_sample = st.chunk(j), k
	ts._current_offset = st.off(j) + st.pre(j, k)
	out = v.call(ts.__next__)
	v.expect("returns", out)
	if k + 1 < st.cnt(j):
		v.check("next-sample", out.value is True and ts._current_chunk.j == j and
			ts._current_sample == k + 1)
		v.check("offset", ts.current_offset() == st.off(j) + st.pre(j, k + 1))
	elif j + 1 < st.n:
		v.check("next-chunk", out.value is True and ts._current_chunk.j == j + 1 and
			ts._current_sample == 0)
		v.check("offset", ts.current_offset() == st.off(j + 1))
	else:
		v.check("end", out.value is False)

@contract("C21", "stream_seek", [M + "TrackStream.seek"],
	note="increasing chunk offsets; TrackChunk by contract", iters=1)
def stream_seek(v):
	"""The chunk is the one that holds the offset."""
	if not v.symbolic:
		return
	m = v.mod("resample.main")
	st = track(v, m)
	ts = st.ts
	w = v.int("chunk", 0)
	v.assume(w < st.n)
	d = v.int("d", 0)
	st.sample = v.int("sample", 0)
	offset = st.off(w) + d
	OFF = st.OFF
	# increasing offsets; chunks do not overlap and the offset lies in chunk w
	ax(v, z3.Implies(ze(w) + 1 < ze(st.n), OFF(ze(w)) + ze(d) < OFF(ze(w) + 1)))
	def increasing(a, b):
		a, b = ze(a), ze(b)
		ax(v, z3.Implies(a < b, OFF(a) < OFF(b)), z3.Implies(b < a, OFF(b) < OFF(a)))
	old = st.chunk(0) if v.bool("used") else None
	ts._current_chunk = old
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				return
			c = ts._current_chunk
			v.check(name + ":chunk", v.Or(L.k <= w, c.j == w if isinstance(c, Ch) else False))
		def havoc(self, v, L):
			for a in (L.k, L.k - 1):
				for b in (w, w + 1):
					increasing(a, b)
			# nothing is known of the chunk before chunk w was seen
			if L.k <= w:
				ts._current_chunk = old
			else:
				ts._current_chunk = st.chunk(w)
		def frame(self, v, L):
			return [(ts, "*")]
	v.loop(M + "TrackStream.seek", 0, Spec())
	out = v.call(ts.seek, offset)
	v.expect("returns", out)
	v.check("chunk", ts._current_chunk.j == w)
	v.check("place", ts.current_offset() == offset)
	v.check("sample-by-offset", len(st.asked) == 1)
	v.check("asked-for", v.And(st.asked[0][0] == w, st.asked[0][1] == offset,
		ts._current_sample == st.sample))

# -- signature ---------------------------------------------------------------------------

@contract("C21", "track_signature", [M + "mp4_signature_bytes"], iters=60)
def track_signature(v):
	"""The first 256 bytes of the track's chunks, or all of them."""
	m = v.mod("resample.main")
	SIG = 256
	t = C()
	if not v.symbolic:
		data = v.bytes("file", 0, 4000, 4000)
		offs, sizes, runs, at, whole = [], [], [], 0, b""
		for k, g in enumerate(v.intlist("gaps", 0, 40)):
			at += g
			per = v.int("per%d" % k, 0, 4)
			z = [v.int("size%d.%d" % (k, i), 0, 200) for i in range(per)]
			if at + sum(z) > len(data):
				break
			offs.append(at)
			runs.append((k + 1, per, 1))
			sizes += z
			whole += data[at:at + sum(z)]
			at += sum(z)
		t.chunk_offsets, t.chunk_lengths, t.sample_lengths = offs, runs, sizes
		out = v.call(m.mp4_signature_bytes, t, v.path("a.mp4", data))
		v.expect("returns", out)
		v.check_eq("signature", out.value, whole[:SIG])
		return
	n, e, s = v.int("chunks", 0), v.int("entries", 1), v.int("samples", 0)
	OFF, PER, P, S = fun(v, "offset"), fun(v, "per"), fun(v, "before"), fun(v, "sum")
	data = v.bytes("file")
	st = C()
	def per(k):
		k = ze(k)
		r = PER(z3.If(k < ze(e), k, ze(e) - 1))
		ax(v, r >= 0)
		return r
	def entry(k):
		ax(v, PER(ze(k)) >= 0)
		return (k + 1, mk(PER(ze(k))), 1)
	lim = lambda y: z3.If(y < ze(s), y, ze(s))
	def size(k):
		"""bytes of chunk k"""
		k = ze(k)
		r = S(lim(P(k) + per(k))) - S(lim(P(k)))
		ax(v, r >= 0, OFF(k) + r <= data.zlen(), OFF(k) >= 0)
		return mk(r)
	t.chunk_offsets = Row(v, n, lambda k: mk(OFF(ze(k))))
	t.chunk_lengths = Row(v, e, entry)
	t.sample_lengths = Row(v, s, lambda k: None)
	enumerated(v, m)
	summed(v, m, S)
	def put(v, L):
		k = ze(L.k)
		ax(v, P(z3.IntVal(0)) == 0, P(k) >= 0)
		st.sig = v.fresh_bytes("sig")
		st.in_loop = True
		v.assume(v.len(st.sig) < SIG)
		if L.k == 0:
			v.assume(v.len(st.sig) == 0)
		st.k = L.k
		L["signature_bytes"] = st.sig
		L["previous_samples"] = mk(P(k))
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":start", v.And(L["previous_samples"] == 0,
					v.len(L["signature_bytes"]) == 0))
				return
			z, o = size(st.k), mk(OFF(ze(st.k)))
			v.check(name + ":not-enough-yet", v.len(st.sig) + z < SIG)
			v.check_eq(name + ":chunk-added", L["signature_bytes"], st.sig + data[o:o + z])
			v.check(name + ":samples-before", mkb(ze(L["previous_samples"]) == P(ze(st.k)) +
				per(st.k)))
		def havoc(self, v, L):
			put(v, L)
			size(L.k)
	st.in_loop = False
	v.loop(M + "mp4_signature_bytes", 0, Spec())
	out = v.call(m.mp4_signature_bytes, t, v.path("a.mp4", data))
	v.expect("returns", out)
	if not st.in_loop:
		v.check("empty", v.len(out.value) == 0)
	elif st.k < n:
		z, o = size(st.k), mk(OFF(ze(st.k)))
		v.check("enough", v.len(st.sig) + z >= SIG)
		v.check_eq("signature", out.value, st.sig + data[o:o + SIG - v.len(st.sig)])
	else:
		v.check_eq("signature", out.value, st.sig)

# -- finding and extracting --------------------------------------------------------------

class Walk(object):
	"""a track stream at sample i; reading there gives D(i)"""
	vc_ghost = True
	def __init__(self, v, sig_len):
		self.v, self.i, self.sig_len, self.ended = v, 0, sig_len, False
		self.seen = {}
	def read(self, n):
		self.v.check("as-much-as-asked-for", n == self.sig_len)
		k = z3.simplify(ze(self.i)).sexpr() if self.v.symbolic else self.i
		if k not in self.seen:
			self.seen[k] = self.v.fresh_bytes("data")
		return self.seen[k]
	def current_offset(self):
		return self.i * 1000 + 5
	def next(self):
		if self.v.bool("more"):
			self.i = self.i + 1
			return True
		self.ended = True
		self.i = 0       # what the real stream does: reading starts over
		return False
	__next__ = next

@contract("C21", "signature_search", [M + "mp4_find_sample_stream"], iters=1,
	note="TrackStream by contract")
def signature_search(v):
	"""A match offset is the place of a sample where the signature is read, and no earlier
	sample is one."""
	if not v.symbolic:
		return
	m = v.mod("resample.main")
	t, mt = C(), C()
	sig = v.bytes("signature", 1)
	t.signature_bytes = sig
	t.match_offset = none = C()
	st = C()
	st.closed = False
	w = mt.trackstream = Walk(v, v.len(sig))
	def add(x):
		v.check("main-track", x is mt)
		return x
	v.stub(M + "mp4_add_track_stream", add)
	def opened(fn, name=""):
		v.check("main-file", fn == "main.mp4" and name == "x")
		f = C()
		def close():
			st.closed = True
		f.close = close
		return f
	v.stub(M + "open_main", opened)
	class Spec(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":first", w.i == 0)
			same = L["data"] == sig
			if t.match_offset is none:
				v.check(name + ":not-missed", not same or w.ended)
			else:
				v.check(name + ":is-a-match", same and t.match_offset == w.current_offset())
			if name.endswith("preserved"):
				v.check(name + ":every-sample", w.ended or w.i == st.i + 1)
				v.check(name + ":told", bool(L["next_chunk"]) == (not w.ended))
		def havoc(self, v, L):
			st.i = w.i = v.fresh_int("sample", 0)
			w.ended, w.seen = False, {}
			d = w.read(v.len(sig))
			L["data"], L["next_chunk"] = d, True
			if d == sig:
				t.match_offset = w.current_offset()
			else:
				t.match_offset = none
				if v.bool("ended"):
					L["next_chunk"], w.ended = False, True
		def frame(self, v, L):
			return [(t, "*"), (w, "*")]
	v.loop(M + "mp4_find_sample_stream", 0, Spec())
	out = v.call(m.mp4_find_sample_stream, t, mt, "main.mp4", "x")
	v.expect("returns", out)
	v.check("closed", st.closed and out.value is t)
	if t.match_offset is none:
		v.check("all-samples-tried", w.ended)

@contract("C21", "track_extraction", [M + "mp4_extract_sample_stream"], iters=1,
	note="TrackStream by contract")
def track_extraction(v):
	"""The extracted track is what the main track holds from the match offset on."""
	if not v.symbolic:
		return
	m = v.mod("resample.main")
	t, mt = C(), C()
	t.match_offset, t.data_length = v.int("match"), v.int("length", 0)
	st = C()
	st.log = []
	s = mt.trackstream = C()
	got = v.bytes("read")
	def seek(o):
		st.log.append(("seek", o))
	def read(n):
		st.log.append(("read", n))
		return got
	s.seek, s.read = seek, read
	v.stub(M + "mp4_add_track_stream", lambda x: x)
	v.stub(M + "open_main", lambda fn, name="": v.file(b""))
	out = v.call(m.mp4_extract_sample_stream, t, mt, "main.mp4", "x")
	v.expect("returns", out)
	v.check("steps", [x[0] for x in st.log] == ["seek", "read"])
	v.check("place-and-length", v.And(st.log[0][1] == t.match_offset,
		st.log[1][1] == t.data_length))
	v.check_eq("extracted", v.content(t.track_file), got)

class Pairs(object):
	vc_ghost = True
	def __init__(self, check):
		self.check, self.n = check, 0
	def append(self, x):
		self.check(x)
		self.n += 1

@contract("C21", "interleaving", [M + "order_chunks"], iters=200,
	note="the builtin sorted is trusted")
def interleaving(v):
	"""All chunks of all tracks in the order of their offsets, each with its track."""
	m = v.mod("resample.main")
	if not v.symbolic:
		left = list(range(0, 1600, 100))
		tracks, exp = {}, []
		for t in range(v.int("tracks", 0, 4)):
			x = C()
			x.track_number = 7 * t + 1
			x.trackstream = C()
			x.trackstream.chunks = []
			for i in range(v.int("chunks%d" % t, 0, 4)):
				o = left.pop(v.int("o%d.%d" % (t, i), 0, 10 ** 6) % len(left))
				x.trackstream.chunks.append(m.TrackChunk(o, 1, None))
				exp.append((o, x.track_number))
			tracks[x.track_number] = x
		out = v.call(m.order_chunks, tracks)
		v.expect("returns", out)
		v.check("order", [(c.chunk_offset, t) for c, t in out.value] == sorted(exp))
		return
	st = C()
	t = C()
	t.track_number = v.int("number")
	t.trackstream = C()
	n = v.int("chunks", 0)
	chunks = {}
	def elem(k):
		key = z3.simplify(ze(k)).sexpr()
		if key not in chunks:
			c = chunks[key] = C()
			c.chunk_offset = v.fresh_int("offset", 0)
		return chunks[key]
	t.trackstream.chunks = Row(v, n, elem)
	def check(x):
		v.check("chunk", x[0] is elem(st.k))
		v.check("track", len(x) == 2 and x[1] is t.track_number)
	tracks = C()
	some = C()
	some.vc_iter = lambda: (v.fresh_int("tracks", 0).e, lambda k: t)
	tracks.values = lambda: some
	st.sorted = False
	def srt(x, key=None, reverse=False):
		v.check("sorts-all", isinstance(x, Pairs) and not reverse)
		c = C()
		c.chunk_offset = v.fresh_int("offset", 0)
		v.check("by-offset", key((c, 3)) is c.chunk_offset)
		st.sorted = C()
		return st.sorted
	m.sorted = srt
	v.ctx.undo.append(lambda: delattr(m, "sorted"))
	st.all = None
	class Outer(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":empty", L["all_chunks"] == [])
			else:
				v.check(name + ":every-chunk", mkb(ze(st.all.n) == ze(n)))
		def havoc(self, v, L):
			L["all_chunks"] = st.all = Pairs(check)
			for x in ("chunk",):
				L[x] = None
		def frame(self, v, L):
			return [(st.all, "*")]
	class Inner(LoopSpec):
		def inv(self, v, L, name):
			v.check(name + ":one-each", mkb(ze(st.all.n) == ze(L.k)))
		def havoc(self, v, L):
			st.k = L.k
			st.all.n = L.k
		def frame(self, v, L):
			return [(st.all, "*")]
	v.loop(M + "order_chunks", 0, Outer())
	v.loop(M + "order_chunks", 1, Inner())
	out = v.call(m.order_chunks, tracks)
	v.expect("returns", out)
	v.check("sorted", out.value is st.sorted)

@contract("C21", "compact_sizes", [M + "mp4_compact_sizes"], iters=300,
	bounded="tables of 4 bit fields: up to 5 samples; 8 and 16 bits: up to 4 samples symbolically")
def compact_sizes(v):
	"""The fields of a stz2 box, whatever its reserved bits."""
	m = v.mod("resample.main")
	bits = v.choice("bits", [4, 8, 16, 32])
	n = v.choice("n", list(range(5)))
	need = (n * bits + 7) // 8
	raw = v.bytes("raw", need, need)
	head = v.bytes("head", 7, 7)
	data = head + bytes([bits]) + n.to_bytes(4, "big") + raw
	out = v.call(m.mp4_compact_sizes, data)
	v.expect("returns", out, *((ValueError,) if bits == 32 else ()))
	if bits == 32:
		v.check("refused", not out.ok)
		return
	v.check("count", v.len(out.value) == n)
	for i in range(n):
		if bits == 16:
			x = raw[2 * i] * 256 + raw[2 * i + 1]
		elif bits == 8:
			x = raw[i]
		else:
			x = raw[i // 2] // 16 if i % 2 == 0 else raw[i // 2] % 16
		v.check_eq("field%d" % i, out.value[i], x)

# -- reading the tables ------------------------------------------------------------------

class Tab(object):
	"""a table of a track with n entries; expect() says what the next one must be"""
	vc_ghost = True
	def __init__(self, v, n=0):
		self.v, self.n, self.expect, self.parts = v, n, None, []
	def append(self, x):
		if self.expect is None:
			raise Unsupported("append to a table outside its loop")
		self.expect(x)
		self.n = self.n + 1
	def __iadd__(self, part):
		self.parts.append(part)
		return self
	extend = __iadd__
	def vlen(self):
		return self.n
	def __bool__(self):
		return bool(self.n > 0)

ATOMS = [b"moov", b"trak", b"mdia", b"minf", b"stbl", b"mdat", b"tkhd", b"stco", b"co64", b"stsc",
	b"stsz", b"stz2", b"udta", b"SRSF"]

def tables(v, fn, first_inner, srs):
	m = v.mod("resample.main")
	q = M + fn
	kind = v.choice("atom", ATOMS)
	header, data = v.bytes("header", 8, 16), v.bytes("data")
	st = C()
	st.log = []
	class Reader(object):
		vc_ghost = True
		def __init__(self, *a, **k):
			self.atom_type = kind
			self.current_atom = C()
			self.current_atom.raw_header = header
			self.current_atom.size = v.len(header) + v.len(data)
		def read(self):
			return v.bool("element")
		def move_to_child(self):
			st.log.append("child")
		def skip_contents(self):
			st.log.append("skip")
		def read_contents(self):
			st.log.append("read")
			return data
		def read_contents_chunks(self):
			st.log.append("chunks")
			it = C()
			it.vc_iter = lambda: (v.fresh_int("pieces", 0).e, lambda k: st.piece)
			return it
		def close(self):
			pass
	st.piece = v.bytes("piece")
	v.patch(m, "MovReader", Reader)
	summed(v, m, fun(v, "unused"))
	real_sum = m.sum
	def total(x, *a):
		if isinstance(x, Tab):
			st.log.append(("sum", x))
			return st.total
		return real_sum(x, *a)
	m.sum = total
	st.total = v.int("track_length", 0)
	st.sig = v.bytes("signature")
	def sigbytes(t, name):
		v.check("signature-of", t is st.cur and name == "a.mp4")
		st.log.append("signature")
		return st.sig
	v.stub(M + "mp4_signature_bytes", sigbytes)
	def expand(t):
		st.log.append(("expand", t))
		st.expanded = Tab(v, v.int("expanded", 0))
		return st.expanded
	v.stub(M + "stsc", expand)
	if hasattr(m, "mp4_compact_sizes"):
		def comp(d):
			st.log.append(("compact", d is data))
			st.part = C()
			return st.part
		v.stub(M + "mp4_compact_sizes", comp)
	names = ("chunk_offsets", "chunk_lengths", "sample_lengths")
	def be(o, n):
		r = 0
		for i in range(n):
			r = r * 256 + data[o + i]
		return r
	known = C()
	class Tracks(object):
		vc_ghost = True
		def __init__(self):
			self.e = [(7, known)]
		def __contains__(self, k):
			return any(bool(k == x) for x, t in self.e)
		def __getitem__(self, k):
			for x, t in reversed(self.e):
				if k is x or bool(k == x):
					return t
			raise KeyError(k)
		def get(self, k, d=None):
			return self[k] if k in self else d
		def __setitem__(self, k, t):
			self.e.append((k, t))
		def values(self):
			return [t for x, t in self.e]
	tracks = Tracks()
	known.track_number = 7
	fd = C()
	fd.name = "a.mp4"
	st.cur = None
	class Main(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check(name + ":no-track", L["current_track"] is None)
				if not srs:
					v.check(name + ":sizes", v.And(L["meta_length"] == 0, L["mdat_size"] == 0,
						fd.crc32 == 0))
				return
			cur = L["current_track"]
			chk = lambda n, c: v.check(name + ":" + n, c)
			plain = kind not in (b"moov", b"trak", b"mdia", b"minf", b"stbl", b"mdat")
			chk("how", [x for x in st.log if isinstance(x, str) and x != "signature"] ==
				(["read"] if plain else ["child"] if kind != b"mdat" or srs else
				["chunks"] if st.crcs else ["skip"]))
			if not srs:
				size = v.len(header) + v.len(data)
				chk("meta-length", L["meta_length"] == st.meta + v.len(header) +
					(v.len(data) if plain else 0))
				chk("mdat-size", L["mdat_size"] == st.mdat + (size if kind == b"mdat" else 0))
				all_ = st.seen + header
				if plain:
					all_ = all_ + data
				elif kind == b"mdat" and st.crcs:
					all_ = all_ + st.pieces
				v.check_eq(name + ":checksum", fd.crc32, v.crc(all_))
			if kind == b"tkhd":
				n = be(12, 4)
				if srs:
					chk("track", v.And(cur is known, n == 7))
				else:
					chk("new-track", cur is not st.cur and cur.track_number == n)
				chk("empty-tables", all(getattr(cur, a) == [] for a in names))
				chk("to-do", not L["track_processed"])
				return
			chk("same-track", cur is st.cur)
			if cur is None:
				return
			for a in names:
				t = getattr(cur, a)
				mine = dict(chunk_offsets=(b"stco", b"co64"), sample_lengths=(b"stsz",)).get(a, ())
				if kind == b"stsc" and a == "chunk_lengths":
					chk("expanded", t is st.expanded and ("expand", st.tabs[a]) in st.log)
					chk("run-count", st.tabs[a].n == st.n[a] + be(4, 4))
				elif kind in mine:
					chk("table-" + a, t is st.tabs[a])
					chk("entries-" + a, t.n == st.n[a] + be(8 if kind == b"stsz" else 4, 4))
				elif kind == b"stz2" and a == "sample_lengths":
					chk("compact", t is st.tabs[a] and t.parts == [st.part] and
						("compact", True) in st.log)
				else:
					chk("other-tables", t is st.tabs[a] and t.parts == [])
					chk("other-entries", t.n == st.n[a])
			full = True
			for a in names:
				full = full and bool(getattr(cur, a).n > 0)
			chk("processed", bool(L["track_processed"]) == (st.done or full))
			if not srs:
				chk("signature-once", st.log.count("signature") == (full and not st.done))
				if full and not st.done:
					v.check_eq(name + ":signature", cur.signature_bytes, st.sig)
					chk("data-length", cur.data_length == st.total and
						("sum", cur.sample_lengths) in st.log)
		def havoc(self, v, L):
			st.log = []
			st.done = bool(v.bool("processed"))
			st.cur = None
			if v.bool("in_track"):
				st.cur = known
				st.tabs, st.n = {}, {}
				for a in names:
					t = Tab(v, v.int("n_" + a, 0))
					st.tabs[a], st.n[a] = t, t.n
					setattr(known, a, t)
			else:
				st.done = False
			L["current_track"], L["track_processed"] = st.cur, st.done
			if not srs:
				st.meta, st.mdat = v.int("meta", 0), v.int("mdat", 0)
				L["meta_length"], L["mdat_size"] = st.meta, st.mdat
				st.seen = v.bytes("seen")
				fd.crc32 = v.crc(st.seen)
				L["tracks"] = tracks
			for x in ("a", "atype", "data", "track_id", "entry_count", "size", "structunp", "i", "j",
					"offset", "result_tuple", "sample_size", "sample_count", "out", "data_piece"):
				L[x] = None
		def frame(self, v, L):
			return [(fd, "*"), (known, "*"), (tracks, "*"), (st.log, "*")] + \
				[(x, "*") for x in tracks.values()]
	class Pieces(LoopSpec):
		def inv(self, v, L, name):
			if name.endswith("entry"):
				v.check_eq(name + ":header", fd.crc32, v.crc(st.seen + header))
			else:
				v.check_eq(name + ":piece", fd.crc32, v.crc(st.seen + header + self.part + st.piece))
		def havoc(self, v, L):
			self.part = st.pieces = v.fresh_bytes("pieces")
			fd.crc32 = v.crc(st.seen + header + self.part)
		def frame(self, v, L):
			return [(fd, "*")]
	class Fill(LoopSpec):
		"""entry i of the box becomes entry i of those added to the table"""
		def __init__(self, attr, value):
			self.attr, self.value = attr, value
		def inv(self, v, L, name):
			if st.cur is not None and isinstance(getattr(st.cur, self.attr), Tab):
				v.check(name + ":one-each", getattr(st.cur, self.attr).n == st.n[self.attr] + L.k)
		def havoc(self, v, L):
			for x in ("i", "j", "offset", "result_tuple", "out"):
				L[x] = None
			if st.cur is None:
				return
			t = getattr(st.cur, self.attr)
			if not isinstance(t, Tab):
				raise Unsupported("table")
			t.n = st.n[self.attr] + L.k
			k = L.k
			t.expect = lambda x: v.check("entry-of-" + self.attr, self.value(x, k))
		def frame(self, v, L):
			return [(st.cur, "*"), (getattr(st.cur, self.attr), "*")] if st.cur is not None else []
	def off(x, k):
		n = 4 if kind == b"stco" else 8
		return x == be(8 + k * n, n)
	def run(x, k):
		v.check("triple", len(x) == 3)
		return v.And(*[x[i] == be(8 + 12 * k + 4 * i, 4) for i in range(3)])
	v.loop(q, 0, Main())
	if not srs:
		v.loop(q, 1, Pieces())
	i = first_inner
	v.loop(q, i, Fill("chunk_offsets", off))
	v.loop(q, i + 1, Fill("chunk_lengths", run))
	v.loop(q, i + 2, Fill("sample_lengths", lambda x, k: x == be(12 + 4 * k, 4)))
	v.loop(q, i + 3, Fill("sample_lengths", lambda x, k: x == be(4, 4)))
	import struct as real
	errs = (real.error, AssertionError, ValueError)
	if srs:
		out = v.call(m.profile_mp4_srs, "a.srs", tracks)
		errs += (KeyError,)
	else:
		st.crcs = bool(v.bool("checksum"))
		out = v.call(m.profile_mp4, fd, st.crcs)
	if not out.ok and st.cur is None and kind != b"tkhd" and isinstance(out.exc, AttributeError):
		return      # a table outside of a track: refused, see C18
	v.expect("returns", out, *errs)
	if not out.ok:
		v.check("only-bad-tables-fail", kind in (b"tkhd", b"stco", b"co64", b"stsc", b"stsz",
			b"stz2"))
		return
	if not srs:
		v.check("sizes", v.And(fd.other_length == st.meta, fd.mdat_size == st.mdat))

@contract("C21", "tables_of_a_file", [M + "profile_mp4"], iters=1, budget=150,
	note="MovReader by contract (C17)")
def tables_of_a_file(v):
	"""Every table entry is the number in its place of the box; track start and length."""
	if v.symbolic:
		tables(v, "profile_mp4", 2, False)

@contract("C21", "tables_of_an_srs", [M + "profile_mp4_srs"], iters=1, budget=150,
	note="MovReader by contract (C17)")
def tables_of_an_srs(v):
	"""The same tables are read from the SRS."""
	if v.symbolic:
		tables(v, "profile_mp4_srs", 1, True)
