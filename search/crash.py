"""C19: bounded search over failing operations and interruption points of the
programs that create or replace a result file.  Every run is a forked process."""
import os, sys, io, errno, random, builtins, tempfile, pickle
from pyvc.registry import search
from gen import rargen as g
from search.readers import quiet_fp, EXT
from search.samples import Pair, damage
from search.srrs import put, get

class Ops(object):
	"""Counts the file operations of this process; lets the n-th one go wrong:
	how = "fault" (OSError), "int" (KeyboardInterrupt), "crash" (process ends
	before the operation, a write done half), "after" (process ends after it)."""
	def __init__(self, n, how, root):
		self.n, self.how, self.root = n, how, root
		self.log = []
		self.opened = []
	def hit(self, kind, real, half=None):
		self.log.append(kind)
		if len(self.log) != self.n:
			return real()
		if self.how == "after":
			real()
			os._exit(77)
		if half is not None:
			half()
		if self.how == "crash":
			os._exit(77)
		if self.how == "int":
			raise KeyboardInterrupt()
		raise OSError(errno.ENOSPC if kind == "write" else errno.EIO, "injected")
	def install(self):
		ops = self
		ropen, rfd = builtins.open, os.fdopen
		class W(object):
			def __init__(self, f):
				self.__dict__["_f"] = f
			def write(self, data):
				def half():
					self._f.write(data[:len(data) // 2])
					self._f.flush()
				def real():
					x = self._f.write(data)
					if ops.how in ("after",) and len(ops.log) == ops.n:
						self._f.flush()
					return x
				return ops.hit("write", real, half)
			def writelines(self, lines):
				for x in lines:
					self.write(x)
			def read(self, *a):
				return ops.hit("read", lambda: self._f.read(*a))
			def truncate(self, *a):
				return ops.hit("truncate", lambda: self._f.truncate(*a))
			def flush(self):
				return self._f.flush()
			def close(self):
				if self._f.closed:
					return None
				return ops.hit("close", self._f.close)
			def __getattr__(self, k):
				return getattr(self._f, k)
			def __enter__(self):
				return self
			def __exit__(self, *a):
				self.close()
			def __iter__(self):
				return iter(self._f)
		def mine(p):
			return isinstance(p, (str, bytes)) and os.path.abspath(os.fsdecode(p)).startswith(ops.root)
		def fopen(f, mode="r", *a, **k):
			if not mine(f):
				return ropen(f, mode, *a, **k)
			if "r" not in mode or "+" in mode:
				ops.opened.append((os.path.abspath(os.fsdecode(f)), os.path.exists(f)))
				return W(ops.hit("open", lambda: ropen(f, mode, *a, **k)))
			return W(ops.hit("open-read", lambda: ropen(f, mode, *a, **k)))
		builtins.open = fopen
		io.open = fopen
		os.fdopen = lambda fd, mode="r", *a, **k: W(rfd(fd, mode, *a, **k))
		def wrap(name):
			real = getattr(os, name)
			def f(*a, **k):
				if not a or not (mine(a[0])):
					return real(*a, **k)
				if name in ("rename", "replace", "link", "symlink") and len(a) > 1:
					ops.opened.append((os.path.abspath(os.fsdecode(a[1])), "moved"))
				return ops.hit(name, lambda: real(*a, **k))
			setattr(os, name, f)
		for n in ("rename", "replace", "remove", "unlink", "link", "symlink", "truncate"):
			wrap(n)

def forked(fn, n, how, root, cand):
	"""Runs fn in a child process: (status, operations, opened) of it; the
	operations are unknown when it was made to stop."""
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		st = 99
		try:
			import signal
			signal.setitimer(signal.ITIMER_REAL, 0)
			signal.signal(signal.SIGALRM, signal.SIG_DFL)
			signal.alarm(40)
			os.close(r)
			tempfile._name_sequence = iter(cand)
			ops = Ops(n, how, root)
			ops.install()
			try:
				st = fn()
				st = st if isinstance(st, int) else 0
			except SystemExit as e:
				st = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
			except BaseException:
				import traceback
				traceback.print_exc()
				st = 70
			sys.stdout.flush()
			os.write(w, pickle.dumps((ops.log[:4000], ops.opened)))
		finally:
			os._exit(st & 0xff)
	os.close(w)
	data = b""
	while True:
		b = os.read(r, 65536)
		if not b:
			break
		data += b
	os.close(r)
	_, status = os.waitpid(pid, 0)
	st = -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
	return (st,) + (pickle.loads(data) if data else (None, None))

class Scene(object):
	"""One program call: build(d) lays the inputs out, run() calls it."""
	def __init__(self, s, r, kind):
		self.kind = kind
		self.fails = False
		self.target = "result"
		if kind == "srr":
			self.srr = s.mod("rescene.srr")
			if hasattr(self.srr, "MessageThread"):
				self.srr.MessageThread.sleeptime = 0.002
			self.rs = g.RarSet("rel", [g.F("f%d.bin" % i, r.randbytes(r.randint(0, 4000))) for i in
				range(r.randint(1, 2))], r.choice((0, 700, 1500)), r.choice((g.OLD, g.NEW)))
			self.stored = [("rel.nfo", r.randbytes(r.choice((0, 50, 5000))))] if r.random() < 0.7 \
				else []
			self.bad = r.random() < 0.25
			self.fails = self.bad
			self.name = r.choice(("out.srr", "rel.srr", "größe x.srr"))
		else:
			self.srs = s.mod("resample.srs")
			self.k = r.choice(("avi", "mkv", "mp4", "wmv", "flac", "mp3", "stream"))
			self.p = Pair(r, self.k)
			ext = EXT[self.k]
			self.sname = r.choice(("s.", "sämple.")) + ext
			self.mname = "movie." + ext
			self.name = r.choice(("o.srs", "s.srs")) if kind == "srs" else self.sname
			self.main = self.p.main
			self.sample = self.p.sample
			if kind == "rebuild" and r.random() < 0.3:
				self.main = damage(r, self.main, r.choice(("flip", "cut")), self.k)
				self.fails = None
			if kind == "srs" and r.random() < 0.2:
				self.sample = damage(r, self.sample, "cut", self.k)
				self.fails = None
	def build(self, d):
		o = self.out = os.path.join(d, "out")
		os.makedirs(o)
		i = os.path.join(d, "in")
		os.makedirs(i)
		self.target = os.path.join(o, self.name)
		if self.kind == "srr":
			first = self.rs.write(i)
			args = [first]
			for n, c in self.stored:
				put(os.path.join(i, n), c)
			if self.bad:
				# a volume set whose last file is no RAR volume
				vs = sorted(os.listdir(i))
				v = [x for x in vs if x not in [n for n, _ in self.stored]]
				put(os.path.join(i, v[-1]), b"Rar?" * 10)
			st = []
			for n, _ in self.stored:
				st += ["-s", os.path.join(i, n)]
			args = [first, "-y", "-o", self.target] + st
			self.run = lambda: self.srr.main(args)
			self.base = i
		elif self.kind == "srs":
			sp = os.path.join(i, self.sname)
			put(sp, self.sample)
			args = [sp, "-y", "-o", self.target]
			self.run = lambda: self.srs.main(args)
		else:
			put(os.path.join(i, self.mname), self.main)
			put(os.path.join(i, "x.srs"), self.srsdata)
			args = [os.path.join(i, "x.srs"), os.path.join(i, self.mname), "-y", "-o", o]
			self.run = lambda: self.srs.main(args)

def crash_case(s, r, kind):
	sc = Scene(s, r, kind)
	if kind == "rebuild":
		t = s.dir()
		sp = os.path.join(t, sc.sname)
		put(sp, sc.p.sample)
		forked(lambda: sc.srs.main([sp, "-y", "-o", os.path.join(t, "x.srs")]), 0, "", t,
			["n%d" % i for i in range(50)])
		if not os.path.exists(os.path.join(t, "x.srs")):
			return
		sc.srsdata = get(os.path.join(t, "x.srs"))
	cand = ["t%04x" % r.getrandbits(16) for _ in range(60)]
	top = s.dir()
	os.makedirs(os.path.join(top, "x"))
	d = os.path.join(top, "x", "run")
	def lay(old, n):
		import shutil
		shutil.rmtree(d, ignore_errors=True)
		os.makedirs(d)
		sc.build(d)
		if old is not None:
			put(sc.target, old)
		# names that are in use
		sent = {}
		for c in [sc.name + ".tmp", sc.name + "-.tmp", sc.name + ".bak", sc.name + "~",
				sc.name + ".old"] + [sc.name + "-" + x + ".tmp" for x in cand[:n]]:
			sent[os.path.join(sc.out, c)] = b"in use " + c.encode()
			put(os.path.join(sc.out, c), b"in use " + c.encode())
		ins = {}
		for dp, _, fs in os.walk(os.path.join(d, "in")):
			for f in fs:
				ins[os.path.join(dp, f)] = get(os.path.join(dp, f))
		sent.update(ins)
		return sent
	def check(sent, old, full, st, what, opened):
		have = get(sc.target) if os.path.isfile(sc.target) else None
		bad = [x for x in sent if not os.path.isfile(x) or get(x) != sent[x]]
		if bad:
			s.violate("other-files-untouched", "%s: %s" % (what, bad))
		if have != old and (have is None or have != full):
			s.violate("old-or-complete", "%s: the target holds %s (old: %s, complete: %s bytes)" % (
				what, "nothing" if have is None else "%d bytes" % len(have),
				None if old is None else len(old), None if full is None else len(full)))
		if st == 0 and full is not None and have != full:
			s.violate("success-means-complete", "%s: status 0, target %r bytes" % (what,
				None if have is None else len(have)))
		if opened is not None:
			for p, ex in opened:
				if p == sc.target and ex != "moved":
					s.violate("target-not-written-in-place", what)
				if ex is True and p in sent:
					s.violate("temporary-name-not-in-use", "%s: %s" % (what, p))
				if ex != "moved" and os.path.dirname(p) == sc.out and ex is True:
					s.violate("temporary-name-not-in-use", "%s: %s" % (what, p))
	old = r.choice((None, b"the old result", b""))
	n = r.choice((0, 0, 1, 3))
	s.note(kind=kind, old=old, names_in_use=n, name=sc.name, container=getattr(sc, "k", "rar"))
	sent = lay(old, n)
	st, log, opened = forked(sc.run, 0, "", d, cand)
	if log is None:
		s.violate("run-ends", "status %s" % st)
	full = get(sc.target) if os.path.isfile(sc.target) and st == 0 else None
	if kind == "rebuild" and st == 0 and full != sc.p.sample:
		s.violate("rebuilt-sample", "status 0, wrong or no sample")
	if sc.fails is False and st != 0:
		s.violate("creates", "status %s for sound input" % st)
	if st != 0:
		full = None
	check(sent, old, full, st, "undisturbed run (status %s)" % st, opened)
	if st != 0 or full is None:
		s.count("failing inputs")
		full = None
	s.seen((kind, old is None, st))
	kinds = sorted(set(log))
	for _ in range(r.randint(2, 8)):
		k = r.choice(kinds)
		at = [i + 1 for i, x in enumerate(log) if x == k]
		m = r.choice(at[-4:]) if r.random() < 0.4 else r.choice(at)
		how = r.choice(("fault", "fault", "int", "crash", "after"))
		old2 = r.choice((None, b"the old result", b""))
		s.note(old=old2, how=how, operation=k, number=m)
		sent = lay(old2, n)
		st2, _, op2 = forked(sc.run, m, how, d, cand)
		check(sent, old2, full, st2, "%s at %s (operation %d of %d), status %s" % (how, k, m,
			len(log), st2), op2)
		s.count("%s at %s" % (how, k))

def make(kinds, name):
	@search("C19", name, "%s: one failing, interrupting or final file operation per run (open, "
		"read, write, close, replace, delete; writes done half), targets old/absent, temporary "
		"names in use" % "/".join(kinds))
	def f(s):
		r = s.rng
		m = quiet_fp(s)
		s.mod("rescene.srr"), s.mod("resample.srs")
		while s.more():
			s.case(lambda: crash_case(s, r, r.choice(kinds)), 60)
	return f

make(("srr",), "create_srr")
make(("srs", "rebuild"), "srs_programs")
