"""C18, C19: what the programs do around the work: the outcome they report and the files
they leave, whatever the steps in between return or raise.

The file system is a stand-in that checks at every operation that the target holds what
it held before or a complete result.  File names are fixed: nothing depends on them."""
import posixpath
from pyvc.registry import contract
from pyvc.core import Unsupported

class C(object):
	vc_ghost = True

class Exit(BaseException):
	def __init__(self, status):
		self.status = status

class Paths(object):
	"""os.path on the stand-in"""
	vc_ghost = True
	def __init__(self, fs):
		self.fs = fs
	def exists(self, p):
		return self.fs.norm(p) in self.fs.files or self.isdir(p)
	lexists = exists
	def isfile(self, p):
		return self.fs.norm(p) in self.fs.files
	def isdir(self, p):
		return self.fs.norm(p) in ("/w", "/", "/w/out")
	def getsize(self, p):
		return 1000
	def abspath(self, p):
		return self.fs.norm(p)
	realpath = abspath
	def normpath(self, p):
		return posixpath.normpath(p)
	def __getattr__(self, n):
		if n in ("basename", "dirname", "join", "split", "splitext", "isabs", "curdir",
				"pardir", "devnull", "sep", "relpath"):
			return getattr(posixpath, n)
		raise AttributeError(n)

class Os(object):
	"""os: files are tokens; what happens to the target is watched"""
	vc_ghost = True
	def __init__(self, v, target, files, faults=True):
		self.v, self.target, self.files, self.faults = v, target, dict(files), faults
		self.old = self.files.get(target)
		self.path = Paths(self)
		self.name, self.sep, self.curdir, self.pardir = "posix", "/", ".", ".."
		self.altsep, self.linesep, self.pathsep = None, "\n", ":"
		self.environ = {}
		self.n = 0
		self.failed = False
		self.keep = False
		self.error = OSError
	def norm(self, p):
		return posixpath.normpath(posixpath.join("/w", p))
	def getcwd(self):
		return "/w"
	def fault(self):
		self.n += 1
		if self.faults and not self.failed and self.v.bool("fault%d" % self.n):
			self.failed = True
			raise OSError(5, "Input/output error")
	def watch(self):
		"""the moment after an operation"""
		t = self.files.get(self.target)
		if t == self.old:
			return
		self.v.check("target-is-old-or-complete", t is not None and t[0] == "done" and
			(t[1] or self.keep), repr(t))
	def unlink(self, p):
		self.fault()
		p = self.norm(p)
		if p not in self.files:
			raise FileNotFoundError(2, "No such file", p)
		del self.files[p]
		self.watch()
	remove = unlink
	def replace(self, a, b):
		self.fault()
		a, b = self.norm(a), self.norm(b)
		if a not in self.files:
			raise FileNotFoundError(2, "No such file", a)
		self.files[b] = self.files.pop(a)
		self.watch()
	rename = replace
	def makedirs(self, *a, **k):
		pass
	mkdir = makedirs
	def put(self, p, token):
		self.files[self.norm(p)] = token
		self.watch()

def quiet(v, m, *names):
	for n in names:
		if hasattr(m, n):
			v.patch(m, n, lambda *a, **k: "")

def temp(v, u, fs, busy=False):
	"""names for temporary files: never one that is in use"""
	st = C()
	st.names = []
	def mktemp(suffix="", prefix="", dir=None):
		p = posixpath.join(dir or "/tmp", prefix + "x%d" % len(st.names) + suffix)
		st.names.append(p)
		return p
	v.patch(u, "mktemp", mktemp)
	return st

@contract("C19", "replace_result", ["rescene.utility.replace_result"])
def replace_result(v):
	"""Whatever fails: the target holds the old file or the finished one."""
	u = v.mod("rescene.utility")
	files = {}
	if v.bool("old"):
		files["/w/r.srs"] = ("old", 0)
	if v.bool("made"):
		files["/w/r.srs-x.tmp"] = ("done", True)
	fs = Os(v, "/w/r.srs", files)
	v.patch(u, "os", fs)
	out = v.call(u.replace_result, "/w/r.srs-x.tmp", "/w/r.srs")
	v.expect("returns", out, OSError)
	if not fs.failed:
		v.check("finished-file-in-place", out.ok and fs.files.get("/w/r.srs") ==
			(files.get("/w/r.srs-x.tmp") or files.get("/w/r.srs")))
	v.check("nothing-else-touched", set(fs.files) <= set(files) | {"/w/r.srs"})

@contract("C19", "replace_result_place", ["rescene.utility.replace_result"])
def replace_result_place(v):
	"""A result that is not next to its target is refused."""
	u = v.mod("rescene.utility")
	files = {"/w/r.srs": ("old", 0), "/t/r.srs-x.tmp": ("done", True)}
	fs = Os(v, "/w/r.srs", files)
	v.patch(u, "os", fs)
	out = v.call(u.replace_result, "/t/r.srs-x.tmp", "/w/r.srs")
	v.expect("refused", out, AssertionError)
	v.check("nothing-done", not out.ok and fs.files == files)

@contract("C19", "temp_file_name", ["rescene.utility.create_temp_file_name"])
def temp_file_name(v):
	"""Next to the target, not in use."""
	u = v.mod("rescene.utility")
	target = v.choice("target", ["/w/r.srs", "r.srs", "/w/a.b/r.srs"])
	t = C()
	def mktemp(suffix="", prefix="", dir=None):
		t.dir = dir
		return posixpath.join(dir, prefix + "abc" + suffix)
	v.patch(u, "mktemp", mktemp)
	used = v.bool("used")
	files = {}
	want = posixpath.join(posixpath.dirname(target), posixpath.basename(target) + "-abc.tmp")
	if used:
		files[posixpath.normpath(posixpath.join("/w", want))] = ("other", 0)
	fs = Os(v, "/w/zzz", files)
	v.patch(u, "os", fs)
	out = v.call(u.create_temp_file_name, target)
	v.expect("names", out, AssertionError)
	if not out.ok:
		return v.check("only-when-in-use", used)
	v.check("not-in-use", not used)
	v.check("next-to-the-target", posixpath.dirname(out.value) == posixpath.dirname(target)
		and t.dir == posixpath.dirname(target))
	v.check("starts-with-the-target", out.value.startswith(target) and out.value != target)
	v.check("nothing-created", fs.files == files)

class Made(object):
	"""a file that was rebuilt"""
	vc_ghost = True
	def __init__(self, crc):
		self.crc32, self.size = crc, 5

def run_main(m, argv):
	parser = m.setup_cli_parser()
	def leave(status=0, msg=None):
		raise Exit(status)
	parser.exit = leave
	parser.print_help = lambda *a: None
	return parser

WRONG = [None, ValueError, AssertionError, OSError, RuntimeError]

def srs_env(v, music, files, target, faults):
	m = v.mod("resample.srs")
	u = v.mod("rescene.utility")
	pkg = v.mod("resample")
	fs = Os(v, target, files, faults)
	v.patch(m, "os", fs)
	v.patch(u, "os", fs)
	temp(v, u, fs)
	quiet(v, m, "sep", "raw_input")
	FT = v.mod("rescene.utility").FileType
	kind = FT.FLAC if music else FT.MKV
	info = C()
	info.file_type, info.archived_file = kind, ""
	v.patch(m, "file_type_info", lambda p: info)
	sample = C()
	sample.file_type, sample.cut_data = kind, {}
	v.patch(pkg, "sample_class_factory", lambda t: sample)
	p = m.setup_cli_parser()
	def leave(status=0, msg=None):
		raise Exit(status)
	p.exit = leave
	p.print_help = lambda *a: None
	v.patch(m, "setup_cli_parser", lambda: p)
	v.patch(m, "raw_input", lambda *a: v.choice("answer", ["y", "n"]))
	quiet(v, m, "find_best_educated_guesses")
	tb = C()
	tb.print_exc = lambda *a, **k: None
	v.patch(m, "traceback", tb)
	return m, fs, sample, kind, FT

def main_status(v, m, argv):
	try:
		m.main(argv)
		return 0
	except Exit as e:
		return e.status

@contract(["C18", "C19"], "srs_rebuild_outcome", ["resample.srs.main",
	"rescene.utility.replace_result", "rescene.utility.create_temp_file_name"], budget=200,
	max_paths=20000, iters=600, note="two tracks, at most two other offsets per run")
def srs_rebuild(v):
	"""srs x.srs movie: every outcome of the search, the extraction and the rebuilds, with
	any operation on the file system failing.  Success is reported exactly when the file
	with the recorded checksum is in place; otherwise the old file is."""
	music = v.bool("music")
	target = "/w/s.mkv"
	files = {"/w/x.srs": ("in", 0), "/w/movie.mkv": ("in", 0)}
	old = v.bool("old")
	if old:
		files[target] = ("old", 0)
	m, fs, sample, kind, FT = srs_env(v, music, files, target, True)
	argv = ["x.srs", "movie.mkv"]
	yes = v.bool("yes")
	keep = False
	if yes:
		argv.append("-y")
		keep = v.bool("keep")
		if keep:
			argv.append("-k")
			fs.keep = True
	data = C()
	data.name, data.size, data.crc32 = "s.mkv", 5, 77
	t = C()
	t.track_number, t.signature_bytes, t.match_offset, t.data_length = 1, b"sig", 3, 10
	t.track_file, t.olist, t.check_bytes, t.match_length = None, [], b"", 0
	tracks = {1: t}
	at = C()
	at.attachment_file = C()
	at.attachment_file.close = lambda: None
	attachments = {"a": at}
	def fail(what):
		e = v.choice(what, WRONG)
		if e:
			raise e("Aborting")
	def load(srs):
		fail("load")
		guess = v.choice("guesses", [0, 1, 2])
		sample.cut_data = {1: list(range(50, 50 + guess))} if guess else {}
		t.olist = [3] + list(range(50, 50 + guess))
		return data, tracks
	sample.load_srs = load
	t.match_offset = v.choice("offset", [3, 0])
	def find(tr, movie):
		t.match_offset = v.choice("found", [3, 0, -1])
		return tr
	sample.find_sample_streams = find
	def extract(tr, movie):
		t.track_file = None
		got = v.choice("extracted%d" % len(runs), ["all", "part", "none"] if not runs else
			["all"])
		if got != "none":
			f = C()
			f.tell = lambda: 10 if got == "all" else 9
			f.close = lambda: None
			t.track_file = f
		return tr, attachments
	sample.extract_sample_streams = extract
	runs = []
	good = C()
	good.crc = None
	def rebuild(d, tr, att, srs, out_file):
		k = len(runs)
		runs.append(out_file)
		v.check("not-straight-into-the-target", fs.norm(out_file) != target)
		v.check("next-to-the-target", posixpath.dirname(fs.norm(out_file)) == "/w")
		fs.put(out_file, ("partial", k))
		if k == 0:
			fail("rebuild")
		ok = v.bool("good%d" % k)
		fs.put(out_file, ("done", ok))
		return Made(77 if ok else 78)
	sample.rebuild_sample = rebuild
	status = main_status(v, m, argv)
	now = fs.files.get(target)
	if status == 0:
		v.check("success-only-with-the-recorded-checksum", now == ("done", True) or
			(fs.failed and now == fs.old))
	elif not keep:
		v.check("failure-leaves-the-old-file", now == fs.old)
	else:
		v.check("kept-failure-is-complete", now == fs.old or (now[0] == "done" and not now[1]))
	if runs and not fs.failed:
		last = fs.files.get(fs.norm(runs[-1]))
		v.check("no-partial-file-of-a-finished-rebuild", last is None or last[0] == "partial"
			or (music and keep))
		done = now == ("done", True)
		v.check("success-when-the-checksum-is-right", status == 0 or not done)

@contract(["C15", "C19"], "srs_create_outcome", ["resample.srs.main",
	"rescene.utility.replace_result", "rescene.utility.create_temp_file_name"], budget=100,
	max_paths=20000, iters=400)
def srs_create(v):
	"""srs sample: every outcome of profiling, checking and writing."""
	music = v.bool("music")
	target = "/w/s.srs"
	files = {"/w/s.mkv": ("in", 0)}
	if v.bool("old"):
		files[target] = ("old", 0)
	m, fs, sample, kind, FT = srs_env(v, music, files, target, True)
	argv = ["s.mkv"]
	yes = v.bool("yes")
	if yes:
		argv.append("-y")
	info = v.bool("info")
	if info:
		argv.append("-i")
	pkg = v.mod("resample")
	class FileDataStub(object):
		vc_ghost = True
		def __init__(self, buff=None, file_name=None):
			self.size = 5
	v.patch(pkg, "FileData", FileDataStub)
	t = C()
	t.track_number, t.signature_bytes, t.match_offset, t.data_length = 1, b"sig", 3, 10
	def profile(d):
		e = v.choice("profile", WRONG + [pkg.IncompleteSample])
		if e:
			raise e("Aborting")
		return ({1: t} if v.bool("tracks") else {}), {}
	sample.profile_sample = profile
	made = []
	def create(tracks, d, name, out, big):
		made.append(out)
		v.check("not-straight-into-the-target", fs.norm(out) != target)
		v.check("sample-as-given", fs.norm(name) == "/w/s.mkv")
		fs.put(out, ("partial", 0))
		e = v.choice("create", WRONG)
		if e:
			raise e("Aborting")
		fs.put(out, ("done", True))
	sample.create_srs = create
	status = main_status(v, m, argv)
	now = fs.files.get(target)
	if status == 0 and made:
		v.check("success-means-the-complete-file", now == ("done", True) or fs.failed)
	else:
		v.check("old-file-kept", now == fs.old)
	v.check("nothing-made-for-information", not (info and made))
	v.check("sample-untouched", fs.files.get("/w/s.mkv") == ("in", 0))
