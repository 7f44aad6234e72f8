"""C01: bounded search; real create_srr and reconstruct on generated volumes."""
import os, shutil
from pyvc.registry import search
from gen import rargen as g

def tree(d):
	out = {}
	for root, dirs, files in os.walk(d):
		for f in files:
			p = os.path.join(root, f)
			with open(p, "rb") as h:
				out[os.path.relpath(p, d).replace(os.sep, "/")] = h.read()
	return out

def describe(rs):
	return dict(options={k: v for k, v in rs.o.items() if k not in ("self", "files")},
		files=[dict(name=f.name, size=len(f.data), large=f.large, dir=f.isdir,
		salt=f.salt, ext=f.ext, uni=f.uni, time=f.time, host=f.host, ver=f.ver,
		attr=f.attr, flags=f.flags) for f in rs.files],
		volumes=[(v.name, len(v.data)) for v in rs.vols])

def make_input(s, r, sets, d, kind, save):
	"""Writes the volumes; returns the infiles argument."""
	infiles = []
	for i, rs in enumerate(sets):
		first = rs.write(d)
		if kind == "sfv":
			p = os.path.join(d, rs.o["base"] + ".sfv")
			lines = rs.sfv().splitlines(True)
			r.shuffle(lines)
			with open(p, "w", newline="") as f:
				f.write("; generated\r\n" + "".join(lines))
			infiles.append(p)
		else:
			infiles.append(first)
	return infiles

def one(s, r, big):
	m = s.mod("rescene.main")
	d = s.dir()
	sets = [g.random_set(r, big=big)]
	if r.random() < 0.15:
		fs = g.random_files(r, False, 2)
		for i, f in enumerate(fs):
			f.name = "second%d.bin" % i
			f.uni = None
			f.isdir = False
		if r.random() < 0.4:
			# an archive with a file the first set ends with as well
			fs = [sets[0].files[-1]] + fs[:r.randrange(2)]
		sets.append(g.random_set(r, base="zz-second", files=fs))
	kind = r.choice(("sfv", "rar"))
	save = r.random() < 0.3
	s.note(sets=[describe(x) for x in sets], kind=kind, save_paths=save)
	relname = "rel.d" if r.random() < 0.5 else "rel"
	rel = os.path.join(d, relname)
	sub = os.path.join(rel, "CD1") if save else rel
	infiles = make_input(s, r, sets, sub, kind, save)
	srr = os.path.join(d, "out.srr")
	src = os.path.join(d, "files")
	os.makedirs(src)
	for x in sets:
		x.extract(src)
	ok = m.create_srr(srr, infiles, rel, [], save, oso_hash=r.random() < 0.5)
	if ok is not True:
		s.violate("create-succeeds", repr(ok))
	rebuild(s, r, m, srr, src, os.path.join(d, "rebuilt"), sets, "CD1/" if save else "")
	s.seen((kind, save, len(sets)) + tuple((x.style, len(x.vols), x.o["rr"],
		x.o["rrkind"], x.o["end"], bool(x.o["padding"]), len(x.files)) for x in sets))
	# an SRR of the same volumes that another program wrote
	if r.random() < 0.5:
		srr2 = os.path.join(d, "other.srr")
		with open(srr2, "wb") as f:
			f.write(g.srr_header(r.choice(("", "x", "ReScene .NET 1.2"))))
			f.write(g.srr_volumes(sets))
		hints = {}
		src2 = src
		if r.random() < 0.5:
			src2 = os.path.join(d, "files2")
			shutil.copytree(src, src2)
			for f in sets[0].files:
				if not f.isdir and not f.salt and "\\" not in f.name:
					os.rename(os.path.join(src2, f.name), os.path.join(src2, "renamed.x"))
					hints[f.name] = "renamed.x"
					break
		rebuild(s, r, m, srr2, src2, os.path.join(d, "rebuilt2"), sets, "", hints)
	# other sizes are refused
	fs = [f for f in sets[0].files if not f.isdir]
	if fs:
		f = r.choice(fs)
		p = os.path.join(src, *f.name.split("\\"))
		delta = r.choice((1, -1, 7, 65536, -len(f.data)))
		nd = f.data + r.randbytes(delta) if delta > 0 else f.data[:delta]
		if len(nd) == len(f.data):
			nd = f.data + b"x"
		with open(p, "wb") as h:
			h.write(nd)
		out = os.path.join(d, "wrong")
		os.makedirs(out)
		s.note(changed=f.name, size=len(nd), expected=len(f.data))
		try:
			m.reconstruct(srr, src, out, extract_files=False)
		except m.InvalidFileSize:
			s.count("size mismatch refused")
		else:
			s.violate("different-size-fails", "no error for a source of another size")

def rebuild(s, r, m, srr, src, out, sets, prefix, hints={}):
	os.makedirs(out)
	rc = m.reconstruct(srr, src, out, extract_files=False, hints=dict(hints))
	got = tree(out)
	want = {prefix + v.name: v.data for x in sets for v in x.vols}
	if sorted(got) != sorted(want):
		s.violate("same-names", "got %s expected %s (returned %r)" % (sorted(got),
			sorted(want), rc))
	for n in want:
		if got[n] != want[n]:
			i = next((i for i, (a, b) in enumerate(zip(got[n], want[n])) if a != b),
				min(len(got[n]), len(want[n])))
			s.violate("same-bytes", "%s differs at %d (sizes %d and %d)" % (n, i,
				len(got[n]), len(want[n])))
	s.count("volumes compared", len(want))

@search("C01", "rebuild_generated_sets", "generated store-mode sets: up to 5 files of up to "
	"300 kB, up to 40 volumes, old/new/numeric names, new and old recovery records, "
	"comments, sub blocks, end block variants, padding", weight=1.0)
def run(s):
	r = s.rng
	n = 0
	while s.more():
		n += 1
		s.case(lambda: one(s, r, s.tier == "thorough" or n % 10 == 0))
