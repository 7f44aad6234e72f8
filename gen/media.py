"""Independent generator of small media files (AVI, Matroska, MP4, ASF, FLAC,
MP3, plain streams).  A Movie is a list of tracks with frames; `mux` writes any
range of the frames of each track into a container.  Imports nothing from /repo."""
import struct

def crcless(*a):
	return b"".join(a)

class Movie(object):
	"""tracks: {number: [frame bytes]}"""
	def __init__(self, r, kind, ntracks=None, nframes=None, big=False):
		self.r, self.kind = r, kind
		n = ntracks or r.choice((1, 1, 2, 3))
		if kind in ("flac", "mp3", "stream"):
			n = 1
		self.tracks = {}
		nums = {"avi": range(0, 100), "mkv": range(1, 127), "mp4": range(1, 3000),
			"wmv": range(1, 16)}.get(kind, [1])
		if kind == "mp4" and r.random() < 0.2:
			nums = [1, 2, 3, 65535, 65536, 70000, 2 ** 31, 2 ** 32 - 1]
		if kind == "mkv" and r.random() < 0.2:
			nums = [1, 2, 126, 127, 128, 300, 16382, 16383, 40000]
		for t in r.sample(list(nums), n):
			k = nframes or r.randint(1, 12)
			if kind == "mp4" and r.random() < 0.03:
				k = r.choice((k, k, 270))
				self.tracks[t] = [r.randbytes(500) for i in range(k)]
				continue
			fr = []
			for i in range(k):
				z = r.choice((16, 17, 40, 200, 255, 256, 257, 300, 900) + ((5000, 70000) if big
					else (2000,)))
				if i and r.random() < 0.15:
					z = r.choice((0, 1, 2, 3, 7))
				fr.append(r.randbytes(z))
			self.tracks[t] = fr

# -- AVI -------------------------------------------------------------------------
def chunk(r, cc, data, pad=None):
	p = b""
	if len(data) % 2:
		p = bytes([pad]) if pad is not None else bytes([r.choice((0, 0, 1, 255))])
	return cc + struct.pack("<L", len(data)) + data + p

def avi(r, pieces, extra=True, index=True):
	"""pieces: [(track, bytes)]"""
	movi = b"movi"
	idx = b""
	for t, d in pieces:
		cc = b"%02d" % t + r.choice((b"dc", b"wb", b"db"))
		idx += cc + struct.pack("<LLL", 16, len(movi), len(d))
		if r.random() < 0.05:
			movi += chunk(r, b"JUNK", r.randbytes(r.randint(0, 30)))
		movi += chunk(r, cc, d)
	if r.random() < 0.3 and pieces:       # a rec list around the last chunk
		inner = b"rec " + chunk(r, b"%02ddc" % pieces[-1][0], b"")
		movi += b"LIST" + struct.pack("<L", len(inner)) + inner
	hdrl = b"hdrl" + chunk(r, b"avih", r.randbytes(56))
	for t in sorted(set(t for t, _ in pieces)):
		strl = b"strl" + chunk(r, b"strh", r.randbytes(r.choice((56, 57)))) + \
			chunk(r, b"strf", r.randbytes(40))
		hdrl += b"LIST" + struct.pack("<L", len(strl)) + strl
	body = b"AVI " + b"LIST" + struct.pack("<L", len(hdrl)) + hdrl
	if extra and r.random() < 0.5:
		body += chunk(r, b"JUNK", r.randbytes(r.randint(0, 99)))
	body += b"LIST" + struct.pack("<L", len(movi)) + movi
	if index and r.random() < 0.8:
		body += chunk(r, b"idx1", idx)
	return b"RIFF" + struct.pack("<L", len(body)) + body

# -- Matroska --------------------------------------------------------------------
def vint(n, width=0):
	w = 1
	while n >= (1 << (7 * w)) - 1:
		w += 1
	w = max(w, width)
	return (n | 1 << (7 * w)).to_bytes(w, "big")

def el(i, data, width=0):
	return i + vint(len(data), width) + data

def lace(r, frames, kind=None):
	"""(flags, lacing header) for the frames of one block"""
	sizes = [len(f) for f in frames]
	kinds = ["xiph", "ebml"]
	if len(set(sizes)) == 1:
		kinds.append("fixed")
	k = kind or r.choice(kinds)
	h = bytes([len(frames) - 1])
	if k == "xiph":
		for z in sizes[:-1]:
			h += b"\xff" * (z // 255) + bytes([z % 255])
		return 2, h
	if k == "fixed":
		return 4, h
	for i, z in enumerate(sizes[:-1]):
		if i == 0:
			h += vint(z)
		else:
			d = z - sizes[i - 1]
			w = 1
			while not -((1 << (7 * w - 1)) - 1) <= d <= (1 << (7 * w - 1)) - 1:
				w += 1
			h += ((d + (1 << (7 * w - 1)) - 1) | 1 << (7 * w)).to_bytes(w, "big")
	return 6, h

def block(r, track, frames, strip=b""):
	"""SimpleBlock or BlockGroup"""
	fr = [f[len(strip):] for f in frames]
	flags, h = r.choice((0, 0x80, 0x08)), b""
	if len(fr) > 1 or r.random() < 0.05:
		l, h = lace(r, fr)
		flags |= l
	b = vint(track) + struct.pack(">hB", r.randint(-3, 30000), flags) + h + b"".join(fr)
	if r.random() < 0.7:
		return el(b"\xa3", b, r.choice((0, 0, 0, 3, 4, 8)))
	g = el(b"\xa1", b)
	if r.random() < 0.5:
		g += el(b"\x9b", bytes([r.randint(0, 255)]))
	return el(b"\xa0", g, r.choice((0, 4)))

def mkv(r, pieces, tracks, strip=None, atts=(), att_first=False):
	"""pieces: [(track, [frames])]; strip: {track: removed header}"""
	strip = strip or {}
	ebml = el(b"\x1a\x45\xdf\xa3", el(b"\x42\x82", b"matroska") + el(b"\x42\x87", b"\x02"))
	info = el(b"\x15\x49\xa9\x66", el(b"\x2a\xd7\xb1", b"\x0f\x42\x40") +
		el(b"\x7b\xa9", b"title"))
	te = b""
	for t in tracks:
		n = t.to_bytes(max(1, (t.bit_length() + 7) // 8), "big")
		# the reader takes the number as EBML integer of its own length
		e = el(b"\xd7", n) + el(b"\x86", b"V_MPEG4/ISO/AVC")
		if t in strip:
			c = el(b"\x42\x54", b"\x03") + el(b"\x42\x55", strip[t])
			e += el(b"\x6d\x80", el(b"\x62\x40", el(b"\x50\x34", c)))
		te += el(b"\xae", e)
	body = b""
	if r.random() < 0.5:
		body += el(b"\xec", r.randbytes(r.randint(0, 60)))
	body += info + el(b"\x16\x54\xae\x6b", te)
	att = b""
	for n, d in atts:
		att += el(b"\x61\xa7", el(b"\x46\x6e", n.encode("utf-8")) +
			el(b"\x46\x60", b"font/ttf") + el(b"\x46\x5c", d) + el(b"\x46\xae", b"\x01\x02"))
	att = el(b"\x19\x41\xa4\x69", att) if atts else b""
	if r.random() < 0.5 or att_first:
		body, att = body + att, b""
	cl, i = b"", 0
	while i < len(pieces):
		n = r.randint(1, 5)
		c = el(b"\xe7", struct.pack(">H", i))
		for t, fr in pieces[i:i + n]:
			c += block(r, t, fr, strip.get(t, b""))
		cl += el(b"\x1f\x43\xb6\x75", c, r.choice((0, 4, 8)))
		i += n
	body += cl + att
	if r.random() < 0.5:
		body += el(b"\x1c\x53\xbb\x6b", r.randbytes(20))
	return ebml + el(b"\x18\x53\x80\x67", body, r.choice((0, 8)))

# -- MP4 -------------------------------------------------------------------------
def atom(t, data, wide=False):
	if wide:
		return struct.pack(">L", 1) + t + struct.pack(">Q", len(data) + 16) + data
	return struct.pack(">L", len(data) + 8) + t + data

def compact(counts):
	out = []
	for i, n in enumerate(counts):
		if not out or out[-1][1] != n:
			out.append((i + 1, n, 1))
	return out

def fields(bits, sizes):
	"""numbers of 4, 8 or 16 bits"""
	if bits == 4:
		z = sizes + [0] * (len(sizes) % 2)
		return bytes(a * 16 + b for a, b in zip(z[::2], z[1::2]))
	return b"".join(x.to_bytes(bits // 8, "big") for x in sizes)

def mp4(r, tracks, chunks, moov_first=None, co64=None):
	"""tracks: numbers; chunks: [(track, [sample bytes])] in file order"""
	if moov_first is None:
		moov_first = r.random() < 0.5
	if co64 is None:
		co64 = r.random() < 0.3
	ftyp = atom(b"ftyp", b"isom" + r.randbytes(r.randint(2, 20)))
	media = b"".join(b"".join(c) for _, c in chunks)
	wide = r.random() < 0.2
	free = atom(b"free", r.randbytes(r.randint(0, 20))) if r.random() < 0.4 else b""
	seed = r.getrandbits(32)
	import random
	def moov(base):
		q = random.Random(seed)
		out = atom(b"mvhd", q.randbytes(100))
		for t in tracks:
			offs, counts, sizes, pos = [], [], [], base
			for ct, c in chunks:
				if ct == t:
					offs.append(pos)
					counts.append(len(c))
					sizes += [len(x) for x in c]
				pos += sum(len(x) for x in c)
			st = []
			f = ">%dQ" if co64 else ">%dL"
			st.append(atom(b"co64" if co64 else b"stco", struct.pack(">LL", 0, len(offs)) +
				struct.pack(f % len(offs), *offs)))
			runs = compact(counts)
			st.append(atom(b"stsc", struct.pack(">LL", 0, len(runs)) +
				b"".join(struct.pack(">LLL", *x) for x in runs)))
			if sizes and len(set(sizes)) == 1 and sizes[0] and q.random() < 0.8:
				st.append(atom(b"stsz", struct.pack(">LLL", 0, sizes[0], len(sizes))))
			elif max(sizes or [0]) < 65536 and q.random() < 0.2:
				bits = 16 if max(sizes or [0]) > 255 else 8 if max(sizes or [0]) > 15 else \
					q.choice((4, 8, 16))
				st.append(atom(b"stz2", struct.pack(">LLL", 0, bits, len(sizes)) + fields(bits, sizes)))
			else:
				st.append(atom(b"stsz", struct.pack(">LLL", 0, 0, len(sizes)) +
					struct.pack(">%dL" % len(sizes), *sizes)))
			st.append(atom(b"stts", q.randbytes(16)))
			q.shuffle(st)
			tkhd = atom(b"tkhd", q.randbytes(12) + struct.pack(">L", t) + q.randbytes(60))
			out += atom(b"trak", tkhd + atom(b"mdia", atom(b"mdhd", q.randbytes(20)) +
				atom(b"minf", atom(b"vmhd", q.randbytes(12)) + atom(b"stbl", b"".join(st)))))
		return atom(b"moov", out)
	if moov_first:
		n = len(moov(0))
		base = len(ftyp) + n + len(free) + (16 if wide else 8)
		return ftyp + moov(base) + free + atom(b"mdat", media, wide)
	base = len(ftyp) + len(free) + (16 if wide else 8)
	return ftyp + free + atom(b"mdat", media, wide) + moov(base)

# -- ASF -------------------------------------------------------------------------
G_HEADER = bytes.fromhex("3026b2758e66cf11a6d900aa0062ce6c")
G_DATA = bytes.fromhex("3626b2758e66cf11a6d900aa0062ce6c")
G_STREAM = bytes.fromhex("9107dcb7b7a9cf118ee600c00c205365")
G_FILE = bytes.fromhex("a1dcab8c47a9cf118ee400c00c205365")

def asf_obj(guid, data):
	return guid + struct.pack("<Q", len(data) + 24) + data

def asf(r, tracks, pieces, psize=None, zero_pad=None):
	"""pieces: [(track, bytes)]; a piece can be split over payloads."""
	psize = psize or r.choice((120, 300, 1000, 2048))
	if zero_pad is None:
		zero_pad = r.random() < 0.7
	todo = [(t, d) for t, d in pieces if d]
	packets = []
	num = 0
	odd = r.random() < 0.3        # field widths and packings that few programs write
	prop = 0x5d
	if odd and r.random() < 0.5:
		prop = 0x40 | r.choice((1, 2, 3)) << 4 | 3 << 2 | r.choice((1, 2, 3))
	width = {0: "", 1: "B", 2: "H", 3: "L"}
	def phead(t, off, total, small=False):
		p = bytes([t | (0x80 if r.random() < 0.5 else 0)])
		n = r.choice((8, 8, 12)) if odd else 8
		o, l = prop >> 4 & 3, prop & 3
		p += struct.pack("<" + width[o], num % 256)
		if small:        # several small objects in one payload
			return p + struct.pack("<L" + width[l] + "B", r.getrandbits(20), 1, r.getrandbits(4))
		return p + struct.pack("<L" + width[l], off, n) + struct.pack("<LL", total,
			r.getrandbits(20)) + bytes(n - 8)
	HS = len(phead(1, 0, 0)) + (4 if odd else 0)       # the longest one
	HM = HS + 2                                        # with its length
	off = 0
	def take(t, space, several):
		"""one payload of the first piece: its bytes"""
		nonlocal off, num
		d = todo[0][1]
		if odd and r.random() < 0.4 and space > HM + 8:
			subs = []
			room = space - HM
			while todo and todo[0][0] == t and room > 1 and len(subs) < 8:
				d = todo[0][1]
				k = min(len(d), room - 1, 255)
				if r.random() < 0.5:
					k = min(k, r.randint(1, 30))
				subs.append(bytes([k]) + d[:k])
				room -= 1 + k
				todo[0] = (t, d[k:])
				if not todo[0][1]:
					todo.pop(0)
			num += 1
			off = 0
			x = b"".join(subs)
			return phead(t, 0, 0, True) + (struct.pack("<H", len(x)) if several else b"") + x
		k = min(len(d), space - (HM if several else HS))
		if several and r.random() < 0.2:
			k = min(k, r.randint(1, 60))
		p = phead(t, off, len(d)) + (struct.pack("<H", k) if several else b"") + d[:k]
		num += 1
		if k == len(d):
			todo.pop(0)
			off = 0
		else:
			todo[0] = (t, d[k:])
			off += k
		return p
	while todo or not packets:
		multi = r.random() < 0.7 or not todo
		lent, seqt, padt = (r.choice((0, 2, 3)), r.choice((0, 1, 2, 3)), r.randint(0, 3)) if odd \
			else (0, 0, 2)
		if not lent:
			padt = max(2, padt)
		head = b"\x82\x00\x00"
		used = len(head) + 2 + struct.calcsize("<" + width[lent] + width[seqt] + width[padt]) + 6
		if multi:
			space = psize - used - 1
			pl = []
			while todo and space > HM and len(pl) < 60:
				pl.append(take(todo[0][0], space, True))
				space -= len(pl[-1])
				if r.random() < 0.15:
					break
			if not pl:
				pl = [phead(tracks[0], 0, 0) + struct.pack("<H", 0)]
				space -= len(pl[0])
			pad = space
			body = bytes([0x80 | len(pl)]) + b"".join(pl)
		else:
			space = psize - used
			body = take(todo[0][0], space, False)
			pad = space - len(body)
		inner = pad
		if lent:         # some of it behind the end of the packet's own length
			inner = r.choice((0, pad, r.randint(0, pad))) if padt else 0
			if padt == 1:
				inner = min(inner, 255)
		p = head + bytes([lent << 5 | padt << 3 | seqt << 1 | multi, prop])
		for w, x in ((lent, psize - (pad - inner)), (seqt, num % 256), (padt, inner)):
			p += struct.pack("<" + width[w], *([x] if w else []))
		p += struct.pack("<LH", r.getrandbits(20), r.getrandbits(10)) + body
		p += bytes(pad) if zero_pad else r.randbytes(pad)
		assert len(p) == psize, (len(p), psize)
		packets.append(p)
	data = G_DATA + struct.pack("<Q", 50 + psize * len(packets)) + r.randbytes(16) + \
		struct.pack("<QH", len(packets), 0x0101) + b"".join(packets)
	tail = asf_obj(r.randbytes(16), r.randbytes(r.randint(0, 40))) if r.random() < 0.5 else b""
	objs = [None]
	for t in tracks:
		objs.append(asf_obj(G_STREAM, r.randbytes(16 + 16 + 8 + 4 + 4) +
			struct.pack("<HL", t | (0x8000 if r.random() < 0.2 else 0), 0) +
			r.randbytes(r.randint(0, 20))))
	objs.append(asf_obj(r.randbytes(16), r.randbytes(r.randint(0, 30))))
	rest = sum(len(o) for o in objs if o)
	fsize = 24 + 6 + rest + 24 + 80 + len(data) + len(tail)
	fo = asf_obj(G_FILE, r.randbytes(16) + struct.pack("<Q", fsize) + r.randbytes(56))
	objs[0] = fo
	body = b"".join(objs)
	head = G_HEADER + struct.pack("<QL", 30 + len(body), len(objs)) + b"\x01\x02"
	return head + body + data + tail

# -- FLAC, MP3, stream --------------------------------------------------------------
def synchsafe(n):
	return bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127])

def nosync(r, n):
	"""random bytes without marker of any kind"""
	return bytes(r.choice(b"abcdefgh\x00\x01\x02 xyz") for _ in range(n))

def id3v2(r, n=None):
	n = r.choice((0, 1, 30, 200, 127, 128)) if n is None else n
	return b"ID3\x03\x00\x00" + synchsafe(n) + nosync(r, n)

def id3v1(r):
	return b"TAG" + nosync(r, 125)

def lyrics(r):
	b = b"LYRICSBEGIN" + b"IND0000200" + nosync(r, r.randint(0, 300))
	return b + b"%06d" % len(b) + b"LYRICS200"

def lyrics1(r):
	return b"LYRICSBEGIN" + nosync(r, r.randint(0, 4000)) + b"LYRICSEND"

def ape(r, version=None):
	v = version or r.choice((1000, 2000))
	items = nosync(r, r.randint(0, 100))
	foot = b"APETAGEX" + struct.pack("<LLLL", v, len(items) + 32, 1, 0) + bytes(8)
	if v == 2000:
		return b"APETAGEX" + struct.pack("<LLLL", v, len(items) + 32, 1, 0xa0000000) + \
			bytes(8) + items + foot
	return items + foot

def flac(r, audio, id3=None, tag=None):
	"""audio starts with 0xff 0xf8"""
	b = id3v2(r) if (r.random() < 0.2 if id3 is None else id3) else b""
	b += b"fLaC"
	blocks = [(0, r.randbytes(34))]
	for _ in range(r.randint(0, 3)):
		blocks.append((r.choice((1, 2, 3, 4, 6)), r.randbytes(r.choice((0, 1, 40, 300)))))
	for i, (t, d) in enumerate(blocks):
		last = 0x80 if i == len(blocks) - 1 else 0
		b += struct.pack(">L", len(d) | (t | last) << 24) + d
	b += audio
	if r.random() < 0.2 if tag is None else tag:
		b += id3v1(r)
	return b

def mp3_tags(r):
	"""(head, tail) with the parts listed"""
	head, tail = [], []
	for _ in range(r.choice((0, 1, 1, 2))):
		head.append(id3v2(r))
	if r.random() < 0.4:
		tail.append(ape(r))
	if r.random() < 0.3:
		tail.append(lyrics1(r))
	if r.random() < 0.3:
		tail.append(lyrics(r))
	if r.random() < 0.5:
		tail.append(id3v1(r))
	return head, tail
