"""C14: bounded search, headers written by a separate encoder of the three lacing forms."""
import io
from pyvc.registry import search

XIPH, FIXED, EBML = 2, 4, 6

def vint(n, width):
	return ((1 << (7 * width)) | n).to_bytes(width, "big")

def width(r, n):
	"""a width that can hold n; the pattern with only ones is kept free"""
	w = 1
	while n >= (1 << (7 * w)) - 1:
		w += 1
	return min(8, w + (r.randint(0, 2) if r.random() < 0.2 else 0))

def lace(r, kind, sizes):
	"""header bytes of a block with frames of these sizes"""
	h = bytearray([len(sizes) - 1])
	if kind == XIPH:
		for n in sizes[:-1]:
			h += b"\xff" * (n // 255) + bytes([n % 255])
	elif kind == EBML and len(sizes) > 1:
		h += vint(sizes[0], width(r, sizes[0]))
		for a, b in zip(sizes, sizes[1:-1]):
			w = 1
			while abs(b - a) > (1 << (7 * w - 1)) - 2:
				w += 1
			if w < 7 and r.random() < 0.2:
				w += 1
			h += vint(b - a + (1 << (7 * w - 1)) - 1, w)
	return bytes(h)

def size(r):
	q = r.random()
	if q < 0.3:
		return r.randint(0, 3)
	if q < 0.6:
		return r.choice((62, 63, 64, 126, 127, 128, 253, 254, 255, 256, 509, 510, 511, 8190, 8191,
			8192, 16382, 16383, 16384))
	if q < 0.9:
		return r.randint(0, 1500)
	return r.randint(0, r.choice((20000, 70000, 3000000)))

def lacing_case(s, r):
	m = s.mod("resample.ebml")
	kind = r.choice((XIPH, FIXED, EBML))
	n = r.choice((1, 2, 3, r.randint(1, 12), r.randint(1, 256), 256))
	if kind == FIXED:
		sizes = [size(r)] * n
	elif r.random() < 0.3:
		sizes = [r.randint(1, 400) for _ in range(n)]
	else:
		sizes = [size(r) for _ in range(n)]
	h = lace(r, kind, sizes)
	pad = bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
	at = r.randint(0, 4)
	s.note(lacing=kind, sizes=sizes if len(sizes) < 20 else (len(sizes), sizes[:20]), header=h)
	f = io.BytesIO(bytes(at) + h + pad)
	f.seek(at)
	got, used = m.GetBlockFrameLengths(kind, len(h) + sum(sizes), f)
	if used != len(h) or f.tell() != at + len(h):
		s.violate("consumed", "%d bytes, the header has %d" % (used, len(h)))
	if list(got) != sizes:
		bad = [i for i in range(min(len(got), n)) if got[i] != sizes[i]]
		s.violate("frame-sizes", "%d frames, expected %d; frame %r" % (len(got), n,
			bad and (bad[0], got[bad[0]], sizes[bad[0]])))
	s.seen((kind, n, max(sizes) > 255, max(sizes) > 5000))

def number_case(s, r):
	m = s.mod("resample.ebml")
	w = r.randint(1, 8)
	lim = (1 << (7 * w)) - 1
	n = r.choice((0, 1, lim - 1, lim >> 1, r.randint(0, lim - 1), (1 << (7 * (w - 1)))))
	s.note(number=n, width=w)
	if n < lim:
		b = vint(n, w)
		if m.GetUIntLength(b[0]) != w:
			s.violate("length", "%r of %r" % (m.GetUIntLength(b[0]), b))
		if m.GetEbmlUInt(bytearray(b"xyz") + bytearray(b), 3, w) != n:
			s.violate("value", repr(b))
		if m.GetEbmlUIntStream(io.BytesIO(b + b"\xff")) != (n, w):
			s.violate("value", "stream " + repr(b))
	e = bytes(m.MakeEbmlUInt(n))
	if m.GetUIntLength(e[0]) != len(e) or m.GetEbmlUInt(bytearray(e), 0, len(e)) != n:
		s.violate("round-trip", "%d gives %r" % (n, e))
	s.seen((w, n.bit_length()))

@search("C14", "lacing_against_encoder", "up to 256 frames of up to 3000000 bytes in the three "
	"lacing forms; numbers of every width")
def c14(s):
	while s.more():
		s.case(lambda: lacing_case(s, s.rng))
		s.case(lambda: number_case(s, s.rng))
