TEXT = dict(
C01="""
A volume is described by its block list; the argument is one step of the block loops.
Creation: for any block the reader hands out (by the contracts of C03) the SRR grows by
exactly the block's header (plus the data the SRR keeps), and the volume's own block carries
its name. Rebuilding: for any block of the SRR and any state of the volume so far, the volume
grows by the header bytes followed by the data owed to it (source bytes by C09, recovery data
by C08, kept data, padding); a different source size ends in an error. The composition (list
of blocks of the volume = list of blocks of the SRR) is induction over the loop, which is the
loop rule. The source file is found by name, by the announced size or, renamed, by size and CRC
(`archived_file_on_disk`, `renamed_file_by_size`). Creating the block list is not covered by a contract for every block kind, so
generated sets are rebuilt as a bounded stand-in with byte comparison.""",
C02="""
Each constructor runs on symbolic field values and writes its header; the reader class runs on
those symbolic bytes; the postcondition compares every field and the announced length. All
values within the format's limits, no bound on name lengths (up to the 16-bit header). Which volumes an SFV or a first volume
stands for is stated by `volumes_of_an_sfv` and `volumes_of_first`, any number of them.""",
C03="""
Every block class is constructed from arbitrary header bytes under the reader's precondition:
it returns or raises a documented error, and field values equal the little-endian values of
the bytes. `reader_next` states the step: the next block starts where the previous one with
its present data ended, and progress is made (variant: bytes left). Bounded: generated,
damaged and sparse files against an independent walk.""",
C04="""
One-step contracts of the copying loops: for any block of the original the temporary file
grows by that block, or by the block that replaces it, or by nothing; the new stored files
come before the first block that is not a header. The file system is a virtual one in which
any operation may fail; at every exit the original holds the old or the complete new bytes.""",
C05="""
`merge_step`: for any input block the output grows by its bytes in the pass it belongs to
(header once, stored files first, everything else after) and by nothing otherwise.""",
C06="""
`joinpath`, `_opath` and `_extract` run on names whose elements are chosen from all element
classes (empty, dot, parent, rooted, drive, control characters, ordinary) in any combination
of both separators; the resulting path must be inside the folder or the name refused. The
writing step must hold exactly the stored bytes and replace nothing without permission. The
string model is by class of element: names are bounded in the number of elements (stated in
the contract), so the search stays as a stand-in for arbitrary text.""",
C07="""
`volume_table_step`/`volume_chain` state how the table of parts is built from the headers
(start and length of each part, contiguous); `seek` and `read` are proved against the
definition of a plain file over the concatenation, for any table satisfying that invariant,
with the loop over volumes cut by its invariant.""",
C08="""
The real function on any volume content, size and number of recovery sectors: loop invariants
for the sector loop (checksums so far, parity sectors as exclusive-or per slice) with the
exclusive-or of sectors as an uninterpreted commutative fold whose defining equations are
instantiated. CRC-32 is uninterpreted.""",
C09="""
`packed_part`: the copy loop with the invariant "bytes so far = source[offset: offset + done],
running checksum = CRC of exactly those"; the mismatch decision is a postcondition in both
directions.""",
C10="""
The real hashing function on a stream with any content of 64 KiB or more: the sum loop is cut
by the invariant "sum of the first k words modulo 2^64"; entry points are checked to hash the
stream they open.""",
C11="""
CRC-32 is defined as a linear map over GF(2): `matrix_times` is proved to be that linear map,
`crc32_combine` to apply the zero-byte operator length times (loop invariant over the bits of
the length), and the lemma that this equals the CRC of the concatenation is discharged from
the linearity axioms of the register update.""",
C12="""
Splitting into lines and the classification of a line are string operations over arbitrary
text. The contracts run the real functions with abstract line objects (what `startswith`,
`find`, slices and the patterns can answer) where that decides the statement; the rest is a
bounded search against an independent classification. Files and streams give the same parse
(`sfv_from_file_or_stream`), and `same_sfv` compares exactly the sorted entries.""",
C13="""
A name is an opaque text of any length without a line break, followed by what its style adds:
letters, symbolic digits, or a number of any size padded to any width. The patterns the code
matches with are read by the parser of the `re` module itself and become regular languages;
whether a name is in one is decided by z3 and cvc5, group borders by a uniqueness argument
(`pyvc/texts.py`). Proved for all of these: the successor in each style, the end of each
scheme, recognition of every volume, and that exactly the names of the three styles are
recognised. The selection of first volumes runs on arbitrary names but collections of two or
three of them (bounded in the number of names); the base of an old-style set is assumed not to
end in "part" and digits there, as such a name is a new-style one. Larger collections are
searched.""",
C14="""
Encoder and decoder run on a symbolic 64-bit number (bit vectors, exact): round trip, length
and marker position, for every size class. Lacing: each header form with any frame count,
loops cut by "sum so far". `lacing_against_encoder` (bounded) lays out frames with an encoder of
its own and reads them back, which gives failing inputs for large frames.""",
C15="""
Records: the serialisers and constructors on symbolic values (round trip for every field
value). Containers: each wrapper announces the record's length. `create_*`: one step of every
writer for any element the reader hands out; `load_*`: the loading loops find both records.""",
C16="""
The ID3v2 size codec is proved for all four bytes and all numbers. The whole constructor of
`Mp3Reader` runs on a file with any content and length: leading tags are cut by a loop rule
(any number of them), the tags at the end are split into twelve contracts by which of ID3v1
and Lyrics3 are there and how many leading tags (none, one, more); the blocks must tile the file, each tag
with the size it announces. `last_id3v2_before_sync` has a contract of its own (the last marker
before the first sync, any number of 64 KiB windows), used for data between tag and audio, and
for SRS files. Restrictions: the begin of a Lyrics3 v1 tag is the only `LYRICSBEGIN` in its
window, and for the junk and SRS cases the only tag at the end is ID3v1. `read_contents` and
`read_part` deliver the bytes of the block. Searched on files built from tags, and mutated.""",
C17="""
Every reader's `read`, `read_contents`, `skip_contents`, `move_to_child` on a file with any
content and any position: the element starts where the previous one ended, header and content
are the file's bytes, at least one byte is consumed (variant), errors are data errors. The
readers for SRS files are under contract too.""",
C18="""

`rebuild_*`: one step of each rebuilding loop for any element: the sample grows by the header
and the bytes owed from the track or the SRS, and the returned CRC is that of the bytes
written. `srs_rebuild_outcome`: the program reports success only when the checksums are equal,
whatever the steps return or raise.

Finding the streams. `avi_find_step`, `mkv_find_step_*`, `wmv_find`: for any signature, state of
the search and content of a chunk, frame or payload, the match so far goes on with the content,
or it is dropped and the first place that fits begins a new one (Matroska: with the bytes that
headers stripped in the sample or the main file add or take away, one contract per case). The
position recorded is that place in the main file. "First place" is proved for one arbitrary
place the loop invariant carries along. `stream_find`, `mp3_match_signature`: the first place
of the whole main file, whatever windows and batches it is read in. Equality of parts of
arbitrary length is told by name here (pyvc `opaque_eq`), so a counter-model counts only when
it is reproduced on the real code.

Taking the streams. `avi_extract_step`, `mkv_extract_step_*`, `wmv_extract`, `stream_extract`,
`mp3_extract`, `flac_extract`: until a track is complete each of its chunks, frames or payloads
adds exactly what is at the match offset or behind it; packets and clusters are passed over only
in front of every match offset; "done" only when every track is complete. `avi_find/extract`,
`mkv_find/extract`: the walk over the elements of the main file, any number and order.
What the readers hand out is proved under C17. `mp4_find_tracks`, `mp4_extract_tracks` are bounded
(up to three tracks). Profiling (`avi_profile`, `mkv_profile`, `wmv_profile`, `flac_profile`,
`mp3_profile`, `stream_profile`, `m2ts_profile`): the checksum taken is that of all bytes of the
file in order, each track's length is the sum of its chunks, and its signature their first bytes.
`checksum_of_a_file`: whatever the chunking. Not under contract: the other `m2ts_*` functions and
the x265 variant `_extra_offsets_x265_bug`; the composition of the steps is covered by
the bounded round trips.""",
C19="""
The programs and library functions run on a file system stand-in where every operation may
fail; at every operation the target must hold what it held before or a complete result, and
temporary files are new names next to it.""",
C20="""
Bounded search against the generator's block list for `info` and `content_hash`; contracts
cover the per-block step of both where listed.""",
C21="""
Tables are abstract sequences of any length: the run table is expanded entry by entry, chunks
get consecutive sizes, the stream's `read`, `next` and `seek` are proved against prefix sums
for any number of chunks and samples, signature and search likewise.""",
C22="""
DOS and extended times: all field values symbolically (bit-precise); the name decoder on any
byte strings: one step of the decoding loop against the format's definition, including the
malformed ends.""",
)
