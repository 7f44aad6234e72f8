"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe or [], hook_needed=None)))

prop("C01", "Rebuilding from an SRR reproduces the RAR volumes byte for byte",
 "For every RAR set whose files are stored without compression, creating an SRR from the volumes and reconstructing from that SRR plus the extracted files yields volumes with the same names and exactly the same bytes. This covers any number of files and volumes, directories, empty files, service blocks (comments, new style recovery records), old style recovery blocks, locators of the archive end and trailing padding after it. When an extracted file has a different size the reconstruction fails instead of producing a volume silently.",
 ["inputs"], "all store-mode RAR 1.5-4.x volume sets and their extracted files",
 "The suite rebuilds a handful of fixed sets; block layouts, header flags, sizes at the 0x10000 read boundary, recovery record shapes and padding lengths form an unbounded space.",
 ["rescene/main.py", "rescene/rar.py", "rescene/rarstream.py"],
 [("create_srr", "rescene/main.py create_srr/create_srr_fh/create_srr_single_volume"), ("reconstruct", "rescene/main.py reconstruct, _repack, _write_recovery_record"), ("RarReader", "rescene/rar.py RarReader, RarBlock subclasses")],
 observe=["bytes of the reconstructed volumes"])

prop("C02", "Every SRR block that is written is read back with the same fields",
 "Each kind of SRR block (file header with application name, stored file, RAR file reference, OSO/ISDb hash, RAR padding) that the library serialises is parsed back from those bytes to the same names, sizes, hashes and flags. The length announced in the block header equals the length of the serialised header plus exactly the data that follows it, so the next block starts right behind it. Path separators of the running system in stored names are written as forward slashes.",
 ["inputs"], "all field values: names of any length and script within the 16-bit header limit, sizes up to 2^32-1 (stored) and 2^64-1 (OSO)",
 "Tests check a few literal blocks; the field widths, multi-byte names and length arithmetic must agree for every value.",
 ["rescene/rar.py"], [("block constructors", "rescene/rar.py SrrHeaderBlock, SrrStoredFileBlock, SrrRarFileBlock, SrrOsoHashBlock, SrrRarPadBlock, RarBlock")])

prop("C03", "Block readers walk a RAR or SRR file without losing or inventing bytes",
 "Reading any RAR volume or SRR file block by block yields blocks that start where the previous one ended, so that headers plus the data that is really present cover the file from the first marker to the end; walking the file again with the same reader yields the same blocks. Every call makes progress and ends: malformed or truncated input gives a documented error or an end of iteration, never an endless loop or an unrelated exception. Sizes of 4 GiB and more (high packed and unpacked size fields), names, checksums and host fields are decoded to the values the bytes hold.",
 ["inputs", "histories"], "all byte strings presented as RAR 1.5-4.x or SRR files, walked once or several times",
 "Tests read a few well-formed archives; arbitrary flag combinations, large sizes, truncation points and corrupt lengths cannot be sampled.",
 ["rescene/rar.py"], [("RarReader", "rescene/rar.py RarReader._parse/_read/next"), ("RarBlock and RarPackedFileBlock parsing", "rescene/rar.py RarBlock, RarPackedFileBlock, RarNewSubBlock")])

prop("C04", "Adding, removing or renaming stored files leaves the rest of an SRR intact",
 "Adding stored files to an SRR, removing them or renaming one changes only the stored files asked for: every other block keeps its bytes and its order, and the file stays a readable SRR. Added files come back with exactly their content and the chosen name; a renamed file keeps its content and its place. When the operation is refused or fails, the original SRR is unchanged and no temporary file is left behind as the result.",
 ["inputs", "fault_sequences"], "all SRR files, all sets of stored files to add/remove/rename, failures of the underlying file operations",
 "Tests edit one or two fixed SRR files without injected failures.",
 ["rescene/main.py"], [("editing", "rescene/main.py add_stored_files, remove_stored_files, rename_stored_file"), ("block copy", "rescene/rar.py RarReader, SrrStoredFileBlock.srr_data")])

prop("C05", "Merging SRR files keeps every stored file and all RAR metadata in order",
 "Merging SRR files produces a single SRR that contains one SRR header, then the stored files of all inputs in the given order, then all other blocks of the inputs in the given order, byte for byte and without their SRR headers. Nothing is dropped, duplicated or reordered, so every volume reconstructable from an input stays reconstructable from the merged file.",
 ["inputs"], "all sequences of SRR files",
 "Tests merge two fixed files and look at the result size.",
 ["rescene/main.py"], [("merge_srrs", "rescene/main.py merge_srrs")])

prop("C06", "Extraction never writes outside the output folder or over existing files",
 "Whatever names an SRR, its stored RAR metadata or an SRS contains, extracting stored files, reconstructing volumes and rebuilding samples only create files inside the chosen output folder; names with empty, dot, parent or rooted elements are refused. Extracted stored files hold exactly the stored bytes. A file that already exists is replaced only when overwriting was allowed.",
 ["inputs"], "all stored path names (either separator, unicode, control characters) and folder states",
 "Tests try a few bad names; every combination of separators and elements must be safe.",
 ["rescene/utility.py", "rescene/main.py", "rescene/rar.py", "resample/srs.py", "resample/main.py"],
 [("joinpath", "rescene/utility.py joinpath"), ("os_file_name", "rescene/rar.py BlockWithFile"), ("_opath/_extract", "rescene/main.py extract_files, _opath, _extract"), ("sample name", "resample/srs.py main, resample/main.py FileData")])

prop("C07", "A file inside RAR volumes reads exactly like a plain file",
 "For every store-mode volume set, the stream over an archived file returns for any sequence of seek, tell and read calls exactly what a read-only file with the concatenated packed bytes would return. Its reported length is that content's length. Files inside a set that was renamed, that starts at any first volume, or that has empty parts or several archived files are addressed correctly; compressed sets are refused.",
 ["inputs", "histories"], "all store-mode volume sets, all archived files, all sequences of read/seek/tell",
 "Tests do a few reads; boundaries between volumes, negative and past-the-end seeks and zero-length parts need all positions.",
 ["rescene/rarstream.py"], [("RarStream", "rescene/rarstream.py RarStream"), ("FakeFile", "rescene/rarstream.py FakeFile")])

prop("C08", "Recovery records are regenerated exactly from the volume data",
 "The recovery data produced for a volume is, for any content, sector count and number of recovery sectors, the sequence of 16-bit checksums of the consecutive 512-byte sectors (inverted low half of CRC-32, last sector zero padded) followed by the parity sectors, each the exclusive-or of the sectors that belong to its slice. It depends only on the bytes before the record and is the same however the data was split into writes.",
 ["inputs"], "all volume contents and recovery sector counts",
 "Tests compare two fixed archives; partial sectors, write split points and sector counts are unbounded.",
 ["rescene/main.py", "rescene/rar.py"], [("calculation", "rescene/main.py _write_recovery_record")])

prop("C09", "Packed data is rebuilt with the exact size and a wrong source is reported",
 "When a packed part of a volume is rebuilt from a source file, exactly the recorded number of bytes is copied from the right offset of that file, whatever the chunk boundaries, and the running checksum covers precisely those bytes. A part that ends a file whose data does not match the recorded CRC is reported as a mismatch, and data that matches is never reported. The next part continues where the previous one stopped.",
 ["inputs"], "all source contents, part sizes and file splits over volumes",
 "Tests use matching sources only and a single chunk size class.",
 ["rescene/main.py"], [("_repack", "rescene/main.py _repack"), ("_locate_file", "rescene/main.py _locate_file, _auto_locate_renamed")])

prop("C10", "The OSO/ISDb hash equals its definition for every file of 64 KiB or more",
 "For every file of at least 64 KiB the computed hash is the file size plus the sum of all little-endian 64-bit words in its first and last 64 KiB, modulo 2^64, written as 16 lower-case hexadecimal digits; smaller files are refused with an error. The hash of a file inside a RAR set equals the hash of the extracted file.",
 ["inputs"], "all file contents and sizes", "Tests know two reference files; overflow, overlap of both 64 KiB windows and zero padding need all contents.",
 ["rescene/osohash.py"], [("compute_hash", "rescene/osohash.py"), ("osohash_from_rar", "rescene/osohash.py")])

prop("C11", "Combining CRC-32 values gives the CRC-32 of the concatenation",
 "For all byte strings A and B, combining crc32(A), crc32(B) and the length of B gives crc32(A followed by B). The combination with an empty B returns the CRC of A.",
 ["inputs"], "all pairs of 32-bit CRC values and all lengths", "Tests combine a few fixed strings; the operation is linear algebra over every bit of length and value.",
 ["rescene/crc32combine.py"], [("crc32_combine", "rescene/crc32combine.py")])

prop("C12", "SFV parsing classifies every line once and never loses an entry",
 "Every line of any SFV file is classified exactly once as comment, entry or error (blank lines aside), entries carry the name and the checksum padded to eight digits as written, and parsing never fails. Removing duplicates keeps the first occurrence of every distinct entry. The order in which volumes are sorted puts a set in its archive order and does not depend on the order in which the entries were given.",
 ["inputs"], "all byte strings presented as SFV data and all lists of entries", "Tests parse some examples; encodings, whitespace, odd checksums and orderings are unbounded.",
 ["rescene/utility.py"], [("parse_sfv_data", "rescene/utility.py parse_sfv_data, SfvEntry, filter_sfv_duplicates")])

prop("C13", "Volume naming steps through a RAR set in order and recognises its parts",
 "Starting from the first volume of a set, the next-volume rule yields each volume name in the archiver's order for old style (.rar, .r00 ... .r99, .s00 ...), new style (.partN.rar with any digit count) and numeric (.001) names, never repeats a name, and past the last name of a scheme yields nothing that is recognised as a volume. Every name of a volume that it yields is recognised as a RAR volume. Selecting first volumes from any collection of names keeps exactly one first volume per set.",
 ["inputs"], "all base names, volume numbers and naming styles", "Tests check a few names; carries (r99 to s00, part9 to part10, 999) and mixed collections are an infinite family.",
 ["rescene/rar.py", "rescene/rarstream.py", "rescene/utility.py"], [("next_archive", "rescene/utility.py next_archive, is_rar, first_rars")])

prop("C14", "EBML sizes encode and decode to the same number and lacing adds up",
 "Every unsigned number that fits the format is encoded as an EBML variable-length integer that decodes to the same number with the announced length, using the marker position the format prescribes. For every Matroska block the frame sizes derived from its lacing header (none, Xiph, fixed, EBML) are non-negative and add up to the frame data of the block.",
 ["inputs"], "all encodable integers; all block payloads with well-formed lacing headers", "Tests use a few constants; there are 2^56 values and unbounded lacing headers.",
 ["resample/ebml.py"], [("varints", "resample/ebml.py MakeEbmlUInt, GetUIntLength, GetEbmlUInt"), ("lacing", "resample/ebml.py EbmlReader")])

prop("C15", "SRS file and track records survive being written and read in any container",
 "A file record (application, sample name, size, checksum) and a track record (number, length, match offset, signature) written into an SRS come back with the same values in every container form: EBML, RIFF, MP4, ASF, FLAC, MP3 and stream. This holds for samples above 2 and 4 GiB, for track numbers up to 32 bits and for non-ASCII names. The length announced by each container wrapper is the length of the record.",
 ["inputs"], "all field values the record format can hold", "Tests serialise one or two small records.",
 ["resample/main.py"], [("FileData", "resample/main.py FileData"), ("TrackData", "resample/main.py TrackData")])

prop("C16", "Music tag scanning covers an MP3 file exactly once",
 "For every MP3 file whose tags lie within the file the leading and trailing tags (ID3v2, ID3v1, Lyrics3, APE) and the audio between them are reported as parts that do not overlap and together cover the whole file, and reading each part returns its bytes. Reading malformed tags ends: in a division of the file or in an error. ID3v2 sizes are decoded as four 7-bit groups and encode back to the same bytes.",
 ["inputs"], "all byte strings presented as MP3 files", "Tests scan a few tag combinations.",
 ["resample/mp3.py"], [("Mp3Reader", "resample/mp3.py Mp3Reader"), ("decode_id3_size", "resample/mp3.py")])

prop("C17", "Media container readers progress, terminate and account for every byte",
 "The AVI, Matroska, MP4, ASF, FLAC and SRS stream readers walk any file element by element: each step reports an element whose header and content follow the previous one, consumes at least one byte, and stops at the end of the data. Stepping over an element or reading it leaves the reader at the same place, and malformed sizes give a data error instead of an endless loop.",
 ["inputs"], "all byte strings presented as media or SRS files", "Tests read a few valid samples; corrupted lengths, padding and nesting are unbounded.",
 ["resample/riff.py", "resample/ebml.py", "resample/mov.py", "resample/asf.py", "resample/flac.py", "resample/stream.py"],
 [("readers", "RiffReader, EbmlReader, MovReader, AsfReader, FlacReader, StreamReader")])

prop("C18", "A sample rebuilt from its SRS is byte-identical or reported as failed",
 "For every supported sample (MP4 files with one media data atom, Matroska attachments with distinct names) and every main file that contains the sample's stream data, starting at a place that the recorded signature locates uniquely (for FLAC and MP3: at the start of the main file's audio, for MP3 also behind data that is no audio), creating an SRS from the sample and rebuilding with the main file yields the original sample bytes. The program reports success only when the rebuilt file has the recorded checksum; with missing or different stream data it ends with an error and does not leave a wrong sample in place.",
 ["inputs"], "all AVI, MKV, MP4, WMV, FLAC, MP3 and stream samples and main files", "Tests round-trip a few small samples; interleavings, lacing, header stripping, padding and offsets are unbounded.",
 ["resample/main.py", "resample/srs.py"], [("profile/create/load/find/extract/rebuild", "resample/main.py *_profile_sample, *_create_srs, *_load_srs, *_find_sample_streams, *_extract_sample_streams, *_rebuild_sample"), ("success decision", "resample/srs.py main")])

prop("C19", "A result file is complete or absent, and an existing one is not lost",
 "When the programs (srr, srs) create an SRR or SRS or rebuild a sample they work in a temporary file next to the target whose name is not in use, and only a finished result replaces the target. At every point where a step can fail or the process can stop, the target path holds the old file or the complete new one. A failed creation leaves no partial result under the target name.",
 ["crash_points", "fault_sequences"], "every failing file operation and interruption point during creation and replacement",
 "Tests never interrupt or fail a file operation.",
 ["rescene/utility.py", "rescene/main.py", "resample/srs.py"], [("temporary file and replacement", "rescene/utility.py create_temp_file_name, replace_result"), ("callers", "rescene/main.py create_srr, resample/srs.py main")])

prop("C20", "SRR information and content hash follow from the RAR metadata alone",
 "The reported volumes with their sizes and checksums, archived files with sizes and checksums, stored files, comments and OSO hashes are exactly those the blocks of the SRR describe. The content hash is the same for SRRs with the same RAR volumes whatever stored files, application name, volume order or letter case they have, and differs when the headers or sizes of a volume differ.",
 ["inputs"], "all SRR files and all edits to their stored files", "Tests read a few files; independence from everything else is a relation over pairs of inputs.",
 ["rescene/main.py"], [("info", "rescene/main.py info"), ("content_hash", "rescene/main.py content_hash")])

prop("C21", "MP4 chunk tables map every sample of a track to its exact bytes",
 "For every well-formed set of MP4 tables (increasing chunk offsets, compact sample-to-chunk runs, sample sizes) the expanded table gives each chunk its run's sample count, and the samples of a track are exactly the consecutive sizes at the chunk's offset. Reading a track from any sample start returns the track's bytes across chunk boundaries in order, and the stored signature is the first bytes of the track.",
 ["inputs", "histories"], "all chunk tables, start samples and read lengths", "Tests expand a few tables.",
 ["resample/main.py"], [("stsc", "resample/main.py stsc, mp4_add_track_stream, mp4_signature_bytes"), ("TrackStream", "resample/main.py TrackStream, TrackChunk")])

prop("C22", "Archived file times and unicode names decode to what the header encodes",
 "DOS date and time fields of archived files decode to the encoded year, month, day, hour, minute and even second, and the extended fields add exactly the odd second and 100 ns remainder they encode for each timestamp present. The compact unicode name encoding of RAR decodes to the original name for every name, and malformed encodings fall back to the plain name instead of failing.",
 ["inputs"], "all 32-bit DOS times, all extended time fields, all encoded names", "Tests decode a handful of constants.",
 ["rescene/rar.py"], [("times", "rescene/rar.py parse_dos_time, parse_ext_time"), ("names", "rescene/rar.py UnicodeFilename")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
