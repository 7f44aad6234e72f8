From 3160b4f5b41cc64d39101af18bbee6cdf92e40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 01/46] fix: encode EBML sizes of 2^49 and up (8 byte form)

---
 resample/ebml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..1c1efd8 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -89,7 +89,7 @@ def GetEbmlUIntStream(stream):
 def MakeEbmlUInt(number):
 	length_mask = 0
 
-	for i in range(1, 8):
+	for i in range(1, 9):  # 1 to 8 bytes
 		length_mask = 1 << (i * 8 - i)
 		if number < length_mask:
 			length_descriptor = i
-- 
2.43.0


From c9dc47fb0a1fd628a6ef75d3477d93e4f5717f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 02/46] fix: frame sizes of laced Matroska blocks that hold one
 frame

---
 resample/ebml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index 1c1efd8..3cc8de1 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -119,7 +119,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		if lace_type == EbmlLaceType.NONE:
 			frame_sizes[i] = data_length
 		elif lace_type == EbmlLaceType.FIXED:
-			frame_sizes[i] = data_length // lace_frame_count
+			frame_sizes[i] = (data_length - bytes_consumed) // lace_frame_count
 		elif lace_type == EbmlLaceType.XIPH:
 			if (i < lace_frame_count - 1):
 				nextByte = 0xFF
@@ -134,7 +134,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		else:  # EbmlLaceType.Ebml
 			bc = 0
 
-			if i == 0:
+			if i == 0 and lace_frame_count > 1:
 				frame_sizes[i], bc = GetEbmlUIntStream(stream)
 			elif i < lace_frame_count - 1:
 				# convert UInt to SInt then add to previous
-- 
2.43.0


From 2a6b119e1dab730b3b356db5c26ef897ac5d94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 03/46] fix: RarReader failed on a recovery block before the
 first RAR file block of an SRR

---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..8b81838 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1428,7 +1428,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
-- 
2.43.0


From 0e0f4d7d334ddc04be94fa06e4270c4d23c00b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 04/46] fix: report truncated block headers with the documented
 exception

---
 rescene/rar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index 8b81838..c02ab39 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1664,6 +1664,9 @@ class RarReader(object):
 		except EnvironmentError: # corrupt file found
 			self._rarstream.close() # so it's possible to move the bad file
 			raise
+		except struct.error as err: # fields missing from a block header
+			self._rarstream.close()
+			raise EnvironmentError("Invalid RAR block: " + str(err))
 		if not block:
 			self._rarstream.seek(self._initial_offset)
 			raise StopIteration
-- 
2.43.0


From 44b3b64697c78a9ac8c28ab5363f59e04547a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 05/46] fix: read RAR and SRR data that starts inside a stream
 up to its end

---
 rescene/rar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index c02ab39..1bfd521 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1396,9 +1396,9 @@ class RarReader(object):
 		self._initial_offset = self._rarstream.tell()
 		if not file_length:
 			self._rarstream.seek(0, os.SEEK_END) # move relative to end of file
-			self._file_length = self._rarstream.tell() - self._initial_offset
-		else:
-			self._file_length = file_length
+			self._file_length = self._rarstream.tell()
+		else: # the offset where the file ends
+			self._file_length = self._initial_offset + file_length
 
 		# http://en.wikipedia.org/wiki/RAR says:
 		# "The minimum size of a RAR file is 20 bytes."
-- 
2.43.0


From 55f334fb80223c2532e142672d1b9d43427a6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 06/46] fix: UTF-8 encoded and malformed unicode file names of
 archived files

---
 rescene/rar.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 1bfd521..d6a69d3 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1048,9 +1048,19 @@ class RarPackedFileBlock(RarBlock): # 0x74
 		self._p += filename_length
 		if self.flags & RarPackedFileBlock.UTF8_FILE_NAME:
 			null = self.file_name.find(ZERO) # index zero byte
-			self.orig_filename = self.file_name[:null]
-			u = UnicodeFilename(self.orig_filename, self.file_name[null + 1:])
-			self.unicode_filename = u.decode()
+			if null < 0: # no zero byte: the name is encoded using UTF-8
+				self.orig_filename = self.file_name
+				self.unicode_filename = self.file_name.decode("utf-8",
+				                                              "replace")
+			else:
+				self.orig_filename = self.file_name[:null]
+				u = UnicodeFilename(self.orig_filename,
+				                    self.file_name[null + 1:])
+				try:
+					self.unicode_filename = u.decode()
+				except IndexError: # malformed: only the plain name is usable
+					self.unicode_filename = self.orig_filename.decode(
+					                        DEFAULT_CHARSET, "replace")
 		else:
 			self.orig_filename = self.file_name
 			self.unicode_filename = self.file_name.decode(DEFAULT_CHARSET, 
-- 
2.43.0


From 2a7911bf91652a49d0d59036aef7068e89bcad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 07/46] fix: padding of RAR data inside a stream ends with the
 RAR data

The padding was read up to the end of the stream; the position was then
behind the end of the RAR data and the reader returned padding blocks for
ever.
---
 rescene/rar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index d6a69d3..0c09eb4 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1504,7 +1504,8 @@ class RarReader(object):
 		#   error: unpack requires a string argument of length 7
 		if block_start_position + HEADER_LENGTH > self._file_length:
 			if self._rar_end_block_encountered and self._readmode == self.RAR:
-				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read())
+				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read(
+					self._file_length - block_start_position))
 			else:
 				raise EnvironmentError("Cannot read basic block header.")
 
@@ -1532,7 +1533,8 @@ class RarReader(object):
 		# detect padding bytes
 		if self._rar_end_block_encountered and self._readmode == self.RAR:
 			return SrrRarPaddingBlock(
-				padding_bytes=header_buffer + self._rarstream.read())
+				padding_bytes=header_buffer + self._rarstream.read(
+					self._file_length - self._rarstream.tell()))
 		if btype == BlockType.RarMax:
 			self._rar_end_block_encountered = True
 		
-- 
2.43.0


From 2c3edc626c566df17e8353fffda01f53833d4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 08/46] fix: read files in RAR volumes that start with an empty
 part

---
 rescene/rarstream.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..e0fcc63 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -87,6 +87,7 @@ class RarStream(io.IOBase):
 		except IndexError:
 			# IndexError: list index out of range
 			raise AttributeError("File not found in the archive.")
+		self.seek(0)  # the first part can be empty
 
 	def _process(self, rar_file, packed_file_name=None, compressed=False):
 		"""Checks if the rar_file has the packed_file and adds 
-- 
2.43.0


From 269456dc93a122de65c49b23b5db3d7418e5f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 09/46] fix: same file packed again in the next RAR set starts
 at its beginning

---
 rescene/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..a40bc47 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1316,6 +1316,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
 			if (source_name != block.file_name
+				or not block.flags & block.SPLIT_BEFORE  # file starts again
 				or (partial_reconstruction and not partial_set)
 				or (partial_set and source_name != block.file_name)):
 				try: srcfs.close()
-- 
2.43.0


From 8755577e1e8404e93c73b9721976d5a3ef9f28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 10/46] fix: keep the previous result file until the new one
 replaces it

---
 rescene/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..4d1e757 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -481,7 +481,8 @@ def replace_result(src, dest):
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
 		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
+		# (os.replace does it without a moment without either file)
+		if not hasattr(os, "replace") and os.path.isfile(dest):
 			try:
 				os.unlink(dest)
 			except OSError as delete_error:
@@ -504,7 +505,7 @@ def replace_result(src, dest):
 		# concurrency issue: it can fail here with a
 		# WindowsError/OSError when the other process made the file
 		try:
-			os.rename(src, dest)
+			getattr(os, "replace", os.rename)(src, dest)
 		except OSError:
 			print("Two processes are now trying to output the same file!")
 			if _DEBUG:
-- 
2.43.0


From d77adcbe95cd7e6bbef33573069938cf99c95328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 11/46] fix: SFV entries: consistent sort order and removal of
 all duplicates

---
 rescene/utility.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 4d1e757..e36e507 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -168,23 +168,18 @@ class SfvEntry(object):
 	def __lt__(self, other):
 		"""The sort routines are guaranteed to use __lt__ when making 
 		   comparisons between two objects."""
-		ext_self = self.file_name[-4:].lower()
-		ext_other = other.file_name[-4:].lower()
-		same_base = self.file_name[:-4].lower() == other.file_name[:-4].lower()
-
-		if same_base and ext_self != ext_other:
-			if ext_self == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_other)):
-					return True
-				else:
-					return self.file_name < other.file_name  # .rar < .r00
-			elif ext_other == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_self)):
-					return False
-				else:
-					return self.file_name < other.file_name  # .r00 > .rar
 		# .part1.rar < .part2.rar, r99 < s00, 001 < 002
-		return self.file_name < other.file_name
+		return self._sort_key() < other._sort_key()
+
+	def _sort_key(self):
+		name = self.file_name.lower()
+		if name.endswith(".rar"):
+			name = name[:-2] + "!"  # .rar < .r00
+		# part9 < part10
+		name = re.sub(r"(?<=\.part)(\d+)(?=\.r!$)",
+			lambda m: m.group().rjust(20, "0"), name)
+		return (name, self.file_name.lower(), self.crc32.lower(),
+		        self.file_name, self.crc32)
 
 	def __repr__(self):
 		return self.file_name + " " + self.crc32
@@ -266,12 +261,13 @@ def filter_sfv_duplicates(entries):
 	"""Accepts the entries list of the parse functions above.
 	The result will be sorted."""
 	result = list()
-	previous = None
-	for entry in sorted(entries):
-		if previous is None or not entry.__eq__(previous):
+	seen = set()
+	for entry in entries:
+		key = (entry.file_name.lower(), entry.crc32.lower())
+		if key not in seen:
 			result.append(entry)
-		previous = entry
-	return result
+		seen.add(key)
+	return sorted(result)
 
 def same_sfv(one, two):
 	"""Only based on actual content, not comments."""
-- 
2.43.0


From 8e39396829e934533c67faea8beeb0de902cb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 12/46] fix: volume after part9.rar is part10.rar

---
 rescene/utility.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index e36e507..99aa496 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -279,7 +279,7 @@ def same_sfv(one, two):
 
 def next_archive(rfile, is_old=False):
 	"""Returns the name of the next possible RAR archive.
-	Behaviour undefined for *.part99.rar, *.rrar,...
+	Behaviour undefined for *.rrar,...
 	It must never occur.
 	is_old: When enabled, makes sure the first .rar file is detected as
 	        old style volume naming. It makes '.part02.r00' possible.
@@ -296,8 +296,11 @@ def next_archive(rfile, is_old=False):
 			extension[i] = chr(ord(extension[i]) + 1)
 		return "".join(extension)  # array back to string
 
-	if re.match(r".*\.part\d*.rar$", rfile, re.IGNORECASE) and not is_old:
-		return inc(rfile[:-4]) + rfile[-4:]
+	new_style = re.match(r"(.*\.part)(\d+)(\.rar)$", rfile, re.IGNORECASE)
+	if new_style and not is_old:
+		base, number, extension = new_style.groups()
+		number = str(int(number) + 1).zfill(len(number))  # part9, part10
+		return base + number + extension
 	elif re.match(r".*\.rar$", rfile, re.IGNORECASE):
 		return rfile[:-4] + ".r00"
 	elif not is_rar(rfile):
-- 
2.43.0


From 448c676048e9eaf23e0f1a7380ea8741988ef5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 13/46] fix: one first volume for every numbered RAR set

---
 rescene/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 99aa496..66c4e98 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -341,7 +341,7 @@ def first_rars(file_iter):
 
 	firsts = list(filter(is_first, input_files))
 	# .000? then no .001
-	for first in filter(lambda x: x.endswith(".000"), firsts):
+	for first in [x for x in firsts if x.endswith(".000")]:
 		try:
 			firsts.remove(first[:-1] + "1")
 		except ValueError:
-- 
2.43.0


From 0e39c21629cf6d78c010310345d1e8ea9aadaf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 14/46] fix: data of the first file only when no name is given
 for a RAR stream

---
 rescene/rarstream.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index e0fcc63..af64c87 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,6 +79,7 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			packed_file_name = self.packed_file_name  # of the first file
 			rar_file = utility.next_archive(rar_file, is_old)
 
 		try:
-- 
2.43.0


From 365c2bd82a3bee4064f6910dce13476f3126f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 15/46] fix: no path outside of the folder in the name of a
 stored file

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index a40bc47..26ad2c4 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1581,7 +1581,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name.split(os.sep)[0] == os.pardir:
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From 362b8d10919d2a3268bd9c96cf49877dc2f0e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 16/46] fix: keep the SRR file when adding, removing or
 renaming stored files fails

---
 rescene/main.py    | 18 ++++++++----------
 rescene/rar.py     | 21 ++++++++++++---------
 rescene/utility.py | 10 ++++++++++
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 26ad2c4..0ca1ff5 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -55,7 +55,7 @@ from rescene.rarstream import RarStream, FakeFile
 from rescene.utility import (SfvEntry, is_rar, _DEBUG,
                              first_rars, next_archive, empty_folder)
 from rescene.utility import parse_sfv_file, parse_sfv_data
-from rescene.utility import filter_sfv_duplicates
+from rescene.utility import filter_sfv_duplicates, replace_file
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import capitalized_fn
@@ -325,11 +325,6 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
-	except:
-		tmpfile.close()
-		os.unlink(tmpname)
-		raise
-	else:
 		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
@@ -337,8 +332,11 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
+	except:
+		tmpfile.close()
+		os.unlink(tmpname)
+		raise
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -368,10 +366,10 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
+		tmpfile.close()
 		os.unlink(tmpname)
 		raise
 
diff --git a/rescene/rar.py b/rescene/rar.py
index 0c09eb4..6a80718 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,15 +669,18 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
-			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+		try:
+			with open(self.fname, "rb") as f:
+				tmpfile.write(f.read(self.block_position)) # previous block data
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
+			tmpfile.close()
+			utility.replace_file(tmpname, self.fname)
+		except:
+			tmpfile.close()
+			os.unlink(tmpname)
+			raise
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
diff --git a/rescene/utility.py b/rescene/utility.py
index 66c4e98..8948287 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -464,6 +464,16 @@ def create_temp_file_name(output_file):
 
 	return tmpfile
 
+def replace_file(src, dest):
+	"""Renames src to dest. An existing dest is replaced in one step when the
+	platform can do it."""
+	if hasattr(os, "replace"):
+		os.replace(src, dest)
+	else:
+		if os.name == "nt" and os.path.isfile(dest):
+			os.remove(dest)
+		os.rename(src, dest)
+
 def replace_result(src, dest):
 	"""Replaces the destination file with the source file.
 	Will not do anything when the source file doesn't exist.
-- 
2.43.0


From 4a468f1ff32ceb007f8cf079d67eb395f8d1eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 17/46] fix: keep the existing SRR file when creating a new one
 fails

---
 rescene/srr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..fb74c08 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -386,8 +386,9 @@ def create_srr(options, infolder, infiles, working_dir):
 		# FileNotFound: Linux file systems are case sensitive
 
 		# make sure there is no broken SRR file/temporary file left
+		# (an already existing SRR file stays)
 		try:
-			os.unlink(srr_name)
+			os.unlink(tmp_srr_name)
 		except:
 			pass
 		mthread.done = True
-- 
2.43.0


From b7b0d05a2fc7563f10d6043019f33499ed684fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 18/46] fix: error exit of srs for a failure without the word
 aborting

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..c5401d0 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -650,7 +650,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From 90f8fe7d0fa6d3a6e4d5c4ab62f9deaf52ce59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 19/46] fix: refuse sample names that lead outside the output
 folder

---
 resample/srs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index c5401d0..9242db4 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -36,7 +36,7 @@ import resample
 from resample import file_type_info, fpcalc
 from resample.main import InvalidMatchOffset, InvalidPathValue
 from rescene.utility import FileType
-from rescene.utility import sep, is_rar
+from rescene.utility import sep, is_rar, joinpath
 from rescene.utility import raw_input, unicode
 from rescene.utility import create_temp_file_name, replace_result
 
@@ -492,7 +492,7 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			result_file = joinpath((srs_data.name,), out_folder)
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From 9d3cc37edc4bedd46e06a01970ef4687f8b2f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 20/46] fix: keep the existing file when rebuilding a sample
 fails

---
 resample/srs.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index 9242db4..1e4eaa2 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -609,18 +609,14 @@ def main(argv=None, no_exit=False):
 							replace_result(out_file, result_file)
 				else:
 					# delete reconstruction failure
-					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
-					elif is_music:
+					# (an already existing result file stays)
+					if is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
 						if m == r:
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
-						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
+					os.unlink(out_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
-- 
2.43.0


From b6b5e5224805a7926878a9e0f0fe28c8c37da4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 21/46] fix: no partial SRR file after a failed creation

---
 rescene/main.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 0ca1ff5..90d85cb 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -579,6 +579,12 @@ def create_srr(srr_name, infiles, in_folder="",
 				except (ValueError, AttributeError):
 					pass # file is too small or compressed RARs
 		return True
+	except Exception:
+		# no partial result
+		srr.close()
+		if os.path.isfile(tmp_srr_name):
+			os.unlink(tmp_srr_name)
+		raise
 	finally:
 		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
@@ -633,6 +639,12 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			srr.write(block.block_bytes())
 				
 		return True
+	except Exception:
+		# no partial result
+		srr.close()
+		if os.path.isfile(tmp_srr_name):
+			os.unlink(tmp_srr_name)
+		raise
 	finally:
 		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
-- 
2.43.0


From 24e5baa24eb61fabb92e78f9609741f2637d3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 22/46] fix: volumes with the same name in different folders of
 an SRR

---
 rescene/main.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 90d85cb..369de12 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1009,6 +1009,8 @@ def info(srr_file):
 					sfv.seek(block.block_position + block.header_size)
 					sfvdata = sfv.read(block.file_size)
 				(entries, comments, errors) = parse_sfv_data(sfvdata)
+				for entry in entries:
+					entry.folder = os.path.dirname(block.file_name)
 				sfv_entries.extend(entries)
 				sfv_comments.extend(comments)
 				# TODO: let user know that there is a bad SFV
@@ -1020,6 +1022,10 @@ def info(srr_file):
 			current_rar = None # end the file size counting
 				
 			key = os.path.basename(block.file_name.lower())
+			if (key in rar_files and
+				rar_files[key].file_name.lower() != block.file_name.lower()):
+				# same name in an other folder
+				key = block.file_name.lower()
 			current_rar = FileInfo()
 			current_rar.file_name = block.file_name
 			current_rar.file_size = 0
@@ -1127,7 +1133,8 @@ def info(srr_file):
 	def add_info_to_rar(sfv_entry):
 		"""Add SFV crc32 hashes to the right RAR info block"""
 		key = os.path.basename(sfv_entry.file_name).lower()		  
-		rar = rar_files.get(key)
+		path = sfv_entry.folder + "/" + sfv_entry.file_name
+		rar = rar_files.get(path.lower()) or rar_files.get(key)
 		if rar is not None:
 			rar.crc32 = sfv_entry.crc32.upper()
 			return True
@@ -1157,7 +1164,8 @@ def content_hash(srr_file, algorithm='sha1'):
 	with open(srr_file, 'rb') as sfile:
 		# sort based on file name without path
 		# the difference in capitals is ignored
-		for key in sorted(rar_files.keys()):
+		rars = []
+		for key in rar_files.keys():
 			start = rar_files[key].offset_start_rar
 			try:
 				end = rar_files[key].offset_end_rar
@@ -1166,6 +1174,8 @@ def content_hash(srr_file, algorithm='sha1'):
 				amount = -1 # read until EOF
 			sfile.seek(start)
 			data = sfile.read(amount)
+			rars.append((os.path.basename(key), data))
+		for _name, data in sorted(rars):
 			m.update(data)
 	return m.hexdigest()
 	
-- 
2.43.0


From 4dcd3fab34599512b9b34baeed88c2904940ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 23/46] fix: flags of SRS track records with large track
 numbers or sizes

---
 resample/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..2aebc3e 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -437,13 +437,18 @@ class TrackData(object):
 		return self.__str__()
 
 	def serialize(self):
+		# the reader relies on the flags for the width of these fields
+		if self.data_length >= 2 ** 32:
+			self.flags |= self.BIG_FILE
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
 
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-		if self.track_number >= 2 ** 16:
+		if self.flags & self.BIG_TACK_NUMBER:
 			data_length += 2
 			buff.write(S_LONG.pack(self.track_number))
 		else:
-- 
2.43.0


From 2070f56b157f4baa3624ae405e364633272ecb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 24/46] fix: endless loop on stream SRS files with bad block
 sizes

---
 resample/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resample/stream.py b/resample/stream.py
index 83b0e1c..11e044d 100644
--- a/resample/stream.py
+++ b/resample/stream.py
@@ -89,9 +89,11 @@ class StreamReader(object):
 			if _DEBUG:
 				print(block)
 
-			if size == 0 and pos != 0:
+			if size == 0 and pos == 0:
 				# only allowed for the marker block
-				raise InvalidDataException("SRS size field is zero")
+				block.size = size = 8
+			if size < 8:
+				raise InvalidDataException("SRS size field is too small")
 
 			pos += size
 			if pos > self._file_length:
-- 
2.43.0


From fe1832c00adb7188bacf736f7b7c3da01ae7019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 25/46] fix: MP4 boxes smaller than their header

---
 resample/mov.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resample/mov.py b/resample/mov.py
index 10ca160..09939fe 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -105,6 +105,9 @@ class MovReader(object):
 		if atom_length == 1:
 			# 8-byte size field after the atom type
 			bsize = self._mov_stream.read(8)
+			if len(bsize) < 8:
+				raise InvalidDataException("Incomplete box header at 0x%08X" %
+				                           atom_start_position)
 			(atom_length,) = BE_LONGLONG.unpack(bsize)
 			self._atom_header += bsize
 			hsize += 8
@@ -120,6 +123,11 @@ class MovReader(object):
 				# the atom extends to the end of the file
 				atom_length = self._file_length - atom_start_position
 
+		if atom_length < hsize:
+			# not even room for its own header
+			raise InvalidDataException("Invalid box length at 0x%08X" %
+			                           atom_start_position)
+
 		# sanity check on atom length
 		# Skip check on mdat so we can still report expected size.
 		# This is only applied on samples,
-- 
2.43.0


From e7744cae350ffe52afae394bd0c013c8c5e6590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 26/46] fix: FLAC files with less than 128 bytes of frame data

---
 resample/flac.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resample/flac.py b/resample/flac.py
index 8d51ab5..c3c4a8a 100644
--- a/resample/flac.py
+++ b/resample/flac.py
@@ -135,9 +135,10 @@ class FlacReader(object):
 		if self.block_type == 0xFF:  # frame data
 			block_length = self._file_length - block_start_position
 			# check for ID3v1 tag
-			self._flac_stream.seek(self._file_length - 128)
-			if self._flac_stream.read(3) == b"TAG":
-				block_length -= 128
+			if block_length > 128:
+				self._flac_stream.seek(self._file_length - 128)
+				if self._flac_stream.read(3) == b"TAG":
+					block_length -= 128
 			self._block_header = b""
 		else:
 			(block_length,) = BE_LONG.unpack(b"\x00" + self._block_header[1:])
-- 
2.43.0


From cfd2cd9684d7b0372bc4479da2a8a009d7bca324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 27/46] fix: ASF objects smaller than their header or without
 data packets

---
 resample/asf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resample/asf.py b/resample/asf.py
index d944e2a..633b97a 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -124,8 +124,16 @@ class AsfReader(object):
 
 		if self.object_guid == GUID_HEADER_OBJECT:
 			self._atom_header += self._asf_stream.read(6)
+			size = max(size, len(self._atom_header))
 		elif self.object_guid == GUID_DATA_OBJECT:
 			self._atom_header += self._asf_stream.read(26)
+			if self._atom_header[40:48].strip(b"\x00") == b"":
+				raise InvalidDataException("No data packets at 0x%08X" %
+				                           object_start_position)
+		if size < len(self._atom_header):
+			# not even room for its own header
+			raise InvalidDataException("Invalid object length at 0x%08X" %
+			                           object_start_position)
 
 
 		self.current_object = Object(size, self.object_guid)
-- 
2.43.0


From 689c68ad7c9fdd8bb266011b4a728422f85aefd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 28/46] fix: RIFF lists smaller than their header

---
 resample/riff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resample/riff.py b/resample/riff.py
index 8f43846..8ffd7e3 100644
--- a/resample/riff.py
+++ b/resample/riff.py
@@ -232,6 +232,9 @@ class RiffReader(object):
 			chunk_header += self._riff_stream.read(4)
 			fourcc = chunk_header[8:12]
 			chunk_length -= 4  # extra dwFourCC
+			if chunk_length < 0:
+				raise InvalidDataException("Invalid list length at 0x%08X" %
+				                           (chunk_start_position + 4))
 
 			self.chunk_type = RiffChunkType.List
 			self.current_chunk = RiffList()
-- 
2.43.0


From b3fd80021528ce41dda93a93a62ffba206949e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 29/46] fix: Matroska blocks smaller than their header

---
 resample/ebml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resample/ebml.py b/resample/ebml.py
index 3cc8de1..9287c82 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -415,6 +415,9 @@ class EbmlReader(object):
 				blockHeader = newBlockHeader
 
 			element_length -= len(blockHeader)
+			if element_length < 0:
+				msg = "Invalid block length at 0x{0:08X}"
+				raise InvalidDataException(msg.format(element_start_position))
 
 			self.current_element = BlockElement()
 			self.current_element.track_number = trackno
-- 
2.43.0


From 12f8afb4c774f9b632057aa21b243200ea0c5529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 30/46] fix: tags of MP3 files that are small or have
 overlapping tags

---
 resample/mp3.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..79b3105 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -123,10 +123,10 @@ class Mp3Reader(object):
 
 		# 2) check for ID3v1 (last 128 bytes of mp3 file)
 		end_meta_data_offset = self._file_length
-		self._mp3_stream.seek(-128, os.SEEK_END)
+		self._mp3_stream.seek(max(0, self._file_length - 128), os.SEEK_SET)
 		idv1_start_offset = self._mp3_stream.tell()
 		first = self._mp3_stream.read(3)
-		if first == b"TAG":
+		if first == b"TAG" and self._file_length >= 128:
 			idv1_block = Block(128, "TAG", idv1_start_offset)
 			self.blocks.append(idv1_block)
 			end_meta_data_offset = idv1_start_offset
@@ -153,13 +153,15 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				lyrics_offset = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(lyrics_offset, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(
+					end_meta_data_offset - lyrics_offset)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = lyrics_offset + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
@@ -245,6 +247,8 @@ class Mp3Reader(object):
 
 		(sync,) = BE_SHORT.unpack(marker[:2])
 		main_size = end_meta_data_offset - begin_main_content
+		if main_size < 0:
+			raise InvalidDataException("Leading and trailing tags overlap")
 		if marker[:3] == b"SRS":  # SRS data blocks
 			cur_pos = begin_main_content
 			while cur_pos < begin_main_content + main_size:
-- 
2.43.0


From c0c72cf0c290073bc31bbee756f06e868fe6c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 31/46] fix: WMV main files with streams that are not in the
 sample

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 2aebc3e..2e79cb5 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2683,7 +2683,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# to see if it's the start of a new match
 						# (probably will never happen with AVI
 						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
+						if track.signature_bytes and not track.check_bytes:
 							payload_bytes = payload.data
 
 							search_byte = track.signature_bytes[0]
-- 
2.43.0


From 6aeebecc197879612a1dbd9eae83fadda0e0d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 32/46] fix: MP4 main file that is not the first file in a RAR
 set

---
 resample/main.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 2e79cb5..a7c623f 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2434,12 +2434,13 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file,
+                           archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2606,7 +2607,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3242,22 +3244,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 
 	for track_nb, track in tracks.items():
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+                              archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From 271f4c49e53337218673bbf80b117e16d56b21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 33/46] fix: skipping the media data atom of an MP4 SRS

---
 resample/mov.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/resample/mov.py b/resample/mov.py
index 09939fe..7fbe36b 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -163,12 +163,12 @@ class MovReader(object):
 				"for mdat atoms using the chunk method. These mdat atoms "
 				"can become enormous and cause a MemoryError.")
 
+		# skip header bytes
+		hl = len(self.current_atom.raw_header)
+		self._mov_stream.seek(hl, os.SEEK_CUR)
 		# do always when it's not a SRS file
 		# else skip it when encountering removed data
 		if (self.mode != MovReadMode.SRS or self.atom_type != b"mdat"):
-			# skip header bytes
-			hl = len(self.current_atom.raw_header)
-			self._mov_stream.seek(hl, os.SEEK_CUR)
 			buff = self._mov_stream.read(self.current_atom.size - hl)
 		return buff
 
@@ -201,6 +201,11 @@ class MovReader(object):
 				self._mov_stream.seek(self.current_atom.start_pos +
 				                      self.current_atom.size,
 				                      os.SEEK_SET)
+			else:
+				# there is only the header to skip
+				self._mov_stream.seek(self.current_atom.start_pos +
+				                      len(self.current_atom.raw_header),
+				                      os.SEEK_SET)
 
 	def move_to_child(self):
 		self.read_done = True
-- 
2.43.0


From 7696c5512e125a2f9f87b366528801e04471e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 34/46] fix: data error for a truncated ID3v2 tag header

---
 resample/mp3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resample/mp3.py b/resample/mp3.py
index 79b3105..1718ea4 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -45,6 +45,8 @@ def decode_id3_size(sbytes):
 	# it might. To avoid that possibility, the size is encoded using
 	# only the bottom seven bits of each byte, with the top bit always
 	# zero."
+	if len(sbytes) < 4:
+		raise InvalidDataException("Truncated ID3v2 tag header")
 	return reduce(lambda x, y: x * 128 + y,
 	              (ord(sbytes[i:i + 1]) for i in range(4)))
 
-- 
2.43.0


From 0b14da267dce89a555c5c0b1c1fb8df045ef6ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 35/46] fix: block header of EBML laced frames with an invalid
 first size

---
 resample/ebml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resample/ebml.py b/resample/ebml.py
index 9287c82..115e996 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -136,6 +136,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 
 			if i == 0 and lace_frame_count > 1:
 				frame_sizes[i], bc = GetEbmlUIntStream(stream)
+				assert bc
 			elif i < lace_frame_count - 1:
 				# convert UInt to SInt then add to previous
 				length, bc = GetEbmlUIntStream(stream)
-- 
2.43.0


From a33b19cd4bd5554a7b231efa5c7bef2ceb497d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 36/46] fix: Matroska track numbers of 128 and up

---
 resample/ebml.py |  8 ++++++++
 resample/main.py | 18 +++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index 115e996..ab79d4a 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -73,6 +73,14 @@ def GetEbmlUInt(buff, offset, count):
 
 	return size  # integer size
 
+def GetUIntContent(buff):
+	"""buff: data of an unsigned integer element (no length descriptor)"""
+	value = 0
+	for i in range(len(buff)):
+		value = (value << 8) + BE_BYTE.unpack_from(buff, i)[0]
+
+	return value
+
 def GetEbmlUIntStream(stream):
 	(first_byte,) = BE_BYTE.unpack(stream.read(1))
 	bytes_consumed = GetUIntLength(first_byte)
diff --git a/resample/main.py b/resample/main.py
index a7c623f..0fcacbe 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -50,7 +50,7 @@ from rescene.utility import _DEBUG
 from rescene.utility import FileType
 
 from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
-from resample.ebml import GetEbmlUInt, MakeEbmlUInt, EbmlID
+from resample.ebml import GetUIntContent, MakeEbmlUInt, EbmlID
 from resample.riff import RiffReader, RiffReadMode, RiffChunkType
 from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
@@ -765,7 +765,7 @@ def mkv_load_srs(self, infile):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUIntContent(elm_content)
 			done = False
 		elif er.element_type == EbmlElementType.TrackCodec:
 			elm_content = er.read_contents()
@@ -777,7 +777,7 @@ def mkv_load_srs(self, infile):
 					elm_content.decode("ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUIntContent(elm_content)
 			header_stripping = algorithm == 3  # 3: header stripping
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -1108,7 +1108,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUIntContent(elm_content)
 			if not current_track_nb in tracks:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -1128,7 +1128,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 1: bzlib
 			# 2: lzo1x
 			# 3: header stripping
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUIntContent(elm_content)
 			tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
@@ -2273,7 +2273,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			done = _mkv_block_find(self, tracks, er, done, tracks_main)
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUIntContent(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -2286,7 +2286,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUIntContent(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -3127,7 +3127,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUIntContent(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -3140,7 +3140,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUIntContent(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-- 
2.43.0


From d56a57f6a86080fa0771dbda9402730e1d55735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 37/46] fix: rebuilding FLAC samples that have an ID3 tag

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 0fcacbe..39b677c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3778,7 +3778,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in tuple(bytearray(b"stu")) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From d108eeac7bd45cca61bae1431fac382dc66318c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 38/46] fix: endless loop on ASF files with more packets than
 data

---
 resample/asf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resample/asf.py b/resample/asf.py
index 633b97a..734e5e6 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -127,7 +127,10 @@ class AsfReader(object):
 			size = max(size, len(self._atom_header))
 		elif self.object_guid == GUID_DATA_OBJECT:
 			self._atom_header += self._asf_stream.read(26)
-			if self._atom_header[40:48].strip(b"\x00") == b"":
+			packets = 0
+			if len(self._atom_header) == 50:
+				(packets,) = struct.unpack_from("<Q", self._atom_header, 40)
+			if not 0 < packets <= size:
 				raise InvalidDataException("No data packets at 0x%08X" %
 				                           object_start_position)
 		if size < len(self._atom_header):
-- 
2.43.0


From 6c86f0dcfa8f9ea88407e257c8edff6ba10c3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 39/46] fix: rebuilding WMV samples when a packet read ends at
 the end of the data

---
 resample/asf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resample/asf.py b/resample/asf.py
index 734e5e6..2bcc375 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -196,9 +196,8 @@ class AsfReader(object):
 		return buff
 
 	def read_data_part(self, offset, length):
-		if (offset + length == self.current_object.start_pos +
-		                       self.current_object.size):
-			self.read_done = True
+		self.read_done = (offset + length == self.current_object.start_pos +
+		                                     self.current_object.size)
 		self._asf_stream.seek(offset, os.SEEK_SET)
 		return self._asf_stream.read(length)
 
-- 
2.43.0


From 91ed5ac6efd294643fc66c82b796d021163cace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 40/46] fix: MP4 tracks with compact sample sizes (stz2)

---
 resample/main.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 39b677c..271451e 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1291,7 +1291,9 @@ def profile_mp4(mp4_data,  # FileData object
 
 # 			print(current_track.chunk_lengths)
 
-		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
+		elif atype == b"stz2":  # Compact Sample Size Box
+			current_track.sample_lengths += mp4_compact_sizes(data)
+		elif atype == b"stsz":  # Sample Size Box
 			(sample_size,) = BE_LONG.unpack_from(data, 4)
 			(sample_count,) = BE_LONG.unpack_from(data, 8)
 			if sample_size == 0:
@@ -1344,6 +1346,23 @@ def stsc(samples_chunk):
 		index += 1
 	return new
 
+def mp4_compact_sizes(data):
+	"""The sample sizes of a stz2 box: fields of 4, 8 or 16 bits."""
+	(field_size,) = BE_LONG.unpack_from(data, 4)
+	field_size &= 0xFF  # the other 24 bits are reserved
+	(sample_count,) = BE_LONG.unpack_from(data, 8)
+	if field_size == 16:
+		return list(struct.unpack_from(">%dH" % sample_count, data, 12))
+	if field_size == 8:
+		return list(struct.unpack_from(">%dB" % sample_count, data, 12))
+	if field_size != 4:
+		raise ValueError("Unknown field size for MP4 sample sizes.")
+	sizes = []
+	amount = (sample_count + 1) // 2
+	for byte in struct.unpack_from(">%dB" % amount, data, 12):
+		sizes += [byte >> 4, byte & 0x0F]
+	return sizes[:sample_count]
+
 def mp4_profile_sample(self, mp4_data):
 	tracks = profile_mp4(mp4_data, calculate_crc32=True,
 		archived_file_name=self.archived_file_name)
@@ -3650,7 +3669,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 
 			# enlarge compactly coded tables
 			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
-		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
+		elif atype == b"stz2":  # Compact Sample Size Box
+			current_track.sample_lengths += mp4_compact_sizes(data)
+		elif atype == b"stsz":  # Sample Size Box
 			(sample_size,) = BE_LONG.unpack_from(data, 4)
 			(sample_count,) = BE_LONG.unpack_from(data, 8)
 			if sample_size == 0:
-- 
2.43.0


From 8e64723082d4df2d619d2e51b7783e5ab74b2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 41/46] fix: match offset of music behind data that is no audio
 is one in the file

The signature found by mp3_match_signature() was reported relative to the
audio block, while mp3_extract_sample_streams() takes match_offset as a
position in the file, like the match at the start of the block sets it.
A main MP3 file with a tag and junk before its first frame failed to
rebuild.
---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 271451e..ca7ecf4 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2835,7 +2835,7 @@ def mp3_match_signature(track, block, mr):
 		data = mr.read_part(size, boffset)
 		found_offset = data.find(track.signature_bytes)
 		if found_offset > -1:
-			track.match_offset = boffset + found_offset
+			track.match_offset = block.start_pos + boffset + found_offset
 			track.match_length = min(track.data_length, block.size)
 			break
 		boffset += (batchsize - SIG_SIZE + 1)
-- 
2.43.0


From 83e57bf1a1f94b061c793151ddc19a6290feea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 42/46] fix: Matroska tracks with headers removed differently
 in sample and main file

When both the sample and the main file use header stripping, but not for the
same bytes, the search put the main file's header in front of data that was
cut by the sample's whole header.  Only the difference may be added or cut,
like when the data is extracted.
---
 resample/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index ca7ecf4..a79b570 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2341,6 +2341,10 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 			sformain = track.compression_settings
 		if track2.compression_settings:
 			sforsample = track2.compression_settings
+		if sforsample and sformain:
+			# both have removed headers: only the difference matters
+			sforsample, sformain = (sforsample[len(sformain):],
+			                        sformain[len(sforsample):])
 
 	# it's possible the sample didn't require
 	# or contain data for all tracks in the main file
-- 
2.43.0


From ea37a7ca9db16a79338f0dc00eff2e1e7e7a2750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 43/46] fix: Matroska signature ending inside a stripped header

The header that was stripped in the main file was appended whole to the
bytes to check, even when fewer bytes of the signature were left, so the
match was dropped.
---
 resample/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index a79b570..d4801b5 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2368,6 +2368,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 									offset + len(sformain) + lcb -
 									len(track.check_bytes) - len(sforsample)]
 
+				check_bytes = check_bytes[:lcb]
+
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 				else:
@@ -2385,6 +2387,7 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				check_bytes = sforsample
 				check_bytes += buff[offset + len(sformain):
 				                    offset + len(sformain) + lcb - len(sforsample)]
+				check_bytes = check_bytes[:lcb]
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
@@ -2437,6 +2440,7 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 								offset + len(sformain) + lcb -
 								len(track.check_bytes_bug) - len(sforsample)]
 
+			check_bytes = check_bytes[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 			else:  # partial match, start over
@@ -2447,6 +2451,7 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 			check_bytes = sforsample
 			check_bytes += buff[offset + len(sformain):
 								offset + len(sformain) + lcb - len(sforsample)]
+			check_bytes = check_bytes[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
-- 
2.43.0


From 2eef7c00fe48fd0eca3e0aa442d9b5bdf63cb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 44/46] fix: AVI main file with a stream that has no data
 behind the sample's

Such a stream gets no track file, which broke the rebuild.
---
 resample/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index d4801b5..9f10e0c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3443,8 +3443,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
-- 
2.43.0


From 85c1f4f4cab3cd07d267472532ac9ce77eabf801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:59 +0000
Subject: [PATCH 45/46] fix: read all blocks again when a RAR or SRR file is
 walked once more

The reader returns to the first block at the end, but kept the state it had
there: behind an end of archive block the second walk saw the whole file as
padding.
---
 rescene/rar.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 6a80718..fb049ef 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1472,6 +1472,13 @@ class RarReader(object):
 		except:
 			pass
 		
+	def _rewind(self):
+		"""Go back to the first block, with the state a new reader has."""
+		self._rarstream.seek(self._initial_offset)
+		self._rar_end_block_encountered = False
+		if self._readmode == self.SRR:
+			self.recovery_blocks_removed = True
+
 	def _read(self):
 		"""Archive processing is made in the following manner: (unrar)
 		1. Read and check marker block
@@ -1637,7 +1644,7 @@ class RarReader(object):
 		try:
 			return self._found_blocks 
 		except AttributeError:
-			self._rarstream.seek(self._initial_offset)
+			self._rewind()
 			self._found_blocks = []
 			for block in self:
 #				print(block)
@@ -1683,7 +1690,7 @@ class RarReader(object):
 			self._rarstream.close()
 			raise EnvironmentError("Invalid RAR block: " + str(err))
 		if not block:
-			self._rarstream.seek(self._initial_offset)
+			self._rewind()
 			raise StopIteration
 		return block
 	
-- 
2.43.0


From 25711a69a0eaa18d1a1e9917d96ecebd73c1bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 46/46] fix: padding behind a RAR archive knows its position

Showing the blocks of a padded volume failed with an AttributeError.
---
 rescene/rar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index fb049ef..2d8e0a0 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -849,6 +849,7 @@ class SrrRarPaddingBlock(RarBlock):
 			self.flags = self.LONG_BLOCK
 			self.padding_size = len(padding_bytes)
 			self.header_size = HEADER_LENGTH + 4
+			self.block_position = filepos
 			
 			self._write_header(self.header_size)
 			self._rawdata += struct.pack("<I", self.padding_size) # 4 bytes
@@ -1514,7 +1515,8 @@ class RarReader(object):
 		#   error: unpack requires a string argument of length 7
 		if block_start_position + HEADER_LENGTH > self._file_length:
 			if self._rar_end_block_encountered and self._readmode == self.RAR:
-				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read(
+				return SrrRarPaddingBlock(filepos=block_start_position,
+					padding_bytes=self._rarstream.read(
 					self._file_length - block_start_position))
 			else:
 				raise EnvironmentError("Cannot read basic block header.")
@@ -1542,7 +1544,7 @@ class RarReader(object):
 		
 		# detect padding bytes
 		if self._rar_end_block_encountered and self._readmode == self.RAR:
-			return SrrRarPaddingBlock(
+			return SrrRarPaddingBlock(filepos=block_start_position,
 				padding_bytes=header_buffer + self._rarstream.read(
 					self._file_length - self._rarstream.tell()))
 		if btype == BlockType.RarMax:
-- 
2.43.0

