From 67a5a84343c7f35f95d93fb628a2d6896d3fb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:08 +0000
Subject: [PATCH 01/14] fix: reject excess interleaved instructions that arrive
 in a later chunk

---
 src/vcdecoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..59075d8 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1308,7 +1308,12 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  // In the interleaved format, some of the instructions section may not have
+  // arrived yet.  Those bytes are just as much in excess as any that have.
+  if (!instructions_and_sizes_.Empty() ||
+      (IsInterleaved() &&
+       (interleaved_bytes_expected_ >
+            static_cast<int>(instructions_and_sizes_.ParsedSize())))) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From 5c71fbcb2e9957fb0fc177e2e8ceb25745759407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 02/14] fix: reject a delta file whose custom code table is
 invalid

---
 src/vcdecoder.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 59075d8..842df40 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -843,7 +843,16 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  // LastMode() is only meaningful if the cache sizes are valid.
+  if (!addr_cache_->Init()) {
+    VCD_DFATAL << "Error initializing address cache" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    VCD_ERROR << "Invalid custom code table" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 090a946701104a06ec3e98078d57f8e09cb69155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 03/14] fix: do not recurse into nested custom code tables

---
 src/vcdecoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 842df40..13f73c6 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -737,6 +737,13 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // RFC section 7: the encoding of a custom code table must itself use the
+      // default code table.  This also bounds the depth of decoder recursion.
+      VCD_ERROR << "Custom code table data uses another custom code table"
+                << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From 0f3de51edbed0a53d71578f82b1337cba7df2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 04/14] fix: forget a custom code table when decoding of its
 delta file ends

---
 src/decodetable.h | 6 ++++++
 src/vcdecoder.cc  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..8685992 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,12 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Goes back to the default code table, undoing any call to UseCodeTable().
+  //
+  void UseDefaultCodeTable() {
+    code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+  }
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 13f73c6..f19e790 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -644,6 +646,7 @@ void VCDiffStreamingDecoderImpl::Reset() {
   addr_cache_.reset();
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
+  delta_window_.UseDefaultCodeTable();
   delta_window_.Reset();
   decoded_target_output_position_ = 0;
 }
-- 
2.43.0


From d42342d14ad76d68f8db5e75ec8cc9b583b24ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 05/14] fix: signed overflow when decoding a NEAR address

---
 src/addrcache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..12041ce 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -121,7 +121,11 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    const VCDAddress near_address = NearAddress(mode - FirstNearMode());
+    // Neither value is negative.  If their sum would not fit in a VCDAddress,
+    // return an invalid address rather than overflowing.
+    return (encoded_address > 0x7FFFFFFF - near_address) ?
+        static_cast<VCDAddress>(RESULT_ERROR) : near_address + encoded_address;
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From 078975169572973c3c8906234f04b9cbeea42cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 06/14] fix: target file size limit lowered during decoding was
 not enforced

---
 src/vcdecoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index f19e790..2afe52e 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -989,8 +989,11 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
+  // SetMaximumTargetFileSize() may have lowered the limit below the size of
+  // the windows seen so far.
   size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
+      (maximum_target_file_size_ > total_of_target_window_sizes_) ?
+      (maximum_target_file_size_ - total_of_target_window_sizes_) : 0;
   if (window_size > remaining_maximum_target_bytes) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
-- 
2.43.0


From f9574cac47bfe74d3e2384a48ea683ddcc0d04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 07/14] fix: JSON writer emitted a stray bracket when reused
 for an empty target

---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From 0ecb2e2830f6a6b1d15b9d5c3fa303074208d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 08/14] fix: escape the data of a RUN in JSON output

---
 src/jsonwriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..5d96b68 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,8 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  const string run(size, static_cast<char>(byte));
+  JSONEscape(run.data(), run.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From 5ad3cc28794c95bd009ce36df856b2abf0ca39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 09/14] fix: vcdiff command looped forever on an empty input
 file

---
 src/vcdiff_main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..22a9361 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -279,7 +279,9 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
     buffer_size = static_cast<size_t>(FLAGS_buffersize);
     if (file_size < buffer_size) {
       // Allocate just enough memory to store the entire file
-      buffer_size = file_size;
+      // (or at least one byte, because reading zero bytes from an empty file
+      // would never detect the end of that file).
+      buffer_size = (file_size > 0) ? file_size : 1;
     }
   }
   buffer->resize(buffer_size);
-- 
2.43.0


From 2bce3a6ede1893d541fb7ea7109f930d7a25f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 10/14] fix: vcdiff command ignored errors from flushing its
 output

---
 src/vcdiff_main.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 22a9361..a007ceb 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Makes sure that everything passed to WriteOutput() has left the stdio
+  // buffer.  If successful, returns true.  If an error occurs, writes an error
+  // log message and returns false.
+  bool FlushOutput();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -338,6 +343,15 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::FlushOutput() {
+  if (fflush(output_file_) != 0) {
+    std::cerr << "Error writing " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -435,7 +449,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
@@ -499,7 +513,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From d8149e7fe0c8ed04d920f4dd55e9ee017e8c2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:50 +0000
Subject: [PATCH 11/14] fix: heap overflow for a code table with a NOOP and a
 large second size

---
 src/instruction_map.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..0ba69c2 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -44,6 +44,15 @@ static unsigned char FindMaxSize(
   return max_size;
 }
 
+// The first instruction map also holds the second instructions of opcodes
+// whose first instruction is NOOP, so it needs room for both kinds of sizes.
+static unsigned char FindMaxFirstSize(
+    const VCDiffCodeTableData& code_table_data) {
+  const unsigned char max_size_1 = FindMaxSize(code_table_data.size1);
+  const unsigned char max_size_2 = FindMaxSize(code_table_data.size2);
+  return (max_size_1 > max_size_2) ? max_size_1 : max_size_2;
+}
+
 static void ClearSizeOpcodeArray(int length, OpcodeOrNone* array) {
   for (int i = 0; i < length; ++i) {
     array[i] = kNoOpcode;
@@ -151,7 +160,7 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             FindMaxFirstSize(code_table_data)),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0


From 3a017168516681719f189de0999d47df90b60ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:03 +0000
Subject: [PATCH 12/14] fix: reject a window that ends in the middle of a
 two-instruction opcode

---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index 8685992..9ef9b73 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -127,6 +127,13 @@ class VCDiffCodeTableReader {
     }
   }
 
+  // Returns true if the opcode read most recently contains a second
+  // instruction that GetNextInstruction() has not returned yet.
+  //
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
  private:
   // A pointer to the code table.  This is the object that will be used
   // to interpret opcodes in GetNextInstruction().
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 2afe52e..5bb3063 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1332,7 +1332,8 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   }
   // In the interleaved format, some of the instructions section may not have
   // arrived yet.  Those bytes are just as much in excess as any that have.
-  if (!instructions_and_sizes_.Empty() ||
+  if (reader_.HasPendingInstruction() ||
+      !instructions_and_sizes_.Empty() ||
       (IsInterleaved() &&
        (interleaved_bytes_expected_ >
             static_cast<int>(instructions_and_sizes_.ParsedSize())))) {
-- 
2.43.0


From 0b165e460fd0631f368325f9cf3bc673ba8248ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 13/14] fix: address modes were confused when the NEAR cache
 takes up all modes

---
 src/addrcache.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index 12041ce..d10b953 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -103,11 +103,14 @@ class VCDiffAddressCache {
   }
 
   bool IsNearMode(unsigned char mode) const {
-    return (mode >= FirstNearMode()) && (mode < FirstSameMode());
+    return (mode >= FirstNearMode()) &&
+        (mode < FirstNearMode() + near_cache_size());
   }
 
   bool IsSameMode(unsigned char mode) const {
-    return (mode >= FirstSameMode()) && (mode <= LastMode());
+    // If there are no SAME modes, then FirstSameMode() may not fit in a byte.
+    return (same_cache_size() > 0) &&
+        (mode >= FirstSameMode()) && (mode <= LastMode());
   }
 
   static VCDAddress DecodeSelfAddress(int32_t encoded_address) {
-- 
2.43.0


From b6a6c6ee2edc35fa64ea214db1d39f96a96b2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:38 +0000
Subject: [PATCH 14/14] fix: JSON COPY offsets of target data in second and
 later chunks

JSONCodeTableWriter wrote the engine's address of previously encoded target
data as is.  That address is relative to the current chunk, but the JSON array
does not say where one chunk ends and the next begins, so from the second chunk
on such a COPY named the wrong bytes.  Write the offset relative to the whole
target instead.
---
 src/google/jsonwriter.h | 12 +++++++++++-
 src/jsonwriter.cc       | 21 ++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/google/jsonwriter.h b/src/google/jsonwriter.h
index 54a2019..12c6cd6 100644
--- a/src/google/jsonwriter.h
+++ b/src/google/jsonwriter.h
@@ -33,7 +33,8 @@ namespace open_vcdiff {
 // * Each ADD is represented by a single JSON string containing
 //   the data to add.
 // * Each COPY is represented by two numbers. The first is an offset into
-//   the dictionary.  The second is a length.
+//   the dictionary followed by the entire target (not just the current
+//   window of it).  The second is a length.
 // * Each RUN is represented by a JSON string containing the data to add,
 //   similar to the ADD command.
 //
@@ -91,6 +92,15 @@ class JSONCodeTableWriter : public CodeTableWriterInterface {
 
   // Set if an opcode has been added.
   bool opcode_added_;
+
+  // The size of the dictionary as passed to Init().
+  size_t dictionary_size_;
+
+  // The number of target bytes described by the opcodes added so far.
+  size_t target_size_;
+
+  // The position within the target at which the current window begins.
+  size_t window_start_;
 };
 
 }  // namespace open_vcdiff
diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index 5d96b68..0e7cffd 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -24,18 +24,23 @@
 namespace open_vcdiff {
 
 JSONCodeTableWriter::JSONCodeTableWriter()
-  : output_called_(false), opcode_added_(false) {}
+  : output_called_(false), opcode_added_(false), dictionary_size_(0),
+    target_size_(0), window_start_(0) {}
 JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
-bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
+bool JSONCodeTableWriter::Init(size_t dictionary_size) {
   output_ = "[";
   output_called_ = false;
   opcode_added_ = false;
+  dictionary_size_ = dictionary_size;
+  target_size_ = 0;
+  window_start_ = 0;
   return true;
 }
 
 void JSONCodeTableWriter::Output(OutputStringInterface* out) {
   output_called_ = true;
+  window_start_ = target_size_;
   out->append(output_.data(), output_.size());
   output_ = "";
 }
@@ -81,6 +86,7 @@ void JSONCodeTableWriter::Add(const char* data, size_t size) {
   JSONEscape(data, size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
@@ -88,10 +94,18 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
   if (opcode_added_) {
     output_.push_back(',');
   }
+  // An offset beyond the dictionary is relative to the current target window,
+  // but the JSON array does not mark where one window ends and the next begins.
+  // Make the offset relative to the beginning of the whole target instead.
+  size_t json_offset = static_cast<size_t>(offset);
+  if (json_offset >= dictionary_size_) {
+    json_offset += window_start_;
+  }
   std::ostringstream copy_code;
-  copy_code << offset << "," << size;
+  copy_code << json_offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
@@ -104,6 +118,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
   JSONEscape(run.data(), run.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::WriteHeader(OutputStringInterface *,
-- 
2.43.0

