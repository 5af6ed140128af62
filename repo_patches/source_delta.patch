From b107a675818c4e4f8a4610810529b2cb074d6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/15] fix: compose Hangul LV + T instead of LVT + T in
 normalization

---
 src/normalization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalization.cpp b/src/normalization.cpp
index 63406d7..d2390e0 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -168,7 +168,7 @@ static bool would_compose(std::u32string_view input) noexcept {
       continue;
     }
     if (current >= hangul_sbase && current < hangul_sbase + hangul_scount) {
-      if ((current - hangul_sbase) % hangul_tcount &&
+      if ((current - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
@@ -274,7 +274,7 @@ void compose(std::u32string& input) {
       }
     } else if (input[input_count] >= hangul_sbase &&
                input[input_count] < hangul_sbase + hangul_scount) {
-      if ((input[input_count] - hangul_sbase) % hangul_tcount &&
+      if ((input[input_count] - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
-- 
2.43.0


From 1f828ec87323383b49b67c4c0b432085d2078a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 02/15] fix: is_already_nfc accepted strings whose
 decomposition recomposes differently

A precomposed character followed by a mark of lower combining class, and
characters excluded from composition, were reported as NFC.
---
 src/normalization.cpp | 68 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/normalization.cpp b/src/normalization.cpp
index d2390e0..7bfa56f 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -21,8 +21,8 @@ constexpr char32_t hangul_scount =
 
 // Canonical decomposition length (0 if none / compatibility-only / Hangul
 // syllable). Length 1 means a singleton mapping (character is not NFC form).
-// Length >= 2 means a primary composite that is already the NFC form of its
-// decomposition (e.g. U+00E9 LATIN SMALL LETTER E WITH ACUTE).
+// Length >= 2 means either a primary composite (e.g. U+00E9 LATIN SMALL LETTER
+// E WITH ACUTE) or a composition exclusion (e.g. U+0958); see recomposes().
 static size_t canonical_decomp_length(char32_t current_character) noexcept {
   if (current_character >= hangul_sbase &&
       current_character < hangul_sbase + hangul_scount) {
@@ -219,6 +219,61 @@ static bool would_compose(std::u32string_view input) noexcept {
   return false;
 }
 
+// Returns the primary composite of (first, second), or 0 if there is none.
+// Hangul syllables are composed arithmetically elsewhere.
+static char32_t compose_pair(char32_t first, char32_t second) noexcept {
+  const uint16_t* composition =
+      composition_block_row(composition_index[first >> 8]) + (first % 256);
+  if (size_t(composition[1]) > composition_data_size) {
+    return 0;
+  }
+  for (size_t i = composition[0]; i + 1 < composition[1]; i += 2) {
+    if (composition_data[i] == second) {
+      return composition_data[i + 1];
+    }
+  }
+  return 0;
+}
+
+// input begins with a character that has a canonical decomposition of
+// decomposition_length code points. Returns true if that decomposition, merged
+// in canonical order with the combining marks that follow the character,
+// composes back to the very same sequence. It does not if the character is
+// excluded from composition (e.g. U+0958), or if a following mark belongs
+// before the end of the decomposition and composes there (e.g. U+00E9 U+0323,
+// whose NFC form is U+1EB9 U+0301).
+static bool recomposes(std::u32string_view input,
+                       size_t decomposition_length) noexcept {
+  const uint16_t* const row =
+      decomposition_block_row(decomposition_index[input[0] >> 8]) +
+      (input[0] % 256);
+  const size_t base = static_cast<size_t>(row[0] >> 2);
+  if (base + decomposition_length > decomposition_data_size) {
+    return false;
+  }
+  const char32_t* const decomposition = decomposition_data + base;
+  char32_t composed = decomposition[0];
+  size_t next = 1;
+  uint8_t previous_ccc = 0;
+  for (size_t i = 1; i < input.size(); i++) {
+    const uint8_t ccc = get_ccc(input[i]);
+    if (ccc == 0) {
+      break;
+    }
+    while (next < decomposition_length && get_ccc(decomposition[next]) <= ccc) {
+      composed = compose_pair(composed, decomposition[next++]);
+    }
+    if (previous_ccc < ccc && compose_pair(composed, input[i]) != 0) {
+      return false;
+    }
+    previous_ccc = ccc;
+  }
+  while (next < decomposition_length) {
+    composed = compose_pair(composed, decomposition[next++]);
+  }
+  return composed == input[0];
+}
+
 bool is_already_nfc(std::u32string_view input) noexcept {
   if (input.empty()) {
     return true;
@@ -227,9 +282,12 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     return false;
   }
   // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN).
-  //    Multi-code-point decomps are primary composites that are NFC as-is.
-  for (char32_t c : input) {
-    if (canonical_decomp_length(c) == 1) {
+  //    Multi-code-point decomps must compose back to themselves.
+  for (size_t i = 0; i < input.size(); i++) {
+    const size_t decomposition_length = canonical_decomp_length(input[i]);
+    if (decomposition_length == 1 ||
+        (decomposition_length > 1 &&
+         !recomposes(input.substr(i), decomposition_length))) {
       return false;
     }
   }
-- 
2.43.0


From 467e047256bd99a3b03e1ddfe9522a74755a5202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 03/15] fix: is_already_nfc ignored composition with the
 preceding character

---
 src/normalization.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/normalization.cpp b/src/normalization.cpp
index 7bfa56f..ed257c0 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -236,13 +236,15 @@ static char32_t compose_pair(char32_t first, char32_t second) noexcept {
 }
 
 // input begins with a character that has a canonical decomposition of
-// decomposition_length code points. Returns true if that decomposition, merged
-// in canonical order with the combining marks that follow the character,
-// composes back to the very same sequence. It does not if the character is
-// excluded from composition (e.g. U+0958), or if a following mark belongs
-// before the end of the decomposition and composes there (e.g. U+00E9 U+0323,
-// whose NFC form is U+1EB9 U+0301).
-static bool recomposes(std::u32string_view input,
+// decomposition_length code points, and previous comes right before it (0 if
+// nothing does). Returns true if that decomposition, merged in canonical order
+// with the combining marks that follow the character, composes back to the very
+// same sequence. It does not if the character is excluded from composition
+// (e.g. U+0958), if a following mark belongs before the end of the
+// decomposition and composes there (e.g. U+00E9 U+0323, whose NFC form is
+// U+1EB9 U+0301), or if the decomposition starts with a character that composes
+// with previous (e.g. U+1611E U+16123).
+static bool recomposes(char32_t previous, std::u32string_view input,
                        size_t decomposition_length) noexcept {
   const uint16_t* const row =
       decomposition_block_row(decomposition_index[input[0] >> 8]) +
@@ -252,6 +254,9 @@ static bool recomposes(std::u32string_view input,
     return false;
   }
   const char32_t* const decomposition = decomposition_data + base;
+  if (previous < 0x110000 && compose_pair(previous, decomposition[0]) != 0) {
+    return false;
+  }
   char32_t composed = decomposition[0];
   size_t next = 1;
   uint8_t previous_ccc = 0;
@@ -287,7 +292,8 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     const size_t decomposition_length = canonical_decomp_length(input[i]);
     if (decomposition_length == 1 ||
         (decomposition_length > 1 &&
-         !recomposes(input.substr(i), decomposition_length))) {
+         !recomposes(i > 0 ? input[i - 1] : 0, input.substr(i),
+                     decomposition_length))) {
       return false;
     }
   }
-- 
2.43.0


From 7cc30244d3127e8d67420e894784ba2b3d2ccbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 04/15] fix: bring normalization, bidi and combining-mark
 tables to Unicode 17

The mapping and identifier tables are Unicode 17, but these tables were still
Unicode 13: newer right-to-left letters were not recognised as such, newer
combining marks were accepted at the start of labels and not reordered, and the
composites added in Unicode 16 were not composed.
---
 src/table_blob.inc | 5581 ++++++++++++++++++++++----------------------
 1 file changed, 2807 insertions(+), 2774 deletions(-)

diff --git a/src/table_blob.inc b/src/table_blob.inc
index 9499d3e..ae8af85 100644
--- a/src/table_blob.inc
+++ b/src/table_blob.inc
@@ -6,19 +6,19 @@
 #include <cstdint>
 #include <cstddef>
 namespace ada::idna::table_blob {
-constexpr size_t uncompressed_size = 224608;
-constexpr size_t compressed_size = 62377;
-constexpr uint32_t uncompressed_crc32 = 0x6F4A6B2Eu;
+constexpr size_t uncompressed_size = 206488;
+constexpr size_t compressed_size = 62899;
+constexpr uint32_t uncompressed_crc32 = 0x600BE079u;
 constexpr size_t decomposition_block_rows = 67;
 constexpr size_t decomposition_block_cols = 257;
-constexpr size_t ccc_block_rows = 67;
+constexpr size_t ccc_block_rows = 69;
 constexpr size_t ccc_block_cols = 256;
-constexpr size_t composition_block_rows = 67;
+constexpr size_t composition_block_rows = 27;
 constexpr size_t composition_block_cols = 257;
 constexpr size_t id_continue_count = 1418;
 constexpr size_t id_start_count = 776;
-constexpr size_t dir_table_count = 1449;
-constexpr size_t combining_range_count = 290;
+constexpr size_t dir_table_count = 1593;
+constexpr size_t combining_range_count = 327;
 // Offsets into the decompressed buffer:
 constexpr size_t off_idna_stage1 = 0;
 constexpr size_t count_idna_stage1 = 3282;
@@ -33,29 +33,29 @@ constexpr size_t count_decomposition_index = 4352;
 constexpr size_t off_decomposition_block = 53016;
 constexpr size_t count_decomposition_block = 17219;
 constexpr size_t off_decomposition_data = 87456;
-constexpr size_t count_decomposition_data = 9102;
-constexpr size_t off_ccc_index = 123864;
+constexpr size_t count_decomposition_data = 9146;
+constexpr size_t off_ccc_index = 124040;
 constexpr size_t count_ccc_index = 4352;
-constexpr size_t off_ccc_block = 128216;
-constexpr size_t count_ccc_block = 17152;
-constexpr size_t off_composition_index = 145368;
+constexpr size_t off_ccc_block = 128392;
+constexpr size_t count_ccc_block = 17664;
+constexpr size_t off_composition_index = 146056;
 constexpr size_t count_composition_index = 4352;
-constexpr size_t off_composition_block = 149720;
-constexpr size_t count_composition_block = 17219;
-constexpr size_t off_composition_data = 184160;
-constexpr size_t count_composition_data = 1883;
-constexpr size_t off_id_continue_flat = 191692;
+constexpr size_t off_composition_block = 150408;
+constexpr size_t count_composition_block = 6939;
+constexpr size_t off_composition_data = 164288;
+constexpr size_t count_composition_data = 1923;
+constexpr size_t off_id_continue_flat = 171980;
 constexpr size_t count_id_continue_flat = 2836;
-constexpr size_t off_id_start_flat = 203036;
+constexpr size_t off_id_start_flat = 183324;
 constexpr size_t count_id_start_flat = 1552;
-constexpr size_t off_dir_start = 209244;
-constexpr size_t count_dir_start = 1449;
-constexpr size_t off_dir_final = 215040;
-constexpr size_t count_dir_final = 1449;
-constexpr size_t off_dir_value = 220836;
-constexpr size_t count_dir_value = 1449;
-constexpr size_t off_combining_flat = 222288;
-constexpr size_t count_combining_flat = 580;
+constexpr size_t off_dir_start = 189532;
+constexpr size_t count_dir_start = 1593;
+constexpr size_t off_dir_final = 195904;
+constexpr size_t count_dir_final = 1593;
+constexpr size_t off_dir_value = 202276;
+constexpr size_t count_dir_value = 1593;
+constexpr size_t off_combining_flat = 203872;
+constexpr size_t count_combining_flat = 654;
 alignas(8) inline constexpr uint8_t compressed[] = {
 0xec,0x9c,0x09,0x40,0x53,0xc7,0xda,0xfe,0x5f,0x08,0x98,0x28,0x4b,0x4c,0xc2,0x12,
 0x14,0x09,0x12,0x42,0x12,0x76,0x12,0x20,0xec,0x09,0xd0,0xdd,0x56,0xdb,0xda,0xdd,
@@ -1207,2755 +1207,2788 @@ alignas(8) inline constexpr uint8_t compressed[] = {
 0xb9,0xd8,0x80,0x71,0x92,0x07,0x1f,0x6e,0xde,0x8e,0xf3,0xb8,0x15,0xed,0xa6,0x52,
 0xcf,0x7a,0x8c,0xa9,0x06,0xac,0x69,0x8b,0x30,0x0e,0x8a,0x0a,0xd1,0x17,0xf8,0x75,
 0x19,0x6c,0x64,0x5f,0x10,0xaf,0xc8,0x83,0x9d,0x18,0xbb,0xab,0x30,0xde,0xd7,0xd7,
-0xfe,0x3f,0xf6,0xde,0x06,0xa8,0xa9,0x6b,0xed,0xfb,0x5e,0x51,0x50,0xa2,0x50,0x82,
-0x82,0x82,0x82,0x05,0x25,0x0a,0x96,0x40,0x52,0x93,0x96,0x20,0xb4,0xa0,0xa0,0x04,
-0x12,0xbe,0xa3,0x44,0x41,0xa1,0x05,0x4c,0x20,0x91,0x04,0x12,0x20,0x90,0x40,0x02,
-0x49,0x48,0x42,0x62,0x49,0x05,0x0a,0x2d,0xb4,0xa0,0xa0,0x60,0xc1,0x8a,0x10,0x05,
-0x0b,0x56,0xee,0x91,0xe7,0x96,0x3e,0x32,0x23,0x33,0x72,0x17,0x5a,0x79,0x47,0x4e,
-0x09,0xc2,0x3d,0xf2,0x0e,0xcc,0xc8,0x8c,0xcc,0xc8,0xcc,0xbb,0x56,0xd8,0xf6,0xf5,
-0x9c,0xe7,0x9c,0xfb,0x7c,0xf5,0x9c,0xe7,0x7c,0x90,0x5f,0xd7,0x7f,0xed,0xf5,0xb1,
-0xf7,0x5e,0xeb,0xba,0xae,0xb5,0xf6,0x8e,0x61,0xa6,0xf0,0x7a,0xd0,0x7e,0xdd,0xf0,
-0xba,0x77,0xbe,0x02,0xb3,0x70,0x97,0x9d,0xbd,0x5d,0x05,0xd7,0x42,0x3b,0x78,0xd6,
-0x09,0x7d,0x7c,0x13,0xc6,0x4d,0x95,0x02,0x3c,0x2b,0x6f,0x00,0x73,0x5d,0xd0,0x0e,
-0xdf,0x2a,0xc0,0x9c,0xe1,0x16,0xbc,0x3f,0xbc,0x8e,0x16,0xae,0xcd,0x3b,0x57,0x60,
-0x4c,0xc0,0xb5,0xd0,0x03,0xe3,0xfa,0x3a,0xf4,0x6f,0x2f,0x9c,0xc3,0xe7,0xd0,0x3f,
-0xe8,0x1f,0xda,0xe0,0x13,0xcf,0xf2,0xed,0x45,0x18,0x1f,0x0a,0x60,0xf9,0x0c,0xa6,
-0x16,0xe8,0xcb,0x86,0x5e,0x18,0x2b,0x30,0xb6,0x0c,0x70,0x6d,0x7d,0x01,0x7d,0xd9,
-0x3a,0x00,0xd7,0x08,0x2c,0xb7,0xc1,0x71,0x5f,0xf9,0x04,0xda,0xbb,0x0e,0xde,0x13,
-0xc6,0x58,0x3d,0x8c,0xf1,0xaf,0xe1,0xfa,0x56,0xc0,0x54,0x01,0xd7,0xf3,0x65,0xb8,
-0xa6,0x2e,0x43,0x9b,0xb6,0xc2,0xef,0xe0,0xb7,0xa0,0x0f,0xe0,0x77,0xab,0xf9,0xcf,
-0x6f,0x43,0xbf,0x40,0xdb,0x56,0x5c,0x85,0xf7,0x80,0xf7,0x82,0x6b,0xd8,0x52,0x05,
-0xfd,0x6a,0x44,0xfb,0x06,0xfc,0x1e,0x0f,0xd7,0xa5,0xa5,0xa1,0x1d,0xde,0x17,0xde,
-0x1b,0xda,0xc6,0xd2,0x0d,0xd7,0x79,0x79,0x0d,0xb4,0x23,0xb4,0x93,0x06,0xda,0xab,
-0xf2,0x26,0x8c,0x79,0xb8,0x7f,0x40,0x5b,0xcd,0xc2,0x27,0xe7,0xec,0x25,0x38,0x7e,
-0xf3,0x6d,0x30,0xdb,0x87,0x62,0x0e,0xda,0x4f,0x0d,0xe3,0x45,0x0b,0x7d,0x53,0x0d,
-0x8f,0x2f,0x99,0xe0,0x18,0xa1,0xbf,0xe0,0x5e,0xf4,0xac,0x0d,0xda,0xae,0x0d,0x8e,
-0xf3,0x8a,0x11,0x26,0xe8,0xef,0x0e,0x68,0x9f,0x6b,0x30,0xf6,0xbf,0x81,0x79,0x1f,
-0xec,0xd3,0x0f,0x8f,0x07,0x6f,0x82,0x39,0x05,0xdc,0xab,0x2a,0xbb,0xe0,0x7a,0x80,
-0x7e,0x30,0x7d,0x06,0xe6,0x5a,0xab,0xc1,0xdc,0x95,0x3a,0x30,0xd7,0x09,0xd7,0x55,
-0x27,0xac,0xeb,0xb9,0x08,0xe6,0x7a,0x61,0x9c,0xde,0x85,0x71,0xf6,0x05,0xf4,0xc1,
-0x57,0xdf,0xc1,0x58,0x83,0x31,0xa2,0x34,0x83,0xc5,0xd6,0xaa,0xeb,0x60,0x4e,0x0b,
-0x0d,0xde,0x77,0x05,0x6e,0x3c,0x70,0x11,0xc1,0x41,0xcf,0xdc,0x85,0x13,0x51,0xab,
-0x61,0x19,0xe6,0x55,0xd0,0xf8,0x55,0xd0,0x09,0xb5,0xb5,0x70,0xb2,0x0d,0xd0,0xc0,
-0xd0,0xc1,0x97,0x7a,0xe0,0x66,0xa9,0x82,0xa9,0x06,0x58,0x3a,0x60,0xb9,0x13,0x4e,
-0xfa,0xdb,0x4f,0x61,0x82,0xed,0x83,0x30,0x60,0xee,0x76,0xc1,0xc0,0xad,0x87,0x06,
-0x80,0x93,0x57,0xc1,0xc5,0xac,0x6e,0x86,0x01,0x07,0x17,0x1b,0x7c,0x60,0xcc,0x56,
-0x37,0x82,0x59,0xd3,0xa7,0xd0,0x20,0x75,0x70,0xf3,0xfb,0x02,0x06,0x14,0xcc,0xbf,
-0x85,0xf9,0xb7,0x30,0xf0,0x15,0xd0,0x41,0xf0,0xf1,0xfa,0x4c,0x6b,0x06,0xcf,0xf4,
-0x70,0x23,0x32,0x75,0x83,0x67,0x35,0x30,0xc8,0x6a,0xbe,0x05,0xcf,0xea,0x61,0x30,
-0xd5,0x7f,0x05,0x9d,0x09,0x37,0x60,0xb8,0x89,0x3f,0x6b,0x82,0x4e,0x6d,0x82,0x86,
-0xb8,0x0c,0x37,0xa6,0x6b,0xb0,0x5f,0x37,0xec,0x63,0x86,0x6d,0x03,0xd0,0xa9,0x46,
-0xe8,0x54,0xb4,0xe1,0x37,0xc1,0xc9,0xb7,0x41,0x23,0x5c,0x81,0x1b,0xe7,0x35,0xb8,
-0x99,0x7f,0x0d,0x03,0xee,0x6b,0x68,0xa8,0xeb,0x70,0x13,0x1c,0x80,0x0e,0x57,0xc2,
-0x4d,0x54,0xd3,0x00,0xe6,0x75,0xd0,0x30,0x0d,0xd0,0xe9,0xf0,0xb1,0x3b,0xdf,0x5c,
-0x05,0xe6,0x3b,0x3f,0x05,0x8b,0x97,0x5a,0xf4,0x48,0x54,0x60,0xf1,0x32,0x7c,0x46,
-0xfd,0x7c,0xbd,0x09,0xcc,0x28,0xa0,0x99,0x14,0xfd,0x60,0xb1,0x4d,0xa7,0x83,0xd2,
-0x53,0x0d,0x16,0xaf,0xc2,0xb0,0x9b,0x1f,0xac,0x00,0xf3,0x77,0x2f,0x80,0xac,0x2c,
-0x90,0xc5,0x03,0x59,0xf0,0xbd,0x19,0x65,0x30,0xcf,0x17,0x83,0xf1,0x5e,0xf4,0xc7,
-0x4b,0xbd,0xe8,0x8f,0x9e,0x7a,0xd1,0xdf,0x39,0xdd,0x5d,0x2b,0x76,0x81,0x1f,0x1a,
-0xfe,0xab,0x17,0xfc,0x70,0xf3,0xbf,0x6e,0x83,0x1f,0x2e,0x81,0x1f,0x6a,0xc0,0x0f,
-0x5f,0x80,0x1f,0x1a,0xc1,0x0f,0x4d,0xe0,0x87,0x76,0xf0,0xc3,0x35,0xf0,0x43,0xc7,
-0x0f,0x4a,0x24,0xe5,0x50,0xfe,0x6b,0xc0,0x7a,0x0c,0x33,0x58,0xaa,0x46,0x67,0x54,
-0xff,0x57,0x1f,0x92,0x01,0xf0,0x83,0x09,0xc9,0xa7,0x48,0x2e,0x22,0xa9,0x41,0x52,
-0x8b,0xa4,0x0e,0x49,0x3d,0x92,0x06,0x24,0x9f,0x23,0xf9,0x02,0x49,0x23,0x92,0x2f,
-0x91,0x34,0x23,0x69,0x41,0x72,0x19,0x49,0x2b,0x92,0x2b,0x48,0xae,0x22,0x69,0x47,
-0xd2,0x81,0xe4,0xda,0xda,0x45,0xfb,0xd1,0xdd,0xbe,0x43,0x57,0xf9,0x0e,0x75,0x86,
-0x52,0x0d,0x47,0x3c,0xd9,0x0d,0x26,0xbf,0x05,0x93,0x77,0xc1,0x8f,0x0a,0x30,0x79,
-0x07,0x4c,0x7e,0x07,0x26,0xfb,0xc1,0x8f,0xad,0xe0,0xc7,0x2b,0xe0,0x47,0x15,0xf8,
-0xb1,0x02,0xfc,0xa8,0x01,0x3f,0x56,0x82,0x1f,0x8d,0xe0,0x47,0x03,0xf8,0xf1,0x02,
-0xf8,0x51,0x0b,0x7e,0xac,0x07,0x3f,0x9a,0xc0,0x8f,0x1d,0xe0,0xc7,0x6f,0xc0,0x8f,
-0x3d,0xe0,0xc7,0x6e,0xf0,0xe3,0x1d,0xf0,0xe3,0xb7,0xe0,0x27,0x05,0xf8,0x49,0x09,
-0x7e,0xbc,0x0b,0x7e,0xfa,0x14,0xfc,0x74,0x11,0xfc,0xd8,0x05,0x7e,0xaa,0x04,0x3f,
-0x69,0xc0,0x4f,0x5a,0xf0,0x53,0x15,0xf8,0x49,0x0d,0x7e,0xd2,0x81,0x9f,0xaa,0xc1,
-0xa4,0x0e,0x4c,0x5c,0x99,0xb8,0x0a,0xe5,0xa7,0x5a,0x28,0x93,0x5a,0x74,0x54,0x89,
-0x44,0x83,0xc4,0x5a,0xac,0x46,0x0d,0xb0,0xb7,0x01,0x75,0xed,0x44,0xd2,0x85,0x6a,
-0xd4,0x48,0xf4,0x60,0xa2,0x1d,0xd5,0xb5,0xa3,0xba,0xf6,0x89,0xeb,0x50,0x50,0x43,
-0x3b,0xba,0x6e,0x3b,0x6a,0xbd,0x86,0x5a,0xaf,0xa1,0xd6,0x6b,0xa8,0xf5,0x1a,0x6a,
-0xbd,0x86,0x5a,0xaf,0xa1,0xd6,0xaf,0x51,0xeb,0xd7,0xa8,0xee,0x6b,0x54,0xf7,0x35,
-0xaa,0xeb,0x44,0x9d,0x3b,0x51,0x5d,0x17,0x6a,0xed,0x42,0x47,0xd7,0xd1,0xd1,0x75,
-0xd4,0x70,0x1d,0x15,0x7b,0x50,0xb1,0x07,0x15,0x7b,0xd0,0x45,0x7b,0x50,0x9d,0x19,
-0x15,0xcd,0xe8,0xe8,0x16,0x6a,0xbd,0x85,0x8a,0xb7,0x50,0xeb,0x2d,0x54,0x77,0x1b,
-0x15,0x6f,0xa3,0xa3,0x3e,0x24,0xfd,0xa8,0x4b,0x3f,0x3a,0xba,0x83,0x8e,0xee,0xc0,
-0xa3,0x49,0x25,0x3c,0x82,0xd2,0x85,0xe4,0x3a,0x14,0x6b,0x1d,0x1c,0x15,0x14,0x3d,
-0x98,0x2c,0x47,0x0d,0xe5,0xa8,0xae,0x1c,0xd5,0x95,0xa3,0xba,0x0a,0x68,0x38,0x28,
-0x9d,0x48,0xba,0x90,0xc0,0xd3,0x2a,0x26,0x55,0x48,0xd4,0x48,0x74,0x48,0x60,0x3f,
-0x15,0xea,0xa2,0x42,0x5d,0x54,0xa8,0x8b,0x0a,0xb5,0xaa,0x50,0xab,0x0a,0xb5,0xaa,
-0x51,0xab,0x1a,0xb5,0xaa,0x51,0xab,0x1a,0xb5,0xaa,0x51,0xab,0x1a,0xb5,0x6a,0x50,
-0xab,0x06,0xb5,0x6a,0x50,0xab,0x06,0xb5,0x6a,0x50,0xab,0x06,0xb5,0x56,0xa2,0xd6,
-0x4a,0x54,0x57,0x89,0xea,0x2a,0x51,0x9d,0x1e,0xd5,0xe9,0xd1,0x19,0x7a,0x74,0x86,
-0x1e,0xb5,0xea,0x51,0xab,0x1e,0x59,0xf7,0xc6,0xe4,0x0d,0x30,0xd1,0x0d,0x65,0x52,
-0x07,0xc5,0x73,0xd2,0x30,0x69,0x82,0x6a,0xb4,0xea,0x05,0xab,0x7e,0x62,0xd5,0x6a,
-0xab,0x9a,0x50,0xef,0x2b,0x13,0xdd,0x48,0x6e,0x22,0x7f,0x6b,0x90,0x97,0xbb,0x91,
-0xdc,0x44,0x0e,0xd6,0x20,0xb7,0x76,0x23,0xb9,0x89,0x3c,0xaa,0x41,0x1e,0xed,0x46,
-0x72,0x13,0x39,0x53,0x83,0xa6,0x74,0x15,0x8d,0xbc,0x1b,0xc9,0x4d,0x34,0x68,0x0d,
-0x1a,0x56,0x37,0x92,0x9b,0x68,0x44,0x28,0xca,0x90,0x93,0xae,0x4c,0x56,0xa2,0xeb,
-0x55,0xa2,0xab,0x54,0x22,0x67,0x5a,0xed,0x54,0x89,0xce,0xa8,0x44,0xf3,0xba,0x81,
-0x3a,0x57,0xa2,0x8b,0x56,0x22,0x7f,0x43,0xe9,0x45,0xde,0xeb,0x45,0xad,0x0a,0xeb,
-0xc0,0x61,0xf6,0xc9,0x5a,0x86,0x86,0x0e,0x7d,0xad,0x43,0xa2,0x47,0x6e,0xd6,0x21,
-0xd1,0x23,0x37,0xeb,0x90,0xe8,0xd1,0x15,0x74,0x48,0xf4,0xe8,0x0a,0x3a,0x24,0x7a,
-0x14,0x68,0x3a,0x24,0x28,0x02,0xd1,0x51,0x27,0x3a,0xba,0x8e,0x8e,0xae,0xa3,0x23,
-0x33,0x3a,0x32,0xa3,0xa3,0x5b,0xe8,0xe8,0x96,0xf5,0x5c,0x14,0x3b,0xbd,0x28,0xb2,
-0x7a,0xd1,0x1c,0x7a,0xd1,0xd4,0x7b,0x90,0x98,0x91,0xdc,0x42,0x72,0x75,0xb2,0xca,
-0xba,0x06,0xac,0x61,0xbf,0x16,0xd0,0xd7,0xd6,0x42,0xfa,0xda,0x5a,0x28,0x5f,0xb3,
-0xfa,0xdf,0x9a,0x75,0xad,0x65,0xd7,0xad,0xd1,0x8f,0x4a,0x5d,0xd6,0x10,0xb0,0x66,
-0x3a,0x6b,0xbc,0xaf,0x85,0x7d,0xe7,0x5a,0xe0,0x77,0xae,0xcd,0xc1,0xda,0xb3,0x67,
-0xed,0x2a,0x3d,0xd6,0xe8,0x41,0x4b,0x01,0x5b,0x0c,0x56,0x1b,0xad,0xdd,0xaf,0x77,
-0x6d,0x46,0xbd,0x6b,0x77,0xe8,0x5d,0x6b,0xbb,0xb5,0x36,0xeb,0x5b,0x6b,0x63,0xb9,
-0xbd,0x76,0xb1,0xdb,0x6b,0x6d,0xb7,0xd7,0xee,0xde,0xbf,0x36,0xf8,0xfe,0xb5,0xca,
-0xfe,0xb5,0xb1,0xdc,0x59,0x2b,0xdd,0x59,0xeb,0x72,0x67,0x2d,0x5e,0x95,0xd6,0xab,
-0xa0,0x45,0x82,0xad,0x15,0x6b,0x9c,0x5b,0xef,0x6e,0xcd,0xf4,0x6b,0x99,0xce,0xba,
-0x20,0xd6,0x96,0xc4,0xf5,0xb5,0xa5,0x80,0x45,0x7f,0x17,0xb6,0x12,0xac,0x2b,0x60,
-0xed,0x04,0xb5,0x75,0xb6,0x28,0x5b,0xab,0xbc,0xbe,0xd6,0xe5,0xfa,0x5a,0xa9,0x13,
-0x85,0x49,0xe5,0xda,0x0a,0xaa,0x5c,0xbb,0x9f,0x66,0xed,0x74,0xcd,0xda,0x8d,0x34,
-0x6b,0xe7,0x69,0xac,0xc6,0x42,0x8b,0xc7,0xba,0xa4,0xd6,0x86,0xab,0x5f,0x9b,0x43,
-0xfb,0x9a,0x7f,0xaf,0xad,0x99,0xe7,0xda,0x9a,0x59,0xaf,0xbd,0xae,0xbc,0xbe,0xb6,
-0x55,0x59,0xa7,0x79,0x6d,0x6d,0xee,0x9d,0x6b,0xa5,0xce,0x35,0xd3,0x75,0xbe,0x76,
-0x8e,0xb5,0xa7,0x79,0x2d,0x80,0x7a,0xd7,0xb2,0x5b,0xaf,0x27,0xdd,0x69,0xcd,0xd6,
-0xee,0xae,0x5f,0xab,0xd4,0xaf,0x55,0xea,0xd7,0x2a,0xd5,0x6b,0x59,0xf9,0xeb,0x35,
-0xdf,0xb5,0x16,0xb8,0xd6,0x52,0xc5,0x2f,0x1b,0x01,0xb6,0x47,0xbc,0xbe,0xa6,0x7a,
-0xad,0x4d,0xbd,0x36,0x16,0xbd,0x75,0xbf,0xc4,0x6c,0x86,0x32,0xe5,0xda,0x38,0xdb,
-0xd7,0xda,0x7a,0xd6,0xce,0xd3,0xac,0x4d,0xd3,0x3c,0xa9,0x82,0xcf,0x05,0x78,0x3f,
-0x94,0xc1,0x20,0x55,0x59,0x17,0x1b,0x3c,0xa8,0xb0,0x2e,0xef,0x35,0x27,0x4c,0x7c,
-0x63,0xed,0xb8,0xb6,0x4f,0x76,0xc3,0xe0,0xd2,0xc2,0xbd,0x0d,0x96,0x54,0xd6,0xa5,
-0x38,0xa9,0x85,0x35,0x2a,0x6b,0xb8,0x59,0x37,0xb3,0xb5,0xcc,0xf3,0xf5,0xc5,0x3c,
-0x5f,0x77,0xf4,0xfc,0xff,0x3b,0x76,0x4e,0xaa,0x3c,0x91,0x58,0xfb,0xc0,0xdb,0x75,
-0xff,0x64,0x40,0x87,0xc0,0x0f,0xfc,0xac,0x50,0x82,0x20,0xe0,0x05,0x3e,0x84,0x47,
-0x75,0x30,0x7d,0x06,0x7e,0xa3,0x40,0x7f,0x56,0x75,0x11,0x9c,0x05,0x25,0x40,0x0e,
-0x6b,0x6a,0x60,0x82,0x2f,0x0e,0x8a,0x6a,0x98,0x4c,0x30,0xe9,0x61,0xaa,0x82,0xc9,
-0x00,0x93,0x11,0xa6,0x0b,0x30,0x7d,0x02,0x4e,0x83,0x54,0xb0,0x0f,0xec,0x07,0x07,
-0x01,0x09,0x04,0x83,0x0f,0x40,0x0a,0xf0,0x06,0x44,0x10,0x0a,0x77,0xb2,0x2a,0xb4,
-0x33,0x54,0xa1,0x0d,0x0f,0x6d,0x77,0x68,0xb3,0xb3,0x6e,0x1c,0x68,0xbf,0xb3,0x6e,
-0x1d,0x68,0xcb,0xb3,0x6e,0x1e,0x68,0xd7,0x43,0x07,0x68,0xfb,0xfb,0x14,0x1d,0x40,
-0x03,0xb5,0x80,0x89,0x4b,0x60,0xe2,0x32,0x98,0x68,0x05,0x13,0x6d,0x70,0xb3,0x02,
-0xe8,0x89,0xd9,0x0e,0x26,0x3a,0x60,0x50,0xc0,0x3d,0x09,0x58,0x9f,0x53,0x00,0xad,
-0x2b,0x68,0x32,0xb4,0xbf,0x02,0xb4,0x01,0xf6,0xc0,0x40,0x80,0x66,0x81,0x71,0x00,
-0x17,0x13,0x7c,0xf0,0x40,0xdb,0xc1,0xb5,0x02,0x1d,0x03,0x0d,0x0f,0x5d,0x07,0xd0,
-0x93,0x02,0x05,0x27,0xb0,0x5a,0x13,0xac,0xb9,0xf5,0x12,0x92,0xcb,0x48,0xda,0x90,
-0x5c,0x05,0x7b,0xc1,0x01,0x10,0x00,0xce,0x00,0x19,0x28,0x05,0xbf,0xb9,0xa2,0x86,
-0x09,0xfd,0xa2,0x83,0x7e,0xe9,0x41,0x3f,0xa4,0x5c,0x86,0xa9,0x0d,0xa6,0xab,0x30,
-0xa1,0x7f,0xc8,0x85,0xe5,0x0a,0x58,0x86,0xef,0xd6,0x3f,0x57,0x54,0x80,0xb5,0x7f,
-0xd2,0x45,0x3f,0x28,0x34,0x00,0xf4,0xc3,0xf8,0x7f,0x5c,0x02,0xff,0x71,0x19,0xfc,
-0x47,0x27,0xf8,0x8f,0x2b,0xe0,0x3f,0xda,0xc0,0x6f,0xe0,0x29,0xbf,0xa9,0x29,0x07,
-0xbf,0x81,0x5f,0xdb,0x7e,0xa3,0x31,0xc1,0xf4,0x29,0x4c,0x17,0xc1,0x6f,0xea,0x9a,
-0xc1,0x6f,0x3e,0xab,0x02,0x8b,0xd5,0xd5,0xed,0x48,0x3a,0x90,0x5c,0x43,0xf2,0x35,
-0x92,0x4e,0x24,0x5d,0x48,0xae,0x23,0xf9,0x06,0xc9,0x0d,0x24,0xdd,0x48,0x6e,0x22,
-0xe9,0x41,0xd2,0x8b,0xc4,0x8c,0xe4,0x16,0x92,0xdb,0x48,0xfa,0x90,0xf4,0x23,0xb9,
-0x83,0xe4,0x5b,0x24,0x03,0x48,0x06,0x91,0xdc,0x45,0xf2,0x1d,0x14,0x93,0x02,0x89,
-0x12,0x49,0x39,0x92,0x0a,0x24,0x2a,0x24,0x6a,0x24,0x1a,0x24,0x95,0x48,0xb4,0x48,
-0x74,0x48,0xf4,0x48,0xd0,0x98,0x4d,0x06,0x24,0x46,0x24,0x17,0x90,0x7c,0x02,0xe5,
-0x62,0x3d,0x92,0x06,0x24,0x9f,0x23,0xf9,0x02,0x49,0x23,0x92,0x26,0x24,0x5f,0x22,
-0xf9,0x0a,0x49,0x33,0x92,0x16,0x24,0x97,0x90,0x5c,0x46,0xd2,0x8a,0xa4,0x0d,0xc9,
-0x15,0x24,0x57,0x91,0x20,0xbb,0x5c,0x44,0x76,0xb9,0x88,0xec,0x72,0x11,0xd9,0xe5,
-0x22,0xb2,0xcb,0x45,0x64,0x97,0x8b,0xc8,0x2e,0x17,0x91,0x5d,0x2e,0x22,0xbb,0x5c,
-0x44,0x76,0xb9,0x88,0xec,0x72,0x11,0xd9,0xe5,0x22,0xb2,0xcb,0x45,0x64,0x97,0x8b,
-0xc8,0x2e,0x17,0x91,0x5d,0x2e,0x22,0xbb,0x5c,0x44,0x76,0xb9,0x88,0xec,0x72,0x11,
-0xd9,0xa5,0xee,0x33,0x24,0x68,0xe0,0x75,0x68,0xe0,0x75,0x68,0xe0,0x75,0x68,0xe0,
-0x75,0x68,0xe0,0x75,0x68,0xe0,0x75,0x68,0xe0,0x75,0x68,0xe0,0x75,0x68,0xe0,0x75,
-0x68,0xe0,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,
-0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,
-0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,0x68,0xcc,0x75,
-0x68,0xb8,0x75,0x68,0xb8,0x75,0x68,0xb8,0x75,0x68,0xb8,0x75,0x68,0xb8,0x75,0x68,
-0xb8,0x75,0x68,0xb8,0x75,0xd6,0x91,0x0e,0x80,0xff,0x5d,0x0d,0xfe,0xb7,0x09,0x7c,
-0xdf,0x00,0xbe,0xbf,0x0c,0xfe,0xbb,0xeb,0x0a,0xf8,0xbe,0x0d,0x7c,0xdf,0x0a,0xa6,
-0x6f,0x99,0xc0,0x48,0x3d,0x18,0xf9,0x12,0x7c,0xdf,0x01,0x46,0x2e,0x81,0xef,0xbf,
-0x00,0xdf,0x37,0x82,0x91,0xab,0xe0,0x7b,0x15,0xf8,0xfe,0x1a,0xf8,0x1e,0x0e,0xa1,
-0x69,0x40,0x05,0xfe,0xfb,0xcb,0x0b,0x60,0xe4,0x3a,0x3a,0x56,0x83,0xef,0x2f,0xa0,
-0x5c,0x03,0x46,0x6e,0x81,0x91,0xdb,0x60,0xe4,0x0e,0x2a,0x69,0xc1,0xc8,0x5d,0xf0,
-0x7d,0x3b,0xf8,0xfe,0x0a,0xbc,0x36,0x3c,0xf9,0x2a,0xf8,0x4d,0x77,0x37,0xf8,0xfe,
-0x13,0xf0,0x7d,0x0b,0xf8,0x1e,0x5e,0xb5,0x1e,0xfc,0xa7,0x02,0xfc,0xa7,0x12,0xfc,
-0x67,0x39,0xea,0xad,0x47,0x82,0x0c,0xd3,0x83,0x82,0xa8,0x07,0x05,0x51,0x0f,0x0a,
-0xa2,0x1e,0x14,0x44,0x3d,0x28,0x88,0x7a,0x50,0x10,0xf5,0xa0,0x20,0xea,0x41,0x41,
-0xd4,0x83,0x82,0xa8,0x07,0x05,0x51,0x0f,0x0a,0xa2,0x1e,0x14,0x44,0x3d,0x28,0x88,
-0x7a,0x50,0x10,0xf5,0xa0,0x20,0xea,0x41,0x41,0x84,0xbe,0xa2,0x54,0xf7,0x98,0x90,
-0x7c,0x8a,0xe4,0x22,0x92,0x1a,0x24,0xb5,0x48,0xea,0x90,0x20,0x9f,0xf5,0x20,0x9f,
-0xf5,0x20,0x9f,0xf5,0x20,0x9f,0xf5,0x20,0x9f,0xf5,0x20,0x9f,0xf5,0x20,0x9f,0xf5,
-0x58,0x87,0x86,0x7c,0xd6,0x83,0x7c,0xd6,0x83,0x7c,0xd6,0x83,0x82,0xad,0x07,0x39,
-0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,
-0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,
-0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x39,0xae,0x07,0x05,0x9b,0x19,0x15,
-0xcd,0xa8,0x68,0xb6,0x16,0x91,0x33,0xcd,0xc8,0x99,0x66,0xe4,0x4c,0x33,0x72,0xa6,
-0x19,0x39,0xd3,0x8c,0x9c,0x69,0x46,0xce,0x34,0xa3,0xd8,0x33,0x23,0x8f,0x9a,0xd1,
-0x9a,0x34,0xa3,0x35,0x69,0x46,0x6b,0xd2,0x8c,0xd6,0xe4,0x2d,0x64,0xce,0x5b,0xc8,
-0x9c,0xb7,0x90,0x39,0x6f,0x21,0x73,0xde,0x42,0xe6,0xbc,0x05,0xcd,0x69,0xba,0xac,
-0x40,0xa2,0x44,0x52,0x8e,0xa4,0x02,0x89,0x0a,0x89,0xb5,0x55,0x83,0xa4,0x12,0x89,
-0x16,0x89,0x0e,0x89,0x1e,0x49,0x15,0x12,0x03,0x12,0x23,0x92,0x0b,0x48,0x3e,0x41,
-0x52,0x8d,0xc4,0x84,0xe4,0x53,0x24,0x17,0x91,0xd4,0x20,0xa9,0x45,0x52,0x87,0xe4,
-0x33,0x24,0xf5,0x48,0x1a,0x90,0x7c,0x8e,0xe4,0x0b,0x24,0x8d,0x48,0x9a,0x90,0x7c,
-0x89,0x04,0x1a,0xbb,0xae,0xbf,0x19,0x49,0x0b,0x92,0x4b,0x48,0x2e,0x23,0x69,0x45,
-0xd2,0x86,0xe4,0x0a,0x92,0xab,0x48,0xda,0x91,0x74,0x20,0xb9,0x86,0xe4,0x6b,0x24,
-0x9d,0x48,0xba,0x90,0x5c,0x47,0xf2,0x0d,0x92,0x1b,0x48,0xba,0x91,0xdc,0x44,0xd2,
-0x83,0xa4,0x17,0x89,0x19,0xc9,0x2d,0x24,0xb7,0x91,0xf4,0x21,0xe9,0x47,0x72,0x07,
-0xc9,0xb7,0x48,0x06,0x90,0x0c,0x22,0xb9,0x8b,0x04,0x5a,0xb7,0xee,0x0e,0x6a,0xb8,
-0x83,0x1a,0xee,0xa0,0x86,0x3b,0xa8,0xe1,0x0e,0x6a,0xf8,0x56,0x81,0x44,0x89,0xa4,
-0x1c,0x49,0x05,0x12,0x15,0x12,0x35,0x12,0x0d,0x92,0x4a,0x24,0x5a,0x24,0x3a,0x24,
-0x7a,0x24,0x55,0x48,0x0c,0x48,0x8c,0x48,0x2e,0x20,0xf9,0x04,0x49,0x35,0x12,0x13,
-0x92,0x4f,0x91,0x40,0xc3,0x36,0xa9,0x3f,0x83,0xa9,0x0d,0x1d,0xd4,0xff,0xd6,0x01,
-0x4c,0xd7,0xdf,0x2c,0x7c,0xf3,0x66,0xe1,0xc6,0x9b,0x85,0xee,0x37,0x0b,0xd0,0x20,
-0x4d,0x9a,0x7e,0xec,0x4a,0x9a,0x3b,0xaf,0x0f,0xfa,0xdf,0xb8,0xe4,0x5a,0xed,0xeb,
-0x42,0xff,0x1b,0xd7,0xff,0xa5,0xe5,0x1b,0x70,0xbf,0x1b,0x3c,0xb8,0x0d,0x7e,0xa3,
-0xad,0x84,0x09,0xce,0xfd,0xcb,0xd6,0x4b,0x48,0x2e,0x23,0x69,0x45,0xd2,0x86,0xe4,
-0x0a,0x92,0xab,0x48,0xda,0x91,0x74,0x20,0xb9,0x86,0xe4,0x6b,0x24,0x9d,0x48,0xba,
-0x90,0x5c,0x47,0xf2,0x0d,0x92,0x1b,0x48,0xba,0x91,0xdc,0x44,0xd2,0x83,0xa4,0x17,
-0x89,0x19,0xc9,0x2d,0x24,0xb7,0x91,0xf4,0x21,0xe9,0x47,0x72,0x07,0xc9,0xb7,0x48,
-0x06,0x90,0x0c,0x22,0xb9,0x8b,0x04,0x3a,0xe8,0xcb,0x36,0x05,0x12,0x25,0x12,0x34,
-0xc8,0x36,0xf8,0x60,0xbf,0x0e,0x7e,0x6c,0x01,0x93,0xdf,0x00,0xb2,0x1f,0xa0,0xf8,
-0x81,0x77,0xfd,0xc0,0x21,0x3f,0x40,0xf5,0x03,0x34,0x3f,0xf0,0x9e,0x1f,0x78,0xdf,
-0x0f,0x04,0xfa,0x01,0x3a,0x7a,0xe9,0xa9,0xc9,0x47,0x2f,0x35,0x85,0xc5,0x80,0x5b,
-0x00,0xf2,0x33,0x40,0x7e,0x3e,0x10,0x0a,0x0b,0x40,0xe1,0xc7,0x40,0x00,0xff,0xcb,
-0x00,0x82,0x3c,0x90,0x91,0x0d,0x7e,0x56,0x7e,0xfb,0xb3,0xb2,0xca,0xfa,0x1b,0x7f,
-0x39,0xfa,0x9b,0xcd,0xcf,0x80,0xe5,0x13,0xf4,0x47,0x1c,0x95,0xc0,0xd2,0xfa,0x39,
-0x98,0xbb,0x7a,0x19,0xcc,0xdc,0x69,0x05,0xb3,0xf5,0xcd,0xe0,0x99,0xaa,0x05,0x58,
-0x74,0x46,0x60,0xb9,0x6b,0x00,0x16,0x8d,0x11,0xcc,0xc2,0xad,0xdc,0xa2,0x6d,0x02,
-0xcf,0xcc,0xe5,0x60,0xee,0x66,0x07,0xb0,0x5c,0x86,0x65,0xf8,0xf4,0x9d,0x1d,0xa8,
-0x01,0xb3,0xfa,0x5a,0x30,0x6b,0xac,0x05,0xf3,0x4a,0x3d,0x98,0x35,0x54,0x82,0x59,
-0xdd,0x45,0xf0,0xec,0x8a,0x12,0x3c,0xeb,0x40,0xff,0xd4,0xa8,0x05,0xb3,0x77,0x14,
-0xe0,0x59,0x0d,0xbc,0x9f,0xee,0x26,0xb0,0xc0,0x9d,0x7f,0x5e,0x8d,0xde,0xb2,0x6a,
-0x66,0x1b,0x3b,0xd7,0xde,0xc3,0x6a,0x66,0xfa,0x74,0xaf,0x8f,0xee,0x18,0xb0,0x23,
-0xcb,0xf5,0xd7,0x75,0xcf,0xca,0xfb,0xb1,0x23,0x78,0xe1,0xd7,0x75,0x5f,0x7c,0xf6,
-0xba,0x5f,0x55,0xd3,0xeb,0xd6,0x5a,0x6b,0x9d,0xe5,0x2e,0x9a,0xd5,0x37,0x60,0xa6,
-0x6f,0x10,0xa6,0x3e,0x30,0xd3,0x0f,0xed,0xd9,0xac,0xba,0x04,0x66,0x06,0x9b,0xc1,
-0xcc,0xdd,0x6f,0x81,0x45,0x51,0x0e,0x2c,0x4a,0x38,0x34,0xf8,0x26,0x63,0x41,0xbf,
-0xa1,0x7f,0x0a,0x57,0x76,0x73,0x3d,0xac,0x50,0xa3,0x3f,0x11,0x6a,0x85,0x09,0xfa,
-0xac,0xb9,0xa6,0x11,0xb6,0xf4,0xc3,0x02,0x0c,0x88,0xe6,0xda,0x2a,0x68,0x05,0x78,
-0x5d,0x4d,0x2b,0x98,0xf9,0x16,0x59,0x04,0x06,0x43,0x47,0xe5,0x57,0xd0,0x24,0xf0,
-0xcd,0xe8,0x22,0xca,0xe1,0x75,0x75,0x1a,0x98,0x6e,0x83,0x9f,0x6b,0xd0,0x9f,0xd4,
-0xaa,0x61,0x82,0x65,0xa3,0x0e,0xa6,0xcf,0x61,0x82,0xd3,0x37,0x0e,0xc2,0x04,0xdd,
-0xdc,0xdc,0xde,0x09,0x9e,0x29,0xa1,0xfd,0x3e,0xd1,0xc3,0x04,0x77,0x94,0x66,0xf4,
-0x77,0x44,0x9f,0x7c,0x0d,0x53,0x37,0x34,0x18,0x3c,0x0b,0x8e,0xc8,0x02,0xdf,0x6f,
-0x2c,0xf0,0x9d,0xc4,0x62,0x6a,0x87,0xe5,0x4b,0xc0,0x02,0x9f,0xf0,0x96,0x9a,0x6a,
-0x60,0xa9,0xbd,0x08,0x13,0xec,0x5f,0xa7,0x82,0x09,0x9e,0x03,0x9f,0xac,0x96,0xcf,
-0xe0,0x8c,0x1a,0xeb,0x60,0x82,0x43,0x6c,0x30,0xc1,0xd4,0x0b,0x1d,0x74,0x1d,0x58,
-0xbe,0xba,0x00,0x13,0x3c,0x6e,0x86,0x8e,0xfc,0x12,0x4e,0xa1,0x19,0x3a,0xa0,0x19,
-0xde,0xe3,0x12,0x1c,0x7e,0x0b,0x7c,0x19,0xb1,0x5c,0x86,0x15,0x97,0x6f,0x43,0xef,
-0xc3,0x9b,0xc2,0x25,0x61,0x69,0x83,0xcb,0xa2,0xe5,0x73,0x18,0xfd,0x2d,0x5f,0x5c,
-0x03,0x96,0xab,0x9d,0xc0,0xd2,0xfe,0x05,0x4c,0x57,0xe1,0x71,0x3d,0xb0,0x74,0x5c,
-0x01,0x3f,0x7f,0x71,0x1d,0xa6,0x01,0x60,0xe9,0x84,0x43,0xeb,0x84,0x81,0xdb,0x72,
-0x15,0x1e,0x7c,0x53,0x01,0x13,0xec,0xf0,0x0d,0x5c,0x00,0x2d,0x9d,0xe8,0xe0,0x3b,
-0x60,0xb9,0x01,0xaf,0x39,0x78,0x11,0xfc,0xfc,0xa5,0x12,0x58,0xba,0x9b,0x81,0x05,
-0x3e,0x43,0x2d,0x37,0xe1,0x06,0xd2,0x72,0x1b,0xde,0xd8,0x5c,0x81,0x0e,0xae,0xc0,
-0x03,0x38,0x4c,0x33,0x9c,0x06,0x7c,0x4c,0x58,0x6e,0xc3,0x98,0xbb,0x7d,0x09,0xfc,
-0xdc,0xfc,0x0d,0xcc,0xa1,0xb1,0xfa,0xe0,0xd4,0xa1,0x17,0x2d,0x70,0x0f,0xfd,0xb9,
-0x05,0x8e,0xec,0x92,0x06,0x5a,0xbb,0x05,0x76,0xbc,0x03,0x8d,0x77,0x07,0xce,0xfb,
-0x0e,0x5c,0x61,0xd7,0x2e,0xa0,0x7f,0x13,0x34,0x74,0x83,0x39,0x2d,0xbc,0xd1,0x00,
-0x3c,0x1d,0x3d,0x1c,0x2e,0xeb,0xe1,0x92,0xbb,0x52,0x09,0x2d,0x8f,0x7e,0x4f,0x18,
-0xfc,0x1a,0xd6,0x42,0x9b,0xdd,0x85,0xe5,0xef,0xa0,0x2d,0xbe,0x83,0x76,0xfa,0x0e,
-0x06,0x6f,0xb9,0x12,0xfc,0x0c,0x57,0xe4,0xcf,0xad,0x70,0x97,0xbf,0xf4,0x05,0x8c,
-0x64,0xb8,0x12,0x66,0xd5,0xe8,0xdf,0x45,0x0d,0x30,0xdd,0x01,0xb3,0x9a,0x9b,0x30,
-0xc1,0x15,0xa1,0xf9,0x06,0xcc,0x56,0xa2,0x7f,0x9c,0x47,0x3f,0x4a,0x7c,0x01,0x23,
-0xbc,0x09,0x46,0x7d,0x37,0x98,0xad,0x82,0xe7,0x18,0xe1,0x2e,0x78,0xa9,0x13,0x9e,
-0x60,0x18,0x84,0x15,0x03,0xb0,0xa2,0x1d,0xcc,0x5e,0xa8,0x00,0xb3,0x9f,0xc0,0x9d,
-0xe5,0xd2,0x37,0xb0,0x57,0xf5,0x25,0x58,0x50,0xc3,0x4a,0x38,0x8f,0xf6,0xeb,0x60,
-0xd6,0xd4,0x01,0xd3,0x5d,0x30,0xfb,0x29,0xbc,0x8a,0x09,0x06,0x4c,0x47,0x27,0x98,
-0xad,0x85,0x2e,0xb9,0x0c,0xbf,0x8a,0xcc,0x7e,0x76,0x19,0xcc,0x7e,0xd1,0x07,0x66,
-0x1b,0x74,0xe0,0xe7,0x4e,0xf8,0xae,0x0d,0x0d,0xfd,0xf3,0xd7,0xd0,0x62,0xf0,0x85,
-0xda,0xa2,0x81,0x0b,0xad,0x51,0x01,0x66,0x3f,0x6f,0x04,0x73,0xe5,0x5d,0x60,0xe6,
-0x93,0x06,0x58,0x6e,0x01,0xb3,0x4d,0x70,0x68,0x4d,0x17,0xd1,0x3f,0x88,0x42,0x03,
-0x75,0xe9,0xc0,0xec,0x57,0x70,0xec,0x5f,0xc2,0x3b,0xb6,0x40,0xdb,0x5c,0x36,0x75,
-0x81,0xd9,0x4b,0x17,0xc0,0x6c,0xf3,0x57,0x60,0xb6,0x15,0x0e,0x18,0xee,0x2d,0xb3,
-0x57,0xe0,0x5d,0xae,0x5e,0x03,0xb3,0xd7,0xa0,0xaf,0x2f,0x7f,0x0e,0x0b,0x5f,0x7f,
-0x01,0x7e,0xbe,0x51,0x0f,0x66,0x3b,0xe1,0x73,0xed,0xf2,0xa5,0xab,0x60,0xb6,0x0b,
-0x7e,0x4d,0xea,0x86,0x67,0x75,0x41,0x13,0x5c,0x87,0x67,0x5e,0x87,0x9b,0xd6,0xe5,
-0x6b,0xc8,0x7f,0xbd,0xf0,0x79,0x70,0xf9,0x6b,0x78,0x07,0xd8,0xbc,0x78,0xf9,0x26,
-0x9c,0xf1,0xcd,0xef,0xc0,0x2c,0x7c,0xc3,0x99,0xed,0x86,0xe7,0xf5,0xd6,0xc1,0x04,
-0x27,0x67,0x86,0x93,0x84,0xef,0x03,0xb3,0xe8,0x91,0x7e,0x19,0xfd,0x28,0xd0,0xdb,
-0x0b,0x66,0xfb,0xa0,0x1d,0xe1,0x83,0xef,0xe7,0xde,0x1e,0x30,0x8b,0x1e,0x35,0x97,
-0xe1,0xd3,0x63,0xf6,0x36,0xf4,0xc4,0x20,0xdc,0x53,0x2f,0x0f,0xc2,0x85,0x78,0xf9,
-0x2e,0xbc,0xe7,0x77,0x1a,0xf0,0x4c,0xd1,0x0f,0x13,0x1c,0xd4,0xad,0x3a,0xb8,0x58,
-0xf4,0x30,0x0d,0xc2,0x74,0x1b,0x3c,0x83,0xf3,0x86,0x8b,0xb3,0x0d,0x3c,0x53,0xc3,
-0x0b,0xb7,0xea,0x2e,0x83,0x67,0x1a,0xe8,0xbd,0xd6,0x0b,0xe8,0x6f,0xb8,0xdb,0xc1,
-0x33,0x1d,0xf4,0x46,0x6b,0xbd,0x16,0x3c,0xd3,0xc3,0x4d,0x07,0x6e,0x4c,0x8b,0xad,
-0x8d,0xe8,0x1f,0xd3,0x9b,0x6b,0xc0,0x33,0xe3,0x1d,0xf0,0xec,0x02,0xdc,0xfd,0xee,
-0xa0,0x3f,0xe7,0x86,0xdf,0x6c,0xee,0xf4,0x81,0x67,0xf0,0xd5,0xff,0x99,0xa9,0x11,
-0x3c,0xfb,0x54,0x0d,0x9e,0x5d,0x84,0x5f,0x04,0x07,0xbe,0x80,0x5b,0x15,0xf4,0x5b,
-0xeb,0x8d,0x5b,0xf0,0x00,0xc6,0x77,0xeb,0x4d,0x14,0x5e,0x9a,0xaf,0xc0,0xb3,0x7a,
-0x74,0xe5,0xbb,0x2d,0x48,0x60,0x6c,0xb5,0x29,0x55,0xe0,0xe7,0xef,0x06,0xc0,0x8c,
-0x02,0x3e,0x2c,0xdb,0xe0,0x17,0x23,0x28,0xf0,0x19,0xd0,0xa6,0x6a,0x40,0xd2,0x03,
-0x9e,0x35,0xa2,0xdf,0xcf,0xe0,0x69,0x70,0xdd,0xcd,0x28,0x35,0x60,0xa6,0x1c,0xbe,
-0x67,0xb4,0xa1,0x1f,0x5e,0x5a,0x2e,0x80,0x19,0xf8,0xe5,0x6a,0xb1,0xad,0x1e,0x3e,
-0x6f,0xda,0x3e,0x87,0xaf,0x1a,0x6d,0x5f,0xc0,0xbb,0x5f,0xfd,0x1a,0xcc,0xa8,0xbe,
-0x81,0x9b,0x26,0x9c,0x6b,0x07,0x7c,0xba,0xb6,0xb5,0xc1,0x07,0x44,0xdb,0xb5,0xab,
-0xe0,0xd9,0xd7,0xd7,0xc1,0x0c,0x7a,0x68,0xb5,0x5d,0x87,0x73,0xfc,0x06,0x9a,0xe6,
-0x1b,0x1d,0xac,0x80,0xdb,0x52,0xdb,0x4d,0x38,0x47,0xf8,0x02,0x39,0xa3,0x87,0x1b,
-0x36,0x7c,0xb5,0x7b,0x06,0xdf,0xfb,0x9e,0xf5,0xc2,0x67,0x48,0xdb,0x5d,0xd8,0xcb,
-0x0c,0x77,0x73,0x03,0xdc,0x85,0x6f,0xc3,0x29,0xf6,0x95,0x83,0x67,0xfd,0x6a,0x58,
-0x86,0x0f,0xa7,0x2b,0xd0,0x4c,0x8b,0x57,0x74,0x95,0x60,0xc6,0x08,0xc7,0x7a,0xa5,
-0xaa,0x01,0x3c,0x1b,0x84,0x4f,0xa5,0x2b,0x86,0xbb,0xe0,0xd9,0xdd,0x5a,0xf0,0xec,
-0x3b,0x54,0x40,0xdf,0x6d,0xae,0xd4,0x5c,0x06,0x73,0x4a,0xf8,0xb2,0x73,0x05,0xbe,
-0xef,0xcf,0xc1,0x0d,0x6b,0xf1,0xb2,0xf1,0x2b,0x18,0x74,0xb5,0x30,0xf8,0x6e,0x82,
-0x39,0x55,0x05,0x98,0xa9,0xae,0x82,0xf9,0x5d,0x60,0xb9,0x06,0x6d,0x7c,0xe5,0xcb,
-0xab,0x48,0xe0,0xd1,0xe5,0x0b,0x28,0x16,0x2f,0xc0,0x20,0xd5,0xaa,0xc0,0xdc,0xdd,
-0x2f,0xc1,0x8c,0xe9,0x6b,0x30,0xa7,0x37,0xc1,0x04,0xfb,0xeb,0xd1,0x1f,0x58,0xf6,
-0xc0,0x1c,0x2e,0x59,0x6b,0x3e,0x08,0xe6,0xaa,0xa0,0x29,0xae,0x74,0x0e,0x80,0x39,
-0x43,0x13,0x98,0x33,0xc2,0xdb,0x5e,0xe8,0x82,0xc7,0x28,0x87,0x8d,0x9f,0x5c,0x85,
-0x75,0x17,0x61,0xae,0x87,0xc9,0x00,0x13,0xf4,0xf7,0x15,0xe8,0x9f,0xc5,0x2b,0x70,
-0xe3,0x58,0xbc,0x02,0x5f,0x99,0x67,0x6a,0xe0,0xf5,0xe1,0x77,0xa3,0x39,0xf8,0xad,
-0x68,0xae,0x06,0x1a,0xfa,0x2a,0xea,0x5b,0x0b,0xfd,0x78,0x65,0xa0,0x13,0xcc,0xd4,
-0x36,0xc1,0x04,0x1d,0x77,0xe5,0x2e,0x7c,0x54,0x5f,0xad,0x80,0x06,0xab,0x85,0xfd,
-0x1b,0xaa,0x61,0x82,0x97,0x6e,0xe8,0x00,0x73,0x9f,0xa3,0xa4,0x05,0x73,0x8d,0x17,
-0xc0,0xdc,0x17,0x97,0x60,0x0e,0x27,0xdc,0x04,0xfb,0x7c,0x09,0x1d,0xf7,0xd9,0x67,
-0x60,0xee,0xab,0x16,0x30,0xd7,0xac,0x84,0xc7,0xfd,0x60,0xae,0x05,0x5a,0xe4,0x2a,
-0x3a,0x11,0xbe,0x34,0xce,0xc1,0xb7,0xc2,0x99,0x7a,0x33,0xcc,0xe1,0x2e,0xf2,0x29,
-0x5c,0x21,0x57,0x2f,0xc1,0x40,0xbe,0xda,0x76,0x05,0xcc,0x7c,0x7e,0x17,0xcc,0x7c,
-0x51,0x09,0xe6,0xae,0xa1,0xee,0x37,0xe1,0xf5,0x6e,0xc2,0xeb,0xc1,0xaf,0x10,0x73,
-0xbd,0x5f,0x80,0x39,0xf4,0xb6,0x7c,0x75,0x00,0xbe,0x42,0x34,0x37,0x43,0x0b,0xa1,
-0x9f,0xdb,0x6e,0xc1,0xc9,0xdf,0x86,0x26,0x6e,0x86,0x57,0x9c,0xfb,0x16,0xbe,0x9d,
-0xb6,0x7f,0xf6,0x29,0x92,0x2e,0x30,0x5f,0x5e,0x03,0xe6,0x2b,0xba,0xc1,0xbc,0x0a,
-0xbe,0x69,0xb5,0x37,0x5e,0x87,0x07,0x5f,0x80,0x79,0x6d,0x1f,0x98,0xaf,0xfa,0x0c,
-0xa6,0x7a,0x30,0xaf,0x1b,0x00,0xf3,0x9f,0xf4,0x83,0xf9,0x6a,0x18,0xee,0xed,0xdf,
-0xdc,0x01,0xf3,0x75,0x30,0xe6,0xae,0xc0,0x07,0x32,0xfa,0x86,0xd5,0x0e,0xef,0x35,
-0x73,0xf5,0x0a,0x98,0xff,0x02,0x6e,0xd2,0xb7,0x6e,0x82,0xf9,0x46,0x18,0x7b,0x1d,
-0x68,0xf1,0x74,0x68,0x3f,0x07,0x33,0x1d,0x30,0xb8,0x3a,0xe0,0x33,0xf9,0x2b,0x38,
-0xcc,0x8e,0x6a,0x3d,0x98,0xb9,0x06,0xa3,0xb8,0xe3,0xd3,0x3a,0x30,0xdf,0x0c,0xdf,
-0x7f,0x3a,0xd0,0xe3,0xfa,0x32,0x7c,0x76,0x76,0xf6,0x80,0x79,0xf8,0x42,0x34,0x7f,
-0xe5,0x2a,0x98,0xbf,0x5a,0x0e,0x13,0x9c,0xdd,0x37,0x70,0xf9,0x77,0x74,0xde,0x00,
-0xf3,0xdd,0x0a,0x30,0xdf,0x03,0x9f,0xb6,0xf0,0xfb,0xcd,0x0c,0xfc,0x22,0x31,0x6f,
-0x86,0x81,0x70,0x0d,0xfd,0x66,0xde,0x03,0x17,0xca,0x35,0x15,0xbc,0xd5,0x35,0x2d,
-0xec,0x7b,0x0d,0x46,0xc0,0x8c,0x19,0x5e,0xf9,0xdb,0xbb,0x60,0x1e,0x7e,0x3f,0x9b,
-0x1f,0xf8,0x04,0x26,0xe8,0xad,0x6b,0xf5,0x0a,0x00,0x70,0x1b,0x36,0xda,0xd8,0x6e,
-0xda,0xbc,0xd9,0x0e,0xbf,0x65,0xab,0xbd,0xc3,0x5b,0x8e,0x9b,0x7f,0xf9,0x10,0x36,
-0x3b,0x6d,0xdb,0xee,0xec,0xb2,0x63,0xa7,0xab,0xb5,0xe8,0xb6,0x79,0xd7,0x6e,0x77,
-0x8f,0x3d,0x6f,0x7b,0x7a,0x6d,0xfe,0xbb,0x7f,0xf6,0xee,0x83,0xe2,0xfd,0xab,0x5e,
-0x92,0xb8,0xff,0x80,0x8f,0xef,0xc1,0x77,0xb0,0x92,0xdf,0xeb,0x6a,0x92,0xff,0xe6,
-0x00,0x32,0x05,0x1e,0xbc,0xbb,0xf9,0x9f,0xf3,0x73,0x68,0x33,0x95,0xf6,0xde,0xfb,
-0x81,0xaf,0x8b,0xf4,0x37,0xdb,0x82,0x0e,0x6f,0x0e,0x0e,0xf9,0xe0,0x75,0xe9,0xc3,
-0xcd,0xff,0xc6,0x9f,0xd0,0xb0,0x23,0x9b,0xd7,0x3f,0xeb,0x9f,0xf5,0xcf,0xfa,0x67,
-0xfd,0xb3,0xfe,0x59,0xff,0xac,0x7f,0xd6,0x3f,0xeb,0x9f,0xf5,0xcf,0xfa,0x67,0xfd,
-0xf3,0xef,0xf3,0x01,0x36,0xeb,0xfc,0x55,0xd8,0x02,0xbb,0xdf,0x02,0x0f,0x08,0xc0,
-0x09,0x38,0x63,0xb8,0x00,0x77,0x88,0x07,0xf0,0x02,0x44,0x40,0x02,0x64,0x08,0x05,
-0xd0,0x41,0x08,0x08,0x05,0x61,0x80,0x05,0x38,0x20,0x03,0xc2,0x07,0x62,0x20,0x03,
-0x2a,0x60,0x00,0x35,0x90,0x46,0xd0,0x0a,0x3a,0x41,0x2f,0x18,0x00,0xf7,0xc1,0x43,
-0xf0,0x18,0x3c,0x81,0xcc,0x80,0xe7,0xe0,0x05,0x78,0x05,0x6c,0x70,0xf6,0x56,0x9c,
-0x71,0xee,0x38,0x6f,0x9c,0x1f,0x8e,0x6a,0x25,0x18,0x17,0x8e,0x63,0xe2,0x92,0x70,
-0x29,0xb8,0x0c,0x08,0x1f,0x27,0xc6,0xc9,0x70,0x2a,0x9c,0x01,0x57,0x83,0x6b,0xc4,
-0xb5,0xe2,0x3a,0x21,0xbd,0xb8,0x01,0xdc,0x7d,0xdc,0x43,0xdc,0x63,0xdc,0x13,0x2b,
-0x33,0xb8,0xe7,0xb8,0x17,0xb8,0x57,0x38,0x9b,0x0d,0x36,0x1b,0xec,0x21,0xce,0x1b,
-0xdc,0x37,0x78,0x6f,0xf0,0xdb,0x40,0xdd,0x10,0xbc,0x21,0x7c,0x03,0x73,0x43,0xd2,
-0x86,0x94,0x0d,0x19,0x1b,0xf8,0x1b,0xc4,0x1b,0x64,0x1b,0x54,0x1b,0x0c,0x56,0x6a,
-0x36,0x34,0x6e,0x68,0xdd,0xd0,0xb9,0xa1,0x77,0xc3,0xc0,0x86,0xfb,0x1b,0x1e,0x6e,
-0x78,0xbc,0xe1,0xc9,0x86,0x99,0x0d,0xcf,0x37,0xbc,0xd8,0xf0,0x6a,0x83,0xcd,0x46,
-0xfb,0x8d,0xce,0x1b,0xdd,0x37,0x7a,0x6f,0xf4,0xb3,0x42,0xdd,0x18,0xbc,0x31,0x7c,
-0x23,0x73,0x63,0xd2,0xc6,0x94,0x8d,0x19,0x1b,0xf9,0x1b,0xc5,0x1b,0x25,0x1b,0xe5,
-0x1b,0x55,0x1b,0x0d,0x1b,0x6b,0x36,0x36,0x6e,0x6c,0x85,0x74,0x6e,0xec,0xdd,0x38,
-0xb0,0xf1,0xfe,0xc6,0x87,0x1b,0xc7,0x37,0x4e,0x6d,0x9c,0xb1,0xf2,0x7c,0xe3,0x8b,
-0x8d,0xaf,0x36,0xda,0xd8,0xd8,0xdb,0xb8,0xd8,0xb8,0x5b,0xf1,0xb6,0xf1,0xb3,0xa1,
-0xda,0x04,0xdb,0x84,0xdb,0x30,0xad,0x24,0xd9,0xa4,0xd8,0x64,0xd8,0xf0,0x6d,0xc4,
-0x36,0x32,0x1b,0x95,0x8d,0xc1,0xa6,0xc6,0xa6,0xd1,0xa6,0xd5,0xa6,0xd3,0xa6,0xd7,
-0x66,0xc0,0xe6,0xbe,0xcd,0x43,0x9b,0xc7,0x36,0x4f,0xac,0xcc,0xd8,0x3c,0xb7,0x79,
-0x61,0xf3,0xca,0xc6,0xc6,0xd6,0xde,0xd6,0xd9,0xd6,0xdd,0xd6,0xdb,0xd6,0xcf,0x96,
-0x6a,0x1b,0x6c,0x1b,0x6e,0xcb,0xb4,0x4d,0xb2,0x4d,0xb1,0xcd,0xb0,0xe5,0xdb,0x8a,
-0x6d,0x65,0xb6,0x2a,0x5b,0x83,0x6d,0xad,0x6d,0xfd,0x5f,0x4d,0xb3,0x6d,0xfb,0xff,
-0xc0,0x0d,0xdb,0xbe,0x3f,0x89,0x7e,0xdb,0x61,0xdb,0x31,0xdb,0x29,0x5b,0x8b,0xed,
-0x82,0xed,0xb2,0xed,0xaa,0xad,0xed,0x26,0xfb,0x4d,0xce,0x9b,0xdc,0x37,0x79,0x6f,
-0xf2,0xdb,0x44,0xdd,0x14,0xbc,0x29,0x7c,0x13,0x73,0x53,0xf2,0xa6,0x8c,0x4d,0xc2,
-0x4d,0xb2,0x4d,0xda,0x4d,0x35,0x9b,0x9a,0x37,0x75,0x42,0xfa,0x36,0xdd,0xdf,0xf4,
-0x68,0xd3,0x93,0x4d,0x33,0x9b,0x9e,0x5b,0x79,0xb1,0xe9,0xd5,0x26,0x9b,0xcd,0xf6,
-0x9b,0x9d,0x37,0xbb,0x6f,0xf6,0xd9,0x4c,0xdd,0x1c,0xbc,0x39,0x7c,0x33,0x6b,0x33,
-0x7b,0x73,0xea,0xe6,0x8c,0xcd,0xfc,0xcd,0x62,0x2b,0xb2,0xcd,0xaa,0xcd,0xd5,0x9b,
-0x1b,0x37,0xb7,0x6e,0xee,0xdc,0xdc,0xbb,0x79,0x00,0x72,0x7f,0xf3,0xc3,0xcd,0x8f,
-0x37,0x3f,0xd9,0x3c,0xb3,0xf9,0xf9,0xe6,0x17,0x9b,0x5f,0x6d,0xb6,0xb1,0xb3,0xb7,
-0x73,0xb6,0x73,0xb7,0xf3,0xb6,0xf3,0xb3,0xa3,0xda,0x05,0xdb,0x85,0xdb,0x31,0xed,
-0x92,0xec,0x52,0xec,0x32,0xec,0xf8,0x76,0x62,0x3b,0x99,0x9d,0xca,0xce,0x60,0x57,
-0x63,0xd7,0x68,0xa5,0xd5,0xae,0xf3,0xb7,0xe8,0xb5,0x1b,0xb0,0xbb,0x6f,0xf7,0xd0,
-0x6e,0xc2,0x6e,0xc6,0x6e,0xd1,0xee,0x95,0x9d,0x0d,0xde,0x1e,0xef,0x8a,0xf7,0xc6,
-0xfb,0xe1,0xa9,0xff,0xa6,0xd0,0xf0,0x74,0x7c,0x08,0x3e,0x0c,0x1f,0x81,0x67,0xe0,
-0x59,0xf8,0x78,0x3c,0x1b,0x9f,0xfc,0x57,0xc1,0xc1,0xa7,0xe3,0x79,0x78,0x11,0x5e,
-0x8a,0x57,0xe2,0xb5,0x10,0x1d,0xde,0x88,0x37,0xe1,0x6b,0xf1,0x0d,0xf8,0xc6,0x7f,
-0x5a,0x9a,0xf1,0xad,0x90,0x76,0xfc,0x8d,0xbf,0x31,0xbd,0xbf,0x60,0xc6,0x0f,0x60,
-0xdc,0xfb,0x85,0x21,0xfc,0xf7,0xf8,0x47,0xf8,0x09,0xfc,0x13,0xfc,0x0c,0xfe,0x39,
-0xfe,0x05,0xe4,0x15,0xc4,0x66,0x8b,0xfd,0x16,0xd7,0xbf,0x00,0xcf,0x2d,0x3e,0x5b,
-0xc8,0x5b,0x02,0xb7,0x84,0x6e,0x89,0xdc,0x92,0xf4,0x17,0x90,0xb2,0x25,0x63,0x0b,
-0x7f,0x8b,0x78,0x8b,0x6c,0x8b,0x7c,0x8b,0x72,0x8b,0x7a,0x8b,0x7e,0xcb,0xa7,0x5b,
-0x1a,0xb6,0x34,0x6d,0x69,0xfe,0xb3,0x69,0xd9,0xd2,0xb6,0xa5,0x63,0x4b,0xe7,0x96,
-0xae,0x2d,0xdd,0x5b,0x7a,0xad,0x98,0xb7,0xf4,0xfd,0x0e,0xf7,0xb6,0x3c,0x80,0x3c,
-0xc2,0x98,0xf8,0x85,0xa7,0x5b,0xe6,0xb6,0x2c,0xfe,0x5e,0x5e,0xfe,0x95,0x80,0xad,
-0x7f,0x0e,0x76,0x5b,0x09,0x10,0x57,0x0c,0xcf,0x5f,0xf0,0xd9,0x4a,0xde,0x1a,0xf8,
-0x67,0x12,0xba,0x35,0xf2,0x1f,0x90,0xb8,0xad,0xc9,0xff,0x03,0x69,0x5b,0xb9,0x5b,
-0x85,0x5b,0x8b,0xac,0x28,0xb6,0x6a,0xad,0x54,0x6f,0xad,0xdf,0xda,0xbc,0xb5,0x7d,
-0xeb,0x8d,0xad,0x7d,0x56,0xee,0x6d,0x7d,0xb0,0xf5,0xd1,0xd6,0x89,0xad,0x4f,0xb7,
-0xce,0x59,0x59,0xdc,0xfa,0x72,0x2b,0xb0,0xb7,0xb3,0x27,0xd8,0xbb,0xda,0x7b,0xda,
-0xfb,0xd8,0x93,0xed,0x03,0xed,0x43,0xed,0x23,0xad,0xc4,0xd9,0x27,0xaf,0xf3,0x07,
-0xe1,0xd8,0xa7,0xad,0xf3,0x17,0xc1,0xb5,0x17,0xda,0x17,0xd9,0x2b,0xec,0xb5,0xff,
-0xc0,0xe8,0xec,0x4d,0xf6,0x0d,0xf6,0x2d,0xf6,0xed,0xff,0x60,0xdc,0x80,0xf4,0xfd,
-0x51,0xee,0xfd,0xcd,0x00,0xeb,0x9f,0x7f,0xf3,0xcf,0xdf,0x22,0xaa,0x1e,0xfc,0x0e,
-0x8f,0xac,0x4c,0xfc,0x4a,0x3c,0xb5,0x9f,0xb3,0x5f,0xb4,0x7f,0x69,0x0f,0x1c,0xec,
-0x1c,0x08,0x0e,0xae,0xff,0xa2,0x78,0x3a,0xf8,0xfc,0x11,0xc8,0x0e,0x81,0x90,0xd0,
-0x7f,0x1a,0x22,0xad,0xc4,0xfd,0x2a,0x24,0x3b,0xa4,0x39,0x70,0xad,0x08,0xd7,0xf9,
-0x17,0xa4,0xc8,0x8a,0xc2,0x41,0xfb,0x47,0xa8,0x76,0xa8,0xff,0xbb,0xd2,0xfc,0x77,
-0xa4,0xdd,0xe1,0x86,0x43,0xdf,0xbf,0x2d,0xf7,0xfe,0xcd,0x78,0xf0,0x5b,0x3c,0x72,
-0x98,0x80,0x3c,0x75,0x78,0xfe,0x6f,0xce,0x0b,0x87,0x57,0x0e,0x36,0x6f,0xad,0xf3,
-0x87,0xb0,0x87,0x38,0xbf,0xe5,0xf9,0x96,0xcf,0x3f,0x0d,0xbe,0x6f,0x91,0xff,0xad,
-0xa1,0xbc,0x15,0xf8,0x2b,0x43,0x7f,0x2b,0xec,0xad,0xc8,0xbf,0x29,0x8c,0xb7,0x98,
-0x7f,0x57,0x92,0x7e,0x0f,0x29,0xbf,0x90,0xf1,0x0b,0xfc,0x5f,0x10,0xff,0x41,0x64,
-0xbf,0x07,0x15,0xc4,0xf0,0x56,0xed,0x5b,0xcd,0x6f,0x75,0xbc,0xd5,0xfb,0x3b,0x0c,
-0xfc,0x09,0xdc,0xff,0x3d,0x3c,0xfc,0x85,0xc7,0xbf,0xf0,0xe4,0x17,0x66,0xfe,0x20,
-0xcf,0xff,0x85,0x79,0xb1,0xce,0x3f,0x09,0xcb,0x6f,0xbd,0xfc,0xbd,0x00,0x47,0xe0,
-0x68,0x07,0x21,0x40,0x5c,0x21,0x9e,0x18,0x3e,0xbf,0x3a,0x64,0x48,0xa0,0x95,0x50,
-0xc7,0x48,0x48,0xdc,0x3a,0xff,0x62,0xc4,0x3b,0xb2,0x1d,0x39,0x8e,0x29,0x8e,0xa9,
-0x8e,0xe9,0x8e,0x99,0x8e,0x3c,0x47,0x81,0xa3,0xc8,0x51,0xe2,0x28,0x75,0x94,0x3b,
-0x2a,0x1d,0xd5,0x8e,0x5a,0x47,0x9d,0xa3,0xd1,0xd1,0xe4,0x58,0xeb,0xd8,0xe0,0xd8,
-0xe4,0xd8,0xe2,0xd8,0xe6,0xd8,0xe1,0xd8,0xe5,0xd8,0xed,0x68,0x76,0xec,0x77,0x1c,
-0x74,0x1c,0x72,0x1c,0x76,0x1c,0x71,0x1c,0x75,0x7c,0xe4,0x38,0xe6,0x38,0xee,0x38,
-0xe9,0x38,0xe5,0x38,0xed,0x68,0x71,0x9c,0x77,0x5c,0x70,0x5c,0x72,0x5c,0x76,0x5c,
-0x71,0x5c,0x75,0xc4,0x11,0x6c,0x09,0x78,0x82,0x03,0xc1,0x89,0xe0,0x42,0x70,0x23,
-0x78,0x10,0xbc,0x08,0x44,0x82,0x2f,0x81,0x44,0xa0,0x10,0x68,0x04,0x3a,0x21,0x84,
-0x10,0xfa,0x07,0x09,0x23,0x84,0xff,0x0a,0x44,0x10,0x18,0x04,0x16,0x21,0x9e,0xc0,
-0x26,0x70,0x08,0xa9,0x84,0x74,0x42,0x26,0x81,0x47,0x10,0x10,0x44,0x04,0x09,0x41,
-0x4a,0x90,0x13,0x94,0x04,0x35,0x41,0x47,0x30,0x12,0x4c,0x84,0x5a,0x42,0x03,0xa1,
-0x89,0xd0,0x42,0x68,0x23,0x74,0x10,0xba,0x08,0xdd,0x04,0x33,0xa1,0x9f,0x30,0x48,
-0x18,0x22,0x0c,0x13,0x46,0x08,0xa3,0x84,0x31,0xc2,0x38,0x61,0xe2,0x1f,0x80,0xa7,
-0x84,0x39,0xc2,0x22,0xe1,0x25,0x01,0x38,0xd9,0x39,0x11,0x9c,0x5c,0x9d,0xbc,0x9d,
-0xc8,0x4e,0x81,0x4e,0xa1,0x4e,0x91,0x4e,0x71,0x4e,0xc9,0x4e,0x69,0x4e,0x5c,0x27,
-0xa1,0x53,0x91,0x93,0xc2,0xc9,0xe0,0x54,0xef,0xd4,0xea,0x74,0xc3,0xa9,0xcf,0xe9,
-0x9e,0xd3,0x03,0xa7,0x47,0x4e,0x4f,0x9c,0xe6,0x9c,0x16,0x9d,0x5e,0x3a,0x81,0x6d,
-0x76,0xdb,0x08,0xdb,0x5c,0xb7,0x79,0x6e,0xf3,0xd9,0x46,0xde,0x16,0xb8,0x2d,0x74,
-0x5b,0xe4,0xb6,0xb8,0x6d,0xc9,0xdb,0xd2,0xb6,0x71,0xb7,0x89,0xb7,0x29,0xb6,0x69,
-0xb7,0x55,0x6f,0xab,0xdf,0xd6,0xbc,0xad,0x7d,0xdb,0x8d,0x6d,0x7d,0xdb,0xee,0x6d,
-0x7b,0xb8,0x6d,0x62,0xdb,0xd3,0x6d,0x73,0xdb,0x16,0xb7,0xbd,0xdc,0x06,0xb6,0xdb,
-0x6d,0x27,0x6c,0x77,0xdd,0xee,0xb9,0xdd,0x67,0x3b,0x79,0x7b,0xe0,0xf6,0xd0,0xed,
-0x91,0xdb,0xe3,0xb6,0x27,0x6f,0x4f,0xdb,0xce,0xdd,0x2e,0xde,0xae,0xd8,0x6e,0xd8,
-0x5e,0xbf,0xbd,0x75,0xfb,0x8d,0xed,0x03,0xdb,0x1f,0x6c,0x7f,0xb4,0x7d,0x62,0xfb,
-0xd3,0xed,0x73,0xdb,0x17,0xb7,0xbf,0xdc,0x0e,0x9c,0xed,0x9c,0x9d,0x9d,0x3d,0x9d,
-0x7d,0x9c,0xc9,0xce,0x81,0xce,0xa1,0xce,0x91,0xce,0x71,0xce,0x29,0xce,0x5c,0x67,
-0xb1,0xb3,0xc2,0xd9,0xe0,0x5c,0xef,0xdc,0xec,0xdc,0xee,0x7c,0xc3,0xb9,0xcf,0xf9,
-0x9e,0xf3,0x03,0xe7,0x47,0xce,0x13,0xce,0x4f,0x9d,0xe7,0x9c,0x17,0x9d,0x5f,0x3a,
-0x03,0x17,0x3b,0x17,0x67,0x17,0x4f,0x17,0x3f,0x97,0x40,0x97,0x50,0x97,0x48,0x97,
-0x38,0x97,0x64,0x97,0x34,0x17,0xae,0x8b,0xd0,0xa5,0xc8,0x45,0xe1,0xa2,0x75,0xa9,
-0x76,0xa9,0x77,0x69,0x76,0x69,0x77,0xb9,0xe1,0xd2,0xe7,0x72,0xcf,0xe5,0x81,0xcb,
-0x23,0x97,0x09,0x97,0xa7,0x2e,0x73,0x2e,0x8b,0x2e,0x2f,0x5d,0xc0,0x0e,0xbb,0x1d,
-0x84,0x1d,0xae,0x3b,0x3c,0x77,0xf8,0xee,0x78,0x77,0x47,0xe0,0x2f,0x84,0xee,0x88,
-0xdc,0x11,0xb7,0x23,0x79,0x47,0xc6,0x0e,0xe1,0x0e,0xd9,0x0e,0xed,0x8e,0x9a,0x1d,
-0xcd,0x3b,0x3a,0x77,0xf4,0xed,0xb8,0xbf,0xe3,0xd1,0x8e,0x27,0x3b,0xe6,0x76,0xbc,
-0xd8,0x01,0x76,0xda,0xef,0x74,0xdd,0xe9,0xbd,0x93,0xbc,0x33,0x78,0x67,0xe4,0xce,
-0xb8,0x9d,0xc9,0x3b,0xd3,0x76,0x72,0x77,0x0a,0x77,0x16,0xed,0x54,0xed,0xac,0xde,
-0xd9,0xb8,0xb3,0x7d,0x67,0xef,0xce,0x7b,0x3b,0x1f,0xee,0x9c,0xd8,0x39,0xb3,0x73,
-0x71,0xe7,0xcb,0x9d,0xc0,0xd5,0xce,0x95,0xe0,0xea,0xea,0xea,0xe9,0xea,0xe3,0x4a,
-0x76,0x0d,0x76,0x8d,0x74,0x4d,0x72,0x4d,0x73,0xe5,0xbb,0x16,0xb9,0xaa,0x5c,0xab,
-0x5d,0x1b,0x5d,0xdb,0x5d,0x7b,0x5d,0xef,0xb9,0x3e,0x74,0x9d,0x70,0x9d,0x71,0x5d,
-0x74,0x7d,0xe5,0x6a,0xe7,0xe6,0xec,0xe6,0xe9,0xe6,0xe3,0x46,0x76,0x0b,0x74,0x0b,
-0x75,0x63,0xba,0x25,0xbb,0x65,0xb8,0x09,0xdd,0x64,0x6e,0x5a,0xb7,0x1a,0xb7,0x66,
-0xb7,0x4e,0xb7,0x3e,0xb7,0x7b,0x6e,0x0f,0xdc,0x1e,0xb9,0x4d,0xb8,0x3d,0x75,0x9b,
-0x73,0x5b,0x74,0x7b,0xf9,0x3b,0x80,0x5d,0x76,0xbb,0x9c,0x77,0x79,0xee,0xf2,0xdb,
-0x15,0xb8,0x2b,0x7c,0x57,0xdc,0xae,0xe4,0x5d,0x69,0xbb,0xf8,0xbb,0x8a,0x76,0xa9,
-0x76,0x55,0xef,0x6a,0xdc,0xd5,0xbe,0xeb,0xc6,0xae,0xbe,0x5d,0xf7,0x77,0x3d,0xda,
-0xf5,0x64,0xd7,0x9c,0x95,0xc5,0x5d,0x2f,0x77,0xd9,0xec,0x26,0xec,0x76,0xdf,0xed,
-0x63,0x85,0xbc,0x3b,0x70,0x77,0xf8,0xee,0xb8,0xdd,0x29,0xbb,0xb9,0xbb,0xc5,0xbb,
-0x15,0xbb,0xb5,0xbb,0xab,0x77,0x37,0xee,0x6e,0xdf,0xdd,0xbb,0xfb,0xde,0xee,0x87,
-0xbb,0x27,0x76,0x3f,0xdd,0x3d,0xb7,0xfb,0xc5,0x6e,0xe0,0x6e,0xef,0xee,0xea,0xee,
-0xed,0x4e,0x76,0x0f,0x74,0x0f,0x75,0x67,0xba,0x27,0xbb,0x67,0xb8,0x0b,0xdd,0x65,
-0xee,0x5a,0xf7,0x6a,0xf7,0x7a,0xf7,0x56,0xf7,0x1b,0xee,0x03,0xee,0x0f,0xac,0x3c,
-0x72,0x9f,0x70,0x9f,0x71,0x5f,0x74,0x7f,0xe5,0x6e,0xe7,0x81,0x20,0x78,0xb8,0x7a,
-0x78,0x7b,0x90,0x3d,0x82,0x3d,0x22,0x3d,0x92,0x3c,0xd2,0x20,0x5c,0x88,0x18,0xa2,
-0x80,0x18,0x3c,0x6a,0x3c,0x1a,0x3d,0xda,0x3d,0x7a,0x3d,0xee,0x79,0x3c,0xf4,0x98,
-0xf0,0x98,0xf1,0x78,0xee,0xf1,0xc2,0x03,0xec,0xb1,0xdf,0xe3,0xba,0xc7,0x7b,0x0f,
-0x79,0x4f,0xf0,0x9e,0xf0,0x3d,0xcc,0x3d,0x49,0x7b,0x52,0xf6,0x64,0xec,0xe1,0xef,
-0x11,0xef,0x91,0xed,0x51,0xed,0x31,0xec,0xa9,0xd9,0xd3,0xb8,0xa7,0x75,0x4f,0xa7,
-0x95,0xbe,0x3d,0xf7,0xf7,0x3c,0xde,0x33,0xb3,0xe7,0xc5,0x1e,0x9b,0xb7,0x9d,0xdf,
-0xf6,0x7e,0x9b,0xfc,0x76,0xf0,0xdb,0xcc,0xb7,0x53,0xde,0xe6,0xbf,0x2d,0x7b,0xdb,
-0xf0,0x76,0xe3,0xdb,0xed,0x6f,0xf7,0xbe,0x7d,0xff,0xed,0xc7,0x6f,0xcf,0xbc,0xfd,
-0xe2,0x6d,0x1b,0x4f,0x67,0x4f,0x4f,0x4f,0x3f,0xcf,0x60,0x4f,0xa6,0x67,0x8a,0x27,
-0xdf,0x53,0xe6,0x69,0xf0,0xac,0xf7,0x6c,0xf5,0xec,0xf5,0xbc,0xef,0xf9,0xd8,0x73,
-0xc6,0xf3,0x85,0xa7,0x8d,0x17,0xc1,0xcb,0xdd,0xcb,0xcf,0x2b,0xd8,0x8b,0xe9,0x95,
-0xe2,0xc5,0xf7,0x92,0x79,0xa9,0xbc,0x0c,0x5e,0xf5,0x5e,0xcd,0x5e,0x9d,0x90,0x5e,
-0xaf,0x7b,0x5e,0x0f,0xbc,0x1e,0x79,0x4d,0x78,0x3d,0xf5,0x9a,0xf7,0x5a,0xf4,0x5a,
-0xf6,0x5a,0xf5,0xda,0xb4,0xd7,0x7e,0xaf,0xeb,0x5e,0xcf,0xbd,0x7e,0x10,0xea,0xde,
-0xd0,0xbd,0x91,0x7b,0xe3,0xf6,0x26,0xef,0x4d,0xdb,0x9b,0xbd,0x37,0x6f,0x6f,0xf1,
-0x5e,0xc5,0x5e,0xed,0xde,0xea,0xbd,0x8d,0x7b,0xdb,0xad,0xdc,0xd8,0x3b,0xb0,0xf7,
-0xfe,0xde,0x87,0x7b,0x1f,0xef,0x7d,0xb2,0xf7,0xff,0xd9,0x3b,0xbb,0xf7,0xff,0xdd,
-0xfb,0x62,0xef,0xab,0xbd,0x36,0xfb,0x08,0xfb,0xdc,0xf7,0x79,0xef,0xf3,0xdb,0x47,
-0xdd,0x17,0xba,0x2f,0x72,0x5f,0xdc,0xbe,0xe4,0x7d,0x69,0xfb,0xb2,0xf7,0xe5,0xed,
-0x2b,0xda,0x27,0xb3,0xa2,0xdd,0x57,0xbd,0xaf,0x11,0xd2,0xba,0xef,0xc6,0xbe,0xbe,
-0x7d,0xf7,0xf6,0x3d,0xd8,0xf7,0x68,0xdf,0x8f,0xfb,0xa6,0xf6,0xcd,0xec,0x9b,0x85,
-0xfc,0xf7,0xbe,0x85,0x7d,0x4b,0xfb,0x96,0xf7,0xad,0xec,0x5b,0xdd,0x87,0xf3,0xb6,
-0xf5,0xc6,0x7b,0x3b,0x78,0x13,0xde,0xc0,0xc9,0xdb,0xf9,0x17,0x5c,0xbc,0xdd,0xff,
-0x00,0x1e,0xde,0x5e,0xde,0xbe,0xde,0xd4,0xdf,0x81,0xe6,0x1d,0x68,0x85,0xee,0x1d,
-0xe6,0xcd,0xf4,0x66,0x79,0xb3,0xbd,0xd3,0x30,0xd2,0xbd,0xb9,0xde,0x3c,0x6f,0xe1,
-0xef,0x20,0xf2,0x96,0x7a,0x2b,0xbd,0xb5,0x7f,0x10,0x9d,0x77,0xfd,0x6f,0xd1,0xe0,
-0xdd,0xf8,0x47,0x68,0xf2,0x6e,0xf1,0x6e,0x85,0xb4,0x79,0x77,0x78,0x77,0x79,0x77,
-0x7b,0x9b,0xbd,0xfb,0xbd,0x07,0xbd,0x87,0xbc,0x87,0xbd,0x47,0xbc,0x47,0xbd,0xc7,
-0xbc,0xc7,0xbd,0x27,0xbd,0xa7,0xbc,0xa7,0xbd,0x2d,0xde,0xf3,0xde,0x0b,0xde,0x4b,
-0xde,0xcb,0xde,0x2b,0xde,0xab,0xde,0x38,0xa2,0x2d,0x11,0x4f,0x74,0x20,0x12,0x88,
-0x4e,0x44,0x17,0xa2,0x1b,0xd1,0x83,0xe8,0x45,0x24,0x12,0x7d,0x89,0x24,0x22,0x85,
-0x48,0x23,0xd2,0x89,0x21,0xc4,0x30,0x62,0xf8,0xef,0x25,0x82,0xc8,0xfc,0xa7,0x82,
-0x05,0xe1,0x10,0x33,0x89,0x3c,0xa2,0x90,0x28,0x22,0xca,0x89,0x3a,0xa2,0x81,0x68,
-0x24,0xd6,0x12,0x1b,0x88,0x4d,0xc4,0x16,0x62,0x1b,0xb1,0x83,0xd8,0x45,0xec,0x26,
-0x9a,0x89,0xfd,0xc4,0x01,0xe2,0x20,0x71,0x88,0xf8,0x00,0x32,0x42,0x1c,0x25,0x8e,
-0x11,0xc7,0x89,0x93,0xc4,0x27,0x90,0x29,0xa2,0x85,0xb8,0x44,0x7c,0x49,0x5c,0x21,
-0xbe,0x82,0x80,0xfd,0xb8,0xfd,0x36,0x10,0xbb,0xfd,0x4e,0xfb,0x5d,0xf6,0xbb,0xee,
-0x77,0xdb,0xef,0xb1,0xdf,0x6b,0xbf,0xf7,0x7e,0xe2,0x7e,0xdf,0xfd,0xa4,0xfd,0x94,
-0xfd,0xb4,0xfd,0xf4,0xfd,0x21,0xfb,0x43,0xf7,0x87,0xed,0x67,0xed,0x8f,0xdf,0xcf,
-0xde,0xcf,0xd9,0x9f,0xba,0x3f,0x0d,0x23,0x7d,0x7f,0xe6,0x7e,0xde,0x7e,0xc1,0x7e,
-0xd1,0x7e,0xf1,0x1b,0x48,0xf6,0x2b,0xf7,0x1b,0xf7,0x37,0xed,0xef,0xd8,0x6f,0xde,
-0x3f,0xb4,0x7f,0x74,0xff,0xe4,0x7e,0xcb,0xfe,0xa5,0xfd,0xab,0xfb,0xf1,0x07,0x5c,
-0x0e,0x78,0x1d,0x20,0x1d,0xa0,0x1d,0xa0,0x1f,0x08,0x3b,0xc0,0x3a,0xc0,0x3e,0xc0,
-0x39,0x90,0x7e,0x40,0x70,0x40,0x7e,0x40,0x7d,0x40,0x77,0xc0,0x74,0xa0,0xe9,0x40,
-0xcb,0x81,0xb6,0x03,0x1d,0x07,0xba,0x0e,0x74,0x1f,0xe8,0x3f,0x30,0x7c,0x60,0xf4,
-0xc0,0xd8,0x81,0xc9,0x03,0x96,0x03,0xcb,0x07,0x56,0x0f,0xe0,0x7c,0xf0,0x3e,0x2e,
-0x3e,0x6e,0x3e,0x1e,0x3e,0x5e,0x3e,0xde,0xff,0x07,0x44,0x1f,0xf2,0x1f,0x25,0xd0,
-0x27,0xf4,0x4f,0x22,0xf2,0xaf,0x22,0xce,0x27,0xd9,0x27,0xed,0xef,0x08,0xf7,0x17,
-0x84,0x56,0x8a,0xfe,0x4c,0x14,0x10,0xed,0x2f,0xe8,0x7c,0x4c,0x3e,0x8d,0x3e,0x4d,
-0x3e,0x6d,0x3e,0x37,0xfe,0x28,0x7d,0x56,0xee,0x59,0x79,0x00,0x79,0xf4,0x67,0x31,
-0x01,0x79,0xfa,0x7b,0x99,0xf3,0x59,0xf4,0x79,0xe9,0x03,0x7c,0xed,0xac,0x10,0x7c,
-0x5d,0xad,0x78,0xfa,0xfa,0xfc,0x16,0x64,0xdf,0x40,0x2b,0xa1,0xbe,0x91,0x56,0xe2,
-0x7c,0x93,0x7f,0x15,0xd2,0x7c,0xb9,0xbe,0x42,0xdf,0xa2,0xbf,0x39,0x0a,0x5f,0xad,
-0x6f,0xb5,0x6f,0xfd,0x6f,0xd1,0xec,0xdb,0xee,0x7b,0xc3,0xb7,0xef,0xff,0x1a,0x03,
-0xbe,0xf7,0xd6,0x59,0xe7,0xef,0xc4,0x90,0xef,0xb0,0xef,0x88,0xef,0xa8,0xef,0x98,
-0xef,0xb8,0xef,0xa4,0xef,0x94,0xef,0xb4,0xaf,0xc5,0x77,0xc1,0x77,0xd9,0x77,0xd5,
-0xd7,0xf6,0xa0,0xc3,0x41,0x97,0x83,0x1e,0x07,0x89,0x07,0x49,0x07,0x69,0x07,0x43,
-0x0e,0x32,0x0e,0xb2,0x0f,0xa6,0x1f,0x14,0x1c,0x94,0x1e,0x54,0x1f,0x34,0x1d,0x6c,
-0x3a,0xd8,0x71,0xb0,0xff,0xe0,0xc8,0xc1,0xc9,0x83,0xf3,0x07,0x57,0x0e,0xe2,0xdf,
-0x71,0x7b,0xc7,0xf7,0x1d,0xfa,0x3b,0x8c,0x77,0x38,0xef,0xa4,0xbf,0xc3,0x7b,0x47,
-0xf4,0x8e,0xf4,0x1d,0xe5,0x3b,0xba,0x77,0x4c,0xef,0x34,0xbc,0xd3,0xf2,0x4e,0xd7,
-0x3b,0xfd,0xef,0x0c,0xbf,0x33,0xf6,0xce,0xd4,0x3b,0xf3,0xef,0x2c,0xbf,0x83,0xf3,
-0x73,0xf0,0x73,0xf3,0x23,0xfa,0x51,0xfc,0x42,0xfc,0x18,0x7e,0x6c,0xbf,0x74,0x3f,
-0x81,0x9f,0xd4,0x4f,0xed,0x67,0xf2,0x6b,0xf2,0xeb,0xf0,0x33,0xfb,0x0d,0xf9,0x8d,
-0xfa,0x4d,0xfa,0x59,0xfc,0x96,0xfc,0x56,0xfd,0xf0,0x24,0x17,0x92,0x17,0x89,0x44,
-0xa2,0x93,0x22,0x48,0xf1,0xa4,0x54,0x52,0x3a,0x29,0x93,0xc4,0x23,0x09,0x48,0x22,
-0x92,0x84,0x24,0x25,0xc9,0x49,0x4a,0x92,0x9a,0xa4,0x23,0x19,0x49,0x26,0x52,0x2d,
-0xa9,0x81,0xd4,0x44,0x6a,0x21,0xb5,0x91,0x3a,0x48,0x5d,0xa4,0x6e,0x92,0x99,0xd4,
-0x4f,0x1a,0x24,0x0d,0x91,0x86,0x49,0x23,0xa4,0x51,0xd2,0x18,0x69,0x9c,0x34,0x49,
-0x9a,0x22,0x4d,0x93,0x2c,0xa4,0x79,0xd2,0x02,0x69,0x89,0xb4,0x4c,0x5a,0x21,0xad,
-0x92,0x70,0xfe,0xb6,0xfe,0x78,0x7f,0x07,0x7f,0x27,0x7f,0x17,0x7f,0x37,0x7f,0x0f,
-0x7f,0x2f,0x7f,0xa2,0xbf,0xaf,0x3f,0xc9,0x9f,0xfc,0x2b,0x40,0xf1,0x0f,0xfd,0x97,
-0x22,0xcc,0x9f,0xe5,0xcf,0xf6,0x4f,0xfb,0x17,0x82,0xbb,0xce,0x5f,0x05,0xcf,0x5f,
-0xe0,0x2f,0x5c,0xe7,0x5f,0x1e,0x91,0xbf,0x78,0x9d,0x75,0xfe,0x86,0x48,0xfc,0x8b,
-0xfe,0x29,0x90,0xfa,0xcb,0xfe,0x00,0x72,0x88,0xd2,0x5f,0xed,0xaf,0xf3,0x37,0xfa,
-0x9b,0xfc,0x6b,0xfd,0x1b,0xfc,0x9b,0xfc,0x5b,0xfc,0xdb,0xfc,0x3b,0xfc,0xbb,0xfc,
-0xbb,0xfd,0xcd,0xfe,0xfd,0xfe,0x83,0xfe,0x43,0xfe,0xc3,0xfe,0x23,0xfe,0xa3,0xfe,
-0x63,0xfe,0xe3,0xfe,0x93,0xfe,0x53,0xfe,0xd3,0xfe,0x16,0xff,0x79,0xff,0x05,0xff,
-0x25,0xff,0x65,0xff,0x15,0xff,0x55,0x7f,0x5c,0x80,0x6d,0x00,0x3e,0xc0,0x21,0xc0,
-0x29,0xc0,0x25,0xc0,0x2d,0xc0,0x23,0xc0,0x2b,0x80,0x18,0xe0,0x1b,0x40,0x0a,0xa0,
-0x04,0xd0,0x02,0xe8,0x01,0x21,0x01,0x61,0x01,0x11,0x01,0x8c,0x00,0x56,0x40,0x7c,
-0x00,0x3b,0x80,0x13,0x90,0x1a,0x90,0x1e,0x90,0x19,0xc0,0x0b,0x10,0x04,0x88,0x02,
-0x24,0x01,0xd2,0x00,0x79,0x80,0x32,0x40,0x1d,0xa0,0x0b,0x30,0x06,0x98,0x02,0x6a,
-0x03,0x1a,0x02,0x9a,0x02,0x5a,0x02,0xda,0x02,0x3a,0x02,0xba,0x02,0xba,0x03,0xcc,
-0x01,0xfd,0x01,0x83,0x01,0x43,0x01,0xc3,0x01,0x23,0x01,0xa3,0x01,0x63,0x01,0xe3,
-0x01,0x93,0x01,0x53,0x01,0xd3,0x01,0x96,0x80,0xf9,0x80,0x85,0x80,0xa5,0x80,0xe5,
-0x80,0x95,0x80,0xd5,0x00,0x1c,0xd9,0x96,0x8c,0x27,0x3b,0x90,0x9d,0xc8,0x2e,0x64,
-0x37,0xb2,0x07,0xd9,0x8b,0x4c,0x24,0xfb,0x92,0x49,0x64,0x0a,0x99,0x46,0xa6,0x93,
-0x43,0xc8,0x61,0xe4,0x08,0x32,0x83,0xcc,0x22,0xc7,0x93,0xd9,0x64,0x0e,0x39,0x95,
-0x9c,0x4e,0xce,0x24,0xf3,0xc8,0x02,0xb2,0x88,0x2c,0x21,0x4b,0xc9,0x72,0xb2,0x92,
-0xac,0x26,0xeb,0xc8,0x46,0xb2,0x89,0x5c,0x4b,0x6e,0x20,0x37,0x91,0x5b,0xc8,0x6d,
-0xe4,0x0e,0x72,0x17,0xb9,0x9b,0x6c,0x26,0xf7,0x93,0x07,0xc9,0x43,0xe4,0x61,0xf2,
-0x08,0x79,0x94,0x3c,0x46,0x1e,0x27,0x4f,0x92,0xa7,0xc8,0xd3,0x64,0x0b,0x79,0x9e,
-0xbc,0x40,0x5e,0x22,0x2f,0x93,0x57,0xc8,0xab,0x64,0x1c,0xc5,0x96,0x82,0xa7,0x38,
-0x50,0x9c,0x28,0x2e,0x14,0x37,0x8a,0x07,0xc5,0x8b,0x42,0xa4,0xf8,0x52,0x48,0x14,
-0x0a,0x85,0x46,0xa1,0x53,0x42,0x28,0x61,0x94,0x08,0x0a,0x83,0xc2,0xa2,0xc4,0x53,
-0xd8,0x14,0x0e,0x25,0x95,0x92,0x4e,0xc9,0xa4,0xf0,0x28,0x02,0x8a,0x88,0x22,0xa1,
-0x48,0x29,0x72,0x8a,0x92,0xa2,0xa6,0xe8,0x28,0x46,0x8a,0x89,0x52,0x4b,0x69,0xa0,
-0x34,0x51,0x5a,0x28,0x6d,0x94,0x0e,0x4a,0x17,0xa5,0x9b,0x62,0xa6,0xf4,0x53,0x06,
-0x29,0x43,0x94,0x61,0xca,0x08,0x65,0x94,0x32,0x46,0x79,0xfc,0x37,0x60,0x1c,0x32,
-0xf1,0x77,0x63,0x92,0xf2,0x84,0x32,0x45,0x99,0xa6,0x58,0x28,0x73,0x7f,0x02,0x8b,
-0x90,0x97,0x10,0xf0,0x2e,0x78,0xd7,0x0e,0x42,0x80,0xb8,0x42,0x3c,0x21,0x3e,0x10,
-0x32,0x24,0x10,0x12,0x0a,0x89,0xb4,0x12,0x07,0x49,0x86,0xa4,0xfd,0x16,0xdc,0x77,
-0x85,0x90,0xa2,0x77,0x15,0x10,0xed,0xbb,0xd5,0x90,0xfa,0x77,0x9b,0x21,0xed,0xef,
-0xde,0xf8,0xb3,0xe8,0x7b,0x83,0xfe,0x77,0x87,0xde,0x7d,0x00,0x19,0x7b,0x77,0xe2,
-0x0f,0xf2,0x14,0x32,0x07,0x59,0x84,0xbc,0x84,0x80,0x43,0xe0,0x90,0x1d,0x84,0x00,
-0x71,0x85,0x78,0x42,0x7c,0x20,0x64,0x48,0xa0,0x95,0x50,0x48,0x24,0x24,0xee,0xb7,
-0x48,0x3e,0x94,0x06,0xe1,0x1e,0x12,0x42,0x8a,0x0e,0x29,0x20,0xda,0x43,0xd5,0x90,
-0xfa,0x43,0xcd,0x7f,0x16,0xed,0x56,0x6e,0x1c,0xea,0x3b,0x74,0xef,0xd0,0x03,0x8c,
-0xb1,0x43,0x13,0x7f,0x07,0x26,0x0f,0x4d,0x1d,0x9a,0x3e,0x64,0x39,0x34,0x7f,0x68,
-0xe1,0xd0,0xd2,0xa1,0xe5,0x43,0x2b,0x87,0x56,0x0f,0xe1,0xa8,0xb6,0x54,0x3c,0xd5,
-0x81,0xea,0x44,0x75,0xa1,0xba,0x51,0x3d,0xa8,0x5e,0x54,0x22,0xd5,0x97,0x4a,0xa2,
-0x52,0xa8,0x34,0x2a,0x9d,0x1a,0x42,0x0d,0xa3,0x46,0x50,0x19,0x54,0x16,0x35,0x9e,
-0xca,0xa6,0x72,0xa8,0xa9,0xd4,0x74,0x6a,0x26,0x95,0x47,0x15,0x50,0x45,0x54,0x09,
-0x55,0x4a,0x95,0x53,0x95,0x54,0x35,0x55,0x47,0x35,0x52,0x4d,0xd4,0x5a,0x6a,0x03,
-0xb5,0x89,0xda,0x42,0x6d,0xa3,0x76,0x50,0xbb,0xa8,0xdd,0x54,0x33,0xb5,0x9f,0x3a,
-0x48,0x1d,0xa2,0x0e,0x53,0x47,0xa8,0xa3,0xd4,0x31,0xea,0x38,0x75,0x92,0x3a,0x45,
-0x9d,0xa6,0x5a,0xa8,0xf3,0xd4,0x05,0xea,0x12,0x75,0x99,0xba,0x42,0x5d,0xa5,0xe2,
-0x68,0xb6,0x34,0x3c,0xcd,0x81,0xe6,0x44,0x73,0xa1,0xb9,0xd1,0x3c,0x68,0x5e,0x34,
-0x22,0xcd,0x97,0x46,0xa2,0x51,0x68,0x34,0x1a,0x9d,0x16,0x42,0x0b,0xa3,0x45,0xd0,
-0x18,0x34,0x16,0x2d,0xce,0x4a,0x3c,0x8d,0x4d,0xe3,0xd0,0x52,0x69,0xe9,0xb4,0x4c,
-0x1a,0x8f,0x26,0xa0,0x89,0x68,0x12,0x9a,0x94,0x26,0xa7,0x29,0x69,0x6a,0x9a,0xf6,
-0x9f,0x1c,0x1d,0xa4,0x96,0xd6,0x42,0xeb,0xa2,0xf5,0xd3,0x86,0x69,0x63,0xb4,0x29,
-0xda,0x3c,0x6d,0x99,0x86,0x7b,0xcf,0xe1,0x3d,0xb7,0xf7,0x88,0xef,0x51,0xde,0x0b,
-0x7b,0x2f,0xfe,0xbd,0xf4,0xf7,0x44,0xef,0x29,0xdf,0x33,0xbd,0xd7,0xf2,0x5e,0xf7,
-0x7b,0x43,0xef,0x8d,0xbd,0x37,0xfd,0xde,0xd2,0x7b,0xb8,0xf7,0x9d,0xde,0xf7,0x7a,
-0x3f,0xe4,0xfd,0xa4,0xf7,0xd9,0xef,0xa7,0xbf,0x2f,0x78,0x5f,0xfa,0xbe,0xfa,0x7d,
-0xd3,0xfb,0x4d,0xef,0x77,0xbc,0x6f,0x7e,0x7f,0xe8,0xfd,0xd1,0xf7,0x27,0xdf,0xb7,
-0xbc,0xbf,0xf4,0xfe,0xea,0xfb,0xf8,0x40,0x97,0x40,0xaf,0x40,0x52,0x20,0x3d,0x30,
-0x22,0x30,0x3e,0x30,0x35,0x90,0x17,0x28,0x09,0x54,0x06,0x1a,0x03,0x1b,0x02,0xdb,
-0x02,0xbb,0x03,0x07,0x03,0x47,0x02,0xc7,0x03,0xa7,0x03,0x17,0x02,0x57,0x02,0x6d,
-0xe9,0x78,0xba,0x03,0xdd,0x89,0xee,0xfc,0x3b,0xb8,0xd0,0xbd,0xe8,0xbe,0x74,0x0a,
-0x9d,0x4e,0x0f,0xa3,0x33,0xe8,0xf1,0x74,0x0e,0x3d,0x9d,0xce,0xa3,0x8b,0xe8,0x52,
-0xba,0x92,0xae,0xa3,0x9b,0xe8,0x0d,0xf4,0x26,0x7a,0x0b,0xbd,0x8d,0xde,0x41,0xef,
-0xa2,0x77,0xd3,0xcd,0xf4,0x7e,0xfa,0x20,0x7d,0x88,0x3e,0x4c,0x1f,0xa1,0x8f,0xd2,
-0xc7,0xe8,0x93,0xf4,0x69,0xfa,0x3c,0x7d,0x89,0xbe,0x42,0xc7,0x05,0xe1,0x83,0x9c,
-0x82,0xdc,0x82,0xbc,0x82,0x7c,0x83,0x28,0x41,0xf4,0xa0,0xb0,0x20,0x76,0x50,0x66,
-0x10,0x3f,0x48,0x10,0x24,0x0a,0x92,0x04,0x49,0x83,0xe4,0x41,0xca,0x20,0x75,0x90,
-0x2e,0xc8,0x18,0x64,0x0a,0xaa,0x0d,0x6a,0x08,0x6a,0x0a,0x6a,0x09,0x6a,0x0b,0xea,
-0x08,0xea,0x0a,0xea,0x0e,0x32,0x07,0xf5,0x07,0x0d,0x06,0x0d,0x05,0x0d,0x07,0x8d,
-0x04,0x8d,0x06,0x8d,0x05,0x8d,0x07,0x4d,0x06,0x4d,0x05,0x4d,0x07,0x59,0x82,0xe6,
-0x83,0x16,0x82,0x96,0x82,0x96,0x83,0x56,0x82,0x56,0x83,0x70,0x87,0x6d,0x0f,0xe3,
-0x0f,0x3b,0x1c,0x76,0x3a,0xec,0x72,0xd8,0xed,0xb0,0xc7,0x61,0xaf,0xc3,0xc4,0xc3,
-0xbe,0x87,0x49,0x87,0x29,0x87,0xe9,0x87,0xc3,0x0e,0x33,0x0e,0xc7,0x1f,0xe6,0x1c,
-0x4e,0x3f,0xcc,0x3b,0x2c,0x3a,0x2c,0x3d,0xac,0x3c,0xac,0x3b,0x6c,0x3a,0xdc,0x70,
-0xb8,0xe5,0x70,0xc7,0xe1,0xee,0xc3,0xfd,0x87,0x87,0x0e,0x8f,0x1c,0x1e,0x3b,0x3c,
-0x79,0x78,0xfa,0xf0,0xfc,0xe1,0xa5,0xc3,0xab,0x87,0xf1,0xc1,0x2e,0xc1,0x1e,0xc1,
-0xbe,0xc1,0x94,0xe0,0x90,0xe0,0xb0,0xe0,0x88,0x60,0x46,0x30,0x2b,0x38,0x3e,0x98,
-0x1d,0xcc,0x09,0x4e,0x0d,0x4e,0x0f,0xce,0x0c,0xe6,0x05,0x0b,0x82,0x45,0xc1,0x92,
-0x60,0x69,0xb0,0x3c,0x58,0x19,0xac,0x0e,0xd6,0x05,0x1b,0x83,0x4d,0xc1,0xb5,0xc1,
-0x0d,0xc1,0x4d,0xc1,0x2d,0xc1,0x6d,0xc1,0x1d,0xc1,0x5d,0xc1,0xdd,0xc1,0xe6,0xe0,
-0xfe,0xe0,0xc1,0xe0,0xa1,0xe0,0xe1,0xe0,0x91,0xe0,0xd1,0xe0,0xb1,0xe0,0xf1,0xe0,
-0xc9,0xe0,0xa9,0xe0,0xe9,0x60,0x4b,0xf0,0x7c,0xf0,0x42,0xf0,0x52,0xf0,0x72,0xf0,
-0x4a,0x30,0x2e,0x04,0x17,0xe2,0x12,0x42,0x0c,0xa1,0x87,0x44,0x84,0x70,0x42,0x32,
-0x43,0x44,0x21,0xba,0x90,0x86,0x90,0xb6,0x90,0xee,0x90,0xc1,0x90,0xd1,0x90,0xa9,
-0x90,0x85,0x90,0xd5,0x10,0x87,0x0f,0x3c,0x3e,0x20,0x7d,0x10,0xf1,0x01,0xeb,0x83,
-0xcc,0x0f,0xe4,0x1f,0x98,0x3e,0x68,0xf9,0xa0,0xff,0x83,0xb1,0x0f,0xa6,0x3f,0x58,
-0xf8,0x60,0xe5,0x03,0xfc,0x87,0x6e,0x1f,0x92,0x3e,0x0c,0xfb,0x90,0xf5,0x21,0xe7,
-0x43,0xde,0x87,0x92,0x0f,0x95,0x1f,0xea,0x3e,0x34,0x7d,0xd8,0xf4,0x61,0xc7,0x87,
-0x43,0x1f,0x8e,0x7d,0x68,0xf9,0x70,0xf5,0x43,0x87,0x50,0xb7,0x50,0x62,0x68,0x48,
-0x28,0x2b,0x34,0x33,0x54,0x14,0xaa,0x0e,0x35,0x85,0xb6,0x84,0x76,0x85,0x0e,0x86,
-0x8e,0x85,0x4e,0x87,0x2e,0x87,0xda,0x86,0x39,0x84,0x79,0x85,0x91,0xc2,0xe8,0x61,
-0x8c,0x30,0x76,0x58,0x7a,0x98,0x20,0x4c,0x19,0x66,0x0a,0x6b,0x08,0xeb,0x0e,0x1b,
-0x0c,0x1b,0x0b,0x9b,0x0e,0x5b,0x0a,0x5b,0x0d,0xc3,0x1f,0x71,0x3b,0xe2,0x75,0x84,
-0x72,0x24,0xe2,0x08,0xeb,0x48,0xe6,0x11,0xd1,0x11,0xe9,0x11,0xe5,0x11,0xdd,0x11,
-0xd3,0x91,0x86,0x23,0x2d,0x47,0x3a,0x8e,0x74,0x1f,0xe9,0x3f,0x32,0x74,0x64,0xf4,
-0xc8,0xe4,0x11,0xcb,0x91,0xa5,0x23,0xab,0x47,0xf0,0x47,0x5d,0x8e,0x7a,0x1d,0x25,
-0x1d,0xa5,0x1f,0x8d,0x38,0x1a,0x7f,0x34,0xf5,0x28,0xef,0xa8,0xe4,0xa8,0xf2,0xa8,
-0xee,0xa8,0xe9,0x68,0xd3,0xd1,0xb6,0xa3,0x5d,0x47,0xcd,0x47,0x87,0x8e,0x8e,0x1e,
-0x1d,0x3f,0x3a,0x75,0xd4,0x72,0x74,0xe1,0xe8,0xf2,0x51,0xdb,0x70,0x87,0x70,0x97,
-0x70,0x8f,0x70,0x62,0x38,0x29,0x9c,0x16,0x1e,0x12,0x1e,0x11,0x1e,0x1f,0x9e,0x1e,
-0xce,0x0b,0x17,0x85,0x4b,0xc3,0x95,0xe1,0xba,0x70,0x53,0x78,0x43,0x78,0x5b,0x78,
-0x77,0xf8,0x60,0xf8,0x48,0xf8,0x58,0xf8,0x64,0xf8,0x74,0xf8,0x7c,0xf8,0x52,0xf8,
-0x4a,0x38,0x2e,0x02,0x1f,0xe1,0x14,0xe1,0x16,0x41,0x8c,0xa0,0x44,0xd0,0x23,0x22,
-0x22,0xe2,0x23,0x52,0x23,0x32,0x23,0x44,0x11,0xf2,0x08,0x63,0x44,0x6d,0x44,0x4b,
-0x44,0x57,0x44,0x7f,0xc4,0x70,0xc4,0x64,0xc4,0x52,0xc4,0x4a,0x04,0xee,0x18,0xfe,
-0x98,0xd3,0x31,0xb7,0x63,0x5e,0xc7,0x7c,0x8f,0x51,0x8e,0xd1,0x8f,0x85,0x1d,0x63,
-0x1c,0x8b,0x3f,0xc6,0x39,0x96,0x7e,0x8c,0x77,0x4c,0x74,0x4c,0x7a,0x4c,0x79,0xcc,
-0x74,0xac,0xe1,0x58,0xcb,0xb1,0x8e,0x63,0xfd,0xc7,0x86,0x8f,0x8d,0x1e,0x1b,0x3f,
-0x36,0x75,0xcc,0x72,0x6c,0xe1,0xd8,0xf2,0xb1,0xd5,0x63,0xb6,0xc7,0x1d,0x8e,0xbb,
-0x1c,0xf7,0x3a,0xee,0x7b,0x9c,0x72,0x3c,0xe4,0x38,0xe3,0x78,0xfc,0xf1,0xf4,0xe3,
-0x82,0xe3,0x92,0xe3,0xf2,0xe3,0xea,0xe3,0xc6,0xe3,0x0d,0xc7,0xdb,0x8e,0x77,0x1d,
-0x37,0x1f,0x1f,0x3c,0x3e,0x7c,0x7c,0xf4,0xf8,0xf8,0xf1,0xa9,0xe3,0x96,0xe3,0x0b,
-0xc7,0x57,0x8e,0xdb,0x46,0x3a,0x45,0x7a,0x44,0xfa,0x46,0xd2,0x22,0xc3,0x22,0x59,
-0x91,0x9c,0xc8,0xcc,0x48,0x51,0xa4,0x3c,0x52,0x17,0x59,0x1b,0xd9,0x12,0xd9,0x15,
-0xd9,0x1f,0x39,0x1c,0x39,0x16,0x39,0x15,0x39,0x1f,0xb9,0x1c,0x09,0x18,0xeb,0xfc,
-0x65,0xe0,0x18,0xb6,0x0c,0xbb,0x75,0xfe,0x09,0xc0,0x33,0xec,0xff,0xed,0x71,0x60,
-0x38,0x31,0x5c,0x18,0xae,0x56,0xdc,0x18,0x1e,0x0c,0xcf,0x7f,0x09,0xbc,0x18,0x44,
-0x86,0x2f,0x83,0xc4,0x20,0xff,0x1f,0x50,0x18,0xd4,0x75,0xfe,0x2c,0x02,0x19,0xc1,
-0x8c,0x50,0x46,0x38,0x23,0x92,0xc1,0x64,0xc4,0x31,0x92,0x18,0xc9,0x8c,0x14,0x46,
-0x1a,0x23,0x83,0xc1,0x65,0xf0,0x19,0x42,0x86,0x98,0x51,0xc4,0x90,0x31,0x14,0x0c,
-0x15,0x43,0xcb,0x30,0x30,0xaa,0x19,0x35,0x8c,0x7a,0x46,0x23,0xa3,0x99,0xd1,0xca,
-0x68,0x67,0x74,0x32,0x6e,0x30,0x7a,0x19,0x7d,0x8c,0x01,0xc6,0x3d,0xc6,0x7d,0xc6,
-0x03,0xc6,0x43,0xc6,0x23,0xc6,0x63,0xc6,0x04,0xe3,0x09,0xe3,0x29,0x63,0x86,0x31,
-0xc7,0x78,0xce,0x58,0x64,0xbc,0x60,0xbc,0x64,0xbc,0x62,0x80,0x28,0x9b,0x28,0xbb,
-0x28,0xfb,0x28,0x42,0x94,0x73,0x94,0x6b,0x94,0x7b,0x94,0x67,0x94,0x77,0x94,0x4f,
-0x94,0x5f,0x14,0x39,0x8a,0x1a,0x15,0x18,0x15,0x1c,0x15,0x1a,0x15,0x1e,0x15,0x19,
-0xc5,0x8c,0x8a,0x8b,0x4a,0x8a,0x4a,0x8e,0x4a,0x89,0x4a,0x8b,0xca,0x88,0xe2,0x46,
-0xf1,0xa3,0x84,0x51,0xe2,0xa8,0xa2,0x28,0x59,0x94,0x22,0x4a,0x15,0xa5,0x8d,0x32,
-0x44,0x55,0x47,0xd5,0x44,0xd5,0x47,0x35,0x46,0x35,0x47,0xb5,0x46,0xb5,0x47,0x75,
-0x46,0xdd,0x88,0xea,0x8d,0xea,0x8b,0x1a,0x88,0xba,0x17,0x75,0x3f,0xea,0x41,0xd4,
-0xc3,0xa8,0x47,0x51,0x8f,0xa3,0x26,0xa2,0x9e,0x44,0x3d,0x8d,0x9a,0x89,0x9a,0x8b,
-0x7a,0x1e,0xb5,0x18,0xf5,0x22,0xea,0x65,0xd4,0xab,0x28,0x10,0x6d,0x13,0x6d,0x17,
-0x6d,0x1f,0x4d,0x88,0x76,0x8e,0x76,0x8d,0x76,0x8f,0xf6,0x8c,0xf6,0x8e,0xf6,0x89,
-0xf6,0x8b,0x26,0x47,0x53,0xa3,0x03,0xa3,0x83,0xa3,0x43,0xa3,0xc3,0xa3,0x23,0xa3,
-0x99,0xd1,0x71,0xd1,0x49,0xd1,0xc9,0xd1,0x29,0xd1,0x69,0xd1,0x19,0xd1,0xdc,0x68,
-0x7e,0xb4,0x30,0x5a,0x1c,0x5d,0x14,0x2d,0x8b,0x56,0x44,0xab,0xa2,0xb5,0xd1,0x86,
-0xe8,0xea,0xe8,0x9a,0xe8,0xfa,0xe8,0xc6,0xe8,0xe6,0xe8,0xd6,0xe8,0xf6,0xe8,0xce,
-0xe8,0x1b,0xd1,0xbd,0xd1,0x7d,0xd1,0x03,0xd1,0xf7,0xa2,0xef,0x47,0x3f,0x88,0x7e,
-0x18,0xfd,0x28,0xfa,0x71,0xf4,0x44,0xf4,0x93,0xe8,0xa7,0xd1,0x33,0xd1,0x73,0xd1,
-0xcf,0xa3,0x17,0xa3,0x5f,0x44,0xbf,0x8c,0x7e,0x15,0x0d,0x98,0x36,0x4c,0x3b,0xa6,
-0x3d,0x93,0xc0,0x74,0x66,0xba,0x32,0xdd,0x99,0x9e,0x4c,0x6f,0xa6,0x0f,0xd3,0x8f,
-0x49,0x66,0x52,0x99,0x81,0xcc,0x60,0x66,0x28,0x33,0x9c,0x19,0xc9,0x64,0x32,0xe3,
-0x98,0x49,0xcc,0x64,0x66,0x0a,0x33,0x8d,0x99,0xc1,0xe4,0x32,0xf9,0x4c,0x21,0x53,
-0xcc,0x2c,0x62,0xca,0x98,0x0a,0xa6,0x8a,0xa9,0x65,0x1a,0x98,0xd5,0xcc,0x1a,0x66,
-0x3d,0xb3,0x91,0xd9,0xcc,0x6c,0x65,0xb6,0x33,0x3b,0x99,0x37,0x98,0xbd,0xcc,0x3e,
-0xe6,0x00,0xf3,0x1e,0xf3,0x3e,0xf3,0x01,0xf3,0x21,0xf3,0x11,0xf3,0x31,0x73,0x82,
-0xf9,0x84,0xf9,0x94,0x39,0xc3,0x9c,0x63,0x3e,0x67,0x2e,0x32,0x5f,0x30,0x5f,0x32,
-0x5f,0x31,0x01,0xcb,0x86,0x65,0xc7,0xb2,0x67,0x11,0x58,0xce,0x2c,0x57,0x96,0x3b,
-0xcb,0x93,0xe5,0xcd,0xf2,0x61,0xf9,0xb1,0xc8,0x2c,0xf8,0x85,0x8b,0x15,0xc8,0x0a,
-0x66,0x85,0xb2,0xc2,0x59,0x91,0x2c,0x26,0x2b,0x8e,0x95,0xc4,0x4a,0x66,0xa5,0xb0,
-0xd2,0x58,0x19,0x2c,0x2e,0x8b,0x6f,0x45,0x08,0x11,0x5b,0x29,0x62,0xc9,0x58,0x0a,
-0x96,0x8a,0xa5,0x65,0x19,0x58,0xd5,0xac,0x1a,0x56,0x3d,0xab,0x11,0xd2,0x0c,0x69,
-0xb5,0xd2,0xce,0xea,0xc4,0xb8,0xc1,0xea,0x65,0xf5,0xb1,0x06,0x58,0xf7,0x58,0xf7,
-0x59,0x0f,0x58,0x0f,0x59,0x8f,0x58,0x8f,0x59,0x13,0xac,0x27,0xac,0xa7,0xac,0x19,
-0xd6,0x1c,0xeb,0x39,0x6b,0x91,0xf5,0x82,0xf5,0x92,0xf5,0x8a,0x05,0x62,0x6c,0x62,
-0xec,0x62,0xec,0x63,0x08,0x31,0xce,0x31,0xae,0x31,0xee,0x31,0x9e,0x31,0xde,0x31,
-0x3e,0x31,0x7e,0x31,0xe4,0x18,0x6a,0x4c,0x60,0x4c,0x70,0x4c,0x68,0x4c,0x78,0x4c,
-0x64,0x0c,0x33,0x26,0x2e,0x26,0x29,0x26,0x39,0x26,0x25,0x26,0x2d,0x26,0x23,0x86,
-0x1b,0xc3,0x8f,0x11,0xc6,0x88,0x63,0x8a,0x62,0x64,0x31,0x8a,0x18,0x55,0x8c,0x36,
-0xc6,0x10,0x53,0x1d,0x53,0x13,0x53,0x1f,0xd3,0x18,0xd3,0x1c,0xd3,0x1a,0xd3,0x1e,
-0xd3,0x19,0x73,0x23,0xa6,0x37,0xa6,0x2f,0x66,0xc0,0xca,0xbd,0x98,0xfb,0x31,0x0f,
-0x62,0x1e,0xc6,0x3c,0x8a,0x79,0x1c,0x33,0x11,0xf3,0x24,0xe6,0x69,0xcc,0x4c,0xcc,
-0x5c,0xcc,0xf3,0x98,0xc5,0x98,0x17,0x31,0x2f,0x63,0x5e,0xc5,0x80,0x58,0x9b,0x58,
-0xbb,0x58,0xfb,0x58,0x42,0xac,0x73,0xac,0x6b,0xac,0x7b,0xac,0x67,0xac,0x77,0xac,
-0x4f,0xac,0x5f,0x2c,0x39,0x96,0x1a,0x1b,0x18,0x1b,0x1c,0x1b,0x1a,0x1b,0x1e,0x1b,
-0x19,0xcb,0x8c,0x8d,0x8b,0x4d,0x8a,0x4d,0x8e,0x4d,0x89,0x4d,0x8b,0xcd,0x88,0xe5,
-0xc6,0xf2,0x63,0x85,0xb1,0xe2,0xd8,0xa2,0x58,0x59,0xac,0x22,0x56,0x15,0xab,0x8d,
-0x35,0xc4,0x56,0xc7,0xd6,0xc4,0xd6,0xc7,0x36,0xc6,0x36,0xc7,0xb6,0xc6,0xb6,0xc7,
-0x76,0xc6,0xde,0x88,0xed,0x8d,0xed,0x8b,0x1d,0x88,0xbd,0x17,0x7b,0x3f,0xf6,0x41,
-0xec,0xc3,0xd8,0x47,0xb1,0x8f,0x63,0x27,0x62,0x9f,0xc4,0x3e,0x8d,0x9d,0x89,0x9d,
-0x8b,0x7d,0x1e,0xbb,0x18,0xfb,0x22,0xf6,0x65,0xec,0xab,0x58,0x10,0x67,0x13,0x67,
-0x17,0x67,0x1f,0x47,0x88,0x73,0x8e,0x73,0x8d,0x73,0x8f,0xf3,0x8c,0xf3,0x8e,0xf3,
-0x89,0xf3,0x8b,0x23,0xc7,0x51,0xe3,0x02,0xe3,0x82,0xe3,0x42,0xe3,0xc2,0xe3,0x22,
-0xe3,0x98,0x71,0x71,0x71,0x49,0x71,0xc9,0x71,0x29,0x71,0x69,0x71,0x19,0xbf,0x22,
-0x99,0x10,0x41,0x9c,0x24,0x4e,0x1e,0xa7,0x8b,0xab,0x8d,0x6b,0x8a,0x6b,0xfd,0x03,
-0xb4,0xc5,0x75,0xc5,0x99,0xe3,0x06,0xe3,0x86,0xe3,0x1e,0xbe,0xc1,0x63,0xc8,0x54,
-0xdc,0x74,0x9c,0x25,0x6e,0x3e,0x6e,0x21,0x6e,0x29,0x6e,0x39,0x6e,0x25,0x6e,0x35,
-0x0e,0x17,0x6f,0x13,0x6f,0x1f,0xef,0x1c,0xef,0x19,0xef,0x17,0x4f,0x8d,0x0f,0x8e,
-0x0f,0x8f,0x67,0xc6,0x27,0xc5,0xa7,0xc4,0x67,0xc4,0xf3,0xe3,0xc5,0x10,0x59,0xbc,
-0x2a,0xde,0x10,0x5f,0x13,0xdf,0x08,0x69,0x85,0x74,0xc6,0xf7,0x42,0x06,0xe2,0xef,
-0x43,0x1e,0xc6,0x3f,0x8e,0x7f,0x12,0x3f,0x13,0xff,0x3c,0xfe,0x45,0xfc,0xab,0x78,
-0x9b,0x04,0x87,0x04,0x97,0x04,0xb7,0x04,0x8f,0x04,0xaf,0x04,0x62,0x82,0x6f,0x02,
-0x29,0x81,0x92,0x40,0x4b,0xa0,0x27,0x84,0x24,0x84,0x25,0x44,0x24,0x30,0x12,0x58,
-0x09,0xf1,0x09,0xec,0x04,0x4e,0x42,0x6a,0x42,0x7a,0x42,0x66,0x02,0x2f,0x41,0x90,
-0x20,0x4a,0x90,0x24,0x48,0x13,0xe4,0x09,0xca,0x04,0x75,0x82,0x2e,0xc1,0x98,0x60,
-0x4a,0xa8,0x4d,0x68,0x48,0x68,0x4a,0x68,0x49,0x68,0x4b,0xe8,0x48,0xe8,0x4a,0xe8,
-0x4e,0x30,0x27,0xf4,0x27,0x0c,0x26,0x0c,0x25,0x0c,0x27,0x8c,0x24,0x8c,0x26,0x8c,
-0x25,0x8c,0x27,0x4c,0x26,0x4c,0x25,0x4c,0x27,0x58,0x12,0xe6,0x13,0x16,0x12,0x96,
-0x12,0x96,0x13,0x56,0x12,0x56,0x13,0x70,0x89,0xb6,0x89,0xf8,0x44,0x87,0x44,0xa7,
-0x44,0x97,0x44,0xb7,0x44,0x8f,0x44,0xaf,0x44,0x62,0xa2,0x6f,0x22,0x29,0x91,0x92,
-0x48,0x4b,0xa4,0x27,0x86,0x24,0x86,0x25,0x46,0x24,0x32,0x12,0x59,0x89,0xf1,0x89,
-0xec,0x44,0x4e,0x62,0x6a,0x62,0x7a,0x62,0x66,0xa2,0x20,0x51,0x92,0x28,0x4d,0x94,
-0x27,0x2a,0x13,0xd5,0x89,0xba,0x44,0x63,0xa2,0x29,0xb1,0x36,0xb1,0x21,0xb1,0x29,
-0xb1,0x2d,0xb1,0xf3,0xaf,0xa6,0x2b,0xb1,0x3b,0xd1,0x9c,0xd8,0x9f,0x38,0x98,0x38,
-0x94,0x38,0x9c,0x38,0x92,0x38,0x9a,0x38,0x96,0x38,0x9e,0x38,0x95,0x38,0x9d,0x68,
-0x49,0x9c,0x4f,0x5c,0x48,0x5c,0x4a,0x5c,0x4e,0x5c,0x49,0x5c,0x4d,0xc4,0x25,0xd9,
-0x26,0xe1,0x93,0x1c,0x92,0xdc,0x92,0x88,0x49,0x94,0xa4,0x90,0x24,0x46,0x12,0x3b,
-0x29,0x3d,0x49,0x90,0x24,0x4d,0x52,0x27,0x99,0x92,0x9a,0x92,0x3a,0x92,0xcc,0x49,
-0x43,0x49,0xa3,0x49,0x93,0x49,0x96,0xa4,0xf9,0xa4,0x85,0xa4,0xa5,0xa4,0x65,0x08,
-0x8e,0xed,0xc0,0x76,0x63,0x13,0xd9,0x14,0x36,0x9d,0x1d,0xc6,0x66,0xb0,0xe3,0xd9,
-0x1c,0x76,0x3a,0x9b,0xc7,0x16,0xb1,0xa5,0x6c,0x25,0x5b,0xc7,0x36,0xb1,0x1b,0xd8,
-0x2d,0xec,0x0e,0x76,0x37,0xbb,0x9f,0x3d,0xc4,0x1e,0x61,0x8f,0xb1,0x27,0xd9,0xd3,
-0xec,0x79,0xf6,0x12,0x7b,0x85,0x8d,0x3b,0x81,0x3f,0xe1,0x74,0xc2,0xed,0x84,0xd7,
-0x09,0xdf,0x13,0x94,0x13,0xf4,0x13,0x61,0x27,0x18,0x27,0xe2,0x4f,0x70,0x4e,0xa4,
-0x9f,0xe0,0x9d,0x10,0x9d,0x90,0x9e,0x50,0x9e,0xd0,0x9d,0x30,0x9d,0x68,0x38,0xd1,
-0x72,0xa2,0xe3,0x44,0xf7,0x89,0xfe,0x13,0x43,0x27,0x46,0x4e,0x8c,0x9d,0x98,0x3c,
-0x31,0x7d,0x62,0xfe,0xc4,0xd2,0x89,0x95,0x13,0xb8,0x93,0xf8,0x93,0x4e,0x27,0xdd,
-0x4e,0x7a,0x9d,0xf4,0x3d,0x49,0x39,0x49,0x3f,0x19,0x76,0x92,0x71,0x32,0xfe,0x24,
-0xe7,0x64,0xfa,0x49,0xde,0x49,0xd1,0x49,0xe9,0x49,0xe5,0x49,0xdd,0x49,0xd3,0xc9,
-0x86,0x93,0x2d,0x27,0x3b,0x4e,0x76,0x9f,0xec,0x3f,0x39,0x74,0x72,0xe4,0xe4,0xd8,
-0xc9,0xc9,0x93,0xd3,0x27,0xe7,0x4f,0x2e,0x9d,0x5c,0x39,0x69,0x9b,0xec,0x94,0xec,
-0x91,0xec,0x9b,0x4c,0x4b,0x0e,0x4b,0x66,0x25,0x73,0x92,0x33,0x93,0x45,0xc9,0xf2,
-0x64,0x5d,0xb2,0x29,0xb9,0x21,0xb9,0x25,0xb9,0x23,0xb9,0x3b,0xb9,0x3f,0x79,0x28,
-0x79,0x24,0x79,0x2c,0x79,0x32,0x79,0x3a,0x79,0x3e,0x79,0x29,0x79,0x25,0x19,0xc7,
-0xc1,0x73,0x9c,0x38,0x6e,0x1c,0x2f,0x8e,0x2f,0x87,0xc2,0xa1,0x73,0xc2,0x38,0x0c,
-0x4e,0x3c,0x87,0xc3,0x49,0xe7,0xf0,0x38,0x22,0x8e,0x94,0xa3,0xe4,0xe8,0x38,0x26,
-0x4e,0x03,0xa7,0x85,0xd3,0xc1,0xe9,0xe6,0xf4,0x73,0x86,0x38,0x23,0x9c,0x31,0xce,
-0x24,0x67,0x9a,0x33,0xcf,0x59,0xe2,0xac,0x72,0xf0,0xa7,0x5c,0x4e,0x79,0x9d,0x22,
-0x9d,0xa2,0x9d,0x0a,0x39,0x15,0x71,0x8a,0x75,0x8a,0x7d,0x2a,0xf5,0x54,0xe6,0x29,
-0xc1,0x29,0xc9,0x29,0xf9,0x29,0xf5,0x29,0xe3,0xa9,0xda,0x53,0x4d,0xa7,0xda,0x4e,
-0x75,0x9d,0x32,0x9f,0x1a,0x3c,0x35,0x7c,0x6a,0xf4,0xd4,0xf8,0xa9,0xa9,0x53,0x96,
-0x53,0x0b,0xa7,0x96,0x4f,0xad,0x9e,0xb2,0x3d,0xed,0x70,0xda,0xe5,0xb4,0xc7,0x69,
-0xe2,0x69,0xd2,0x69,0xda,0xe9,0x90,0xd3,0x11,0xa7,0x59,0xa7,0xd9,0xa7,0x53,0x4f,
-0x67,0x9e,0x16,0x9c,0x96,0x9c,0x96,0x9f,0x56,0x9f,0x36,0x9e,0xae,0x3d,0xdd,0x74,
-0xba,0xed,0x74,0xd7,0x69,0xf3,0xe9,0xc1,0xd3,0xc3,0xa7,0x47,0x4f,0x8f,0x9f,0x9e,
-0x3a,0x6d,0x39,0xbd,0x70,0x7a,0xf9,0xf4,0xea,0x69,0xdb,0x14,0x87,0x14,0x97,0x14,
-0x8f,0x14,0x62,0x0a,0x29,0x85,0x96,0x12,0x92,0x12,0x91,0x12,0x9f,0x92,0x9a,0x92,
-0x99,0x22,0x48,0x91,0xa4,0xc8,0x53,0xd4,0x29,0xc6,0x94,0xda,0x94,0xa6,0x94,0xb6,
-0x94,0xae,0x14,0x73,0xca,0x60,0xca,0x70,0xca,0x68,0xca,0x78,0xca,0x54,0x8a,0x25,
-0x65,0x29,0x65,0x35,0x05,0x9f,0xea,0x94,0xea,0x96,0xea,0x95,0xea,0x9b,0x4a,0x49,
-0xa5,0xa7,0x86,0xa5,0x32,0x52,0xe3,0x53,0x39,0xa9,0xe9,0x10,0x5e,0xaa,0x28,0x55,
-0x9a,0xaa,0x4c,0xd5,0xa5,0x9a,0x52,0x1b,0x52,0x5b,0x52,0x3b,0x52,0xbb,0x53,0xfb,
-0x53,0x87,0x52,0x47,0x52,0xc7,0x52,0x27,0x53,0xa7,0x53,0xe7,0x53,0x97,0x52,0x57,
-0x52,0x71,0x67,0xf0,0x67,0x9c,0xce,0xb8,0x9d,0xf1,0x3a,0xe3,0x7b,0x86,0x72,0x86,
-0x7e,0x26,0xec,0x0c,0xe3,0x4c,0xfc,0x19,0xce,0x99,0xf4,0x33,0xbc,0x33,0xa2,0x33,
-0xd2,0x33,0xca,0x33,0xba,0x33,0xa6,0x33,0x0d,0x67,0x5a,0xce,0x74,0x9c,0xe9,0x3e,
-0xd3,0x7f,0x66,0xe8,0xcc,0xc8,0x99,0xb1,0x33,0x93,0x67,0xa6,0xcf,0xcc,0x9f,0x59,
-0x3a,0xb3,0x72,0x06,0x77,0x16,0x7f,0xd6,0xe9,0xac,0xdb,0x59,0xaf,0xb3,0xbe,0x67,
-0x29,0x67,0xe9,0x67,0xc3,0xce,0x32,0xce,0xc6,0xfd,0x09,0xc4,0x9f,0x4d,0x3d,0xcb,
-0x3b,0x2b,0x39,0xab,0x3c,0x6b,0x3c,0xdb,0x70,0xb6,0xed,0x6c,0xf7,0xd9,0xc1,0xb3,
-0x23,0x67,0xc7,0xcf,0x4e,0x9f,0x5d,0x38,0xbb,0x72,0xd6,0x36,0xcd,0x29,0xcd,0x23,
-0xcd,0x37,0x8d,0x96,0x16,0x96,0xc6,0x4a,0xe3,0xa4,0x65,0xa6,0x89,0xd2,0xe4,0x69,
-0xba,0xb4,0xda,0xb4,0x96,0xb4,0xae,0xb4,0xfe,0xb4,0xe1,0xb4,0xb1,0xb4,0xa9,0xb4,
-0xf9,0xb4,0xe5,0x34,0x5c,0xba,0x43,0xba,0x5b,0x3a,0x31,0x9d,0x92,0x1e,0x92,0xce,
-0x48,0x67,0xa7,0xa7,0xa7,0x0b,0xd2,0xa5,0xe9,0xea,0x74,0x53,0x7a,0x53,0x7a,0x47,
-0xba,0x39,0x7d,0x28,0x7d,0x34,0x7d,0x32,0xdd,0x92,0xbe,0x94,0xbe,0x9a,0x8e,0xff,
-0xc8,0xe5,0x23,0xaf,0x8f,0x48,0x1f,0xd1,0x3f,0x8a,0xf8,0x28,0x0e,0x12,0xff,0x51,
-0xea,0x47,0xbc,0x8f,0x24,0x1f,0x29,0x3f,0x32,0x7e,0xd4,0xf0,0x51,0xdb,0x47,0xdd,
-0x1f,0x0d,0x7e,0x34,0xf2,0xd1,0xf8,0x47,0xd3,0x1f,0x2d,0x7c,0xb4,0xf2,0x91,0xed,
-0xc7,0x4e,0x1f,0x7b,0x7c,0xec,0xfb,0x31,0xed,0xe3,0xb0,0x8f,0x59,0x1f,0x73,0x3e,
-0xce,0xfc,0x58,0xf4,0xb1,0xfc,0x63,0xdd,0xc7,0xb5,0x1f,0xb7,0x7c,0xdc,0xf5,0x71,
-0xff,0xc7,0xc3,0x1f,0x8f,0x7d,0x3c,0xf5,0xf1,0xfc,0xc7,0xcb,0x1f,0xe3,0x32,0x1c,
-0x32,0xdc,0x32,0x88,0x19,0x94,0x8c,0x90,0x0c,0x46,0x06,0x3b,0x23,0x3d,0x43,0x90,
-0x21,0xcd,0x50,0x67,0x98,0x32,0x9a,0x32,0x3a,0x32,0xcc,0x19,0x43,0x19,0xa3,0x19,
-0x13,0xbf,0x32,0x93,0x19,0x96,0x8c,0xa5,0x0c,0x5c,0xa6,0x53,0xa6,0x57,0x26,0x25,
-0x33,0x2c,0x33,0x3e,0x33,0x3d,0x53,0x90,0x69,0xce,0x1c,0xcf,0x9c,0xf9,0x13,0xb1,
-0x64,0xce,0x67,0x2e,0x64,0x2e,0x65,0x2e,0x67,0xae,0x64,0xae,0x66,0xe2,0xb2,0x6c,
-0xb3,0xf0,0x59,0xce,0x7f,0x06,0x2e,0x59,0x1e,0x59,0x5e,0x59,0xc4,0x2c,0xdf,0x2c,
-0x52,0x16,0x25,0x8b,0x96,0x45,0xcf,0x0a,0xc9,0x0a,0xcb,0x8a,0xc8,0x62,0x64,0xb1,
-0xb2,0xe2,0xb3,0xd8,0x59,0x9c,0xac,0xd4,0xac,0xf4,0xac,0xcc,0x2c,0x5e,0x16,0x1f,
-0x22,0xc8,0x12,0x65,0x49,0xb2,0xe4,0x59,0xea,0x2c,0x63,0x56,0x6d,0x56,0x43,0x56,
-0x53,0x56,0x4b,0x56,0x5b,0x56,0x47,0x56,0x67,0x56,0x57,0x56,0x77,0x96,0x39,0xab,
-0x3f,0x6b,0x30,0x6b,0x28,0x6b,0x38,0x6b,0x24,0x6b,0x34,0x6b,0x2c,0x6b,0x3c,0x6b,
-0x32,0x6b,0x2a,0x6b,0x3a,0xcb,0x92,0x35,0x9f,0xb5,0x90,0xb5,0x94,0xb5,0x9c,0xf5,
-0x32,0x6b,0x25,0x6b,0x35,0x0b,0x77,0xce,0xf6,0x9c,0x1d,0x06,0xfe,0x9c,0xd3,0x39,
-0xb7,0x73,0x9e,0xe7,0xbc,0xce,0xf9,0x9c,0xf3,0x3d,0x47,0x39,0x47,0x3f,0x17,0x76,
-0x8e,0x71,0x2e,0xfe,0x1c,0xe7,0x5c,0xfa,0x39,0xde,0x39,0xd1,0x39,0xe9,0x39,0xf9,
-0x39,0xf5,0x39,0xe3,0xb9,0xda,0x73,0x4d,0xe7,0xda,0xce,0x75,0x9d,0x33,0x9f,0x1b,
-0x3c,0x37,0x7c,0x6e,0xf4,0xdc,0xf8,0xb9,0xa9,0x73,0xd3,0xe7,0x2c,0xe7,0xe6,0xcf,
-0x2d,0x9c,0x5b,0x3a,0xb7,0x7c,0x6e,0xe5,0xdc,0xea,0x39,0x1c,0xd7,0x96,0x8b,0xe7,
-0x3a,0x70,0x9d,0xb8,0x2e,0x5c,0x37,0xae,0x07,0xd7,0x8b,0x4b,0xe4,0xfa,0x72,0x49,
-0x5c,0x0a,0x97,0xc6,0xa5,0x73,0x43,0xb8,0x61,0xdc,0x08,0x2e,0x83,0xcb,0xe2,0xc6,
-0x73,0xd9,0x5c,0x0e,0x37,0x95,0x9b,0xce,0xcd,0xe4,0xf2,0xb8,0x02,0xae,0x88,0x2b,
-0xe1,0x4a,0xb9,0x72,0xae,0x92,0xab,0xe6,0xea,0xb8,0x46,0xae,0x89,0x5b,0xcb,0x6d,
-0xe0,0x36,0x71,0x5b,0xb8,0x6d,0xdc,0x0e,0x6e,0x17,0xb7,0x9b,0x6b,0xe6,0xf6,0x73,
-0x07,0xb9,0x43,0xdc,0x61,0xee,0x08,0x77,0x94,0x3b,0xc6,0x1d,0xe7,0x4e,0x72,0xa7,
-0xb8,0xd3,0x5c,0x0b,0x77,0x9e,0xbb,0xc0,0x5d,0xe2,0x2e,0x73,0x57,0xb8,0xab,0x5c,
-0x1c,0xcf,0x96,0x87,0xe7,0x39,0xf0,0x9c,0x78,0x2e,0x3c,0x37,0x9e,0x07,0xcf,0x8b,
-0x47,0xe4,0xf9,0xf2,0x48,0x3c,0x0a,0x8f,0xc6,0xa3,0xf3,0x42,0x78,0x61,0xbc,0x08,
-0x1e,0x83,0xc7,0xe2,0xc5,0xf3,0xd8,0x3c,0x0e,0x2f,0x95,0x97,0xce,0xcb,0xe4,0xf1,
-0x78,0x02,0x9e,0x88,0x27,0xe1,0x49,0x79,0x72,0x9e,0x8e,0x57,0xcb,0x6b,0xe1,0x75,
-0xf1,0xfa,0x79,0xc3,0xbc,0x51,0xde,0xe3,0x5f,0x18,0xe7,0x4d,0xf2,0xa6,0x78,0xd3,
-0x3c,0x0b,0x6f,0x9e,0xb7,0xc0,0x5b,0xe2,0x2d,0xf3,0x56,0x78,0xab,0x3c,0x5c,0xb6,
-0x6d,0x36,0x3e,0xdb,0x21,0xdb,0x29,0xdb,0x25,0xdb,0x2d,0xdb,0x23,0xdb,0x2b,0x9b,
-0x98,0xed,0x9b,0x4d,0xca,0xa6,0x64,0xd3,0xb2,0xe9,0xd9,0x21,0xd9,0x61,0xd9,0x11,
-0xd9,0x8c,0x6c,0x56,0x76,0x7c,0x36,0x3b,0x9b,0x93,0x9d,0x9a,0x9d,0x9e,0x9d,0x99,
-0xcd,0xcb,0x16,0x64,0x8b,0xb2,0x25,0xd9,0xd2,0x6c,0x79,0xb6,0x32,0x5b,0x9d,0xad,
-0xcb,0x36,0x66,0x9b,0xb2,0x6b,0xb3,0x1b,0xb2,0x9b,0xb2,0x5b,0xb2,0xdb,0xb2,0x3b,
-0xb2,0xbb,0xb2,0xbb,0xb3,0xcd,0xd9,0xfd,0xd9,0x83,0xd9,0x43,0xd9,0xc3,0xd9,0x23,
-0xd9,0xa3,0xd9,0x63,0xd9,0xe3,0xd9,0x93,0xd9,0x53,0xd9,0xd3,0xd9,0x96,0xec,0xf9,
-0xec,0x85,0xec,0xa5,0xec,0xe5,0xec,0x95,0xec,0xd5,0x6c,0x5c,0x8e,0x6d,0x0e,0x3e,
-0xc7,0x21,0xc7,0x29,0xc7,0x25,0xc7,0x2d,0xc7,0x23,0xc7,0x2b,0x87,0x98,0xe3,0x9b,
-0x43,0xca,0xa1,0xe4,0xd0,0x72,0xe8,0x39,0x21,0x39,0x61,0x39,0x11,0x39,0x8c,0x1c,
-0x56,0x4e,0x7c,0x0e,0x3b,0x87,0x93,0x93,0x9a,0x93,0x9e,0x93,0x99,0xc3,0xcb,0x11,
-0xe4,0x88,0x72,0x24,0x39,0xd2,0x1c,0x79,0x8e,0x32,0x47,0x9d,0xa3,0xcb,0x31,0xe6,
-0x98,0x72,0x6a,0x73,0x1a,0x72,0x9a,0x72,0x5a,0x72,0xda,0x72,0x3a,0x72,0xba,0x72,
-0xba,0x73,0xcc,0x39,0xfd,0x39,0x83,0x39,0x43,0x39,0xc3,0x39,0x23,0x39,0xa3,0x39,
-0x63,0x39,0xe3,0x39,0x93,0x39,0x53,0x39,0xd3,0x39,0x96,0x9c,0xf9,0x9c,0x85,0x9c,
-0xa5,0x9c,0xe5,0x9c,0x95,0x9c,0xd5,0x1c,0x1c,0xdf,0x96,0x8f,0xe7,0x3b,0xf0,0x9d,
-0xf8,0x2e,0x7c,0x37,0xbe,0x07,0xdf,0x8b,0x4f,0xe4,0xfb,0xf2,0x49,0x7c,0x0a,0x9f,
-0xc6,0xa7,0xf3,0x43,0xf8,0x61,0xfc,0x08,0x3e,0x03,0xbe,0x28,0xc7,0xf3,0xd9,0x7c,
-0x0e,0x3f,0x95,0x9f,0xce,0xcf,0xe4,0xf3,0xf8,0x02,0xbe,0x88,0x2f,0xe1,0x4b,0xf9,
-0x72,0xbe,0x92,0xaf,0xe6,0xeb,0xf8,0x46,0xbe,0x89,0x5f,0xcb,0x6f,0xe0,0x37,0xf1,
-0x5b,0xf8,0x6d,0xfc,0x0e,0x7e,0x17,0xbf,0x9b,0x6f,0xe6,0xf7,0xf3,0x07,0xf9,0x43,
-0xfc,0x61,0xfe,0x08,0xff,0xa1,0x95,0x51,0xfe,0x18,0x7f,0x9c,0x3f,0xc9,0x9f,0xe2,
-0x4f,0xf3,0x67,0x20,0x16,0xfe,0x3c,0x7f,0x81,0xbf,0xc4,0x5f,0xe6,0xaf,0xf0,0x5f,
-0x41,0x56,0xf9,0x38,0x81,0xad,0x00,0x2f,0x70,0x10,0x38,0x09,0x9c,0x21,0x2e,0x02,
-0x37,0x81,0x87,0xc0,0xd3,0x8a,0x97,0x80,0x28,0xf0,0x15,0x90,0x04,0x34,0x01,0x5d,
-0x10,0x22,0x08,0x15,0x84,0x09,0x22,0x04,0x0c,0x01,0x4b,0x10,0x2f,0x60,0x0b,0x38,
-0x82,0x94,0x75,0xfe,0x04,0x52,0x05,0xe9,0x82,0x4c,0x01,0x4f,0x20,0x10,0x08,0x05,
-0x22,0x81,0x44,0x20,0x15,0xc8,0x05,0x4a,0x81,0x5a,0xa0,0x13,0x18,0x05,0x26,0x41,
-0xad,0xa0,0x41,0xd0,0x24,0x68,0x11,0xb4,0x09,0x3a,0x04,0x5d,0x82,0x6e,0x81,0x59,
-0xd0,0x2f,0x18,0x14,0x0c,0x09,0x86,0x05,0x23,0x82,0x51,0xc1,0x98,0x60,0x5c,0x30,
-0x29,0x98,0x12,0x4c,0x0b,0x2c,0x82,0x79,0xc1,0x82,0x60,0x49,0xb0,0x2c,0x58,0x11,
-0xac,0x0a,0x70,0xe7,0x6d,0xcf,0xe3,0xcf,0x3b,0x9c,0x77,0x3a,0xef,0x72,0xde,0xf5,
-0xbc,0xdb,0x79,0x8f,0xf3,0x5e,0xe7,0x89,0xe7,0x7d,0xcf,0x93,0xce,0x53,0xce,0xd3,
-0xce,0xd3,0xcf,0x07,0xaf,0xf3,0x4f,0x4e,0x38,0x84,0xf9,0x3f,0x92,0xb4,0x8e,0x95,
-0x94,0xf3,0x19,0xeb,0xac,0xf3,0x17,0xc1,0x3f,0x2f,0x5e,0x67,0x9d,0x7f,0x61,0x64,
-0xe7,0x55,0x10,0xc3,0x3a,0xff,0xa6,0xd4,0x9c,0x6f,0xfc,0x37,0xa6,0x75,0x9d,0x75,
-0x7e,0x35,0x3a,0xcf,0xf7,0x9e,0xbf,0x77,0xfe,0xe1,0xf9,0x89,0xf3,0x33,0xe7,0x17,
-0xff,0xa9,0x78,0x79,0x1e,0xe4,0xda,0xe7,0xba,0xe6,0x7a,0xe7,0x92,0xd7,0x59,0xe7,
-0xff,0x22,0x14,0x08,0x2d,0x97,0x9e,0x1b,0x92,0x1b,0x96,0x1b,0x91,0xcb,0xc8,0x65,
-0xe5,0xc6,0xe7,0xb2,0x73,0x39,0xb9,0xa9,0xb9,0xe9,0xb9,0x99,0xb9,0xbc,0x5c,0x41,
-0xae,0x28,0x57,0x92,0x2b,0xcd,0x95,0xe7,0x2a,0x73,0xd5,0xb9,0xba,0x5c,0x63,0xae,
-0x29,0xb7,0x36,0xb7,0x21,0xb7,0x29,0xb7,0x25,0xb7,0x2d,0xb7,0x23,0xb7,0x2b,0xb7,
-0x3b,0xd7,0x9c,0xdb,0x9f,0x3b,0x98,0x3b,0x94,0x3b,0x9c,0x3b,0x92,0x3b,0x9a,0x3b,
-0x96,0x3b,0x9e,0x3b,0x99,0x3b,0x95,0x3b,0x9d,0x6b,0xc9,0x9d,0xcf,0x5d,0xc8,0x5d,
-0xca,0x5d,0xce,0x5d,0xc9,0x5d,0xcd,0xc5,0x09,0x6d,0x85,0x78,0xa1,0x83,0xd0,0x49,
-0xe8,0x22,0x74,0x13,0x7a,0x08,0xbd,0x84,0x44,0xa1,0xaf,0x90,0x24,0xa4,0x08,0x69,
-0x42,0xba,0x30,0x44,0x18,0x26,0x8c,0x10,0x32,0x84,0x2c,0x61,0xbc,0x90,0x2d,0xe4,
-0x08,0x53,0x85,0xe9,0xc2,0x4c,0x21,0x4f,0x28,0x10,0x8a,0x84,0x12,0xa1,0x54,0x28,
-0x17,0x2a,0x85,0x2a,0xa1,0x5a,0xa8,0x13,0x1a,0x85,0x26,0x61,0xad,0xb0,0x41,0xd8,
-0x24,0x6c,0x11,0xb6,0x09,0x3b,0x84,0x5d,0xc2,0x6e,0xa1,0x59,0xd8,0x2f,0x1c,0x14,
-0x0e,0x09,0x87,0x85,0x23,0xc2,0x51,0xe1,0x98,0x70,0x5c,0x38,0x29,0x9c,0x12,0x4e,
-0x0b,0x2d,0xc2,0x79,0xe1,0x82,0x70,0x49,0xb8,0x2c,0x5c,0x11,0xae,0x0a,0x71,0x22,
-0x5b,0x11,0x5e,0xe4,0x20,0x72,0x12,0xb9,0x88,0xdc,0x44,0x1e,0x22,0x2f,0x11,0x51,
-0xe4,0x2b,0x22,0x89,0x28,0x22,0x9a,0x88,0x2e,0x0a,0x11,0x85,0x89,0x22,0x44,0x0c,
-0x11,0x4b,0x14,0x2f,0x62,0x8b,0x38,0xa2,0x54,0x51,0xba,0x28,0x53,0xc4,0x13,0x09,
-0x44,0x22,0x91,0x44,0x24,0x15,0xc9,0x45,0x4a,0x91,0x5a,0xa4,0x13,0x19,0x45,0x26,
-0x51,0xad,0xa8,0x41,0xd4,0x24,0x6a,0x16,0xb5,0x88,0xda,0x44,0xed,0x90,0x0e,0x51,
-0x27,0xa4,0x4b,0xd4,0x2d,0xea,0x85,0x98,0x45,0xfd,0xa2,0x41,0xd1,0x90,0xe8,0xbe,
-0x68,0x58,0x34,0x22,0x1a,0x15,0x8d,0x89,0xc6,0x45,0x93,0xa2,0x29,0xd1,0xb4,0xc8,
-0x22,0x9a,0x17,0x2d,0x88,0x96,0x44,0x2f,0x44,0xcb,0xa2,0x97,0xa2,0x15,0xd1,0xaa,
-0x08,0x97,0x67,0x9b,0x87,0xcf,0x73,0xc8,0x73,0xca,0x73,0xce,0x73,0xc9,0x73,0xcb,
-0xf3,0xc8,0xf3,0xca,0x23,0xe6,0xf9,0xe6,0x91,0xf2,0x28,0x79,0xb4,0x3c,0x7a,0x5e,
-0x48,0x5e,0x58,0x5e,0x44,0x1e,0x23,0x8f,0x95,0x17,0x9f,0xc7,0xce,0xe3,0xe4,0xa5,
-0xe6,0xa5,0xe7,0x65,0xe6,0xf1,0xf2,0x04,0x79,0xa2,0x3c,0x49,0x9e,0x34,0x4f,0x9e,
-0xa7,0xcc,0x53,0xe7,0xe9,0xf2,0x8c,0x79,0xa6,0xbc,0xda,0xbc,0x86,0xbc,0xa6,0xbc,
-0x96,0xbc,0xb6,0xbc,0x8e,0xbc,0xae,0xbc,0xee,0x3c,0x73,0x5e,0x7f,0xde,0x60,0xde,
-0x50,0xde,0x70,0xde,0x48,0xde,0x68,0xde,0x58,0xde,0x78,0xde,0x64,0xde,0x54,0xde,
-0x74,0x9e,0x25,0x6f,0x3e,0x6f,0x21,0x6f,0x29,0x6f,0x39,0x6f,0x25,0x6f,0x35,0x0f,
-0x97,0x8f,0xcb,0xb7,0xcd,0xc7,0xe7,0x3b,0xe4,0x3b,0xe5,0xbb,0xe4,0xbb,0xe6,0xbb,
-0xe5,0x7b,0xe4,0x7b,0xe5,0x13,0xf3,0x7d,0x20,0xbe,0xf9,0xa4,0x7c,0x4a,0x3e,0x2d,
-0x9f,0x9e,0x1f,0x92,0x1f,0x96,0x1f,0x91,0x1f,0x99,0xcf,0xc8,0x67,0xe5,0xc7,0xe7,
-0xb3,0xf3,0x39,0xf9,0xa9,0xf9,0xe9,0xf9,0x19,0xf9,0x99,0xf9,0xbc,0x7c,0x41,0xbe,
-0x28,0x5f,0x92,0x2f,0xcd,0x97,0xe7,0x2b,0xf3,0xd5,0xf9,0xba,0x7c,0x63,0xbe,0x29,
-0xbf,0x36,0xbf,0x21,0xbf,0x29,0xbf,0x25,0xbf,0x2d,0xbf,0x23,0xbf,0x2b,0xbf,0x3b,
-0xdf,0x9c,0xdf,0x9f,0x3f,0x98,0x3f,0x94,0x3f,0x9c,0x3f,0x92,0x3f,0x9a,0x3f,0x96,
-0xff,0x38,0x7f,0x3c,0x7f,0x32,0x7f,0x2a,0x7f,0x3a,0x7f,0x26,0xdf,0x92,0x3f,0x9f,
-0xbf,0x90,0xbf,0x94,0xbf,0x9c,0xff,0x32,0x7f,0x25,0xff,0x95,0x95,0xd5,0x7c,0x9c,
-0xd8,0x56,0x8c,0x17,0x3b,0x88,0x9d,0xc4,0x2e,0x62,0x57,0xb1,0x9b,0xd8,0x43,0xec,
-0x25,0x26,0x8a,0x7d,0xc5,0x24,0x31,0x45,0x4c,0x13,0xd3,0xc5,0x21,0xe2,0x30,0x71,
-0x84,0x98,0x21,0x66,0x89,0xe3,0xc5,0x6c,0x31,0x47,0x9c,0x2a,0x4e,0x17,0x67,0x8a,
-0x79,0x62,0x81,0x58,0x24,0x96,0x88,0xa5,0x62,0xb9,0x58,0x29,0x56,0x8b,0x75,0x62,
-0xa3,0xd8,0x24,0xae,0x15,0x37,0x88,0x9b,0xc4,0x2d,0xe2,0x36,0x71,0x87,0xb8,0x4b,
+0xfe,0x3f,0x76,0xdd,0x06,0xa8,0xa9,0x6b,0xdf,0xff,0x5e,0x51,0x50,0xa2,0x50,0x82,
+0x82,0x82,0x82,0x05,0x25,0x0a,0x4a,0x20,0xa9,0x49,0x4b,0x10,0x5a,0x50,0x50,0x02,
+0x09,0xef,0x51,0xa2,0xa0,0xa4,0x02,0x26,0x90,0x68,0x02,0x09,0x24,0x90,0x40,0x82,
+0x09,0x79,0x21,0xa1,0xa4,0x02,0x85,0x0a,0x2d,0x28,0x28,0x58,0xb0,0x20,0x44,0xc1,
+0x82,0x95,0x3b,0x32,0x57,0xfa,0x97,0x19,0x99,0x91,0x5b,0x68,0xe5,0x19,0x39,0x25,
+0x0a,0x77,0xe4,0x19,0x98,0x91,0x19,0x99,0x91,0x99,0x67,0xad,0x90,0xf6,0xf1,0x9c,
+0x7b,0xce,0xff,0x9e,0x97,0x9e,0x73,0xef,0x39,0x25,0x1f,0xd7,0x77,0xbd,0xee,0xbd,
+0xd7,0xfe,0xfd,0x7e,0x6b,0xed,0x1d,0x03,0x3c,0x1f,0xb4,0x5f,0x37,0x3c,0xef,0xdd,
+0x2f,0xc1,0x73,0xb8,0xcb,0x3e,0xbf,0x53,0x01,0xd7,0x42,0x1b,0x78,0xd1,0x01,0x7d,
+0x7c,0x0b,0xc6,0x4d,0x85,0x02,0xbc,0x28,0xab,0x07,0xb3,0x9d,0xd0,0x0e,0xdf,0x28,
+0xc0,0xac,0xe1,0x36,0xbc,0x3e,0x3c,0x8f,0x16,0xae,0xcd,0xbb,0xd7,0x60,0x4c,0xc0,
+0xb5,0xd0,0x03,0xe3,0xfa,0x26,0xf4,0x6f,0x2f,0xbc,0x87,0xcf,0xa1,0x7f,0xd0,0x7f,
+0xb4,0xc1,0x27,0x9e,0xe5,0x9b,0x4b,0x30,0x3e,0x14,0xc0,0xf2,0x19,0x4c,0xcd,0xd0,
+0x97,0xf5,0xbd,0x30,0x56,0x60,0x6c,0x19,0xe0,0xda,0xba,0x0c,0x7d,0xd9,0x32,0x00,
+0xd7,0x08,0xac,0xb7,0xc2,0x79,0x5f,0xfb,0x04,0xda,0xbb,0x16,0x5e,0x13,0xc6,0x58,
+0x1d,0x8c,0xf1,0xaf,0xe0,0xfa,0x56,0xc0,0x74,0x11,0xae,0xe7,0xab,0x70,0x4d,0x5d,
+0x85,0x36,0x6d,0x81,0xdf,0xc1,0x6f,0x43,0x1f,0xc0,0xef,0x56,0x73,0x9f,0xdf,0x81,
+0x7e,0x81,0xb6,0xbd,0x78,0x1d,0x5e,0x03,0x5e,0x0b,0xae,0x61,0x4b,0x05,0xf4,0xab,
+0x11,0xed,0x1b,0xf0,0x7b,0x3c,0x5c,0x97,0x96,0xfa,0x36,0x78,0x5d,0x78,0x6d,0x68,
+0x1b,0x4b,0x37,0x5c,0xe7,0x65,0xd5,0xd0,0x8e,0xd0,0x4e,0xe5,0xd0,0x5e,0x9a,0x5b,
+0x30,0xe6,0xe1,0xfe,0x01,0x6d,0xf5,0x1c,0x3e,0x39,0x9f,0x5f,0x81,0xf3,0x37,0xdf,
+0x01,0xcf,0xfb,0x50,0xcc,0x41,0xfb,0xa9,0x61,0xbc,0x68,0xa1,0x6f,0xaa,0x60,0xf9,
+0x8a,0x09,0xce,0x11,0xfa,0x0b,0xee,0x45,0x2f,0x5a,0xa1,0xed,0x5a,0xe1,0x3c,0xaf,
+0x19,0x61,0x82,0xfe,0x6e,0x87,0xf6,0xb9,0x01,0x63,0xff,0x6b,0x98,0xf7,0xc1,0x31,
+0xfd,0xb0,0x3c,0x78,0x0b,0xcc,0x2a,0xe0,0x5e,0xa5,0xe9,0x84,0xeb,0x01,0xfa,0xc1,
+0xf4,0x19,0x98,0x6d,0xa9,0x02,0xb3,0xd7,0x6a,0xc1,0x6c,0x07,0x5c,0x57,0x1d,0xb0,
+0xad,0xe7,0x12,0x98,0xed,0x85,0x71,0x7a,0x0f,0xc6,0xd9,0x65,0xe8,0x83,0x2f,0xbf,
+0x85,0xb1,0x06,0x63,0x44,0x69,0x06,0x0b,0x2d,0x15,0x37,0xc1,0xac,0x16,0x1a,0xbc,
+0xef,0x1a,0xdc,0x78,0xe0,0x22,0x82,0x93,0x9e,0xb9,0x07,0x6f,0x44,0xad,0x86,0x75,
+0x98,0x57,0x40,0xe3,0x57,0x40,0x27,0xd4,0xd4,0xc0,0x9b,0xad,0x87,0x06,0x86,0x0e,
+0xbe,0xd2,0x03,0x37,0x4b,0x15,0x4c,0xd5,0xc0,0xd2,0x0e,0xeb,0x1d,0xf0,0xa6,0xbf,
+0xf9,0x14,0x26,0xd8,0x3f,0x08,0x03,0xe6,0x5e,0x27,0x0c,0xdc,0x3a,0x68,0x00,0x78,
+0xf3,0x2a,0xb8,0x98,0xd5,0x4d,0x30,0xe0,0xe0,0x62,0x83,0x0f,0x8c,0xe7,0x55,0x0d,
+0xe0,0xb9,0xe9,0x53,0x68,0x90,0x5a,0xb8,0xf9,0x5d,0x86,0x01,0x05,0xf3,0x6f,0x60,
+0xfe,0x0d,0x0c,0x7c,0x05,0x74,0x10,0x7c,0xbc,0xbe,0xd0,0x9a,0xc1,0x0b,0x3d,0xdc,
+0x88,0x4c,0xdd,0xe0,0x45,0x35,0x0c,0xb2,0xea,0x6f,0xc0,0x8b,0x3a,0x18,0x4c,0x75,
+0x5f,0x42,0x67,0xc2,0x0d,0x18,0x6e,0xe2,0x2f,0x1a,0xa1,0x53,0x1b,0xa1,0x21,0xae,
+0xc2,0x8d,0xe9,0x06,0x1c,0xd7,0x0d,0xc7,0x98,0x61,0xdf,0x00,0x74,0xaa,0x11,0x3a,
+0x15,0x6d,0xf8,0x8d,0xf0,0xe6,0x5b,0xa1,0x11,0xae,0xc1,0x8d,0xf3,0x06,0xdc,0xcc,
+0xbf,0x82,0x01,0xf7,0x15,0x34,0xd4,0x4d,0xb8,0x09,0x0e,0x40,0x87,0x2b,0xe1,0x26,
+0x5a,0x5e,0x0f,0xe6,0x74,0xd0,0x30,0xf5,0xd0,0xe9,0xf0,0xb1,0x3b,0xd7,0x54,0x01,
+0xe6,0x3a,0x3e,0x05,0x0b,0x57,0x9a,0xf5,0x48,0x54,0x60,0xe1,0x2a,0x7c,0x46,0xfd,
+0x74,0xb3,0x11,0xcc,0x28,0xa0,0x99,0x14,0xfd,0x60,0xa1,0x55,0xa7,0x83,0xd2,0x53,
+0x05,0x16,0xae,0xc3,0xb0,0x9b,0x1b,0xbc,0x08,0xe6,0xee,0x55,0x82,0xec,0x6c,0x90,
+0xcd,0x05,0xd9,0xf0,0xbd,0x19,0x65,0x30,0xcf,0x17,0x81,0xf1,0x5e,0xf4,0xc7,0x4b,
+0xbd,0xe8,0x8f,0x9e,0x7a,0xd1,0xdf,0x39,0xdd,0x5b,0xad,0x76,0x82,0xef,0xeb,0xff,
+0xa3,0x17,0x7c,0x7f,0xeb,0x3f,0xee,0x80,0xef,0xaf,0x80,0xef,0xab,0xc1,0xf7,0x97,
+0xc1,0xf7,0x0d,0xe0,0xfb,0x46,0xf0,0x7d,0x1b,0xf8,0xfe,0x06,0xf8,0xbe,0xfd,0x7b,
+0x25,0x92,0x32,0x28,0xff,0x31,0x60,0x2d,0xc3,0x0c,0xd6,0xaa,0xd0,0x11,0x55,0xff,
+0xd1,0x87,0x64,0x00,0x7c,0x6f,0x42,0xf2,0x29,0x92,0x4b,0x48,0xaa,0x91,0xd4,0x20,
+0xa9,0x45,0x52,0x87,0xa4,0x1e,0xc9,0xe7,0x48,0x2e,0x23,0x69,0x40,0xf2,0x05,0x92,
+0x26,0x24,0xcd,0x48,0xae,0x22,0x69,0x41,0x72,0x0d,0xc9,0x75,0x24,0x6d,0x48,0xda,
+0x91,0xdc,0x58,0x3d,0x69,0x3f,0xba,0xda,0xb7,0xe8,0x2c,0xdf,0xa2,0xc1,0x50,0xaa,
+0xe0,0x8c,0x27,0xbb,0xc1,0xe4,0x37,0x60,0xf2,0x1e,0xf8,0x41,0x01,0x26,0xef,0x82,
+0xc9,0x6f,0xc1,0x64,0x3f,0xf8,0xa1,0x05,0xfc,0x70,0x0d,0xfc,0xa0,0x02,0x3f,0x5c,
+0x04,0x3f,0x94,0x83,0x1f,0x34,0xe0,0x07,0x23,0xf8,0xc1,0x00,0x7e,0xa8,0x04,0x3f,
+0x68,0xc1,0x0f,0x75,0xe0,0x07,0x13,0xf8,0xa1,0x1d,0xfc,0xf0,0x35,0xf8,0xa1,0x07,
+0xfc,0xd0,0x0d,0x7e,0xb8,0x0b,0x7e,0xf8,0x06,0xfc,0xa8,0x00,0x3f,0x2a,0xc1,0x0f,
+0xf7,0xc0,0x8f,0x9f,0x82,0x1f,0x2f,0x81,0x1f,0x3a,0xc1,0x8f,0x1a,0xf0,0x63,0x39,
+0xf8,0x51,0x0b,0x7e,0xac,0x00,0x3f,0xaa,0xc1,0x8f,0x3a,0xf0,0x63,0x15,0x98,0xd4,
+0x81,0x89,0x6b,0x13,0xd7,0xa1,0xfc,0x58,0x03,0x65,0x52,0x8b,0x4a,0x1a,0x24,0xe5,
+0x48,0xac,0xd5,0x2a,0xd4,0x01,0x47,0x1b,0xd0,0xd0,0x0e,0x24,0x9d,0xa8,0x45,0x8d,
+0x44,0x0f,0x26,0xda,0x50,0x5b,0x1b,0x6a,0x6b,0x9b,0xb8,0x09,0x05,0x75,0xb4,0xa1,
+0xf3,0xb6,0xa1,0xde,0x1b,0xa8,0xf7,0x06,0xea,0xbd,0x81,0x7a,0x6f,0xa0,0xde,0x1b,
+0xa8,0xf7,0x06,0xea,0xfd,0x0a,0xf5,0x7e,0x85,0xda,0xbe,0x42,0x6d,0x5f,0xa1,0xb6,
+0x0e,0x34,0xb8,0x03,0xb5,0x75,0xa2,0xde,0x4e,0x54,0xba,0x89,0x4a,0x37,0x51,0xc7,
+0x4d,0x54,0xed,0x41,0xd5,0x1e,0x54,0xed,0x41,0x27,0xed,0x41,0x6d,0x66,0x54,0x35,
+0xa3,0xd2,0x6d,0xd4,0x7b,0x1b,0x55,0x6f,0xa3,0xde,0xdb,0xa8,0xed,0x0e,0xaa,0xde,
+0x41,0xa5,0x3e,0x24,0xfd,0x68,0x48,0x3f,0x2a,0xdd,0x45,0xa5,0xbb,0xb0,0x34,0xa9,
+0x84,0x25,0x28,0x9d,0x48,0x6e,0x42,0xb1,0xb6,0xc1,0x59,0x41,0xd1,0x83,0xc9,0x32,
+0xd4,0x51,0x86,0xda,0xca,0x50,0x5b,0x19,0x6a,0xbb,0x08,0x0d,0x07,0xa5,0x03,0x49,
+0x27,0x12,0x78,0xd8,0xc5,0x49,0x15,0x12,0x35,0x12,0x1d,0x12,0x38,0x4e,0x85,0x86,
+0xa8,0xd0,0x10,0x15,0x1a,0xa2,0x42,0xbd,0x2a,0xd4,0xab,0x42,0xbd,0x6a,0xd4,0xab,
+0x46,0xbd,0x6a,0xd4,0xab,0x46,0xbd,0x6a,0xd4,0xab,0x46,0xbd,0xe5,0xa8,0xb7,0x1c,
+0xf5,0x96,0xa3,0xde,0x72,0xd4,0x5b,0x8e,0x7a,0xcb,0x51,0xaf,0x06,0xf5,0x6a,0x50,
+0x9b,0x06,0xb5,0x69,0x50,0x9b,0x1e,0xb5,0xe9,0xd1,0x11,0x7a,0x74,0x84,0x1e,0xf5,
+0xea,0x51,0xaf,0x1e,0x59,0xb7,0x6b,0xb2,0x0b,0x4c,0x74,0x43,0x99,0xd4,0x41,0xf1,
+0x9e,0x34,0x4c,0x9a,0xa0,0x1a,0xad,0x5a,0x69,0xd5,0x4f,0xac,0x5a,0x65,0x55,0x13,
+0x1a,0x7d,0x6d,0xa2,0x1b,0xc9,0x2d,0xe4,0xef,0x72,0xe4,0xe5,0x6e,0x24,0xb7,0x90,
+0x83,0xcb,0x91,0x5b,0xbb,0x91,0xdc,0x42,0x1e,0x2d,0x47,0x1e,0xed,0x46,0x72,0x0b,
+0x39,0xb3,0x1c,0xdd,0xd2,0x75,0x34,0xf3,0x6e,0x24,0xb7,0xd0,0xa4,0xcb,0xd1,0xb4,
+0xba,0x91,0xdc,0x42,0x33,0x42,0x51,0x86,0x9c,0x74,0x6d,0x52,0x83,0xce,0xa7,0x41,
+0x67,0xd1,0x20,0x67,0x5a,0xed,0xa4,0x41,0x47,0x68,0xd0,0x7d,0x75,0xa1,0xc1,0x1a,
+0x74,0x52,0x0d,0xf2,0x37,0x94,0x5e,0xe4,0xbd,0x5e,0xd4,0xab,0xb0,0x4e,0x1c,0x66,
+0x9f,0xac,0x66,0x68,0xea,0xd0,0xd7,0x3a,0x24,0x7a,0xe4,0x66,0x1d,0x12,0x3d,0x72,
+0xb3,0x0e,0x89,0x1e,0x9d,0x41,0x87,0x44,0x8f,0xce,0xa0,0x43,0xa2,0x47,0x81,0xa6,
+0x43,0x82,0x22,0x10,0x95,0x3a,0x50,0xe9,0x26,0x2a,0xdd,0x44,0x25,0x33,0x2a,0x99,
+0x51,0xe9,0x36,0x2a,0xdd,0xb6,0x1e,0x8b,0x62,0xa7,0x17,0x45,0x56,0x2f,0xba,0x87,
+0x5e,0x74,0xeb,0x3d,0x48,0xcc,0x48,0x6e,0x23,0xb9,0x3e,0x59,0x61,0x5d,0x03,0xd6,
+0xb0,0x5f,0x0d,0xe8,0x1b,0xab,0x21,0x7d,0x63,0x35,0x94,0x6f,0x58,0xfd,0x6f,0xcd,
+0x3a,0x57,0xb3,0x9b,0xd6,0xe8,0x47,0xb5,0x4e,0x6b,0x08,0x58,0x33,0x9d,0x35,0xde,
+0x57,0xc3,0xbe,0x63,0x35,0xf0,0x3b,0x56,0xef,0xc1,0x3a,0xb2,0x67,0xf5,0x2c,0x3d,
+0xd6,0xe8,0x41,0x4b,0xc1,0xb6,0x18,0xac,0x36,0x5a,0xbd,0x5e,0xef,0xea,0x1d,0xf5,
+0xae,0x5e,0xa1,0x77,0xb5,0xef,0xf6,0xea,0x5d,0xdf,0x5e,0x9d,0xcb,0x9d,0xd5,0x93,
+0xdd,0x59,0xed,0xbb,0xb3,0x7a,0xf5,0xfe,0xd5,0xc9,0xf7,0xaf,0x36,0xf6,0xaf,0xce,
+0xe5,0xee,0x6a,0xed,0xee,0xea,0x90,0xbb,0xab,0xf1,0xaa,0xb4,0x9e,0x05,0x2d,0x12,
+0xdb,0x5a,0xb1,0xc6,0xb9,0xf5,0xea,0xd6,0x4c,0xbf,0x9a,0xe9,0xac,0x0b,0x62,0x75,
+0x49,0xdc,0x5c,0x5d,0x0a,0xb6,0xe8,0xef,0xb4,0xad,0x04,0xeb,0x0a,0x58,0x3d,0x40,
+0x6d,0xbd,0x5b,0x94,0xad,0x36,0xde,0x5c,0x1d,0x72,0x73,0xb5,0xd6,0x81,0xc2,0x44,
+0xb3,0xba,0x82,0x34,0xab,0xd7,0x2b,0x5f,0x3d,0xbc,0x7c,0xf5,0x42,0xe5,0xab,0xc7,
+0x95,0x5b,0x8d,0x85,0x16,0x8f,0x75,0x49,0xad,0x4e,0x57,0xbf,0x7a,0x0f,0x6d,0xab,
+0xfe,0xbd,0xb1,0x6a,0x9e,0x1b,0xab,0x66,0xbd,0xf1,0x73,0xe3,0xcd,0xd5,0xad,0xca,
+0x7a,0x9b,0x37,0x56,0xef,0xbd,0x63,0xb5,0xd6,0xb1,0x6a,0xba,0x8e,0x9f,0x9d,0x63,
+0x1d,0x69,0x5e,0x0d,0xa0,0xde,0xd5,0xec,0xf6,0xcf,0x37,0xdd,0x61,0xcd,0x56,0xaf,
+0xae,0x5f,0x6d,0xd4,0xaf,0x36,0xea,0x57,0x1b,0xd5,0xab,0x59,0xd9,0xcf,0x6b,0xbe,
+0x73,0x35,0x70,0xad,0xb5,0x8b,0xbf,0x6c,0x04,0xb6,0x3d,0xe2,0xe7,0x73,0xaa,0x57,
+0xfb,0xd4,0xab,0x73,0xd1,0x5b,0xf7,0x4b,0x9b,0xcd,0x50,0xa6,0x5c,0x9d,0x67,0xdb,
+0x6a,0x5f,0xcf,0xea,0x71,0xe5,0xab,0xb7,0x69,0x9e,0x54,0xc1,0xe7,0x02,0xbc,0x1e,
+0xca,0x60,0x90,0xaa,0xac,0x8b,0x0d,0x16,0x2e,0x5a,0x97,0xf7,0xaa,0x13,0x26,0xbe,
+0xb6,0x0e,0x5c,0xdd,0x27,0xbb,0x61,0x70,0x69,0xe1,0xde,0x06,0x6b,0x2a,0xeb,0x52,
+0x9c,0xd4,0xc2,0x16,0x95,0x35,0xdc,0xac,0x9b,0xd9,0x6a,0xe6,0xfd,0xf3,0xc9,0xbc,
+0x7f,0x1e,0xe8,0xfd,0xff,0x0f,0xec,0x98,0x54,0x79,0x23,0xb1,0x8e,0x81,0x97,0xeb,
+0xfe,0xd1,0x80,0x8a,0x20,0x00,0xfc,0xa4,0x50,0x82,0x10,0xe0,0x03,0x3e,0x82,0xa5,
+0x5a,0x98,0x3e,0x03,0xbf,0x53,0xa0,0x3f,0xab,0xba,0x04,0xce,0x80,0x62,0x20,0x87,
+0x2d,0xd5,0x30,0xc1,0x17,0x07,0x45,0x15,0x4c,0x26,0x98,0xf4,0x30,0x55,0xc0,0x64,
+0x80,0xc9,0x08,0x53,0x25,0x4c,0x9f,0x80,0x53,0x20,0x1d,0xec,0x01,0x7b,0xc1,0x7e,
+0x40,0x00,0xa1,0xe0,0x43,0x90,0x06,0x7c,0x01,0x1e,0x84,0xc3,0x9d,0xac,0x02,0xed,
+0x0c,0x15,0x68,0xc3,0x43,0xdb,0x1d,0xda,0xec,0xac,0x1b,0x07,0xda,0xef,0xac,0x5b,
+0x07,0xda,0xf2,0xac,0x9b,0x07,0xda,0xf5,0x50,0x01,0x6d,0x7f,0x9f,0xa2,0x02,0x34,
+0x50,0x33,0x98,0xb8,0x02,0x26,0xae,0x82,0x89,0x16,0x30,0xd1,0x0a,0x37,0x2b,0x80,
+0x9e,0x98,0x6d,0x60,0xa2,0x1d,0x06,0x05,0xdc,0x93,0x80,0xf5,0x39,0x05,0xd0,0xba,
+0x82,0x26,0x43,0xfb,0x2b,0x40,0x1b,0x60,0x0f,0x0c,0x04,0x68,0x16,0x18,0x07,0x70,
+0x31,0xc1,0x07,0x0f,0xb4,0x1d,0x5c,0x2b,0xd0,0x31,0xd0,0xf0,0xd0,0x75,0x00,0x3d,
+0x29,0x50,0x70,0x02,0xab,0x35,0xc1,0xaa,0x5b,0xaf,0x20,0xb9,0x8a,0xa4,0x15,0xc9,
+0x75,0xb0,0x1b,0xec,0x03,0x41,0xe0,0x34,0x90,0x81,0x12,0xf0,0xbb,0x6b,0x6a,0x98,
+0xd0,0x2f,0x3a,0xe8,0x97,0x1e,0xf4,0x43,0xca,0x55,0x98,0x5a,0x61,0xba,0x0e,0x13,
+0xfa,0x8f,0x5c,0x58,0xbf,0x08,0xeb,0xf0,0xdd,0xfa,0xa7,0x8b,0x17,0xc1,0xea,0x7f,
+0xe9,0xa2,0x1f,0x14,0xea,0x01,0xfa,0x61,0xfc,0xdf,0xae,0x80,0x7f,0xbb,0x0a,0xfe,
+0xad,0x03,0xfc,0xdb,0x35,0xf0,0x6f,0xad,0xe0,0x77,0xf0,0x90,0xdf,0x55,0x97,0x81,
+0xdf,0xc1,0xaf,0x6d,0xbf,0x2b,0x37,0xc1,0xf4,0x29,0x4c,0x97,0xc0,0xef,0x6a,0x9b,
+0xc0,0xef,0x3e,0xab,0x00,0x0b,0x55,0x55,0x6d,0x48,0xda,0x91,0xdc,0x40,0xf2,0x15,
+0x92,0x0e,0x24,0x9d,0x48,0x6e,0x22,0xf9,0x1a,0x49,0x17,0x92,0x6e,0x24,0xb7,0x90,
+0xf4,0x20,0xe9,0x45,0x62,0x46,0x72,0x1b,0xc9,0x1d,0x24,0x7d,0x48,0xfa,0x91,0xdc,
+0x45,0xf2,0x0d,0x92,0x01,0x24,0x83,0x48,0xee,0x21,0xf9,0x16,0x8a,0x49,0x81,0x44,
+0x89,0xa4,0x0c,0xc9,0x45,0x24,0x2a,0x24,0x6a,0x24,0xe5,0x48,0x34,0x48,0xb4,0x48,
+0x74,0x48,0xf4,0x48,0xd0,0x9c,0x4d,0x06,0x24,0x46,0x24,0x95,0x48,0x3e,0x81,0x72,
+0xa9,0x0e,0x49,0x3d,0x92,0xcf,0x91,0x5c,0x46,0xd2,0x80,0xa4,0x11,0xc9,0x17,0x48,
+0xbe,0x44,0xd2,0x84,0xa4,0x19,0xc9,0x15,0x24,0x57,0x91,0xb4,0x20,0x69,0x45,0x72,
+0x0d,0xc9,0x75,0x24,0xc8,0x2e,0x97,0x90,0x5d,0x2e,0x21,0xbb,0x5c,0x42,0x76,0xb9,
+0x84,0xec,0x72,0x09,0xd9,0xe5,0x12,0xb2,0xcb,0x25,0x64,0x97,0x4b,0xc8,0x2e,0x97,
+0x90,0x5d,0x2e,0x21,0xbb,0x5c,0x42,0x76,0xb9,0x84,0xec,0x72,0x09,0xd9,0xe5,0x12,
+0xb2,0xcb,0x25,0x64,0x97,0x4b,0xc8,0x2e,0x97,0x90,0x5d,0x2e,0x21,0xbb,0x5c,0x42,
+0x76,0xa9,0xfd,0x0c,0x09,0x9a,0x78,0x2d,0x9a,0x78,0x2d,0x9a,0x78,0x2d,0x9a,0x78,
+0x2d,0x9a,0x78,0x2d,0x9a,0x78,0x2d,0x9a,0x78,0x2d,0x9a,0x78,0x2d,0x9a,0x78,0x2d,
+0x9a,0x78,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,
+0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,
+0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,0x9a,0x73,0x2d,
+0x9a,0x6e,0x2d,0x9a,0x6e,0x2d,0x9a,0x6e,0x2d,0x9a,0x6e,0x2d,0x9a,0x6e,0x2d,0x9a,
+0x6e,0x2d,0x9a,0x6e,0xad,0x75,0xa6,0x03,0xe0,0xff,0x54,0x81,0xff,0x63,0x02,0xdf,
+0xd5,0x83,0xef,0xae,0x82,0xff,0xec,0xbc,0x06,0xbe,0x6b,0x05,0xdf,0xb5,0x80,0xe9,
+0xdb,0x26,0x30,0x52,0x07,0x46,0xbe,0x00,0xdf,0xb5,0x83,0x91,0x2b,0xe0,0xbb,0xcb,
+0xe0,0xbb,0x06,0x30,0x72,0x1d,0x7c,0xa7,0x02,0xdf,0xdd,0x00,0xdf,0xc1,0x29,0x34,
+0x0e,0xa8,0xc0,0x7f,0x7e,0x51,0x09,0x46,0x6e,0xa2,0xb2,0x1a,0x7c,0x57,0x89,0xf2,
+0x72,0x30,0x72,0x1b,0x8c,0xdc,0x01,0x23,0x77,0x51,0x4d,0x0b,0x46,0xee,0x81,0xef,
+0xda,0xc0,0x77,0xd7,0xe0,0xb9,0xe1,0xc1,0xd7,0xc1,0xef,0xba,0xbb,0xc1,0x77,0x9f,
+0x80,0xef,0x9a,0xc1,0x77,0xf0,0xac,0x75,0xe0,0xdf,0x15,0xe0,0xdf,0x95,0xe0,0xdf,
+0xcb,0xd0,0x68,0x3d,0x12,0x64,0x98,0x1e,0x14,0x44,0x3d,0x28,0x88,0x7a,0x50,0x10,
+0xf5,0xa0,0x20,0xea,0x41,0x41,0xd4,0x83,0x82,0xa8,0x07,0x05,0x51,0x0f,0x0a,0xa2,
+0x1e,0x14,0x44,0x3d,0x28,0x88,0x7a,0x50,0x10,0xf5,0xa0,0x20,0xea,0x41,0x41,0xd4,
+0x83,0x82,0xa8,0x07,0x05,0x51,0x0f,0x0a,0x22,0xf4,0x15,0xa5,0xaa,0xc7,0x84,0xe4,
+0x53,0x24,0x97,0x90,0x54,0x23,0xa9,0x41,0x52,0x8b,0x04,0xf9,0xac,0x07,0xf9,0xac,
+0x07,0xf9,0xac,0x07,0xf9,0xac,0x07,0xf9,0xac,0x07,0xf9,0xac,0x07,0xf9,0xac,0xc7,
+0x3a,0x35,0xe4,0xb3,0x1e,0xe4,0xb3,0x1e,0xe4,0xb3,0x1e,0x14,0x6c,0x3d,0xc8,0x71,
+0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,
+0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,
+0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0xc8,0x71,0x3d,0x28,0xd8,0xcc,0xa8,0x6a,
+0x46,0x55,0xb3,0xb5,0x8a,0x9c,0x69,0x46,0xce,0x34,0x23,0x67,0x9a,0x91,0x33,0xcd,
+0xc8,0x99,0x66,0xe4,0x4c,0x33,0x72,0xa6,0x19,0xc5,0x9e,0x19,0x79,0xd4,0x8c,0xd6,
+0xa4,0x19,0xad,0x49,0x33,0x5a,0x93,0x66,0xb4,0x26,0x6f,0x23,0x73,0xde,0x46,0xe6,
+0xbc,0x8d,0xcc,0x79,0x1b,0x99,0xf3,0x36,0x32,0xe7,0x6d,0x68,0x4e,0xd3,0x55,0x05,
+0x12,0x25,0x92,0x32,0x24,0x17,0x91,0xa8,0x90,0x58,0x7b,0xcb,0x91,0x68,0x90,0x68,
+0x91,0xe8,0x90,0xe8,0x91,0x54,0x20,0x31,0x20,0x31,0x22,0xa9,0x44,0xf2,0x09,0x92,
+0x2a,0x24,0x26,0x24,0x9f,0x22,0xb9,0x84,0xa4,0x1a,0x49,0x0d,0x92,0x5a,0x24,0x9f,
+0x21,0xa9,0x43,0x52,0x8f,0xe4,0x73,0x24,0x97,0x91,0x34,0x20,0x69,0x44,0xf2,0x05,
+0x12,0x68,0xec,0xda,0xfe,0x26,0x24,0xcd,0x48,0xae,0x20,0xb9,0x8a,0xa4,0x05,0x49,
+0x2b,0x92,0x6b,0x48,0xae,0x23,0x69,0x43,0xd2,0x8e,0xe4,0x06,0x92,0xaf,0x90,0x74,
+0x20,0xe9,0x44,0x72,0x13,0xc9,0xd7,0x48,0xba,0x90,0x74,0x23,0xb9,0x85,0xa4,0x07,
+0x49,0x2f,0x12,0x33,0x92,0xdb,0x48,0xee,0x20,0xe9,0x43,0xd2,0x8f,0xe4,0x2e,0x92,
+0x6f,0x90,0x0c,0x20,0x19,0x44,0x72,0x0f,0x09,0xb4,0x6e,0xed,0x5d,0xd4,0x71,0x17,
+0x75,0xdc,0x45,0x1d,0x77,0x51,0xc7,0x5d,0xd4,0xf1,0x8d,0x02,0x89,0x12,0x49,0x19,
+0x92,0x8b,0x48,0x54,0x48,0xd4,0x48,0xca,0x91,0x68,0x90,0x68,0x91,0xe8,0x90,0xe8,
+0x91,0x54,0x20,0x31,0x20,0x31,0x22,0xa9,0x44,0xf2,0x09,0x92,0x2a,0x24,0x26,0x24,
+0x9f,0x22,0x81,0x86,0x6d,0x54,0x7f,0x06,0x53,0x2b,0x2a,0xd4,0xfd,0x5e,0x01,0xa6,
+0x9b,0x6f,0x57,0xbe,0x7e,0xbb,0xd2,0xf5,0x76,0xa5,0xfb,0xed,0x0a,0x34,0x48,0x63,
+0x79,0xbf,0xed,0x4c,0xe5,0x77,0x7f,0x2e,0xf4,0xbf,0x75,0xca,0xd5,0xd6,0x9f,0x2b,
+0xfd,0x6f,0x9d,0xff,0x97,0x9e,0xaf,0xc1,0x83,0x6e,0xf0,0xf0,0x0e,0xf8,0x9d,0x56,
+0x03,0x13,0xbc,0xf7,0x2f,0x5a,0xae,0x20,0xb9,0x8a,0xa4,0x05,0x49,0x2b,0x92,0x6b,
+0x48,0xae,0x23,0x69,0x43,0xd2,0x8e,0xe4,0x06,0x92,0xaf,0x90,0x74,0x20,0xe9,0x44,
+0x72,0x13,0xc9,0xd7,0x48,0xba,0x90,0x74,0x23,0xb9,0x85,0xa4,0x07,0x49,0x2f,0x12,
+0x33,0x92,0xdb,0x48,0xee,0x20,0xe9,0x43,0xd2,0x8f,0xe4,0x2e,0x92,0x6f,0x90,0x0c,
+0x20,0x19,0x44,0x72,0x0f,0x09,0x74,0xd0,0x17,0xad,0x0a,0x24,0x4a,0x24,0x68,0x92,
+0xad,0xf0,0xc1,0x7e,0x13,0xfc,0xd0,0x0c,0x26,0xbf,0x06,0xc4,0x00,0x40,0x0a,0x00,
+0xef,0x05,0x80,0x83,0x01,0x80,0x1c,0x00,0x28,0x01,0xe0,0xfd,0x00,0xf0,0x41,0x00,
+0x08,0x0e,0x00,0x54,0xf4,0xd2,0x53,0x9d,0x8f,0x5e,0x6a,0x0a,0x8b,0x00,0xa7,0x00,
+0xe4,0x67,0x82,0xfc,0x7c,0x20,0x10,0x14,0x80,0xc2,0xb3,0x80,0x0f,0xff,0x65,0x02,
+0x7e,0x1e,0xc8,0xcc,0x01,0x3f,0x29,0xbf,0xf9,0x49,0x59,0x61,0xfd,0x8d,0xbf,0x0c,
+0xfd,0xcd,0xe6,0x67,0xc0,0xf2,0x09,0xfa,0x23,0x0e,0x0d,0xb0,0xb4,0x7c,0x0e,0x66,
+0xaf,0x5f,0x05,0x33,0x77,0x5b,0xc0,0xf3,0xba,0x26,0xf0,0x42,0xd5,0x0c,0x2c,0x3a,
+0x23,0xb0,0xdc,0x33,0x00,0x4b,0xb9,0x11,0x3c,0x87,0x5b,0xb9,0x45,0xdb,0x08,0x5e,
+0x98,0xcb,0xc0,0xec,0xad,0x76,0x60,0xb9,0x0a,0xeb,0xf0,0xe9,0xfb,0x7c,0xa0,0x1a,
+0x3c,0xd7,0xd7,0x80,0xe7,0xc6,0x1a,0x30,0xa7,0xd4,0x83,0xe7,0x06,0x0d,0x78,0xae,
+0xbb,0x04,0x5e,0x5c,0x53,0x82,0x17,0xed,0xe8,0xbf,0x1a,0xb5,0xe0,0xf9,0x5d,0x05,
+0x78,0x51,0x0d,0xaf,0xa7,0xbb,0x05,0x2c,0x70,0xe7,0x9f,0x53,0xa3,0xb7,0xac,0xea,
+0xe7,0x0d,0x1d,0xab,0xef,0x61,0xd5,0x33,0x7d,0xba,0x9f,0x4b,0x77,0x0d,0xb6,0x92,
+0xe5,0xe6,0xcf,0x6d,0x2f,0xca,0xfa,0x6d,0x25,0x78,0xe2,0x9f,0xdb,0x2e,0x7f,0xf6,
+0xf3,0xb8,0x8a,0xc6,0x9f,0x7b,0x6b,0xac,0x6d,0x96,0x7b,0xe8,0xae,0xbe,0x06,0x33,
+0x7d,0x83,0x30,0xf5,0x81,0x99,0x7e,0x68,0xcf,0x26,0xd5,0x15,0x30,0x33,0xd8,0x04,
+0x66,0xee,0x7d,0x03,0x2c,0x8a,0x32,0x60,0x51,0xc2,0xa9,0xc1,0x37,0x19,0x0b,0xfa,
+0x0d,0xfd,0x53,0xb8,0xb2,0x9b,0xea,0x60,0x83,0x1a,0xfd,0x89,0x50,0x0b,0x4c,0xd0,
+0x67,0x4d,0xd5,0x0d,0xb0,0xa7,0x1f,0x56,0x60,0x40,0x34,0xd5,0x54,0x40,0x2b,0xc0,
+0xf3,0x96,0xb7,0x80,0x99,0x6f,0x90,0x45,0x60,0x30,0xb4,0x6b,0xbe,0x84,0x26,0x81,
+0x6f,0x46,0x97,0x50,0x0e,0xcf,0xab,0x2b,0x87,0xe9,0x0e,0xf8,0xa9,0x1a,0xfd,0x49,
+0xad,0x1a,0x26,0x58,0x37,0xea,0x60,0xfa,0x1c,0x26,0x78,0xfb,0xc6,0x41,0x98,0xa0,
+0x9b,0x9b,0xda,0x3a,0xc0,0x0b,0x25,0xb4,0xdf,0x27,0x7a,0x98,0xe0,0x8e,0xd2,0x84,
+0xfe,0x8e,0xe8,0x93,0xaf,0x60,0xea,0x86,0x06,0x83,0x47,0xc1,0x19,0x59,0xe0,0xfb,
+0x8d,0x05,0xbe,0x93,0x58,0x4c,0x6d,0xb0,0x7e,0x05,0x58,0xe0,0x13,0xde,0x52,0x5d,
+0x05,0x2c,0x35,0x97,0x60,0x82,0xe3,0x6b,0x55,0x30,0xc1,0x63,0xe0,0x93,0xd5,0xf2,
+0x19,0xbc,0xa3,0x86,0x5a,0x98,0xe0,0x14,0xeb,0x4d,0x30,0xf5,0x42,0x07,0xdd,0x04,
+0x96,0x2f,0x2b,0x61,0x82,0xe5,0x26,0xe8,0xc8,0x2f,0xe0,0x2d,0x34,0x41,0x07,0x34,
+0xc1,0x6b,0x5c,0x81,0xd3,0x6f,0x86,0x2f,0x23,0x96,0xab,0xb0,0xe1,0xea,0x1d,0xe8,
+0x7d,0x78,0x51,0xb8,0x24,0x2c,0xad,0x70,0x59,0x34,0x7f,0x0e,0xa3,0xbf,0xf9,0xf2,
+0x0d,0x60,0xb9,0xde,0x01,0x2c,0x6d,0x97,0x61,0xba,0x0e,0xcb,0x75,0xc0,0xd2,0x7e,
+0x0d,0xfc,0x74,0xf9,0x26,0x4c,0x03,0xc0,0xd2,0x01,0xa7,0xd6,0x01,0x03,0xb7,0xf9,
+0x3a,0x2c,0x7c,0x7d,0x11,0x26,0x38,0xe0,0x6b,0xb8,0x00,0x9a,0x3b,0x50,0xe1,0x5b,
+0x60,0xe9,0x82,0xe7,0x1c,0xbc,0x04,0x7e,0xfa,0x42,0x09,0x2c,0xdd,0x4d,0xc0,0x02,
+0x9f,0xa1,0x96,0x5b,0x70,0x03,0x69,0xbe,0x03,0x2f,0x6c,0xbe,0x88,0x0a,0xd7,0x60,
+0x01,0x4e,0xd3,0x0c,0x6f,0x03,0x3e,0x26,0x2c,0x77,0x60,0xcc,0xdd,0xb9,0x02,0x7e,
+0x6a,0xfa,0x1a,0xe6,0xd0,0x58,0x7d,0xf0,0xd6,0xa1,0x17,0x2d,0x70,0x0f,0xfd,0xa9,
+0x19,0xce,0xec,0x4a,0x39,0xb4,0x76,0x33,0x1c,0x78,0x17,0x1a,0xef,0x2e,0xbc,0xef,
+0xbb,0x70,0x85,0xdd,0xa8,0x44,0xff,0x27,0x68,0xe8,0x06,0xb3,0x5a,0x78,0xa1,0x01,
+0x78,0x38,0x7a,0x38,0x5c,0xd5,0xc3,0x25,0x77,0x4d,0x03,0x2d,0x8f,0x7e,0x4f,0x18,
+0xfc,0x0a,0xb6,0x42,0x9b,0xdd,0x83,0xf5,0x6f,0xa1,0x2d,0xbe,0x85,0x76,0xfa,0x16,
+0x06,0x6f,0x99,0x12,0xfc,0x04,0x57,0xe4,0x4f,0x2d,0x70,0x97,0xbf,0x72,0x19,0x46,
+0x32,0x5c,0x09,0xcf,0xd5,0xe8,0xff,0x45,0x0d,0x30,0xdd,0x05,0xcf,0xcb,0x6f,0xc1,
+0x04,0x57,0x44,0xf9,0xd7,0xe0,0xb9,0x06,0xfd,0xe7,0x3c,0xfa,0x51,0xe2,0x32,0x8c,
+0xf0,0x46,0x18,0xf5,0xdd,0xe0,0x79,0x05,0x3c,0xc6,0x08,0x77,0xc1,0x2b,0x1d,0xf0,
+0x00,0xc3,0x20,0x6c,0x18,0x80,0x0d,0x6d,0xe0,0x79,0xe5,0x45,0xf0,0xfc,0x13,0xb8,
+0xb3,0x5c,0xf9,0x1a,0x8e,0xaa,0xba,0x02,0x2b,0x6a,0xd8,0x08,0xef,0xa3,0xed,0x26,
+0x78,0x6e,0x6a,0x87,0xe9,0x1e,0x78,0xfe,0x29,0x3c,0x8b,0x09,0x06,0x4c,0x7b,0x07,
+0x78,0x5e,0x03,0x5d,0x72,0x15,0x7e,0x15,0x79,0xfe,0xd9,0x55,0xf0,0xfc,0x72,0x1f,
+0x78,0x5e,0xaf,0x03,0x3f,0x75,0xc0,0x77,0x6d,0x68,0xe8,0x9f,0xbe,0x82,0x16,0x83,
+0x2f,0xd4,0x96,0x72,0xb8,0xd0,0x1a,0x14,0xe0,0xf9,0xe7,0x0d,0x60,0xb6,0xac,0x13,
+0xcc,0x7c,0x52,0x0f,0xeb,0xcd,0xe0,0x79,0x23,0x9c,0x5a,0xe3,0x25,0xf4,0x1f,0xa2,
+0xd0,0x40,0x9d,0x3a,0xf0,0xfc,0x4b,0x38,0xf7,0x2f,0xe0,0x15,0x9b,0xa1,0x6d,0xae,
+0x9a,0x3a,0xc1,0xf3,0x2b,0x95,0xe0,0x79,0xd3,0x97,0xe0,0x79,0x0b,0x9c,0x30,0xdc,
+0x5b,0x9e,0x5f,0x83,0x57,0xb9,0x7e,0x03,0x3c,0xbf,0x01,0x7d,0x7d,0xf5,0x73,0x58,
+0xf9,0xea,0x32,0xf8,0xa9,0xab,0x0e,0x3c,0xef,0x80,0xcf,0xb5,0xab,0x57,0xae,0x83,
+0xe7,0x9d,0xf0,0x6b,0x52,0x37,0x3c,0xaa,0x13,0x9a,0xe0,0x26,0x3c,0xf2,0x26,0xdc,
+0xb4,0xae,0xde,0x40,0xfe,0xeb,0x85,0xcf,0x83,0xab,0x5f,0xc1,0x2b,0xc0,0xee,0x85,
+0xab,0xb7,0xe0,0x1d,0xdf,0xfa,0x16,0x3c,0x87,0x6f,0x38,0xcf,0xbb,0xe1,0x71,0xbd,
+0xb5,0x30,0xc1,0x9b,0x33,0xc3,0x9b,0x84,0xef,0x03,0xcf,0xd1,0x23,0xfd,0x2a,0xfa,
+0x51,0xa0,0xb7,0x17,0x3c,0xef,0x83,0x76,0x84,0x0f,0xbe,0x9f,0x7a,0x7b,0xc0,0x73,
+0xf4,0xa8,0xb9,0x0a,0x9f,0x1e,0xcf,0xef,0x40,0x4f,0x0c,0xc2,0x3d,0xf5,0xea,0x20,
+0x5c,0x88,0x57,0xef,0xc1,0x6b,0x7e,0x5b,0x0e,0x5e,0x28,0xfa,0x61,0x82,0x93,0xba,
+0x5d,0x0b,0x17,0x8b,0x1e,0xa6,0x41,0x98,0xee,0x80,0x17,0xf0,0xbe,0xe1,0xe2,0x6c,
+0x05,0x2f,0xd4,0xf0,0xc4,0x2d,0xba,0xab,0xe0,0x45,0x39,0xf4,0x5e,0x4b,0x25,0xfa,
+0x1b,0xee,0x36,0xf0,0x42,0x07,0xbd,0xd1,0x52,0xa7,0x05,0x2f,0xf4,0x70,0xd3,0x81,
+0x1b,0xd3,0x42,0x4b,0x03,0xfa,0xcf,0xf4,0xa6,0x6a,0xf0,0xc2,0x78,0x17,0xbc,0xa8,
+0x84,0xbb,0xdf,0x5d,0xf4,0xe7,0xdc,0xf0,0x9b,0xcd,0xdd,0x3e,0xf0,0x02,0xbe,0xfa,
+0xbf,0x30,0x35,0x80,0x17,0x9f,0xaa,0xc1,0x8b,0x4b,0xf0,0x8b,0xe0,0xc0,0x65,0xb8,
+0x55,0x41,0xbf,0xb5,0x74,0xdd,0x86,0x05,0x18,0xdf,0x2d,0xb7,0x50,0x78,0x95,0x7f,
+0x09,0x5e,0xd4,0xa1,0x33,0xdf,0x6b,0x46,0x02,0x63,0xab,0x55,0xa9,0x02,0x3f,0x7d,
+0x3b,0x00,0x66,0x14,0xf0,0x61,0xd9,0x0a,0xbf,0x18,0x41,0x81,0xcf,0x80,0x56,0x55,
+0x3d,0x92,0x1e,0xf0,0xa2,0x01,0xfd,0x7e,0x06,0x0f,0x83,0xeb,0x6e,0x46,0x59,0x0e,
+0x66,0xca,0xe0,0x7b,0x46,0x2b,0xfa,0xe1,0xa5,0xb9,0x12,0xcc,0xc0,0x2f,0x57,0x0b,
+0xad,0x75,0xf0,0x79,0xd3,0xfa,0x39,0x7c,0xd5,0x68,0xbd,0x0c,0xaf,0x7e,0xfd,0x2b,
+0x30,0xa3,0xfa,0x1a,0x6e,0x9a,0xf0,0x5e,0xdb,0xe1,0xd3,0xb5,0xb5,0x15,0x3e,0x20,
+0x5a,0x6f,0x5c,0x07,0x2f,0xbe,0xba,0x09,0x66,0xd0,0x43,0xab,0xf5,0x26,0xbc,0xc7,
+0xaf,0xa1,0x69,0xbe,0xd6,0xc1,0x06,0xb8,0x2d,0xb5,0xde,0x82,0xf7,0x08,0x5f,0x20,
+0x67,0xf4,0x70,0xc3,0x86,0xaf,0x76,0x2f,0xe0,0x7b,0xdf,0x8b,0x5e,0xf8,0x0c,0x69,
+0xbd,0x07,0x47,0x99,0xe1,0x6e,0x6e,0x80,0xbb,0xf0,0x1d,0x78,0x8b,0x7d,0x65,0xe0,
+0x45,0xbf,0x1a,0xd6,0xe1,0xc3,0xe9,0x1a,0x34,0xd3,0xc2,0x35,0x9d,0x06,0xcc,0x18,
+0xe1,0x5c,0xaf,0x55,0xd4,0x83,0x17,0x83,0xf0,0xa9,0x74,0xcd,0x70,0x0f,0xbc,0xb8,
+0x57,0x03,0x5e,0x7c,0x8b,0x2a,0xe8,0xbb,0xcd,0xb5,0xea,0xab,0x60,0x56,0x09,0x5f,
+0x76,0xae,0xc1,0xf7,0xfd,0x59,0xb8,0x61,0x2d,0x5c,0x35,0x7e,0x09,0x83,0xae,0x06,
+0x06,0xdf,0x2d,0x30,0xab,0xba,0x08,0x66,0xaa,0x2a,0x60,0x7e,0x0f,0x58,0x6e,0x40,
+0x1b,0x5f,0xfb,0xe2,0x3a,0x12,0x58,0xba,0x5a,0x89,0x62,0xb1,0x12,0x06,0xa9,0x56,
+0x05,0x66,0xef,0x7d,0x01,0x66,0x4c,0x5f,0x81,0x59,0xbd,0x09,0x26,0x38,0x5e,0x8f,
+0xfe,0xc0,0xb2,0x07,0xe6,0x70,0xc9,0x5a,0xf3,0x41,0x30,0x5b,0x01,0x4d,0x71,0xad,
+0x63,0x00,0xcc,0x1a,0x1a,0xc1,0xac,0x11,0x5e,0xb6,0xb2,0x13,0x96,0x51,0x0e,0x3b,
+0x3f,0xb9,0x0e,0xdb,0x2e,0xc1,0x5c,0x0f,0x93,0x01,0x26,0xe8,0xef,0x6b,0xd0,0x3f,
+0x0b,0xd7,0xe0,0xc6,0xb1,0x70,0x0d,0xbe,0x32,0xcf,0x54,0xc3,0xf3,0xc3,0xef,0x46,
+0xb3,0xf0,0x5b,0xd1,0x6c,0x35,0x34,0xf4,0x75,0x34,0xb6,0x06,0xfa,0xf1,0xda,0x40,
+0x07,0x98,0xa9,0x69,0x84,0x09,0x3a,0xee,0xda,0x3d,0xf8,0xa8,0xbe,0x7e,0x11,0x1a,
+0xac,0x06,0x8e,0xaf,0xaf,0x82,0x09,0x9e,0xba,0xbe,0x1d,0xcc,0x7e,0x8e,0x92,0x16,
+0xcc,0x36,0x54,0x82,0xd9,0xcb,0x57,0x60,0x0e,0x6f,0xb8,0x11,0x8e,0xf9,0x02,0x3a,
+0xee,0xb3,0xcf,0xc0,0xec,0x97,0xcd,0x60,0xb6,0x49,0x09,0xcb,0xfd,0x60,0xb6,0x19,
+0x5a,0xe4,0x3a,0x3a,0x10,0xbe,0x34,0xce,0xc2,0xb7,0xc2,0x99,0x3a,0x33,0xcc,0xe1,
+0x2e,0xf2,0x29,0x5c,0x21,0xd7,0xaf,0xc0,0x40,0xbe,0xde,0x7a,0x0d,0xcc,0x7c,0x7e,
+0x0f,0xcc,0x5c,0xd6,0x80,0xd9,0x1b,0x68,0xf8,0x2d,0x78,0xbe,0x5b,0xf0,0x7c,0xf0,
+0x2b,0xc4,0x6c,0xef,0x65,0x30,0x8b,0xde,0x96,0xaf,0x0f,0xc0,0x57,0x88,0xa6,0x26,
+0x68,0x21,0xf4,0x73,0xdb,0x6d,0x78,0xf3,0x77,0xa0,0x89,0x9b,0xe0,0x19,0x67,0xbf,
+0x81,0x6f,0xa7,0x6d,0x9f,0x7d,0x8a,0xa4,0x13,0xcc,0x95,0x55,0x83,0xb9,0x8b,0xdd,
+0x60,0x4e,0x05,0xdf,0xb4,0xda,0x1a,0x6e,0xc2,0xc2,0x65,0x30,0xa7,0xed,0x03,0x73,
+0x15,0x9f,0xc1,0x54,0x07,0xe6,0x74,0x03,0x60,0xee,0x93,0x7e,0x30,0x57,0x05,0xc3,
+0xbd,0xed,0xeb,0xbb,0x60,0xae,0x16,0xc6,0xdc,0x35,0xf8,0x40,0x46,0xdf,0xb0,0xda,
+0xe0,0xb5,0x66,0xae,0x5f,0x03,0x73,0x97,0xe1,0x26,0x7d,0xfb,0x16,0x98,0x6b,0x80,
+0xb1,0xd7,0x8e,0x16,0x4f,0xbb,0xf6,0x73,0x30,0xd3,0x0e,0x83,0xab,0x1d,0x3e,0x93,
+0xbf,0x84,0xd3,0x6c,0xaf,0xd2,0x83,0x99,0x1b,0x30,0x8a,0xdb,0x3f,0xad,0x05,0x73,
+0x4d,0xf0,0xfd,0xa7,0x1d,0x3d,0xae,0xaf,0xc2,0x67,0x67,0x47,0x0f,0x98,0x83,0x2f,
+0x44,0x73,0xd7,0xae,0x83,0xb9,0xeb,0x65,0x30,0xc1,0xbb,0xfb,0x1a,0x2e,0xff,0xf6,
+0x8e,0x2e,0x30,0xd7,0xad,0x00,0x73,0x3d,0xf0,0x69,0x0b,0xbf,0xdf,0xcc,0xc0,0x2f,
+0x12,0x73,0x66,0x18,0x08,0x37,0xd0,0x6f,0xe6,0x3d,0x70,0xa1,0xdc,0x50,0xc1,0x4b,
+0xdd,0xd0,0xc2,0xb1,0x37,0x60,0x04,0xcc,0x98,0xe1,0x99,0xbf,0xb9,0x07,0xe6,0xe0,
+0xf7,0xb3,0xb9,0x81,0x4f,0x60,0x82,0xde,0xba,0x51,0xa7,0x00,0x00,0xb3,0x6e,0xbd,
+0x9d,0xfd,0x86,0x8d,0x1b,0x1d,0xb0,0x9b,0x36,0x3b,0x3a,0xbd,0xe3,0xbc,0xf1,0x97,
+0x0f,0x6e,0xa3,0xcb,0x96,0xad,0xae,0x6e,0xdb,0xb6,0xbb,0x5b,0xab,0x1e,0x1b,0x77,
+0xec,0xf4,0xf4,0xda,0xf5,0xae,0xb7,0xcf,0xc6,0x7f,0xf8,0x67,0xf7,0x1e,0x28,0xbe,
+0xbf,0xea,0x29,0xf1,0x7b,0xf7,0xf9,0xf9,0xef,0x3f,0x60,0x2d,0x07,0x6c,0x24,0xfc,
+0xdc,0x1c,0x18,0xb4,0x91,0x48,0x7a,0x0f,0x16,0x0e,0xfe,0x4a,0xd7,0x21,0xbf,0x55,
+0xa6,0xfc,0x03,0x4c,0xf5,0xfe,0xc6,0x8d,0x1f,0x04,0x53,0x43,0x7e,0xae,0x1e,0xfa,
+0xbd,0xce,0xd0,0x8d,0x1b,0xc3,0x3e,0xfc,0xb9,0xf2,0xd1,0xc6,0xdf,0xf0,0x27,0x3c,
+0xe2,0xf0,0xc6,0xb5,0xcf,0xda,0x67,0xed,0xb3,0xf6,0x59,0xfb,0xac,0x7d,0xd6,0x3e,
+0x6b,0x9f,0xb5,0xcf,0xda,0x67,0xed,0xb3,0xf6,0x59,0xfb,0xfc,0x76,0x3e,0xc0,0x6e,
+0x8d,0xbf,0x09,0x7b,0xe0,0xf0,0x7b,0x60,0x01,0x0e,0xb8,0x00,0x57,0x1b,0x6e,0xc0,
+0x13,0xe2,0x05,0x7c,0x00,0x1e,0x10,0x00,0x11,0x42,0x02,0x54,0x10,0x06,0xc2,0x41,
+0x04,0x60,0x00,0x16,0xc8,0x84,0xf0,0x80,0x08,0xc8,0x80,0x0a,0x18,0x40,0x35,0xa4,
+0x01,0xb4,0x80,0x0e,0xd0,0x0b,0x06,0xc0,0x03,0xf0,0x08,0x3c,0x01,0x4f,0x21,0x33,
+0xe0,0x25,0x78,0x05,0xde,0x00,0x3b,0x8c,0xa3,0x15,0x57,0x8c,0x27,0xc6,0x17,0x13,
+0x80,0x21,0x5b,0x09,0xc5,0x44,0x62,0xe8,0x98,0x14,0x4c,0x1a,0x26,0x13,0xc2,0xc3,
+0x88,0x30,0x32,0x8c,0x0a,0x63,0xc0,0x54,0x63,0x1a,0x30,0x2d,0x98,0x0e,0x48,0x2f,
+0x66,0x00,0xf3,0x00,0xf3,0x08,0xf3,0x04,0xf3,0xd4,0xca,0x0c,0xe6,0x25,0xe6,0x15,
+0xe6,0x0d,0xc6,0x6e,0x9d,0xdd,0x3a,0x47,0x88,0xeb,0x3a,0xcf,0x75,0xbe,0xeb,0x02,
+0xd6,0x91,0xd7,0x85,0xae,0x8b,0x5c,0x47,0x5f,0x97,0xb2,0x2e,0x6d,0x5d,0xe6,0x3a,
+0xde,0x3a,0xd1,0x3a,0xd9,0x3a,0xd5,0x3a,0x83,0x95,0xea,0x75,0x0d,0xeb,0x5a,0xd6,
+0x75,0xac,0xeb,0x5d,0x37,0xb0,0xee,0xc1,0xba,0x47,0xeb,0x9e,0xac,0x7b,0xba,0x6e,
+0x66,0xdd,0xcb,0x75,0xaf,0xd6,0xbd,0x59,0x67,0xb7,0xde,0x71,0xbd,0xeb,0x7a,0xcf,
+0xf5,0xbe,0xeb,0x03,0xac,0x90,0xd7,0x87,0xae,0x8f,0x5c,0x4f,0x5f,0x9f,0xb2,0x3e,
+0x6d,0x7d,0xe6,0x7a,0xde,0x7a,0xd1,0x7a,0xf1,0x7a,0xf9,0x7a,0xd5,0x7a,0xc3,0xfa,
+0xea,0xf5,0x0d,0xeb,0x5b,0x20,0x1d,0xeb,0x7b,0xd7,0x0f,0xac,0x7f,0xb0,0xfe,0xd1,
+0xfa,0xf1,0xf5,0x53,0xeb,0x67,0xac,0xbc,0x5c,0xff,0x6a,0xfd,0x9b,0xf5,0x76,0x76,
+0x8e,0x76,0x6e,0x76,0x9e,0x56,0x7c,0xed,0x02,0xec,0xc8,0x76,0xa1,0x76,0x91,0x76,
+0x74,0x2b,0x29,0x76,0x69,0x76,0x99,0x76,0x3c,0x3b,0x91,0x9d,0xcc,0x4e,0x65,0x67,
+0xb0,0xab,0xb6,0x6b,0xb0,0x6b,0xb1,0xeb,0xb0,0xeb,0xb5,0x1b,0xb0,0x7b,0x60,0xf7,
+0xc8,0xee,0x89,0xdd,0x53,0x2b,0x33,0x76,0x2f,0xed,0x5e,0xd9,0xbd,0xb1,0xb3,0xb3,
+0x77,0xb4,0x77,0xb5,0xf7,0xb4,0xf7,0xb5,0x0f,0xb0,0x27,0xdb,0x87,0xda,0x47,0xda,
+0xd3,0xed,0x53,0xec,0xd3,0xec,0x33,0xed,0x79,0xf6,0x22,0x7b,0x99,0xbd,0xca,0xde,
+0x60,0x5f,0x63,0x5f,0xf7,0x37,0xd3,0x64,0xdf,0xf6,0x7f,0xa1,0xcb,0xbe,0xef,0xcf,
+0xa2,0xdf,0x7e,0xd8,0x7e,0xcc,0x7e,0xca,0xde,0x62,0x3f,0x6f,0xbf,0x64,0xbf,0x62,
+0x6f,0xbf,0xc1,0x71,0x83,0xeb,0x06,0xcf,0x0d,0xbe,0x1b,0x02,0x36,0x90,0x37,0x84,
+0x6e,0x88,0xdc,0x40,0xdf,0x90,0xba,0x21,0x73,0x83,0x60,0x83,0x6c,0x83,0x76,0x43,
+0xf5,0x86,0xa6,0x0d,0x1d,0x90,0xbe,0x0d,0x0f,0x36,0x3c,0xde,0xf0,0x74,0xc3,0xcc,
+0x86,0x97,0x56,0x5e,0x6d,0x78,0xb3,0xc1,0x6e,0xa3,0xe3,0x46,0xd7,0x8d,0x9e,0x1b,
+0xfd,0x36,0x92,0x37,0x86,0x6e,0x8c,0xdc,0xc8,0xd8,0xc8,0xdc,0x98,0xbe,0x31,0x73,
+0x23,0x6f,0xa3,0xc8,0x8a,0x6c,0xa3,0x6a,0x63,0xd5,0xc6,0x86,0x8d,0x2d,0x1b,0x3b,
+0x36,0xf6,0x6e,0x1c,0x80,0x3c,0xd8,0xf8,0x68,0xe3,0x93,0x8d,0x4f,0x37,0xce,0x6c,
+0x7c,0xb9,0xf1,0xd5,0xc6,0x37,0x1b,0xed,0x1c,0x1c,0x1d,0x5c,0x1d,0x3c,0x1d,0x7c,
+0x1d,0x02,0x1c,0xc8,0x0e,0xa1,0x0e,0x91,0x0e,0x74,0x87,0x14,0x87,0x34,0x87,0x4c,
+0x07,0x9e,0x83,0xc8,0x41,0xe6,0xa0,0x72,0x30,0x38,0x54,0x3b,0x34,0x58,0x69,0x71,
+0xe8,0xf8,0x3d,0x7a,0x1d,0x06,0x1c,0x1e,0x38,0x3c,0x72,0x98,0x70,0x98,0x71,0x58,
+0x70,0x78,0xe3,0x60,0x87,0x75,0xc4,0xba,0x63,0x7d,0xb1,0x01,0x58,0xf2,0x6f,0x14,
+0x0a,0x96,0x8a,0x0d,0xc3,0x46,0x60,0xa3,0xb0,0x34,0x2c,0x03,0x9b,0x88,0x65,0x62,
+0x53,0xff,0x26,0x58,0x58,0x36,0x96,0x8b,0x15,0x62,0xa5,0x58,0x25,0x56,0x0b,0xd1,
+0x61,0x8d,0x58,0x13,0xb6,0x06,0x5b,0x8f,0x6d,0xf8,0xa7,0xa5,0x09,0xdb,0x02,0x69,
+0xc3,0x76,0xfd,0x9d,0xe9,0xfd,0x05,0x33,0x76,0xc0,0xc6,0xfd,0x5f,0x18,0xc2,0x7e,
+0x87,0x7d,0x8c,0x9d,0xc0,0x3e,0xc5,0xce,0x60,0x5f,0x62,0x5f,0x41,0xde,0x40,0xec,
+0x36,0x39,0x6e,0x72,0xff,0x2b,0xf0,0xde,0xe4,0xb7,0x89,0xb8,0x29,0x78,0x53,0xf8,
+0xa6,0xe8,0x4d,0x29,0x7f,0x05,0x69,0x9b,0x32,0x37,0xf1,0x36,0x89,0x36,0xc9,0x36,
+0xc9,0x37,0x29,0x37,0xa9,0x37,0xe9,0x37,0x7d,0xba,0xa9,0x7e,0x53,0xe3,0xa6,0xa6,
+0xbf,0x98,0xe6,0x4d,0xad,0x9b,0xda,0x37,0x75,0x6c,0xea,0xdc,0xd4,0xbd,0xa9,0xd7,
+0x8a,0x79,0x53,0xdf,0x1f,0x70,0x7f,0xd3,0x43,0xc8,0x63,0x1b,0x13,0xbf,0xf0,0x6c,
+0xd3,0xec,0xa6,0x85,0x3f,0xca,0xeb,0xbf,0x11,0xb0,0xf9,0x2f,0xc1,0x61,0x33,0x0e,
+0xe2,0x6e,0xc3,0xfb,0x17,0xfc,0x36,0x13,0x37,0x07,0xff,0x85,0x84,0x6f,0x8e,0xfe,
+0x5f,0x48,0xc2,0xe6,0xd4,0xff,0x0b,0x19,0x9b,0x39,0x9b,0x05,0x9b,0x25,0x56,0x14,
+0x9b,0xb5,0x56,0xaa,0x36,0xd7,0x6d,0x6e,0xda,0xdc,0xb6,0xb9,0x6b,0x73,0x9f,0x95,
+0xfb,0x9b,0x1f,0x6e,0x7e,0xbc,0x79,0x62,0xf3,0xb3,0xcd,0xb3,0x56,0x16,0x36,0xbf,
+0xde,0x0c,0x1c,0x1d,0x1c,0x71,0x8e,0xee,0x8e,0xde,0x8e,0x7e,0x8e,0x44,0xc7,0x60,
+0xc7,0x70,0xc7,0x68,0x2b,0x09,0x8e,0xa9,0x6b,0xfc,0x49,0x58,0x8e,0x19,0x6b,0xfc,
+0x55,0x70,0x1c,0x05,0x8e,0x12,0x47,0x85,0xa3,0xf6,0x7f,0x31,0x3a,0x47,0x93,0x63,
+0xbd,0x63,0xb3,0x63,0xdb,0xff,0x32,0xba,0x20,0x7d,0xff,0x2d,0xf7,0xff,0x6e,0xac,
+0x7d,0x9f,0xfb,0xad,0xf3,0xf7,0x88,0xaa,0x87,0x7f,0xc0,0x63,0x2b,0x13,0xbf,0x12,
+0xcf,0x1c,0x67,0x1d,0x17,0x1c,0x5f,0x3b,0x02,0x27,0x07,0x27,0x9c,0x93,0xfb,0xbf,
+0x28,0xde,0x4e,0x7e,0xff,0x0d,0x44,0xa7,0x60,0x48,0xf8,0x3f,0x0d,0xd1,0x56,0x12,
+0x7e,0x15,0x52,0x9d,0x32,0x9c,0x38,0x56,0x04,0x6b,0xfc,0x0b,0x22,0xb1,0xa2,0x70,
+0xd2,0xfe,0x37,0x54,0x39,0xd5,0xfd,0x43,0x69,0xfa,0x07,0xd2,0xe6,0xd4,0xe5,0xd4,
+0xf7,0x9b,0xe5,0xfe,0x6f,0x8c,0x87,0xbf,0xc7,0x63,0xa7,0x09,0xc8,0x33,0xa7,0x97,
+0xbf,0x71,0x5e,0x39,0xbd,0x71,0xb2,0x7b,0x67,0x8d,0x3f,0x85,0x23,0xc4,0xf5,0x1d,
+0xef,0x77,0xfc,0xfe,0x69,0xf0,0x7f,0x87,0xf8,0x9b,0x86,0xf4,0x4e,0xf0,0xaf,0x0c,
+0xf5,0x9d,0x88,0x77,0xa2,0xff,0xae,0xd0,0xde,0xa1,0xff,0x43,0x49,0xf9,0x23,0xa4,
+0xfd,0x42,0xe6,0x2f,0xf0,0x7e,0x41,0xf4,0x27,0x91,0xfd,0x11,0x54,0x10,0xc3,0x3b,
+0x35,0xef,0x34,0xbd,0xd3,0xfe,0x4e,0xef,0x1f,0x30,0xf0,0x67,0xf0,0xe0,0x8f,0xf0,
+0xe8,0x17,0x9e,0xfc,0xc2,0xd3,0x5f,0x98,0xf9,0x93,0xbc,0xfc,0x17,0xe6,0xd5,0x1a,
+0xff,0x24,0x2c,0xbd,0xf3,0xfa,0x8f,0x02,0x9c,0x81,0xb3,0x03,0x04,0x07,0x71,0x87,
+0x78,0xdb,0xf0,0xfb,0xd5,0x21,0x42,0x82,0xad,0x84,0x3b,0x47,0x43,0x12,0xd6,0xf8,
+0x17,0x23,0xd1,0x99,0xe9,0xcc,0x72,0x4e,0x73,0x4e,0x77,0x66,0x3b,0x67,0x39,0x73,
+0x9d,0xf9,0xce,0x42,0x67,0xb1,0xb3,0xd4,0x59,0xee,0xac,0x74,0x56,0x3b,0x6b,0x9d,
+0x75,0xce,0x46,0x67,0x93,0x73,0x8d,0x73,0xbd,0x73,0xa3,0x73,0xb3,0x73,0xab,0x73,
+0xbb,0x73,0xa7,0x73,0xb7,0xb3,0xd9,0xb9,0xdf,0x79,0xd0,0x79,0xc8,0x79,0xd8,0x79,
+0xc4,0x79,0xd4,0xf9,0xb1,0xf3,0x98,0xf3,0xb8,0xf3,0xa4,0xf3,0x94,0xf3,0xb4,0xb3,
+0xc5,0x79,0xce,0x79,0xde,0x79,0xd1,0x79,0xc9,0x79,0xd9,0x79,0xc5,0x19,0x83,0xb3,
+0xc7,0x61,0x71,0x4e,0x38,0x17,0x9c,0x1b,0xce,0x03,0xe7,0x85,0xf3,0xc1,0xe1,0x71,
+0xfe,0x38,0x02,0x8e,0x84,0xa3,0xe0,0xa8,0xb8,0x30,0x5c,0xf8,0x9f,0x24,0x02,0x17,
+0xf9,0x2b,0x10,0x85,0xa3,0xe1,0x18,0xb8,0x44,0x1c,0x13,0xc7,0xc2,0xa5,0xe3,0xd8,
+0xb8,0x2c,0x1c,0x17,0xc7,0xc7,0x09,0x71,0x62,0x9c,0x14,0x27,0xc7,0x29,0x71,0x6a,
+0x9c,0x0e,0x67,0xc4,0x99,0x70,0x35,0xb8,0x7a,0x5c,0x23,0xae,0x19,0xd7,0x8a,0x6b,
+0xc7,0x75,0xe2,0xba,0x71,0x66,0x5c,0x3f,0x6e,0x10,0x37,0x84,0x1b,0xc6,0x8d,0xe0,
+0x46,0x71,0x63,0xb8,0x71,0xdc,0xc4,0xff,0x02,0x9e,0xe1,0x66,0x71,0x0b,0xb8,0xd7,
+0x38,0xe0,0xe2,0xe0,0x82,0x73,0x71,0x77,0xf1,0x75,0x21,0xba,0x04,0xbb,0x84,0xbb,
+0x44,0xbb,0x24,0xb8,0xa4,0xba,0x64,0xb8,0x70,0x5c,0x04,0x2e,0x12,0x17,0x85,0x8b,
+0xc1,0xa5,0xce,0xa5,0xc5,0xa5,0xcb,0xa5,0xcf,0xe5,0xbe,0xcb,0x43,0x97,0xc7,0x2e,
+0x4f,0x5d,0x66,0x5d,0x16,0x5c,0x5e,0xbb,0x80,0x2d,0x0e,0x5b,0x70,0x5b,0xdc,0xb7,
+0x78,0x6f,0xf1,0xdb,0x42,0xdc,0x12,0xbc,0x25,0x7c,0x4b,0xf4,0x96,0x84,0x2d,0xa9,
+0x5b,0x32,0xb6,0x70,0xb6,0x88,0xb6,0x28,0xb6,0x68,0xb7,0x54,0x6d,0xa9,0xdb,0xd2,
+0xb4,0xa5,0x6d,0x4b,0xd7,0x96,0xbe,0x2d,0xf7,0xb7,0x3c,0xda,0x32,0xb1,0xe5,0xd9,
+0x96,0xd9,0x2d,0x0b,0x5b,0x5e,0x6f,0x01,0x5b,0x1d,0xb6,0xe2,0xb6,0xba,0x6f,0xf5,
+0xde,0xea,0xb7,0x95,0xb8,0x35,0x78,0x6b,0xf8,0xd6,0xe8,0xad,0x09,0x5b,0x53,0xb7,
+0x66,0x6c,0xe5,0x6c,0x15,0x6d,0x55,0x6c,0x35,0x6c,0xad,0xdb,0xda,0xb2,0xb5,0x6b,
+0xeb,0xc0,0xd6,0x87,0x5b,0x1f,0x6f,0x9d,0xd8,0xfa,0x6c,0xeb,0xec,0xd6,0x85,0xad,
+0xaf,0xb7,0x02,0x57,0x07,0x57,0x57,0x57,0x6f,0x57,0x3f,0x57,0xa2,0x6b,0xb0,0x6b,
+0xb8,0x6b,0xb4,0x6b,0x82,0x6b,0x9a,0x2b,0xc7,0x55,0xe4,0xaa,0x70,0x35,0xb8,0xd6,
+0xb9,0x36,0xb9,0xb6,0xb9,0x76,0xb9,0xf6,0xb9,0xde,0x77,0x7d,0xe8,0xfa,0xd8,0x75,
+0xc2,0xf5,0x99,0xeb,0xac,0xeb,0x82,0xeb,0x6b,0x57,0xe0,0xe6,0xe0,0xe6,0xea,0xe6,
+0xed,0x16,0xe0,0x16,0xec,0x16,0xee,0x16,0xed,0x96,0xe0,0x96,0xea,0x96,0xe1,0xc6,
+0x71,0x13,0xb8,0x49,0xdc,0x14,0x6e,0x5a,0xb7,0x2a,0xb7,0x3a,0xb7,0x26,0xb7,0x36,
+0xb7,0x2e,0xb7,0x3e,0xb7,0xfb,0x6e,0x0f,0xdd,0x1e,0xbb,0x4d,0xb8,0x3d,0x73,0x9b,
+0x75,0x5b,0x70,0x7b,0xed,0x06,0xb6,0x39,0x6c,0xc3,0x6d,0x73,0xdf,0xe6,0xbd,0xcd,
+0x7f,0xdb,0x7b,0xdb,0x82,0x7f,0x21,0x7c,0x5b,0xf4,0xb6,0x84,0x6d,0xa9,0xdb,0x32,
+0xb7,0x09,0xb6,0xc9,0xb6,0x69,0xb7,0x55,0x6f,0x6b,0xda,0xd6,0xb1,0xad,0x6f,0xdb,
+0x83,0x6d,0x8f,0xb7,0x3d,0xdd,0x36,0xbb,0xed,0xd5,0x36,0xb0,0xdd,0x71,0xbb,0xfb,
+0x76,0xdf,0xed,0xc4,0xed,0xa1,0xdb,0xa3,0xb7,0x27,0x6c,0x4f,0xdd,0x9e,0xb1,0x9d,
+0xb3,0x5d,0xb0,0x5d,0xb2,0x5d,0xb5,0xbd,0x6a,0x7b,0xc3,0xf6,0xb6,0xed,0xbd,0xdb,
+0xef,0x6f,0x7f,0xb4,0x7d,0x62,0xfb,0xcc,0xf6,0x85,0xed,0xaf,0xb7,0x03,0x77,0x07,
+0x77,0x9c,0xbb,0xbb,0xbb,0xb7,0xbb,0x9f,0x3b,0xd1,0x3d,0xd4,0x3d,0xda,0x3d,0xc5,
+0x3d,0xc3,0x9d,0xe7,0x2e,0x71,0x57,0xb9,0x57,0xb9,0x37,0xb8,0xb7,0xb9,0xf7,0xba,
+0xdf,0x77,0x7f,0xe4,0x3e,0xe1,0x3e,0xe3,0xbe,0xe0,0xfe,0xc6,0xdd,0xc1,0xc3,0xd5,
+0xc3,0xdb,0xc3,0xcf,0x83,0xe8,0x11,0xec,0x11,0xee,0x41,0xf7,0x48,0xf5,0xc8,0xf4,
+0x10,0x78,0xc8,0x3c,0xb4,0x1e,0xd5,0x1e,0x4d,0x1e,0x1d,0x1e,0x7d,0x1e,0xf7,0x3d,
+0x1e,0x7a,0x3c,0xf6,0x98,0xf0,0x78,0xe6,0x31,0xeb,0xb1,0xe0,0xf1,0xfa,0x0f,0x00,
+0x3b,0x1c,0x76,0xb8,0xee,0xf0,0xde,0x11,0xb0,0x23,0x78,0x47,0xe4,0x8e,0x84,0x1d,
+0xa9,0x3b,0x32,0x76,0xf0,0x76,0x48,0x76,0xa8,0x76,0x54,0xed,0x68,0xd8,0xd1,0xb6,
+0xa3,0x6b,0x47,0xdf,0x8e,0x07,0x3b,0x1e,0xef,0x78,0xba,0x63,0xd6,0xca,0xc2,0x8e,
+0xd7,0x3b,0xec,0x76,0xe2,0x76,0x7a,0xee,0xf4,0xb3,0x42,0xdc,0x19,0xbc,0x33,0x72,
+0x67,0xc2,0xce,0xb4,0x9d,0x9c,0x9d,0xa2,0x9d,0x8a,0x9d,0xda,0x9d,0x55,0x3b,0x1b,
+0x76,0xb6,0xed,0xec,0xdd,0x79,0x7f,0xe7,0xa3,0x9d,0x13,0x3b,0x9f,0xed,0x9c,0xdd,
+0xf9,0x6a,0x27,0xf0,0x74,0xf4,0x74,0xf7,0xf4,0xf5,0x24,0x7a,0x06,0x7b,0x86,0x7b,
+0xd2,0x3d,0x53,0x3d,0x33,0x3d,0x05,0x9e,0x32,0x4f,0xad,0x67,0x95,0x67,0x9d,0x67,
+0x8b,0x67,0x97,0xe7,0x80,0xe7,0x43,0x2b,0x8f,0x3d,0x27,0x3c,0x67,0x3c,0x17,0x3c,
+0xdf,0x78,0x3a,0x78,0x21,0x70,0x5e,0xee,0x5e,0xbe,0x5e,0x44,0xaf,0x50,0xaf,0x68,
+0xaf,0x14,0xaf,0x0c,0x08,0x07,0x22,0x82,0x28,0x20,0x06,0xaf,0x6a,0xaf,0x06,0xaf,
+0x36,0xaf,0x5e,0xaf,0xfb,0x5e,0x8f,0xbc,0x26,0xbc,0x66,0xbc,0x5e,0x7a,0xbd,0xf2,
+0x02,0xbb,0x1c,0x77,0xb9,0xef,0xf2,0xdd,0x45,0xdc,0x15,0xba,0x2b,0x72,0x17,0x7d,
+0x57,0xca,0xae,0xb4,0x5d,0x99,0xbb,0x78,0xbb,0x44,0xbb,0x64,0xbb,0x54,0xbb,0x0c,
+0xbb,0xaa,0x77,0x35,0xec,0x6a,0xd9,0xd5,0x61,0xa5,0x6f,0xd7,0x83,0x5d,0x4f,0x76,
+0xcd,0xec,0x7a,0xb5,0xcb,0xee,0x5d,0xd7,0x77,0x7d,0xdf,0x25,0xbe,0x1b,0xfa,0x2e,
+0xfd,0xdd,0xb4,0x77,0x79,0xef,0xca,0xde,0x35,0xbc,0xdb,0xf0,0x6e,0xdb,0xbb,0xbd,
+0xef,0x3e,0x78,0xf7,0xc9,0xbb,0x33,0xef,0xbe,0x7a,0xd7,0xce,0xdb,0xd5,0xdb,0xdb,
+0x3b,0xc0,0x3b,0xd4,0x9b,0xee,0x9d,0xe6,0xcd,0xf3,0x96,0x79,0x1b,0xbc,0xeb,0xbc,
+0x5b,0xbc,0x7b,0xbd,0x1f,0x78,0x3f,0xf1,0x9e,0xf1,0x7e,0xe5,0x6d,0xe7,0x83,0xf3,
+0xf1,0xf4,0x09,0xf0,0x09,0xf5,0xa1,0xfb,0xa4,0xf9,0xf0,0x7c,0x64,0x3e,0x2a,0x1f,
+0x83,0x4f,0x9d,0x4f,0x93,0x4f,0x07,0xa4,0xd7,0xe7,0xbe,0xcf,0x43,0x9f,0xc7,0x3e,
+0x13,0x3e,0xcf,0x7c,0xe6,0x7c,0x16,0x7c,0x96,0x7c,0x56,0x7c,0x36,0xec,0x76,0xdc,
+0xed,0xbe,0xdb,0x7b,0x77,0x00,0x84,0xbc,0x3b,0x7c,0x77,0xf4,0xee,0x84,0xdd,0xa9,
+0xbb,0x33,0x76,0xe7,0xec,0xce,0xdb,0x5d,0xb4,0x5b,0xb1,0x5b,0xbb,0xbb,0x6a,0x77,
+0xc3,0xee,0x36,0x2b,0x5d,0xbb,0x07,0x76,0x3f,0xd8,0xfd,0x68,0xf7,0x93,0xdd,0x4f,
+0x77,0xff,0x3f,0xbb,0x9f,0xef,0xfe,0x7f,0x77,0xbf,0xda,0xfd,0x66,0xb7,0xdd,0x1e,
+0xdc,0x1e,0xcf,0x3d,0xbe,0x7b,0x02,0xf6,0x90,0xf7,0x84,0xef,0x89,0xde,0x93,0xb0,
+0x27,0x75,0x4f,0xc6,0x9e,0x9c,0x3d,0x79,0x7b,0x24,0x7b,0x64,0x56,0xb4,0x7b,0xaa,
+0xf6,0x34,0x40,0x5a,0xf6,0x74,0xed,0xe9,0xdb,0x73,0x7f,0xcf,0xc3,0x3d,0x8f,0xf7,
+0xfc,0xb0,0x67,0x6a,0xcf,0x0c,0xe4,0xf9,0x9e,0xff,0xdc,0x33,0xbf,0x67,0x71,0xcf,
+0xd2,0x9e,0xe5,0x3d,0x2b,0x7b,0x30,0xbe,0xf6,0xbe,0x58,0x5f,0x27,0x5f,0xdc,0x5b,
+0xb8,0xf8,0xba,0xfe,0x82,0x9b,0xaf,0xe7,0x9f,0xc0,0xcb,0xd7,0xc7,0xd7,0xdf,0x97,
+0xfc,0x07,0x50,0x7c,0x83,0xad,0x50,0x7d,0x23,0x7c,0xe9,0xbe,0x0c,0x5f,0xa6,0x6f,
+0x86,0x0d,0xb6,0x2f,0xc7,0x97,0xeb,0x2b,0xf8,0x03,0x84,0xbe,0x52,0x5f,0xa5,0xaf,
+0xf6,0x4f,0xa2,0xf3,0xad,0xfb,0x3d,0xea,0x7d,0x1b,0xfe,0x1b,0x1a,0x7d,0x9b,0x7d,
+0x5b,0x20,0xad,0xbe,0xed,0xbe,0x9d,0xbe,0xdd,0xbe,0x66,0xdf,0x7e,0xdf,0x41,0xdf,
+0x21,0xdf,0x61,0xdf,0x11,0xdf,0x51,0xdf,0x31,0xdf,0x71,0xdf,0x49,0xdf,0x29,0xdf,
+0x69,0x5f,0x8b,0xef,0x9c,0xef,0xbc,0xef,0xa2,0xef,0x92,0xef,0xb2,0xef,0x8a,0x2f,
+0x06,0x6f,0x8f,0xc7,0xe2,0x9d,0xf0,0x38,0xbc,0x0b,0xde,0x0d,0xef,0x81,0xf7,0xc2,
+0xfb,0xe0,0xf1,0x78,0x7f,0x3c,0x01,0x4f,0xc2,0x53,0xf0,0x54,0x7c,0x18,0x3e,0x02,
+0x1f,0xf9,0x47,0x89,0xc2,0xd3,0xff,0xc9,0x60,0xe0,0x59,0xf8,0x2c,0x3c,0x17,0x2f,
+0xc0,0x0b,0xf1,0x72,0xbc,0x0e,0x6f,0xc0,0x1b,0xf1,0x35,0xf8,0x7a,0x7c,0x23,0xbe,
+0x19,0xdf,0x8a,0x6f,0xc7,0x77,0xe2,0xbb,0xf1,0x66,0x7c,0x3f,0x7e,0x00,0x3f,0x88,
+0x1f,0xc2,0x3f,0x84,0x8c,0xe0,0x47,0xf1,0x63,0xf8,0x71,0xfc,0x24,0xfe,0x29,0x64,
+0x0a,0x6f,0xc1,0x2f,0xe2,0x5f,0xe3,0x97,0xf1,0x6f,0x20,0x60,0x2f,0x66,0xaf,0x1d,
+0xc4,0x61,0xaf,0xcb,0x5e,0xb7,0xbd,0xee,0x7b,0x3d,0xf6,0x7a,0xed,0xf5,0xd9,0xeb,
+0xbb,0x17,0xbf,0xd7,0x7f,0x2f,0x61,0x2f,0x69,0x2f,0x65,0x2f,0x75,0x6f,0xd8,0xde,
+0xf0,0xbd,0x11,0x7b,0x19,0x7b,0x13,0xf7,0x32,0xf7,0xb2,0xf6,0xa6,0xef,0xcd,0xb0,
+0xc1,0xde,0x9b,0xb5,0x97,0xbb,0x97,0xbf,0x57,0xb8,0x57,0xf4,0x16,0xe2,0xbd,0xca,
+0xbd,0xc6,0xbd,0x8d,0x7b,0xdb,0xf7,0x9a,0xf7,0x0e,0xed,0x1d,0xdd,0x3b,0xb9,0xd7,
+0xb2,0x77,0x71,0xef,0xca,0x5e,0xec,0x3e,0xb7,0x7d,0x3e,0xfb,0x08,0xfb,0x28,0xfb,
+0xa8,0xfb,0x22,0xf6,0x31,0xf6,0x31,0xf7,0xb1,0xf6,0xb1,0xf7,0xf1,0xf7,0xc9,0xf7,
+0xa9,0xf7,0xe9,0xf6,0x99,0xf6,0x35,0xee,0x6b,0xde,0xd7,0xba,0xaf,0x7d,0x5f,0xe7,
+0xbe,0xee,0x7d,0xfd,0xfb,0x86,0xf7,0x8d,0xee,0x1b,0xdb,0x37,0xb9,0xcf,0xb2,0x6f,
+0x69,0xdf,0xca,0x3e,0x8c,0x1f,0xd6,0xcf,0xcd,0xcf,0xc3,0xcf,0xcb,0xcf,0xc7,0xcf,
+0xf7,0xbf,0x80,0xf7,0x23,0xfe,0xb7,0x04,0xfb,0x85,0xff,0x59,0x44,0xff,0x4d,0x24,
+0xf8,0xa5,0xfa,0x65,0xfc,0x03,0xe1,0xfc,0x82,0xc0,0x8a,0xe4,0x2f,0x44,0x01,0xd1,
+0xfe,0x82,0xce,0xcf,0xe4,0xd7,0xe0,0xd7,0xe8,0xd7,0xea,0xd7,0xf5,0xdf,0xd2,0x67,
+0xe5,0xbe,0x95,0x87,0x90,0xc7,0x7f,0x11,0x13,0x90,0x67,0x7f,0x94,0x59,0xbf,0x05,
+0xbf,0xd7,0x7e,0xc0,0xdf,0xc1,0x0a,0xce,0xdf,0xdd,0x8a,0xb7,0xbf,0xdf,0xef,0x41,
+0xf4,0x0f,0xb6,0x12,0xee,0x1f,0x6d,0x25,0xc1,0x3f,0xf5,0x57,0x21,0xc3,0x9f,0xe3,
+0x2f,0xf0,0x97,0xfc,0xdd,0x51,0xf8,0x6b,0xfd,0xab,0xfc,0xeb,0x7e,0x8f,0x26,0xff,
+0x36,0xff,0x2e,0xff,0xbe,0xff,0x31,0x06,0xfc,0xef,0xaf,0xb1,0xc6,0x3f,0x88,0x21,
+0xff,0x61,0xff,0x11,0xff,0x51,0xff,0x31,0xff,0x71,0xff,0x49,0xff,0x29,0xff,0x69,
+0x7f,0x8b,0xff,0xbc,0xff,0x92,0xff,0x8a,0xbf,0xfd,0x7e,0xa7,0xfd,0x6e,0xfb,0xbd,
+0xf6,0xe3,0xf7,0x13,0xf6,0x53,0xf6,0x87,0xed,0xa7,0xed,0x67,0xee,0x67,0xef,0xe7,
+0xef,0x97,0xee,0x57,0xef,0x37,0xed,0x6f,0xdc,0xdf,0xbe,0xbf,0x7f,0xff,0xc8,0xfe,
+0xc9,0xfd,0x73,0xfb,0x97,0xf7,0x63,0x0f,0x78,0x1c,0xf0,0x3f,0x40,0x3d,0x40,0x3b,
+0xc0,0x3a,0xc0,0x3e,0xc0,0x3d,0x20,0x3c,0x20,0x3d,0xa0,0x3c,0xa0,0x3b,0x60,0x3a,
+0x50,0x7f,0xa0,0xf9,0x40,0xe7,0x81,0xfe,0x03,0xc3,0x07,0xc6,0x0e,0x4c,0x1d,0x98,
+0x3b,0xb0,0x74,0x00,0x13,0xe0,0x14,0xe0,0x11,0x80,0x0f,0x20,0x05,0x84,0x05,0xd0,
+0x02,0x98,0x01,0xec,0x00,0x7e,0x80,0x34,0x40,0x1d,0x60,0x0a,0x68,0x0c,0x68,0x0f,
+0x30,0x07,0x0c,0x05,0x8c,0x06,0x4c,0x06,0x58,0x02,0x16,0x03,0x56,0x02,0xb0,0x04,
+0x37,0x82,0x0f,0x81,0x40,0xa0,0x12,0xa2,0x08,0x89,0x84,0x74,0x02,0x9b,0x90,0x45,
+0xe0,0x12,0xf8,0x04,0x21,0x41,0x4c,0x90,0x12,0xe4,0x04,0x25,0x41,0x4d,0xd0,0x11,
+0x8c,0x04,0x13,0xa1,0x86,0x50,0x4f,0x68,0x24,0x34,0x13,0x5a,0x09,0xed,0x84,0x4e,
+0x42,0x37,0xc1,0x4c,0xe8,0x27,0x0c,0x12,0x86,0x08,0xc3,0x84,0x11,0xc2,0x28,0x61,
+0x8c,0x30,0x4e,0x98,0x24,0x4c,0x11,0xa6,0x09,0x16,0xc2,0x1c,0x61,0x9e,0xb0,0x48,
+0x58,0x22,0x2c,0x13,0x56,0x08,0x98,0x40,0xfb,0x40,0x6c,0xa0,0x53,0xa0,0x4b,0xa0,
+0x5b,0xa0,0x47,0xa0,0x57,0xa0,0x4f,0x20,0x3e,0xd0,0x3f,0x90,0x10,0x48,0xfc,0x15,
+0x20,0x05,0x86,0xff,0x4b,0x11,0x11,0xc8,0x08,0x64,0x06,0x66,0xfc,0x0b,0xc1,0x59,
+0xe3,0x6f,0x82,0x1b,0xc8,0x0f,0x14,0xac,0xf1,0x2f,0x8f,0x30,0x50,0xb4,0xc6,0x1a,
+0x7f,0x47,0xc4,0x81,0x92,0x7f,0x0a,0xa4,0x81,0xb2,0x3f,0x89,0x3c,0x50,0x19,0xa8,
+0x0e,0xd4,0x05,0x1a,0x03,0x4d,0x81,0x35,0x81,0xf5,0x81,0x8d,0x81,0xcd,0x81,0xad,
+0x81,0xed,0x81,0x9d,0x81,0xdd,0x81,0xe6,0xc0,0xfe,0xc0,0xc1,0xc0,0xa1,0xc0,0xe1,
+0xc0,0x91,0xc0,0xd1,0xc0,0xb1,0xc0,0xf1,0xc0,0xc9,0xc0,0xa9,0xc0,0xe9,0x40,0x4b,
+0xe0,0x5c,0xe0,0x7c,0xe0,0x62,0xe0,0x52,0xe0,0x72,0xe0,0x4a,0x20,0x26,0xc8,0x3e,
+0x08,0x1b,0xe4,0x14,0xe4,0x12,0xe4,0x16,0xe4,0x11,0xe4,0x15,0xe4,0x13,0x84,0x0f,
+0xf2,0x0f,0x22,0x04,0x91,0x82,0x28,0x41,0xd4,0xa0,0xb0,0xa0,0x88,0xa0,0xa8,0x20,
+0x5a,0x10,0x23,0x28,0x31,0x88,0x19,0xc4,0x0a,0x4a,0x0f,0x62,0x07,0x65,0x05,0x71,
+0x83,0xf8,0x41,0xc2,0x20,0x71,0x90,0x34,0x48,0x1e,0xa4,0x0c,0x52,0x07,0xe9,0x82,
+0x8c,0x41,0xa6,0xa0,0x9a,0xa0,0xfa,0xa0,0xc6,0xa0,0xe6,0xa0,0xd6,0xa0,0xf6,0xa0,
+0xce,0xa0,0xee,0x20,0x73,0x50,0x7f,0xd0,0x60,0xd0,0x50,0xd0,0x70,0xd0,0x48,0xd0,
+0x68,0xd0,0x58,0xd0,0x78,0xd0,0x64,0xd0,0x54,0xd0,0x74,0x90,0x25,0x68,0x2e,0x68,
+0x3e,0x68,0x31,0x68,0x29,0x68,0x39,0x68,0x25,0x08,0x43,0xb4,0x27,0x62,0x89,0x4e,
+0x44,0x17,0xa2,0x1b,0xd1,0x83,0xe8,0x45,0xf4,0x21,0xe2,0x89,0xfe,0x44,0x02,0x91,
+0x44,0xa4,0x10,0xa9,0xc4,0x30,0x62,0x04,0x31,0x8a,0x48,0x23,0x32,0x88,0x89,0x44,
+0x26,0x91,0x45,0x4c,0x27,0xb2,0x89,0x59,0x44,0x2e,0x91,0x4f,0x14,0x12,0xc5,0x44,
+0x29,0x51,0x4e,0x54,0x12,0xd5,0x44,0x1d,0xd1,0x48,0x34,0x11,0x6b,0x88,0xf5,0xc4,
+0x46,0x62,0x33,0xb1,0x95,0xd8,0x4e,0xec,0x24,0x76,0x13,0xcd,0xc4,0x7e,0xe2,0x20,
+0x71,0x88,0x38,0x4c,0x1c,0x21,0x8e,0x12,0xc7,0x88,0xe3,0xc4,0x49,0xe2,0x14,0x71,
+0x9a,0x68,0x21,0xce,0x11,0xe7,0x89,0x8b,0xc4,0x25,0xe2,0x32,0x71,0x85,0x88,0x21,
+0xd9,0x93,0xb0,0x24,0x27,0x92,0x0b,0xc9,0x8d,0xe4,0x41,0xf2,0x22,0xf9,0x90,0xf0,
+0x24,0x7f,0x12,0x81,0x44,0x22,0x51,0x48,0x54,0x52,0x18,0x29,0x82,0x14,0x45,0xa2,
+0x91,0x18,0xa4,0x44,0x12,0x93,0xc4,0x22,0xa5,0x93,0xd8,0xa4,0x2c,0x12,0x97,0xc4,
+0x27,0x09,0x49,0x62,0x92,0x94,0x24,0x27,0x29,0x49,0x6a,0x92,0x8e,0x64,0x24,0x99,
+0x48,0x35,0xa4,0x7a,0x52,0x23,0xa9,0x99,0xd4,0x4a,0x6a,0x27,0x75,0x92,0xba,0x49,
+0x66,0x52,0x3f,0x69,0x90,0x34,0x44,0x1a,0x26,0x8d,0x90,0x46,0x49,0x63,0xa4,0x27,
+0x7f,0x17,0xc6,0x49,0x13,0xff,0x30,0x26,0x49,0x4f,0x49,0x53,0xa4,0x69,0x92,0x85,
+0x34,0xfb,0x67,0xb0,0x00,0x79,0x0d,0x01,0xef,0x81,0xf7,0x1c,0x20,0x38,0x88,0x3b,
+0xc4,0x1b,0xe2,0x07,0x21,0x42,0x82,0x21,0xe1,0x90,0x68,0x2b,0x09,0x90,0x54,0x48,
+0xc6,0xef,0xc1,0x79,0x4f,0x00,0x91,0xbc,0xa7,0x80,0x68,0xdf,0xab,0x82,0xd4,0xbd,
+0xd7,0x04,0x69,0x7b,0xaf,0xeb,0x2f,0xa2,0xef,0x2d,0xfa,0xdf,0x1b,0x7a,0xef,0x21,
+0x64,0xec,0xbd,0x89,0x3f,0xc9,0x33,0xc8,0x2c,0x64,0x01,0xf2,0x1a,0x02,0x0e,0x82,
+0x83,0x0e,0x10,0x1c,0xc4,0x1d,0xe2,0x0d,0xf1,0x83,0x10,0x21,0xc1,0x56,0xc2,0x21,
+0xd1,0x90,0x84,0xdf,0x23,0xf5,0x60,0x06,0x84,0x73,0x50,0x00,0x91,0x1c,0x54,0x40,
+0xb4,0x07,0xab,0x20,0x75,0x07,0x9b,0xfe,0x22,0xda,0xac,0x74,0x1d,0xec,0x3b,0x78,
+0xff,0xe0,0x43,0x1b,0x63,0x07,0x27,0xfe,0x01,0x4c,0x1e,0x9c,0x3a,0x38,0x7d,0xd0,
+0x72,0x70,0xee,0xe0,0xfc,0xc1,0xc5,0x83,0x4b,0x07,0x97,0x0f,0xae,0x1c,0xc4,0x90,
+0xed,0xc9,0x58,0xb2,0x13,0xd9,0x85,0xec,0x46,0xf6,0x20,0x7b,0x91,0x7d,0xc8,0x78,
+0xb2,0x3f,0x99,0x40,0x26,0x91,0x29,0x64,0x2a,0x39,0x8c,0x1c,0x41,0x8e,0x22,0xd3,
+0xc8,0x0c,0x72,0x22,0x99,0x49,0x66,0x91,0xd3,0xc9,0x6c,0x72,0x16,0x99,0x4b,0xe6,
+0x93,0x85,0x64,0x31,0x59,0x4a,0x96,0x93,0x95,0x64,0x35,0x59,0x47,0x36,0x92,0x4d,
+0xe4,0x1a,0x72,0x3d,0xb9,0x91,0xdc,0x4c,0x6e,0x25,0xb7,0x93,0x3b,0xc9,0xdd,0x64,
+0x33,0xb9,0x9f,0x3c,0x48,0x1e,0x22,0x0f,0x93,0x47,0xc8,0xa3,0xe4,0x31,0xf2,0x38,
+0x79,0x92,0x3c,0x45,0x9e,0x26,0x5b,0xc8,0x73,0xe4,0x79,0xf2,0x22,0x79,0x89,0xbc,
+0x4c,0x5e,0x21,0x63,0x28,0xf6,0x14,0x2c,0xc5,0x89,0xe2,0x42,0x71,0xa3,0x78,0x50,
+0xbc,0x28,0x3e,0x14,0x3c,0xc5,0x9f,0x42,0xa0,0x90,0x28,0x14,0x0a,0x95,0x12,0x46,
+0x89,0xa0,0x44,0x51,0x68,0x14,0x06,0x25,0xc1,0x4a,0x22,0x85,0x49,0x61,0x51,0xd2,
+0x29,0x6c,0x4a,0x16,0x85,0x4b,0xe1,0x53,0x84,0x14,0x31,0x45,0x4a,0x91,0x53,0x94,
+0x14,0x35,0x45,0xfb,0x4f,0x8f,0x8e,0x52,0x43,0x69,0xa6,0x74,0x52,0xfa,0x29,0xc3,
+0x94,0x31,0xca,0x14,0x65,0x8e,0xb2,0x44,0xc1,0xbc,0xef,0xf4,0xbe,0xc7,0xfb,0xf8,
+0xf7,0x49,0xef,0x47,0xbc,0x9f,0xf8,0x3e,0xfb,0x7d,0xe1,0xfb,0xca,0xf7,0x4d,0xef,
+0x37,0xbf,0xdf,0xfd,0xfe,0xd0,0xfb,0x63,0xef,0x4f,0xbf,0xbf,0xf8,0x3e,0xe6,0x03,
+0x97,0x0f,0x7c,0x3e,0x08,0xfb,0x20,0xe5,0x03,0xe6,0x07,0xec,0x0f,0xf8,0x1f,0x48,
+0x3f,0x50,0x7f,0x60,0xfa,0xa0,0xf1,0x83,0xf6,0x0f,0xcc,0x1f,0x0c,0x7d,0x30,0xfa,
+0xc1,0xe4,0x07,0x96,0x0f,0x16,0x3f,0x58,0xf9,0x00,0x1b,0xec,0x16,0xec,0x13,0x4c,
+0x08,0xa6,0x06,0x47,0x05,0x27,0x06,0xa7,0x07,0x73,0x83,0xc5,0xc1,0xca,0x60,0x63,
+0x70,0x7d,0x70,0x6b,0x70,0x77,0xf0,0x60,0xf0,0x48,0xf0,0x78,0xf0,0x74,0xf0,0x7c,
+0xf0,0x72,0xb0,0x3d,0x15,0x4b,0x75,0xa2,0xba,0x50,0x5d,0xff,0x00,0x37,0xaa,0x0f,
+0xd5,0x9f,0x4a,0xa2,0x52,0xa9,0x11,0x54,0x1a,0x35,0x91,0xca,0xa2,0xb2,0xa9,0x5c,
+0xaa,0x90,0x2a,0xa5,0x2a,0xa9,0x3a,0xaa,0x89,0x5a,0x4f,0x6d,0xa4,0x36,0x53,0x5b,
+0xa9,0xed,0xd4,0x4e,0x6a,0x37,0xd5,0x4c,0xed,0xa7,0x0e,0x52,0x87,0xa8,0xc3,0xd4,
+0x11,0xea,0x28,0x75,0x8c,0x3a,0x49,0x9d,0xa6,0xce,0x51,0x17,0xa9,0xcb,0x54,0x4c,
+0x08,0x36,0xc4,0x25,0xc4,0x23,0xc4,0x27,0xc4,0x3f,0x84,0x14,0x42,0x0d,0x89,0x08,
+0x61,0x86,0x64,0x85,0xf0,0x42,0xf8,0x21,0xc2,0x10,0x71,0x88,0x34,0x44,0x1e,0xa2,
+0x0c,0x51,0x87,0xe8,0x42,0x8c,0x21,0xa6,0x90,0x9a,0x90,0xfa,0x90,0xc6,0x90,0xe6,
+0x90,0xd6,0x90,0xf6,0x90,0xce,0x90,0xee,0x10,0x73,0x48,0x7f,0xc8,0x60,0xc8,0x50,
+0xc8,0x70,0xc8,0x48,0xc8,0x68,0xc8,0x58,0xc8,0x78,0xc8,0x64,0xc8,0x54,0xc8,0x74,
+0x88,0x25,0x64,0x2e,0x64,0x3e,0x64,0x31,0x64,0x29,0x64,0x39,0x64,0x25,0x04,0x73,
+0xc8,0xfe,0x10,0xf6,0x90,0xd3,0x21,0x97,0x43,0x6e,0x87,0x3c,0x0e,0x79,0x1d,0xf2,
+0x39,0x84,0x3f,0xe4,0x7f,0x88,0x70,0x88,0x74,0x88,0x7a,0x28,0xe2,0x10,0xed,0x50,
+0xe2,0x21,0xd6,0x21,0xf6,0x21,0xee,0x21,0xe1,0x21,0xe9,0x21,0xe5,0x21,0xdd,0x21,
+0xd3,0xa1,0xfa,0x43,0xcd,0x87,0xda,0x0f,0x75,0x1f,0xea,0x3f,0x34,0x74,0x68,0xe4,
+0xd0,0xd8,0xa1,0xc9,0x43,0xd3,0x87,0xe6,0x0e,0x2d,0x1e,0x5a,0x39,0x84,0x0d,0x75,
+0x0b,0xf5,0x0a,0xf5,0x0f,0x25,0x85,0x86,0x85,0x46,0x84,0x46,0x85,0xd2,0x42,0x19,
+0xa1,0x89,0xa1,0xcc,0x50,0x56,0x68,0x7a,0x28,0x3b,0x34,0x2b,0x94,0x1b,0xca,0x0f,
+0x15,0x86,0x8a,0x43,0xa5,0xa1,0xf2,0x50,0x65,0xa8,0x3a,0x54,0x17,0x6a,0x0c,0x35,
+0x85,0xd6,0x84,0xd6,0x87,0x36,0x86,0x36,0x87,0xb6,0x86,0xb6,0x87,0x76,0x86,0x76,
+0x87,0x9a,0x43,0xfb,0x43,0x07,0x43,0x87,0x42,0x87,0x43,0x47,0x42,0x47,0x43,0xc7,
+0x42,0xc7,0x43,0x27,0x43,0xa7,0x42,0xa7,0x43,0x2d,0xa1,0x73,0xa1,0xf3,0xa1,0x8b,
+0xa1,0x4b,0xa1,0xcb,0xa1,0x20,0x0c,0x13,0xe6,0x16,0x86,0x0f,0xa3,0x86,0x45,0x85,
+0xb1,0xc2,0xb2,0xc2,0x84,0x61,0xba,0xb0,0xfa,0xb0,0xd6,0xb0,0xee,0xb0,0xc1,0xb0,
+0xd1,0xb0,0xa9,0xb0,0xf9,0xb0,0x95,0x30,0xa7,0x0f,0xbd,0x3e,0x24,0x7c,0x18,0xf5,
+0x21,0xe3,0xc3,0xac,0x0f,0xe5,0x1f,0x9a,0x3e,0x6c,0xfe,0xb0,0xff,0xc3,0xb1,0x0f,
+0xa7,0x3f,0x9c,0xff,0x70,0xf9,0x43,0xec,0x47,0x1e,0x1f,0x11,0x3e,0x8a,0xf8,0x88,
+0xf1,0x11,0xeb,0x23,0xee,0x47,0xe2,0x8f,0x94,0x1f,0xe9,0x3e,0x32,0x7d,0xd4,0xf8,
+0x51,0xfb,0x47,0x43,0x1f,0x8d,0x7d,0x64,0xf9,0x68,0xe5,0x23,0xa7,0x70,0x8f,0x70,
+0x7c,0x78,0x58,0x38,0x23,0x3c,0x2b,0x5c,0x18,0xae,0x0e,0x37,0x85,0x37,0x87,0x77,
+0x86,0x0f,0x86,0x8f,0x85,0x4f,0x87,0x2f,0x85,0xdb,0x47,0x38,0x45,0xf8,0x44,0x10,
+0x22,0xa8,0x11,0xb4,0x08,0x66,0x04,0x3b,0x82,0x1f,0xa1,0x8c,0x30,0x45,0xd4,0x47,
+0x74,0x47,0x0c,0x46,0x8c,0x45,0x4c,0x47,0x2c,0x46,0xac,0x44,0x60,0x0f,0x7b,0x1c,
+0xf6,0x39,0x4c,0x3a,0x1c,0x75,0x98,0x71,0x38,0xeb,0xb0,0xf0,0xb0,0xf4,0xb0,0xf2,
+0xb0,0xee,0xb0,0xe9,0x70,0xfd,0xe1,0xe6,0xc3,0xed,0x87,0xbb,0x0f,0xf7,0x1f,0x1e,
+0x3a,0x3c,0x7a,0x78,0xf2,0xb0,0xe5,0xf0,0xe2,0xe1,0x95,0xc3,0xd8,0x23,0x6e,0x47,
+0x7c,0x8e,0x10,0x8e,0x50,0x8f,0x44,0x1d,0x49,0x3c,0x92,0x7e,0x84,0x7b,0x44,0x7c,
+0x44,0x79,0x44,0x77,0xc4,0x74,0xa4,0xf1,0x48,0xeb,0x91,0xce,0x23,0xe6,0x23,0x43,
+0x47,0x46,0x8f,0x8c,0x1f,0x99,0x3a,0x62,0x39,0x32,0x7f,0x64,0xe9,0x88,0x7d,0xa4,
+0x53,0xa4,0x5b,0xa4,0x57,0x24,0x3e,0x92,0x10,0x49,0x89,0x0c,0x8b,0x8c,0x8a,0x4c,
+0x8c,0x64,0x47,0x72,0x23,0x85,0x91,0xd2,0x48,0x65,0xa4,0x2e,0xd2,0x14,0x59,0x1f,
+0xd9,0x1a,0xd9,0x1d,0x39,0x18,0x39,0x12,0x39,0x16,0x39,0x19,0x39,0x1d,0x39,0x17,
+0xb9,0x18,0xb9,0x1c,0x89,0x89,0xc2,0x46,0xb9,0x44,0x79,0x44,0xe1,0xa3,0x48,0x51,
+0xd4,0xa8,0xa8,0xa8,0xc4,0xa8,0xf4,0xa8,0xac,0x28,0x61,0x94,0x3c,0xca,0x18,0x55,
+0x13,0xd5,0x1c,0xd5,0x19,0xd5,0x1f,0x35,0x1c,0x35,0x19,0xb5,0x18,0xb5,0x1c,0x85,
+0x39,0x8a,0x3d,0xea,0x72,0xd4,0xe3,0xa8,0xcf,0x51,0xff,0xa3,0xa4,0xa3,0xd4,0xa3,
+0x11,0x47,0x69,0x47,0x13,0x8f,0xb2,0x8e,0xb2,0x8f,0x72,0x8f,0x0a,0x8f,0x4a,0x8f,
+0x2a,0x8f,0x9a,0x8e,0xd6,0x1f,0x6d,0x3e,0xda,0x7e,0xb4,0xff,0xe8,0xf0,0xd1,0xd1,
+0xa3,0xe3,0x47,0xa7,0x8e,0x5a,0x8e,0xce,0x1f,0x5d,0x3a,0xba,0x72,0xd4,0xfe,0x98,
+0xd3,0x31,0xb7,0x63,0x3e,0xc7,0xfc,0x8f,0x91,0x8e,0x85,0x1d,0xa3,0x1d,0x4b,0x3c,
+0xc6,0x3e,0xc6,0x3f,0x26,0x3e,0x26,0x3f,0xa6,0x3e,0x66,0x3c,0x56,0x7f,0xac,0xf5,
+0x58,0xe7,0x31,0xf3,0xb1,0xc1,0x63,0xc3,0xc7,0x46,0x8f,0x8d,0x1f,0x9b,0x3a,0x66,
+0x39,0x36,0x7f,0x6c,0xf9,0x98,0x7d,0xb4,0x4b,0xb4,0x57,0xb4,0x7f,0x34,0x25,0x3a,
+0x22,0x9a,0x11,0xcd,0x8a,0xce,0x8a,0x16,0x46,0xcb,0xa3,0x75,0xd1,0x35,0xd1,0xcd,
+0xd1,0x9d,0xd1,0xfd,0xd1,0xc3,0xd1,0x63,0xd1,0x53,0xd1,0x73,0xd1,0x4b,0xd1,0x80,
+0xb6,0xc6,0x5f,0x07,0x86,0x66,0x4f,0x73,0x58,0xe3,0x9f,0x00,0x2c,0xcd,0xf1,0x37,
+0x8f,0x13,0xcd,0x85,0xe6,0x46,0x73,0xb7,0xe2,0x41,0xf3,0xa2,0x79,0xff,0x4b,0xe0,
+0x43,0xc3,0xd3,0xfc,0x69,0x04,0x1a,0xf1,0xbf,0x40,0xa2,0x91,0xd7,0xf8,0x8b,0x08,
+0xa6,0x85,0xd2,0xc2,0x69,0x91,0xb4,0x68,0x1a,0x9d,0x96,0x40,0x4b,0xa1,0xa5,0xd2,
+0xd2,0x68,0x19,0xb4,0x4c,0x1a,0x87,0xc6,0xa3,0x09,0x68,0x22,0x9a,0x84,0x26,0xa3,
+0x29,0x68,0x2a,0x9a,0x96,0x66,0xa0,0x55,0xd1,0xaa,0x69,0x75,0xb4,0x06,0x5a,0x13,
+0xad,0x85,0xd6,0x46,0xeb,0xa0,0x75,0xd1,0x7a,0x69,0x7d,0xb4,0x01,0xda,0x7d,0xda,
+0x03,0xda,0x43,0xda,0x23,0xda,0x63,0xda,0x13,0xda,0x04,0xed,0x29,0xed,0x19,0x6d,
+0x86,0x36,0x4b,0x7b,0x49,0x5b,0xa0,0xbd,0xa2,0xbd,0xa6,0xbd,0xa1,0x81,0x18,0xbb,
+0x18,0x87,0x18,0xc7,0x18,0x5c,0x8c,0x6b,0x8c,0x7b,0x8c,0x67,0x8c,0x77,0x8c,0x6f,
+0x8c,0x5f,0x4c,0x40,0x0c,0x31,0x86,0x1c,0x13,0x1c,0x13,0x1a,0x13,0x1e,0x13,0x19,
+0x13,0x1d,0x43,0x8f,0x49,0x88,0x49,0x89,0x49,0x8d,0x49,0x8b,0xc9,0x88,0xc9,0x8c,
+0xe1,0xc4,0xf0,0x62,0x04,0x31,0xa2,0x18,0x49,0x8c,0x2c,0x46,0x11,0xa3,0x8a,0xd1,
+0xc6,0x18,0x62,0xaa,0x62,0xaa,0x63,0xea,0x62,0x1a,0x62,0x9a,0x62,0x5a,0x62,0xda,
+0x62,0x3a,0x62,0xba,0x62,0x7a,0x63,0xfa,0x62,0x06,0x62,0xee,0xc7,0x3c,0x88,0x79,
+0x18,0xf3,0x28,0xe6,0x71,0xcc,0x93,0x98,0x89,0x98,0xa7,0x31,0xcf,0x62,0x66,0x62,
+0x66,0x63,0x5e,0xc6,0x2c,0xc4,0xbc,0x8a,0x79,0x1d,0xf3,0x26,0x06,0xc4,0xda,0xc5,
+0x3a,0xc4,0x3a,0xc6,0xe2,0x62,0x5d,0x63,0xdd,0x63,0x3d,0x63,0xbd,0x63,0x7d,0x63,
+0xfd,0x62,0x03,0x62,0x89,0xb1,0xe4,0xd8,0xe0,0xd8,0xd0,0xd8,0xf0,0xd8,0xc8,0xd8,
+0xe8,0x58,0x7a,0x6c,0x42,0x6c,0x4a,0x6c,0x6a,0x6c,0x5a,0x6c,0x46,0x6c,0x66,0x2c,
+0x27,0x96,0x17,0x2b,0x88,0x15,0xc5,0x4a,0x62,0x65,0xb1,0x8a,0x58,0x55,0xac,0x36,
+0xd6,0x10,0x5b,0x15,0x5b,0x1d,0x5b,0x17,0xdb,0x10,0xdb,0x14,0xdb,0x12,0xdb,0x16,
+0xdb,0x11,0xdb,0x15,0xdb,0x1b,0xdb,0x17,0x3b,0x10,0x7b,0x3f,0xf6,0x41,0xec,0xc3,
+0xd8,0x47,0xb1,0x8f,0x63,0x9f,0xc4,0x4e,0xc4,0x3e,0x8d,0x7d,0x16,0x3b,0x13,0x3b,
+0x1b,0xfb,0x32,0x76,0x21,0xf6,0x55,0xec,0xeb,0xd8,0x37,0xb1,0x80,0x6e,0x47,0x77,
+0xa0,0x3b,0xd2,0x71,0x74,0x57,0xba,0x3b,0xdd,0x93,0xee,0x4d,0xf7,0xa5,0xfb,0xd1,
+0x03,0xe8,0x44,0x3a,0x99,0x1e,0x4c,0x0f,0xa5,0x87,0xd3,0x23,0xe9,0xd1,0x74,0x3a,
+0x3d,0x81,0x9e,0x42,0x4f,0xa5,0xa7,0xd1,0x33,0xe8,0x99,0x74,0x0e,0x9d,0x47,0x17,
+0xd0,0x45,0x74,0x09,0x5d,0x46,0x57,0xd0,0x55,0x74,0x2d,0xdd,0x40,0xaf,0xa2,0x57,
+0xd3,0xeb,0xe8,0x0d,0xf4,0x26,0x7a,0x0b,0xbd,0x8d,0xde,0x41,0xef,0xa2,0xf7,0xd2,
+0xfb,0xe8,0x03,0xf4,0xfb,0xf4,0x07,0xf4,0x87,0xf4,0x47,0xf4,0xc7,0xf4,0x27,0xf4,
+0x09,0xfa,0x53,0xfa,0x33,0xfa,0x0c,0x7d,0x96,0xfe,0x92,0xbe,0x40,0x7f,0x45,0x7f,
+0x4d,0x7f,0x43,0x07,0x0c,0x3b,0x86,0x03,0xc3,0x91,0x81,0x63,0xb8,0x32,0xdc,0x19,
+0x9e,0x0c,0x6f,0x86,0x2f,0xc3,0x8f,0x11,0xc0,0x20,0x32,0xe0,0x17,0x2e,0x46,0x30,
+0x23,0x94,0x11,0xce,0x88,0x64,0x44,0x33,0xe8,0x8c,0x04,0x46,0x0a,0x23,0x95,0x91,
+0xc6,0xc8,0x60,0x64,0x32,0x38,0x0c,0x9e,0x15,0x01,0x44,0x64,0x45,0xc2,0x90,0x31,
+0x14,0x0c,0x15,0x43,0xcb,0x30,0x30,0xaa,0x18,0xd5,0x8c,0x3a,0x46,0x03,0xa4,0x09,
+0xd2,0x62,0xa5,0x8d,0xd1,0x61,0xa3,0x8b,0xd1,0xcb,0xe8,0x63,0x0c,0x30,0xee,0x33,
+0x1e,0x30,0x1e,0x32,0x1e,0x31,0x1e,0x33,0x9e,0x30,0x26,0x18,0x4f,0x19,0xcf,0x18,
+0x33,0x8c,0x59,0xc6,0x4b,0xc6,0x02,0xe3,0x15,0xe3,0x35,0xe3,0x0d,0x03,0xc4,0xd9,
+0xc5,0x39,0xc4,0x39,0xc6,0xe1,0xe2,0x5c,0xe3,0xdc,0xe3,0x3c,0xe3,0xbc,0xe3,0x7c,
+0xe3,0xfc,0xe2,0x02,0xe2,0x88,0x71,0xe4,0xb8,0xe0,0xb8,0xd0,0xb8,0xf0,0xb8,0xc8,
+0xb8,0xe8,0x38,0x7a,0x5c,0x42,0x5c,0x4a,0x5c,0x6a,0x5c,0x5a,0x5c,0x46,0x5c,0x66,
+0x1c,0x27,0x8e,0x17,0x27,0x88,0x13,0xc5,0x49,0xe2,0x64,0x71,0x8a,0x38,0x55,0x9c,
+0x36,0xce,0x10,0x57,0x15,0x57,0x1d,0x57,0x17,0xd7,0x10,0xd7,0x14,0xd7,0x12,0xd7,
+0x16,0xd7,0x11,0xd7,0x15,0xd7,0x1b,0xd7,0x17,0x37,0x60,0xe5,0x7e,0xdc,0x83,0xb8,
+0x87,0x71,0x8f,0xe2,0x1e,0xc7,0x3d,0x89,0x9b,0x88,0x7b,0x1a,0xf7,0x2c,0x6e,0x26,
+0x6e,0x36,0xee,0x65,0xdc,0x42,0xdc,0xab,0xb8,0xd7,0x71,0x6f,0xe2,0x40,0xbc,0x5d,
+0xbc,0x43,0xbc,0x63,0x3c,0x2e,0xde,0x35,0xde,0x3d,0xde,0x33,0xde,0x3b,0xde,0x37,
+0xde,0x2f,0x3e,0x20,0x9e,0x18,0x4f,0x8e,0x0f,0x8e,0x0f,0x8d,0x0f,0x8f,0x8f,0x8c,
+0x8f,0x8e,0xa7,0xc7,0x27,0xc4,0xa7,0xc4,0xa7,0xc6,0xa7,0xc5,0x67,0xc4,0x67,0xc6,
+0x73,0xe2,0x79,0xf1,0x82,0x78,0x51,0xbc,0x24,0x5e,0x16,0xaf,0x88,0x57,0xc5,0x6b,
+0xe3,0x0d,0xf1,0x55,0xf1,0xd5,0xf1,0x75,0xf1,0x0d,0xf1,0x4d,0xf1,0x2d,0xf1,0x6d,
+0xf1,0x1d,0xf1,0x5d,0xf1,0xbd,0xf1,0x7d,0xf1,0x03,0xf1,0xf7,0xe3,0x1f,0xc4,0x3f,
+0x8c,0x7f,0x14,0xff,0x38,0xfe,0x49,0xfc,0x44,0xfc,0xd3,0xf8,0x67,0xf1,0x33,0xf1,
+0xb3,0xf1,0x2f,0xe3,0x17,0xe2,0x5f,0xc5,0xbf,0x8e,0x7f,0x13,0x0f,0x12,0xec,0x12,
+0x1c,0x12,0x1c,0x13,0x70,0x09,0xae,0x09,0xee,0x09,0x9e,0x09,0xde,0x09,0xbe,0x09,
+0x7e,0x09,0x01,0x09,0xc4,0x04,0x72,0x42,0x70,0x42,0x68,0x42,0x78,0x42,0x64,0x42,
+0x74,0x02,0x3d,0x21,0x21,0x21,0x25,0x21,0x35,0x21,0x2d,0x21,0x23,0x21,0xf3,0x57,
+0x25,0x2b,0x81,0x9f,0x20,0x4e,0x90,0x27,0xe8,0x12,0x6a,0x12,0x1a,0x13,0x5a,0xfe,
+0x04,0xad,0x09,0x9d,0x09,0xe6,0x84,0xc1,0x84,0xe1,0x84,0x47,0x6f,0xf1,0x04,0x32,
+0x95,0x30,0x9d,0x60,0x49,0x98,0x4b,0x98,0x4f,0x58,0x4c,0x58,0x4a,0x58,0x4e,0x58,
+0x49,0xc0,0x24,0xda,0x25,0x3a,0x26,0xba,0x26,0x7a,0x27,0x06,0x24,0x92,0x13,0x43,
+0x13,0x23,0x13,0xe9,0x89,0x29,0x89,0x69,0x89,0x99,0x89,0xbc,0x44,0x11,0x44,0x96,
+0xa8,0x4a,0x34,0x24,0x56,0x27,0x36,0x40,0x5a,0x20,0x1d,0x89,0xbd,0x90,0x81,0xc4,
+0x07,0x90,0x47,0x89,0x4f,0x12,0x9f,0x26,0xce,0x24,0xbe,0x4c,0x7c,0x95,0xf8,0x26,
+0xd1,0x2e,0xc9,0x29,0xc9,0x2d,0xc9,0x23,0xc9,0x2b,0xc9,0x27,0x09,0x9f,0xe4,0x9f,
+0x44,0x48,0x22,0x25,0x51,0x92,0xa8,0x49,0x61,0x49,0x11,0x49,0x51,0x49,0xb4,0x24,
+0x46,0x52,0x62,0x12,0x33,0x89,0x95,0x94,0x9e,0xc4,0x4e,0xca,0x4a,0xe2,0x26,0xf1,
+0x93,0x84,0x49,0xe2,0x24,0x69,0x92,0x3c,0x49,0x99,0xa4,0x4e,0xd2,0x25,0x19,0x93,
+0x4c,0x49,0x35,0x49,0xf5,0x49,0x8d,0x49,0xcd,0x49,0xad,0x49,0xed,0x49,0x9d,0x49,
+0xdd,0x49,0xe6,0xa4,0xfe,0xa4,0xc1,0xa4,0xa1,0xa4,0xe1,0xa4,0x91,0xa4,0xd1,0xa4,
+0xb1,0xa4,0xf1,0xa4,0xc9,0xa4,0xa9,0xa4,0xe9,0x24,0x4b,0xd2,0x5c,0xd2,0x7c,0xd2,
+0x62,0xd2,0x52,0xd2,0x72,0xd2,0x4a,0x12,0x26,0xd9,0x3e,0x19,0x9b,0xec,0x94,0xec,
+0x92,0xec,0x96,0xec,0x91,0xec,0x95,0xec,0x93,0x8c,0x4f,0xf6,0x4f,0x26,0x24,0x93,
+0x92,0x29,0xc9,0xd4,0xe4,0xb0,0xe4,0x88,0xe4,0xa8,0x64,0x5a,0x32,0x23,0x39,0x31,
+0x99,0x99,0xcc,0x4a,0x4e,0x4f,0x66,0x27,0x67,0x25,0xf3,0x93,0xc5,0xc9,0xd2,0x64,
+0x79,0xb2,0x32,0x59,0x9d,0xac,0x4b,0x36,0x26,0x9b,0x92,0x6b,0x92,0xeb,0x93,0x1b,
+0x93,0x5b,0x93,0x3b,0xfe,0x66,0x3a,0x93,0xbb,0x93,0xcd,0xc9,0xfd,0xc9,0x83,0xc9,
+0x43,0xc9,0xc3,0xc9,0x23,0xc9,0xa3,0xc9,0x63,0xc9,0xe3,0xc9,0x53,0xc9,0xd3,0xc9,
+0x96,0xe4,0xb9,0xe4,0xf9,0xe4,0xc5,0xe4,0xa5,0xe4,0xe5,0xe4,0x95,0x64,0x4c,0x8a,
+0x7d,0x0a,0x36,0xc5,0x29,0xc5,0x23,0x05,0x9f,0x42,0x4a,0x09,0x4b,0xa1,0xa5,0x30,
+0x53,0xd8,0x29,0xfc,0x14,0x69,0x8a,0x3a,0xc5,0x94,0xd2,0x98,0xd2,0x9e,0x62,0x4e,
+0x19,0x4a,0x19,0x4d,0x99,0x4c,0xb1,0xa4,0xcc,0xa5,0xcc,0xa7,0x2c,0xa6,0xbc,0x4a,
+0x59,0x4a,0xc1,0x30,0x9d,0x98,0x1e,0x4c,0x3c,0x93,0xc4,0xa4,0x32,0x23,0x98,0x34,
+0x66,0x22,0x93,0xc5,0x64,0x33,0xb9,0x4c,0x21,0x53,0xca,0x54,0x32,0x75,0x4c,0x13,
+0xb3,0x9e,0xd9,0xcc,0x6c,0x67,0x76,0x33,0xfb,0x99,0x43,0xcc,0x11,0xe6,0x18,0x73,
+0x92,0x39,0xcd,0x9c,0x63,0x2e,0x32,0x97,0x99,0x98,0xe3,0xd8,0xe3,0x2e,0xc7,0x3d,
+0x8e,0xfb,0x1c,0xf7,0x3f,0x4e,0x3a,0x4e,0x3d,0x1e,0x71,0x9c,0x76,0x3c,0xf1,0x38,
+0xeb,0x38,0xfb,0x38,0xf7,0xb8,0xf0,0xb8,0xf4,0xb8,0xf2,0xb8,0xee,0xb8,0xe9,0x78,
+0xfd,0xf1,0xe6,0xe3,0xed,0xc7,0xbb,0x8f,0xf7,0x1f,0x1f,0x3a,0x3e,0x72,0x7c,0xec,
+0xf8,0xe4,0xf1,0xe9,0xe3,0x73,0xc7,0x17,0x8f,0x2f,0x1f,0xc7,0x9c,0xc0,0x9e,0x70,
+0x39,0xe1,0x71,0xc2,0xe7,0x84,0xff,0x09,0xd2,0x09,0xea,0x89,0x88,0x13,0xb4,0x13,
+0x89,0x27,0x58,0x27,0xd8,0x27,0xb8,0x27,0x84,0x27,0xa4,0x27,0x94,0x27,0x74,0x27,
+0x4c,0x27,0xea,0x4f,0x34,0x9f,0x68,0x3f,0xd1,0x7d,0xa2,0xff,0xc4,0xd0,0x89,0x91,
+0x13,0x63,0x27,0x26,0x4f,0x4c,0x9f,0x98,0x3b,0xb1,0x78,0x62,0xf9,0x84,0x7d,0xaa,
+0x4b,0xaa,0x57,0xaa,0x7f,0x2a,0x25,0x35,0x22,0x95,0x91,0xca,0x4a,0xcd,0x4a,0x15,
+0xa6,0xca,0x53,0x75,0xa9,0xa6,0xd4,0xfa,0xd4,0xe6,0xd4,0xf6,0xd4,0xee,0xd4,0xfe,
+0xd4,0xa1,0xd4,0x91,0xd4,0xb1,0xd4,0xc9,0xd4,0xe9,0xd4,0xb9,0xd4,0xc5,0xd4,0xe5,
+0x54,0x0c,0x0b,0xcb,0x72,0x61,0x79,0xb0,0x7c,0x58,0xfe,0x2c,0x12,0x8b,0xca,0x8a,
+0x60,0xd1,0x58,0x89,0x2c,0x16,0x8b,0xcd,0xe2,0xb2,0x84,0x2c,0x29,0x4b,0xc9,0xd2,
+0xb1,0x4c,0xac,0x7a,0x56,0x33,0xab,0x9d,0xd5,0xcd,0xea,0x67,0x0d,0xb1,0x46,0x58,
+0x63,0xac,0x49,0xd6,0x34,0x6b,0x8e,0xb5,0xc8,0x5a,0x61,0x61,0x4f,0xba,0x9d,0xf4,
+0x39,0x49,0x38,0x49,0x39,0x19,0x76,0x32,0xea,0x24,0xe3,0x24,0xf3,0x64,0xfa,0xc9,
+0xac,0x93,0xfc,0x93,0xe2,0x93,0xf2,0x93,0xea,0x93,0xc6,0x93,0x35,0x27,0x1b,0x4f,
+0xb6,0x9e,0xec,0x3c,0x69,0x3e,0x39,0x78,0x72,0xf8,0xe4,0xe8,0xc9,0xf1,0x93,0x53,
+0x27,0x2d,0x27,0xe7,0x4f,0x2e,0x9d,0x5c,0x39,0x69,0x7f,0xca,0xe9,0x94,0xdb,0x29,
+0xaf,0x53,0xf8,0x53,0x84,0x53,0x94,0x53,0x61,0xa7,0xa2,0x4e,0x31,0x4e,0x31,0x4f,
+0xa5,0x9f,0xca,0x3a,0xc5,0x3f,0x25,0x3e,0x25,0x3f,0xa5,0x3e,0x65,0x3c,0x55,0x73,
+0xaa,0xf1,0x54,0xeb,0xa9,0xce,0x53,0xe6,0x53,0x83,0xa7,0x86,0x4f,0x8d,0x9e,0x1a,
+0x3f,0x35,0x75,0xca,0x72,0x6a,0xfe,0xd4,0xd2,0xa9,0x95,0x53,0xf6,0x69,0x4e,0x69,
+0x6e,0x69,0x5e,0x69,0xf8,0x34,0x42,0x1a,0x25,0x2d,0x2c,0x2d,0x2a,0x2d,0x31,0x2d,
+0x3d,0x2d,0x2b,0x8d,0x9f,0x26,0x4e,0x93,0xa7,0xa9,0xd3,0x8c,0x69,0x35,0x69,0x8d,
+0x69,0xad,0x69,0x9d,0x69,0xe6,0xb4,0xc1,0xb4,0xe1,0xb4,0xd1,0xb4,0xf1,0xb4,0xa9,
+0x34,0x4b,0xda,0x62,0xda,0x4a,0x1a,0x36,0xdd,0x25,0xdd,0x23,0xdd,0x27,0xdd,0x3f,
+0x9d,0x94,0x4e,0x4d,0x8f,0x48,0xa7,0xa5,0x27,0xa6,0xb3,0xd2,0x33,0xd2,0xd9,0xe9,
+0xdc,0x74,0x61,0xba,0x34,0x5d,0x99,0xae,0x4b,0x37,0xa5,0xd7,0xa7,0x37,0xa7,0xb7,
+0xa7,0x77,0xa7,0xf7,0xa7,0x0f,0xa5,0x8f,0xa4,0x8f,0xa5,0x4f,0xa6,0x4f,0xa7,0xcf,
+0xa5,0x2f,0xa6,0x2f,0xa7,0x63,0x4e,0x63,0x4f,0xbb,0x9c,0xf6,0x38,0xed,0x73,0xda,
+0xff,0x34,0xe9,0x34,0xf5,0x74,0xc4,0x69,0xda,0xe9,0xc4,0xd3,0xac,0xd3,0xec,0xd3,
+0xdc,0xd3,0xc2,0xd3,0xd2,0xd3,0xca,0xd3,0xba,0xd3,0xa6,0xd3,0xf5,0xa7,0x9b,0x4f,
+0xb7,0x9f,0xee,0x3e,0xdd,0x7f,0x7a,0xe8,0xf4,0xc8,0xe9,0xb1,0xd3,0x93,0xa7,0xa7,
+0x4f,0xcf,0x9d,0x5e,0x3c,0xbd,0x7c,0x1a,0x73,0x06,0x7b,0xc6,0xe5,0x8c,0xc7,0x19,
+0x9f,0x33,0xfe,0x67,0x48,0x67,0xa8,0x67,0x22,0xce,0xd0,0xce,0x24,0xfc,0x19,0x24,
+0x9e,0x49,0x3f,0xc3,0x3d,0x23,0x3e,0xa3,0x3c,0x63,0x3c,0x53,0x7f,0xa6,0xf5,0x4c,
+0xf7,0x99,0xc1,0x33,0x23,0x67,0xc6,0xcf,0x4c,0x9f,0x99,0x3f,0xb3,0x7c,0xc6,0x3e,
+0xc3,0x25,0xc3,0x2b,0xc3,0x3f,0x83,0x92,0x11,0x91,0xc1,0xc8,0x60,0x65,0x64,0x65,
+0x08,0x33,0xe4,0x19,0xba,0x8c,0x9a,0x8c,0xe6,0x8c,0xce,0x8c,0xfe,0x8c,0xe1,0x8c,
+0xb1,0x8c,0xa9,0x8c,0xb9,0x8c,0xa5,0x0c,0x0c,0xdb,0x89,0xed,0xc1,0xc6,0xb3,0x49,
+0xec,0x30,0x36,0x8d,0xcd,0x64,0xb3,0xd9,0x7c,0xb6,0x94,0xad,0x66,0x9b,0xd8,0x8d,
+0xec,0x76,0xb6,0x99,0x3d,0xc4,0x1e,0x65,0x4f,0xb2,0x2d,0xec,0x45,0xf6,0x0a,0x1b,
+0xfb,0xb1,0xdb,0xc7,0x3e,0x1f,0x13,0x3e,0xa6,0x7e,0x1c,0xf5,0x71,0x02,0x24,0xf1,
+0xe3,0xf4,0x8f,0xb9,0x1f,0x8b,0x3f,0x56,0x7e,0x6c,0xfc,0xb8,0xfe,0xe3,0xd6,0x8f,
+0xbb,0x3f,0x1e,0xfc,0x78,0xe4,0xe3,0xf1,0x8f,0xa7,0x3f,0x9e,0xff,0x78,0xf9,0x63,
+0xfb,0xb3,0x2e,0x67,0xbd,0xce,0xfa,0x9f,0xa5,0x9c,0x8d,0x38,0xcb,0x38,0xcb,0x3a,
+0x9b,0x75,0x56,0x78,0x56,0x7e,0x56,0x77,0xb6,0xe6,0x6c,0xf3,0xd9,0xce,0xb3,0xfd,
+0x67,0x87,0xcf,0x8e,0x9d,0x9d,0x3a,0x3b,0x77,0x76,0xe9,0x2c,0x26,0xd3,0x29,0xd3,
+0x23,0x13,0x9f,0x49,0xca,0x0c,0xcb,0xa4,0x65,0x32,0x33,0xd9,0x99,0xfc,0x4c,0x69,
+0xa6,0x3a,0xd3,0x94,0xd9,0x98,0xd9,0x9e,0x69,0xce,0x1c,0xca,0x1c,0xcd,0x9c,0xf8,
+0x95,0x99,0xcc,0xb4,0x64,0x2e,0x66,0x62,0xb2,0x5c,0xb2,0x7c,0xb2,0x48,0x59,0x11,
+0x59,0x89,0x59,0xec,0x2c,0x7e,0x96,0x39,0x6b,0x3c,0x6b,0xe6,0xcf,0xc4,0x92,0x35,
+0x97,0x35,0x9f,0xb5,0x98,0xb5,0x94,0xb5,0x9c,0xb5,0x92,0x85,0xc9,0xb6,0xcf,0xc6,
+0x66,0xbb,0xfe,0x05,0xb8,0x65,0x7b,0x65,0xfb,0x64,0xe3,0xb3,0xfd,0xb3,0x09,0xd9,
+0xa4,0x6c,0x4a,0x36,0x35,0x3b,0x2c,0x3b,0x22,0x3b,0x2a,0x9b,0x96,0xcd,0xc8,0x4e,
+0xcc,0x66,0x66,0xb3,0xb2,0xd3,0xb3,0xd9,0xd9,0x59,0xd9,0xdc,0x6c,0x1e,0x84,0x9f,
+0x2d,0xcc,0x16,0x67,0xcb,0xb3,0xd5,0xd9,0xc6,0xec,0x9a,0xec,0xfa,0xec,0xc6,0xec,
+0xe6,0xec,0xd6,0xec,0xf6,0xec,0x8e,0xec,0xce,0xec,0xee,0x6c,0x73,0x76,0x7f,0xf6,
+0x60,0xf6,0x50,0xf6,0x70,0xf6,0x48,0xf6,0x68,0xf6,0x58,0xf6,0x78,0xf6,0x64,0xf6,
+0x54,0xf6,0x74,0xb6,0x25,0x7b,0x2e,0x7b,0x3e,0x7b,0x31,0x7b,0x29,0xfb,0x75,0xf6,
+0x72,0xf6,0x4a,0x36,0xe6,0x9c,0xfd,0x39,0x07,0x1b,0xd8,0x73,0x2e,0xe7,0x3c,0xce,
+0x79,0x9f,0xf3,0x39,0xe7,0x77,0xce,0xff,0x1c,0xe9,0x1c,0xf5,0x5c,0xc4,0x39,0xda,
+0xb9,0xc4,0x73,0xac,0x73,0xec,0x73,0xdc,0x73,0xc2,0x73,0xd2,0x73,0xf2,0x73,0xea,
+0x73,0xc6,0x73,0x35,0xe7,0x1a,0xcf,0xb5,0x9e,0xeb,0x3c,0x67,0x3e,0x37,0x78,0x6e,
+0xf8,0xdc,0xe8,0xb9,0xf1,0x73,0x53,0xe7,0xa6,0xcf,0x59,0xce,0xcd,0x9d,0x9b,0x3f,
+0xb7,0x78,0x6e,0xe9,0xdc,0xf2,0xb9,0x95,0x73,0x18,0x8e,0x3d,0x07,0xcb,0x71,0xe2,
+0xb8,0x70,0xdc,0x38,0x1e,0x1c,0x2f,0x8e,0x0f,0x07,0xcf,0xf1,0xe7,0x10,0x38,0x24,
+0x0e,0x85,0x43,0xe5,0x84,0x71,0x22,0x38,0x51,0x1c,0x1a,0x87,0xc1,0x49,0xe4,0x30,
+0x39,0x2c,0x4e,0x3a,0x87,0xcd,0xc9,0xe2,0x70,0x39,0x7c,0x8e,0x90,0x23,0xe6,0x48,
+0x39,0x72,0x8e,0x92,0xa3,0xe6,0xe8,0x38,0x46,0x8e,0x89,0x53,0xc3,0xa9,0xe7,0x34,
+0x72,0x9a,0x39,0xad,0x9c,0x76,0x4e,0x27,0xa7,0x9b,0x63,0xe6,0xf4,0x73,0x06,0x39,
+0x43,0x9c,0x61,0xce,0x08,0x67,0x94,0x33,0xc6,0x19,0xe7,0x4c,0x72,0xa6,0x38,0xd3,
+0x1c,0x0b,0x67,0x8e,0x33,0xcf,0x59,0xe4,0x2c,0x71,0x96,0x39,0x2b,0x1c,0x0c,0xd7,
+0x9e,0x8b,0xe5,0x3a,0x71,0x5d,0xb8,0x6e,0x5c,0x0f,0xae,0x17,0xd7,0x87,0x8b,0xe7,
+0xfa,0x73,0x09,0x5c,0x12,0x97,0xc2,0xa5,0x72,0xc3,0xb8,0x11,0xdc,0x28,0x2e,0x8d,
+0xcb,0xe0,0x26,0x72,0x99,0x5c,0x16,0x37,0x9d,0xcb,0xe6,0x66,0x71,0xb9,0x5c,0x3e,
+0x57,0xc8,0x15,0x73,0xa5,0x5c,0x39,0x57,0xc7,0xad,0xe1,0x36,0x73,0x3b,0xb9,0xfd,
+0xdc,0x61,0xee,0x28,0xf7,0xc9,0x2f,0x8c,0x73,0x27,0xb9,0x53,0xdc,0x69,0xae,0x85,
+0x3b,0xc7,0x9d,0xe7,0x2e,0x72,0x97,0xb8,0xcb,0xdc,0x15,0x2e,0x26,0xc7,0x3e,0x07,
+0x9b,0xe3,0x94,0xe3,0x92,0xe3,0x96,0xe3,0x91,0xe3,0x95,0xe3,0x93,0x83,0xcf,0xf1,
+0xcf,0x21,0xe4,0x90,0x72,0x28,0x39,0xd4,0x9c,0xb0,0x9c,0x88,0x9c,0xa8,0x1c,0x5a,
+0x0e,0x23,0x27,0x31,0x87,0x99,0xc3,0xca,0x49,0xcf,0x61,0xe7,0x64,0xe5,0x70,0x73,
+0xf8,0x39,0xc2,0x1c,0x71,0x8e,0x34,0x47,0x9e,0xa3,0xcc,0x51,0xe7,0xe8,0x72,0x8c,
+0x39,0xa6,0x9c,0x9a,0x9c,0xfa,0x9c,0xc6,0x9c,0xe6,0x9c,0xd6,0x9c,0xf6,0x9c,0xce,
+0x9c,0xee,0x1c,0x73,0x4e,0x7f,0xce,0x60,0xce,0x50,0xce,0x70,0xce,0x48,0xce,0x68,
+0xce,0x58,0xce,0x78,0xce,0x64,0xce,0x54,0xce,0x74,0x8e,0x25,0x67,0x2e,0x67,0x3e,
+0x67,0x31,0x67,0x29,0x67,0x39,0x67,0x25,0x07,0x93,0x6b,0x9f,0x8b,0xcd,0x75,0xca,
+0x75,0xc9,0x75,0xcb,0xf5,0xc8,0xf5,0xca,0xf5,0xc9,0xc5,0xe7,0xfa,0xe7,0x12,0x72,
+0x49,0xb9,0x94,0x5c,0x6a,0x6e,0x58,0x6e,0x44,0x6e,0x54,0x2e,0x2d,0x97,0x91,0x9b,
+0x98,0xcb,0xcc,0x65,0xe5,0xa6,0xe7,0xb2,0x73,0xb3,0x72,0xb9,0xb9,0xfc,0x5c,0x61,
+0xae,0x38,0x57,0x9a,0x2b,0xcf,0x55,0xe6,0xaa,0x73,0x75,0xb9,0xc6,0x5c,0x53,0x6e,
+0x4d,0x6e,0x7d,0x6e,0x63,0x6e,0x73,0x6e,0x6b,0x6e,0x7b,0x6e,0x67,0x6e,0x77,0xae,
+0x39,0xb7,0x3f,0x77,0x30,0x77,0x28,0x77,0x38,0x77,0x24,0x77,0x34,0x77,0x2c,0x77,
+0x3c,0x77,0x32,0x77,0x2a,0x77,0x3a,0xd7,0x92,0x3b,0x97,0x3b,0x9f,0xbb,0x98,0xbb,
+0x94,0xbb,0x9c,0xbb,0x92,0x8b,0xe1,0xd9,0xf3,0xb0,0x3c,0x27,0x9e,0x0b,0xcf,0x8d,
+0xe7,0xc1,0xf3,0xe2,0xf9,0xf0,0xf0,0x3c,0x7f,0x1e,0x81,0x47,0xe2,0x51,0x78,0x54,
+0x5e,0x18,0x2f,0x82,0x17,0xc5,0xa3,0xc1,0x17,0xe5,0x44,0x1e,0x93,0xc7,0xe2,0xa5,
+0xf3,0xd8,0xbc,0x2c,0x1e,0x97,0xc7,0xe7,0x09,0x79,0x62,0x9e,0x94,0x27,0xe7,0x29,
+0x79,0x6a,0x9e,0x8e,0x67,0xe4,0x99,0x78,0x35,0xbc,0x7a,0x5e,0x23,0xaf,0x99,0xd7,
+0xca,0x6b,0xe7,0x75,0xf2,0xba,0x79,0x66,0x5e,0x3f,0x6f,0x90,0x37,0xc4,0x1b,0xe6,
+0x8d,0xf0,0x1e,0x59,0x19,0xe5,0x8d,0xf1,0xc6,0x79,0x93,0xbc,0x29,0xde,0x34,0x6f,
+0x06,0x62,0xe1,0xcd,0xf1,0xe6,0x79,0x8b,0xbc,0x25,0xde,0x32,0xef,0x0d,0x64,0x85,
+0x87,0xe1,0xdb,0xf3,0xb1,0x7c,0x27,0xbe,0x0b,0xdf,0x15,0xe2,0xc6,0xf7,0xe0,0x7b,
+0xf1,0xbd,0xad,0xf8,0xf0,0xf1,0x7c,0x7f,0x3e,0x81,0x4f,0xe1,0x53,0xf9,0x61,0xfc,
+0x70,0x7e,0x04,0x3f,0x8a,0x4f,0xe3,0x33,0xf8,0x89,0x7c,0x26,0x9f,0xc5,0x4f,0x5b,
+0xe3,0x9f,0x92,0xcc,0xbf,0x0a,0xde,0x1a,0x7f,0x25,0x7c,0xbe,0x90,0x2f,0xe6,0x4b,
+0xf9,0x72,0xbe,0x82,0xaf,0xe4,0xab,0xf9,0x3a,0xbe,0x91,0x6f,0xe2,0xd7,0xf0,0xeb,
+0xf9,0x8d,0xfc,0x66,0x7e,0x2b,0xbf,0x9d,0xdf,0xc9,0xef,0xe6,0x9b,0xf9,0xfd,0xfc,
+0x41,0xfe,0x10,0x7f,0x98,0x3f,0xc2,0x1f,0xe5,0x8f,0xf1,0xc7,0xf9,0x93,0xfc,0x29,
+0xfe,0x34,0xdf,0xc2,0x9f,0xe3,0xcf,0xf3,0x17,0xf9,0x4b,0xfc,0x65,0xfe,0x0a,0x1f,
+0x73,0xde,0xfe,0x3c,0xf6,0xbc,0xd3,0x79,0x97,0xf3,0x6e,0xe7,0x3d,0xce,0x7b,0x9d,
+0xf7,0x39,0x8f,0x3f,0xef,0x77,0xde,0xff,0x3c,0xe1,0x3c,0xe9,0x3c,0xe5,0x3c,0xf5,
+0x7c,0xd8,0xf9,0x88,0xf3,0x51,0xe7,0x69,0xe7,0xe9,0x6b,0xfc,0x93,0x93,0x02,0x49,
+0xfb,0xbf,0x92,0xb9,0x86,0x15,0xde,0x79,0xd1,0x1a,0x6b,0xfc,0x55,0xc8,0xce,0xab,
+0xfe,0xa1,0x18,0x20,0xd5,0xff,0x85,0x06,0x2b,0x2d,0xff,0x20,0x3a,0x20,0xbd,0xe7,
+0x07,0xd6,0xf8,0x4d,0xf0,0xe0,0xfc,0x23,0xc8,0x93,0x35,0x7e,0xa3,0x3c,0x3d,0x3f,
+0xf3,0x1b,0xe6,0xe5,0x1a,0xff,0x72,0xbc,0x3a,0xff,0xe6,0xbc,0xdd,0x05,0xc7,0x0b,
+0xae,0x17,0xbc,0x2f,0x04,0x5c,0x08,0x5e,0x63,0x8d,0xff,0x51,0xc2,0x2f,0x44,0x5f,
+0x48,0x59,0xe3,0x37,0x42,0xda,0x85,0xcc,0x0b,0x82,0x0b,0xb2,0x0b,0xda,0x0b,0xd5,
+0x17,0x9a,0xfe,0xa9,0x68,0xbb,0xd0,0x75,0x61,0xe0,0xc2,0xc3,0x0b,0x4f,0x2e,0x3c,
+0xfb,0x1f,0x66,0xfa,0x82,0xe5,0xc2,0xdc,0x85,0xf9,0x0b,0x8b,0x17,0x96,0x2e,0x2c,
+0x5f,0x58,0xb9,0x80,0x11,0xd8,0x0b,0xb0,0x02,0x27,0x81,0x8b,0xc0,0x4d,0xe0,0x21,
+0xf0,0x12,0xf8,0x08,0xf0,0x02,0x7f,0x01,0x41,0x40,0x12,0x50,0x04,0x54,0x41,0x98,
+0x20,0x42,0x10,0x25,0xa0,0x09,0x18,0x82,0x44,0x01,0x53,0xc0,0x12,0xa4,0x0b,0xd8,
+0x82,0x2c,0x01,0x57,0xc0,0x17,0x08,0x05,0x62,0x81,0x54,0x20,0x17,0x28,0x05,0x6a,
+0x81,0x4e,0x60,0x14,0x98,0x04,0x35,0x82,0x7a,0x41,0xa3,0xa0,0x59,0xd0,0x2a,0x68,
+0x17,0x74,0x0a,0xba,0x05,0x66,0x41,0xbf,0x60,0x50,0x30,0x24,0x18,0x16,0x8c,0x08,
+0x46,0x05,0x63,0x82,0x71,0xc1,0xa4,0x60,0x4a,0x30,0x2d,0xb0,0x08,0xe6,0x04,0xf3,
+0x82,0x45,0xc1,0x92,0x60,0x59,0xb0,0x22,0xc0,0x08,0xed,0x85,0x58,0xa1,0x93,0xd0,
+0x45,0xe8,0x26,0xf4,0x10,0x7a,0x09,0x7d,0x84,0x78,0xa1,0xbf,0x90,0x20,0x24,0x09,
+0xc9,0x42,0x8a,0x90,0x2a,0x0c,0x13,0x46,0x08,0xa3,0x84,0x34,0x21,0x43,0x98,0x28,
+0x64,0x0a,0x59,0xc2,0x74,0x21,0x5b,0x98,0x25,0xe4,0x0a,0xf9,0x42,0xa1,0x50,0x2c,
+0x94,0x0a,0xe5,0x42,0xa5,0x50,0x2d,0xd4,0x09,0x8d,0x42,0x93,0xb0,0x46,0x58,0x2f,
+0x6c,0x14,0x36,0x0b,0x5b,0x85,0xed,0xc2,0x4e,0x61,0xb7,0xd0,0x2c,0xec,0x17,0x0e,
+0x0a,0x87,0x84,0xc3,0xc2,0x11,0xe1,0xa8,0x70,0x4c,0x38,0x2e,0x9c,0x14,0x4e,0x09,
+0xa7,0x85,0x16,0xe1,0x9c,0x70,0x5e,0xb8,0x28,0x5c,0x12,0x2e,0x0b,0x57,0x84,0x98,
+0x3c,0xfb,0x3c,0x6c,0x9e,0x53,0x9e,0x4b,0x9e,0x5b,0x9e,0x47,0x9e,0x57,0x9e,0x4f,
+0x1e,0x3e,0xcf,0x3f,0x8f,0x90,0x47,0xca,0xa3,0xe4,0x51,0xf3,0xc2,0xf2,0x22,0xf2,
+0xa2,0xf2,0x68,0x79,0x8c,0xbc,0x84,0xbc,0xc4,0x3c,0x66,0x5e,0x2a,0x84,0x95,0x97,
+0x06,0x49,0xcf,0x63,0xe7,0x65,0x42,0xb2,0xf2,0xb8,0x79,0xfc,0x3c,0x61,0x9e,0x28,
+0x4f,0x9c,0x27,0xcd,0x93,0xe7,0x29,0xf3,0xd4,0x79,0xba,0x3c,0x63,0x9e,0x29,0xaf,
+0x26,0xaf,0x3e,0xaf,0x31,0xaf,0x39,0xaf,0x25,0xaf,0x35,0xaf,0x2d,0xaf,0x3d,0xaf,
+0x33,0xaf,0x3b,0xcf,0x9c,0xd7,0x9f,0x37,0x98,0x37,0x94,0xf7,0x20,0x6f,0x38,0x6f,
+0x24,0x6f,0x34,0x6f,0x2c,0x6f,0x3c,0x6f,0x32,0x6f,0x2a,0x6f,0x3a,0xcf,0x92,0x37,
+0x97,0x37,0x9f,0xb7,0x98,0xb7,0x94,0xb7,0x9c,0xb7,0x92,0x87,0xc9,0xb7,0xcf,0xc7,
+0xe6,0x3b,0xe5,0xbb,0xe4,0xbb,0xe5,0x7b,0xe4,0x7b,0xe5,0xfb,0xe4,0xe3,0xf3,0xfd,
+0xf3,0x09,0xf9,0xa4,0x7c,0x4a,0x3e,0x35,0x3f,0x2c,0x3f,0x22,0x3f,0x2a,0x9f,0x96,
+0xcf,0xc8,0x4f,0xcc,0x67,0xe6,0xb3,0xf2,0xd3,0xf3,0xd9,0xf9,0x59,0xf9,0xdc,0x7c,
+0x7e,0xbe,0x30,0x5f,0x9c,0x2f,0xcd,0x97,0xe7,0x2b,0xf3,0xd5,0xf9,0xba,0x7c,0x63,
+0xbe,0x29,0xbf,0x26,0xbf,0x3e,0xbf,0x31,0xbf,0x39,0xbf,0x35,0xbf,0x3d,0xbf,0x33,
+0xbf,0x2b,0xbf,0x3b,0xdf,0x9c,0xdf,0x9f,0x3f,0x98,0x3f,0x94,0x3f,0x9c,0xff,0x30,
+0x7f,0x24,0x7f,0x34,0x7f,0x2c,0x7f,0x3c,0x7f,0x02,0x32,0x99,0x3f,0x95,0x3f,0x9d,
+0x6f,0xc9,0x9f,0xcb,0x9f,0xcf,0x5f,0xcc,0x5f,0xca,0x7f,0x9d,0xbf,0x9c,0xbf,0x92,
+0x8f,0x11,0xd9,0x8b,0xb0,0x22,0x27,0x91,0x8b,0xc8,0x55,0xe4,0x26,0xf2,0x10,0x79,
+0x89,0x7c,0x44,0x78,0x91,0xbf,0x88,0x20,0x22,0x89,0x28,0x22,0xaa,0x28,0x4c,0x14,
+0x21,0x8a,0x12,0xd1,0x44,0x0c,0x51,0xa2,0x88,0x29,0x62,0x89,0xd2,0x45,0x6c,0x51,
+0x96,0x88,0x2b,0xe2,0x8b,0x84,0x22,0xb1,0x48,0x2a,0x92,0x8b,0x94,0x22,0x95,0x48,
+0x2d,0xd2,0x89,0x8c,0x22,0x93,0xa8,0x5a,0x54,0x23,0xaa,0x17,0x35,0x8a,0x9a,0x45,
+0xad,0xa2,0x36,0x51,0xbb,0xa8,0xc3,0x4a,0xa7,0xa8,0x5b,0x64,0x16,0xf5,0x8b,0x06,
+0x45,0x43,0xa2,0x61,0xd1,0x43,0xd1,0x88,0x68,0x54,0x34,0x26,0x1a,0x17,0x4d,0x8a,
+0xa6,0x44,0xd3,0x22,0x8b,0x68,0x4e,0x34,0x2f,0x5a,0x14,0x2d,0x89,0x96,0x45,0x2b,
+0x22,0x8c,0xd8,0x5e,0x8c,0x15,0x3b,0x89,0x5d,0xc4,0x6e,0x62,0x0f,0xb1,0x97,0xd8,
+0x47,0x8c,0x17,0xfb,0x8b,0x09,0x62,0x92,0x98,0x22,0xa6,0x8a,0xc3,0xc4,0x11,0xe2,
+0x28,0x31,0x4d,0xcc,0x10,0x27,0x8a,0x99,0x62,0x96,0x38,0x5d,0xcc,0x16,0x67,0x89,
+0xb9,0x62,0xbe,0x58,0x28,0x16,0x8b,0xa5,0x62,0xb9,0x58,0x29,0x56,0x8b,0x75,0x62,
+0xa3,0xd8,0x24,0xae,0x11,0xd7,0x8b,0x1b,0xc5,0xcd,0xe2,0x56,0x71,0xbb,0xb8,0x53,
 0xdc,0x2d,0x36,0x8b,0xfb,0xc5,0x83,0xe2,0x21,0xf1,0xb0,0x78,0x44,0x3c,0x2a,0x1e,
-0x13,0x8f,0x8b,0x27,0xc5,0x53,0xe2,0x69,0xb1,0x45,0x3c,0x2f,0x5e,0x10,0x2f,0x89,
-0x97,0xc5,0x2b,0xe2,0x55,0x31,0x4e,0x62,0x2b,0xc1,0x4b,0x1c,0x24,0x4e,0x12,0x17,
-0x89,0x9b,0xc4,0x43,0xe2,0x25,0x21,0x4a,0x7c,0x25,0x24,0x09,0x45,0x42,0x93,0xd0,
-0x25,0x21,0x92,0x30,0x49,0x84,0x84,0x21,0x61,0x49,0xe2,0x25,0x6c,0x09,0x47,0x92,
-0x2a,0x49,0x97,0x64,0x4a,0x78,0x12,0x81,0x44,0x24,0x91,0x48,0xa4,0x12,0xb9,0x44,
-0x29,0x51,0x4b,0x74,0x12,0xa3,0xc4,0x24,0xa9,0x95,0x34,0x48,0x9a,0x24,0x2d,0x92,
-0x36,0x49,0x87,0xa4,0x4b,0xd2,0x2d,0x31,0x4b,0xfa,0x25,0x83,0x92,0x21,0xc9,0xb0,
-0x64,0x44,0x32,0x2a,0x19,0x93,0x8c,0x4b,0x26,0x25,0x53,0x92,0x69,0x89,0x45,0x32,
-0x2f,0x59,0x90,0x2c,0x49,0x96,0x25,0x2b,0x92,0x55,0x09,0xae,0xc0,0xb6,0x00,0x5f,
-0xe0,0x50,0xe0,0x54,0xe0,0x52,0xe0,0x56,0xe0,0x51,0xe0,0x55,0x40,0x2c,0xf0,0x2d,
-0x20,0x15,0x50,0x0a,0x68,0x05,0xf4,0x82,0x90,0x82,0xb0,0x82,0x88,0x02,0x46,0x01,
-0xab,0x20,0xbe,0x80,0x5d,0xc0,0x29,0x48,0x2d,0x48,0x2f,0xc8,0x2c,0xe0,0x15,0x08,
-0x0a,0x44,0x05,0x92,0x02,0x69,0x81,0xbc,0x40,0x59,0xa0,0x2e,0xd0,0x15,0x18,0x0b,
-0x4c,0x05,0xb5,0x05,0x0d,0x05,0x4d,0x05,0x2d,0x05,0x6d,0x05,0x1d,0x05,0x5d,0x05,
-0xdd,0x05,0xe6,0x82,0xfe,0x82,0xc1,0x82,0xa1,0x82,0xe1,0x82,0x91,0x82,0xd1,0x82,
-0x31,0xc8,0x78,0xc1,0x64,0xc1,0x54,0xc1,0x74,0x81,0xa5,0x60,0xbe,0x60,0xa1,0x60,
-0xa9,0x60,0xb9,0x60,0xa5,0x60,0xb5,0x00,0x57,0x68,0x5b,0x88,0x2f,0x74,0x28,0x74,
-0x2a,0x74,0x29,0x74,0x2b,0xf4,0x28,0xf4,0x2a,0x24,0x16,0xfa,0x16,0x92,0x0a,0x29,
-0x85,0xb4,0x42,0x7a,0x61,0x48,0x61,0x58,0x61,0x44,0x21,0xa3,0x90,0x55,0x18,0x5f,
-0xc8,0x2e,0xe4,0x14,0xa6,0x16,0xa6,0x17,0x66,0x16,0xf2,0x0a,0x05,0x85,0xa2,0x42,
-0x49,0xa1,0xb4,0x50,0x5e,0xa8,0x2c,0x54,0x17,0xea,0x0a,0x8d,0x85,0xa6,0xc2,0xda,
-0xc2,0x86,0xc2,0xa6,0xc2,0x96,0xc2,0xb6,0xc2,0x8e,0xc2,0xae,0xc2,0xee,0x42,0x73,
-0x61,0x7f,0xe1,0x60,0xe1,0x50,0xe1,0x70,0xe1,0x48,0xe1,0x68,0xe1,0x58,0xe1,0x78,
-0xe1,0x64,0xe1,0x54,0xe1,0x74,0xa1,0xa5,0x70,0xbe,0x70,0xa1,0x70,0xa9,0x70,0xb9,
-0x70,0xa5,0x70,0xb5,0x10,0x57,0x64,0x5b,0x84,0x2f,0x72,0x28,0x72,0x2a,0x72,0x29,
-0x72,0x2b,0xf2,0x28,0xf2,0x2a,0x22,0x16,0xf9,0x16,0x91,0x8a,0x28,0x45,0xb4,0x22,
-0x7a,0x51,0x48,0x51,0x58,0x51,0x44,0x11,0xa3,0x88,0x55,0x14,0x5f,0xc4,0x2e,0xe2,
-0x14,0xa5,0x16,0xa5,0x17,0x65,0x16,0xf1,0x8a,0x04,0x45,0xa2,0x22,0x49,0x91,0xb4,
-0x48,0x5e,0xa4,0x2c,0x52,0x17,0xe9,0x8a,0x8c,0x45,0xa6,0xa2,0xda,0xa2,0x86,0xa2,
-0xa6,0xa2,0x96,0xa2,0xb6,0xa2,0x8e,0xa2,0xae,0xa2,0xee,0x22,0x73,0x51,0x7f,0xd1,
-0x60,0xd1,0x50,0xd1,0x70,0xd1,0x48,0xd1,0x68,0xd1,0x58,0xd1,0x78,0xd1,0x64,0xd1,
-0x54,0xd1,0x74,0x91,0xa5,0x68,0xbe,0x68,0xa1,0x68,0xa9,0x68,0xb9,0x68,0xa5,0x68,
-0xb5,0x08,0x27,0xb5,0x95,0xe2,0xa5,0x0e,0x52,0x27,0xa9,0x8b,0xd4,0x4d,0xea,0x21,
-0xf5,0x92,0x12,0xa5,0xbe,0x52,0x92,0x94,0x22,0xa5,0x49,0xe9,0xd2,0x10,0x69,0x98,
-0x34,0x42,0xca,0x90,0xb2,0xa4,0xf1,0x52,0xb6,0x94,0x23,0x4d,0x95,0xa6,0x4b,0x33,
-0xa5,0x5c,0x08,0x4f,0x2a,0x90,0x8a,0xa4,0x12,0xa9,0x54,0x2a,0x97,0x2a,0xa5,0x6a,
-0xa9,0x4e,0x6a,0x94,0x9a,0xa4,0xb5,0xd2,0x06,0x69,0x93,0xb4,0x45,0xda,0x26,0xed,
-0x90,0x76,0x49,0xbb,0xa5,0x66,0x69,0xbf,0x74,0x50,0x3a,0x24,0x1d,0x96,0x8e,0x48,
-0x47,0xa5,0x63,0xd2,0x71,0xe9,0xa4,0x74,0x4a,0x3a,0x2d,0xb5,0x48,0xe7,0xa5,0x0b,
-0xd2,0x25,0xe9,0xb2,0x74,0x45,0xba,0x2a,0xc5,0x15,0xdb,0x16,0xe3,0x8b,0x1d,0x8a,
-0x9d,0x8a,0x5d,0x8a,0xdd,0x8a,0x3d,0x8a,0xbd,0x8a,0x89,0xc5,0xbe,0xc5,0xa4,0x62,
-0x4a,0x31,0xad,0x98,0x5e,0x1c,0x52,0x1c,0x56,0x1c,0x51,0xcc,0x28,0x66,0x15,0xc7,
-0x17,0xb3,0x8b,0x39,0xc5,0xa9,0xc5,0xe9,0xc5,0x99,0xc5,0xbc,0x62,0x41,0xb1,0xa8,
-0x58,0x52,0x2c,0x2d,0x96,0x17,0x2b,0x8b,0xd5,0xc5,0xba,0x62,0x63,0xb1,0xa9,0xb8,
-0xb6,0xb8,0xa1,0xb8,0xa9,0xb8,0xa5,0xb8,0xad,0xb8,0xa3,0xb8,0xab,0xb8,0xbb,0xd8,
-0x5c,0xdc,0x5f,0x3c,0x58,0x3c,0x54,0x3c,0x5c,0x3c,0x02,0x19,0x2d,0x1e,0x2b,0x1e,
-0x2f,0x9e,0x2c,0x9e,0x2a,0x9e,0x2e,0xb6,0x14,0xcf,0x17,0x2f,0x14,0x2f,0x15,0x2f,
-0x17,0xaf,0x14,0xaf,0x16,0xe3,0x4a,0x6c,0x4b,0xf0,0x25,0x0e,0x25,0x4e,0x25,0x2e,
-0x25,0x6e,0x25,0x1e,0x25,0x5e,0x25,0xc4,0x12,0xdf,0x12,0x52,0x09,0xa5,0x84,0x56,
-0x42,0x2f,0x09,0x29,0x09,0x2b,0x89,0x28,0x61,0x94,0xb0,0x4a,0xe2,0x4b,0xd8,0x25,
-0x9c,0x92,0xd4,0x92,0xf4,0x92,0xcc,0x12,0x5e,0x89,0xa0,0x44,0x54,0x22,0x29,0x91,
-0x96,0xc8,0x4b,0x94,0x25,0xea,0x12,0x5d,0x89,0xb1,0xc4,0x54,0x52,0x5b,0xd2,0x50,
-0xd2,0x54,0xd2,0x52,0xd2,0x56,0xd2,0x51,0xd2,0x55,0xd2,0x5d,0x62,0x2e,0xe9,0x2f,
-0x19,0x2c,0x19,0x2a,0x19,0x2e,0x19,0x29,0x19,0x2d,0x19,0x2b,0x19,0x2f,0x99,0x2c,
-0x99,0x2a,0x99,0x2e,0xb1,0x94,0xcc,0x97,0x2c,0x94,0x2c,0x95,0x2c,0x97,0xac,0x94,
-0xac,0x96,0xe0,0x64,0xb6,0x32,0xbc,0xcc,0x41,0xe6,0x24,0x73,0x91,0xb9,0xc9,0x3c,
-0x64,0x5e,0x32,0xa2,0xcc,0x57,0x46,0x92,0x51,0x64,0x34,0x19,0x5d,0x16,0x22,0x0b,
-0x93,0x45,0xc8,0x18,0x32,0x96,0x2c,0x5e,0xc6,0x96,0x71,0x64,0xa9,0xb2,0x74,0x59,
-0xa6,0x8c,0x27,0x13,0xc8,0x44,0x32,0x89,0x4c,0x2a,0x93,0xcb,0x94,0x32,0xb5,0x4c,
-0x27,0x33,0xca,0x4c,0xb2,0x5a,0x59,0x83,0xac,0x49,0xd6,0x22,0x6b,0x93,0x75,0xc8,
-0xba,0x64,0xdd,0x32,0xb3,0xac,0x5f,0x36,0x28,0x1b,0x92,0x0d,0xcb,0x46,0x64,0xa3,
-0xb2,0x31,0xd9,0xb8,0x6c,0x52,0x36,0x25,0x9b,0x96,0x59,0x64,0xf3,0xb2,0x05,0xd9,
-0x92,0x6c,0x59,0xb6,0x22,0x5b,0x95,0xe1,0xe4,0xb6,0x72,0xbc,0xdc,0x41,0xee,0x24,
-0x77,0x91,0xbb,0xc9,0x3d,0xe4,0x5e,0x72,0xa2,0xdc,0x57,0x4e,0x92,0x53,0xe4,0x34,
-0x39,0x5d,0x1e,0x22,0x0f,0x93,0x47,0xc8,0x19,0x72,0x96,0x3c,0x5e,0xce,0x96,0x73,
-0xe4,0xa9,0xf2,0x74,0x79,0xa6,0x9c,0x27,0x17,0xc8,0x45,0x72,0x89,0x5c,0x2a,0x97,
-0xcb,0x95,0x72,0xb5,0x5c,0x27,0x37,0xca,0x4d,0xf2,0x5a,0x79,0x83,0xbc,0x49,0xde,
-0x22,0x6f,0x93,0x77,0xc8,0xbb,0xe4,0xdd,0x72,0xb3,0xbc,0x5f,0x3e,0x28,0x1f,0x92,
-0x0f,0xcb,0x47,0xe4,0xa3,0xf2,0x31,0xf9,0xb8,0x7c,0x52,0x3e,0x25,0x9f,0x96,0x5b,
-0xe4,0xf3,0xf2,0x05,0xf9,0x92,0x7c,0x59,0xfe,0x12,0xb2,0x22,0x5f,0x95,0xe3,0x4a,
-0x6d,0x4b,0xf1,0xa5,0x0e,0xa5,0x4e,0xa5,0x2e,0xa5,0x6e,0xa5,0x1e,0xa5,0x5e,0xa5,
-0xc4,0x52,0xdf,0x52,0x52,0x29,0xa5,0x94,0x56,0x4a,0x2f,0x0d,0x29,0x0d,0x2b,0x8d,
-0x28,0x65,0x94,0xb2,0x4a,0xe3,0x4b,0xd9,0xa5,0x9c,0xd2,0xd4,0xd2,0xf4,0xd2,0xcc,
-0x52,0x5e,0xa9,0xa0,0x54,0x54,0x2a,0x29,0x95,0x96,0xca,0x4b,0x95,0xa5,0xea,0x52,
-0x5d,0xa9,0xb1,0xd4,0x54,0x5a,0x5b,0xda,0x50,0xda,0x54,0xda,0x52,0xda,0x56,0xda,
-0x51,0xda,0x55,0xda,0x5d,0x6a,0x2e,0xed,0x2f,0x1d,0x2c,0xbd,0xf7,0x37,0x67,0xa8,
-0x74,0xb8,0x74,0xa4,0x74,0xb4,0x74,0xac,0x74,0xbc,0x74,0xb2,0x74,0xaa,0x74,0xba,
-0xd4,0x52,0x3a,0x5f,0xba,0x50,0xba,0x54,0xba,0x5c,0xba,0x52,0xba,0x5a,0x8a,0x2b,
-0xb3,0x2d,0xc3,0x97,0x39,0x94,0x39,0x95,0xb9,0x94,0xb9,0x95,0x79,0x94,0x79,0x95,
-0x11,0xcb,0x7c,0xcb,0x48,0x65,0x94,0x32,0x5a,0x19,0xbd,0x2c,0xa4,0x2c,0xac,0x2c,
-0xa2,0x8c,0x51,0xc6,0x2a,0x8b,0x2f,0x63,0x97,0x71,0xca,0x52,0xcb,0xd2,0xcb,0x32,
-0xcb,0x78,0x65,0x82,0x32,0x51,0x99,0xa4,0x4c,0x5a,0x26,0x2f,0x53,0x96,0xa9,0xcb,
-0x74,0x65,0xc6,0x32,0x53,0x59,0x6d,0x59,0x43,0x59,0x53,0x59,0x4b,0x59,0x5b,0x59,
-0x47,0x59,0x57,0x59,0x77,0x99,0xb9,0xac,0x6f,0x9d,0x75,0xd6,0xf9,0x23,0xf4,0x43,
-0x06,0xcb,0x86,0xca,0x86,0xcb,0x1e,0x94,0x8d,0x94,0x8d,0x96,0x8d,0x95,0x8d,0x97,
-0x4d,0x96,0x4d,0x95,0x4d,0x97,0x59,0xca,0xe6,0xcb,0x16,0xca,0x96,0xca,0x96,0xcb,
-0x56,0xca,0x56,0xcb,0x70,0x0a,0x5b,0x05,0x5e,0xe1,0xa0,0x70,0x52,0xb8,0x28,0xdc,
-0x14,0x1e,0x0a,0x2f,0x05,0x51,0xe1,0xab,0x20,0x29,0x28,0x0a,0xaa,0x82,0xa6,0xa0,
-0x2b,0x82,0x15,0x21,0x8a,0x50,0x48,0x98,0x22,0x5c,0x11,0xa1,0x60,0x28,0x58,0x8a,
-0x78,0x05,0x5b,0xc1,0x51,0xa4,0x2a,0xd2,0x15,0x99,0x0a,0x9e,0x82,0xaf,0x10,0x28,
-0x44,0x0a,0x89,0x42,0xaa,0x90,0x29,0xe4,0x0a,0x85,0x42,0xa9,0x50,0xbd,0x81,0x5a,
-0xa1,0xc5,0xd0,0x29,0x0c,0x0a,0xa3,0xa2,0x5a,0x61,0x52,0xd4,0x28,0x6a,0x15,0x0d,
-0x8a,0x26,0x45,0xb3,0xa2,0x45,0xd1,0xa6,0x68,0x57,0x74,0x28,0x3a,0x21,0x5d,0x8a,
-0x1b,0x8a,0x6e,0x45,0xaf,0xc2,0xac,0xe8,0x53,0xf4,0x2b,0x06,0x14,0x83,0x8a,0x7b,
-0x8a,0x21,0xc5,0xb0,0xe2,0x81,0x62,0x44,0xf1,0x10,0x32,0xaa,0x18,0x53,0x8c,0x2b,
-0x26,0x15,0x4f,0x14,0x53,0x8a,0x69,0x85,0x45,0x31,0xaf,0x58,0x50,0x2c,0x29,0x96,
-0x15,0x2f,0x15,0x2b,0x8a,0x55,0x05,0x4e,0x69,0xab,0xb4,0x53,0xe2,0x95,0x0e,0x4a,
-0x27,0xa5,0x8b,0xd2,0x55,0xe9,0xa6,0x74,0x57,0x7a,0x28,0xbd,0x94,0x44,0xa5,0xaf,
-0x92,0xa4,0xa4,0x28,0x69,0x4a,0xba,0x32,0x44,0x19,0xa6,0x0c,0x57,0x46,0x28,0x19,
-0x4a,0x96,0x32,0x5e,0xc9,0x56,0x72,0x94,0xa9,0xca,0x74,0x65,0xa6,0x92,0xa7,0x14,
-0x28,0x45,0x4a,0x89,0x52,0xaa,0x94,0x2b,0x95,0x4a,0xb5,0x52,0xfb,0x0b,0x3a,0xa5,
-0x51,0x69,0x52,0xd6,0x28,0x6b,0x95,0x0d,0xca,0x26,0x65,0x8b,0xb2,0x4d,0xd9,0xae,
-0xec,0x50,0x76,0x29,0xbb,0x95,0x66,0x65,0xbf,0x72,0x50,0x39,0xa4,0x1c,0x56,0x8e,
-0x28,0x47,0x95,0x63,0xca,0x71,0xe5,0xa4,0x72,0x4a,0x39,0xad,0xb4,0x28,0xe7,0x95,
-0xcf,0xd7,0x59,0xe7,0x1f,0x82,0x05,0xc8,0xb2,0x72,0x55,0x69,0x5b,0xee,0x50,0xee,
-0x52,0xee,0x51,0x4e,0x2c,0x27,0x95,0xd3,0xca,0x43,0xca,0xc3,0x7f,0x21,0xa2,0x3c,
-0xbe,0x3c,0xb5,0x9c,0x57,0x2e,0x29,0x57,0x96,0x1b,0xcb,0x1b,0xca,0xdb,0xca,0xbb,
-0xcb,0x07,0xcb,0x47,0xca,0xc7,0xcb,0xa7,0xcb,0x17,0xca,0x57,0xca,0x6d,0x2b,0x9c,
-0x2a,0x3c,0x2a,0x7c,0x2b,0x68,0x15,0x61,0x15,0xac,0x0a,0x4e,0x45,0x66,0x85,0xa8,
-0x42,0x5e,0xa1,0xab,0x30,0x56,0x98,0x2a,0x1a,0x2a,0x9a,0x2b,0x5a,0x2a,0xda,0x2a,
-0x3a,0x2a,0xba,0x2a,0xba,0x2b,0xcc,0x15,0xfd,0x15,0x83,0x15,0x43,0x15,0xc3,0x15,
-0x23,0x15,0xa3,0x15,0x63,0x15,0xe3,0x15,0x93,0x15,0x53,0x15,0xd3,0x15,0x96,0x8a,
-0xf9,0x8a,0x85,0x8a,0xa5,0x8a,0xe5,0x8a,0x95,0x8a,0xd5,0x0a,0x9c,0xca,0x56,0x85,
-0x57,0x39,0xa9,0xdc,0x54,0x5e,0x2a,0x5f,0x15,0x4d,0x15,0xfc,0x17,0x10,0xa2,0x8a,
-0x50,0xb1,0x54,0x49,0xbf,0x0a,0x6c,0x55,0xca,0xbf,0x34,0xa9,0x90,0x4c,0x95,0x40,
-0x25,0xfc,0x83,0x88,0x54,0x12,0x95,0x54,0x25,0x57,0xa9,0x55,0x3a,0x95,0x51,0x65,
-0x52,0xd5,0xaa,0x1a,0x54,0x4d,0xaa,0x16,0x55,0x9b,0xaa,0x43,0xd5,0xa5,0xea,0x56,
-0x99,0x55,0xfd,0xaa,0x41,0xd5,0x90,0x6a,0x58,0x35,0xa2,0x1a,0x55,0x8d,0xa9,0xc6,
-0x55,0x93,0xaa,0x29,0xd5,0xb4,0xca,0xa2,0x9a,0x57,0x2d,0xa8,0x96,0x54,0xcb,0xaa,
-0x15,0xd5,0xaa,0x0a,0xa7,0xb6,0x55,0xe3,0xd5,0x0e,0x6a,0x27,0xb5,0x8b,0xda,0x4d,
-0xed,0xa1,0xf6,0x52,0x7b,0x63,0x10,0xd5,0x14,0x75,0x88,0x9a,0xa1,0x66,0xab,0xd3,
-0xd5,0x02,0xb5,0x54,0xad,0x56,0x57,0xff,0x16,0x26,0x75,0xad,0xba,0x7e,0x9d,0x75,
-0xd6,0xf9,0x0b,0x69,0x50,0x37,0xa9,0x5b,0xd4,0x6d,0xea,0x0e,0x75,0x97,0xba,0x5b,
-0x6d,0x56,0xf7,0xab,0x07,0xd5,0xf7,0x7e,0x87,0xfb,0xea,0x07,0xea,0x87,0xea,0x47,
-0xea,0xc7,0xea,0x09,0xf5,0x13,0xf5,0x53,0xf5,0x8c,0x7a,0x4e,0xfd,0x5c,0xbd,0xa8,
-0x7e,0xa1,0x7e,0xa9,0x7e,0xa5,0x06,0x1a,0x1b,0x8d,0x9d,0xc6,0x5e,0x43,0xd0,0x38,
-0x6b,0x5c,0x35,0xee,0x1a,0x4f,0x8d,0xb7,0xc6,0x47,0xe3,0xa7,0x21,0x6b,0xa8,0x9a,
-0x40,0x4d,0xb0,0x26,0x54,0x13,0xae,0x89,0xd4,0x30,0x35,0x71,0x9a,0x24,0x4d,0xb2,
-0x26,0x45,0x93,0xa6,0xc9,0xd0,0x70,0x35,0x7c,0x8d,0x50,0x23,0xd6,0x14,0x69,0x64,
-0x1a,0x85,0x46,0xa5,0xd1,0x6a,0x0c,0x9a,0x6a,0x4d,0x8d,0xa6,0x5e,0xd3,0xa8,0x69,
-0xd6,0xb4,0x6a,0xda,0x35,0x9d,0x9a,0x1b,0x9a,0x5e,0x4d,0x9f,0x66,0x40,0x73,0x4f,
-0x73,0x5f,0xf3,0x40,0xf3,0x50,0xf3,0x48,0xf3,0x58,0x33,0xa1,0x79,0xa2,0x79,0xaa,
-0x99,0xd1,0xcc,0x69,0x9e,0x6b,0x16,0x35,0x2f,0x34,0x2f,0x35,0xaf,0x34,0xa0,0xd2,
-0xa6,0xd2,0xae,0xd2,0xbe,0x92,0x50,0xe9,0x5c,0xe9,0x5a,0xe9,0x5e,0xe9,0x59,0xe9,
-0x5d,0xe9,0x53,0xe9,0x57,0x49,0xae,0xa4,0x56,0x06,0x56,0x06,0x57,0x86,0x56,0x86,
-0x57,0x46,0x56,0x32,0x2b,0xe3,0x2a,0x93,0x2a,0x93,0x2b,0x53,0x2a,0xd3,0x2a,0x33,
-0x2a,0xb9,0x95,0xfc,0x4a,0x61,0xa5,0xb8,0xb2,0xa8,0x52,0x56,0xa9,0xa8,0x54,0x55,
-0x6a,0x2b,0x0d,0x95,0xd5,0x95,0x35,0x95,0xf5,0x95,0x8d,0x95,0xcd,0x95,0xad,0x95,
-0xed,0x95,0x9d,0x95,0x37,0x2a,0x7b,0x2b,0xfb,0x2a,0x07,0x2a,0xef,0x55,0xde,0xaf,
-0x7c,0x50,0xf9,0xb0,0xf2,0x51,0xe5,0xe3,0xca,0x89,0xca,0x27,0x95,0x4f,0x2b,0x67,
-0x2a,0xe7,0x2a,0x9f,0x57,0x2e,0x56,0xbe,0xa8,0x7c,0x59,0xf9,0xaa,0x12,0x68,0x6d,
-0xb4,0x76,0x5a,0x7b,0x2d,0x41,0xeb,0xac,0x75,0xd5,0xba,0x6b,0x3d,0xb5,0xde,0x5a,
-0x1f,0xad,0x9f,0x96,0xac,0xa5,0x6a,0x03,0xb5,0xc1,0xda,0x50,0x6d,0xb8,0x36,0x52,
-0xcb,0xd4,0xc6,0x69,0x93,0xb4,0xc9,0xda,0x14,0x6d,0x9a,0x36,0x43,0xcb,0xd5,0xf2,
-0xb5,0x42,0xad,0x58,0x5b,0xa4,0x95,0xc1,0xd7,0x5b,0x95,0x56,0xab,0x35,0x68,0xab,
-0xb5,0x35,0xda,0x7a,0x6d,0xa3,0xb6,0x59,0xdb,0xaa,0x6d,0xd7,0x76,0x6a,0x6f,0x68,
-0x7b,0xb5,0x7d,0xda,0x01,0xed,0x3d,0xed,0x7d,0xed,0x03,0xed,0x43,0xed,0x23,0xed,
-0x63,0xed,0x84,0xf6,0x89,0xf6,0xa9,0x76,0x46,0x3b,0xa7,0x7d,0xae,0x5d,0xd4,0xbe,
-0xd0,0xbe,0xd4,0xbe,0xd2,0x02,0x9d,0x8d,0xce,0x4e,0x67,0xaf,0x23,0xe8,0x9c,0x75,
-0xae,0x3a,0x77,0x9d,0xa7,0xce,0x5b,0xe7,0xa3,0xf3,0xd3,0x91,0x75,0x54,0x5d,0xa0,
-0x2e,0x58,0x17,0xaa,0x0b,0xd7,0x45,0xea,0x98,0xba,0x38,0x5d,0x92,0x2e,0x59,0x97,
-0xa2,0x4b,0xd3,0x65,0xe8,0xb8,0x3a,0xbe,0x4e,0xa8,0x13,0xeb,0x8a,0x74,0x32,0x9d,
-0x42,0xa7,0xd2,0x69,0x75,0x06,0x5d,0xb5,0xae,0x46,0x57,0xaf,0x6b,0xd4,0x35,0xeb,
-0x5a,0x75,0xed,0xba,0x4e,0xdd,0x0d,0x5d,0xaf,0xae,0x4f,0x37,0xa0,0xbb,0x07,0xb9,
-0xaf,0x7b,0xa0,0x7b,0xa8,0x7b,0xa4,0x7b,0xac,0x9b,0xd0,0x3d,0xd1,0x3d,0xd5,0xcd,
-0xe8,0xe6,0x74,0xcf,0x75,0x8b,0xba,0x17,0xba,0x97,0xba,0x57,0x3a,0xa0,0xb7,0xd1,
-0xdb,0xe9,0xed,0xf5,0x04,0xbd,0xb3,0xde,0x55,0xef,0xae,0xf7,0xd4,0x7b,0xeb,0x7d,
-0xf4,0x7e,0x7a,0xb2,0x9e,0xaa,0x0f,0xd4,0x07,0xeb,0x43,0xf5,0xe1,0xfa,0x48,0x3d,
-0x53,0x1f,0xa7,0x4f,0xd2,0x27,0xeb,0x53,0xf4,0x69,0xfa,0x0c,0x3d,0x57,0xcf,0xd7,
-0x0b,0xf5,0x62,0x7d,0x91,0x5e,0xa6,0x57,0xe8,0x55,0x7a,0xad,0xde,0xa0,0xaf,0xd6,
-0xd7,0xe8,0xeb,0xf5,0x8d,0xfa,0x66,0x7d,0xab,0xbe,0x5d,0xdf,0xa9,0xbf,0xa1,0xef,
-0xd5,0xf7,0xe9,0x07,0xf4,0xf7,0xf4,0xf7,0xf5,0x0f,0xf4,0x0f,0xf5,0x8f,0xf4,0x8f,
-0xf5,0x13,0xfa,0x27,0xfa,0xa7,0xfa,0x19,0xfd,0x9c,0xfe,0xb9,0x7e,0x51,0xff,0x42,
-0xff,0x52,0xff,0x4a,0x0f,0xaa,0x6c,0xaa,0xec,0xaa,0xec,0xab,0x08,0x55,0xce,0x55,
-0xae,0x55,0xee,0x55,0x9e,0x55,0xde,0x55,0x3e,0x55,0x7e,0x55,0xe4,0x2a,0x6a,0x55,
-0x60,0x55,0x70,0x55,0x68,0x55,0x78,0x55,0x64,0x15,0xb3,0x2a,0xae,0x2a,0xa9,0x2a,
-0xb9,0x2a,0xa5,0x2a,0xad,0x2a,0xa3,0x8a,0x5b,0xc5,0xaf,0x12,0x56,0x89,0xab,0x8a,
-0xaa,0x64,0x55,0x8a,0x2a,0x55,0x95,0xb6,0xca,0x50,0x55,0x5d,0x55,0x53,0x55,0x5f,
-0xd5,0x58,0xd5,0x5c,0xd5,0x5a,0xd5,0x5e,0xd5,0x59,0x75,0xa3,0xaa,0xb7,0xaa,0xaf,
-0x6a,0xa0,0xea,0x5e,0xd5,0xfd,0xaa,0x07,0x55,0x0f,0xab,0x1e,0x55,0x3d,0xae,0x9a,
-0xa8,0x7a,0x52,0xf5,0xb4,0x6a,0xa6,0x6a,0xae,0xea,0x79,0xd5,0x62,0xd5,0x8b,0xaa,
-0x97,0x55,0xaf,0xaa,0x80,0xc1,0xc6,0x60,0x67,0xb0,0x37,0x10,0x0c,0xce,0x06,0x57,
-0x83,0xbb,0xc1,0xd3,0xe0,0x6d,0xf0,0x31,0xf8,0x19,0xc8,0x06,0xaa,0x21,0xd0,0x10,
-0x6c,0x08,0x35,0x84,0x1b,0x22,0x0d,0x4c,0x43,0x9c,0x21,0xc9,0x90,0x6c,0x48,0x31,
-0xa4,0x19,0x32,0x0c,0x5c,0x03,0xdf,0x20,0x34,0x88,0x0d,0x45,0x06,0x99,0x41,0x61,
-0x50,0x19,0xb4,0x06,0x83,0xa1,0xda,0x50,0x63,0xa8,0x37,0x34,0x1a,0x9a,0x0d,0xad,
-0x86,0x76,0x43,0xa7,0xe1,0x86,0xa1,0xd7,0xd0,0x67,0x18,0x30,0xdc,0x33,0xdc,0x37,
-0x3c,0x30,0x3c,0x34,0x3c,0x32,0x3c,0x36,0x4c,0x18,0x9e,0x18,0x9e,0x1a,0x66,0x0c,
-0x73,0x86,0xe7,0x86,0x45,0xc3,0x0b,0xc3,0x4b,0xc3,0x2b,0x03,0x30,0xda,0x18,0xed,
-0x8c,0xf6,0x46,0x82,0xd1,0xd9,0xe8,0x6a,0x74,0x37,0x7a,0x1a,0xbd,0x8d,0x3e,0x46,
-0x3f,0x23,0xd9,0x48,0x35,0x06,0x1a,0x83,0x8d,0xa1,0xc6,0x70,0x63,0xa4,0x91,0x69,
-0x8c,0x33,0x26,0x19,0x93,0x8d,0x29,0xc6,0x34,0x63,0x86,0x91,0x6b,0xe4,0x1b,0x85,
-0x46,0xb1,0xb1,0xc8,0x28,0x33,0x2a,0x8c,0x2a,0xa3,0xd6,0x68,0x30,0x56,0x1b,0x6b,
-0x8c,0xf5,0xc6,0x46,0x63,0xb3,0xb1,0xd5,0xd8,0x6e,0xec,0x34,0xde,0x30,0xf6,0x1a,
-0xfb,0x8c,0x03,0xc6,0x7b,0x90,0xfb,0xc6,0x07,0xc6,0x87,0xc6,0x47,0xc6,0xc7,0xc6,
-0x09,0xe3,0x13,0xe3,0x53,0xe3,0x8c,0x71,0xce,0xf8,0xdc,0xb8,0x68,0x7c,0x61,0x7c,
-0x69,0x7c,0x65,0x04,0x17,0x6c,0x2e,0xd8,0x5d,0xb0,0xbf,0x40,0xb8,0xe0,0x7c,0xc1,
-0xf5,0x82,0xfb,0x05,0xcf,0x0b,0xde,0x17,0x7c,0x2e,0xf8,0x5d,0x20,0x5f,0xa0,0x5e,
-0x08,0x5c,0xe7,0x5f,0x80,0xb5,0xff,0xf7,0xac,0x27,0x96,0xec,0x36,0x02,0x90,0x8e,
-0x1d,0xdb,0xc0,0xe3,0x77,0x61,0x7e,0x08,0x2b,0xe3,0x60,0x79,0x60,0xe3,0xda,0xf1,
-0x01,0x98,0x53,0x60,0x9e,0x0b,0xd6,0xf2,0x70,0x58,0x49,0x7d,0xe3,0xf8,0xf5,0x79,
-0xaf,0xeb,0xc3,0xd0,0x4d,0x36,0xae,0xe5,0x38,0x2c,0xdf,0x80,0xe5,0x1b,0xb1,0xdc,
-0x0e,0xcb,0xb7,0xc0,0xfc,0x28,0x76,0x8f,0x08,0xec,0xbc,0x08,0xec,0xbc,0x08,0xec,
-0xbc,0x08,0xac,0x3f,0x03,0x6b,0x67,0x60,0xed,0x0c,0xac,0x9d,0x81,0xb5,0xc7,0x60,
-0xd7,0x8f,0xc5,0xfa,0xc5,0x62,0xfd,0x62,0xb1,0x7e,0xb1,0x6f,0xb4,0xa3,0xfe,0x6c,
-0xac,0x1f,0x1b,0xeb,0xc7,0xc6,0xfa,0xb1,0xb1,0x76,0x0e,0x56,0x9f,0x8e,0xf5,0x4b,
-0x7f,0xa3,0xbc,0x01,0xcb,0x37,0x62,0xf9,0x6b,0x5b,0xa2,0xf9,0x7c,0x8c,0xcd,0x27,
-0x13,0x3b,0x2f,0x13,0x3b,0x2f,0x13,0x3b,0x2f,0x13,0xeb,0xcf,0xc3,0xda,0x79,0x58,
-0x3b,0x0f,0x6b,0xe7,0x61,0xed,0xe7,0xb1,0xeb,0xe7,0x62,0xfd,0x72,0xb1,0x7e,0xb9,
-0x58,0xbf,0xdc,0x37,0xda,0x51,0x7f,0x09,0xd6,0x4f,0x82,0xf5,0x93,0x60,0xfd,0x24,
-0x58,0xbb,0x14,0xab,0x97,0xbe,0x61,0x7f,0x1b,0x6c,0xdc,0x36,0x58,0x79,0x13,0x56,
-0xde,0x84,0x95,0x7d,0xb0,0xb2,0x0f,0xe6,0x27,0x1c,0x36,0x3f,0x1c,0x56,0xde,0x80,
-0x95,0x37,0x60,0xe5,0xcd,0x58,0x79,0x33,0x56,0xb6,0xc7,0xca,0x28,0x0f,0xc7,0xf2,
-0x0c,0x2c,0x8f,0xc0,0xee,0x9b,0x89,0xe5,0x11,0xd8,0x7d,0x33,0xb1,0x3c,0x02,0xbb,
-0x4e,0x26,0x96,0x47,0x60,0xe3,0xc8,0xc4,0xf2,0x08,0xec,0x3a,0x99,0x58,0x7e,0x1c,
-0x1b,0xc7,0x39,0x2c,0x3f,0x8e,0x5d,0xe7,0x1c,0x96,0x1f,0xc7,0xae,0x73,0x0e,0xcb,
-0x8f,0x63,0x7e,0x3a,0x87,0xe5,0x91,0xd8,0x79,0xdc,0x37,0xe2,0x6a,0x23,0xe6,0x8f,
-0x8d,0x58,0xd9,0x06,0x2b,0xdb,0x60,0xe5,0x4d,0x58,0x79,0x13,0x56,0xf6,0xc1,0xca,
-0x3e,0x58,0x79,0x33,0x96,0x47,0x81,0xb5,0xfa,0x6c,0xec,0x18,0x5d,0x3f,0x1b,0xcb,
-0xa3,0xb1,0xfb,0xe7,0x60,0x39,0x13,0xb3,0x2f,0x1f,0xcb,0x99,0x58,0x3d,0xff,0x8d,
-0x76,0x7b,0xac,0x6c,0x8f,0x95,0x6f,0x83,0xb5,0x32,0xca,0x63,0xb0,0xf3,0xce,0x63,
-0x79,0x0c,0x76,0xde,0x79,0x2c,0x8f,0xc1,0xce,0x3b,0x8f,0xe5,0x03,0x1b,0xd6,0x8e,
-0x63,0xb1,0x79,0xe5,0x62,0x79,0x2c,0x36,0xaf,0x5c,0x2c,0x47,0xe5,0xad,0x58,0x19,
-0xe5,0x09,0xd8,0xf5,0xf3,0xb0,0x3c,0x01,0xbb,0x7e,0x1e,0x96,0x27,0x60,0xd7,0xcf,
-0xc3,0xf2,0x44,0xac,0x5f,0x3e,0x96,0x27,0x62,0xf3,0xcf,0xc7,0xf2,0x44,0xec,0xbc,
-0x7c,0x2c,0x4f,0xc4,0xce,0xcb,0xc7,0xf2,0x24,0xac,0x5e,0x8c,0xe5,0x49,0x58,0xbd,
-0x18,0xcb,0xd9,0x98,0x9f,0x24,0x58,0xce,0xc6,0xe6,0x21,0xc1,0x72,0x36,0x36,0x0f,
-0x09,0x96,0xb3,0xb1,0xf5,0x2a,0xc1,0x72,0x36,0x36,0x2f,0x09,0x96,0xb3,0x31,0x3f,
-0x4a,0xb0,0xfc,0x24,0x36,0xce,0x42,0x2c,0xe7,0x60,0xb9,0xf4,0x8d,0x32,0x5a,0x57,
-0xa7,0xb0,0xf9,0x15,0x63,0xf9,0x29,0x2c,0x0e,0x8a,0xb1,0xfc,0x14,0x36,0xde,0xe2,
-0x37,0xe6,0x87,0x6c,0xbb,0x1b,0xb3,0xed,0x6e,0xec,0xde,0xbb,0xb1,0x7b,0xef,0xc6,
-0xd6,0xce,0xa9,0x37,0xd6,0x51,0xf1,0x1b,0x6b,0xa9,0xf8,0x8d,0x38,0x40,0xb1,0xc5,
-0xc4,0xe2,0x8c,0x8f,0xe5,0x31,0x58,0x7d,0x0c,0x56,0x3e,0x8f,0xe5,0x61,0xd8,0x79,
-0xe9,0x58,0xce,0xc0,0x72,0x1e,0x96,0xc7,0x62,0x79,0xee,0x1b,0xf6,0xb5,0xc7,0xc6,
-0x64,0xff,0xc6,0x3e,0x69,0xf3,0xc6,0x1e,0x63,0xf3,0x46,0x3d,0xee,0x8d,0x7a,0xdc,
-0x1b,0xf5,0xf6,0x6f,0xd4,0xbf,0x79,0x1d,0xf0,0x46,0x3d,0x78,0xe3,0x39,0x61,0xf3,
-0xc6,0x1e,0xfb,0x7a,0x9f,0xda,0xfc,0x46,0xfd,0xeb,0xe3,0xff,0x85,0xf9,0x79,0x16,
-0xcb,0x8f,0x63,0xe3,0x3c,0x87,0xe5,0xd1,0x58,0x9e,0xf3,0xc6,0xfc,0x7c,0xb0,0xf9,
-0xf9,0xbc,0x51,0xb6,0x79,0xa3,0x0e,0x1d,0xdf,0xc6,0xad,0xf5,0xff,0x74,0xc3,0x5a,
-0x9e,0xfd,0x86,0x1f,0x90,0x4f,0x5e,0xfb,0xe3,0xb5,0x2f,0x8e,0x63,0x7e,0x3f,0xf7,
-0xc6,0xfa,0x03,0xd8,0x7a,0x03,0x6f,0x3c,0xf7,0x70,0x6f,0x3c,0x33,0x70,0xd8,0xf8,
-0x71,0xd8,0xf8,0x51,0x3e,0x81,0xe5,0x2f,0xff,0x3f,0xf6,0xce,0x04,0x40,0xc7,0xe2,
-0xf1,0xe3,0xcf,0xfb,0xee,0xbe,0xbb,0xd6,0x7d,0x76,0x29,0xd7,0x16,0xc2,0xae,0xbd,
-0x59,0xe7,0x5a,0xd6,0x99,0x90,0x90,0x54,0xae,0x90,0x5c,0xeb,0x08,0x95,0xca,0x91,
-0xd2,0x49,0x87,0x4a,0x27,0x9d,0xa4,0x72,0x25,0x54,0xce,0x0a,0x91,0x12,0x15,0x65,
-0x8b,0x90,0x44,0x42,0xba,0x48,0xf5,0xff,0xcc,0x3e,0xdf,0x27,0xe3,0xf9,0xdb,0x1f,
-0xaa,0x5f,0xbf,0x8e,0xf7,0x19,0x1f,0xdf,0x99,0x79,0xe6,0x99,0x67,0x66,0x9e,0x99,
-0x79,0x9e,0xf7,0x99,0x79,0x66,0xad,0xfb,0x68,0x11,0x1d,0x53,0x44,0xee,0x62,0x72,
-0x17,0x53,0x7f,0x58,0x44,0xfd,0x61,0x11,0xb9,0x8b,0xc9,0x5d,0x4c,0xd7,0xb7,0x88,
-0xae,0x6f,0x11,0xb9,0x8b,0xc9,0x5d,0x4c,0xf9,0x2f,0xa2,0xbc,0x17,0x91,0xbb,0x98,
-0xdc,0xc5,0xd4,0x9e,0x8b,0xa8,0x3d,0x17,0x91,0xbb,0x98,0xdc,0xc5,0x74,0x1d,0x8b,
-0xe8,0x1a,0x16,0x91,0xbb,0x98,0xdc,0xc5,0xd4,0x9e,0x2b,0xaa,0xbe,0x57,0x54,0xfb,
-0xad,0xa8,0xf6,0x5b,0x51,0xfd,0x6f,0x41,0xf5,0xbf,0x05,0xad,0xeb,0xdc,0xd5,0xea,
-0xff,0xbd,0xfb,0x6a,0x25,0xeb,0x3e,0x1e,0x69,0xdd,0x03,0x23,0xad,0xfb,0x7c,0xa4,
-0x75,0x8f,0xf4,0xfc,0xa3,0xe5,0x17,0x6d,0xb9,0x23,0x2d,0xbf,0x48,0xb5,0xe3,0x48,
-0xb5,0xeb,0x48,0xa5,0xa7,0x67,0xd0,0xbd,0xee,0x26,0xaf,0x57,0x63,0xbf,0x16,0x46,
-0x05,0xdd,0xbe,0xe0,0x6a,0x3d,0x33,0x45,0xe9,0x79,0x29,0x5a,0x9a,0x5f,0x5a,0x59,
-0x1a,0x21,0x35,0x7d,0x4b,0xf7,0xa0,0xdb,0x3e,0x4d,0x59,0x0c,0x87,0x89,0x41,0xb7,
-0x6e,0x98,0xeb,0x5c,0x22,0xe2,0x48,0x9b,0x59,0x10,0x74,0x8f,0xc9,0xc2,0x5e,0xdb,
-0x7a,0x36,0x9b,0x2a,0xbd,0x4b,0xe1,0x4c,0xbf,0x3f,0x51,0xf6,0xfb,0xa5,0x93,0xa4,
-0x8f,0x49,0x9f,0x92,0x4e,0xf3,0xe2,0xb6,0xce,0x33,0x49,0xf6,0xa7,0xa4,0xb3,0xe4,
-0x3f,0xd7,0x8b,0xdf,0x3a,0xc6,0xe8,0x1b,0x76,0x1a,0x65,0xf7,0xfc,0x16,0x5b,0x61,
-0x8c,0xbe,0x29,0x9d,0x0d,0xf3,0x75,0x8e,0x75,0xf2,0x5b,0xa7,0x63,0x96,0xc3,0x12,
-0x78,0x19,0x96,0xc2,0x32,0x78,0x40,0xe7,0x7f,0x02,0x4a,0x45,0xba,0xe5,0x63,0xd4,
-0x84,0x2f,0x11,0xe9,0x1e,0x1f,0x25,0xf7,0x19,0x72,0x9f,0xa6,0x70,0xb1,0x91,0xee,
-0xf5,0x38,0x4d,0x5a,0x53,0x9a,0xaa,0xfd,0xa9,0x3a,0x2e,0x59,0xc7,0xb5,0x97,0xbb,
-0x96,0xdc,0x35,0x15,0xae,0xa1,0x8e,0x1b,0x12,0xa9,0xba,0x2d,0x3d,0x45,0xfe,0x69,
-0xd2,0xa2,0xd2,0x04,0xcb,0x9d,0x4f,0xee,0x7c,0x4a,0xb7,0x77,0x7e,0xa3,0x1b,0xe5,
-0xff,0xa1,0xf4,0x14,0x69,0x9a,0xf4,0x54,0x69,0x0d,0xa9,0xc9,0x47,0xa4,0xd2,0x15,
-0x29,0x77,0x3e,0xb9,0x8d,0x96,0x91,0xd6,0x93,0xee,0x94,0x7e,0x21,0x8d,0x93,0xb6,
-0x94,0xc6,0x2a,0x9e,0x86,0xd2,0x58,0xf9,0x37,0xb4,0xf6,0x17,0x90,0xdb,0x68,0x25,
-0xf9,0x37,0x91,0x56,0x95,0xb6,0x90,0xf6,0x08,0x39,0xce,0x68,0xa8,0x14,0x45,0x3b,
-0x8f,0x72,0xf5,0x42,0x68,0x2a,0x35,0xee,0x76,0xd0,0xdc,0x72,0x0f,0xd1,0x7e,0xa3,
-0x2b,0xa4,0xcd,0xa5,0xef,0x2b,0xdc,0x52,0xe9,0x3a,0x69,0xe5,0x18,0xc7,0xa9,0x03,
-0x09,0xd2,0x64,0x69,0x29,0xe9,0x29,0xd2,0x53,0xa5,0x67,0x4a,0xcb,0x4b,0x2b,0x48,
-0xab,0x4a,0xab,0x4b,0x57,0xc0,0x22,0xe9,0x06,0x98,0x02,0xaf,0xc2,0xe3,0xd2,0x19,
-0xd2,0xa4,0xfc,0x84,0x87,0x9a,0xd2,0x53,0xa4,0xa7,0x4a,0xcf,0x94,0x56,0x95,0x36,
-0x29,0x40,0xdd,0x2a,0xe0,0x6a,0x3d,0x69,0x07,0x28,0x0f,0x75,0xa0,0x82,0xf4,0x6e,
-0xd8,0x00,0xcb,0x61,0x11,0xac,0x90,0x2e,0x97,0x7f,0xe3,0x82,0xc4,0x03,0x8b,0xe1,
-0x7d,0x58,0x6e,0xe9,0x07,0xd2,0x65,0x96,0x9a,0x7d,0x8d,0x0b,0x71,0x4e,0x68,0x22,
-0x35,0xee,0x0e,0xf0,0x21,0xac,0x92,0xbe,0x63,0xa9,0xe7,0xb7,0x19,0x5a,0x16,0x26,
-0xaf,0xb0,0x06,0x66,0xc3,0x74,0x98,0x24,0x9d,0x02,0x05,0x8a,0x38,0x4e,0x26,0xcc,
-0x83,0xf3,0xa4,0x6d,0xa4,0xed,0xa5,0x9d,0xa4,0x19,0x30,0x17,0x06,0xc2,0x20,0xe9,
-0x10,0x98,0x0d,0x23,0xa5,0x03,0x65,0x9f,0x63,0xa9,0xe7,0xe7,0xe9,0xdd,0x8a,0xef,
-0x61,0xe9,0x14,0xe9,0xd3,0xd2,0xe9,0xd2,0x09,0x3a,0xdf,0x39,0x45,0x1d,0x27,0x1e,
-0x72,0x20,0x54,0x9a,0xb6,0x07,0xd1,0xd2,0x18,0x69,0x01,0x69,0x21,0x69,0x31,0x69,
-0x2d,0x69,0x1d,0x69,0x3d,0x69,0x7d,0x69,0xa6,0xd4,0xdc,0xa3,0xcc,0x7d,0x3b,0x53,
-0xcf,0x01,0xe6,0x1e,0x75,0x67,0xc0,0x7d,0x06,0x30,0xf7,0x33,0xef,0xd9,0xbf,0x85,
-0x9e,0xcb,0x5a,0xea,0x39,0xcc,0xdc,0x7b,0x2a,0xd0,0xb7,0xb7,0x76,0xdc,0xfb,0xa8,
-0xb9,0x17,0x9a,0xfb,0xa5,0x79,0xc6,0x34,0xf7,0xbb,0xd6,0xec,0x6b,0x03,0xc1,0xb3,
-0x1c,0xa7,0x9b,0x9e,0x2d,0xcc,0x7d,0xaf,0x23,0x7e,0x9d,0xe0,0x92,0xa0,0xfb,0x7c,
-0x61,0x9e,0x65,0xfa,0x99,0xf8,0x03,0xee,0x3d,0xec,0x42,0xfc,0x4f,0xe1,0x98,0x53,
-0x21,0xdb,0x71,0xef,0xad,0xe6,0xfe,0x7b,0x16,0xee,0x01,0xec,0x1b,0x8a,0xfd,0x9c,
-0xb3,0xdc,0xbe,0x78,0x0e,0xbc,0xa8,0xbe,0x77,0x85,0x9e,0x03,0x06,0x29,0xbc,0x09,
-0xe7,0x85,0x59,0x6a,0x85,0xa9,0x4b,0x7b,0xbf,0x20,0xe8,0xfe,0xa6,0x6b,0x87,0xee,
-0x73,0xdc,0xb4,0xf4,0x44,0x3b,0xa3,0x5d,0xa1,0x07,0x5c,0x01,0xbd,0xcd,0x3d,0xd3,
-0xdc,0x2b,0x39,0xdf,0x23,0x68,0x3f,0x18,0x8b,0xfd,0x31,0x74,0x20,0x64,0xc3,0x20,
-0x18,0x0c,0x43,0xe0,0x2a,0x18,0x0e,0xa3,0x61,0x0c,0x4c,0x27,0x4f,0xb7,0xa0,0xb7,
-0xc2,0x99,0x1c,0x77,0x1b,0x7a,0x7b,0xd0,0x7d,0xc6,0x9a,0x80,0xde,0x15,0x74,0x9f,
-0xc9,0xe6,0xeb,0x59,0xe1,0x1c,0x3d,0x2b,0x18,0xcd,0xd4,0x7d,0xb8,0x9b,0xd4,0xb8,
-0x63,0xe5,0x8e,0x95,0x3b,0x51,0xee,0x44,0xeb,0x1d,0x44,0xc0,0xfa,0xfd,0x1e,0xd0,
-0x33,0x5e,0xb4,0x9e,0xb3,0xa3,0xe5,0x8e,0x95,0x3b,0x56,0xee,0x44,0xb9,0x13,0xe5,
-0xae,0x24,0x77,0x25,0xb9,0xe3,0xe4,0x8e,0xb3,0x7e,0xf3,0x3a,0xd6,0xef,0x5e,0xc7,
-0xf2,0x0f,0x58,0xfe,0xde,0x3b,0x90,0x38,0xf9,0x79,0xc7,0x27,0xc8,0x9d,0x60,0x3d,
-0x13,0x45,0x59,0xcf,0x45,0xc6,0xde,0x58,0xe9,0xed,0x69,0xfd,0xd6,0x8d,0xd4,0x33,
-0x69,0xa4,0x9e,0xb5,0xa2,0xf5,0x6c,0x13,0x2d,0x77,0xac,0xdc,0xb1,0x72,0xe7,0x93,
-0x3b,0x9f,0xdc,0x95,0xe4,0xf6,0x7e,0x2b,0xc7,0xcb,0x1d,0xaf,0x67,0xc9,0x04,0xd5,
-0xa1,0x04,0xeb,0x9d,0x4c,0xc0,0x7a,0x9f,0x11,0xd0,0x33,0x78,0x40,0xcf,0xe0,0x9e,
-0x3b,0x56,0xee,0x58,0xb9,0x13,0xe5,0x4e,0xd4,0x6f,0x9a,0x58,0xfd,0xd6,0x8d,0xb5,
-0xdc,0x91,0x96,0x5f,0xa4,0xfc,0x13,0xe5,0xe7,0x1d,0x17,0x27,0xb7,0xd1,0x96,0x3a,
-0x5f,0x3f,0x69,0x4b,0xe5,0xbb,0x9f,0xb4,0xa5,0xe2,0xea,0x27,0x3d,0x5f,0xfe,0xfd,
-0xa5,0xe7,0xcb,0xbf,0xbf,0xb5,0x3f,0x51,0xee,0x44,0xb9,0xe3,0xe4,0x8e,0xb3,0x9e,
-0x41,0x03,0xd6,0x33,0x68,0xc0,0xf2,0xcf,0x67,0xf9,0xe7,0x8b,0x38,0xf2,0xdb,0xdb,
-0xb1,0x7e,0x7f,0x3b,0x96,0x7f,0xc0,0xf2,0x37,0xf6,0xd6,0xca,0x47,0xb6,0x73,0xc4,
-0x1d,0x2d,0x77,0xb4,0x9e,0xcd,0xa3,0xf5,0x6c,0xee,0xb9,0x63,0xe5,0x8e,0xb5,0xdc,
-0x91,0x96,0x5f,0xa4,0xfc,0x13,0xe5,0x97,0xa8,0x67,0xf6,0x68,0x3d,0xb3,0x47,0xcb,
-0x1d,0x2b,0x77,0xac,0xf5,0x9b,0x3e,0xda,0xfa,0x5d,0x1f,0x6d,0xfd,0x76,0x8f,0xb6,
-0x7e,0xbf,0xdb,0xc7,0x47,0x5b,0x71,0x44,0xeb,0xb7,0x40,0xb4,0x7e,0x0b,0x78,0xee,
-0x58,0xb9,0x63,0xe5,0x4e,0x94,0x3b,0x51,0xee,0x38,0xb9,0xe3,0xf4,0x5b,0xe3,0x6c,
-0xfd,0xd6,0x38,0x5b,0xee,0x04,0xb9,0x13,0xe4,0x8e,0x93,0x3b,0xce,0x7a,0x57,0x10,
-0xb0,0xde,0x17,0x04,0xac,0x77,0x06,0xf9,0xac,0xf7,0x06,0xc6,0xde,0x5e,0x61,0x86,
-0x4a,0xdb,0x2b,0x5d,0x43,0xa5,0x1d,0xf4,0xdb,0x6e,0x98,0xb4,0x83,0xca,0x62,0x98,
-0xb4,0x83,0xda,0xc0,0x30,0x69,0x07,0xe5,0x73,0x98,0xb4,0x83,0xe2,0x19,0x26,0xbd,
-0x48,0xfe,0xc3,0xa5,0x17,0xe9,0xb8,0xe1,0xd6,0xbb,0xc9,0x68,0xfd,0x46,0xf1,0xde,
-0x29,0x04,0xf5,0x4e,0x21,0x28,0x77,0xac,0xdc,0xb1,0x72,0x27,0xca,0x9d,0xa8,0x76,
-0xeb,0x95,0xa7,0x97,0xae,0xfc,0x8a,0x2f,0xbf,0xfa,0xd1,0x45,0xf4,0xad,0x37,0x04,
-0xdc,0xf8,0x1b,0x28,0x9e,0xae,0x52,0xe3,0x8e,0x91,0x3b,0xc6,0x7a,0xc7,0x6b,0xbf,
-0x1f,0xb5,0xdf,0xfd,0x3a,0x96,0xbf,0x63,0xf9,0xc7,0x58,0xfe,0x76,0x3c,0x11,0x96,
-0x7f,0x84,0x75,0xfe,0xa0,0x95,0x86,0xa0,0xf5,0xce,0x32,0x60,0xbd,0xb7,0x0c,0x58,
-0xfe,0x8e,0xe5,0xef,0x58,0xfe,0x31,0x96,0x7f,0x8c,0xe5,0x1f,0x61,0xf9,0xdb,0xe7,
-0x8d,0xb2,0xce,0xeb,0xbd,0x9b,0x8c,0x55,0x9f,0x1b,0x2b,0x77,0x8c,0xdc,0x31,0x72,
-0x47,0xc8,0x1d,0x61,0xbd,0xcb,0xb6,0xdf,0x03,0xdb,0xef,0xb8,0x1d,0xcb,0xdf,0xb1,
-0xfc,0x63,0x2c,0xff,0x18,0xcb,0x3f,0xc2,0xf2,0x8f,0xb0,0xd2,0x13,0xb4,0xd2,0xe4,
-0xbd,0xc3,0x8c,0x51,0x1f,0x1c,0x23,0x77,0xac,0xdc,0xb1,0xea,0x5f,0x62,0xd5,0xb7,
-0x78,0xee,0x18,0xb9,0x63,0xac,0x77,0xe7,0xf6,0x7b,0x67,0xfb,0x9d,0xba,0x63,0xf9,
-0x3b,0x96,0x7f,0x8c,0xe5,0x6f,0xc7,0x13,0x61,0xf9,0x47,0x58,0xe7,0x0f,0x5a,0x69,
-0xf0,0xde,0xd5,0x97,0xb6,0xce,0x5b,0xda,0x3a,0x6f,0x69,0xeb,0xbc,0xa5,0xad,0xf3,
-0x96,0xb6,0xce,0x5b,0xda,0x3a,0x6f,0x69,0xeb,0xbc,0xa5,0xad,0xf3,0x1a,0x7b,0xac,
-0xe5,0x1f,0xab,0xf6,0x1f,0xab,0xb6,0xef,0xb9,0x63,0xe4,0x8e,0xb1,0xde,0xcb,0x05,
-0xac,0x77,0x73,0x01,0xcb,0xdf,0xb1,0xfc,0x1d,0xcb,0x3f,0xc6,0xf2,0xb7,0xe3,0x89,
-0xb0,0xfc,0x23,0x2c,0xff,0x58,0xcb,0x3f,0x56,0xed,0xdd,0x51,0xfb,0x74,0xe4,0x8e,
-0x95,0xdb,0xdb,0x1f,0x23,0x77,0x8c,0xdc,0x11,0x72,0x47,0xe8,0xf7,0x7c,0x09,0x69,
-0x49,0xcb,0xed,0x58,0x7e,0x8e,0xe5,0x1f,0xb0,0xfc,0x03,0x96,0x7f,0xa6,0xe5,0x9f,
-0xa9,0xf7,0x0f,0x25,0xa4,0x25,0x2d,0xb7,0x63,0xf9,0x39,0x96,0x7f,0xc0,0xf2,0x0f,
-0x58,0xfe,0x99,0x96,0x7f,0xa6,0x7e,0xf7,0x97,0x90,0x96,0xb4,0xdc,0x8e,0xe5,0xe7,
-0x58,0xfe,0x01,0xcb,0xdf,0xd8,0x27,0xca,0x7f,0xa2,0xfc,0x26,0x5a,0xc7,0x4f,0xb4,
-0x8e,0x9f,0x68,0x1d,0x3f,0xd1,0x3a,0x7e,0x9e,0xfc,0xe7,0xc9,0x6f,0x9e,0x75,0xfc,
-0x3c,0xeb,0xf8,0x79,0xd6,0xf1,0xf3,0x8e,0x71,0x7c,0xa6,0xe5,0x9f,0xa9,0x77,0x33,
-0x25,0xa4,0x25,0x2d,0xb7,0x63,0xf9,0x39,0x96,0x7f,0xc0,0xf2,0x0f,0x58,0xfe,0x99,
-0x96,0x7f,0xa6,0xde,0xc1,0x94,0x90,0x96,0xb4,0xdc,0x8e,0xe5,0xe7,0x58,0xfe,0x01,
-0xcb,0x3f,0x60,0xf9,0x67,0x5a,0xfe,0x99,0x7a,0x2f,0x54,0x42,0x5a,0xd2,0x72,0x3b,
-0x96,0x9f,0x63,0xf9,0x07,0x2c,0xff,0x80,0xe5,0x9f,0x69,0xf9,0x67,0xea,0x1d,0x51,
-0x09,0x69,0x49,0xcb,0xed,0x58,0x7e,0x8e,0xe5,0x1f,0xb0,0xfc,0xbd,0x77,0x5a,0x25,
-0xa4,0x25,0x2d,0xb7,0x63,0xf9,0x39,0x96,0x7f,0xc0,0xf2,0xf7,0xde,0x4d,0x95,0x90,
-0x96,0xb4,0xdc,0x8e,0xe5,0xe7,0x58,0xfe,0x01,0xcb,0xdf,0x3e,0x3e,0xd3,0xf2,0xcf,
-0xd4,0xbb,0xad,0x92,0x96,0x3a,0x96,0x3d,0x60,0xd9,0x33,0xf5,0x5e,0xac,0x84,0xb4,
-0xa4,0xe5,0x76,0x2c,0x3f,0xc7,0xf2,0x0f,0x58,0xfe,0x01,0xcb,0x3f,0xd3,0xf2,0xcf,
-0xd4,0xfb,0xbd,0x12,0xd2,0x92,0x96,0xdb,0xb1,0xfc,0x1c,0xcb,0x3f,0x60,0xf9,0x07,
-0x2c,0xff,0x4c,0xcb,0xdf,0x6b,0xf7,0x8e,0xef,0xdd,0xa0,0xe3,0x7b,0x47,0xe8,0xf8,
-0xde,0x15,0x3a,0xd6,0x3b,0xc3,0xc5,0xd6,0x35,0xf5,0xca,0xd0,0xf1,0xbd,0x27,0x74,
-0xac,0xf7,0x85,0x5e,0x9f,0x93,0x65,0xf5,0x39,0x59,0xbe,0xbe,0x2b,0xcb,0xd7,0x7f,
-0x65,0xf9,0xfa,0xb0,0x2c,0x5f,0x3f,0x96,0xe5,0xeb,0xcb,0xb2,0x7c,0xfd,0x59,0x96,
-0xd5,0x27,0x65,0x59,0x7d,0x52,0x96,0xaf,0x6f,0xcb,0xf2,0xf5,0x6f,0x59,0xbe,0x3e,
-0x2e,0xcb,0xd7,0xcf,0x65,0xf9,0xfa,0xba,0x2c,0x5f,0x7f,0x97,0x65,0xf5,0x19,0x59,
-0x56,0x9f,0x91,0xe5,0xeb,0x7b,0xb2,0x7c,0xfd,0x4f,0x96,0xaf,0x0f,0xca,0xf2,0xf5,
-0x43,0x59,0xbe,0xbe,0x28,0xcb,0xd7,0x1f,0x65,0x59,0x7d,0x4a,0x96,0xd5,0xa7,0x64,
-0xf9,0xfa,0xa6,0x2c,0x5f,0xff,0x94,0xe5,0xeb,0xa3,0xb2,0x7c,0xfd,0x54,0x96,0xaf,
-0xaf,0xca,0xf2,0xf5,0x57,0x59,0x56,0xfd,0xcd,0xb2,0xea,0x6f,0x96,0xaf,0x1d,0x64,
-0xf9,0xda,0x42,0x96,0xaf,0x3d,0x64,0xf9,0xda,0x44,0x96,0xaf,0x5d,0x64,0xf9,0xda,
-0x46,0x96,0x55,0xbf,0xb3,0xac,0xfa,0x9d,0xe5,0x6b,0x27,0x59,0xbe,0xb6,0x92,0xe5,
-0x6b,0x2f,0x59,0xbe,0x36,0x93,0xe5,0x6b,0x37,0x59,0xbe,0xb6,0xe3,0xd5,0xb3,0x28,
-0x69,0xa4,0xd5,0x9e,0xbc,0x7d,0x59,0x56,0xdb,0xf2,0xec,0x99,0x96,0x7a,0x75,0x26,
-0x4a,0x1a,0x29,0x75,0xac,0x71,0x80,0xbb,0x14,0xce,0x8c,0x13,0x78,0xf7,0x03,0xcf,
-0x6e,0x34,0x53,0x63,0x07,0x99,0x56,0x7b,0xf5,0xea,0x44,0x96,0xd5,0x76,0x3d,0x7b,
-0xa6,0xa5,0x59,0xba,0x47,0x7a,0xf7,0x4d,0xef,0x7e,0xe4,0x58,0x63,0x0e,0xf7,0x2b,
-0xdc,0xe2,0xb2,0x6a,0xeb,0x65,0xd5,0xf6,0xcb,0x1e,0xb9,0xb7,0x44,0x49,0x23,0xad,
-0xb1,0x03,0xc7,0x37,0x1e,0xb1,0xc0,0xba,0x17,0xe5,0xb3,0xee,0x1f,0x51,0xd2,0x48,
-0xa9,0x63,0x8d,0x73,0xfc,0xac,0x73,0xfe,0x5c,0xf6,0x88,0xdb,0xeb,0x9f,0xa3,0xa4,
-0x91,0xd6,0x38,0x85,0xe3,0x1b,0xc7,0x58,0xaa,0xeb,0xb7,0xd4,0xba,0x27,0x64,0x5a,
-0x61,0xbc,0xfe,0x3d,0x4a,0x1a,0x29,0x75,0xac,0xb1,0x95,0x29,0x3a,0x76,0xaa,0x9e,
-0xd3,0xbc,0x71,0x9a,0x2e,0xce,0x91,0xfe,0xcd,0xab,0x93,0x59,0x56,0x5f,0xe7,0xd9,
-0x33,0x2d,0xcd,0xd2,0x3d,0xcb,0xb1,0xc6,0x70,0xa6,0x59,0x7d,0xb7,0xe7,0x36,0xe1,
-0x5e,0xd4,0xd8,0x90,0x39,0x77,0x10,0x4b,0x44,0xb9,0x23,0xf3,0x7c,0xfe,0x13,0x45,
-0x15,0x2e,0x99,0xe3,0xe2,0x9d,0x63,0x63,0xf6,0x27,0x95,0xfb,0xff,0xa4,0x1e,0x83,
-0xf2,0x8e,0x8b,0x39,0x26,0x44,0x9c,0xf5,0x9d,0x23,0x78,0xfb,0xea,0x1f,0x23,0x3e,
-0x13,0x3e,0x41,0x73,0x24,0xcc,0x1c,0xa2,0x54,0x48,0x83,0x1a,0x50,0x13,0xd2,0xa1,
-0x2a,0x14,0xaf,0xe0,0x38,0x75,0xcd,0x98,0x1a,0x9c,0xab,0xb1,0xec,0x04,0xcd,0x45,
-0xf2,0xe6,0x21,0x9d,0xcc,0xf1,0x5d,0xf5,0x5e,0x75,0x80,0xc6,0xe1,0xcc,0xfb,0xd5,
-0x2b,0xf4,0x5e,0xb5,0xaf,0xde,0xad,0x9a,0x73,0x64,0x6b,0xac,0x6e,0x88,0xde,0xd7,
-0x0e,0xd6,0xb1,0xd5,0x1d,0xf7,0x7d,0xa1,0x67,0x37,0xfe,0xe6,0x5d,0xe2,0x4c,0x69,
-0x77,0xf9,0x0f,0xb0,0xec,0xe6,0xb9,0x7e,0x42,0xc0,0x0d,0x63,0xde,0xd3,0xf5,0xd2,
-0xbb,0x62,0x8f,0xdc,0x77,0x6c,0x01,0xf7,0xb7,0x5a,0x33,0xbd,0x37,0xee,0xab,0xf7,
-0xc6,0xe7,0x2b,0x2e,0xf3,0xbe,0xa7,0x8d,0xd2,0xe2,0xd1,0x56,0xef,0x97,0x2f,0xd4,
-0x7b,0xe8,0xf3,0x64,0x6f,0xa9,0x71,0xea,0x69,0x7a,0x0f,0xd0,0xc2,0x39,0x32,0x06,
-0x9d,0xa9,0x74,0xf6,0xd0,0x31,0x8d,0x15,0xde,0x9c,0x63,0x6d,0xc8,0x71,0xde,0x85,
-0x75,0xb0,0x3e,0xe4,0x5e,0x9b,0xc6,0x3a,0xd6,0xbc,0x8f,0x58,0xa2,0xf7,0xc3,0xf7,
-0xc0,0x64,0x28,0x56,0xc1,0x7d,0xdf,0xe9,0xbd,0xab,0xf6,0xe6,0xbb,0x78,0xf3,0xc4,
-0x6a,0x58,0xf6,0x74,0xcb,0x9e,0x68,0x5d,0x43,0xe3,0x4e,0xd6,0xb5,0xf4,0xec,0x9e,
-0x7f,0xaa,0xe5,0x9f,0x6a,0xcd,0x39,0x4b,0xd5,0x35,0xf7,0xec,0x5e,0xf8,0x34,0xd5,
-0x03,0xcf,0xee,0xf9,0xd7,0xb4,0x8e,0xad,0x69,0x85,0xa9,0xa9,0xfa,0xe2,0xd9,0xbd,
-0xf0,0xde,0x75,0x38,0x16,0xed,0x2d,0x9a,0x59,0xea,0xb7,0x7b,0x5c,0x64,0xd1,0xcc,
-0x52,0xef,0x3a,0x37,0xd4,0x38,0x42,0x4b,0x95,0x5f,0x5e,0x0c,0xb5,0xe8,0x6d,0xa9,
-0xdf,0xee,0x31,0xdc,0xa2,0xb7,0xa5,0xbd,0x55,0xb7,0xba,0xeb,0xba,0xf5,0xd3,0xb5,
-0xf0,0xca,0x7e,0x02,0x0d,0xb6,0xa6,0x99,0xfb,0x20,0xbd,0x57,0xba,0x56,0xfa,0x9e,
-0x74,0x9d,0x34,0xa2,0x82,0xab,0xf9,0xa4,0x05,0xa4,0xb1,0xd2,0x73,0xa4,0x55,0x2b,
-0xfc,0x7f,0xe2,0x8f,0x41,0x1d,0x85,0x6f,0x28,0xcd,0x92,0x36,0x95,0x9a,0xb6,0x6c,
-0xb4,0xab,0xdc,0x2d,0xa5,0x75,0xe4,0x5f,0x4f,0x7a,0xb9,0xfc,0x7b,0x48,0x07,0x49,
-0x07,0x4b,0x87,0x4a,0x87,0x49,0xaf,0x91,0x5e,0x2b,0x1d,0x2d,0x1d,0x23,0xbd,0x49,
-0x7a,0xb3,0xf4,0x71,0xe9,0x54,0xe9,0x34,0xe9,0x74,0xe9,0x08,0xe9,0x75,0xd2,0xbb,
-0xa4,0x77,0x4b,0x67,0x4b,0xe7,0x48,0x5f,0x94,0xce,0xf5,0xca,0x93,0x8b,0x12,0x93,
-0x70,0x62,0xfd,0x9c,0xdd,0x9e,0x12,0xad,0xbe,0x31,0xd1,0x39,0xd2,0x9e,0xbc,0xf9,
-0x9b,0x5e,0x7b,0xf1,0xda,0x87,0xd7,0x46,0xbd,0xfa,0x9f,0xae,0x63,0x13,0xd4,0x67,
-0x26,0xaa,0xdf,0xac,0x2c,0x7f,0xcf,0x9e,0x6c,0xd9,0x53,0x2c,0x7b,0xaa,0x65,0x4f,
-0xb3,0xec,0x35,0x2c,0x7b,0x4d,0xcb,0x9e,0x6e,0xd9,0xbd,0x7c,0xd8,0xee,0x44,0x9f,
-0x3b,0xc9,0xe7,0x4e,0xf6,0xb9,0x53,0x7c,0xee,0x54,0x9f,0x3b,0xcd,0xe7,0xae,0xe1,
-0x73,0xd7,0xf4,0xb9,0xd3,0x7d,0xf9,0xf7,0xd2,0x97,0xa8,0x7b,0x65,0x92,0x34,0x59,
-0x9a,0x22,0x4d,0x95,0xa6,0x49,0x6b,0x48,0x6b,0x4a,0xd3,0xa5,0x5e,0x9e,0xe3,0xad,
-0xfc,0xc6,0x5b,0x79,0x8d,0xb7,0xf2,0x19,0x6f,0xe5,0x31,0xde,0xca,0x5f,0xbc,0x95,
-0xb7,0x78,0x2b,0x5f,0xf1,0x56,0x9e,0xe2,0xad,0xfc,0xc4,0x5b,0x79,0x89,0x57,0xde,
-0xba,0x5a,0xf9,0xec,0x66,0xd9,0xbb,0x5b,0xf6,0xcb,0x2d,0x7b,0x0f,0xcb,0xde,0xd3,
-0xb2,0xf7,0xb2,0xec,0x57,0x58,0xf6,0xde,0x96,0xfd,0x4a,0xcb,0xde,0xc7,0xb2,0xf7,
-0xb5,0xec,0xfd,0x2c,0x7b,0x7f,0xcb,0x3e,0xc0,0xb2,0x67,0x5b,0xf6,0x81,0x96,0x7d,
-0x90,0x65,0x1f,0x6c,0xd9,0x87,0x58,0xf6,0xab,0x2c,0xfb,0x50,0xcb,0x3e,0xcc,0xb2,
-0x0f,0xb7,0xec,0x57,0x5b,0xf6,0x6b,0x64,0x6f,0xe0,0x1c,0xb9,0x9f,0x36,0xb2,0xee,
-0xa7,0x27,0x32,0x16,0x6c,0xdf,0xcf,0xdb,0x5a,0xe3,0xc1,0xed,0x35,0x26,0x6c,0xee,
-0x13,0x1d,0x75,0x1f,0xef,0xaa,0x6b,0xd2,0xdd,0xba,0xd7,0xf6,0x54,0x59,0x5f,0x61,
-0xdd,0x77,0xfd,0xcf,0x30,0x03,0x54,0x46,0x03,0x55,0x26,0x83,0xad,0xf1,0xe1,0xa1,
-0xca,0xeb,0x70,0xe5,0xed,0x1a,0xd5,0x07,0x7f,0x1f,0x5d,0xcb,0x71,0xa9,0x9b,0x07,
-0x1f,0x57,0x71,0xfb,0xab,0x2b,0x95,0xf6,0xae,0x71,0x8e,0xb3,0x86,0x84,0x3c,0xf6,
-0x98,0x9b,0xd9,0xca,0x90,0x06,0xf5,0xa1,0x23,0x8c,0x85,0xdb,0x61,0x32,0xbc,0x6c,
-0xfc,0x29,0x84,0x1e,0xd0,0x07,0x46,0xc3,0x7d,0x30,0x1d,0xb6,0xc0,0xb7,0x2a,0xa0,
-0x87,0xe0,0x20,0x94,0xa2,0xa0,0xce,0x80,0x9a,0xd0,0x00,0x2e,0x81,0xde,0x30,0x1a,
-0x5e,0x82,0x95,0xb0,0x0d,0x36,0x90,0x90,0xb2,0x14,0xe2,0x6e,0x0a,0x31,0x48,0x21,
-0xe6,0x87,0x52,0x50,0x09,0x06,0x43,0xeb,0x4e,0x8e,0x33,0x12,0x7e,0x80,0x22,0x97,
-0x38,0x4e,0x05,0xa8,0x09,0xfd,0x61,0x20,0x6c,0xba,0xd4,0x71,0x3e,0x83,0xfd,0xf0,
-0x33,0x0c,0xba,0x8c,0xf2,0x81,0x1b,0xe0,0x1b,0xf8,0x19,0x0a,0x74,0xe6,0xb7,0x03,
-0xb4,0x86,0xae,0x30,0x18,0x5e,0x83,0x7c,0x5c,0xa8,0x34,0x68,0x01,0xd5,0xb9,0x50,
-0x29,0x70,0x33,0xdc,0x0f,0x4f,0xc2,0x02,0xd8,0x02,0x9f,0xc1,0x3e,0x2e,0x62,0x3e,
-0x2e,0x62,0x65,0x28,0x47,0x99,0x75,0x83,0xab,0x61,0x0e,0xac,0x86,0xf7,0x60,0x13,
-0x14,0xe1,0xa2,0x96,0x84,0x14,0xe8,0xc3,0x05,0xad,0xc2,0xc5,0x4c,0x83,0xda,0x50,
-0x1f,0x9a,0x40,0x47,0xe8,0x04,0xcf,0xc1,0x8d,0x5c,0xe8,0x5b,0x20,0x87,0x8b,0xbd,
-0x03,0x4e,0xe3,0x82,0x97,0x85,0xca,0x90,0x00,0xb7,0xc1,0xdd,0x30,0x94,0x4a,0x70,
-0x1d,0xbc,0x00,0x8b,0xe1,0x2b,0xd8,0x44,0xa5,0xd8,0x0a,0x07,0xa0,0x16,0x15,0x63,
-0x3e,0x2c,0x82,0x21,0x54,0x90,0xd5,0x70,0x10,0x06,0x8f,0xa0,0xec,0x20,0xed,0x06,
-0xea,0x30,0xdc,0x0a,0x0b,0x21,0x30,0xd2,0x71,0x0a,0x42,0x71,0x48,0x86,0x1b,0xe0,
-0x16,0xd8,0x36,0xca,0x71,0x76,0xc1,0x01,0x38,0x0c,0x05,0x47,0x3b,0x4e,0x69,0x28,
-0x0b,0xfd,0x61,0x10,0x0c,0x87,0x96,0x37,0x91,0x3f,0xc8,0x18,0x47,0x7b,0x81,0xee,
-0x70,0xfd,0x2d,0xa4,0x17,0xd6,0x81,0x73,0x2b,0xfd,0xda,0xed,0xb4,0x31,0x68,0x07,
-0xc3,0xe1,0x11,0xb8,0xfc,0x0e,0xea,0x39,0xcc,0x81,0xe9,0x77,0x3a,0xce,0x2a,0x78,
-0x68,0x3c,0xcf,0xdb,0x30,0x17,0xee,0x9a,0x40,0x5b,0xbc,0xcb,0x71,0x96,0xc3,0x5b,
-0xf0,0x2e,0x0c,0x9b,0x48,0x1d,0x80,0x33,0xef,0xa3,0xee,0xc0,0x02,0xd8,0x09,0x6d,
-0xee,0x77,0x9c,0xcb,0xa0,0x1b,0xf4,0x86,0xd5,0xb0,0x07,0x0e,0x40,0xe0,0x01,0xee,
-0xf7,0xb0,0x09,0x36,0xc3,0x7d,0x93,0xf8,0x2d,0x0a,0xcf,0xc1,0xd4,0x07,0x1d,0x67,
-0x23,0x6c,0x86,0x73,0x1e,0xe2,0xda,0x43,0x12,0xd4,0x81,0x8b,0xe1,0xb3,0x87,0x69,
-0x77,0x8f,0x52,0x26,0xf0,0x14,0xbc,0x02,0xaf,0xc1,0x1a,0x78,0x17,0x0e,0xc2,0x4f,
-0x50,0x98,0x76,0x53,0x02,0xca,0x41,0x6d,0x68,0x0e,0x17,0xc0,0x1d,0xf0,0x30,0x4c,
-0x7e,0xcc,0xfd,0xed,0x54,0x3c,0xc1,0x6d,0x03,0x8d,0x20,0x0b,0x5a,0xe0,0x9e,0x04,
-0x2d,0xa5,0xad,0xa4,0x6d,0xa4,0x6d,0xa5,0xed,0xa4,0x1d,0xa4,0x1d,0xa5,0x9d,0xa4,
-0x97,0x4a,0x3b,0x4b,0xbb,0x4a,0x2f,0x97,0xf6,0x94,0x5e,0x21,0x1d,0x60,0xe9,0x83,
-0x30,0x48,0xee,0x41,0x72,0x5f,0x25,0xf7,0x55,0x72,0x0f,0x97,0x7b,0xb8,0xdc,0xd7,
-0xca,0x7d,0xad,0xdc,0x8d,0xe5,0x36,0x79,0xf4,0xd4,0xf8,0x3f,0x22,0xff,0x71,0x70,
-0x2b,0x4c,0x97,0xfb,0x79,0xe9,0x0c,0xe9,0x2c,0xe9,0x1c,0xe9,0x5c,0xe9,0x3c,0xe9,
-0x02,0xe9,0x2b,0xd2,0x85,0xd2,0xc5,0xd2,0xa5,0xd2,0xd7,0xa5,0xcb,0xa5,0x2b,0xa5,
-0xef,0x58,0x6a,0xd2,0xb5,0x4e,0xee,0x75,0x72,0xbf,0x2f,0xf7,0xfb,0x72,0x6f,0x94,
-0x7b,0xa3,0xdc,0x9b,0xe4,0xde,0x24,0xf7,0xd3,0x72,0xef,0x95,0xee,0x93,0xee,0x97,
-0x7e,0x2d,0xfd,0xc9,0xca,0x97,0x49,0x8b,0x53,0x8c,0xfa,0x08,0xcf,0x42,0x10,0x9e,
-0x83,0xe7,0x21,0x02,0x22,0x21,0x04,0x33,0x61,0x16,0xcc,0x86,0x39,0xf0,0x22,0xcc,
-0x85,0x33,0x20,0x0a,0xa2,0x21,0x1f,0x94,0x87,0x18,0xc8,0x0f,0x05,0xa0,0x20,0x14,
-0x82,0xc2,0x50,0x04,0x8a,0x42,0x31,0x28,0x0e,0x5d,0xa1,0x1b,0x74,0x87,0xcb,0xa1,
-0x07,0xf4,0x84,0x5e,0x70,0x05,0xf4,0x86,0x2b,0xa1,0x0f,0xf4,0x85,0x7e,0xd0,0x1f,
-0x06,0x40,0x36,0x0c,0x84,0x41,0x30,0x18,0x86,0xc0,0x55,0xd0,0x05,0x4a,0x42,0x29,
-0x58,0x01,0x2b,0xe1,0x2d,0x78,0x1b,0xd6,0xc3,0x06,0xf8,0x10,0xce,0x84,0x8f,0x61,
-0x33,0x9c,0x05,0x65,0xa0,0x1c,0x54,0x80,0x58,0xa8,0x04,0xe7,0x42,0x55,0xa8,0x06,
-0x71,0x10,0x0f,0xd5,0x21,0x09,0xd2,0x20,0x03,0x9a,0xc0,0x79,0xb0,0x1f,0xbe,0x86,
-0x0e,0x70,0x11,0x74,0x84,0x1b,0x61,0x2c,0x8c,0x83,0xbb,0xe0,0x6e,0xb8,0x17,0x1e,
-0x85,0x29,0xc5,0xdc,0x7b,0x9a,0xb9,0x7f,0xc5,0xc0,0x26,0xee,0x33,0xf9,0xd1,0x38,
-0x28,0x00,0x49,0x57,0xb9,0xf7,0xb8,0xd3,0x21,0x00,0xe7,0x72,0xaf,0x49,0xe8,0xe0,
-0xde,0xe7,0xcc,0x73,0x83,0xb9,0x66,0xde,0x33,0x44,0xd0,0xb2,0x47,0x58,0xf6,0x90,
-0x65,0x8f,0xb2,0xec,0xd1,0x96,0x3d,0xc6,0xb2,0x17,0xb0,0xec,0x05,0x2d,0x7b,0x61,
-0xcb,0x5e,0xc4,0xb2,0x17,0xb5,0xec,0xc5,0x2c,0x7b,0x71,0xcb,0xee,0xe8,0x3a,0xdb,
-0x69,0xed,0xea,0x4b,0x6f,0x57,0x5f,0x9a,0xbb,0xfa,0xd2,0xdd,0xd5,0x97,0xf6,0xae,
-0xbe,0xf4,0x77,0xf5,0xe5,0xa1,0xab,0x2f,0x1f,0x5d,0x7d,0x79,0xe9,0xea,0xcb,0x4f,
-0x57,0x5f,0x9e,0xba,0xfa,0xf2,0xd5,0xd5,0x97,0x37,0x7f,0xfc,0xfd,0x7d,0xe7,0xef,
-0xad,0x7a,0x6f,0xea,0xf3,0xf4,0x63,0xec,0x2b,0xee,0x3b,0xc6,0xd4,0x03,0xcf,0x7e,
-0xbb,0x65,0x8f,0xb1,0xec,0xa6,0x7e,0x78,0xf6,0x7b,0x2d,0xff,0x7e,0x6d,0xac,0xb2,
-0xb4,0xfc,0xfb,0x58,0xfe,0x97,0x5a,0xfe,0xa6,0x9f,0xf7,0xec,0xe6,0x79,0xe1,0xd7,
-0xf0,0xd9,0xd6,0x6f,0xb0,0xbe,0x47,0xec,0x95,0xad,0x30,0xe6,0x5e,0xe7,0xd9,0xcd,
-0x33,0x91,0x67,0x37,0xcf,0x1f,0x9e,0xbd,0xca,0x15,0x56,0xfa,0xad,0x63,0xeb,0x5d,
-0x7d,0xc4,0x5e,0xe8,0x42,0xeb,0x59,0x78,0xd0,0x11,0xfb,0x94,0xdb,0xad,0x34,0x5b,
-0xe1,0x5f,0xbc,0xe0,0x88,0x7d,0x9b,0x95,0x97,0x11,0x56,0x3c,0x3d,0x3b,0x59,0x61,
-0x86,0x1e,0xb1,0x07,0x5a,0x1d,0xb1,0xaf,0xb0,0xe2,0xbf,0xd0,0x2a,0x87,0x7e,0xd6,
-0xb9,0x8a,0x59,0xe1,0xcd,0x73,0x86,0x67,0x3f,0x20,0x7b,0x2b,0x1e,0xac,0x47,0x5c,
-0xe6,0x3e,0x87,0x8d,0xbf,0xd6,0x7d,0xf6,0xf6,0xde,0x99,0x25,0x59,0xbf,0xb5,0x92,
-0xac,0xdf,0xda,0x49,0xfa,0x9d,0x95,0xe4,0x1c,0x79,0x0f,0x95,0x26,0xad,0x21,0xad,
-0x29,0x4d,0xd7,0x31,0x09,0xd6,0xef,0xed,0x64,0x2b,0xae,0x64,0xeb,0xf7,0x7b,0xb2,
-0xe2,0x73,0xd4,0x6f,0x47,0xa8,0xaf,0xf6,0xfa,0xe3,0x18,0xab,0x0f,0x3e,0x56,0xff,
-0xeb,0xb5,0x4d,0xaf,0x4d,0x7a,0x6d,0xd1,0x6b,0x83,0x5e,0xdb,0xf3,0xda,0x9c,0xd7,
-0xd6,0xbc,0x36,0xe6,0xb5,0x2d,0xaf,0x4d,0x79,0x6d,0xc9,0x6b,0x43,0x5e,0xdb,0x29,
-0xee,0x0b,0x37,0x4f,0xe7,0xf6,0xda,0x49,0x7f,0xc5,0x39,0x44,0xda,0xff,0x18,0x7d,
-0xa3,0xa9,0xf3,0xa6,0xae,0x9b,0x3a,0x6e,0xea,0xb6,0xa9,0xd3,0xa6,0x2e,0x9b,0x3a,
-0x6c,0xea,0xae,0xa9,0xb3,0xa6,0xae,0x9a,0x3a,0x6a,0xea,0xa6,0xa9,0x93,0xa6,0x2e,
-0x9a,0x3a,0x68,0xea,0x9e,0xa9,0x73,0xa6,0xae,0x99,0x3a,0x66,0xea,0x96,0xa9,0x53,
-0x1b,0xd1,0x1a,0x57,0xb9,0xcf,0xf1,0xbd,0x79,0xae,0xab,0x42,0xbc,0xd9,0xc4,0xb9,
-0x93,0xb8,0x42,0x0f,0xb8,0x75,0x61,0x12,0x7e,0xdd,0xfb,0x1c,0xdd,0x37,0xef,0xe0,
-0x39,0xfe,0x00,0xe1,0x6a,0xc3,0xfd,0x9d,0xdc,0xba,0x67,0xea,0x9c,0xa9,0x6b,0xa6,
-0x8e,0x99,0xba,0x75,0x66,0x47,0xf7,0xfa,0xa4,0xe9,0x3a,0xd5,0x90,0x7a,0xef,0x0f,
-0xd3,0x75,0x0d,0x13,0xac,0xf7,0x29,0x29,0x56,0x5d,0xf1,0xae,0x71,0x8a,0xf5,0xae,
-0x26,0x45,0xf1,0xa5,0x28,0xbe,0x14,0xc5,0x97,0xa2,0xf8,0x52,0xad,0x77,0x37,0xa6,
-0x5c,0x92,0xa4,0xc9,0xd2,0x14,0x69,0xaa,0x34,0x4d,0x5a,0x43,0x5a,0x53,0x9a,0x2e,
-0xf5,0xde,0x27,0x78,0xf6,0x44,0xcb,0xee,0xc5,0xdd,0x54,0xbf,0x1d,0x7b,0xe8,0x77,
-0xa1,0x67,0x6f,0x6f,0xbd,0x43,0x36,0xbf,0x67,0x1f,0x27,0xa2,0x27,0xf5,0x8c,0x32,
-0x15,0x9e,0xd5,0x73,0xd7,0xf3,0x7a,0xde,0x9a,0xa5,0xe7,0x91,0xb9,0x7a,0xbe,0x5a,
-0xa0,0xe7,0xaa,0x85,0x7a,0x9e,0x5a,0xaa,0xe7,0xa8,0xe5,0x7a,0x66,0x59,0x05,0xab,
-0xe1,0x2d,0x58,0x03,0x6f,0xeb,0x39,0x6a,0x9d,0x9e,0x97,0x36,0xea,0xb9,0xe8,0x13,
-0xd8,0x0c,0x5b,0xe0,0x53,0xd8,0x0a,0xdb,0x61,0x07,0xec,0x84,0x2f,0x60,0x17,0xec,
-0x86,0x2f,0x61,0x8f,0x9e,0x9f,0xf6,0xe9,0xb9,0xc9,0x3c,0x33,0x6d,0x37,0x75,0xf1,
-0x42,0x37,0x0f,0xde,0xb3,0xda,0x61,0xa5,0xe3,0x71,0x1d,0x6b,0xce,0x39,0x45,0xee,
-0x03,0xd6,0x33,0xda,0xe3,0xe2,0xb0,0xc2,0x3d,0xa9,0x74,0x1f,0xb0,0x9e,0x33,0x9f,
-0x94,0x7b,0xa9,0xca,0x67,0x9a,0xdc,0x53,0x55,0x0e,0x33,0xac,0xf3,0x4d,0x92,0xff,
-0x61,0x95,0xdf,0x61,0x95,0xe5,0x01,0x85,0x7d,0x56,0x7e,0x5b,0xb4,0xff,0x49,0xe5,
-0x6f,0xba,0xf2,0xfa,0x9a,0xe2,0x99,0xae,0xbc,0xee,0xb2,0xe2,0x9a,0x24,0xbf,0x03,
-0x96,0xfb,0x80,0xca,0xd0,0x7b,0x36,0xf6,0x3f,0x2b,0xaf,0xd6,0xf1,0xc6,0xfd,0x99,
-0x15,0x9f,0xb7,0x7f,0xb7,0xf5,0x3c,0xec,0xf9,0xef,0xb1,0xd4,0x2b,0x83,0x2f,0x94,
-0x66,0xcf,0xff,0x53,0x2b,0xcf,0xbb,0x2d,0xff,0xbd,0x56,0x1e,0xfc,0xc7,0xfa,0xdd,
-0x2b,0xad,0x72,0xde,0x6d,0x3d,0xa7,0x3f,0x69,0x9d,0x7b,0x8f,0xce,0xb3,0x46,0x75,
-0xf0,0xb0,0xca,0x71,0x8e,0x8e,0x59,0x25,0xfb,0x61,0xeb,0x39,0x7b,0xae,0xe2,0xf0,
-0xe2,0x9d,0x6b,0x5d,0x3f,0xaf,0xec,0xe7,0xa9,0x2c,0xec,0xeb,0xfc,0x8a,0x15,0xce,
-0xb3,0xaf,0xf4,0x95,0xcf,0x02,0xeb,0x77,0xc2,0x3c,0xeb,0x9a,0xef,0xb6,0xf2,0xb3,
-0x4a,0xf5,0xfd,0x6d,0xab,0x2c,0xde,0x51,0x9a,0x5e,0xf7,0xd5,0x51,0xfb,0x3c,0xb6,
-0xff,0xeb,0xd6,0xef,0x8f,0xc3,0xaa,0xfb,0xbb,0xad,0xdf,0x1e,0x8f,0x2b,0x2d,0x2b,
-0x7d,0xfe,0x33,0x7c,0xee,0x39,0xd6,0xef,0x16,0xbb,0x1d,0xd8,0x75,0xcd,0xfb,0x0d,
-0xf3,0x84,0x75,0x4d,0xbd,0xdf,0x36,0xaf,0x29,0x9f,0xcf,0x58,0xc7,0x7f,0x61,0xb5,
-0xa1,0x19,0x2a,0x1f,0xaf,0xfd,0x78,0xed,0x6a,0xa1,0x65,0x5f,0xad,0x34,0x6c,0x54,
-0x98,0xd7,0xad,0x7d,0x5e,0xbb,0xd8,0x68,0xe5,0x7d,0x9e,0xf5,0x3b,0xca,0xcb,0xff,
-0x62,0xeb,0xfa,0x3e,0x69,0x95,0xd9,0x26,0x5f,0xf9,0x6f,0xd2,0xbe,0x4d,0x56,0xfc,
-0x2b,0xad,0xdf,0x61,0x5e,0x3a,0x3d,0xbb,0xd7,0x7e,0x9e,0xb4,0xea,0x9b,0xe7,0xde,
-0x2d,0xfb,0x6b,0xba,0x16,0x9f,0xc8,0x6f,0x86,0xec,0x07,0x94,0xd6,0xcf,0x65,0xdf,
-0x6c,0xc5,0xe1,0xb9,0x77,0x59,0x6a,0x5f,0xcf,0xdd,0x6a,0x43,0x5e,0x7b,0xb5,0xed,
-0x5e,0x3d,0xf2,0xb7,0xb1,0xed,0xbe,0x7e,0x66,0xbb,0x15,0xd7,0x0e,0xab,0x6f,0xdb,
-0x65,0x5d,0xdb,0xdd,0x72,0x7f,0xe1,0xab,0x17,0xde,0x71,0x87,0xad,0x6b,0xed,0xf5,
-0xb1,0x5b,0xa4,0x5e,0xd9,0xcd,0xb2,0xfa,0x1a,0xbb,0x7d,0x9b,0x7b,0xcf,0x82,0x6c,
-0xf7,0x7e,0x63,0x34,0x49,0x9a,0x2c,0x4d,0x91,0xa6,0x4a,0xd3,0xa4,0x35,0xa4,0x35,
-0xa5,0xe9,0x56,0x3c,0x76,0x9c,0x89,0x96,0x3d,0xc9,0xb2,0x27,0x5b,0xf6,0x14,0xcb,
-0x9e,0x6a,0xd9,0xd3,0x2c,0x7b,0x0d,0xcb,0x5e,0xd3,0xb2,0xa7,0x5b,0xe9,0x4e,0xb0,
-0xec,0x76,0x7e,0x92,0x2c,0x7b,0xb2,0x65,0xf7,0xce,0x7b,0x85,0xde,0xef,0x76,0xd5,
-0xfb,0xda,0xae,0x7a,0x57,0xdc,0x4e,0xef,0x71,0xbb,0xea,0xbe,0x3b,0x40,0xf7,0xdc,
-0x6c,0xdf,0x78,0x9c,0xa7,0x49,0x96,0x3d,0x59,0xef,0x93,0x4d,0x1c,0x83,0x79,0x96,
-0x2d,0x4a,0x44,0x71,0x3d,0xdd,0x7b,0x9c,0x79,0xaf,0x69,0x9e,0x77,0x0a,0xe3,0x7e,
-0xa5,0xaf,0xfb,0x0c,0x55,0xa4,0x33,0xbf,0xf3,0x5b,0xb9,0xcf,0x51,0xd9,0x3a,0x7f,
-0x7f,0xe9,0xab,0x9a,0xe7,0xdc,0x4f,0xee,0x3e,0xd2,0x16,0x7a,0x9f,0xdd,0x52,0xda,
-0x44,0xea,0x8d,0x77,0xf7,0x55,0x58,0xdb,0x9d,0xad,0x77,0xde,0xfd,0xa5,0xaf,0x46,
-0x1c,0xd1,0x5e,0x3a,0x87,0xf7,0xdd,0x92,0x37,0xee,0x7d,0x8d,0xdc,0x9e,0xbd,0xa5,
-0x65,0x6f,0x62,0xd9,0x2f,0xb4,0xec,0xaf,0x46,0x1c,0x79,0xb7,0xdd,0x57,0xe5,0xd2,
-0xd7,0x7a,0xe7,0xdd,0xd3,0x7a,0xef,0xdd,0x4f,0xe1,0xfb,0x39,0x47,0xe8,0x2e,0xed,
-0xe3,0x1c,0xed,0x9f,0x64,0xed,0x4b,0xb2,0xb4,0x8f,0xcf,0xcf,0xbb,0x06,0xdd,0x2d,
-0xbb,0xa7,0x7d,0x7c,0x7e,0xa5,0x2a,0xb8,0xef,0xda,0x6d,0x7b,0x92,0x55,0x27,0xfa,
-0x58,0xf6,0x96,0x96,0xbd,0x89,0x65,0x1f,0x64,0xd5,0x1f,0xdb,0xee,0xc5,0x77,0x2c,
-0xbf,0x24,0x6b,0xde,0x42,0x7f,0xe9,0xab,0x11,0x47,0xd2,0x32,0x58,0xfb,0xdb,0x6b,
-0x7f,0x7b,0xed,0x6f,0xaf,0xfd,0xed,0x95,0xb6,0xf6,0x4a,0x97,0x57,0x37,0x3b,0x28,
-0x7c,0x07,0x85,0xef,0xa0,0xf0,0x1d,0x14,0xbe,0x83,0xc2,0x7b,0xee,0x69,0xfa,0xbe,
-0x66,0x9a,0xe6,0xd0,0xc7,0x2b,0x7c,0xbc,0xea,0xd3,0x40,0x95,0x63,0x77,0xab,0xde,
-0x37,0x54,0x3e,0xbc,0x7a,0xd2,0x50,0xed,0x23,0x5e,0xfb,0xbd,0xfa,0x78,0xb5,0xc6,
-0x3c,0xba,0xaa,0x6e,0xb4,0xd6,0xf8,0x47,0x7f,0xd5,0x5f,0x8f,0x96,0x4a,0xcb,0x10,
-0xe7,0xe8,0x7a,0xd3,0x5f,0x3a,0x40,0xe7,0xe9,0xab,0x31,0x90,0x7e,0x6a,0x9b,0xfd,
-0xac,0x31,0xf2,0x7e,0x0a,0xd7,0x57,0xe7,0x69,0xaa,0xf2,0xb0,0xf3,0xd3,0x5a,0x78,
-0xd7,0xd1,0x9b,0x2b,0x32,0x48,0xe3,0x3a,0x43,0x55,0x2e,0xdd,0x54,0x9e,0x26,0x8f,
-0x5e,0xbb,0xf3,0xec,0x89,0xfa,0x3d,0x9e,0x24,0x4d,0x96,0xa6,0x48,0x53,0xa5,0x69,
-0xd2,0x1a,0xd2,0x9a,0xd2,0x74,0xa9,0xd7,0x57,0x7a,0xf6,0x44,0xcb,0x9e,0x64,0xd9,
-0x93,0x2d,0x7b,0x8a,0x65,0x4f,0xb5,0xec,0x69,0x96,0xbd,0x86,0x65,0xaf,0x69,0xd9,
-0xd3,0xad,0x74,0x27,0x58,0x76,0x3b,0x3f,0x49,0x96,0x3d,0xd9,0xb2,0xa7,0x58,0xf6,
-0x54,0xcb,0x9e,0x66,0xd9,0x6b,0x58,0xf6,0x9a,0x96,0x3d,0xdd,0x2a,0xa7,0x04,0xcb,
-0xee,0x9d,0xb7,0x97,0xd5,0x3f,0x35,0x8f,0xe4,0x37,0x0d,0x0c,0x78,0xc6,0xad,0x53,
-0x8d,0x35,0xee,0x56,0x31,0xc0,0xf5,0x81,0x4a,0xf8,0xd7,0x98,0x4e,0x5d,0x09,0x72,
-0xed,0xd0,0x3b,0xd0,0xa6,0xfc,0x1e,0xfc,0xa6,0xa7,0x3b,0x8e,0xb0,0x12,0xfb,0xbb,
-0x54,0x9a,0x24,0x7e,0x4f,0x7c,0xd6,0xd6,0x7d,0x07,0x6f,0x68,0xd3,0xd1,0xfd,0xdd,
-0x7a,0x33,0x1d,0x72,0x53,0xec,0xdf,0x71,0xc2,0xde,0x5c,0xec,0xb1,0x37,0x38,0x4e,
-0xfd,0x9b,0x1c,0xe7,0xe5,0x9b,0x1d,0xe7,0x87,0x71,0x8e,0x33,0x9e,0xdf,0xa8,0xc1,
-0x2b,0x1d,0xa7,0x34,0x17,0xfa,0x43,0x2a,0xcf,0x27,0x54,0x8e,0xba,0x37,0x3a,0xce,
-0x95,0x1c,0xbb,0x7f,0x92,0xe3,0x8c,0x26,0xde,0xab,0x88,0x37,0x92,0xca,0x5a,0x9a,
-0x4a,0x13,0xc7,0xb1,0x65,0x1e,0xa5,0x2e,0xf1,0x7b,0x75,0x37,0x95,0x6f,0xcd,0x58,
-0xea,0xff,0x2d,0x8e,0xf3,0x26,0x15,0x68,0xe3,0x28,0x7e,0x27,0x13,0xe7,0x2a,0xfa,
-0xff,0x53,0xc9,0xe4,0x95,0xc4,0x79,0x98,0x63,0xde,0xe6,0x1c,0x37,0xd1,0xd7,0xcf,
-0x23,0x63,0x9f,0x50,0x01,0x5f,0xa7,0xc1,0xac,0xe7,0x9c,0x45,0xd9,0xf7,0xf9,0x50,
-0x77,0x5c,0x26,0x8a,0x78,0x2f,0x81,0xbd,0x77,0x90,0x97,0xfb,0x29,0x8f,0x87,0x1c,
-0xe7,0xd0,0x23,0xdc,0x3f,0xa8,0xfc,0x37,0xd0,0xa8,0x26,0x5f,0xc7,0x39,0xc6,0x90,
-0x8e,0x7b,0xdc,0x31,0x8a,0x0f,0x6e,0xe5,0x19,0xe5,0x22,0xdc,0xdc,0x47,0xba,0x8c,
-0x70,0x9c,0xeb,0x89,0xa3,0x1b,0xf1,0xad,0x22,0xfc,0x32,0xca,0xe4,0xfb,0xfb,0x48,
-0x0f,0xfb,0xbb,0x5d,0xe2,0x38,0x25,0x38,0xd7,0x47,0xa4,0xa5,0x08,0xe9,0xad,0x4e,
-0x3c,0x35,0xae,0xa7,0x0d,0xb2,0x7f,0x1d,0x69,0xb9,0x8d,0xe3,0x72,0x48,0xd7,0x5b,
-0x70,0x26,0x1d,0xf9,0x22,0xf6,0xef,0xe7,0x3c,0x57,0xb1,0x7f,0xe4,0x6d,0x3c,0xff,
-0x74,0x73,0xcb,0xe7,0x67,0xce,0x97,0x4e,0x59,0x7c,0xce,0xef,0xf2,0xe2,0x5d,0x28,
-0x57,0xca,0x29,0x9b,0xdf,0xf9,0xa7,0x52,0x36,0x3f,0x72,0xce,0xc5,0xe4,0x6f,0x1a,
-0x69,0x29,0x44,0x98,0xb7,0xb8,0xb0,0xc3,0xb9,0xce,0x15,0x88,0xeb,0x35,0xf6,0x5f,
-0x46,0x3a,0x02,0xc3,0xb8,0x3f,0x52,0xae,0xcf,0x12,0xcf,0xcb,0x7d,0xdc,0xb1,0x9f,
-0x71,0x84,0xfb,0x99,0xf8,0x3f,0x1b,0x4d,0xfe,0xe8,0x68,0x7a,0x10,0xdf,0x0b,0x1c,
-0xdf,0x9b,0xb4,0xbc,0x09,0xa3,0xe8,0x48,0x3e,0x27,0x6f,0x03,0xd8,0xbf,0x8e,0xe3,
-0xde,0xe1,0x9a,0x7c,0x4b,0x9a,0x33,0x2f,0x74,0xdf,0x2f,0x7c,0x49,0x39,0xbf,0xc1,
-0x79,0x7e,0x26,0x5f,0x55,0x28,0xa3,0xe7,0x27,0x52,0xe6,0x0f,0x3a,0xce,0xfd,0x94,
-0xcf,0xdb,0x8f,0xba,0xe3,0x92,0xcb,0xa9,0x27,0xc3,0xcc,0xd8,0x1d,0xe7,0x1b,0x42,
-0xf8,0x09,0x1a,0xac,0x7d,0x90,0x6b,0x10,0xcb,0x71,0xcd,0xe8,0xec,0x6e,0xa1,0x13,
-0x5a,0xc5,0xf1,0xdf,0x90,0xde,0x01,0x94,0x47,0x45,0xc2,0x7e,0x45,0x5a,0x63,0xb9,
-0x6e,0xcd,0x29,0xef,0x53,0x89,0xe7,0x09,0x58,0xc8,0x79,0x57,0x52,0x47,0x96,0x8d,
-0x73,0xf3,0xf1,0x26,0xf1,0x7d,0x4b,0x9e,0xaf,0x25,0xed,0x2f,0x70,0x8e,0x7a,0xa4,
-0xf5,0xaa,0xc1,0xee,0x6f,0xdb,0x83,0xed,0xdd,0xb2,0x7a,0x99,0x7a,0x72,0x26,0xe5,
-0x35,0x1b,0xff,0xde,0x9c,0xe7,0x41,0xea,0x5f,0x63,0xce,0x91,0x72,0x37,0x75,0x92,
-0x32,0x6e,0xca,0xb5,0x3e,0xed,0x01,0xae,0x03,0xe5,0xf7,0x82,0x79,0x87,0x42,0x1e,
-0xe7,0xe3,0xff,0x29,0xc7,0xdc,0x44,0x3c,0x1f,0xd1,0x69,0x7d,0x45,0x3c,0xf5,0xb9,
-0x8e,0x93,0x7a,0xb8,0xd7,0xe2,0x6d,0xd2,0x9c,0x49,0xbd,0x39,0x4c,0x1a,0x47,0x4c,
-0x70,0xc7,0x9e,0xc6,0x91,0xcf,0x78,0x8e,0xbb,0x85,0x74,0x5e,0x4b,0xdd,0x3b,0x00,
-0x0d,0xb8,0xe6,0x0f,0xd3,0x36,0x62,0x38,0x6f,0x47,0xca,0xb6,0x0f,0xd7,0xa9,0x28,
-0x79,0xbc,0xec,0x01,0xf7,0xbd,0x4f,0x3c,0xe5,0x30,0x9c,0x63,0xaa,0x72,0x8e,0xd3,
-0x49,0xe7,0x2e,0xc2,0x57,0x21,0xef,0xb7,0x91,0xa7,0x46,0x94,0xd3,0xa9,0x57,0xb8,
-0xd7,0xf9,0x26,0xc2,0x9c,0x4b,0xbc,0x45,0xc8,0x7f,0x0f,0x53,0x9f,0x38,0xd7,0xf9,
-0xc4,0x3f,0x95,0xfd,0x9f,0x71,0x0d,0xa3,0x88,0x7f,0x2b,0xf1,0x5f,0x4d,0xde,0xde,
-0xa1,0x6c,0x3e,0x1d,0xe7,0x8e,0xe3,0x6d,0xe5,0xb8,0xfa,0x5c,0xff,0x97,0x49,0xc3,
-0x59,0x1c,0xbb,0x96,0x74,0x3f,0x40,0xd8,0x43,0xb4,0x99,0x27,0xd8,0xd7,0xe1,0x61,
-0xc7,0x79,0x8c,0xeb,0x74,0x3f,0x71,0xad,0xe6,0xdc,0x3b,0x47,0xb9,0x63,0x98,0xe5,
-0xae,0x75,0x9c,0xbb,0x29,0xcb,0x25,0xd4,0xe7,0x49,0x94,0xf7,0x45,0xd4,0xc3,0x25,
-0x66,0x9c,0x9a,0x7a,0x59,0x8b,0x74,0x44,0xc3,0xd3,0x94,0xfd,0x7a,0xd2,0xff,0x01,
-0xe1,0xc6,0x52,0x3e,0x65,0x38,0xfe,0x45,0xd2,0x55,0x7b,0xbc,0x3b,0x36,0xd9,0xf2,
-0x3e,0x77,0x5c,0x72,0x3d,0xe1,0x32,0xc8,0xeb,0x12,0xfa,0x81,0x8b,0xa9,0x87,0x43,
-0x08,0xf3,0x09,0xee,0x2a,0xe4,0x6b,0x15,0x65,0x58,0x87,0x32,0xbf,0x0c,0x7a,0xc0,
-0x78,0x68,0xcf,0xf5,0x58,0x34,0xc2,0x1d,0x2f,0x2d,0x4e,0x7b,0xfc,0x81,0xeb,0x5c,
-0x93,0x32,0xfe,0x09,0xf6,0x52,0x6e,0x87,0xa1,0x32,0xfd,0xc2,0x8b,0xb4,0xcd,0x4f,
-0xf0,0x9b,0xc7,0x79,0x5e,0xe0,0xda,0x7d,0x4e,0x19,0xb6,0x34,0xf5,0x96,0xb4,0x6d,
-0x87,0x36,0xe4,0xfb,0x11,0xce,0x19,0x45,0x3d,0xb8,0x02,0x32,0x38,0xf7,0x54,0xb8,
-0x5c,0xe3,0xd8,0xf7,0x72,0x7d,0xaf,0xa0,0x8c,0xef,0x84,0xaf,0xa1,0x15,0xd7,0x76,
-0x2b,0xdc,0x45,0xfa,0xc6,0x52,0xae,0xc3,0xc8,0xcf,0x19,0x94,0x5b,0x05,0xea,0x68,
-0x7f,0xca,0xad,0x2a,0x65,0x51,0x81,0xb2,0xbb,0x6b,0xb8,0xfb,0xcc,0xd8,0x0c,0x9a,
-0x42,0x6b,0x93,0xe6,0xab,0xdd,0xf7,0x6f,0x77,0xc0,0x9d,0x90,0x41,0x19,0x8e,0x82,
-0x25,0xd7,0xba,0x75,0x3a,0x86,0xf6,0xde,0x00,0x06,0x91,0xa7,0x10,0x75,0x6f,0x0f,
-0xe5,0x7c,0xf5,0x68,0x97,0x0e,0xd4,0xa1,0xa2,0x94,0xd3,0x7d,0x10,0xa0,0x9c,0xd3,
-0x61,0x3d,0xfd,0x47,0x3e,0xfa,0xa1,0x97,0xc6,0xbb,0x79,0xdf,0x46,0x1e,0x7f,0xa1,
-0x5c,0x6a,0x93,0xf7,0xab,0x48,0xf7,0x57,0x99,0x41,0xe7,0x34,0x8e,0xad,0xc8,0x35,
-0x99,0x4b,0x9e,0xaf,0x80,0x91,0x94,0x41,0x96,0x51,0x58,0x41,0xfe,0x0f,0x5d,0xe0,
-0xe6,0xbf,0x1d,0x4c,0x82,0xad,0x2a,0xff,0x39,0xd0,0x88,0xb6,0x7b,0x21,0x74,0xbb,
-0x98,0xb2,0xe4,0xda,0xad,0xe3,0x1a,0x7d,0x08,0xbd,0xa9,0x77,0xcf,0xc3,0x46,0xce,
-0x71,0x3e,0x65,0x92,0x4f,0xe5,0xd3,0x45,0x65,0x94,0xc2,0xf5,0x7e,0x9d,0xb6,0x76,
-0x26,0x6d,0xf7,0x02,0x68,0xdf,0xc3,0xbd,0x9e,0xa6,0xaf,0x2d,0x0d,0xed,0x7b,0xb9,
-0xe3,0xf3,0xa6,0x7f,0x31,0x75,0x7f,0x13,0xe5,0xb7,0x5a,0x65,0x58,0x26,0xdb,0x2d,
-0xc7,0x67,0xe8,0x87,0x52,0x29,0xcb,0x19,0x83,0xdc,0x3a,0x30,0x90,0x32,0x8d,0xa2,
-0xee,0xd6,0x86,0xb3,0xa8,0x0f,0x65,0x87,0xba,0xf5,0x62,0x13,0x7c,0x03,0xcd,0x09,
-0x9f,0x01,0x6f,0x51,0xee,0xb3,0x54,0xa6,0xd7,0x52,0x3f,0x3a,0x5d,0xe7,0x96,0x6d,
-0x3d,0x95,0xe9,0x05,0xd4,0xcd,0xbd,0x70,0x35,0xf7,0x95,0x06,0x94,0xe5,0x4d,0x2a,
-0xd3,0xc5,0xb7,0xba,0x75,0x68,0xf5,0xad,0x6e,0xf9,0x9a,0x7e,0x74,0xcf,0xad,0x6e,
-0x39,0xdf,0x7a,0x9b,0x5b,0xce,0x35,0x29,0xe7,0x41,0x94,0xf3,0x24,0xda,0xcc,0x50,
-0xfa,0x85,0x11,0xf7,0xb9,0x65,0x6e,0xea,0xe2,0xa6,0xfb,0xdd,0xb2,0x2f,0xf0,0x80,
-0x5b,0xfe,0xc5,0x1f,0x72,0xef,0x6f,0xcd,0x2b,0x07,0x9d,0x46,0xf0,0x7e,0x72,0xd0,
-0x79,0xa4,0x36,0x7d,0x48,0x06,0x71,0x42,0xb3,0x0b,0x82,0xce,0xda,0x4b,0x82,0xce,
-0xfa,0xeb,0x83,0x4e,0x43,0xc2,0xdd,0xf9,0x98,0xfb,0xec,0xed,0xd1,0x5b,0xda,0xf7,
-0x18,0x7e,0x9e,0xbf,0x37,0x0f,0xc5,0xd3,0x21,0x21,0xd2,0x15,0x72,0xb5,0x87,0xb4,
-0x0f,0x5c,0x6f,0xf9,0xf7,0x83,0x0f,0xe1,0x45,0xf8,0x1a,0xe6,0xc1,0xd6,0x90,0x3b,
-0x67,0xd5,0xcc,0x55,0x7d,0x0f,0x36,0x41,0x0e,0x7c,0x0c,0x3b,0x61,0x57,0xc8,0x9d,
-0x03,0xfc,0x05,0xba,0x34,0xe4,0xea,0x32,0xe9,0xab,0x96,0xdf,0xab,0xf2,0x5f,0xab,
-0x78,0x8d,0xce,0x97,0xbe,0xaa,0x39,0xb1,0xaf,0x6a,0x5e,0xec,0xab,0x3a,0xdf,0xab,
-0x3a,0xa7,0xd1,0xf7,0xa5,0x1f,0x48,0x37,0x4a,0x3f,0x94,0x7e,0x24,0xdd,0x24,0xcd,
-0x91,0x7e,0x22,0xdd,0x22,0xfd,0x54,0xba,0x4d,0xba,0x5d,0xba,0x43,0xfa,0xb9,0x74,
-0xa7,0xd4,0x4b,0xfb,0x2e,0x2b,0x1d,0x0b,0x94,0xde,0xc5,0x3a,0xdf,0x62,0xc5,0xb3,
-0x58,0xf9,0x31,0xe7,0x1e,0x18,0xe5,0x72,0xad,0x8f,0xeb,0x7d,0x8c,0xf4,0x71,0x8d,
-0x8f,0x1b,0x7c,0x5c,0xed,0xe3,0x49,0x1f,0x4f,0xfb,0xb8,0xd1,0xc7,0x18,0x1f,0x37,
-0xf9,0xb8,0xd9,0xc7,0x1d,0xe2,0x76,0x71,0xa7,0x18,0x27,0x1e,0x10,0x77,0x89,0x69,
-0x3e,0x66,0xf8,0x98,0xe3,0x63,0x96,0x8f,0x97,0xc5,0x2b,0x3e,0xbc,0xb5,0x6b,0xec,
-0x35,0x6c,0x6c,0x16,0xf9,0x58,0x67,0x61,0xaf,0x75,0xf3,0xbc,0x8f,0x15,0x62,0xb9,
-0x58,0x29,0xbc,0xb5,0x73,0x56,0x8b,0x37,0xc4,0x9b,0x62,0xad,0x8f,0x66,0xc2,0x5e,
-0x8b,0xe7,0x58,0xf6,0xf7,0xf3,0xb0,0x37,0xcd,0xc3,0xbe,0x22,0x0f,0xfb,0xf2,0x3c,
-0xec,0x2b,0xf3,0xb0,0xaf,0x3d,0x01,0x7b,0xb3,0xff,0x60,0x7f,0xcb,0x87,0xb7,0xaf,
-0x9a,0x65,0x8f,0xb3,0xec,0x59,0x79,0xc4,0x65,0xb4,0xb2,0x8e,0xab,0xac,0x63,0x8c,
-0xc6,0x4b,0xb3,0xa4,0xcd,0xa4,0x26,0x7c,0x15,0x85,0xaf,0xa2,0xf0,0x55,0x14,0xbe,
-0x8a,0xc2,0x57,0x51,0xf8,0x2a,0x0a,0x5f,0x55,0xe1,0xab,0x6a,0x7f,0x55,0xed,0xaf,
-0xaa,0xfd,0xd5,0x14,0x4f,0x35,0xed,0x8f,0xb3,0xfc,0xb2,0x14,0x77,0x35,0x69,0x9c,
-0xd4,0xf8,0x27,0xcb,0x3f,0x59,0xfe,0xc9,0xda,0x97,0xac,0xfd,0xa9,0xf2,0x4f,0x95,
-0x3b,0x4d,0xe1,0xd3,0xe4,0x9f,0xa6,0xf0,0x69,0xda,0x5f,0x43,0xfe,0x35,0xe4,0xae,
-0x29,0x4d,0xd7,0x71,0xe9,0x72,0xd7,0x92,0xbb,0x96,0xdc,0x0d,0xe4,0x6e,0xa0,0xe3,
-0x1b,0x28,0xde,0x06,0xd6,0xfe,0x66,0x52,0x93,0xdf,0x4c,0x85,0xcb,0xd4,0xfe,0x4c,
-0xed,0xcf,0xd4,0xfe,0x86,0xaa,0xa3,0x0d,0x15,0x6f,0x43,0x85,0x6f,0xa8,0x78,0x8d,
-0x36,0x92,0x66,0x49,0x9b,0x49,0x9b,0x6b,0x5f,0x35,0x69,0x9c,0x34,0x5e,0x9a,0x25,
-0x6d,0x26,0x6d,0x2e,0x3f,0xbb,0xec,0xb3,0xac,0x32,0xf6,0x68,0x66,0xd5,0xa1,0xc6,
-0x0a,0xdf,0x58,0xe1,0x1b,0x2b,0x7c,0x63,0x85,0x69,0xac,0xf0,0x8d,0x15,0xbe,0x89,
-0xc2,0x37,0xd1,0xfe,0x26,0xda,0xdf,0x44,0xfb,0x9b,0x5b,0xf5,0xd6,0xab,0xb3,0xf1,
-0x56,0xda,0x9a,0x5b,0x75,0xd6,0x90,0x00,0xd9,0x90,0x28,0x6d,0x26,0x35,0xf3,0xa6,
-0xce,0x43,0xdb,0xc8,0xde,0xd2,0xb2,0x9f,0x6f,0xd9,0x5b,0x59,0xf6,0xd6,0x96,0xbd,
-0x8d,0xe2,0xf1,0xda,0x46,0xa2,0x65,0x4f,0xca,0xa3,0x2d,0x35,0x3e,0x4e,0xbb,0x4a,
-0x94,0x26,0xf9,0xda,0x53,0xe3,0x3c,0xda,0x55,0xa2,0x34,0xc9,0xd7,0x9e,0x1a,0xe7,
-0xd1,0xae,0x12,0xa5,0x49,0xbe,0xf6,0xd5,0xf8,0x18,0xed,0xec,0x58,0xf5,0x30,0xaf,
-0x7a,0x77,0xbc,0xfa,0x95,0x57,0x3d,0xaa,0x64,0xd5,0x99,0xc6,0x4a,0x5f,0x63,0xa5,
-0xcf,0xae,0x1f,0x8d,0x8f,0x51,0x4f,0x9a,0x59,0xe5,0xef,0x95,0x7d,0x92,0xaf,0x1e,
-0x34,0x3e,0x46,0x7d,0x38,0x5e,0xdf,0x17,0x9f,0xc7,0xb5,0x6b,0x72,0x82,0x7d,0x5f,
-0x93,0x13,0xec,0xf3,0x9a,0x58,0xd7,0xe0,0x64,0xfa,0xb4,0x93,0xed,0xcb,0xe2,0x7f,
-0x43,0x9f,0xf6,0x47,0xf5,0x65,0xfe,0xbe,0xeb,0x44,0xfb,0xa8,0x13,0xe9,0x93,0x9a,
-0x9c,0x40,0x5f,0x74,0x22,0x7d,0x4f,0x93,0x3c,0xfa,0x9c,0xec,0x13,0xec,0x6b,0x9a,
-0x1c,0xa7,0xbe,0xf8,0xeb,0xc5,0xb1,0xae,0x7f,0x55,0xb9,0x93,0xad,0xeb,0x6b,0xdc,
-0x29,0x72,0xa7,0xc8,0x7d,0xac,0x72,0xca,0x3a,0x46,0x7e,0xfc,0xe9,0xcb,0x88,0x3a,
-0xd2,0xa7,0x19,0x7b,0x2b,0xcb,0xee,0xf5,0x69,0x35,0xd4,0x4e,0x6a,0xe8,0xb8,0x74,
-0xb9,0xd3,0xe5,0xae,0x25,0x77,0x2d,0xb9,0x93,0xe5,0x4e,0x96,0x3b,0x45,0xee,0x14,
-0xab,0xbc,0x9a,0x59,0xe5,0x56,0x4d,0xee,0x6a,0x56,0x39,0x36,0xb3,0xca,0x33,0x55,
-0xee,0x54,0xb9,0xd3,0xe4,0x4e,0xb3,0xe2,0xaf,0x26,0x8d,0x93,0xc6,0xfb,0xca,0x28,
-0x51,0xe9,0x49,0x54,0x3c,0x89,0x3a,0x3e,0xf1,0x5f,0x90,0xbf,0xe3,0x1d,0x6f,0xd7,
-0xa9,0x26,0xd6,0x73,0x4b,0x5e,0x7d,0x49,0x5e,0xf1,0xf9,0x9f,0x77,0x4c,0x1f,0xde,
-0xc2,0xd2,0x2a,0x56,0x9b,0xac,0x62,0xf5,0x65,0xc7,0xb2,0x67,0x59,0x7d,0x63,0x96,
-0xd5,0x3e,0xaa,0x59,0xf6,0x38,0xcb,0x1e,0x7f,0x8c,0x3e,0xd2,0xb3,0xc7,0x59,0x75,
-0x3e,0xce,0x7a,0x0e,0x49,0xb6,0xc2,0x26,0x5b,0xfd,0x6a,0xb2,0x75,0xcd,0x92,0xad,
-0x78,0x8e,0x65,0xaf,0x66,0xd9,0xb3,0x7c,0xf6,0x54,0xeb,0xfc,0x7e,0x7b,0x96,0x75,
-0xed,0xe2,0xf2,0xb0,0x57,0xb3,0xae,0x7f,0x96,0xef,0x9a,0xd9,0xf6,0x2c,0x9f,0x3d,
-0xcd,0xaa,0x83,0x69,0x56,0x19,0xda,0xf6,0x1a,0x56,0x5e,0x8e,0x65,0xb7,0xc3,0x34,
-0xb7,0xfa,0xfb,0x2c,0xab,0xcf,0xcf,0xcb,0xde,0xcc,0xba,0x0f,0x64,0x59,0xf6,0xe6,
-0x96,0xbd,0x99,0x75,0x4f,0xc8,0xf2,0xd9,0x33,0xad,0xf4,0x64,0x5a,0xf1,0x34,0xb2,
-0xca,0xa7,0x91,0xd5,0xbe,0x1a,0x59,0xf9,0xf5,0xee,0x0f,0xd5,0x8e,0x61,0x8f,0xb7,
-0x8e,0x8d,0xf7,0xf5,0x93,0x71,0x3e,0xfb,0xb1,0xea,0x51,0x96,0x65,0x6f,0xee,0xbb,
-0x3f,0xdb,0xf7,0x1b,0x7f,0x7d,0xb4,0xef,0x3b,0xde,0xbd,0xda,0xbe,0x47,0x35,0xf1,
-0xdd,0x97,0xe2,0x7c,0xf6,0x66,0xd6,0xfd,0x2a,0x2b,0x0f,0x7b,0x33,0xab,0xaf,0x6f,
-0x6e,0xd9,0x9b,0x59,0x69,0xcd,0xf2,0xd9,0x2b,0x5b,0x7d,0x50,0x15,0xab,0xbe,0x55,
-0xb1,0xe2,0xac,0xe2,0x0b,0x13,0x6f,0xf9,0x67,0x59,0xfe,0x59,0x56,0x1f,0x97,0xe5,
-0xfb,0x3d,0x66,0xfb,0x37,0xb3,0xfa,0x91,0x66,0x56,0xbb,0x68,0x6e,0xd5,0xff,0xe6,
-0x56,0x1d,0xb6,0x7f,0x87,0xd8,0xcf,0x8c,0xcd,0x7d,0xf7,0x5e,0xfb,0x7e,0xdc,0xfc,
-0x18,0x79,0x6d,0x6e,0xd5,0xa5,0xe6,0x56,0xd9,0x36,0xf7,0xd5,0x37,0xbb,0x8e,0xa5,
-0x5b,0xe1,0x1b,0x1e,0xe3,0x77,0x8b,0xfd,0x5c,0x61,0xa7,0x33,0xcb,0x0a,0x9f,0xe5,
-0xf3,0x6f,0xec,0x7b,0xa6,0x8b,0xb3,0xf2,0x51,0xcd,0x57,0xaf,0x9a,0x5b,0xcf,0x4b,
-0xcd,0xad,0x67,0xcb,0xe6,0xbe,0xf8,0xed,0xb6,0x99,0xea,0xeb,0x8b,0xe2,0x7d,0x69,
-0xf6,0xee,0x37,0x8d,0xf4,0xee,0x24,0xd3,0xb2,0x57,0x92,0xdd,0x7b,0x86,0xf2,0x9e,
-0xe1,0xbd,0xdf,0x1f,0x76,0x3b,0xa8,0x6e,0xc5,0xe3,0x95,0x93,0x77,0x0f,0x6a,0x6a,
-0xf9,0x37,0xb2,0x9e,0x35,0x9a,0x6a,0x7f,0x23,0x2b,0xad,0x8d,0xac,0x7a,0xe0,0xd9,
-0x73,0xff,0x8e,0x8a,0x2f,0x2d,0xc6,0xcf,0x1f,0x9f,0xf1,0xf3,0xc7,0xe9,0xb5,0x75,
-0xb3,0xcf,0xb3,0x57,0xb2,0xe2,0x49,0xd4,0x7b,0x0e,0xcf,0xaf,0x9a,0x99,0x33,0x9d,
-0xe0,0x38,0xc1,0x04,0xf7,0x5b,0xbd,0xda,0xd6,0xba,0x0b,0xa7,0xe0,0x77,0x6a,0xc2,
-0xb1,0xd7,0x79,0x28,0xc9,0x09,0x4a,0x40,0x67,0xc7,0xc5,0x5b,0x23,0xe1,0x5a,0xb8,
-0xce,0xec,0xe7,0xb8,0x52,0x50,0x14,0x8a,0x41,0x7e,0x28,0x90,0x70,0xe4,0xdb,0xe4,
-0x82,0x50,0x08,0x0a,0x43,0x11,0xf3,0x0d,0x91,0x99,0x03,0x6e,0xad,0x05,0x91,0x97,
-0x7a,0xe7,0x33,0x78,0x69,0x8f,0x57,0xba,0x6b,0x59,0x6b,0x47,0x98,0xf4,0xe5,0x95,
-0xa6,0x58,0x33,0x86,0x6b,0xe6,0xae,0x6b,0x9d,0x87,0x38,0xc7,0xfd,0x06,0xbc,0x9e,
-0xbe,0x4b,0xbc,0xc4,0xac,0x0b,0x69,0xd6,0x86,0x85,0x0c,0xa5,0xa9,0x85,0x9e,0x09,
-0x5b,0x58,0xbf,0x8f,0xbd,0xdf,0xc6,0xde,0xef,0x62,0xef,0x59,0xd2,0xfb,0x6d,0xec,
-0x3d,0x4f,0x7a,0xbf,0x8f,0xbd,0x67,0x4a,0xef,0x37,0x72,0x86,0xf5,0x9b,0xf9,0x02,
-0xb9,0x8d,0x96,0x8f,0x3a,0x7a,0x6d,0x6c,0x7b,0x8d,0x6c,0xff,0x5a,0xd9,0xfe,0x35,
-0xb3,0xfd,0x6b,0x67,0xe7,0xa5,0x95,0x44,0x65,0x1f,0xe7,0x8a,0x2a,0x3e,0xaa,0xfa,
-0xa8,0xe6,0x23,0xce,0x47,0xbc,0x8f,0xea,0x22,0x41,0x24,0x8a,0x24,0x91,0xec,0x23,
-0xc5,0x47,0xaa,0x8f,0x34,0x1f,0x35,0x7c,0xd4,0xf4,0x91,0xee,0xa3,0x96,0x8f,0x06,
-0x3e,0x32,0x7d,0x34,0xf4,0xd1,0xc8,0x47,0x96,0x8f,0xc6,0x3e,0x9a,0xf8,0x68,0x2a,
-0x9a,0x1d,0xe3,0x37,0x78,0x73,0xab,0xdd,0xb6,0xcd,0xc3,0x7e,0x61,0x1e,0xf6,0x76,
-0x79,0xd8,0x3d,0x35,0x6d,0xa3,0x82,0xe3,0xb6,0x01,0xaf,0x8e,0x9b,0xb6,0x50,0xc9,
-0x6a,0xc3,0x5e,0xbb,0xa8,0xa6,0xb6,0x11,0xaf,0xb5,0x48,0x4e,0x74,0xed,0x14,0xaf,
-0x1f,0xa9,0xa3,0xf6,0x54,0x4f,0xed,0x32,0xe3,0x4f,0xfc,0xee,0xb9,0x93,0xda,0xb1,
-0xe9,0x53,0x2e,0x53,0x7f,0xd1,0xe5,0x4f,0xfc,0x1e,0xda,0xf4,0x39,0x23,0xd4,0xef,
-0x5c,0x0f,0x63,0x29,0xd8,0x9b,0xce,0x75,0xfb,0x59,0xaf,0xef,0x33,0x7d,0xd7,0x8f,
-0x9a,0x73,0x3e,0x45,0xf3,0x65,0x9f,0xd2,0xdc,0x58,0x33,0x27,0x7c,0x9b,0xe6,0x58,
-0x7f,0xae,0x39,0x92,0x87,0x13,0xfe,0x7e,0xf3,0xea,0x0f,0x68,0xae,0xa7,0x99,0x23,
-0xda,0xa5,0xd8,0x3f,0xeb,0xdb,0xc3,0xc7,0xc9,0xce,0x13,0xf0,0x9c,0xf5,0x77,0xd1,
-0x9e,0x46,0x9f,0x32,0xf3,0xd7,0xf0,0x08,0x9e,0xe3,0xae,0x89,0x72,0x57,0x79,0x77,
-0x4d,0x94,0x7b,0x60,0x32,0x7e,0xab,0x61,0x6d,0xd0,0x71,0xde,0x0d,0xba,0x7f,0xbf,
-0x65,0x12,0xda,0x16,0x9e,0x30,0x6b,0xa3,0x4f,0xe7,0x78,0xf4,0x49,0x68,0x0f,0x1d,
-0xcc,0xda,0xe5,0x67,0x51,0xb7,0xd1,0xcb,0x60,0x1a,0x5c,0x0e,0xdd,0xa0,0x0b,0x3c,
-0x14,0x74,0xd7,0xff,0x79,0xd8,0xac,0xf1,0x0e,0x37,0xc2,0xb3,0x66,0x3d,0x74,0xf3,
-0x37,0x43,0x20,0x72,0x73,0xc0,0xb9,0xf3,0x19,0xf2,0x82,0x3d,0x64,0xec,0x68,0x14,
-0x6a,0xfe,0x4e,0xcc,0x50,0xf3,0x37,0x49,0x82,0x6e,0x9d,0xbe,0x06,0xcd,0x87,0xff,
-0x75,0xe8,0xf5,0x30,0x12,0xa6,0xc2,0xd3,0x26,0x5e,0xd2,0xf4,0x0c,0x3a,0xce,0x84,
-0xa5,0x53,0x18,0x8f,0x4e,0x81,0xc7,0xe1,0x01,0x58,0xc2,0xf9,0x97,0xc2,0x32,0xc8,
-0x4f,0x1c,0x65,0x60,0x52,0xd1,0x80,0xf3,0x32,0x3c,0x24,0x7d,0x4a,0x9a,0x58,0x2c,
-0xe0,0x54,0x82,0x24,0x69,0x93,0x12,0x01,0xa7,0x5e,0x09,0x57,0x3b,0xc0,0x82,0x92,
-0x84,0x2b,0xe9,0xea,0x4c,0xe9,0x42,0x98,0x5f,0x2a,0xe0,0xcc,0x80,0x05,0xd2,0xd4,
-0xd3,0x03,0x4e,0x02,0x74,0x78,0x37,0xe0,0xf4,0x80,0x8b,0x7c,0xda,0xdf,0xb2,0x0f,
-0xb0,0xec,0xd9,0x96,0x7d,0xa0,0x65,0x1f,0x04,0x0b,0x64,0x7f,0x59,0xba,0xc0,0x8a,
-0xeb,0x65,0xcb,0xbe,0xc0,0x8a,0xf7,0x65,0xcb,0xfe,0x4f,0x5b,0xd3,0xe1,0xaf,0x90,
-0x9f,0x7f,0x52,0x5e,0xfe,0xe8,0x6b,0xe3,0xe5,0xa5,0x89,0x95,0x76,0x7f,0x9a,0x4f,
-0x36,0xbd,0x3d,0x8f,0x93,0xce,0x7f,0x7b,0x99,0x67,0x1e,0x23,0x2f,0xc7,0xcb,0xc3,
-0x7f,0x4a,0xff,0xff,0x3a,0xed,0xc7,0xba,0x06,0xad,0xfe,0x62,0x69,0x0e,0xf7,0xa7,
-0xe1,0xfc,0x84,0xf3,0x13,0xce,0xcf,0x3f,0x2d,0x3f,0x89,0x3c,0x2f,0xd7,0x08,0xba,
-0xeb,0xf0,0xde,0xad,0xb5,0x31,0xef,0xd5,0x7a,0xb9,0xf7,0x69,0x7d,0xdc,0x07,0xb4,
-0x66,0xed,0x83,0xf0,0x10,0x3c,0x0c,0x8f,0xc0,0xa3,0x5a,0xe7,0x75,0xb2,0xd6,0x91,
-0x7d,0x40,0x7f,0xfb,0xee,0x49,0xad,0x2f,0xfb,0x34,0x3c,0x63,0xd6,0x18,0xd4,0xba,
-0xaf,0xd1,0x15,0xdc,0xb5,0x81,0xed,0xbf,0xe5,0x64,0xd6,0xe2,0x7e,0x49,0x6b,0xf6,
-0xce,0xd7,0xfa,0xb9,0xe6,0x6f,0xea,0xbd,0xa2,0xbf,0xe7,0xbc,0x10,0x16,0x69,0x0d,
-0xee,0x25,0xd6,0xdf,0xda,0x7b,0x0d,0x5e,0xd7,0x5a,0xb7,0xde,0xdf,0x7a,0x5a,0xa9,
-0xb5,0x68,0x83,0x15,0xdc,0x78,0xe7,0x2b,0xae,0xe5,0x3a,0x6e,0x49,0x44,0x38,0x9f,
-0xe1,0x7c,0x86,0xf3,0xf9,0x57,0xce,0x67,0x0e,0x7c,0x1c,0x71,0xe2,0xef,0xf9,0xfe,
-0xf2,0xe1,0x22,0x09,0x07,0x49,0x91,0xee,0xdf,0xee,0x4c,0x89,0x74,0xff,0xa6,0xa6,
-0xf9,0xbb,0x99,0xe6,0x6f,0x65,0x9a,0xbf,0x87,0x69,0xfe,0x86,0x67,0x6d,0xa8,0x13,
-0xe9,0xfe,0x3d,0xcc,0xfa,0x90,0x01,0x0d,0x20,0x33,0xd2,0xfd,0x9b,0x96,0x8d,0x20,
-0x0b,0x1a,0x47,0xba,0x7f,0xd3,0xb2,0x69,0xa4,0xfb,0xb7,0x2c,0xcd,0xdf,0xc7,0x3c,
-0x1f,0x6e,0x79,0xda,0xfd,0xdb,0x9c,0xe6,0xef,0x82,0x5e,0x14,0xe9,0xfe,0x1d,0xcd,
-0x19,0xf0,0x4e,0xe4,0xc9,0xa5,0xc1,0x3b,0x7f,0x83,0xff,0x70,0xde,0xe6,0x3a,0xf7,
-0x5d,0x3a,0x5f,0x3b,0xe8,0x0c,0xd3,0xa1,0x0d,0xe9,0x98,0x15,0x79,0xe4,0xbd,0x7e,
-0x35,0xbd,0x73,0x6f,0xaa,0x77,0xec,0x71,0xd6,0x1c,0x8f,0x86,0xbe,0x39,0x32,0xc9,
-0x7a,0x2f,0xde,0x40,0xef,0xd7,0x33,0xad,0xb9,0x13,0xde,0xfb,0xff,0x78,0xbd,0xbb,
-0x4f,0xd3,0x3b,0x75,0xf3,0xde,0xbc,0xbf,0xe6,0x35,0x4f,0x81,0x01,0xd6,0x79,0x9b,
-0xf8,0xc6,0xea,0x8e,0x77,0x2e,0xff,0x79,0xd2,0xac,0x39,0x55,0xf6,0x38,0xa8,0x7d,
-0xbc,0x7d,0xac,0x7d,0xcc,0xcb,0x79,0xa4,0xa5,0x86,0x6f,0xec,0xf0,0x64,0xd2,0x62,
-0xe7,0x77,0x4a,0xd4,0xff,0x2f,0xe3,0x26,0x79,0x94,0xf3,0x1f,0x51,0xc6,0xc7,0xbb,
-0x96,0x7f,0xc4,0x39,0xbc,0xf5,0x5c,0x13,0xf4,0xde,0x3f,0x51,0x9a,0x24,0x4d,0x96,
-0xa6,0x48,0x53,0xa5,0x69,0xd2,0x1a,0xd2,0x9a,0xd2,0x74,0x69,0x65,0x3d,0xb7,0x79,
-0xeb,0x2a,0x65,0x5a,0xf6,0x86,0x96,0xbd,0x91,0x65,0xcf,0xb2,0xec,0x8d,0x2d,0x7b,
-0x13,0xcb,0xde,0xd4,0xb2,0x37,0xb3,0xec,0xcd,0x2d,0x7b,0x0b,0xcb,0x7e,0x9e,0x65,
-0x6f,0x69,0xd9,0xcf,0xb7,0xec,0xad,0x2c,0x7b,0x6b,0xcb,0xde,0xc6,0xb2,0x5f,0x60,
-0xd9,0xdb,0x5a,0xf6,0x0b,0x2d,0x7b,0x3b,0xcb,0xde,0xde,0xb2,0x77,0xb0,0xec,0x17,
-0x59,0xf6,0x8e,0x96,0xfd,0x62,0xd9,0xcd,0x58,0xa5,0x89,0xdf,0x8c,0x57,0x36,0xd4,
-0x79,0xbd,0xe7,0xde,0x0e,0x0a,0xf7,0x67,0x3d,0x0f,0x37,0xf5,0x7d,0xd7,0xdd,0x56,
-0xe7,0x6b,0x2b,0xbc,0xef,0x98,0xbd,0x63,0x1b,0x2a,0xac,0xa7,0xde,0x1a,0xe5,0x17,
-0xc8,0x6e,0xd2,0x64,0xd6,0x6c,0x6c,0xa1,0xb1,0x0a,0x6f,0xbc,0xc2,0xac,0x7b,0xda,
-0xa1,0x93,0xe3,0xbc,0xd5,0xf6,0xc8,0x9a,0x28,0x66,0x4d,0xa8,0x33,0x48,0xc8,0xb6,
-0x5b,0xdc,0x35,0xf1,0x9e,0xc4,0x5d,0x8e,0x87,0xf1,0xf2,0x03,0xdd,0x6f,0x0e,0x5b,
-0x12,0xe9,0xed,0x9d,0x1d,0xe7,0x0e,0x32,0x33,0x13,0xf7,0x59,0xe6,0x1b,0xcc,0xeb,
-0xdc,0x35,0x4b,0xa7,0xdd,0xee,0x38,0xfb,0xc8,0x48,0x3a,0x99,0x2b,0xc9,0xc3,0xf9,
-0x44,0xe2,0x6f,0xd7,0xdd,0x2d,0x04,0xb3,0xce,0x54,0xf3,0x09,0xee,0xda,0x4e,0x66,
-0x9d,0x27,0xb3,0xbe,0x53,0x74,0x77,0x77,0x2d,0xd0,0xb6,0x84,0x1b,0xc5,0x43,0xfa,
-0x35,0x3c,0xa4,0xe7,0xe3,0xd8,0x91,0xfd,0xdd,0x75,0xa5,0x72,0xd7,0x56,0x22,0xde,
-0x41,0x9c,0xe3,0x25,0x0a,0xab,0xe5,0x5d,0xee,0x75,0xaa,0xd6,0xcb,0xbd,0x4e,0xc6,
-0x6e,0xe2,0xf5,0xec,0xb7,0x5b,0xf6,0x5b,0x3a,0x1d,0xb1,0x9b,0x75,0x1e,0x3c,0xbb,
-0x39,0x97,0x67,0xdf,0x30,0xf4,0x88,0xfd,0xe3,0x0b,0x8e,0xd8,0x3b,0xf4,0x70,0xed,
-0xf7,0x93,0xcf,0xbd,0x6d,0x4f,0xfc,0xfe,0x57,0x97,0xf3,0xd7,0x34,0xeb,0x66,0x41,
-0x85,0x40,0xd0,0xe9,0xd2,0xca,0xfd,0x1e,0xf0,0x15,0x08,0x72,0xc1,0xae,0x81,0x49,
-0xad,0xdd,0xef,0x03,0xdf,0x81,0x47,0x53,0x4c,0x5f,0x10,0xcc,0xfd,0x56,0xf0,0x42,
-0xb8,0x1c,0x86,0x99,0x6f,0x6f,0x43,0x41,0x67,0x01,0xfb,0x7a,0xb5,0x71,0xcb,0xb9,
-0x05,0xee,0xfb,0xd1,0x27,0xcd,0xb7,0xb9,0xc4,0xfd,0x5c,0x1b,0xf7,0x5b,0xbb,0xcd,
-0x77,0x05,0x73,0xd7,0xdd,0x8d,0x20,0xed,0x9b,0x09,0x5f,0x1b,0x6d,0x7c,0x81,0x5b,
-0x5e,0xc3,0x4c,0x7e,0x52,0xdd,0xef,0xef,0xbc,0xef,0x10,0xcd,0x77,0x78,0x21,0xf2,
-0x13,0xd5,0xd6,0xfd,0x56,0xb7,0x59,0x5b,0xf7,0xdb,0xc4,0x8b,0x61,0x30,0x5c,0x07,
-0x37,0x58,0x54,0xcb,0x1f,0x74,0xb2,0x29,0xbb,0x55,0xd8,0x37,0x43,0xf7,0x02,0x41,
-0x67,0x37,0xba,0xdf,0xc4,0xc1,0x75,0x7a,0x14,0x6a,0x42,0x53,0xb8,0xc2,0xac,0xdf,
-0x04,0xdf,0x41,0x51,0xae,0x55,0x5b,0xe8,0x0e,0x37,0x0a,0xf3,0xdd,0xdf,0x74,0x98,
-0x03,0xcb,0xe0,0x94,0x0e,0xee,0xf7,0x90,0xa7,0xa2,0x6d,0xd0,0x21,0xed,0xdd,0x6f,
-0x39,0xbf,0xa2,0xfe,0xbc,0x8d,0xdf,0x37,0x50,0x08,0xfb,0x6d,0x68,0x12,0x9a,0x08,
-0xcf,0xc1,0xf6,0x92,0x41,0xe7,0x6b,0xf4,0x7b,0x88,0xea,0xe8,0xd6,0xd5,0x0a,0xe6,
-0xfb,0x41,0x98,0x7a,0x4a,0xd0,0xd9,0x05,0x5f,0x62,0x2f,0x4d,0x43,0xaa,0x04,0x1b,
-0xb1,0xf7,0x44,0xbf,0xe2,0x62,0x1d,0x86,0x7c,0xd4,0x8b,0x7a,0x62,0xe5,0xe9,0x41,
-0xe7,0x35,0x74,0x63,0x27,0xf7,0xfb,0xdc,0x03,0x70,0x5a,0xe9,0xa0,0xf3,0x0b,0x1a,
-0x75,0x09,0x79,0xe8,0xec,0xae,0x37,0x3c,0x8a,0x8b,0xdc,0x45,0xdf,0x6a,0x2e,0x81,
-0x3b,0x60,0xfb,0x59,0x41,0xa7,0x21,0x75,0x79,0x07,0xda,0x1f,0xed,0x03,0x23,0xe0,
-0x53,0xd8,0x0a,0xd5,0xa9,0x14,0x3f,0xa1,0x95,0x2f,0xa3,0x5e,0x98,0xef,0x19,0xa1,
-0x1b,0x7e,0x63,0xca,0x07,0x9d,0x11,0xe8,0x4c,0xdc,0x73,0xe0,0xa5,0xcb,0xdc,0x6f,
-0xc4,0xef,0x7e,0x22,0x98,0xbb,0x56,0x71,0x62,0x6c,0x30,0x97,0xc0,0x68,0xce,0xdd,
-0xd9,0x65,0x05,0xe1,0xe7,0x27,0x05,0x9d,0x8f,0xba,0x06,0x9d,0x6e,0xb8,0xfb,0xc0,
-0x36,0xfc,0x1e,0x44,0xd7,0xc0,0x06,0x38,0x08,0xa3,0xba,0x50,0x9f,0xa8,0x88,0x67,
-0xa6,0xbb,0xdf,0x94,0xbe,0x57,0x31,0xe8,0xac,0x40,0x9b,0xf2,0x03,0xfb,0xbc,0xae,
-0xee,0x77,0x94,0x46,0xaf,0xd1,0xb7,0x94,0xb3,0xe1,0x49,0x98,0x01,0x9f,0xe8,0xbb,
-0x4a,0xf3,0x6d,0xbc,0x59,0xaf,0xa4,0x34,0x5c,0x0a,0xb3,0xe0,0x3d,0x68,0x4d,0x5b,
-0x2d,0x58,0x35,0xe8,0xd4,0x45,0x0f,0xe3,0xbe,0x02,0x1d,0x03,0xdb,0x61,0x3f,0xfe,
-0x15,0xf8,0xe1,0xfe,0x06,0xf6,0x69,0x10,0x5f,0x8b,0xfc,0xe2,0xbe,0x1e,0x1e,0x81,
-0x61,0xd0,0xb7,0x96,0xfb,0x5d,0x6b,0xdf,0x1e,0x66,0x6e,0x4a,0xd0,0xd9,0x86,0xfe,
-0x40,0xbf,0xd2,0x0c,0x4e,0xaf,0xed,0x7e,0xeb,0x9a,0x0f,0xdd,0x4e,0xb8,0xbb,0xa9,
-0xd3,0x13,0xdb,0xb8,0x2f,0x00,0x1e,0xc6,0xff,0xf9,0x91,0x3c,0xef,0x35,0x3c,0xf2,
-0x6d,0x67,0x79,0xb8,0x0c,0xda,0xc2,0x6b,0xc9,0x41,0xa7,0x19,0xc7,0x1d,0xc2,0x3e,
-0x16,0x2e,0xb8,0xc2,0xfd,0x66,0xb6,0x5f,0x4a,0xd0,0xb9,0x13,0x2d,0x0b,0x25,0x7b,
-0x3b,0xb9,0xdf,0x45,0x66,0xa2,0x4f,0xc0,0x2e,0x98,0x7a,0x25,0xf6,0xb4,0xa0,0xb3,
-0x09,0x3d,0xad,0x0e,0x71,0xf6,0xe1,0xf7,0x41,0xcd,0xa0,0x73,0x21,0x7a,0x3e,0xee,
-0x41,0x66,0x5d,0x6c,0x7d,0x3f,0xfa,0x0a,0xdc,0x51,0x2b,0xe8,0x14,0xe0,0x5a,0x1f,
-0x42,0xcf,0xef,0xcb,0xef,0x81,0x3a,0x41,0x67,0x31,0xba,0x06,0x7a,0xc1,0x29,0xfd,
-0xa8,0x53,0xfd,0xdc,0x6f,0x75,0xcd,0xf7,0xa6,0xbd,0x61,0x38,0x8c,0x85,0x32,0x75,
-0x83,0x4e,0x0a,0x5a,0x9d,0x7e,0xad,0x3f,0x24,0xd7,0x75,0xbf,0x45,0x5d,0x01,0xef,
-0xd6,0x0b,0x3a,0x07,0xd9,0xd7,0x9f,0xfe,0xf2,0xb2,0xfa,0xa4,0x19,0x96,0x63,0x4f,
-0xcf,0x76,0xbf,0x53,0x2d,0x0d,0xf7,0x11,0xbe,0x39,0x7a,0x1d,0x0c,0x83,0xe7,0xe1,
-0x1c,0xfa,0x84,0x2c,0xfa,0xe4,0xee,0x99,0x41,0xe7,0x61,0x74,0x7a,0xc3,0xa0,0x53,
-0x79,0x90,0xfb,0x3d,0x6b,0x6b,0xc8,0xd7,0x38,0xe8,0x8c,0x44,0x27,0x1a,0xbf,0x26,
-0x41,0xa7,0x64,0xd3,0xa0,0x73,0xcd,0x60,0xda,0x13,0x3c,0x57,0x8f,0xdf,0x44,0xe8,
-0xfc,0x7a,0x2e,0x4d,0x86,0x38,0xce,0x25,0x43,0xdc,0xef,0x5f,0xc7,0x9a,0xef,0xdf,
-0xa1,0x74,0x7d,0xc7,0x39,0x9b,0xbe,0x37,0xed,0xbc,0xa0,0x53,0xcf,0xac,0x41,0x8d,
-0x9a,0x6f,0xfc,0x1f,0xa3,0xfe,0x16,0xa5,0xdf,0x9c,0xd2,0x2a,0xe8,0xcc,0x87,0x46,
-0xad,0x83,0xce,0x61,0xc2,0xe6,0xcb,0x70,0xbf,0x91,0x3d,0x80,0xfb,0x6b,0x38,0xbd,
-0x4d,0xd0,0x49,0x86,0x32,0xc3,0xb8,0x06,0xc2,0x7c,0x3f,0x6b,0xbe,0x4b,0xbd,0x0d,
-0x6d,0x8c,0xde,0x97,0x61,0xbe,0x05,0xa7,0x3c,0x87,0xbb,0x6b,0x1b,0x98,0xef,0x6a,
-0xb7,0xe1,0x57,0xb1,0x7d,0x30,0xf7,0x3b,0xe6,0x07,0xd1,0x37,0xc0,0x7c,0x8b,0xbd,
-0x1b,0xaa,0x37,0x70,0xbf,0x67,0x6e,0x0e,0xad,0x60,0x44,0xc7,0xa0,0xf3,0xcc,0xc5,
-0x2e,0x5f,0xe1,0x0e,0x72,0x73,0x9e,0xde,0x89,0xf2,0xbb,0x96,0x3e,0x0f,0x2a,0xe1,
-0x1e,0x79,0x49,0xd0,0x59,0x37,0x82,0xdf,0x85,0xd8,0x77,0xa2,0xdb,0x34,0x49,0xe0,
-0xa6,0xce,0x41,0xa7,0x3b,0x1a,0xa0,0x5e,0xad,0x40,0x83,0xd7,0x73,0x3f,0x87,0x14,
-0xdc,0x95,0xbb,0x05,0x9d,0x26,0xd0,0x11,0xfb,0x87,0xe8,0x35,0x37,0x70,0x6d,0xbb,
-0x07,0x9d,0x89,0xe8,0x21,0x7d,0xe3,0xfb,0xd1,0xe5,0x41,0x27,0xb6,0x07,0x7d,0x3c,
-0xf6,0xa9,0x68,0x36,0xda,0x99,0xba,0xf8,0x3e,0xc7,0xcc,0xc6,0x1e,0x31,0xca,0x71,
-0x0a,0x70,0xf3,0xad,0x87,0xce,0xa5,0xff,0x79,0xa6,0x57,0xd0,0x99,0x0b,0xf7,0x10,
-0xe6,0xe1,0x64,0xb7,0x7d,0x47,0xc2,0xa3,0xe3,0x69,0xcf,0x84,0xbb,0x0b,0xfb,0x6d,
-0xf0,0x08,0xcc,0xa1,0x1f,0x9c,0x65,0x14,0x16,0xc2,0x0e,0xa8,0xd3,0x27,0x98,0xbb,
-0x36,0xc2,0x59,0x63,0xb8,0xe6,0xf0,0x3c,0xc4,0xc2,0x42,0xf8,0x7c,0x8c,0xfb,0xed,
-0x76,0x5b,0x74,0x15,0xbc,0x05,0x39,0x90,0xd6,0x37,0xe8,0xf4,0xe9,0x47,0x9a,0xd0,
-0xaa,0x3c,0xac,0xec,0x27,0xcc,0x01,0x38,0x65,0x2c,0xe1,0x06,0x07,0x9d,0xcb,0xd1,
-0x6a,0x03,0x82,0xce,0xa5,0xec,0xeb,0x0a,0xb3,0xb0,0xaf,0xcb,0xe6,0x18,0xec,0xad,
-0xb5,0x06,0x45,0x2f,0xe8,0x0d,0xd3,0x60,0x1c,0x14,0xbe,0x99,0xfe,0xed,0x26,0xf7,
-0xdb,0xe6,0xca,0xd0,0x07,0x6e,0x82,0x0d,0x1c,0xf3,0x29,0x1a,0x18,0x47,0x5f,0x84,
-0xbd,0x8b,0xd6,0x04,0xef,0x35,0x34,0xe8,0x6c,0x40,0x3f,0x81,0x54,0x1e,0x96,0x0e,
-0xa1,0xaf,0x70,0xaf,0x7a,0x61,0x78,0xd0,0xe9,0x79,0x75,0xd0,0x59,0x84,0xdf,0x0a,
-0x98,0xac,0x6f,0xa1,0xcd,0x77,0xd0,0x66,0xbd,0xf0,0xa9,0x23,0x82,0xce,0x74,0x74,
-0x29,0x94,0xe6,0x19,0x61,0x18,0x54,0xbf,0x21,0xe8,0x44,0xe6,0x0b,0x3a,0xab,0xb1,
-0xbf,0x0a,0xfb,0xe0,0x13,0xdc,0xef,0xdd,0xe9,0x7e,0x37,0xbd,0x6e,0x6c,0xd0,0xd9,
-0x03,0xf7,0xf2,0x9c,0xb1,0x1f,0x8a,0xf1,0xbc,0x10,0x7f,0x73,0xd0,0x29,0x8d,0xd6,
-0xbc,0x9b,0x34,0xc2,0x46,0xf3,0x4d,0x35,0x1c,0xbc,0x87,0xfb,0xe3,0xbd,0xa4,0xe7,
-0xb6,0xa0,0x73,0xdb,0x44,0xda,0x09,0x0f,0x6f,0xf3,0x26,0x9a,0xf3,0x04,0x9d,0x1d,
-0xd8,0x5f,0xbb,0x8f,0xeb,0x48,0xff,0x1d,0x7b,0x3f,0xf5,0x82,0xfb,0xec,0x19,0x77,
-0xd3,0xcf,0xf3,0x20,0x35,0x14,0xb6,0xe0,0x97,0xff,0xde,0xa0,0x33,0x1b,0xfb,0x7d,
-0xa8,0xf9,0x1e,0xdb,0x70,0x2e,0xbc,0x34,0x31,0xe8,0x6c,0x45,0x93,0x79,0x08,0x3c,
-0x77,0x12,0xd7,0x1d,0x96,0xc1,0xcf,0xf0,0x36,0x7e,0x09,0x0f,0x05,0x73,0xbf,0xdb,
-0xce,0x78,0x98,0xfb,0x03,0xbc,0xcd,0x83,0xe2,0x1e,0xe8,0xf5,0x08,0xf6,0xc9,0x41,
-0xe7,0x07,0xec,0xa1,0x29,0x41,0xa7,0xf0,0xe3,0x41,0xe7,0x2e,0x30,0x6b,0x8f,0xb7,
-0x6f,0xe9,0xae,0x39,0xfe,0x33,0x84,0x1e,0x73,0x9c,0x22,0x70,0x8a,0xd6,0x1c,0xcf,
-0x9d,0x30,0x40,0xb1,0x07,0x23,0x22,0x43,0x51,0xd1,0xf9,0x62,0xf2,0x17,0x28,0x58,
-0xa8,0x30,0x41,0x72,0x97,0xda,0x2d,0x5e,0xa2,0x64,0xa9,0x53,0xe8,0x37,0x9d,0x23,
-0xdb,0x69,0xa7,0x73,0xcf,0x74,0xfe,0x17,0x5b,0x69,0xe7,0xcc,0xb3,0xca,0x94,0xfd,
-0x83,0x23,0x75,0xff,0xaa,0x55,0x85,0xd8,0xb3,0x5d,0xe7,0x39,0x74,0x1e,0x95,0x2a,
-0x9f,0x5b,0xa5,0x6a,0xb5,0xb8,0xf8,0xea,0x09,0x89,0x49,0xc9,0x4e,0x4a,0x6a,0xee,
-0x63,0xda,0x1f,0xb4,0xd5,0xf0,0x1e,0xf5,0xfe,0xb0,0xad,0xd6,0xb1,0x3c,0x6b,0xd7,
-0x39,0xca,0x59,0xb7,0x66,0x3d,0x77,0x3e,0x57,0x03,0x27,0xbc,0x85,0xb7,0xf0,0x16,
-0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,
-0x78,0x0b,0x6f,0xff,0xd2,0x6d,0xc7,0xb1,0xb6,0x9d,0x39,0x6c,0x3b,0x37,0x9a,0xff,
-0x73,0x56,0xad,0x3a,0xf2,0xbf,0xb6,0x80,0xd9,0x8c,0xc5,0x0b,0xbf,0x6f,0x87,0xeb,
-0xc8,0xc9,0x71,0x72,0xff,0xc7,0x41,0x14,0x3b,0xbe,0xd8,0xb5,0xcb,0xfc,0x3b,0x2a,
-0xea,0x70,0x89,0x1f,0xfb,0x12,0x84,0x8b,0x41,0x5b,0x6e,0xa5,0x32,0xff,0x7d,0xa2,
-0xea,0xe5,0xd6,0xb9,0x5c,0xbf,0x4f,0xb6,0xef,0xc8,0x7d,0x47,0x59,0xc4,0xbc,0x9e,
-0xcc,0x7d,0x3f,0x79,0xaa,0x79,0x29,0xb9,0x23,0xc7,0x29,0xfe,0x47,0xb7,0x87,0x32,
-0x65,0xcb,0x9d,0xec,0xa1,0xa5,0xcd,0x3b,0xca,0x72,0xe5,0x2b,0x98,0x24,0xef,0x50,
-0x2e,0x72,0xfc,0x81,0x62,0xff,0xcc,0x56,0xed,0x5a,0x72,0x72,0xd5,0x39,0x56,0x6a,
-0x8e,0xb1,0x9d,0x7d,0x9c,0x98,0xdd,0x2b,0x61,0xae,0x88,0xf9,0x97,0x1b,0xbd,0x6b,
-0x76,0xfc,0x4d,0xba,0xba,0x9c,0x23,0x09,0xcd,0xf9,0x4f,0x41,0x8f,0x74,0x8d,0xce,
-0xaf,0xae,0x93,0xa9,0xc7,0x39,0x39,0xbf,0x2b,0xb1,0xea,0x5e,0x4f,0x32,0x7b,0x39,
-0x76,0xb7,0xac,0xd4,0xeb,0x8a,0xb9,0x7b,0xa9,0xa4,0xaa,0x99,0x39,0xbf,0xbb,0xdf,
-0x89,0xf6,0x7b,0xc4,0xa8,0x82,0xfc,0x49,0x17,0xf4,0x98,0xe7,0x3f,0xb9,0x52,0xfe,
-0x1f,0x9f,0xdf,0x09,0x9f,0xff,0x8f,0xdc,0xfe,0x2a,0xf9,0xbf,0xb0,0xd3,0xbf,0xa1,
-0xfc,0x63,0x62,0xfe,0x52,0xd7,0xff,0xcf,0x3d,0x79,0xaf,0x5e,0x47,0x9f,0xaf,0x0f,
-0xdb,0x9f,0x79,0xfe,0xa1,0x43,0x8f,0x3e,0xff,0x35,0xd7,0x98,0x19,0x70,0x7f,0xe0,
-0x63,0xd8,0x7f,0xba,0x7b,0xe5,0x60,0x36,0xfe,0xc6,0x88,0x47,0x8d,0x76,0x6e,0xcc,
-0xb5,0x8c,0x66,0xe3,0x7f,0xee,0x5b,0x31,0xce,0xef,0xbd,0x65,0xe4,0xfc,0xd9,0x95,
-0x2d,0xfa,0x18,0xb5,0xff,0x0f,0x28,0xf4,0x7f,0xde,0x2f,0x9b,0xbf,0x63,0xb2,0x8f,
-0x77,0x69,0x63,0xfe,0xda,0xa9,0xff,0xa3,0x1e,0x6f,0xfe,0x5a,0xdb,0xf6,0xbf,0x58,
-0x7a,0x3e,0xd9,0xf1,0x4f,0x6b,0xad,0x47,0xff,0xfc,0xf8,0x6f,0xde,0x95,0x8f,0xbc,
-0x0c,0x3a,0xe9,0xd3,0x1c,0xfd,0x4a,0xc0,0xc9,0xc9,0xb1,0x7f,0x6d,0xff,0x49,0xdd,
-0x4d,0xf4,0x6f,0xeb,0x0f,0x76,0xe4,0xfc,0xae,0x77,0x60,0xbf,0xe7,0x86,0x13,0xfd,
-0x07,0xc5,0x93,0xf7,0xa3,0xe7,0x5f,0xe9,0x96,0x13,0xf0,0xaa,0x87,0xf9,0xdf,0x09,
-0xb8,0x9b,0x75,0x7f,0xdd,0x91,0x1b,0xee,0x9f,0x72,0x8b,0xcd,0xf9,0xf5,0xbd,0xc6,
-0x8e,0x5d,0x1f,0xe4,0xac,0xda,0x71,0x22,0xdb,0xce,0xed,0xdb,0x73,0x3e,0xda,0xf1,
-0x45,0xce,0x3f,0xaf,0x0f,0xdb,0xb1,0x23,0x10,0x30,0x39,0x0c,0x18,0xf1,0x2e,0x36,
-0xf6,0x9c,0x1d,0x7a,0x65,0xed,0xfc,0xab,0xb7,0xbf,0xda,0x13,0x59,0xcc,0x9f,0x90,
-0xe1,0xff,0xb8,0x9d,0x78,0x4c,0x1f,0x6d,0xdf,0xf9,0xc9,0x96,0x2d,0x7f,0x5a,0xc9,
-0xe4,0xcb,0xf7,0x8f,0xac,0x7f,0x47,0x5f,0x93,0xe3,0x5f,0xbd,0x3f,0xbe,0x3e,0xfc,
-0xf6,0x6a,0xf8,0x57,0x7d,0xee,0x8f,0x39,0xa9,0xfa,0xff,0x3b,0x5e,0x09,0xe4,0xfc,
-0x25,0x8a,0x29,0xfa,0xef,0xf3,0x5b,0xec,0xbf,0xd1,0x80,0x72,0x87,0x71,0x74,0x19,
-0xcd,0xb8,0xc4,0x5f,0xb2,0xdb,0xfd,0xfb,0x35,0x94,0x63,0x6e,0x67,0x38,0xff,0xf6,
-0x6d,0x87,0x3d,0x08,0x9b,0x13,0x1e,0xa7,0xfe,0x47,0x6d,0x39,0xe1,0x2c,0xfe,0x0f,
-0x5b,0xd5,0x5f,0xb1,0xb0,0x4e,0x38,0x51,0x3b,0x02,0x39,0x7f,0x9f,0x1b,0xc9,0xef,
-0xfc,0x99,0x1b,0x9e,0x9f,0xf3,0x17,0x69,0x34,0x7f,0x78,0x7d,0xcf,0xc9,0xf9,0xa3,
-0x22,0x72,0x27,0xc2,0xfc,0x96,0x08,0x77,0xfc,0x03,0xde,0xc2,0xc4,0xfc,0xd6,0x90,
-0xbf,0xbd,0xff,0x88,0x89,0xfe,0x83,0x2a,0xd5,0x49,0xd7,0xaa,0xdf,0xfb,0x02,0x35,
-0xfa,0xbf,0x53,0xf2,0x7f,0xe2,0x2b,0xd9,0x98,0xe8,0xbf,0x5f,0x15,0x8d,0xfe,0xc3,
-0x6f,0x55,0xd1,0x27,0x3e,0xff,0xe2,0xc8,0x4f,0xef,0x7f,0xde,0x64,0xcf,0x98,0xff,
-0x50,0xf7,0x76,0x84,0x2b,0xe3,0x3f,0x3b,0xf3,0x31,0xff,0xa2,0x6c,0xc7,0x38,0xe1,
-0x2d,0xdc,0xec,0xfe,0xff,0x93,0xc0,0x5f,0xba,0x20,0x62,0xfe,0x9c,0x38,0x63,0xfe,
-0xa5,0xad,0x2d,0xdc,0x27,0xfc,0x77,0xa6,0xc2,0xc5,0xfc,0xcd,0xfa,0x80,0xf0,0xf6,
-0x37,0xd9,0x7e,0x9d,0x0b,0xf2,0xdb,0x7f,0x2f,0x86,0x5f,0x07,0xfd,0x8d,0xb7,0xa8,
-0xa8,0xbf,0x55,0x6d,0xfd,0x67,0x14,0xfa,0xc6,0x8d,0x6e,0xa3,0xdb,0xba,0xd1,0x6c,
-0x9e,0xaf,0xf7,0x39,0xe9,0xaf,0x93,0xfa,0x8e,0xdf,0xf2,0xfe,0x8a,0x99,0xfb,0x7b,
-0xf7,0x06,0xd6,0x27,0x6e,0xfe,0x69,0x02,0x47,0x76,0xfd,0x79,0x6f,0x2d,0xc2,0x1d,
-0xeb,0x7f,0xb1,0x78,0xfe,0xed,0x37,0xae,0x9d,0x3b,0xff,0xf9,0xd3,0xff,0x7e,0xed,
-0x53,0xff,0xf4,0x3e,0x24,0xfc,0x3e,0xe0,0xef,0xf9,0x40,0x9c,0xbb,0xfa,0x67,0x28,
-0x14,0x1d,0xca,0x17,0x93,0x3f,0x14,0x2a,0x10,0xfa,0x75,0x2b,0x18,0x0a,0x15,0x2a,
-0x1c,0x2a,0x52,0x34,0x64,0x6f,0xc5,0x42,0xff,0xec,0xad,0x78,0x89,0x50,0xc9,0x52,
-0xa7,0x60,0x39,0x35,0x14,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,
-0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0x7f,0xc8,0x16,
-0x70,0xfe,0x57,0x26,0xc2,0x09,0x39,0xd1,0xb9,0xa6,0x92,0x13,0xe7,0xd4,0x70,0x1a,
-0x3a,0x3d,0x9c,0x5e,0xce,0x55,0xce,0x18,0x67,0x8a,0xf3,0x84,0xf3,0xbc,0xb3,0xc0,
-0x59,0xec,0xbc,0xeb,0xec,0x77,0xbe,0xc5,0x84,0x02,0x25,0x02,0xe5,0x03,0x4d,0x02,
-0x2d,0x02,0x1d,0x02,0x9d,0x02,0xfd,0x02,0x57,0x1f,0x65,0x26,0x05,0x1e,0x0b,0x4c,
-0x0b,0xcc,0x0d,0x6c,0x08,0x7c,0x18,0xf8,0x3c,0xf0,0x7d,0xa0,0x44,0xf0,0xd4,0x60,
-0xf9,0x60,0x5c,0x30,0x39,0x98,0x15,0xec,0x11,0xec,0x8d,0xb9,0x3a,0x78,0x73,0xf0,
-0xfe,0xe0,0xc2,0xe0,0xd2,0xe0,0x3b,0xc1,0xf5,0xc1,0xcf,0x83,0x07,0xfe,0x8b,0xe6,
-0xe0,0x6f,0x30,0x81,0x88,0x40,0x44,0x44,0x44,0x28,0x22,0x26,0xa2,0x40,0xae,0x29,
-0xf1,0xab,0x29,0xf5,0xab,0x39,0x2b,0x22,0x36,0xe2,0x1c,0x4c,0x25,0x99,0xea,0x96,
-0xa9,0x81,0x49,0x8f,0xa8,0x1d,0x51,0x3f,0xa2,0x41,0xae,0x69,0xf6,0xab,0x69,0xf1,
-0xab,0x69,0x1b,0xd1,0x31,0xa2,0x13,0xe6,0x52,0x99,0x1e,0x47,0x99,0x7e,0x11,0x57,
-0xfd,0x47,0x73,0x75,0xc4,0x75,0x7f,0xba,0x19,0x15,0x31,0x36,0x4f,0x73,0x73,0xc4,
-0x2d,0xbf,0x9a,0xdb,0x22,0xee,0x38,0xca,0x8c,0x8f,0xb8,0x2b,0xe2,0x9e,0x88,0x89,
-0x27,0x68,0xee,0xff,0xdd,0x66,0x4a,0xc4,0xf4,0xff,0x60,0xe6,0x46,0x2c,0x3e,0xca,
-0x2c,0xfd,0x53,0xcc,0x6b,0x11,0x6f,0xfc,0x8f,0xcc,0x8a,0x88,0x37,0x23,0x56,0x47,
-0xac,0xf9,0xd5,0xbc,0x13,0xf1,0xee,0x3f,0xc2,0xac,0x0f,0x9b,0x7f,0xb5,0xf9,0x54,
-0xe6,0x0b,0xcc,0x01,0x4c,0x20,0xf2,0x88,0x89,0xc1,0x14,0x90,0x39,0x55,0xa6,0x7c,
-0xae,0x89,0xc5,0x9c,0x93,0x6b,0x52,0x65,0xea,0x62,0x9a,0x61,0x3a,0x5a,0xa6,0x2b,
-0xa6,0x87,0xcc,0x55,0x32,0xa3,0x22,0x6f,0x8e,0xbc,0x23,0xd7,0x8c,0x97,0xb9,0xe7,
-0x4f,0x33,0x13,0x8f,0x61,0x26,0xe5,0x9a,0x87,0x30,0x53,0x22,0x9f,0x8a,0x7c,0x26,
-0x72,0x06,0x66,0x96,0xcc,0x9c,0x5f,0xcd,0x2b,0x32,0x0b,0x65,0x16,0x63,0x96,0xe6,
-0x9a,0x37,0x72,0xcd,0x0a,0xcc,0x9a,0xc8,0x77,0x23,0xd7,0x47,0x6e,0xc2,0x7c,0x2c,
-0xb3,0xf9,0x57,0xf3,0xb9,0xcc,0x17,0x32,0xbb,0x31,0x7b,0xfe,0x9f,0xd9,0xfb,0x3b,
-0xcc,0xfe,0xc8,0x03,0xff,0x08,0xf3,0x6d,0xe4,0xf7,0xff,0xd1,0x1c,0x8c,0xfc,0xf1,
-0xa4,0x4c,0x78,0x28,0xf0,0xdf,0xbe,0xfd,0x18,0xf9,0xc7,0x9a,0x40,0xe8,0xf7,0x1a,
-0x1e,0x89,0xff,0x65,0xbf,0xc7,0xa2,0x8f,0x6b,0x62,0x72,0x4d,0x81,0xbf,0x89,0x29,
-0xe4,0x33,0x45,0x72,0x4d,0xb1,0xb0,0x39,0x21,0x53,0xea,0x5f,0x6f,0x4a,0xff,0x25,
-0xcd,0x59,0x7f,0x92,0x29,0x1f,0x8a,0xfd,0x97,0x9b,0x73,0xfe,0x75,0xa6,0xd2,0x51,
-0x26,0x4e,0xa6,0xfa,0xbf,0xd6,0x24,0x87,0x52,0xc3,0xe6,0xb8,0xa6,0x76,0xae,0xa9,
-0xfb,0x17,0x34,0xf5,0xc3,0xe6,0x6f,0x6e,0x1a,0x60,0x1a,0x62,0xb2,0x30,0x4d,0x30,
-0xcd,0x64,0x5a,0xfc,0xe1,0xa6,0x25,0xa6,0x15,0xa6,0x4d,0xa8,0x6d,0xae,0x69,0x17,
-0x36,0xff,0x12,0xd3,0x21,0xd4,0xf1,0x0f,0x31,0x9d,0x42,0x97,0x1e,0x65,0x3a,0x87,
-0xba,0xfe,0xcf,0x4c,0x8f,0x50,0xef,0x93,0x32,0x7d,0x42,0xfd,0x4e,0xc8,0x0c,0x08,
-0x0d,0xfc,0x93,0xcc,0xd5,0xa1,0x51,0xa1,0x31,0xa1,0xb1,0xa1,0x9b,0x43,0xb7,0x84,
-0x6e,0x0b,0xdd,0x11,0x9a,0x18,0x7a,0x24,0xf4,0x58,0x68,0x4a,0xe8,0x89,0xd0,0x53,
-0xa1,0x67,0x42,0xd3,0x42,0xcf,0x87,0x66,0x1d,0x65,0xe6,0x86,0x16,0x1c,0x65,0x96,
-0x86,0xde,0x0c,0xad,0x0e,0xad,0x09,0xbd,0x13,0x7a,0x37,0xb4,0x3e,0xf4,0x7e,0xe8,
-0xe3,0xd0,0x67,0xa1,0xcf,0x43,0x5f,0x84,0x76,0x87,0xf6,0x84,0xf6,0x86,0xf6,0x87,
-0xbe,0x0f,0xfd,0x74,0x94,0x89,0x88,0x8a,0x39,0xca,0x14,0x8a,0x2a,0x76,0x94,0x29,
-0x15,0x75,0xfa,0x51,0xa6,0x6c,0xd4,0x39,0x3e,0x53,0xf5,0x28,0x93,0x1c,0x55,0x3b,
-0xaa,0x6e,0x54,0xfd,0xa8,0x06,0x51,0x0d,0xa3,0xb2,0xa2,0x9a,0x44,0xb5,0x8a,0xea,
-0x10,0xd5,0x31,0xaa,0x53,0xd4,0xa5,0x51,0x9d,0xa3,0xba,0x46,0x75,0x8f,0xea,0x21,
-0xd3,0xcb,0x67,0x7a,0xff,0x0f,0x4c,0x9f,0xff,0x67,0x06,0x1e,0x65,0x06,0xff,0x97,
-0xcd,0x55,0x3e,0x73,0x6d,0xd8,0x9c,0x80,0xb9,0x0e,0x73,0x03,0x66,0xd4,0xff,0xc8,
-0x8c,0xc1,0x8c,0xc5,0xdc,0xfc,0x5f,0x36,0xb7,0xfc,0x6a,0x6e,0xcb,0x35,0x77,0x9c,
-0xa4,0x19,0x8f,0xb9,0xeb,0xa4,0xcc,0x3d,0x47,0x99,0x89,0x98,0xfb,0x73,0xcd,0xa4,
-0x5f,0xcd,0x43,0x27,0x68,0x1e,0xc9,0x35,0x8f,0x45,0x4d,0xc9,0xd3,0x3c,0x11,0xf5,
-0x54,0xae,0x79,0x26,0x6a,0x5a,0xae,0x99,0x1e,0xf5,0x7c,0xd4,0x8c,0xa8,0x59,0xbf,
-0x9a,0x39,0x51,0x73,0x73,0xcd,0xbc,0xa8,0x05,0xc7,0x30,0xaf,0x44,0x2d,0x3c,0x8e,
-0x59,0x6c,0x99,0xa5,0x51,0xaf,0x61,0xde,0x38,0xca,0xac,0x88,0x7a,0x33,0x6a,0x75,
-0xd4,0x9a,0xb0,0x39,0xae,0x79,0xe7,0x57,0xf3,0x2e,0x66,0x3d,0xe6,0x7d,0xcc,0x06,
-0xcc,0x87,0x98,0x4d,0x98,0x8f,0x31,0x9b,0x31,0x9f,0x62,0xb6,0x61,0x3e,0xc3,0x7c,
-0x9e,0x6b,0xbe,0xc0,0xec,0xc6,0xec,0x39,0xca,0xec,0xcf,0x35,0xdf,0xe6,0x9a,0x83,
-0xb9,0xe6,0xa7,0x5c,0x13,0x88,0xfe,0xfd,0x26,0xe2,0xff,0x99,0x23,0x2f,0x72,0xcd,
-0x16,0x83,0x29,0x80,0x29,0x84,0x29,0x82,0x29,0x86,0x29,0x81,0x29,0x85,0x39,0x15,
-0x73,0x3a,0xa6,0x34,0xe6,0xac,0x5c,0x53,0x16,0x53,0x1e,0x13,0x7b,0x94,0xa9,0x94,
-0x6b,0xaa,0xe6,0x9a,0xea,0xb9,0x26,0x39,0xd7,0xd4,0x38,0x41,0x93,0x1e,0x5d,0x3b,
-0xba,0x6e,0x74,0xfd,0x63,0x9a,0x06,0x61,0xf3,0x1b,0x4d,0x43,0x4c,0xd6,0x31,0x4c,
-0x93,0xb0,0xc9,0xc3,0x34,0x8b,0x6e,0x11,0x36,0x61,0x73,0x82,0xa6,0x55,0xd8,0x84,
-0xcd,0x3f,0xde,0xb4,0x0b,0x9b,0x7f,0xb5,0xe9,0x10,0xdd,0xf1,0x5f,0x6b,0x3a,0x85,
-0xcd,0x5f,0xd0,0x84,0x67,0x49,0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,
-0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,
-0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,
-0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,
-0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,
-0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,
-0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,
-0xf0,0x16,0xde,0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,
-0xc2,0x5b,0x78,0x0b,0x6f,0xe1,0x2d,0xbc,0x85,0xb7,0xf0,0x16,0xde,0xc2,0xdb,0xdf,
-0x6f,0xab,0x19,0xe1,0x38,0xfd,0x2b,0xb8,0xda,0x45,0x3a,0x00,0x75,0xd0,0x25,0x48,
-0x00,0x5d,0x8a,0x06,0xd1,0x65,0xc6,0x1b,0x7d,0x0d,0x8d,0x8c,0x30,0x3b,0x1d,0x27,
-0x0a,0x0d,0xa2,0xd1,0x68,0xc5,0xa0,0xe3,0xe4,0x43,0x5f,0x67,0x57,0x0c,0xfa,0x78,
-0x19,0xc7,0xc9,0x8f,0xbe,0x81,0xbb,0x20,0xba,0x86,0x70,0x45,0xcc,0x71,0x84,0x2b,
-0x66,0x8e,0x43,0x63,0xd1,0xc9,0x84,0x3b,0xc7,0xf8,0xa3,0x95,0xd1,0x48,0xc5,0x17,
-0x2c,0xe3,0xee,0x8f,0x44,0x13,0xd1,0xa8,0x32,0x6e,0x7a,0xa2,0x02,0x6e,0x7a,0xf2,
-0x29,0x5c,0xfe,0x80,0x1b,0x7f,0x41,0xb4,0x12,0xba,0xc2,0x91,0x7f,0x19,0xd7,0xbf,
-0x70,0xc0,0x8d,0xa7,0x60,0x19,0x77,0x7f,0x51,0x34,0x0e,0x2d,0xae,0x78,0x0b,0x97,
-0x71,0xf3,0xbb,0x52,0xf9,0x7d,0x53,0xf9,0x5d,0xa5,0xfc,0xbe,0x5a,0xc6,0xcd,0x6f,
-0x71,0xe5,0xb7,0xa4,0xce,0x7b,0x4a,0xc0,0xcd,0xef,0x6a,0xe5,0xf7,0x65,0x9d,0xef,
-0x0c,0xe5,0x33,0x52,0xf9,0x8c,0x52,0x3e,0xe7,0xeb,0xfc,0x95,0x83,0x6e,0x3e,0x4f,
-0x0b,0xb8,0xe9,0x38,0x0d,0xff,0x04,0x73,0x5c,0x19,0x37,0xde,0x32,0xca,0xe7,0x37,
-0xca,0xe7,0x99,0x01,0xf7,0xfc,0xe5,0xca,0xb8,0xe7,0x2f,0xa3,0xf3,0x97,0x53,0xbe,
-0x77,0x28,0xdf,0x15,0x14,0xfe,0x6c,0xed,0xaf,0x50,0xc6,0x4d,0x5f,0x45,0xa5,0xab,
-0x8c,0xd2,0x71,0xb6,0x97,0x0e,0x34,0x1e,0xad,0xa2,0xfc,0xbf,0xa5,0xfc,0xaf,0x51,
-0xfe,0xdf,0x56,0xfe,0x2b,0xeb,0xfc,0x55,0x94,0xff,0x6a,0x8a,0x3f,0x41,0xf9,0x7f,
-0x47,0xf9,0x5f,0xa9,0xf3,0xbc,0xa3,0xfc,0xe7,0x53,0xfe,0xf3,0xeb,0xbc,0xab,0x74,
-0x7d,0xe3,0x03,0x6e,0x7e,0xab,0x95,0x71,0xcf,0x93,0x12,0x70,0xcf,0x9b,0xa0,0xe3,
-0x77,0xea,0x7a,0x25,0x29,0x9d,0x69,0x01,0xf7,0x3a,0xa5,0xa8,0x5c,0xd2,0x95,0xef,
-0xba,0x0a,0x97,0xa6,0x70,0xb5,0x55,0x9e,0x75,0x74,0x5d,0x6b,0x29,0x7c,0x3d,0x95,
-0x6b,0x86,0xea,0x53,0xa6,0xf2,0xfb,0x83,0xce,0xdb,0x30,0xe0,0xe6,0xf3,0x5d,0xd5,
-0x9b,0x46,0x4a,0x47,0x13,0xc5,0xdf,0x58,0xf1,0x67,0x29,0xfe,0xe6,0x8a,0xbf,0xa9,
-0xe2,0x59,0xa7,0x72,0x5b,0xaf,0x72,0x7b,0x4f,0xe5,0xf6,0xbe,0xda,0xc9,0x79,0x2a,
-0xb7,0xf3,0x55,0x6e,0xf1,0x6a,0x27,0x1f,0xa8,0xdc,0xde,0x26,0x9e,0x02,0x68,0x6b,
-0xe5,0xeb,0x5d,0x95,0x5f,0x41,0x95,0x5f,0x61,0xb4,0xb4,0x69,0x27,0x4a,0xcf,0x5b,
-0x2a,0xc7,0x5d,0x4a,0xff,0x85,0xca,0x5f,0x7b,0xe5,0xf7,0x42,0x9d,0xe7,0x22,0xe5,
-0xe3,0x22,0xc5,0x57,0x54,0xf1,0x15,0xd7,0xf5,0xb8,0x58,0xf9,0x6a,0xaf,0xf2,0xbd,
-0x4c,0xc7,0x5f,0xac,0x7a,0x74,0x89,0xe2,0xe9,0xa2,0x78,0xba,0xe8,0xfc,0xdd,0x70,
-0x57,0x34,0xf5,0x36,0xe8,0x1e,0x7f,0x99,0xc2,0x5d,0xa9,0x70,0x97,0x2b,0x5c,0x5f,
-0x85,0x3b,0x43,0xe1,0xba,0xa9,0xfc,0xb2,0x55,0x7e,0xfd,0x55,0x7e,0x1f,0xaa,0xfc,
-0x3e,0x52,0xf9,0x6d,0x52,0xf9,0x5d,0xa1,0x7a,0x77,0xa5,0xca,0xaf,0xaf,0xea,0x5b,
-0x8e,0xca,0x6d,0x87,0xfa,0x97,0xfe,0x01,0xb7,0xfc,0xb2,0x55,0x7e,0xeb,0x95,0xdf,
-0x92,0xca,0xef,0x29,0x2a,0xbf,0x19,0x4a,0xd7,0x76,0x8e,0x3b,0x1b,0x1d,0xa4,0x72,
-0x1c,0xa4,0x74,0x0d,0x55,0x3b,0x1c,0x52,0xc6,0x3d,0xff,0x08,0xd5,0x97,0xeb,0x95,
-0xce,0x91,0x2a,0x9f,0xd1,0xaa,0xb7,0x43,0x94,0xef,0x9b,0xd4,0xce,0x6e,0x54,0xf8,
-0x71,0xba,0x1e,0xb7,0xca,0xff,0x76,0x1d,0xff,0xb5,0x8e,0xff,0x58,0xf9,0x1c,0xaa,
-0x7a,0xf7,0x83,0xfa,0x97,0xa4,0xa0,0x7b,0xdc,0x9d,0x3a,0x6e,0x78,0xc0,0xcd,0xe7,
-0x77,0x8a,0xf7,0x1b,0x1d,0x7f,0xb5,0xae,0xcf,0x04,0x9d,0xe7,0x5a,0xe5,0xfb,0x3a,
-0xe5,0xef,0x6e,0x95,0xef,0xbd,0x3a,0xef,0x16,0x95,0xef,0xa7,0x3a,0xef,0x56,0x95,
-0xef,0x36,0xd5,0xcf,0x80,0xca,0x37,0x42,0xf9,0xa9,0xa4,0xfa,0xb9,0x5d,0xe5,0xfc,
-0x84,0xca,0xf9,0x33,0xf5,0xe3,0x6f,0xab,0x7c,0x03,0x2a,0xdf,0x08,0xd5,0xa7,0x29,
-0xea,0xc7,0x03,0x2a,0xd7,0x90,0xe2,0x8b,0x50,0xfa,0x43,0x4a,0x57,0xb4,0xf2,0x11,
-0xad,0x7c,0xc4,0x28,0x5c,0x01,0xe5,0xa3,0x90,0xfa,0xb3,0xcf,0xd5,0x1e,0x0b,0xa8,
-0x5e,0x15,0x51,0xfe,0x0a,0xa9,0xde,0x16,0x53,0x3f,0x5e,0x42,0xf1,0x16,0x51,0x7e,
-0x77,0x2a,0xbf,0x5f,0x28,0xbf,0xbb,0x94,0xdf,0x85,0x2a,0xe7,0x12,0xca,0x6f,0x29,
-0x9d,0xf7,0x54,0xd5,0xab,0xdd,0xca,0xef,0x2b,0x3a,0x5f,0x69,0xe5,0x33,0xa4,0x7c,
-0x46,0x2b,0x9f,0x0b,0x74,0xfe,0x73,0xd5,0x8f,0x9f,0xae,0xfa,0x73,0xba,0xea,0x4f,
-0x69,0x5d,0x97,0xb2,0xca,0xe7,0xb7,0xca,0xe7,0x59,0xaa,0xcf,0xe5,0xd5,0x8f,0x97,
-0xd5,0xf9,0xcb,0x2b,0xdf,0x9f,0x2b,0xdf,0xb1,0x0a,0x7f,0x8e,0xf6,0xc7,0xaa,0x3e,
-0x54,0x52,0xba,0xca,0x2a,0x1d,0xe7,0x78,0xe9,0x50,0x3f,0x5e,0x55,0xe5,0x70,0x9f,
-0xca,0xe1,0x4b,0x95,0xc3,0x1e,0x95,0xc3,0x57,0x2a,0x87,0x73,0x95,0x8e,0xaa,0x2a,
-0x87,0x38,0xe5,0x7f,0xaf,0xf2,0xff,0xa6,0xce,0xb3,0x56,0xf9,0x8f,0x51,0xfe,0x0b,
-0xe8,0xbc,0xab,0x75,0x7d,0xab,0xab,0x1f,0x8f,0x53,0x7b,0x48,0x55,0x3e,0xf6,0xa9,
-0x5f,0x4a,0x54,0x3c,0x5f,0xe8,0xba,0x25,0x2b,0xbd,0x35,0xd4,0xdf,0xa4,0xaa,0x7c,
-0x6a,0xe9,0xb8,0x7a,0x0a,0x57,0x43,0xe1,0xea,0xa8,0x5c,0xeb,0x2a,0x5f,0xb5,0x15,
-0xbe,0xbe,0xca,0xb7,0x81,0xea,0x55,0x43,0xe5,0xf7,0xa0,0xce,0xdb,0x48,0xed,0x6a,
-0xbf,0xea,0x4f,0x96,0xd2,0xd1,0x54,0xf1,0x37,0x51,0xfc,0x8d,0x15,0x7f,0x0b,0xc5,
-0xdf,0xcc,0x6b,0xa7,0x2a,0xb7,0x03,0x2a,0xb7,0x6f,0x54,0x6e,0xdf,0xaa,0xbd,0xb4,
-0x54,0xb9,0xb5,0xd2,0xf5,0xa9,0xae,0xf6,0xf2,0x9d,0xca,0xef,0x1d,0xf5,0xe7,0x6d,
-0x94,0xaf,0x75,0x2a,0xc7,0x42,0x2a,0xc7,0x22,0xea,0x8f,0xa6,0x28,0x3d,0x6b,0x54,
-0x9e,0xbb,0x95,0xfe,0x76,0xca,0x5f,0x07,0xe5,0xb7,0x9d,0xce,0xd3,0x51,0xf9,0xe8,
-0xa8,0xf8,0x8a,0x29,0xbe,0x12,0xba,0x2e,0x9d,0x94,0xaf,0x0e,0x2a,0xdf,0xce,0x3a,
-0xbe,0x93,0xea,0xd3,0xa5,0x8a,0xa7,0xab,0xe2,0xe9,0xaa,0xf3,0x77,0x57,0x3f,0x7d,
-0xba,0xfa,0xe9,0xce,0x0a,0xd7,0x47,0xf5,0xee,0x7e,0x85,0xef,0xa1,0xf0,0xfd,0x14,
-0xbe,0xb4,0xc2,0x77,0x57,0x39,0x0e,0x54,0x39,0x0e,0xf0,0xae,0x87,0xca,0xf1,0x90,
-0xca,0xf1,0x47,0x95,0x63,0x6f,0xd5,0xbf,0x3e,0x2a,0xc7,0x7e,0xaa,0x7f,0x87,0x55,
-0x7e,0x9f,0xab,0xbf,0x19,0xa0,0x7e,0x7d,0xa0,0xca,0xf1,0x3d,0xe5,0xbb,0x94,0xf2,
-0x7d,0xaa,0xca,0x71,0xa6,0xd2,0xf5,0x99,0xfa,0xf5,0xc1,0x2a,0xcf,0xc1,0x4a,0xd7,
-0x30,0xb5,0xcb,0xab,0xd4,0xaf,0x5f,0xa7,0x7a,0x73,0x83,0xd2,0x39,0x4a,0xe5,0x34,
-0x46,0xf5,0xf8,0x2a,0xe5,0xff,0x66,0xe5,0x7f,0xac,0xd2,0xf3,0x80,0x8e,0xbb,0x45,
-0xd7,0xe7,0x36,0xed,0xbf,0x43,0xf1,0x1c,0x50,0x3c,0x3f,0x29,0xbf,0xc3,0x54,0x0f,
-0x0f,0xaa,0xdf,0x49,0x56,0xff,0x3e,0x5e,0xc7,0xfd,0xa2,0xfc,0x7e,0xaf,0xf8,0x27,
-0x29,0xfe,0x6f,0x15,0xcf,0x35,0xba,0x6e,0x77,0xe9,0x7c,0x23,0x54,0x0e,0xd7,0x2b,
-0xbf,0xf7,0xa8,0xbc,0x27,0xea,0xfc,0x7b,0xca,0xba,0xc7,0x8d,0x35,0xcf,0x38,0xe6,
-0xb9,0xbd,0xac,0xeb,0xff,0xb4,0xe2,0x7b,0x52,0xf9,0x7f,0xb6,0x8c,0x7b,0xde,0xa9,
-0x4a,0xd7,0x27,0xaa,0x77,0x87,0xa4,0x87,0x75,0x7d,0xb6,0xca,0x9d,0x4f,0xf1,0x2f,
-0x51,0x3c,0x8b,0x14,0xcf,0xeb,0x8a,0x67,0x99,0xfc,0xe3,0xbd,0xe7,0x21,0xb9,0xd7,
-0x2a,0xdc,0x07,0x0a,0xf7,0x9e,0xfc,0xcf,0xd3,0x79,0xab,0xa9,0xdd,0x9c,0x2f,0x77,
-0x95,0xa0,0xbb,0xff,0xe7,0x80,0x1b,0xcf,0x26,0x9d,0x7f,0x83,0xd2,0xf3,0xbe,0xf2,
-0xff,0xa1,0xf6,0x3f,0xa3,0xf8,0x9e,0xd2,0x79,0xa6,0xeb,0x3c,0xd3,0x14,0xdf,0x66,
-0x1d,0xff,0xa3,0xf4,0x27,0xc5,0xb3,0x4d,0xee,0x18,0xa5,0x77,0xa9,0xe2,0x59,0xac,
-0x78,0xde,0x50,0x3c,0xaf,0xc9,0xbf,0xba,0xc2,0xad,0x97,0xfb,0x5d,0x85,0xdb,0xa0,
-0x70,0xef,0xcb,0xbf,0xa5,0xce,0x1b,0xa7,0x7c,0xb5,0x92,0xbb,0xaa,0xf2,0xf5,0x8b,
-0xd2,0x9d,0xa3,0xf3,0x6f,0x54,0x7a,0x3e,0x50,0xbe,0x3e,0xd2,0xfe,0x99,0x8a,0xef,
-0x05,0x9d,0xe7,0x45,0x9d,0x67,0xb6,0xd2,0x31,0x4b,0xfb,0x67,0x68,0xff,0x5c,0xed,
-0x9f,0xa3,0xfd,0x25,0xb5,0xff,0x14,0xb9,0x4b,0xc9,0x7d,0xaa,0xdc,0xad,0xe5,0xbe,
-0x40,0xee,0x36,0x72,0xb7,0x55,0x3d,0xbb,0x5c,0xda,0x43,0xda,0x53,0xda,0x4b,0xe1,
-0x86,0x7b,0xcf,0x21,0xaa,0xc7,0xd7,0x48,0xaf,0x55,0xb8,0x87,0x14,0x6f,0x8e,0xc2,
-0x7d,0xa4,0x74,0x6e,0x51,0x3a,0x3f,0x51,0x3d,0xdf,0xaa,0x70,0x1f,0x2b,0xdc,0x26,
-0x85,0xfb,0x54,0xe1,0x36,0x2b,0xdc,0x36,0x85,0xdb,0xa5,0x70,0x3b,0x15,0xee,0x2b,
-0x85,0xfb,0x52,0xe1,0xf6,0x29,0xdc,0x6e,0x85,0xfb,0x42,0xe1,0xf6,0x2a,0xdc,0x1e,
-0x85,0xdb,0xaf,0xfe,0xec,0x2b,0x95,0xff,0x97,0xd2,0x3d,0xd2,0x2d,0xd2,0x4f,0xd5,
-0x3f,0x9d,0xa9,0xfb,0xf5,0x59,0xba,0x9e,0x09,0x41,0x57,0x13,0x83,0x6e,0x3c,0x7b,
-0x75,0xdd,0x5e,0x56,0xfb,0xbb,0x29,0xc2,0xdd,0xbf,0xa0,0xac,0x7b,0xdc,0x7c,0xb4,
-0x84,0x69,0x47,0x68,0x49,0x53,0xef,0xd0,0x2c,0xf3,0xbb,0x52,0xed,0x73,0xa5,0x8e,
-0x1b,0x17,0xe1,0x86,0x3b,0x4d,0xe1,0x4e,0xd7,0xfe,0x55,0xda,0x7f,0x8b,0xf6,0x57,
-0xd6,0xfe,0x73,0x15,0xcf,0x5b,0x0a,0xf7,0x91,0xc2,0xdd,0xaa,0xf3,0x7f,0xa8,0xf3,
-0x6f,0x2c,0xeb,0x5e,0x9f,0x67,0x75,0x7c,0x4d,0x1d,0x9f,0xae,0xe3,0x7e,0xd0,0x71,
-0xb7,0x6b,0x7f,0x53,0xed,0x6f,0x26,0xfd,0x52,0xe1,0x76,0x29,0xdc,0x9d,0x8a,0xff,
-0x0b,0xc5,0xbf,0x53,0xf1,0x4f,0x8f,0x70,0xc3,0x77,0x54,0xf8,0x43,0x0a,0x3f,0x5e,
-0xf1,0x5e,0xa1,0xf8,0x7a,0x2b,0xdd,0x87,0xa5,0x2f,0x4a,0x5f,0xd7,0x71,0xd9,0x3a,
-0xee,0x39,0x9d,0x67,0x96,0xce,0x33,0x53,0xe5,0xe8,0x28,0x9e,0x40,0x59,0xb7,0x9f,
-0x7b,0x49,0xc7,0xcf,0xd1,0xf1,0x83,0x74,0xfc,0xf3,0x3a,0x6f,0x51,0x85,0x2f,0xa6,
-0xfd,0x43,0xb4,0xff,0x05,0xed,0x2f,0xa7,0xfd,0xe5,0x15,0xdf,0x72,0xc5,0xf7,0x9a,
-0xc2,0x0f,0x55,0xf8,0x19,0x4a,0xcf,0xbb,0x4a,0xcf,0x5a,0xe5,0x7b,0x95,0xe2,0x49,
-0x50,0x3c,0x89,0x8a,0xe7,0x03,0x1d,0x3f,0x5c,0xc7,0xbf,0xa5,0x70,0x19,0x0a,0xd7,
-0x40,0xf9,0xd9,0x2e,0xf7,0x67,0x0a,0x7f,0x8d,0xc2,0xaf,0xd1,0xf9,0x3e,0xd5,0xf9,
-0xb6,0xe8,0x7c,0xab,0x15,0x4f,0x6b,0x1d,0xd7,0x46,0xe7,0xdb,0xa1,0xe3,0x47,0xe8,
-0xf8,0xb7,0x15,0xae,0x8b,0xc2,0x75,0x55,0xb8,0xef,0x94,0xbf,0x03,0x0a,0xbf,0x4e,
-0xe1,0x27,0xe8,0xbe,0xb1,0x41,0xfe,0x5b,0xe5,0x3f,0x53,0xfe,0x9f,0xeb,0xb8,0x6f,
-0xe4,0xbf,0x3e,0xc2,0x4d,0xcf,0x7b,0xd2,0xe8,0x48,0x95,0x4b,0xa4,0xeb,0x5e,0x17,
-0xe9,0x86,0x8b,0x88,0x74,0xe3,0x73,0xb4,0xff,0x03,0xed,0x0f,0xc8,0xbd,0x54,0xee,
-0x1c,0xe9,0x27,0x0a,0x5f,0x28,0x52,0xf7,0x21,0x85,0x3b,0x5d,0xfb,0xb7,0x2b,0xde,
-0x82,0x72,0xef,0x50,0xb8,0xaf,0x14,0xae,0xb0,0xfc,0xf7,0x45,0xba,0xcf,0x0f,0x5f,
-0xcb,0xfd,0x8d,0xf4,0x07,0xe9,0x97,0x0a,0xff,0xae,0xdc,0xeb,0x15,0x6f,0x5b,0x9d,
-0xbf,0xb5,0xf6,0x6f,0xd0,0xfe,0x36,0x72,0x2f,0x93,0xfb,0x63,0xe9,0x66,0x85,0xbf,
-0x54,0xe9,0xd8,0xa6,0x70,0xe9,0xda,0xff,0x99,0xe2,0xbd,0x44,0xee,0xcf,0x15,0x6e,
-0xaf,0xc2,0x5d,0x26,0xff,0xfd,0x4a,0xef,0x01,0xb9,0xbf,0x95,0x1e,0x94,0xee,0x91,
-0x76,0x88,0x74,0x9f,0x83,0x86,0x4a,0x87,0xc9,0xff,0x23,0xe9,0x26,0xe9,0x2e,0xe9,
-0x6e,0xb4,0x6d,0x94,0xe3,0x54,0x80,0x0b,0x21,0x16,0xda,0xc1,0x39,0x72,0x9f,0x2d,
-0xad,0x28,0x5d,0x26,0x5d,0x2f,0x5d,0x02,0x75,0x62,0xe8,0x6f,0x62,0x5c,0x4d,0x94,
-0xa6,0xc0,0x22,0x58,0x0d,0x1b,0xe0,0x2d,0xa8,0x57,0x80,0xe7,0x69,0x68,0x0f,0x4d,
-0xa1,0x03,0x9c,0x07,0x1b,0xe0,0x5e,0x58,0x04,0xab,0xe4,0x7e,0x4b,0xee,0xd5,0x26,
-0x7c,0x41,0xc2,0xc3,0xfb,0xb0,0x04,0x96,0xc1,0x2a,0xb9,0x57,0xc0,0x07,0xb0,0x52,
-0xee,0xd5,0x50,0xaf,0x90,0xe3,0x34,0x87,0x0e,0x70,0x5e,0x21,0xd7,0xdd,0x02,0x56,
-0xc1,0x47,0xf0,0x0e,0xe4,0xc0,0x66,0xf8,0x44,0xfe,0x1f,0x43,0x7c,0x51,0xf2,0x09,
-0xa9,0xa5,0x29,0xfb,0xd2,0xae,0xe6,0x93,0xe6,0x97,0x16,0x94,0x16,0x96,0x16,0x97,
-0xd6,0x96,0xd6,0x95,0x66,0x48,0x1b,0x48,0x1b,0x96,0x76,0xaf,0x6b,0x4d,0xdd,0x27,
-0xd2,0xa5,0x97,0x48,0x2f,0xd5,0xfd,0xf1,0x0a,0x69,0x6f,0x3d,0x6f,0x3e,0xa7,0xfb,
-0xcb,0x4b,0x72,0x3f,0x2f,0xf7,0x3c,0xb9,0x97,0x4b,0x57,0x48,0x37,0x4a,0x3f,0xd4,
-0xfd,0x2e,0xa8,0xf6,0x18,0xa9,0xf6,0x1d,0xa5,0x76,0x3a,0x52,0xed,0x38,0x42,0xfb,
-0x43,0xda,0x1f,0xad,0xfd,0xa3,0xa4,0xa3,0xa5,0x63,0xa4,0x37,0x4a,0xc7,0x4a,0x6f,
-0x92,0xde,0xac,0xf8,0xf2,0x2b,0xbe,0x82,0x8a,0xaf,0xb0,0xf6,0x8f,0xd3,0xfe,0x02,
-0xda,0x5f,0x48,0xfb,0x8b,0x68,0xff,0x2d,0xd2,0x5b,0xa5,0xb7,0x49,0x6f,0x97,0xde,
-0x21,0xbd,0x53,0x3a,0x5e,0xf1,0x15,0x57,0x7c,0x25,0xe5,0x2e,0x21,0x77,0x29,0xb9,
-0xcf,0x90,0xfb,0x4c,0xb9,0x4b,0xcb,0x7d,0x96,0xdc,0x15,0xe4,0x3e,0x5b,0xe9,0xa9,
-0xa8,0xf8,0x27,0x68,0x7f,0xac,0xf6,0x9f,0xa3,0xfd,0x95,0xb4,0xff,0x2e,0xe9,0xdd,
-0xd2,0x7b,0xa4,0xf7,0x4a,0x27,0x4a,0xef,0x93,0xde,0xaf,0xf8,0xaa,0x28,0xbe,0x6a,
-0x8a,0x2f,0x5e,0xfb,0x1f,0xd0,0xfe,0xaa,0xda,0x1f,0xa7,0xfd,0xd5,0xb5,0x7f,0x92,
-0xf4,0x41,0xe9,0x43,0xd2,0x87,0xa5,0x8f,0x48,0x1f,0x95,0x3e,0xa6,0xf8,0x92,0x14,
-0x5f,0x8a,0xe2,0x4b,0x93,0x7f,0xb2,0xfc,0x53,0xe5,0x5f,0x43,0xfe,0xb5,0xe4,0x5f,
-0x47,0xfe,0xf5,0xe4,0x5f,0x5b,0xfe,0x75,0xe5,0x5f,0x5f,0xfe,0x99,0xf2,0x6f,0x24,
-0x77,0x43,0xb9,0xb3,0xe4,0x6e,0x2e,0xf7,0x79,0x72,0xb7,0x90,0xbb,0xa5,0xdc,0x17,
-0xc8,0x7d,0xa1,0xe2,0x6d,0x2f,0xff,0xb6,0xf2,0x6f,0x27,0xff,0x0e,0xf2,0xef,0x24,
-0xff,0x4b,0xe5,0xdf,0x59,0xfe,0xdd,0xe4,0x7f,0xb9,0xfc,0x7b,0xaa,0x1c,0x26,0x6b,
-0x7f,0x77,0xed,0xef,0xa1,0xfd,0xbd,0xb4,0x7f,0x8a,0xf4,0x71,0xe9,0x13,0xd2,0x27,
-0xa5,0x4f,0x49,0x9f,0x96,0x3e,0xa3,0xf8,0xae,0x54,0x7c,0x7d,0x15,0x5f,0x7f,0xed,
-0x9f,0xaa,0xfd,0x7d,0xb4,0xbf,0x9f,0xf6,0x0f,0xd0,0xfe,0x69,0xd2,0x67,0xa5,0xd3,
-0xa5,0xcf,0x49,0x9f,0x97,0xbe,0x20,0x9d,0x21,0x9d,0x2d,0x5d,0x26,0xfd,0x5a,0x3a,
-0x4f,0xe7,0x5b,0xe3,0xdd,0xd7,0x75,0xbe,0x77,0xb4,0x7f,0x85,0xf4,0x7b,0x85,0xfb,
-0x58,0xe1,0x3e,0x51,0xb8,0xcd,0x65,0xdd,0x71,0x9d,0x07,0xcb,0xbb,0xfa,0x90,0xf4,
-0x05,0xe9,0x1a,0xe9,0x3b,0xd2,0xb7,0xa5,0x91,0x1a,0x0f,0x8a,0x91,0x16,0x94,0x9e,
-0x2d,0xad,0x28,0x6d,0x20,0x6d,0x24,0x6d,0x22,0x6d,0x26,0xed,0x27,0xed,0x26,0xcd,
-0x96,0x0e,0x94,0x0e,0x91,0x5e,0x25,0x1d,0x2e,0xbd,0x5a,0x3a,0x52,0x3a,0x4a,0xba,
-0x45,0xfa,0xa9,0xf4,0x46,0xe9,0x58,0xe9,0x38,0xe9,0x2d,0xd2,0xad,0xd2,0x6d,0xd2,
-0xe7,0xa4,0xcf,0x4b,0x5f,0x90,0xce,0x90,0xee,0x92,0xee,0x96,0x7e,0x29,0xdd,0x83,
-0x4e,0x4a,0xa0,0xfd,0x27,0xb8,0x7a,0x9e,0xf4,0x7c,0x69,0x6b,0xe9,0x05,0xd2,0x0b,
-0xa5,0xed,0xa5,0x17,0x49,0x2f,0x96,0x5e,0x22,0xbd,0x4c,0xda,0x45,0xda,0x4d,0xda,
-0x43,0xda,0x4b,0xda,0x5b,0x9a,0x0d,0x0f,0xc2,0x40,0xb9,0x07,0xcb,0x3d,0x44,0xee,
-0xa1,0x72,0x0f,0x93,0xfb,0x6a,0xb9,0xaf,0x91,0x7b,0x84,0xdc,0xd7,0xc9,0xfd,0xa8,
-0xf4,0x1b,0xe9,0x73,0xd2,0x17,0xa4,0x33,0xa5,0xb3,0xa5,0x2f,0x4a,0x5f,0x92,0xce,
-0x97,0xbe,0x2c,0x7d,0x55,0xba,0x48,0xba,0x44,0xba,0x4c,0xfa,0x86,0x74,0x85,0xf4,
-0x4d,0xe9,0x5a,0xa5,0xeb,0x5d,0xb9,0xd7,0xcb,0xfd,0x9e,0xdc,0x1f,0xc8,0xbd,0x41,
-0xee,0x0f,0xe5,0xfe,0x48,0xee,0x1c,0xb9,0x3f,0x96,0xfb,0x7b,0xe9,0x0f,0xd2,0x83,
-0xd2,0x43,0xd2,0x9f,0x4d,0x9a,0x8b,0x06,0x9c,0x07,0xc1,0xe8,0xc3,0xd2,0xe9,0x50,
-0xa9,0x58,0xc0,0x89,0x2f,0xe6,0x6a,0x75,0xa8,0x57,0x22,0xe0,0xb4,0x80,0x0e,0x70,
-0x1e,0xcc,0x2c,0x19,0x70,0x5e,0x85,0x97,0xe1,0x15,0x58,0x08,0x8b,0x60,0x46,0x29,
-0xfc,0x4a,0xb9,0xfa,0x0a,0x24,0x9c,0x1e,0x70,0x6a,0x02,0xa7,0x72,0xd2,0xa1,0x01,
-0x5c,0x0c,0x9d,0x45,0x57,0xb8,0x06,0x9e,0x15,0x73,0xc5,0x3c,0xf1,0xb2,0x30,0x63,
-0xb1,0x66,0xbc,0x68,0xa3,0xe3,0xbe,0x67,0xfc,0xc1,0xf8,0xf3,0xbb,0xf3,0x15,0xf1,
-0x2a,0x2c,0x86,0x25,0xf0,0x1a,0xbc,0x0e,0xf7,0xf0,0xfb,0xf4,0x5e,0x98,0x08,0xf7,
-0xc1,0x0c,0x98,0x09,0x4b,0x61,0x39,0xbc,0x0b,0x5b,0x60,0x3b,0x7c,0x29,0xbe,0x12,
-0xa6,0x1f,0x19,0x60,0xda,0xaa,0x79,0x8f,0x66,0xda,0xa8,0x18,0x6a,0x9e,0x37,0xcd,
-0x6f,0x14,0x71,0xad,0x79,0x9f,0x66,0xde,0xa5,0x89,0x9b,0xc4,0xcd,0x62,0x9c,0x7e,
-0x8f,0xde,0x2e,0xcc,0x6f,0xc7,0x29,0xa6,0x0f,0x36,0xcf,0xb7,0xa6,0xcf,0x32,0xed,
-0x9a,0xe7,0xd3,0x31,0x70,0x33,0xdc,0x0a,0xd5,0x43,0x3c,0x63,0x42,0x7b,0xe8,0x28,
-0xba,0xc0,0x38,0xb8,0x0b,0x16,0xc2,0x62,0xb1,0x14,0x96,0xc1,0xeb,0xf0,0x06,0xac,
-0x10,0x6b,0x61,0x17,0xec,0x85,0xaf,0xa1,0x28,0xcf,0xb0,0x67,0x40,0x39,0xa8,0x0f,
-0x19,0xa2,0x01,0x34,0x87,0x16,0xd0,0x19,0xba,0x40,0x6f,0xe8,0x0f,0x03,0x20,0x5b,
-0x0c,0xd4,0xf3,0xf0,0xfb,0xe2,0x03,0xc8,0x81,0xcd,0xb0,0x1d,0x3e,0x83,0x1d,0xf0,
-0x39,0xec,0x84,0x5d,0xb0,0x07,0xbe,0x82,0xbd,0xb0,0x0f,0x0e,0xc2,0x21,0x38,0x0c,
-0xbf,0x88,0xa2,0xd1,0x2e,0xc5,0x44,0x71,0xa8,0x0e,0x09,0xd0,0x1c,0x5a,0xc2,0x53,
-0xf0,0x34,0xcc,0x84,0x59,0x62,0x09,0xbc,0x09,0xab,0x60,0x17,0xec,0x86,0x03,0xf0,
-0x0d,0x7c,0x0b,0x87,0xc4,0x4f,0xc2,0xc9,0xc7,0xf3,0x12,0x9c,0x02,0xa7,0xc3,0x19,
-0xa2,0x34,0xc4,0xc2,0xd9,0xe2,0x1c,0xa8,0x04,0x95,0xc5,0xb9,0x10,0x07,0x19,0x70,
-0x11,0x74,0x84,0x4e,0xd0,0x05,0xae,0x84,0x6c,0xb8,0x19,0x6e,0x81,0xf1,0x70,0x3f,
-0x3c,0x06,0x93,0x61,0x25,0xbc,0x29,0x56,0xc1,0xa7,0xb0,0x0d,0x82,0xfc,0x4e,0x88,
-0x10,0x91,0x90,0x0e,0xb5,0x44,0x6d,0x51,0x47,0xd4,0x15,0xf5,0x20,0x03,0x1a,0x40,
-0x53,0x68,0x06,0xe7,0x41,0x4b,0x71,0x3e,0xb4,0x82,0xd6,0xa2,0x0d,0x74,0x80,0x8b,
-0xa0,0x2b,0x74,0x83,0xee,0xd0,0x13,0x06,0xc0,0x40,0x31,0x08,0x46,0xc2,0x28,0x31,
-0x1a,0xc6,0xc0,0x58,0xb8,0x1d,0xc6,0xc3,0x04,0xb8,0x07,0xa6,0xc2,0xb3,0x30,0x13,
-0x66,0x8b,0x97,0x60,0x01,0xbc,0x2a,0x16,0x0a,0xf3,0xbb,0x68,0x09,0x2c,0x85,0xd7,
-0x61,0x05,0xac,0xd4,0x6f,0x25,0xf3,0x3b,0x69,0x8d,0x78,0x5b,0x6c,0x10,0x39,0xf0,
-0x31,0x6c,0x86,0x4f,0x61,0x2b,0x6c,0x83,0x1d,0xb0,0x17,0xf6,0xc1,0x7e,0x38,0x2c,
-0x7e,0x16,0x81,0xfc,0x94,0x2b,0x44,0x88,0x10,0xe4,0x87,0x22,0x50,0x14,0x4a,0x40,
-0x65,0xa8,0x02,0x09,0x90,0x04,0xc9,0x90,0x0a,0x69,0x50,0x13,0xd2,0xa1,0x8e,0xa8,
-0x07,0x19,0xd0,0x00,0x32,0xa1,0x09,0x34,0x85,0x16,0xd0,0x12,0xda,0x88,0x8e,0x70,
-0x09,0x5c,0x26,0x7a,0xc2,0x00,0xc8,0x86,0x81,0x30,0x08,0x86,0xc0,0x55,0x62,0x14,
-0x8c,0x86,0x31,0x62,0x2c,0xdc,0x01,0xe3,0xe1,0x2e,0xb8,0x07,0xa6,0xc2,0xb3,0x30,
-0x13,0x66,0xc3,0x1c,0x98,0x0b,0x0b,0xe0,0x55,0xb1,0x50,0x2c,0x82,0x25,0xb0,0x14,
-0xde,0x80,0x15,0xb0,0x12,0xde,0x14,0xab,0xe1,0x2d,0x58,0x23,0xd6,0x8a,0x2d,0xf0,
-0x29,0x6c,0x85,0x6d,0xb0,0x03,0xf6,0xc2,0x41,0x71,0x08,0x7e,0x81,0x40,0x01,0x97,
-0x20,0x44,0x40,0x08,0x0a,0x42,0x11,0x28,0x0a,0x25,0xa0,0x32,0x54,0x81,0x04,0x48,
-0x82,0x64,0x48,0x85,0x74,0xa8,0x23,0xea,0x8a,0x7a,0xa2,0xbe,0xc8,0x10,0x0d,0xa0,
-0x11,0x34,0xd1,0xef,0xe6,0x16,0xfa,0xdd,0xdc,0x52,0xb4,0xd3,0x6f,0xea,0x0e,0xe2,
-0x12,0xb8,0x14,0x3a,0x43,0x57,0xe8,0x06,0xdd,0xa1,0x27,0x0c,0x80,0x81,0x62,0xb4,
-0x18,0x23,0xc6,0xc2,0xad,0x70,0x27,0x4c,0x80,0xbb,0x61,0x22,0x4c,0x82,0x07,0xe1,
-0x61,0xf1,0x28,0x3c,0x06,0x4f,0xc0,0x93,0x30,0x15,0x9e,0x85,0x17,0x60,0x81,0x7e,
-0xb7,0x2f,0x86,0x25,0x62,0x29,0x2c,0x83,0xe5,0xb0,0x52,0xbf,0xf1,0xcd,0xef,0xfb,
-0x35,0x62,0xad,0xd8,0x20,0x76,0xc0,0xde,0x02,0x66,0x40,0xd9,0x25,0x00,0x11,0x10,
-0x29,0x42,0x50,0x10,0x0a,0x43,0x51,0x28,0x0e,0x95,0xa1,0x0a,0xa4,0x43,0x1d,0x51,
-0x57,0xd4,0x83,0x0c,0x68,0x00,0x8d,0xa0,0xb1,0xde,0x27,0x34,0x87,0x96,0xd0,0xae,
-0xa0,0xfb,0x8e,0xe1,0x22,0xb8,0x18,0x2e,0x81,0x4b,0xa1,0x0b,0x74,0x85,0x6e,0xd0,
-0x1d,0x7a,0xc2,0x00,0x18,0x29,0x46,0x89,0xd1,0x30,0x06,0xc6,0xc2,0xed,0x70,0x27,
-0x4c,0x80,0xbb,0x61,0x2a,0x3c,0x0b,0x73,0x60,0x2e,0x2c,0x80,0x57,0xc5,0x42,0xb1,
-0x48,0x2c,0x16,0xe6,0x1d,0xc7,0xeb,0xb0,0x5c,0xac,0xd0,0xfb,0x8d,0x55,0x7a,0xbf,
-0xf1,0x16,0xac,0xd1,0xfb,0x0e,0xf3,0xee,0x23,0x07,0x3e,0x81,0x2d,0xf0,0x29,0x6c,
-0x85,0x6d,0xb0,0x03,0xf6,0xc2,0x7e,0xf8,0x1a,0x0e,0x08,0xa7,0x10,0x65,0x0a,0x41,
-0x88,0x80,0x48,0x28,0x08,0x85,0xa1,0x28,0x14,0x87,0x5a,0x50,0x1b,0xea,0x40,0x5d,
-0x61,0xde,0xa3,0x64,0x40,0x03,0x68,0x04,0x8d,0xa1,0xa9,0xde,0xb5,0x98,0xf7,0x2c,
-0x2d,0xc5,0xf9,0xe2,0x42,0x68,0xaf,0xf7,0x30,0x86,0xce,0xd0,0x15,0xba,0x41,0x77,
-0xe8,0x09,0x03,0xe0,0x1a,0xb8,0x01,0x46,0x89,0xd1,0x30,0x06,0xc6,0xc2,0x7d,0xf0,
-0x20,0xcc,0x82,0x39,0xf0,0x0a,0x2c,0x14,0x4b,0x60,0xb9,0xde,0xdf,0xac,0xd2,0x7b,
-0x9d,0x77,0x61,0x1d,0xbc,0x07,0x1f,0x88,0x8d,0x7a,0xd7,0xb3,0x03,0xf6,0xc2,0xd7,
-0x70,0xc0,0x94,0x41,0x61,0xda,0x25,0x24,0x8a,0x24,0x48,0x86,0x14,0xa8,0x05,0x19,
-0x90,0x05,0x8d,0x45,0x13,0x38,0x1f,0x5a,0x43,0x47,0x18,0x05,0xa3,0xe1,0x46,0x71,
-0x13,0xdc,0x0a,0xb7,0xc3,0x13,0xf0,0x94,0x78,0x06,0x66,0xc2,0x2c,0x31,0x1b,0xe6,
-0xc0,0x8b,0xf0,0x2a,0x2c,0x14,0x4b,0xe0,0x75,0x58,0x2e,0x56,0xc2,0xdb,0xb0,0x16,
-0x3e,0x84,0x1c,0xd8,0x0c,0x4e,0x11,0x97,0xd3,0xe0,0x74,0x28,0x07,0xe7,0x42,0xaa,
-0xa8,0x21,0xd2,0x45,0x3d,0xa8,0x0f,0x19,0xd0,0x04,0x9a,0x41,0x5f,0x18,0x08,0xd7,
-0xc3,0x0d,0x62,0x24,0xdc,0x08,0x37,0xc1,0xcd,0x30,0x0e,0x6e,0x87,0x3b,0xe0,0x7e,
-0x98,0x04,0xaf,0xc2,0x72,0xe1,0x14,0xa5,0xcd,0x41,0x55,0xa8,0x06,0x71,0x90,0x00,
-0x89,0x22,0x09,0x6a,0x40,0x4d,0x91,0x0e,0xb5,0xa0,0x36,0xd4,0x81,0xba,0x50,0x0f,
-0xea,0x8b,0x0c,0x68,0x06,0xad,0xa1,0x1d,0xb4,0x87,0x0e,0x70,0x11,0x74,0x84,0x8b,
-0xe1,0x52,0xb8,0x0c,0xba,0x40,0x57,0xd1,0x0d,0x2e,0x87,0x1e,0xd0,0x13,0x7a,0x41,
-0x3f,0xe8,0x0f,0xd9,0x30,0x10,0x86,0xc0,0x55,0x30,0x0a,0x46,0x8b,0x31,0x70,0x23,
-0x8c,0x85,0x9b,0xe0,0x66,0xb8,0x1d,0xee,0x10,0x77,0x8a,0xf1,0x62,0x02,0x4c,0x82,
-0x07,0xe1,0x61,0x78,0x44,0x4c,0x86,0x37,0x60,0x85,0x58,0x23,0xd6,0xc2,0x21,0x38,
-0x2c,0x7e,0x82,0x5f,0xc0,0x29,0x46,0xbb,0x29,0x4e,0xbb,0x81,0x96,0xd0,0x1a,0xda,
-0xc3,0x45,0xe2,0x62,0xb8,0x14,0xba,0xc0,0x38,0xb8,0x15,0xee,0x80,0x09,0x30,0x13,
-0x66,0xc3,0x5c,0x98,0x0f,0x8b,0x60,0x89,0x58,0x06,0x6f,0xc0,0x4a,0xf8,0x00,0x36,
-0x42,0xd1,0x12,0xb4,0x67,0x28,0x05,0xa7,0xc1,0xc5,0x70,0x29,0x74,0x86,0xde,0x30,
-0x10,0x46,0xc2,0x78,0x98,0x0c,0xdf,0xc2,0x0f,0xf0,0x13,0x04,0x4a,0x52,0x4f,0x4e,
-0xa1,0x8d,0xc2,0x0d,0x30,0x0a,0x1e,0x84,0xc9,0xb0,0x0b,0xbe,0x82,0x7d,0xb0,0x1f,
-0x7e,0x00,0xe7,0x54,0xb2,0x06,0xc5,0xa1,0x24,0x94,0x12,0x65,0x21,0x11,0x92,0x20,
-0x19,0x52,0x44,0x06,0xb4,0x81,0x0b,0xa0,0x2d,0x74,0x81,0xbe,0xd0,0x1f,0xb2,0x61,
-0x10,0x0c,0x86,0x91,0x30,0x07,0x5e,0x84,0xb9,0xf0,0x92,0x98,0x07,0x0b,0x61,0x11,
-0xbc,0x01,0xcb,0xc5,0x0a,0x58,0x09,0x6f,0xc2,0x7a,0xd8,0x20,0x72,0xc4,0xc7,0x62,
-0x0b,0x7c,0x01,0x05,0x4e,0xa3,0x4b,0x84,0x22,0xa2,0x28,0x9c,0x0e,0xe5,0x20,0x13,
-0x1a,0x8a,0x46,0x30,0x1c,0x46,0xc2,0x8d,0x30,0x16,0x6e,0x82,0x9b,0x61,0x2a,0x4c,
-0x13,0xcf,0x8a,0x99,0xf0,0x2d,0x38,0xa7,0x3b,0x4e,0x19,0x28,0x07,0x15,0x20,0x16,
-0x2a,0x42,0x25,0xa8,0x0c,0xe7,0x42,0x55,0x48,0x80,0x44,0x48,0x12,0xc9,0x50,0x13,
-0xd2,0xa1,0x36,0x34,0x86,0x56,0xd0,0x1a,0xfa,0x41,0x36,0x0c,0x81,0x91,0x30,0x1d,
-0x66,0xc2,0x9b,0xb0,0x16,0x3e,0x84,0x8f,0x84,0x73,0x06,0xcf,0xf6,0x70,0x2a,0x9c,
-0x06,0xa7,0xc3,0x19,0x50,0x5a,0x94,0x83,0x0b,0xa1,0x9d,0x68,0x2f,0x3a,0x88,0x8b,
-0xe0,0x32,0xe8,0x22,0xba,0x8a,0x6e,0xa2,0x3b,0x5c,0x0e,0x3d,0xa0,0x2f,0xf4,0x83,
-0x41,0x30,0x18,0x46,0xc0,0x0d,0x62,0x24,0xdc,0x02,0x13,0x60,0x12,0x3c,0x23,0x66,
-0xc2,0x42,0x58,0x0c,0x1f,0xc3,0x16,0xd8,0x0d,0x4e,0x69,0xee,0x4f,0xe6,0xbd,0xb9,
-0x08,0x41,0x32,0xa4,0x88,0x54,0x91,0x06,0xb5,0xf4,0x0e,0xde,0x50,0x47,0xd4,0xd5,
-0xfb,0xf7,0x4c,0x61,0xde,0xc1,0x37,0x82,0x2c,0x38,0x0f,0x5a,0x43,0x47,0xe8,0x03,
-0x83,0x61,0x24,0x8c,0x82,0xd1,0x62,0x0c,0x4c,0x86,0x29,0xe2,0x71,0x78,0x0a,0x9e,
-0x86,0x67,0x60,0x2a,0x4c,0x83,0x67,0xc5,0x74,0x78,0x1e,0x5e,0x80,0x19,0x30,0x13,
-0x16,0xc0,0xcb,0xf0,0x19,0xec,0x10,0x9f,0x8b,0x9d,0xf0,0x05,0xec,0x82,0x2f,0x61,
-0x8f,0xf8,0x4a,0xec,0x85,0xfd,0xf0,0x35,0x1c,0x00,0xe7,0x4c,0xea,0x0e,0x9c,0x0d,
-0x55,0xa1,0x1a,0x24,0x43,0x0a,0xa4,0x42,0x1a,0xd4,0x80,0x0c,0x68,0x06,0x2d,0xa1,
-0x15,0xb4,0x86,0x8e,0x70,0x31,0x0c,0x83,0xe1,0x70,0x1d,0x8c,0x84,0x5b,0x61,0x02,
-0xbc,0x0c,0x0b,0x61,0x31,0xac,0x85,0x75,0xf0,0x1e,0x6c,0x81,0x4f,0xc5,0x56,0xd8,
-0x09,0x5f,0xc0,0x97,0xb0,0x47,0x7c,0x05,0x07,0xe0,0x1b,0xf1,0x2d,0x7c,0x07,0xdf,
-0x8b,0x1f,0xe0,0x20,0x1c,0x12,0xce,0x59,0xa4,0x1f,0xaa,0xc1,0x95,0xd0,0x07,0x86,
-0xc1,0x70,0x71,0x35,0x3c,0x08,0x0f,0xc1,0x62,0x58,0x02,0xbf,0x9c,0xe5,0xce,0x01,
-0x37,0xef,0xf5,0xcd,0x18,0xb8,0x79,0x7f,0x6f,0xc6,0x66,0xcd,0x7b,0x66,0x33,0x26,
-0x6d,0xde,0x27,0x9b,0x31,0x4f,0xf3,0x9e,0xb8,0xa3,0xe8,0x24,0x2e,0x15,0xe6,0x5d,
-0xf1,0x75,0x65,0xdd,0xb1,0x0f,0x33,0xae,0x6c,0xc6,0x86,0xcd,0x38,0xfb,0x22,0x61,
-0xde,0xad,0x9a,0x71,0x66,0x33,0xc6,0x6b,0xc6,0xcd,0xcd,0x18,0xee,0xfa,0xb2,0xee,
-0x58,0xed,0xa6,0xb2,0xee,0x18,0xab,0x19,0xef,0x36,0xef,0x5e,0xcd,0x38,0xa7,0x19,
-0x2b,0x35,0xe3,0xd4,0x05,0xcb,0xd1,0x7f,0x40,0x7d,0xc8,0x80,0x0b,0xc5,0x40,0x71,
-0x83,0x98,0x00,0x0f,0xc3,0x5a,0xc8,0x81,0x4f,0xc5,0x67,0xb0,0x0f,0x82,0xe5,0x5d,
-0xa2,0x45,0x7e,0x28,0x01,0xa5,0xc4,0x69,0xe2,0x74,0x38,0x0b,0xce,0x16,0x15,0x45,
-0x65,0x51,0x05,0xe2,0x20,0x5e,0x54,0x87,0x14,0x48,0x35,0xef,0x6e,0x21,0x5d,0xd4,
-0x81,0xfa,0x90,0x05,0xcd,0xe0,0x7c,0xd1,0x05,0x46,0xc3,0x18,0xb8,0x11,0xc6,0xc2,
-0x38,0x70,0xaa,0x39,0xce,0xb5,0x30,0x02,0xae,0x83,0xeb,0x61,0x3b,0xec,0x86,0xaf,
-0x60,0x2f,0xec,0x87,0xaf,0xe1,0x00,0x38,0x71,0x8e,0x73,0x0e,0x54,0x12,0x71,0x22,
-0x01,0x7a,0xc1,0x00,0x71,0x83,0x18,0x09,0xf7,0xc1,0x64,0x78,0x1a,0xa6,0xc2,0x0b,
-0x30,0x13,0x5e,0x82,0xf9,0xb0,0x08,0x96,0xc0,0x72,0x58,0x09,0x6f,0xc3,0x5a,0xf8,
-0x00,0x36,0xc2,0x27,0xb0,0x05,0x7e,0x81,0x50,0x82,0x4b,0x94,0x88,0x16,0xe5,0xe1,
-0x5c,0xa8,0x02,0x71,0x10,0x0f,0xd5,0x21,0x11,0x52,0xa1,0x26,0xd4,0x82,0xda,0xa2,
-0x8e,0x68,0x00,0xf7,0xe9,0xfd,0xa0,0x79,0x97,0xf8,0x10,0x3c,0x0c,0x8f,0xe8,0x3d,
-0xe9,0x63,0x62,0x8a,0xde,0x23,0xfe,0x28,0x0e,0xeb,0x7d,0xe2,0x2f,0x22,0x94,0xc8,
-0xf9,0x20,0x11,0xee,0x84,0xc9,0xb0,0x18,0xf6,0xc1,0x2f,0xe0,0xa4,0xe0,0x6e,0x89,
-0x9e,0xcf,0x7d,0x74,0x32,0xd7,0x5e,0x9c,0x02,0xb7,0x3f,0x49,0x7e,0xe1,0x7b,0xf8,
-0x01,0x7e,0x02,0xe7,0x29,0xee,0x61,0x4f,0x53,0x0f,0x45,0x51,0x28,0x0b,0xe5,0xe0,
-0x5c,0xa8,0x02,0x55,0x21,0x03,0xfa,0x41,0x7f,0x31,0x40,0x0c,0x81,0xeb,0xe0,0x06,
-0x31,0x12,0x1e,0x82,0x87,0xe1,0x11,0x78,0x14,0x1e,0x83,0xc9,0xf0,0x19,0xec,0x80,
-0xbd,0xb0,0x0f,0xf6,0xc3,0xa9,0xcf,0x70,0x3e,0xa8,0x00,0x03,0x20,0x5b,0x0c,0x84,
-0x9b,0x61,0x9c,0xb8,0x0d,0xee,0x84,0xf1,0x62,0x02,0xe4,0xc0,0x7e,0xf8,0x06,0xbe,
-0x85,0xef,0xe0,0x7b,0xf1,0x03,0x1c,0x84,0x43,0xe2,0x47,0x08,0x4c,0xa5,0x8d,0x88,
-0x08,0x08,0x41,0x94,0x88,0x86,0xfc,0x50,0x40,0x14,0x84,0x0a,0x10,0x0b,0x67,0xc3,
-0x39,0x50,0x11,0x2a,0x89,0x6a,0x22,0x03,0x06,0xc3,0x48,0x18,0x05,0xa3,0x61,0x0e,
-0xbc,0x08,0xaf,0xc1,0xeb,0xf0,0x06,0xac,0x85,0x0f,0x61,0x0b,0xec,0x87,0xaf,0xe1,
-0x7b,0xf8,0x51,0xfc,0x04,0x3f,0xc3,0x2f,0xc2,0x99,0xe6,0x38,0x31,0x90,0x1f,0xce,
-0x81,0x8a,0x10,0x07,0x09,0xd0,0x18,0x9a,0x40,0x1b,0xb8,0x00,0xda,0x42,0x17,0x18,
-0x01,0x23,0x61,0x34,0x8c,0x11,0x37,0xc2,0x6c,0x98,0x23,0x5e,0x84,0xb9,0xf0,0x12,
-0x2c,0x80,0x97,0xe1,0x15,0x78,0x15,0x16,0xc2,0x22,0x58,0x02,0xef,0x88,0xb5,0xf0,
-0x21,0x6c,0x81,0xed,0xf0,0x99,0xd8,0x21,0x3e,0x87,0xbd,0xb0,0x0f,0x0e,0xc2,0x21,
-0xf8,0x79,0x9a,0xfb,0xd2,0xb9,0x32,0x9c,0x0b,0xf1,0x50,0x1d,0x12,0x20,0x11,0x92,
-0x20,0x19,0x52,0x20,0x15,0xd2,0x20,0x03,0x32,0xa1,0xa1,0x68,0x04,0x2d,0xe0,0x3c,
-0xd1,0x52,0xb4,0x86,0x8e,0xd0,0x05,0x06,0x40,0xb6,0x18,0x08,0x43,0xe1,0x1a,0x71,
-0xad,0x18,0x21,0xae,0x13,0xd7,0xc3,0x0c,0x98,0x29,0x66,0x89,0xd9,0xf0,0x22,0xcc,
-0x85,0x97,0x60,0x1e,0xcc,0x87,0x05,0xb0,0x10,0x16,0xc1,0x62,0x58,0x22,0x96,0x8a,
-0x65,0x62,0x13,0xe4,0xc0,0xc7,0x62,0x0b,0xec,0x82,0xdd,0xe2,0x4b,0xd8,0x03,0x5f,
-0xc1,0x5e,0xf8,0x5a,0x1c,0x80,0x6f,0xe0,0x5b,0xf1,0x9d,0x08,0x4c,0xa7,0x5e,0x42,
-0x0c,0x14,0x86,0x62,0x70,0x0a,0x94,0x83,0x8a,0x50,0x19,0xe2,0x21,0x01,0x2e,0x86,
-0x4b,0xa0,0x33,0x74,0x81,0x2b,0xa0,0xb7,0xc8,0x86,0xc5,0xb0,0x04,0xb6,0xc2,0x36,
-0xd8,0x0e,0x9f,0x89,0x1d,0xf0,0x39,0xec,0x14,0x5f,0xc0,0x2e,0xf8,0x52,0xec,0x11,
-0xfb,0xe0,0x20,0x38,0xcf,0xf1,0xfb,0x74,0x03,0x65,0x07,0xcb,0x61,0x35,0xfc,0x08,
-0x66,0x52,0x6e,0xbf,0x43,0x9c,0x0f,0x3e,0x34,0x13,0x73,0x7f,0x24,0xfd,0x50,0x02,
-0x4e,0x85,0xb3,0x44,0x19,0x51,0x16,0x2a,0x43,0x15,0x48,0x83,0x9a,0x50,0x07,0xea,
-0x89,0x0c,0x68,0x00,0x0d,0xa1,0x11,0x34,0x86,0x59,0xb0,0x1e,0xea,0xfe,0x44,0x3d,
-0x80,0xf1,0x70,0x37,0xac,0x80,0x7d,0xf0,0xa3,0x99,0x20,0xfb,0x33,0xcf,0xe1,0x50,
-0x0e,0xaa,0x43,0x32,0xa4,0x40,0x4b,0x68,0x05,0xd9,0x30,0x04,0x86,0xc2,0x61,0x28,
-0xfa,0x0b,0xf7,0x44,0x28,0x0f,0xb5,0xa0,0xbe,0x68,0x00,0x17,0x43,0x0f,0xd1,0x13,
-0x06,0x40,0xb6,0x18,0x08,0x8f,0xc0,0xa3,0xf0,0x18,0x4c,0x86,0x45,0xb0,0x0c,0x56,
-0xc0,0x2a,0x78,0x07,0xd6,0xc1,0x06,0xf8,0x08,0x72,0xcc,0xc4,0x5c,0x27,0xe0,0x14,
-0x80,0x42,0x50,0x11,0x2a,0x43,0x2d,0xa8,0x03,0x75,0xa1,0x3e,0xb4,0x84,0xd6,0x70,
-0x29,0x8c,0x84,0x43,0x90,0x11,0x08,0x38,0x43,0xe0,0x27,0x31,0x32,0x18,0x70,0x1e,
-0x86,0xc9,0xb0,0x16,0xb6,0x08,0xf3,0xb1,0x45,0x59,0x88,0x83,0x0c,0x68,0x20,0x32,
-0xa1,0x19,0x34,0x17,0xad,0xe1,0x2a,0x18,0x0a,0xd7,0xc0,0x48,0x78,0x04,0x26,0xc3,
-0x6b,0xb0,0x12,0xde,0x81,0x77,0xe1,0x7d,0xf3,0x01,0x47,0x64,0xc0,0x69,0x05,0xad,
-0xe1,0x11,0x98,0x0c,0xd3,0x60,0x26,0xac,0x87,0x8d,0xf0,0xa3,0xf9,0xc0,0x2e,0x14,
-0x70,0x2a,0x41,0x02,0x74,0x87,0x6c,0xb8,0x06,0x46,0xc0,0xad,0x70,0x3b,0xdc,0x0d,
-0xf7,0xc2,0x44,0xb8,0x1f,0xa6,0xc0,0x13,0x30,0x0b,0xe6,0xc0,0x02,0x78,0x05,0x5e,
-0x85,0x25,0x70,0xc0,0x7c,0xf0,0x11,0x15,0x70,0xd2,0xa2,0xc9,0x13,0xb4,0x83,0x2e,
-0xd0,0x0b,0x46,0xc2,0x58,0xb8,0x19,0x66,0xc2,0x6c,0x78,0xd9,0x7c,0x00,0x92,0x2f,
-0xe0,0x84,0x20,0x9f,0xc8,0x0f,0xa9,0x50,0x03,0x6a,0x42,0x1d,0x51,0x1f,0xda,0x41,
-0x17,0x18,0x0a,0x23,0xe1,0x51,0xd8,0x02,0x5f,0xc3,0x37,0xf0,0xad,0xf9,0x20,0x30,
-0x26,0xe0,0x94,0x82,0x72,0x90,0x0e,0x19,0xd0,0x11,0x46,0xc2,0x3c,0x58,0x04,0x8b,
-0xcd,0x07,0x27,0xf9,0x5d,0x02,0x10,0x01,0x21,0x88,0x82,0x82,0x50,0x04,0x8a,0x42,
-0x09,0x28,0x05,0xa7,0xc2,0xe9,0x90,0x0a,0x35,0xa1,0x16,0xd4,0x17,0x5d,0x60,0x04,
-0x8c,0x84,0x87,0x61,0x09,0xac,0x80,0x37,0x61,0x3b,0x7c,0x06,0x3b,0xcc,0xb9,0x0a,
-0x70,0x3c,0x64,0x40,0x3b,0xe8,0x02,0x83,0x60,0x24,0xdc,0x95,0xfb,0xe1,0x4b,0xc0,
-0x69,0x0a,0x23,0x61,0x36,0x2c,0x81,0xaf,0xcd,0x07,0x8d,0x85,0x02,0x4e,0x2c,0x9c,
-0x0d,0x95,0x20,0x01,0xd2,0x21,0x03,0x9a,0x41,0x73,0x68,0x09,0xe7,0x8b,0x56,0xa2,
-0x35,0xf4,0x80,0xde,0xd0,0x0f,0x06,0x88,0x6c,0x18,0x0b,0x23,0x0b,0x53,0x2f,0x60,
-0x3a,0x3c,0x07,0x33,0x61,0x16,0x2c,0x83,0xd7,0xe1,0x0d,0xb1,0x1c,0x56,0xc0,0x21,
-0xf8,0xc5,0x7c,0x48,0x59,0x24,0xe0,0x9c,0x09,0x95,0x44,0x02,0x64,0x41,0x63,0x68,
-0x0d,0xd9,0x30,0x0a,0x46,0xc3,0x58,0x98,0x09,0xaf,0xc3,0x16,0xf8,0xce,0x7c,0xc0,
-0x53,0xd4,0x25,0x20,0x82,0x22,0x02,0x6a,0x40,0x4d,0x68,0x0c,0x3d,0x61,0x00,0x64,
-0x8b,0x81,0x30,0x08,0x06,0xc3,0x10,0xb8,0x4a,0xdc,0x00,0xa3,0x60,0xb4,0x18,0x03,
-0x33,0x60,0x26,0xcc,0x86,0x39,0xf0,0x12,0xcc,0x83,0xf9,0xb0,0x40,0x63,0xbc,0xcb,
-0xc4,0x5a,0xd8,0x09,0xfb,0xe0,0xa0,0x49,0x5b,0x31,0xd2,0x03,0x11,0x50,0x51,0xe3,
-0xbf,0x55,0xa1,0x9a,0x88,0x83,0x14,0x48,0x83,0xfa,0xd0,0x48,0x64,0x41,0x63,0x68,
-0x22,0x5a,0xc3,0x20,0x18,0x2c,0x86,0x8a,0x91,0x30,0x0a,0x46,0x8b,0x31,0x30,0x1b,
-0xe6,0xc0,0x5c,0x78,0x09,0x16,0xc1,0x62,0x58,0x02,0x4b,0xe1,0x75,0x78,0x13,0xde,
-0x82,0xb7,0xc5,0x3b,0x62,0x2d,0x7c,0x08,0x1f,0x89,0x1c,0x61,0x3e,0x56,0x2d,0x06,
-0x25,0xa0,0x2a,0x54,0x83,0x78,0xa8,0x0e,0x89,0x90,0x04,0xc9,0x90,0x22,0x52,0x45,
-0x1a,0xd4,0x80,0x7a,0xa2,0x3e,0x64,0x40,0x03,0x31,0x12,0x6e,0x82,0x71,0xe2,0x56,
-0xb8,0x03,0xc6,0xc3,0x23,0xf0,0x18,0x4c,0x85,0x99,0xf0,0x09,0x6c,0x16,0x5b,0x60,
-0x2b,0x6c,0x83,0x5d,0xb0,0x0f,0x0e,0x9a,0x0f,0x6a,0x4b,0x50,0x0f,0x20,0x08,0x11,
-0x10,0x82,0x82,0x50,0x04,0x8a,0x42,0x09,0xa8,0x0c,0x55,0x20,0x01,0x92,0x20,0x19,
-0x52,0x21,0x1d,0x6a,0x43,0x1d,0xa8,0x2b,0xcc,0x38,0x7d,0x7d,0xc8,0x10,0x0d,0xa0,
-0x11,0x34,0x81,0xa6,0x1a,0xc3,0x6f,0x09,0xad,0x45,0x07,0x71,0x29,0x74,0x85,0x6e,
-0xd0,0x1d,0x7a,0x42,0x5f,0xc8,0x86,0x21,0x30,0x12,0x6e,0x81,0xdb,0xc4,0x9d,0x62,
-0x02,0xcc,0x85,0x79,0x62,0x3e,0xbc,0x0c,0xaf,0xc0,0x12,0x58,0x26,0xde,0x10,0x2b,
-0x60,0x15,0xbc,0x05,0x6b,0xe0,0x6d,0xf1,0x8e,0x58,0x2b,0xde,0x15,0xeb,0xc4,0x7a,
-0xf1,0x29,0x6c,0x35,0x1f,0xb0,0x95,0xe4,0xba,0x41,0x2a,0xd4,0x80,0x9a,0x50,0x1f,
-0x32,0xa0,0x01,0x64,0x42,0x23,0xc8,0x12,0x8d,0x45,0x13,0x68,0x0e,0xad,0xa1,0x23,
-0x5c,0x26,0x3a,0x43,0x57,0x18,0x69,0xe6,0x30,0x94,0x74,0xe7,0x37,0xcc,0x86,0x39,
-0x30,0x1f,0x16,0x88,0x97,0xad,0x39,0x0f,0x66,0xbe,0xc3,0x62,0x58,0x02,0x4b,0xc5,
-0x32,0x78,0x0d,0x5e,0x87,0x37,0x60,0x85,0x58,0x0b,0x1f,0x9a,0xf8,0x4b,0x05,0x9c,
-0x17,0x34,0x3f,0x62,0x16,0xcc,0x86,0xb9,0x30,0x5f,0xf3,0x25,0x5e,0x85,0x85,0xb0,
-0x48,0x2c,0x86,0x25,0xb0,0x11,0x36,0x41,0x0e,0x7c,0x6c,0x3e,0xdc,0x3b,0x85,0xba,
-0x0c,0x09,0x90,0x04,0xc9,0x50,0x0b,0x6a,0x43,0x1d,0xa8,0x2b,0xea,0x89,0xfa,0x90,
-0x01,0x8d,0x44,0x6b,0xe8,0x08,0x23,0xe1,0x59,0x98,0x2e,0x9e,0x13,0xcf,0x8b,0x17,
-0x60,0x06,0xcc,0x84,0xb9,0xf0,0x92,0x98,0x27,0xe6,0x8b,0x25,0xf0,0x26,0xac,0x85,
-0x6d,0xe6,0xc3,0xf0,0x53,0x03,0xce,0x19,0x70,0x96,0x28,0x23,0xca,0x8a,0x72,0x50,
-0x1e,0x2a,0xc0,0x39,0x50,0x51,0x54,0x82,0xaa,0x90,0x00,0xe9,0x90,0x01,0x8d,0xcd,
-0x07,0x8a,0xa7,0xe1,0x0f,0xd5,0x20,0x1e,0xaa,0x43,0x0d,0xa8,0x29,0xd2,0xa1,0x16,
-0x4c,0x86,0xcd,0xb0,0x05,0xbe,0x80,0x5f,0x20,0xea,0xf4,0x80,0x13,0x23,0x0a,0x42,
-0x09,0x28,0x05,0xa7,0xc0,0x69,0x50,0xfd,0x74,0x77,0x9e,0x4a,0x2a,0xd4,0xd0,0x7c,
-0x95,0xda,0x50,0x07,0xea,0x8a,0x7a,0xa2,0xbe,0xc8,0x10,0x0d,0x44,0xa6,0x68,0x28,
-0x5a,0x43,0x47,0x98,0x0c,0xcf,0xc0,0xb3,0xb0,0x16,0xde,0x85,0xf5,0xf0,0x1e,0x6c,
-0x80,0x8f,0x60,0x13,0xe4,0xc0,0x66,0xd8,0x22,0x3e,0x15,0xdb,0xc4,0x76,0x91,0xfb,
-0x71,0x3d,0x04,0x20,0x3f,0x14,0x80,0x24,0x48,0x86,0x9a,0x90,0x2e,0x6a,0x89,0xda,
-0x50,0x0f,0x9a,0x88,0xd6,0xa2,0x0d,0xb4,0x87,0x0e,0x70,0x11,0x74,0x84,0x4e,0x70,
-0x09,0xdc,0x02,0xb7,0xc2,0x7d,0x70,0xbf,0x78,0x00,0x26,0xc1,0x23,0x62,0x26,0xfc,
-0x00,0x5d,0x4a,0xbb,0x74,0x15,0xdd,0xe0,0x72,0xe8,0x21,0x7a,0x8a,0x5e,0x62,0x09,
-0x6c,0x81,0x7d,0x70,0xd0,0x7c,0x60,0x7a,0x26,0xcf,0x3d,0x90,0x1f,0xe2,0xa1,0xba,
-0x48,0x80,0x34,0xa8,0x09,0x75,0xa1,0x9e,0xa8,0x2f,0x32,0x44,0x6b,0xe8,0x08,0x83,
-0x60,0x3c,0xdc,0x0d,0xcf,0xc0,0x34,0xf1,0x2c,0xcc,0x84,0x59,0x62,0x36,0xcc,0x81,
-0x17,0xc5,0x5c,0x78,0xc9,0x2c,0x30,0x70,0x16,0xf5,0x04,0xf2,0x41,0x0c,0x14,0x80,
-0x04,0x48,0x84,0x34,0xa8,0x25,0xea,0x40,0x5d,0xa8,0x0f,0x59,0xd0,0x58,0x34,0x11,
-0xad,0xa1,0x23,0x74,0x81,0x1e,0xd0,0x0b,0xae,0x80,0x2b,0xe1,0x16,0xb8,0x15,0xee,
-0x84,0x09,0x70,0x17,0xdc,0x03,0xf7,0xc2,0x44,0x71,0x9f,0xb8,0x5f,0x3c,0x20,0x26,
-0xc3,0x34,0x98,0x09,0x1b,0xe1,0x43,0xf1,0x11,0x6c,0x82,0x2d,0xf0,0x85,0xd1,0x32,
-0x3c,0x37,0xc1,0x01,0xf8,0x06,0xbe,0x85,0xef,0xcc,0x82,0x09,0x65,0xa9,0x33,0x10,
-0x14,0x11,0x22,0x12,0x8a,0x42,0x71,0x48,0x86,0x14,0x48,0x85,0x34,0xa8,0x05,0xf5,
-0xa0,0x3e,0x64,0x88,0x06,0x22,0x53,0xb4,0x86,0x8e,0x70,0xb1,0x98,0x29,0xcc,0xe2,
-0x0c,0x93,0xcc,0x87,0xbc,0x67,0x07,0x9c,0xfe,0x30,0x12,0x1a,0x9e,0x43,0xbe,0xab,
-0x73,0xed,0x73,0x3f,0x9c,0xe5,0x3a,0xa7,0x10,0xa7,0x68,0x00,0x8d,0xa1,0x09,0xb4,
-0x83,0x2e,0x70,0xc8,0x2c,0x4c,0xd0,0x08,0x7f,0xf3,0xa1,0x6a,0x57,0xfa,0x11,0x28,
-0x03,0xe7,0x42,0x15,0xa8,0x06,0x71,0x50,0x1d,0x12,0x20,0xdd,0x7c,0xd0,0x79,0x05,
-0x75,0xe6,0x4a,0xe2,0x84,0xcb,0xa0,0x0b,0xf4,0x86,0x6c,0x58,0x04,0x4b,0xe0,0x4d,
-0x58,0x0b,0x7b,0x60,0x1f,0x7c,0x63,0x3e,0xb0,0xef,0x43,0x3c,0x90,0x00,0x69,0x90,
-0x01,0x0d,0xa1,0x35,0x74,0x84,0xee,0x30,0x0c,0xae,0x83,0xf1,0x66,0x7f,0x3f,0xf2,
-0x0f,0x0d,0xe1,0x4a,0xe8,0x03,0x7d,0x21,0x1b,0xae,0x86,0x8c,0xfe,0x3c,0x9b,0xc1,
-0x64,0x98,0x0f,0xaf,0xc0,0x7a,0xf3,0xa1,0xfe,0x00,0xee,0x3f,0xd0,0x4a,0xb4,0x16,
-0x6d,0xe0,0x66,0x18,0x0f,0x77,0xc3,0x3d,0xf0,0x18,0x6c,0x81,0x4f,0x61,0x9b,0xd8,
-0x2e,0xf6,0xc1,0x7e,0xf8,0x1a,0x0e,0xc0,0x37,0xf0,0x9d,0xf9,0x60,0x34,0x9b,0xdf,
-0x41,0xb7,0xd3,0xef,0x41,0x99,0x3b,0x28,0x77,0xf8,0x1a,0xf6,0xcd,0x20,0x1c,0x7c,
-0x0b,0x3f,0xc2,0x4f,0xf0,0xb3,0x59,0x10,0x60,0x26,0x7d,0xf0,0x2c,0xfa,0x10,0xd1,
-0x1a,0x2e,0x80,0x76,0xe2,0x72,0xe8,0x05,0xd9,0xf0,0xe3,0x6c,0x77,0xa2,0xdd,0x95,
-0x90,0x0d,0x23,0x60,0x24,0x8c,0x83,0x09,0x30,0x09,0x1e,0x81,0x47,0x61,0xdf,0x5b,
-0xb4,0x6f,0x30,0x8b,0x61,0xc4,0x41,0x02,0x34,0x86,0x1e,0xef,0xd2,0x1f,0x40,0x2f,
-0xe8,0x0d,0xfd,0x60,0x10,0x5c,0x0b,0xa3,0x61,0x2c,0xdc,0x06,0xcf,0xc2,0xf3,0x90,
-0xb9,0x8e,0xfb,0x95,0xf9,0x80,0xf8,0xbd,0x80,0x73,0x21,0xb4,0x87,0x87,0xe1,0x51,
-0x78,0x0c,0x1e,0x17,0x4f,0xc1,0xd3,0x30,0x0d,0x9e,0x83,0x17,0x60,0x01,0xbc,0x22,
-0x16,0xc2,0x6b,0xf0,0x06,0x84,0xde,0x0f,0x38,0xd1,0x90,0x1f,0x0a,0x41,0x49,0x38,
-0x05,0xce,0x84,0x32,0x90,0x0e,0xb5,0xa1,0x1e,0x64,0x40,0x23,0x68,0x2c,0x9a,0x43,
-0x6b,0xb8,0x00,0x9e,0xfa,0x80,0x67,0x3d,0x58,0x02,0xcb,0xe0,0x23,0xc8,0x81,0x43,
-0x70,0x18,0x4a,0x6e,0x20,0x5e,0x48,0x81,0x34,0x38,0x1f,0x5a,0x43,0x7f,0xc8,0x86,
-0x71,0x70,0x2b,0x4c,0x85,0x67,0x61,0x19,0xbc,0x0e,0xab,0xe1,0x6d,0xf8,0xc5,0x7c,
-0xf8,0xf9,0x11,0xc7,0x42,0x6d,0xe8,0x0b,0x57,0x89,0x1b,0xc5,0x43,0xf0,0x18,0x4c,
-0x81,0x19,0xe6,0x03,0xca,0xcd,0xf4,0x5f,0x90,0x5f,0x14,0x80,0x32,0x70,0x0e,0x54,
-0x31,0x1f,0x84,0x6e,0xa1,0x9f,0x83,0x7c,0x70,0x1a,0x94,0x86,0xf2,0x10,0x0b,0x67,
-0x43,0x45,0xa8,0x02,0x09,0xd0,0x0f,0xc6,0x0b,0xf3,0x31,0x60,0x35,0x48,0x80,0x34,
-0xa8,0x01,0x75,0x21,0x03,0x9a,0xc1,0xf9,0x62,0xc2,0x56,0xae,0x1b,0xbc,0x20,0x96,
-0xc0,0x6e,0xf8,0x12,0xf6,0xc2,0x3e,0x38,0x08,0x6b,0xb7,0xf3,0x1c,0x0c,0xbb,0xc5,
-0x97,0xb0,0x17,0xf6,0xc1,0x41,0x58,0xfb,0x19,0xed,0x13,0xbe,0x82,0xbd,0xb0,0x4f,
-0xec,0x87,0x43,0xb0,0x64,0x07,0xcf,0xd7,0xb0,0x05,0xb6,0xc2,0x36,0xb1,0x1d,0x3e,
-0x83,0x1d,0xe2,0x73,0xd8,0x03,0x5f,0xc1,0x5e,0xd8,0x07,0xdf,0xc0,0xb7,0xe2,0x67,
-0xf1,0x8b,0xd8,0xf2,0x39,0xc7,0xc1,0x4e,0xd8,0x0d,0x7b,0xe0,0x2b,0xd8,0x07,0x3f,
-0x9b,0x05,0x0a,0x76,0x72,0x8d,0x60,0x2d,0x7c,0x60,0x16,0x6a,0xf9,0x82,0x3e,0x00,
-0x1a,0x41,0x73,0x68,0x21,0x5a,0x43,0x47,0xf3,0xe1,0xff,0x57,0xf4,0xb3,0x10,0x82,
-0xb2,0x50,0x1e,0x2a,0xc0,0xd9,0xa2,0x92,0x38,0x17,0x92,0x20,0x05,0x6a,0x40,0xba,
-0xa8,0x2d,0x32,0x45,0x13,0xd1,0x4c,0xb4,0x10,0x2d,0xa1,0x15,0xb4,0x81,0x0b,0xe0,
-0x42,0xd1,0x41,0x74,0x14,0x9d,0xc4,0xa5,0xa2,0xb3,0xe8,0x0a,0xdd,0xe0,0x72,0xd1,
-0x0b,0xae,0x84,0xbe,0x30,0x08,0x86,0xc0,0x30,0xb8,0x1a,0x46,0xc0,0xf5,0x62,0x24,
-0xdc,0x02,0xb7,0xc1,0x43,0x30,0x05,0x9e,0x80,0xa7,0x60,0x1a,0x4c,0x87,0x57,0x60,
-0xdf,0x8f,0x5c,0x57,0xf3,0x21,0xb2,0x13,0x74,0x36,0x3f,0x1d,0x74,0x9c,0x67,0x82,
-0xce,0x59,0xf3,0x83,0x4e,0x39,0x78,0xfe,0xed,0xa0,0x33,0x13,0xb6,0xec,0x0e,0x3a,
-0xfb,0xe0,0x52,0x33,0x01,0xf7,0x07,0xf6,0x1f,0x72,0x27,0xe2,0x36,0x2f,0x11,0xc1,
-0x6f,0x95,0x08,0xe7,0xea,0x94,0x88,0xdc,0x09,0x2d,0x7b,0xc1,0x9b,0x47,0x9c,0xd7,
-0xfc,0xe1,0xff,0xd5,0xbc,0xe1,0xdf,0x3a,0x5f,0xf8,0x44,0xe7,0x09,0x1f,0x6f,0x7e,
-0xb0,0x7f,0xde,0x6f,0x5e,0xf3,0x7d,0xbd,0xf9,0xbd,0xfe,0x79,0xbd,0xde,0x3c,0x5e,
-0x6f,0xde,0x6e,0x5e,0xf3,0x75,0xbd,0x79,0xba,0xde,0xfc,0x5c,0x6f,0x5e,0xae,0x37,
-0x1f,0xd7,0x3f,0x0f,0xd7,0x9b,0x7f,0xeb,0xcd,0xbb,0xf5,0xe6,0xdb,0x7a,0xf3,0x6c,
-0xbd,0xf9,0xb5,0x79,0xcd,0xab,0xf5,0xcf,0xa7,0xf5,0xe6,0xcd,0x7a,0xf3,0x63,0xbd,
-0x79,0xaf,0xde,0x7c,0x57,0xff,0xfc,0xd6,0x93,0x9d,0xcf,0xea,0xcd,0x63,0xf5,0xe6,
-0xa7,0xfa,0xe7,0xa5,0xfa,0xe7,0xa1,0xfe,0xd6,0xf9,0xa6,0xfe,0xf9,0xa3,0xde,0x7c,
-0xd1,0x93,0x9d,0x17,0xea,0xcd,0x07,0xf5,0xcf,0xef,0xf4,0xe6,0x73,0x9e,0xec,0xbc,
-0x4d,0x6f,0xbe,0xa6,0x7f,0x9e,0xa5,0x37,0xaf,0xf2,0x8f,0x9e,0x4f,0xe9,0xcd,0x8f,
-0x3c,0xde,0xbc,0x47,0x6f,0xbe,0x63,0x5e,0xf3,0x18,0xbd,0x79,0x8b,0x27,0x3a,0x4f,
-0xd1,0x9b,0x9f,0xe8,0x9f,0x5f,0xe8,0xcd,0x27,0xcc,0x6b,0xde,0xa0,0x37,0x5f,0xd0,
-0x3f,0x0f,0xd0,0x9b,0xff,0xe7,0xcd,0xf7,0x3b,0xd1,0xf9,0x7d,0xde,0x3c,0x3d,0x6f,
-0x7e,0x9e,0x7f,0x5e,0xde,0xc9,0xce,0xc3,0xf3,0xe6,0xdf,0xe5,0x35,0xef,0xce,0x3f,
-0xcf,0xce,0x3f,0x6f,0xce,0x9b,0x17,0xe7,0xcd,0x7f,0xf3,0xe6,0xaf,0x79,0xf3,0xd6,
-0xbc,0x79,0x6a,0xde,0xfc,0x34,0x6f,0x5e,0x9a,0x37,0x1f,0xcd,0x9b,0x87,0xe6,0xcd,
-0x2f,0xfb,0xbb,0xcd,0x1f,0xfb,0xa3,0xe7,0x8b,0x79,0xf3,0xc3,0xbc,0xf9,0x60,0xfe,
-0x79,0x60,0xde,0xfc,0x2f,0xff,0x3c,0xae,0x93,0x9d,0x9f,0x95,0xd7,0xbc,0xac,0xe3,
-0xcd,0xa7,0xf2,0xe6,0x4f,0x79,0xf3,0xa4,0xbc,0x79,0x4b,0xde,0x7c,0x24,0x6f,0x3e,
-0x91,0x37,0x5f,0xc8,0x9b,0xff,0xe3,0xcd,0xfb,0xf1,0xe6,0xed,0x78,0xf3,0x71,0x4e,
-0x74,0x1e,0x8e,0x37,0xcf,0xc6,0x9b,0x5f,0xe3,0xcd,0xab,0xf9,0xad,0xf3,0x68,0xfe,
-0xaa,0xf3,0x67,0xf2,0x9a,0x27,0xf3,0x77,0x9f,0x0f,0x73,0xb2,0xf3,0x60,0xfe,0xa8,
-0xf9,0x2f,0xc7,0x9b,0xf7,0x72,0xa2,0xf3,0x5c,0x8e,0x37,0xbf,0xe5,0x7f,0x35,0xaf,
-0x25,0xaf,0xf9,0x2c,0x79,0xcd,0x5f,0xf1,0xcf,0x5b,0xf9,0xb3,0xe7,0xab,0x78,0xf3,
-0x54,0xbc,0xf9,0x29,0xde,0xbc,0x14,0x6f,0xde,0x89,0x37,0xdf,0x24,0xaf,0xf9,0x24,
-0xde,0xfc,0x11,0x6f,0xde,0x88,0x37,0x4f,0xc4,0x9b,0x17,0xe2,0xcd,0xf3,0xf0,0xe6,
-0x77,0xf8,0xe7,0x75,0xf8,0xe7,0x73,0x78,0xf3,0x34,0xbc,0xf9,0x19,0xc7,0x9b,0x87,
-0xe1,0xcd,0xb7,0xf0,0xe6,0x59,0x78,0xf3,0x2b,0xbc,0x79,0x15,0xde,0x7c,0x8a,0xe3,
-0xcd,0xa3,0xf0,0xcf,0x97,0xf8,0x6f,0xcd,0x8f,0xf8,0xbd,0xf3,0x1b,0xfe,0x5b,0xf3,
-0x1a,0xfc,0xf3,0x16,0xbc,0xf9,0x0a,0xde,0x3c,0x85,0xbf,0xca,0xfc,0x04,0xff,0xbc,
-0x84,0x93,0x9d,0x8f,0x70,0xb2,0xf3,0x10,0xc2,0xf3,0x0f,0x8e,0x3d,0xff,0x20,0xaf,
-0x79,0x06,0xc7,0x9b,0x57,0xf0,0x7b,0xe7,0x13,0x1c,0x6f,0xde,0x40,0x5e,0xf3,0x05,
-0x8e,0x37,0x4f,0x20,0xaf,0xf9,0x01,0xde,0xbc,0x00,0xff,0x7c,0x00,0x6f,0xdc,0xdf,
-0x1b,0xdf,0xf7,0xc6,0xf5,0xbd,0x71,0x7c,0x6f,0x7c,0xde,0x1b,0x8f,0xf7,0xc6,0xdb,
-0xfd,0xe3,0xec,0xde,0xf8,0xba,0x37,0x9e,0xee,0x8d,0x9b,0x1f,0x6f,0x5c,0xdc,0x1b,
-0xdf,0x3e,0xd9,0x71,0xed,0x93,0x1d,0xa7,0xf6,0xc6,0xa7,0xbd,0x71,0x67,0x6f,0xbc,
-0xf9,0x44,0xc7,0x95,0xbd,0xf1,0x60,0x6f,0x1c,0xd8,0x1b,0xff,0xf5,0xc6,0x73,0xfd,
-0xe3,0xb7,0xfe,0xf1,0x57,0x6f,0xdc,0xd5,0x1b,0x47,0xf5,0xc6,0x4f,0xbd,0xf1,0x50,
-0x6f,0x1c,0xd4,0x1b,0xcf,0xf4,0xc6,0x2f,0xfd,0xe3,0x8f,0xde,0xf8,0xe2,0x89,0x8e,
-0x2b,0x7a,0xe3,0x85,0xde,0x38,0xa1,0x7f,0x3c,0xd0,0x3f,0xce,0xe7,0x8d,0xef,0x79,
-0xe3,0x7a,0xde,0x38,0x9e,0x37,0x6e,0xe7,0x8d,0xcf,0xf9,0xc7,0xe1,0xbc,0x71,0x35,
-0xff,0x78,0x9a,0x37,0x4e,0xe6,0x8d,0x8f,0xe5,0x35,0xce,0xe5,0x8d,0x63,0xe5,0x35,
-0x6e,0xe5,0x8d,0x43,0xe5,0x39,0xfe,0xa4,0x71,0x27,0x6f,0x7c,0xc9,0x3f,0xae,0x74,
-0xb2,0xe3,0x42,0xde,0x78,0x50,0x5e,0xe3,0x40,0xfe,0x71,0x1e,0x6f,0x7c,0xc7,0x1b,
-0xd7,0xf1,0xc6,0x73,0xbc,0x71,0x9c,0x13,0x1d,0xbf,0x39,0xde,0xb8,0x8d,0x37,0x5e,
-0x93,0xd7,0xf8,0xcc,0x5f,0x6d,0x3c,0xe6,0xdf,0x36,0x6e,0x72,0xbc,0xf1,0x0f,0x6f,
-0x5c,0xc3,0x1b,0xcf,0xf0,0xc6,0x31,0xfc,0xe3,0x17,0xde,0xb8,0x85,0x7f,0x9c,0xc2,
-0x1b,0x97,0xf0,0xc6,0x23,0xfc,0xe3,0x10,0xde,0xf8,0x83,0x37,0xee,0xe0,0x8d,0x37,
-0xfc,0xd6,0x71,0x06,0x6f,0x7c,0xc1,0x1b,0x57,0x08,0x8f,0x27,0xb8,0xe3,0x09,0xbf,
-0x7b,0x1c,0xc1,0xac,0x3d,0x0b,0xf9,0xc1,0xfb,0x0c,0xbb,0x10,0x14,0x76,0x5f,0x65,
-0x98,0x25,0x16,0x1d,0x7e,0x9e,0x3b,0xe6,0x27,0x70,0x2c,0x54,0x84,0xaa,0xee,0xcf,
-0x61,0xf3,0x53,0xd7,0x89,0x07,0xb3,0xa6,0x49,0x2d,0xa8,0xad,0x75,0x4d,0x3a,0x69,
-0x3c,0xe2,0x5a,0xb8,0x01,0xc6,0xc2,0x4d,0xc0,0x4f,0x3f,0x67,0x0a,0x3c,0x0e,0x4f,
-0x6b,0x9c,0xc2,0x3c,0xc2,0x3f,0x0f,0x2f,0xc0,0x4c,0x98,0x0d,0x2f,0x6a,0xec,0xe2,
-0x25,0x58,0xa0,0xf1,0x8b,0x57,0x34,0x86,0xb1,0x41,0x63,0x18,0xdf,0x6b,0x0c,0x63,
-0x01,0x59,0x7a,0x05,0x96,0xc1,0x5a,0x58,0xa7,0x31,0x89,0xcf,0x34,0x0e,0xb1,0x57,
-0x6b,0x98,0x64,0x5b,0xe3,0x10,0x66,0xfc,0xe1,0x7a,0x8d,0x3b,0xdc,0x68,0xad,0x53,
-0x32,0xce,0x1a,0x73,0x30,0xe3,0x0d,0xdf,0x69,0xbc,0x61,0x8c,0xc6,0x1b,0x12,0x35,
-0xc6,0x70,0x2b,0xdc,0x01,0xe3,0xb5,0x0e,0xc9,0x22,0xad,0x41,0xb2,0x44,0xeb,0x90,
-0xbc,0xa6,0x75,0x48,0x96,0x5b,0x6b,0x90,0x98,0x71,0x08,0x27,0x8a,0x7f,0x90,0x0f,
-0x62,0xa0,0x00,0x14,0x84,0x42,0x50,0x38,0xca,0x5d,0x9b,0xa4,0x34,0x94,0xd1,0x3a,
-0x24,0x66,0x0d,0x92,0x2b,0xa1,0x0f,0xf4,0xb3,0xd6,0x1f,0x31,0x6b,0x8e,0x7c,0x0c,
-0x9f,0x68,0xdd,0x91,0xcf,0xb4,0xde,0xc8,0x17,0x5a,0x6f,0xe4,0x2b,0xad,0x33,0x62,
-0xc6,0x2c,0x8a,0x58,0xeb,0x89,0x24,0x68,0x9c,0xe2,0x69,0x6b,0xed,0x90,0xdd,0x1a,
-0xa3,0xf8,0xce,0x5a,0x27,0xe4,0xe7,0x68,0x77,0x7d,0x10,0x6f,0x5d,0x10,0x6f,0x3d,
-0x10,0x6f,0x1d,0x90,0x04,0x8d,0x53,0x98,0x35,0x40,0x2e,0xd3,0x58,0x85,0x19,0x97,
-0x78,0x09,0xd6,0xc3,0x56,0xad,0xef,0x11,0x61,0xad,0xe5,0xe1,0xad,0xe1,0xd1,0x40,
-0x6b,0x76,0x78,0x6b,0x75,0xb4,0xd1,0x58,0x85,0x59,0x97,0xe3,0x72,0x6b,0xed,0x8d,
-0xb1,0x1a,0xa3,0xb8,0x47,0x63,0x13,0xde,0x98,0x84,0xb7,0xb6,0xc6,0x52,0xad,0xa5,
-0xb1,0xda,0x5a,0x3f,0xc3,0x5b,0x37,0x63,0xb3,0xd6,0xcb,0x30,0x6b,0x65,0x7c,0x0d,
-0xdf,0xc0,0x8f,0xd6,0x3a,0x19,0x01,0x6b,0x6d,0x8c,0x22,0x1a,0xa3,0xa8,0xa2,0xb1,
-0x89,0x54,0x8d,0x49,0x78,0x6b,0x5f,0x34,0xd0,0x9a,0x17,0x2d,0xac,0x75,0x2e,0xbc,
-0xf5,0x2d,0xb2,0x35,0x4e,0x61,0xd6,0xb3,0x18,0xaa,0x35,0x2d,0xbc,0xb5,0x2c,0xc6,
-0x6b,0xac,0xe2,0x59,0x8d,0x51,0xcc,0xb5,0xd6,0xab,0x58,0xaa,0xf5,0x29,0xbc,0x75,
-0x29,0xd6,0x58,0x63,0x15,0x5b,0xb5,0x06,0xc5,0x7e,0x6b,0xfd,0x09,0x6f,0xdd,0x89,
-0x90,0xc6,0x2d,0x4a,0x68,0xbc,0x22,0x49,0xe3,0x14,0xde,0xba,0x12,0xf5,0xad,0x35,
-0x24,0x9a,0x68,0xed,0x08,0x6f,0xcd,0x08,0x6f,0xad,0x88,0xce,0x5a,0x23,0xa2,0xa7,
-0xb5,0x1e,0xc4,0x58,0x8d,0x5b,0xdc,0xad,0xf1,0x0a,0x6f,0x9c,0xe2,0x09,0x8d,0x4f,
-0xbc,0xa0,0x75,0x1e,0xbc,0xf5,0x1d,0x96,0x6b,0x5d,0x87,0x35,0xd6,0x5a,0x0e,0x66,
-0x1d,0x87,0x03,0x70,0x10,0x0e,0x15,0x38,0xb2,0x96,0x83,0xb7,0x86,0x43,0x61,0x8d,
-0x61,0x54,0xb1,0xd6,0x69,0x68,0xa0,0xf5,0x19,0x9a,0x6b,0x5d,0x86,0x8b,0x34,0x7e,
-0xd1,0x4d,0xeb,0x2f,0x0c,0x83,0xe1,0x70,0x83,0xb5,0xf6,0xc2,0x9d,0x1a,0xc3,0x78,
-0x56,0x63,0x17,0xde,0xda,0x0a,0xcb,0xb5,0x66,0xc2,0x5b,0x5a,0x2b,0xc1,0x1b,0xc3,
-0xd8,0xaa,0xb5,0x11,0xf6,0xab,0x63,0x0b,0x6a,0x0c,0xa3,0xb8,0xd6,0x3c,0xa8,0xab,
-0x35,0x0e,0x1a,0x6b,0x6d,0x83,0x96,0xd6,0x38,0x46,0x37,0xad,0x5b,0xe0,0xad,0x53,
-0x30,0x56,0xe3,0x17,0x73,0xac,0x31,0x0b,0x6f,0x2d,0x82,0x75,0xd6,0xfa,0x03,0x3b,
-0xb4,0xee,0x40,0xc0,0x5a,0x6b,0xc0,0xac,0x33,0x50,0x5f,0xe3,0x19,0x66,0x6d,0x81,
-0x56,0x1a,0xcb,0xf0,0xc6,0x30,0x6e,0xb7,0xc6,0x2d,0xbc,0x75,0x03,0x5e,0xb4,0xc6,
-0x2c,0xbc,0x35,0x02,0xd6,0x6a,0xcc,0xc2,0x5b,0x13,0xe0,0x0c,0xad,0x03,0x90,0xa6,
-0x75,0x00,0x6a,0x6a,0x1d,0x80,0x5a,0x5a,0x0b,0xa0,0x99,0xbe,0xfd,0xf7,0xbe,0xf9,
-0x1f,0xab,0x6f,0xfe,0xc7,0xe9,0x5b,0x7f,0xf3,0x9d,0xff,0x22,0x7d,0xe3,0xbf,0x02,
-0xde,0xd6,0x58,0x47,0x9c,0xf5,0x5d,0xbf,0xf7,0x3d,0x7f,0x6d,0x7d,0xc7,0x5f,0x5f,
-0xdf,0xe9,0x5f,0xac,0xef,0xf3,0xbb,0xea,0xbb,0xfb,0xab,0xac,0x6f,0xed,0xc7,0xea,
-0x1b,0x7b,0xef,0xdb,0x7a,0xf3,0xed,0xfc,0xa3,0xd6,0x98,0x87,0x19,0xef,0x68,0xae,
-0xf1,0x0c,0x6f,0x1c,0xa3,0x8b,0xc6,0x2f,0x26,0x68,0xdc,0x62,0xbe,0x35,0x56,0xb1,
-0x52,0x63,0x14,0xc5,0x35,0x36,0x61,0xbe,0x6b,0xef,0xa2,0xf1,0x89,0x09,0x1a,0x9f,
-0x30,0x63,0x13,0x4e,0x49,0x77,0x6c,0x62,0xa4,0xc6,0x24,0x1e,0xd2,0x98,0x84,0x19,
-0x7f,0x28,0xac,0xef,0xd5,0xcb,0xe9,0xfb,0xf4,0x54,0x8d,0x43,0x5c,0xa0,0x71,0x88,
-0xfe,0xff,0x57,0xd9,0xb9,0x40,0x47,0x59,0x98,0x69,0x78,0x26,0x4c,0x92,0x49,0xc2,
-0x25,0x56,0x11,0xaf,0x88,0x82,0x02,0xa2,0x24,0x87,0x84,0x8b,0x5c,0xe3,0x0a,0xca,
-0xd9,0x2e,0x27,0x41,0x2b,0x95,0x65,0x95,0xb8,0x8a,0x56,0x6a,0x0b,0xd5,0x54,0xad,
-0x5a,0x8c,0xa0,0x45,0x50,0x2c,0xa7,0xab,0xed,0xd1,0xe2,0x82,0x6b,0xbd,0x50,0x45,
-0xc2,0xa2,0xd6,0xae,0x0a,0x51,0xcb,0x6a,0xab,0x14,0x14,0xad,0xbb,0x5a,0x05,0xb4,
-0xed,0x52,0x95,0xca,0x4d,0x91,0x9b,0xd9,0xf7,0x9b,0xff,0xf9,0x92,0x2f,0x63,0x50,
-0x3b,0x39,0x6f,0x12,0x26,0x21,0x33,0xf9,0x33,0x13,0x7e,0xde,0xef,0x7d,0x9f,0x8f,
-0x1e,0x7a,0x23,0xfd,0x73,0xef,0x9d,0xaf,0x0a,0x5d,0x73,0xeb,0x99,0xbf,0x26,0xbd,
-0x15,0xfa,0xe5,0xd6,0x2d,0xdf,0x26,0xa5,0x8e,0x48,0xfa,0xe5,0x5d,0xe9,0x95,0xf7,
-0x62,0x3e,0x71,0x33,0x73,0x89,0xa5,0x61,0x26,0x91,0xa2,0x23,0xde,0x9b,0x6e,0x78,
-0x7f,0x3a,0xe1,0xde,0x05,0xb7,0x1e,0x78,0x8d,0x34,0x96,0x2e,0xf8,0x4c,0x66,0x15,
-0x4d,0x74,0xbe,0xdf,0x61,0x56,0xd1,0x83,0x8e,0xb7,0x75,0xbb,0x7b,0x86,0x2e,0xf7,
-0x79,0xa1,0xbf,0xed,0xbd,0xed,0x69,0xf4,0xb5,0xaf,0x0c,0x1d,0x6d,0xeb,0x67,0x2f,
-0xa1,0x97,0x9d,0xa2,0x7b,0x5d,0x1d,0xba,0xd6,0x23,0x42,0xbf,0xda,0x7b,0xd5,0x75,
-0xf4,0xa8,0x1b,0xe8,0x51,0xcf,0xa6,0x2f,0xfd,0x00,0x3d,0x69,0xef,0x47,0x3f,0x1a,
-0x3a,0xd0,0x5b,0xe8,0x3e,0x6f,0x0d,0x7d,0x67,0xeb,0x3a,0xef,0x3f,0x3a,0xe9,0x36,
-0x57,0xd3,0x69,0x1e,0xc1,0xec,0x64,0x21,0xb3,0x11,0xeb,0x27,0x6f,0xa0,0x9f,0xec,
-0xbd,0xe4,0xbf,0x86,0x2e,0xb2,0x77,0x90,0x3f,0x0d,0x73,0x12,0xeb,0x10,0xef,0x63,
-0x06,0x72,0x04,0xb3,0x8f,0xf1,0xcc,0x3c,0x26,0x87,0x39,0xc7,0x54,0xe6,0x1b,0x36,
-0xdb,0x78,0x86,0xb9,0xc6,0x6a,0x66,0x1b,0x36,0xd7,0x58,0xcb,0x5c,0xc3,0x66,0x1a,
-0x6f,0x33,0xd3,0xd8,0xca,0x4c,0xc3,0xe6,0x19,0x07,0x38,0x39,0x2a,0x93,0xba,0x4a,
-0xdd,0xa4,0x72,0xa9,0x9f,0xd4,0x5f,0x3a,0x59,0x1a,0x20,0x9d,0x22,0x9d,0x2a,0x0d,
-0x94,0x2a,0xa4,0x4a,0x69,0xb0,0x34,0x56,0x1a,0x27,0x4d,0x95,0xea,0xa5,0x4b,0xa4,
-0x4b,0xa5,0x6f,0x49,0x97,0x49,0xd3,0xa5,0x99,0xcc,0x4b,0x1a,0xa4,0x6b,0xa5,0xeb,
-0x99,0x9b,0x34,0x4a,0xf3,0xa5,0xdb,0x98,0xa1,0x2c,0xa1,0x6b,0x9c,0x62,0x8e,0xd2,
-0x89,0x39,0x4a,0x96,0x59,0xca,0x61,0xcc,0x51,0x0e,0x67,0x86,0xd2,0x93,0xf9,0xc9,
-0x89,0xcc,0x4f,0xfa,0x32,0x3f,0xe9,0xcf,0x0c,0xc5,0x67,0x27,0xc3,0x99,0x95,0xd4,
-0x30,0x2b,0xf9,0x47,0xe6,0x24,0x75,0xcc,0x4a,0xe6,0x49,0x0b,0xa5,0xaf,0x9d,0xa0,
-0x7f,0x97,0xa4,0xc3,0xa4,0x21,0x3a,0x51,0xbc,0x4e,0xba,0x53,0xfa,0xa9,0x54,0xd3,
-0x47,0x9f,0x2b,0xdd,0x22,0x2d,0x92,0xde,0x97,0x1e,0xd1,0x89,0xe4,0x32,0x3b,0x99,
-0xec,0x27,0xf5,0xd7,0xbf,0x9f,0x3a,0xa9,0xfc,0x19,0x27,0x96,0x95,0x52,0xbd,0xf4,
-0x67,0xe6,0x2b,0x1f,0x31,0x5f,0xd9,0xc3,0x49,0x67,0xdf,0x30,0x53,0x99,0x11,0xfa,
-0xc4,0x4b,0x98,0xa3,0x34,0x31,0x3f,0x69,0x66,0x6e,0xb2,0x9e,0x79,0xc9,0x26,0x4e,
-0x58,0x1b,0xa5,0x9f,0xdb,0x89,0x6b,0x85,0x9e,0xb7,0x15,0xc9,0x09,0x6c,0x9a,0x39,
-0x4a,0x96,0xd9,0xc9,0xc9,0x74,0x85,0x2b,0x99,0xa1,0x0c,0x61,0x86,0x32,0x8a,0x99,
-0xc9,0x5d,0xcc,0x4c,0x6c,0x5e,0xb2,0x84,0x39,0x89,0xf7,0x7f,0x0b,0x99,0x8b,0x2c,
-0x94,0x9a,0x99,0x89,0x1c,0x3b,0x48,0x0f,0x15,0xa9,0x4e,0xaa,0x97,0xae,0x97,0x6e,
-0x90,0x56,0x48,0xcd,0xd2,0xcb,0xd2,0x7a,0xe9,0xea,0x2a,0x1d,0x3b,0xe9,0x1d,0x69,
-0x93,0xd4,0x52,0x95,0xcc,0x52,0x9a,0x99,0xa5,0xd8,0x49,0xf4,0x42,0xe6,0x27,0x5d,
-0x98,0x93,0xd4,0xd0,0xed,0xbd,0x92,0x7e,0xef,0x2c,0xe6,0x22,0xff,0xce,0x3c,0xc4,
-0xba,0xbb,0x3b,0xec,0x84,0x9b,0x39,0x88,0xcd,0x3b,0xe6,0x49,0xcf,0x31,0xd7,0xf0,
-0x7e,0xad,0xf7,0x6a,0xbd,0x4f,0x7b,0x22,0xdd,0xd9,0x7e,0x74,0x67,0x2b,0xa5,0x61,
-0xcc,0x32,0x1a,0xe8,0xd0,0x5a,0x5f,0xf6,0xf7,0xf4,0x64,0x77,0x84,0x2e,0xac,0xf5,
-0x5f,0x07,0xd2,0x7b,0xb5,0xce,0xeb,0x54,0xba,0xae,0x73,0x42,0xaf,0xf5,0x09,0xfa,
-0xac,0x4f,0xd3,0x63,0xb5,0xb9,0xc6,0x3b,0xa1,0xaf,0x9a,0xa2,0x8f,0x5a,0x41,0x0f,
-0xb5,0x8a,0xfe,0x69,0x4d,0xe8,0x9c,0xfe,0x53,0xe8,0x99,0xfe,0x4b,0xe8,0x8e,0x36,
-0x85,0x9e,0xe8,0xe3,0xf4,0x43,0x7f,0x4d,0x2f,0xb4,0x39,0x74,0x41,0xdf,0xa2,0xeb,
-0xf9,0xb7,0xd0,0xe3,0x2c,0x61,0x3e,0xd1,0x8b,0xb9,0x84,0xcd,0x24,0xa6,0x33,0x7b,
-0xf0,0x0e,0xa6,0x77,0x2f,0xbd,0x6b,0x69,0x73,0x88,0x26,0xe6,0x0f,0xf6,0x1f,0x94,
-0x99,0xcc,0x1c,0x0e,0x0d,0x3d,0x4a,0x9b,0x35,0xf4,0x67,0xd6,0x30,0x2c,0xcc,0x17,
-0xce,0x60,0xae,0x50,0xc7,0x5c,0x61,0x34,0x73,0x85,0x9f,0x30,0x4f,0x38,0x40,0x4f,
-0xb2,0x9c,0x9e,0x64,0xa5,0x54,0x27,0x4d,0x94,0xce,0x96,0xbe,0x21,0x9d,0x2b,0x4d,
-0x92,0xa6,0x4a,0xf5,0xd2,0xbf,0x4a,0x17,0x4b,0xdf,0x92,0x2e,0x93,0xbe,0x4d,0x97,
-0xd2,0xe6,0x11,0x2d,0x52,0xba,0x45,0x3f,0x73,0xa9,0x48,0x2a,0x93,0x3a,0x4b,0x5d,
-0xa4,0xae,0x2d,0x49,0xc7,0xf2,0x28,0xe9,0x68,0x7a,0x96,0x23,0x98,0x5b,0x4c,0x61,
-0x6e,0xf1,0x1c,0xf3,0x88,0x57,0x99,0x43,0x6c,0x92,0xde,0x95,0xfe,0x2c,0x6d,0x91,
-0xf6,0x30,0x97,0xe8,0xc2,0x3c,0x62,0x24,0x73,0x88,0x3a,0xe6,0x0f,0xb6,0x68,0x2a,
-0x2d,0x15,0x48,0xc5,0xd2,0xd0,0x74,0x32,0x8f,0x58,0x20,0x2d,0x94,0x96,0x48,0xeb,
-0x43,0x6f,0x72,0x09,0x5d,0xc9,0xcd,0xcc,0x27,0x4e,0x65,0xfe,0x70,0x15,0xf3,0x87,
-0xc5,0xcc,0x1d,0x52,0xf4,0x1c,0x9b,0x98,0x2f,0xa4,0x98,0x2b,0xcc,0x60,0x1e,0x50,
-0xc3,0x1c,0x20,0x15,0x3c,0xfe,0xa1,0xc1,0xd7,0xff,0xa6,0xf4,0x20,0x5e,0xbe,0xf9,
-0xf8,0xfb,0xa4,0xe3,0xf0,0xf0,0xc7,0xe0,0xdd,0x3f,0x2d,0xbd,0x5a,0x92,0xf4,0x05,
-0x0b,0xe9,0x09,0x96,0xe3,0xdb,0x1f,0x49,0x2f,0xd0,0xfa,0x80,0x35,0x52,0x1d,0xfe,
-0x7d,0x33,0xfd,0xbf,0x0f,0xf0,0xeb,0x4f,0xc3,0xaf,0x3f,0x4f,0xba,0x46,0xba,0x4b,
-0x5a,0x8a,0x57,0xdf,0x88,0x47,0xbf,0x17,0x8f,0xbe,0x0f,0x5d,0xbf,0xfa,0xae,0x89,
-0xf7,0x6e,0x3d,0xbd,0x65,0xf8,0xef,0x29,0x7c,0x75,0xeb,0xdc,0x4d,0xc4,0x53,0xdf,
-0xd4,0xad,0xad,0x57,0x57,0x40,0x8f,0xee,0x2c,0xe9,0x6c,0xba,0x74,0x37,0xd0,0x8f,
-0x5b,0x49,0x17,0xce,0x7a,0x70,0x4f,0x49,0x6b,0xf1,0xd8,0xb7,0xd1,0x7d,0xeb,0x44,
-0xe7,0xcd,0xbb,0x6e,0x43,0xf0,0xd8,0xad,0xc3,0xd6,0x40,0x7f,0x6d,0x36,0x3d,0xb5,
-0xd5,0xf4,0xd2,0xd6,0x86,0x2e,0xda,0x66,0x3c,0xf6,0x43,0xe9,0x9a,0x0d,0x0a,0xfd,
-0x32,0xeb,0x96,0x0d,0xa3,0x57,0xd6,0x18,0x7c,0xf6,0x1f,0xe3,0xaf,0x37,0x85,0xae,
-0xd8,0x7b,0x74,0xc4,0x52,0x74,0xc3,0x0a,0xf1,0xda,0x0f,0xc5,0x63,0x1f,0x84,0xb7,
-0x3e,0x02,0x5f,0xdd,0xbb,0x5e,0x67,0xd1,0xf1,0xaa,0x0b,0xbd,0xae,0x4b,0xe8,0x71,
-0xa5,0xe8,0x49,0xd5,0xd0,0x8f,0x1a,0x17,0x3a,0x51,0xe7,0x87,0x1e,0x54,0x23,0xbd,
-0xa7,0x5f,0x87,0xae,0xd3,0xea,0xd0,0x6f,0xfa,0x0d,0x7d,0xa6,0x46,0xfa,0x4b,0x4f,
-0xd2,0x5b,0xf2,0xbe,0xd2,0xb3,0xf4,0x94,0x52,0xf4,0x92,0x46,0x84,0x2e,0x92,0xf5,
-0x90,0x4e,0xa7,0x7f,0x54,0x8f,0xef,0xfe,0x70,0xe8,0x1c,0x3d,0x4a,0xd7,0xe8,0x89,
-0xd0,0x2f,0x6a,0xc6,0x8f,0x3f,0x96,0xde,0xd0,0x09,0xa1,0x2b,0x54,0x89,0x37,0x5f,
-0x11,0x7a,0x40,0x23,0xf0,0xe9,0xcd,0xa3,0x77,0x6f,0xbe,0x3b,0x9e,0xfc,0x50,0xba,
-0x3d,0xa3,0x42,0x9f,0xc7,0xfa,0x3a,0x63,0xe9,0xec,0x2c,0xc1,0x9b,0x7f,0x8d,0x6e,
-0xce,0x1f,0x43,0x1f,0xc7,0x7b,0x37,0xc5,0x52,0x09,0x1e,0x7d,0x15,0x7d,0x1b,0xeb,
-0xd9,0x8c,0x09,0x1d,0x9b,0x89,0x74,0x6b,0x26,0xe3,0xd9,0xcf,0x0f,0x3d,0x9a,0xbb,
-0xcd,0xaf,0x3f,0x2a,0xf1,0xea,0x4b,0xe9,0xba,0x0c,0xa3,0xdf,0x62,0x7d,0x96,0x99,
-0xf4,0x58,0xbc,0xbf,0xe2,0xbd,0x15,0xef,0xab,0xa4,0xf0,0xef,0xcb,0xe8,0xa7,0x78,
-0x2f,0x65,0x4c,0xe8,0xa2,0xd4,0xe1,0xe5,0x5f,0x8a,0x87,0xbf,0x90,0xae,0xc9,0x9d,
-0xa1,0x5f,0xe2,0xbd,0x92,0x4d,0xf4,0x45,0xac,0x2b,0x62,0x1e,0x7d,0xb3,0xf4,0xba,
-0xf4,0xb6,0xb4,0x59,0x6a,0x39,0x2e,0xf1,0xeb,0x67,0xe2,0xd7,0x9b,0x47,0x5f,0x59,
-0x9d,0x78,0xf2,0xe6,0xc3,0xd7,0xd0,0xb3,0xf8,0x2e,0xfe,0xbb,0x75,0x2a,0x3e,0xc6,
-0x83,0xb7,0x3e,0xc5,0x50,0x7a,0x14,0x53,0xf0,0xe1,0xcd,0x83,0xaf,0xc1,0x53,0xf7,
-0x0e,0xc4,0x8f,0xf1,0xd4,0xcd,0x4f,0x7f,0x37,0x74,0x1d,0xb6,0xe1,0xa1,0xa7,0x6e,
-0x91,0x16,0x24,0xfe,0x78,0x1d,0x3e,0xb8,0x79,0xe0,0x29,0xbc,0xef,0x46,0x3c,0xef,
-0x45,0x74,0x10,0x16,0x4b,0x4b,0xcc,0xff,0xb6,0x25,0x6e,0xaf,0xa4,0x53,0xfd,0xe9,
-0x1c,0x4c,0x97,0xae,0xa4,0x6f,0x30,0x87,0xbe,0xc1,0x6d,0xf4,0x0d,0x1e,0xb5,0xc5,
-0x93,0xaf,0x26,0x9d,0x83,0x71,0xd2,0x26,0xeb,0x1d,0x6c,0xd0,0xf7,0xb6,0x21,0xf1,
-0xd1,0x27,0xe1,0x9f,0xbb,0x6f,0xbe,0x14,0xbf,0xdc,0x7d,0x72,0xf3,0xc8,0x8b,0xf1,
-0xc6,0x0f,0xc7,0x13,0x1f,0x81,0x17,0xee,0x1e,0xb8,0xf9,0xdf,0xe6,0x7d,0xbf,0x85,
-0xe7,0xdd,0x1d,0xaf,0xbb,0x16,0x8f,0x7b,0x1e,0xde,0xf6,0xf3,0x78,0xda,0xd6,0x03,
-0xc8,0x2d,0x4a,0x7a,0x53,0xc7,0x91,0x1e,0xc0,0x77,0xe8,0x00,0x5c,0x45,0x07,0xe0,
-0x66,0x7a,0x00,0xd6,0x01,0x48,0x91,0xed,0x3f,0x9a,0x4c,0xff,0x49,0x78,0xdd,0x95,
-0x78,0xdd,0x35,0xf8,0xdc,0xcd,0x64,0xf2,0x2d,0x8f,0xdf,0xf2,0x6e,0xe2,0x37,0xbf,
-0x40,0xae,0x3d,0x45,0x9e,0xdd,0x73,0xec,0x17,0x48,0xdf,0xfb,0x50,0x8f,0xfd,0xad,
-0x89,0xff,0x5c,0x88,0xef,0xdc,0x27,0x78,0xcd,0xd5,0xc1,0x5f,0xfe,0x87,0xe0,0x29,
-0xbb,0x97,0x3c,0x31,0xf8,0xc7,0x93,0x83,0x67,0xec,0x5e,0xb1,0x7b,0xc4,0x97,0xe3,
-0x0d,0xff,0x20,0xf8,0xc1,0xb7,0xe2,0x03,0xdf,0x8f,0xff,0xbb,0xcd,0xfc,0xdf,0x6d,
-0xfa,0x9e,0xa4,0x25,0xd2,0x0a,0xe9,0x59,0xe9,0x15,0x5b,0xbc,0xb7,0x5d,0xcf,0x0b,
-0xa9,0x5c,0xaa,0x90,0x2a,0xa5,0xe9,0xd2,0x4c,0x69,0x99,0xf4,0x17,0xfb,0xd8,0x0e,
-0x1d,0x07,0xa9,0x4e,0xaa,0x97,0x52,0x3b,0xf5,0xb3,0xfe,0x44,0x5f,0x57,0x4a,0xed,
-0xd6,0x6d,0x4a,0x9b,0x24,0x5b,0x90,0x5a,0x2e,0xd5,0x49,0xf5,0xd2,0x42,0xa9,0xc9,
-0x96,0xa6,0xee,0x49,0xa7,0xae,0x95,0xd6,0x4a,0xf5,0x7b,0xf5,0xb5,0xa5,0x6b,0xa4,
-0x46,0x69,0xa1,0xd4,0x24,0x35,0x4b,0xeb,0x6d,0xa1,0xd8,0xbe,0x74,0xea,0x8e,0x7d,
-0x49,0xfe,0x3d,0xb7,0xf8,0xf7,0xc1,0x82,0x54,0xcd,0xaf,0x12,0xbf,0xda,0xbc,0x6a,
-0xf3,0xa7,0xcd,0xa8,0x4d,0xa7,0xba,0xea,0xbf,0x54,0x5d,0x13,0xf3,0x24,0x95,0x98,
-0x11,0xd9,0x83,0x78,0xd4,0x47,0x27,0xff,0xc5,0x6b,0xf5,0xa8,0x6d,0x5d,0xf1,0x89,
-0xd2,0xc9,0x79,0x1e,0x75,0x05,0xcc,0x6d,0xf3,0xa8,0x6b,0xc8,0xcb,0xd7,0x93,0x97,
-0x9f,0x25,0xdd,0x84,0x47,0xbd,0x38,0x78,0xd4,0xf7,0x27,0xa7,0xb1,0x39,0x8f,0xfa,
-0x11,0x3c,0xea,0xe5,0xd2,0x0a,0x69,0x65,0xf0,0xa8,0x9f,0x0c,0x1e,0xf5,0x6a,0x32,
-0xf6,0x6f,0x90,0xb1,0x37,0x8f,0x5a,0xdf,0x5e,0xea,0xbf,0xc8,0xcc,0xaf,0x23,0x33,
-0xbf,0x91,0xcc,0xfc,0x56,0x3c,0xea,0x96,0x82,0x84,0xb1,0x6d,0x79,0xf9,0xef,0x93,
-0x93,0xff,0x61,0xf0,0xa8,0x6f,0x0e,0x1e,0xb5,0x67,0xe3,0xef,0x25,0x0f,0x6f,0x1e,
-0xf5,0xec,0x8c,0xce,0xe7,0xc9,0xc3,0x5b,0x16,0x7e,0x1e,0x1e,0xf5,0xed,0x78,0xd4,
-0xcf,0xe4,0x79,0xd4,0xcf,0xe1,0x51,0xaf,0x09,0x1e,0xb5,0x65,0xe5,0x77,0x49,0x85,
-0x45,0xfa,0x3f,0x00,0x1e,0x75,0x69,0x9e,0x47,0xdd,0x0d,0x76,0xf6,0x31,0x64,0xe7,
-0xa7,0xc2,0xc8,0x36,0x8f,0xfa,0xf2,0xc0,0xc9,0x7e,0x1d,0x26,0xb6,0x7b,0xd4,0x7f,
-0x22,0x4b,0xbf,0x05,0x8f,0x7a,0x2b,0x99,0x7a,0xe3,0x60,0x77,0x09,0xdc,0xeb,0x0a,
-0x58,0xd7,0xf7,0x07,0xc6,0xf5,0xfb,0xf0,0xac,0x2d,0x43,0xbf,0x27,0x78,0xd4,0xdd,
-0x03,0xbf,0xda,0xb9,0xd5,0xce,0xab,0x36,0x4e,0xf5,0x68,0x72,0xf4,0x53,0xf0,0xa8,
-0x2d,0x4b,0xff,0x98,0xf4,0x02,0xfc,0xe9,0x77,0xe1,0x4f,0x9f,0x96,0xe7,0x51,0xd7,
-0xc0,0x95,0x76,0xa6,0x74,0x1d,0xfc,0xe8,0x0b,0xe1,0x46,0x3b,0x23,0x7a,0x0e,0x39,
-0xfa,0x85,0xe4,0xe7,0x3d,0x3b,0xef,0x0c,0xe8,0x66,0x78,0xcf,0x2f,0x06,0xce,0xb3,
-0x7b,0xd4,0x6f,0x93,0x9d,0x7f,0x8f,0xec,0xfc,0x4e,0x69,0x2f,0x1e,0xf5,0x01,0x3c,
-0x6a,0x67,0x38,0x97,0x92,0xa3,0xef,0x47,0x7e,0xbe,0x8a,0xdc,0xbc,0x33,0x9a,0x6b,
-0xe0,0x32,0x8f,0x0f,0x3c,0x66,0xcf,0xd1,0xcf,0x80,0xbd,0xdc,0x10,0x3c,0x6a,0x67,
-0x2e,0x2f,0x20,0x4f,0xff,0x10,0x39,0xfa,0x95,0x81,0xab,0xdc,0x0c,0x43,0xd9,0xf9,
-0xc9,0x2f,0x07,0x8f,0x7a,0x33,0x9c,0xe4,0x6d,0xc1,0xa3,0x76,0x3e,0x72,0x27,0xb2,
-0xf5,0xe5,0x64,0xea,0x2b,0xc9,0xd2,0x3b,0xff,0x78,0x74,0xf0,0xa8,0xc7,0xc2,0x37,
-0x76,0xb6,0xb1,0x33,0x8d,0xcf,0x27,0x5f,0x6f,0x0c,0xe3,0xab,0x83,0x47,0x3d,0x9f,
-0x5c,0xfd,0x9d,0x21,0x4f,0xbf,0x98,0x0c,0xfd,0x2f,0xc9,0xce,0x3b,0x87,0xf8,0x39,
-0xd8,0xc3,0x2f,0xe7,0x79,0xd4,0x3b,0xa4,0x4f,0xf3,0x3c,0x6a,0x67,0x0d,0x77,0x26,
-0x67,0xdf,0x2f,0xe4,0xeb,0x6b,0x60,0x08,0x8f,0x87,0x1d,0x3c,0x89,0xac,0xfd,0x85,
-0x30,0x82,0x67,0xe0,0x51,0xcf,0x0a,0x8c,0xe0,0xdb,0xc8,0xd9,0x3f,0x44,0xbe,0xde,
-0x19,0xc0,0xbf,0x81,0xeb,0xfb,0x12,0x3c,0xdf,0x3f,0xe0,0x51,0x6f,0x86,0xdf,0xfb,
-0x11,0x39,0xfb,0x34,0x39,0xfb,0x72,0xf2,0xf5,0x23,0xe1,0xf0,0x8e,0x85,0xbf,0xeb,
-0xec,0xdd,0x5a,0xf2,0xf5,0x17,0x05,0x9e,0xee,0x1c,0x32,0xf6,0x2b,0x42,0xb6,0xde,
-0x99,0xb9,0xaf,0x04,0x4e,0xee,0x46,0xd8,0xb8,0xbb,0xba,0xb4,0x31,0x71,0xab,0xe0,
-0xe0,0x8e,0x21,0x67,0x6f,0xec,0xdb,0x29,0x21,0x6b,0x3f,0x3f,0xe4,0xeb,0x9d,0x6f,
-0xbb,0x32,0x30,0x6d,0x3d,0x53,0xbf,0x16,0x7e,0xad,0x65,0xea,0x7b,0xc0,0xac,0xad,
-0x3e,0x88,0x47,0x3d,0x8a,0xac,0xfd,0xe5,0x81,0x4d,0x7b,0x13,0x1e,0xf5,0x5c,0x72,
-0xf7,0x3f,0x83,0x43,0xbb,0x06,0x8f,0xfa,0x65,0xe9,0xcd,0x6e,0x09,0x83,0xd6,0xf9,
-0xb3,0xce,0x9d,0x1d,0x0e,0x6b,0x76,0x34,0x2c,0xd9,0xc9,0x64,0xf3,0xeb,0xc9,0xe2,
-0x37,0x04,0x26,0xec,0x4d,0x70,0x60,0x9d,0x01,0xeb,0x8c,0xd7,0x35,0xc1,0xa3,0x1e,
-0x4f,0xe6,0xde,0xf3,0xf6,0xe7,0x93,0xb1,0x5f,0x40,0xb6,0xfe,0xf1,0x90,0xa9,0x5f,
-0x43,0x8e,0xbe,0x9c,0xfc,0xfc,0x3f,0xc3,0x5d,0xbd,0x9e,0xfc,0xfc,0x5d,0xe4,0xe7,
-0x0f,0xe0,0x51,0x5b,0x66,0xbe,0x91,0xcc,0xfc,0x22,0x32,0xf2,0x9d,0xc9,0xc8,0x1f,
-0x46,0x46,0xde,0xb8,0xa9,0x43,0xc8,0xc9,0x9f,0x43,0x4e,0x7e,0x26,0x9c,0xd4,0x95,
-0x81,0x8f,0xfa,0x4c,0x60,0xa2,0xbe,0x08,0x07,0xf5,0xcd,0x3c,0x8f,0xda,0xd8,0xa7,
-0x7b,0xa4,0x52,0xf8,0xa7,0x5d,0xe1,0x9e,0x5e,0x43,0x7e,0xfe,0x47,0x81,0x6b,0xfa,
-0x4b,0x32,0xf3,0x3d,0x61,0x98,0x9e,0x04,0xbb,0x74,0x40,0x60,0x96,0x0e,0x83,0x53,
-0x6a,0x1e,0xf5,0x38,0x32,0xf5,0x0d,0x64,0xe9,0x7f,0x0b,0x8b,0xb4,0xe5,0xc8,0x24,
-0x4b,0x7f,0x44,0x60,0x90,0x9e,0x1b,0x3c,0xea,0x0b,0xf2,0x3c,0xea,0x8b,0x61,0x8a,
-0x5e,0x11,0x58,0xa2,0xf3,0xe0,0x87,0x2e,0x93,0x9a,0x8f,0x4a,0x18,0xa1,0x55,0xc1,
-0xa3,0x1e,0x1e,0x3c,0x6a,0xe7,0x7f,0x7e,0x5d,0x9a,0x0e,0xe7,0xf3,0x7a,0x38,0x9f,
-0xf7,0xc2,0xf3,0x7c,0x30,0x70,0x3c,0x97,0x05,0x56,0xe7,0xff,0xc1,0xe7,0xfc,0x30,
-0x78,0xd4,0xdb,0x61,0x71,0x0e,0x80,0xbd,0x39,0x18,0xe6,0xa6,0xf1,0x36,0x6f,0x21,
-0xbf,0xff,0x02,0xfc,0xcc,0x0d,0x81,0x9f,0xb9,0x25,0x30,0x33,0x9d,0x95,0xb9,0x3b,
-0x70,0x31,0x2d,0x9f,0xbf,0x07,0xce,0x65,0x77,0xf2,0xf9,0xe3,0xc8,0xe5,0x7f,0x33,
-0xcf,0xa3,0xfe,0x21,0xf9,0xfb,0xa7,0x83,0x47,0xfd,0x2c,0xd9,0x7b,0xcb,0xdd,0xaf,
-0x23,0x77,0x6f,0x99,0xfb,0x8d,0x64,0xee,0x3f,0x22,0x73,0x6f,0x79,0xfb,0xcf,0xa4,
-0x52,0x98,0x95,0xee,0x51,0xf7,0xfd,0x0a,0x1e,0x75,0xb5,0x74,0x06,0x1e,0xf5,0x05,
-0x78,0xd4,0x17,0x77,0xe0,0x51,0xcf,0x08,0x1e,0xf5,0x0f,0xa4,0xeb,0xa4,0x59,0x78,
-0xd4,0xf3,0xa4,0x5b,0xa5,0xdb,0xc9,0xf8,0xaf,0x86,0x7d,0x99,0xc6,0xa3,0x2e,0xc2,
-0xa3,0x2e,0x21,0xeb,0x7f,0x58,0xc8,0xfa,0x5b,0xc6,0xbf,0xf7,0x17,0x78,0xd4,0x9e,
-0xf1,0xb7,0x2c,0xff,0x08,0xb2,0xfc,0x63,0xc9,0xf2,0x4f,0x90,0x6a,0xa5,0xa9,0x64,
-0xf7,0x6f,0x95,0x0e,0x39,0xa1,0xcd,0xa3,0x1e,0xdc,0x5b,0xe7,0x7e,0xd2,0x1d,0x78,
-0xd4,0x27,0xf5,0xd1,0x79,0x87,0x34,0x57,0xfa,0xb9,0xf4,0x57,0xe9,0xe1,0x93,0x12,
-0x8f,0xba,0xa5,0xaf,0xd4,0x4f,0x8f,0x25,0x9d,0x50,0xde,0x29,0xb5,0x48,0x03,0x75,
-0x62,0x79,0x01,0xf9,0xff,0xf7,0xc9,0xff,0x6f,0x27,0xff,0xdf,0x72,0x4a,0x5b,0xfe,
-0xff,0x54,0x32,0xff,0x33,0xf1,0xa8,0x7f,0x4a,0xd6,0xff,0x51,0x32,0xfe,0xab,0xc8,
-0xf6,0xff,0x9e,0x4c,0xff,0x3b,0xb0,0x2c,0xcf,0x1e,0xa8,0xc7,0xbc,0xb4,0x53,0x7a,
-0x5d,0x27,0xaf,0xfb,0xf0,0xa8,0x33,0x64,0xfb,0x7b,0x91,0xed,0x3f,0x15,0x96,0x65,
-0x25,0x19,0xff,0xa1,0x64,0xfa,0xc7,0x90,0xe9,0xbf,0x9b,0x4c,0xff,0x62,0x3c,0x6a,
-0xe7,0x54,0x5a,0x7e,0xbf,0x82,0xdc,0xbe,0x65,0xf6,0xdf,0x93,0x8e,0x19,0xa4,0xe7,
-0xbb,0x54,0x2b,0x4d,0x95,0xae,0x93,0x66,0x49,0x4d,0xd2,0x6a,0xe9,0x25,0x69,0x9d,
-0x74,0x55,0x95,0x8e,0x9d,0xf4,0xb6,0xb4,0x51,0xfa,0x0c,0x8f,0xda,0xb2,0xfe,0x2d,
-0xd2,0xfe,0xc5,0x49,0xbe,0xff,0xbf,0x7f,0x91,0xe4,0xf8,0xbb,0x91,0xdf,0xb7,0xcc,
-0xfe,0x15,0x78,0xd4,0xce,0x9f,0xbc,0x07,0xd6,0xe4,0x47,0xb0,0x25,0x77,0x4b,0xc7,
-0x87,0x5c,0xfe,0x6a,0xe9,0x77,0x81,0x03,0xe9,0xfc,0x47,0xe7,0x3e,0xf6,0x09,0x8c,
-0xc7,0x01,0x78,0xd4,0x43,0xa5,0xd3,0xc8,0xda,0x5f,0x0d,0xd3,0x71,0x0d,0x2c,0xc7,
-0xed,0x81,0xd9,0x78,0x22,0x7c,0xc6,0x33,0xe1,0x32,0x9e,0x43,0xce,0x7e,0x76,0xe0,
-0x2f,0x3e,0x0e,0x73,0xf1,0x29,0x58,0x8b,0x6b,0x61,0x2b,0x3a,0x57,0xd1,0x72,0xf6,
-0xfd,0xe0,0x25,0x56,0xc2,0x49,0xac,0x86,0x8f,0xe8,0x6c,0xc4,0xaf,0x07,0x8f,0x7a,
-0x72,0x60,0x1c,0x2e,0x0f,0x1e,0xf5,0x63,0x64,0xec,0x9f,0x24,0x63,0xbf,0x3a,0xcf,
-0xa3,0xfe,0x00,0x16,0xa1,0xf3,0x06,0x8b,0xc8,0xd0,0x1f,0x4e,0x76,0x7e,0x20,0xd9,
-0xf8,0x6f,0x07,0x56,0xa0,0x33,0x02,0x9d,0x09,0x68,0x2c,0xc0,0xfb,0xc8,0xc8,0x5b,
-0x3e,0xfe,0x3b,0xe4,0xe2,0x8b,0x42,0x1e,0xbe,0x27,0x59,0xf8,0xfe,0x64,0xe1,0x3d,
-0x07,0x7f,0x3a,0xd9,0xf7,0x5a,0xe9,0x59,0x72,0xef,0x63,0xc8,0xbd,0x5b,0xe6,0x7d,
-0x3f,0x1e,0xb5,0x71,0xfc,0x8e,0x84,0xe3,0x57,0x7b,0x10,0x8f,0xfa,0x02,0x3c,0xea,
-0x0b,0xa5,0x8b,0xa4,0x4b,0xf0,0xa8,0xa7,0xe3,0x51,0x37,0x90,0x97,0x37,0x8f,0xba,
-0xa0,0x45,0x3f,0x73,0xa9,0x34,0xcf,0xa3,0xee,0x06,0x03,0xd0,0x3c,0xea,0x5e,0xe4,
-0xea,0x6b,0x02,0xff,0x6f,0x15,0x99,0xf9,0x75,0x64,0xe5,0x2d,0x27,0xbf,0x59,0xfa,
-0x93,0xf4,0x17,0xe9,0x6f,0xd2,0x01,0xfb,0x9a,0x64,0xe6,0x87,0x93,0x95,0x9f,0x40,
-0x46,0x7e,0x6f,0x9e,0x47,0x5d,0x25,0x8d,0x91,0x6e,0x93,0x6e,0x97,0x16,0xe1,0x51,
-0xef,0xc7,0xa3,0x5e,0x14,0x98,0x7e,0xfb,0xa4,0xde,0x64,0xe4,0xbf,0x0f,0xab,0xef,
-0x1e,0xb2,0xf1,0x96,0x87,0xbf,0x07,0x0e,0xdf,0x06,0xf2,0xef,0x7d,0xc9,0xbd,0x9b,
-0x47,0x3d,0x84,0xac,0xba,0xe5,0xd4,0x3d,0x8b,0x3e,0x38,0xe4,0xcf,0xcf,0x25,0x6b,
-0xbe,0x9c,0xac,0xb9,0xe5,0xcc,0x8f,0x2e,0x49,0x3c,0xea,0xd3,0xf0,0xa8,0x2d,0x5b,
-0xbe,0x8e,0x5c,0x79,0x27,0x58,0x76,0xdd,0xc8,0x96,0xf7,0x20,0x53,0xee,0xdc,0xba,
-0xf1,0xd2,0x79,0xd2,0x62,0xb2,0xe4,0xc6,0xa7,0xfb,0xa4,0x34,0xc9,0x93,0x8f,0x21,
-0x4f,0x7e,0x05,0x39,0xf2,0x45,0xd2,0xf2,0xb2,0x24,0x4b,0xfe,0x9f,0x64,0xc8,0x5b,
-0x3a,0x27,0x19,0xf2,0xbe,0xb0,0xe8,0x66,0x91,0x0d,0x7f,0x04,0x8f,0xda,0xf2,0xe1,
-0x7d,0xc9,0x7d,0x1b,0x13,0x6e,0xb2,0xf4,0x52,0xe0,0xbf,0xa5,0xc9,0x7c,0x1b,0xe7,
-0x6d,0x82,0x34,0x0d,0xd6,0xdb,0x8d,0x30,0xdb,0x9e,0x80,0xd5,0x66,0x9c,0xb6,0x67,
-0xf1,0xa8,0xb7,0xc0,0x67,0x2b,0x20,0x07,0xee,0x4c,0xb6,0x6a,0x72,0xe0,0x57,0x04,
-0xce,0xda,0x8d,0xb0,0xd4,0x8c,0xa3,0xf6,0x62,0xe0,0xa6,0x99,0x47,0xbd,0x51,0xda,
-0x75,0x48,0x92,0x01,0x1f,0x08,0x0b,0xad,0x2a,0x78,0xd4,0xc6,0x3e,0x1b,0x85,0x47,
-0xed,0x79,0xf0,0x05,0x64,0xc0,0x97,0x06,0xa6,0xd9,0xbb,0x70,0xcc,0x8c,0x61,0x96,
-0x86,0x5d,0xd6,0x99,0x2c,0x78,0x3f,0x32,0xe0,0x55,0x64,0xbf,0x47,0x06,0x26,0xd9,
-0x58,0x38,0x64,0x13,0x82,0x47,0x7d,0x11,0xac,0x31,0xe3,0x8c,0x0d,0x85,0xe3,0x75,
-0x7a,0xe0,0x77,0x99,0x47,0x3d,0x25,0x78,0xd4,0x17,0xc2,0xe6,0x7a,0x32,0x78,0xd4,
-0xab,0x02,0x87,0xeb,0x79,0x32,0xdf,0xc6,0xdb,0x5a,0x01,0x5f,0xeb,0xa9,0xc0,0xd5,
-0x6a,0x26,0x03,0x6e,0x1c,0xad,0x41,0x70,0xb3,0x46,0x06,0x8f,0xda,0x39,0x59,0xc6,
-0xc7,0xba,0x3c,0xf0,0xb1,0xdc,0xa3,0x5e,0x1e,0x58,0x58,0xee,0x51,0x1b,0xfb,0xea,
-0x28,0xd8,0x56,0xc7,0x07,0xa6,0x95,0xb1,0xac,0xc6,0xf4,0x48,0x98,0x55,0xce,0xab,
-0x1a,0x8e,0x47,0xbd,0x23,0x64,0xc8,0x0f,0x25,0x37,0x3e,0x18,0xfe,0xd4,0xc8,0xe0,
-0x51,0x3b,0x57,0xea,0x4c,0x98,0x52,0x0f,0xc2,0x90,0x7a,0x03,0x76,0x94,0x73,0xa3,
-0x9c,0x0f,0x55,0x24,0x65,0xe1,0x43,0x0d,0x82,0x0b,0x35,0x1c,0x0e,0xd4,0x99,0xc1,
-0xa3,0x9e,0x04,0xfb,0x69,0x0a,0x99,0x72,0xe7,0x3d,0x19,0xe7,0xe9,0x3f,0xc8,0x95,
-0x67,0xe1,0x31,0x0d,0x81,0xc3,0x34,0x4e,0xba,0x9c,0x2c,0xb9,0x73,0x96,0x9c,0xaf,
-0xe4,0x5c,0x25,0xe3,0x29,0x15,0x91,0x2f,0xaf,0x0c,0xfc,0xa4,0x51,0x81,0x99,0x74,
-0x16,0x9c,0xa4,0x69,0xe4,0xcc,0x6f,0x87,0x87,0x74,0x47,0x07,0x1e,0xb5,0x71,0x8f,
-0x76,0xc0,0x33,0xfa,0x14,0x8f,0xfa,0x35,0xe9,0x8f,0xd2,0x26,0x69,0xfb,0x71,0x49,
-0xa6,0xdc,0xf2,0xe4,0x0d,0xe4,0xc9,0x07,0x56,0xeb,0xfb,0xae,0x4e,0x32,0xe3,0xc3,
-0xc8,0x88,0x1b,0x07,0x68,0x06,0xf9,0xf0,0x5d,0x78,0xd4,0x15,0xf0,0x7e,0xc6,0xc1,
-0xf9,0xb9,0x90,0x9c,0xb8,0x65,0xc4,0xef,0xfe,0x6e,0x1b,0xab,0x67,0x2e,0x5c,0x9e,
-0xc5,0xe4,0xbd,0xa3,0x47,0x6d,0x1c,0x9e,0xdd,0x73,0x93,0x9c,0x77,0x76,0x41,0x3a,
-0xd5,0x93,0xcc,0xf6,0xa5,0x64,0xb4,0xa7,0x93,0xcd,0xbe,0x85,0x4c,0xf6,0x22,0x18,
-0x39,0xe6,0x51,0xdf,0x27,0x7d,0xbc,0x5e,0x8f,0x15,0xb8,0x38,0x97,0xc1,0xc3,0xb9,
-0x16,0x1e,0xce,0x4d,0xf0,0x70,0x96,0xc2,0xc3,0xd9,0x22,0x9d,0x0e,0x13,0xc7,0x3c,
-0xea,0x9d,0xd2,0xa4,0x0d,0xe9,0xd4,0x35,0x1b,0x92,0x9c,0xf7,0xa2,0x90,0xef,0x7e,
-0x80,0x4c,0xb7,0xe7,0xb9,0x9f,0x27,0xc3,0x5d,0x4a,0x76,0xfb,0x18,0x32,0xdb,0xa3,
-0x43,0x56,0xbb,0x8e,0x7c,0xf6,0x9b,0x78,0xd4,0x96,0xc5,0xee,0x4e,0x06,0xbb,0x96,
-0xec,0xf5,0x3c,0x32,0xd7,0xcf,0x93,0xb9,0x36,0x4e,0x4d,0xcb,0xff,0x26,0x9c,0x9a,
-0xe1,0x70,0x6a,0x1a,0xf0,0xa8,0xe7,0xe0,0x51,0xdf,0x0a,0xa7,0xc6,0x18,0x35,0x45,
-0xb0,0x67,0x8e,0x87,0x39,0x63,0xbc,0x99,0x53,0xe0,0xca,0x8c,0x82,0x27,0x53,0xbb,
-0x39,0xc9,0x5f,0x7f,0x04,0x2f,0xc6,0x3c,0x6a,0xcb,0x43,0xaf,0x83,0xbb,0x72,0x46,
-0xe0,0xad,0x18,0x67,0x65,0xaa,0xf4,0xd8,0x87,0xfa,0xfb,0x5b,0x93,0x7c,0xf4,0x71,
-0x21,0x17,0xdd,0x97,0x2c,0xf4,0xd0,0x2f,0xf0,0xa8,0x6b,0x43,0xce,0xb9,0x23,0x8f,
-0xda,0xb3,0xcc,0xd3,0xc9,0x2f,0x5f,0x1d,0x72,0xcb,0xf3,0xc8,0x2a,0xdf,0x47,0x46,
-0xd9,0xf2,0xc9,0xdb,0xa5,0x01,0xdb,0xd2,0xa9,0x7f,0x93,0x1e,0x95,0x56,0x4b,0xeb,
-0xa4,0x8f,0xa5,0xd2,0xed,0xfa,0xb7,0x49,0x1a,0x88,0x47,0x7d,0x99,0x34,0x43,0x7a,
-0x04,0x8f,0xba,0x60,0x87,0xee,0xa3,0x34,0x5e,0x9a,0x28,0x4d,0x93,0xde,0xf8,0x24,
-0x9d,0xfa,0x50,0xda,0x2f,0x5d,0xb9,0x3b,0x9d,0xfa,0x1f,0xe9,0x03,0xa9,0xec,0x53,
-0x7d,0x1f,0xd2,0x64,0x69,0xae,0xb4,0x4c,0x5a,0x21,0x5d,0xb3,0x47,0x3f,0x1b,0xe9,
-0x9c,0xbd,0x69,0x9d,0xf3,0xe8,0xe7,0x21,0x5d,0x2b,0xfd,0x48,0x7a,0x48,0x7a,0x42,
-0x7a,0x4e,0xfa,0x83,0xf4,0x93,0x7d,0xe9,0xd4,0xef,0xe0,0xb3,0xbc,0xfd,0x40,0x41,
-0xaa,0xfa,0x57,0x49,0xa6,0xfa,0x5e,0xb2,0xd4,0x96,0x9f,0xb6,0xec,0xb4,0x79,0xd4,
-0x37,0xa4,0x12,0xfe,0xca,0x81,0x96,0x6e,0x52,0x79,0x2a,0x7d,0x78,0xf7,0xc3,0x3b,
-0x77,0x4f,0xeb,0x55,0xa6,0x2c,0xd3,0xa9,0xa0,0x53,0x41,0x61,0x41,0xa6,0x48,0x2f,
-0xe9,0xee,0xe9,0x02,0x5d,0xa3,0x77,0x32,0x65,0x85,0x7a,0x53,0x58,0x94,0x69,0xff,
-0x92,0xd5,0x2b,0xde,0x2f,0xb2,0x77,0xb2,0xf6,0x3a,0x53,0x96,0x2d,0xf6,0x97,0xe2,
-0xd2,0x4c,0x49,0x59,0x49,0x41,0x49,0x26,0x5b,0x52,0x92,0x2d,0x2d,0x2b,0x2d,0xc9,
-0xea,0x8d,0xfe,0x90,0x95,0x0a,0x4b,0xec,0x4f,0x7a,0xd1,0xe7,0x65,0x8a,0xc3,0xdf,
-0xc9,0x16,0x97,0xd8,0x67,0x67,0x8b,0xda,0xbf,0x24,0x97,0xdc,0x7b,0xd9,0xe4,0xbd,
-0x32,0xbd,0x64,0xfd,0x03,0xf6,0x91,0x6c,0xee,0x4f,0x79,0x9f,0x9e,0x7c,0x7e,0x36,
-0x7e,0x2e,0x9f,0xd1,0xfa,0xd9,0x6d,0x97,0x2c,0xd2,0xb7,0xed,0x1f,0xc8,0x7d,0xdd,
-0xdc,0xb5,0x99,0xd6,0x6b,0x5a,0x95,0x0d,0x77,0xa9,0xf5,0x2b,0x65,0xb9,0x25,0xbd,
-0x2d,0x6b,0x7f,0xc7,0x8b,0xda,0xee,0x5f,0x36,0xd3,0xfa,0x5e,0x36,0x5e,0xdd,0xe1,
-0x77,0x5d,0xd4,0xfe,0x2e,0xe6,0x8e,0x7a,0xe7,0xdc,0x51,0x8f,0x37,0x9e,0xbc,0xd8,
-0x4d,0x66,0x32,0xd9,0x74,0xb8,0xcd,0xe4,0xe3,0x99,0xdc,0x4f,0x29,0xf7,0x5d,0xb4,
-0xde,0x2c,0x77,0x35,0x1b,0x6e,0xb0,0x83,0xfb,0x90,0xf5,0x23,0x1e,0xaf,0x8b,0xf7,
-0x2d,0x93,0xdc,0x25,0xde,0x76,0x4e,0x17,0x15,0x67,0x3a,0x77,0xef,0x51,0xde,0xad,
-0x6b,0x97,0x82,0xb2,0x4c,0x81,0xae,0x38,0xec,0x90,0xaf,0x1d,0x9a,0x2e,0x2c,0x2a,
-0xec,0x94,0xc9,0xa9,0x2c,0x9b,0xc9,0x7f,0x2c,0xe9,0x7e,0xb7,0xbe,0x9f,0xe9,0x54,
-0x96,0xbc,0xf5,0x87,0x5c,0xee,0xae,0xdb,0x1d,0xcf,0xb4,0xfe,0x00,0x38,0x18,0x19,
-0xbb,0x74,0xce,0xf0,0xc1,0xdc,0xdb,0xf0,0x80,0xfc,0xfc,0x4b,0xf2,0x4a,0x8f,0xbf,
-0xe4,0x30,0x64,0x5a,0x0f,0x62,0xee,0x4f,0xd9,0xdc,0xbd,0xe8,0xe0,0x60,0xe4,0x1d,
-0xe3,0xa2,0x0e,0x8f,0x4f,0xdb,0xb1,0xe5,0xa2,0x87,0x72,0xa7,0xe2,0xdc,0xa5,0xa4,
-0x24,0xa3,0x07,0x75,0xc6,0x6e,0xb7,0x20,0xf7,0xa2,0x27,0x9a,0x9e,0x29,0xba,0x32,
-0xdd,0xfe,0x39,0x97,0xfb,0x7b,0x65,0xba,0x2e,0xd3,0x76,0x6c,0x73,0x77,0x3a,0xf7,
-0xe0,0xcb,0x16,0xb6,0xfb,0xee,0x73,0xb7,0xd1,0x76,0xc9,0xe4,0x5e,0xeb,0xd1,0x9a,
-0x7b,0x9d,0x7b,0xdf,0xaf,0xcc,0xdd,0x87,0x6c,0x69,0xa9,0x5d,0x53,0x6c,0xcf,0xb9,
-0x62,0xbe,0xfd,0x6c,0xfb,0x1f,0x6e,0xfb,0x47,0x5e,0xbb,0x07,0xe1,0xe7,0x9e,0x85,
-0x45,0xf1,0x81,0x93,0x7f,0xb0,0xda,0x1d,0x9f,0xcc,0xe7,0x3e,0x14,0x8f,0x52,0xdb,
-0xcd,0x1d,0xec,0xf1,0x17,0x9e,0xaa,0x7c,0x91,0x6c,0xb6,0xfd,0xdd,0xf6,0x27,0x6d,
-0xde,0x13,0xa5,0xdd,0xfd,0xcd,0xe4,0x1d,0xb9,0x6c,0x51,0xf2,0x1c,0x49,0xfb,0x0f,
-0xdf,0x0f,0x7f,0xfe,0xa5,0xed,0xd1,0x53,0xd8,0x76,0xaf,0x92,0x4b,0xeb,0xaf,0xa2,
-0xe2,0xe4,0x77,0x97,0xfd,0xea,0xfa,0xb2,0x4b,0x26,0xb9,0x14,0x66,0xc2,0xaf,0xce,
-0x83,0x5e,0x0a,0xb9,0x0f,0x69,0xdd,0xcb,0xa2,0x54,0xdb,0x4e,0xdb,0x39,0xcc,0xcd,
-0xbe,0xea,0x2e,0x59,0xdf,0x1d,0xeb,0x3b,0x62,0x7d,0x27,0x6c,0xfe,0x0e,0xd8,0xfc,
-0xdd,0xaf,0xbe,0xd3,0xd5,0x77,0xb9,0xfa,0x0e,0x57,0xdf,0xd5,0xea,0xbb,0x59,0x7d,
-0x27,0xab,0xef,0x62,0xf5,0x1d,0xac,0xbe,0x7b,0xd5,0x77,0xae,0x6e,0x08,0x3b,0x54,
-0xbd,0x63,0x31,0x92,0xdd,0xa8,0xb5,0x61,0xe7,0xa9,0xef,0x3a,0xf5,0x79,0x95,0xef,
-0x26,0x5d,0xd5,0xc1,0x2e,0xd2,0xb5,0x61,0xf7,0xa8,0xef,0x1a,0xfd,0x2c,0xaf,0x2f,
-0x11,0x77,0x82,0x7e,0xd1,0x2e,0x50,0xdf,0xf9,0x19,0x77,0x7d,0xce,0x09,0x3b,0x3b,
-0x57,0x85,0x1d,0x9d,0xb1,0x03,0xe1,0x3b,0x38,0xf7,0xe6,0xcd,0x94,0x46,0x86,0xf9,
-0x51,0xfe,0x6e,0xcc,0xd8,0x6f,0xf0,0xdd,0x97,0xbe,0xeb,0x72,0x55,0x07,0xbb,0x28,
-0xd7,0x86,0xdd,0x93,0x29,0x66,0x3f,0xa3,0xbf,0x64,0x57,0xa4,0xef,0x84,0xbc,0x91,
-0xdd,0x8f,0xbe,0xd3,0x71,0x55,0xd8,0xdd,0xe8,0x3b,0x1b,0xe3,0xae,0x46,0xdf,0xcd,
-0x98,0x62,0xf7,0xa2,0xef,0x58,0x1c,0xdd,0xc1,0x4e,0xc5,0x09,0x61,0x77,0xa2,0xef,
-0x4c,0xf4,0x99,0x4e,0xdc,0x79,0xd8,0xd1,0xae,0x43,0xdf,0x71,0xe8,0xbb,0x0d,0x7d,
-0xa7,0xa1,0xef,0x30,0xf4,0x5d,0x84,0xbe,0x83,0xf0,0x45,0xe6,0x34,0xbe,0x53,0xf0,
-0xcb,0x76,0x09,0x7e,0x2f,0x6f,0x57,0xe0,0xc1,0x76,0x04,0x0e,0x60,0xf6,0x32,0x89,
-0xd9,0x8b,0xef,0xee,0xf3,0x9d,0x7d,0xbe,0xab,0xcf,0x77,0xf4,0xcd,0x66,0xf6,0xe2,
-0x3b,0xf7,0xee,0x66,0x06,0xe3,0x3b,0xeb,0x7c,0xb7,0xdc,0x20,0x66,0x21,0xbe,0x3b,
-0xce,0x77,0xc5,0x3d,0xc6,0xac,0xc3,0x77,0xbc,0xf9,0x6e,0x37,0x67,0x01,0xf9,0x8e,
-0xb6,0x5e,0x61,0xe7,0x9a,0xcd,0x2c,0x7a,0x84,0x59,0x84,0xcf,0x20,0xe2,0xee,0xb2,
-0x26,0x66,0x0d,0x31,0x0f,0x3f,0x36,0x6f,0x77,0xd8,0x6c,0x66,0x0a,0xcb,0x98,0x1f,
-0xd8,0x9c,0xa0,0x0f,0xf3,0x81,0xb8,0x53,0x6b,0x4b,0xd8,0x9d,0xb5,0x2b,0x6f,0x16,
-0xd0,0xcc,0x1c,0x60,0x1f,0xb3,0x80,0xf5,0xf8,0xe3,0xbe,0x5b,0xc9,0x77,0x25,0xf9,
-0x8e,0xa3,0x93,0xf1,0x7b,0x7d,0x27,0xd1,0x0c,0x3c,0x55,0xdf,0xe9,0xe3,0xbb,0x7b,
-0x7c,0x57,0x8f,0xef,0xce,0xf1,0x9d,0x39,0xbe,0x2b,0xa7,0x77,0xde,0x4e,0x1c,0xdf,
-0x85,0xf3,0x18,0x5e,0xa9,0xef,0xbc,0xf1,0xdd,0x36,0xbe,0xcb,0xe6,0x2c,0x7c,0xd2,
-0x98,0xe3,0x6d,0x0e,0x3b,0x66,0xfa,0xe3,0x7d,0xfa,0x4e,0x18,0xf7,0x3d,0xaf,0x0b,
-0x99,0xdc,0xa6,0xb0,0xbb,0xc5,0x77,0xb6,0xf8,0xae,0x16,0xdf,0xd1,0xf2,0x01,0x3b,
-0x57,0xdc,0xef,0x7c,0x2f,0xec,0x38,0x31,0x2f,0xd3,0x77,0x92,0xe4,0xef,0x0e,0xf1,
-0x5d,0x1b,0xbe,0x5b,0xc3,0x77,0x65,0x1c,0x6c,0xb7,0x43,0xfe,0x0e,0x07,0xdf,0xd1,
-0xe0,0x3b,0x16,0x7c,0x27,0x82,0xef,0x34,0x48,0x85,0x4c,0xe5,0x99,0x21,0x4b,0xd9,
-0x84,0x47,0xe5,0x3b,0x03,0xfa,0xe2,0x47,0xf9,0x2e,0x00,0x67,0xff,0x7b,0x66,0x72,
-0x25,0x4c,0xff,0xdf,0xe6,0x79,0x52,0xa7,0xe4,0x31,0xf7,0x37,0xe2,0x2d,0xa5,0xf0,
-0x95,0x9c,0x71,0x3f,0xfa,0x20,0x2c,0x7b,0x67,0xd8,0x1f,0x8c,0x5d,0x3f,0x18,0x0f,
-0xc9,0x59,0xef,0x4d,0x78,0x44,0xcb,0x03,0x7b,0xbd,0x39,0xb0,0xd5,0x2b,0xf1,0x80,
-0x1e,0xc6,0xdf,0x39,0x16,0x1f,0xe7,0x14,0xbc,0x9b,0x8e,0x58,0xe1,0xa3,0x03,0x13,
-0xdc,0xfd,0x9a,0x57,0x02,0xe3,0x7b,0x53,0x60,0x78,0x3b,0xbb,0x3b,0x66,0x07,0x23,
-0xa3,0x7b,0x22,0x9e,0xcc,0x7c,0xbc,0x98,0x8a,0xc0,0xc2,0x1e,0x93,0xc7,0xb8,0x36,
-0xaf,0xe5,0xcb,0x18,0xd5,0xce,0xa6,0xee,0x88,0x3d,0x6d,0x1e,0xcb,0x4e,0x18,0xd1,
-0xce,0x42,0x76,0x06,0xb2,0x33,0x8a,0xf3,0xd9,0xc4,0xf9,0x0c,0x62,0x67,0xfe,0x4e,
-0xfb,0x7b,0x99,0xbe,0x7f,0x2f,0xdb,0xf6,0xab,0xb2,0x6b,0xf1,0x12,0x9c,0x39,0xeb,
-0xac,0x56,0x67,0xb4,0x3a,0x43,0xf4,0xff,0x01,
+0x13,0x8f,0x8b,0x27,0xc5,0x53,0xe2,0x69,0xb1,0x45,0x3c,0x27,0x9e,0x17,0x2f,0x8a,
+0x97,0xc4,0xcb,0xe2,0x15,0x31,0xa6,0xc0,0xbe,0x00,0x5b,0xe0,0x54,0xe0,0x52,0xe0,
+0x56,0xe0,0x51,0xe0,0x55,0xe0,0x53,0x80,0x2f,0xf0,0x2f,0x20,0x14,0x90,0x0a,0x28,
+0x05,0xd4,0x82,0xb0,0x82,0x88,0x82,0xa8,0x02,0x5a,0x01,0xa3,0x20,0xb1,0x80,0x59,
+0xc0,0x2a,0x48,0x2f,0x60,0x17,0x64,0x15,0x70,0x0b,0xf8,0x05,0xc2,0x02,0x71,0x81,
+0xb4,0x40,0x5e,0xa0,0x2c,0x50,0x17,0xe8,0x0a,0x8c,0x05,0xa6,0x82,0x9a,0x82,0xfa,
+0x82,0xc6,0x82,0xe6,0x82,0xd6,0x82,0xf6,0x82,0xce,0x82,0xee,0x02,0x73,0x41,0x7f,
+0xc1,0x60,0xc1,0x50,0xc1,0x70,0xc1,0x48,0xc1,0x68,0xc1,0x58,0xc1,0x78,0xc1,0x64,
+0xc1,0x54,0xc1,0x74,0x81,0xa5,0x60,0xae,0x60,0xbe,0x60,0xb1,0x60,0xa9,0x60,0xb9,
+0x60,0xa5,0x00,0x53,0x68,0x5f,0x88,0x2d,0x74,0x2a,0x74,0x29,0x74,0x2b,0xf4,0x28,
+0xf4,0x2a,0xf4,0x29,0xc4,0x17,0xfa,0x17,0x12,0x0a,0x49,0x85,0x94,0x42,0x6a,0x61,
+0x58,0x61,0x44,0x61,0x54,0x21,0xad,0x90,0x51,0x98,0x58,0xc8,0x2c,0x64,0x15,0xa6,
+0x17,0xb2,0x0b,0xb3,0x0a,0xb9,0x85,0xfc,0x42,0x61,0xa1,0xb8,0x50,0x5a,0x28,0x2f,
+0x54,0x14,0x2a,0x0b,0xd5,0x85,0xba,0x42,0x63,0xa1,0xa9,0xb0,0xa6,0xb0,0xbe,0xb0,
+0xb1,0xb0,0xb9,0xb0,0xb5,0xb0,0xbd,0xb0,0xb3,0xb0,0xbb,0xd0,0x5c,0xd8,0x5f,0x38,
+0x58,0x38,0x54,0x38,0x5c,0x38,0x52,0x38,0x5a,0x38,0x56,0x38,0x5e,0x38,0x59,0x38,
+0x55,0x38,0x5d,0x68,0x29,0x9c,0x2b,0x9c,0x2f,0x5c,0x2c,0x5c,0x2a,0x5c,0x2e,0x5c,
+0x29,0xc4,0x48,0xec,0x25,0x58,0x89,0x93,0xc4,0x45,0xe2,0x26,0xf1,0x90,0x78,0x49,
+0x7c,0x24,0x78,0x89,0xbf,0x84,0x20,0x21,0x49,0x28,0x12,0xaa,0x24,0x4c,0x12,0x21,
+0x89,0x92,0xd0,0x24,0x0c,0x49,0xa2,0x84,0x29,0x61,0x49,0xd2,0x25,0x6c,0x49,0x96,
+0x84,0x2b,0xe1,0x4b,0x84,0x12,0xb1,0x44,0x2a,0x91,0x4b,0x94,0x12,0xb5,0x44,0x27,
+0x31,0x4a,0x4c,0x92,0x1a,0x49,0xbd,0xa4,0x51,0xd2,0x2c,0x69,0x95,0xb4,0x4b,0x3a,
+0x25,0xdd,0x12,0xb3,0xa4,0x5f,0x32,0x28,0x19,0x92,0x0c,0x4b,0x46,0x24,0xa3,0x92,
+0x31,0xc9,0xb8,0x64,0x52,0x32,0x25,0x99,0x96,0x58,0x24,0x73,0x92,0x79,0xc9,0xa2,
+0x64,0x49,0xb2,0x2c,0x59,0x91,0x60,0xa4,0xf6,0x52,0xac,0xd4,0x49,0xea,0x22,0x75,
+0x93,0x7a,0x48,0xbd,0xa4,0x3e,0x52,0xbc,0xd4,0x5f,0x4a,0x90,0x92,0xa4,0x14,0x29,
+0x55,0x1a,0x26,0x8d,0x90,0x46,0x49,0x69,0x52,0x86,0x34,0x51,0xca,0x94,0xb2,0xa4,
+0xe9,0x52,0xb6,0x34,0x4b,0xca,0x95,0xf2,0xa5,0x42,0xa9,0x58,0x2a,0x95,0xca,0xa5,
+0x4a,0xa9,0x5a,0xaa,0x93,0x1a,0xa5,0x26,0x69,0x8d,0xb4,0x5e,0xda,0x28,0x6d,0x96,
+0xb6,0x4a,0xdb,0xa5,0x9d,0xd2,0x6e,0xa9,0x59,0xda,0x2f,0x1d,0x94,0x0e,0x49,0x87,
+0xa5,0x23,0xd2,0x51,0xe9,0x98,0x74,0x5c,0x3a,0x29,0x9d,0x92,0x4e,0x4b,0x2d,0xd2,
+0x39,0xe9,0xbc,0x74,0x51,0xba,0x24,0x5d,0x96,0xae,0x48,0x31,0x45,0xf6,0x45,0xd8,
+0x22,0xa7,0x22,0x97,0x22,0xb7,0x22,0x77,0x88,0x47,0x91,0x57,0x91,0x4f,0x11,0xbe,
+0xc8,0xbf,0x88,0x50,0x44,0x2a,0xa2,0x14,0x51,0x8b,0xc2,0x8a,0x22,0x8a,0xa2,0x8a,
+0x68,0x45,0x8c,0xa2,0xc4,0x22,0x66,0x11,0xab,0x28,0xbd,0x88,0x5d,0x94,0x55,0xc4,
+0x2d,0xe2,0x17,0x09,0x8b,0xc4,0x45,0xd2,0x22,0x79,0x91,0xb2,0x48,0x5d,0xa4,0x2b,
+0x32,0x16,0x99,0x8a,0x6a,0x8a,0xea,0x8b,0x1a,0x8b,0x9a,0x8b,0x5a,0x8b,0xda,0x8b,
+0x3a,0x8b,0xba,0x8b,0xcc,0x45,0xfd,0x45,0x83,0x45,0x43,0x45,0xc3,0x45,0x23,0x45,
+0xa3,0x45,0x63,0x45,0xe3,0x45,0x93,0x45,0x53,0x45,0xd3,0x45,0x96,0xa2,0xb9,0xa2,
+0xf9,0xa2,0xc5,0xa2,0xa5,0xa2,0xe5,0xa2,0x95,0x22,0x4c,0xb1,0x7d,0x31,0xb6,0xd8,
+0xa9,0xd8,0xa5,0xd8,0xad,0xd8,0xa3,0xd8,0xab,0xd8,0xa7,0x18,0x5f,0xec,0x5f,0x4c,
+0x28,0x26,0x15,0x53,0x8a,0xa9,0xc5,0x61,0xc5,0x11,0xc5,0x51,0xc5,0xb4,0x62,0x46,
+0x71,0x62,0x31,0xb3,0x98,0x55,0x9c,0x5e,0xcc,0x2e,0xce,0x2a,0xe6,0x16,0xf3,0x8b,
+0x85,0xc5,0xe2,0x62,0x49,0xb1,0xb4,0x58,0x5e,0xac,0x2c,0x56,0x17,0xeb,0x8a,0x8d,
+0xc5,0xa6,0xe2,0x9a,0xe2,0xfa,0xe2,0xc6,0xe2,0xe6,0xe2,0xd6,0xe2,0xf6,0xe2,0xce,
+0xe2,0xee,0x62,0x73,0x71,0x7f,0xf1,0x60,0xf1,0x50,0xf1,0x70,0xf1,0x48,0xf1,0x68,
+0xf1,0x58,0xf1,0x78,0xf1,0x64,0xf1,0x54,0xf1,0x74,0xb1,0xa5,0x78,0xae,0x78,0xbe,
+0x78,0xb1,0x78,0xa9,0x78,0xb9,0x78,0xa5,0x18,0x23,0xb3,0x97,0x61,0x65,0x4e,0x32,
+0x17,0x99,0x9b,0xcc,0x43,0xe6,0x25,0xf3,0x91,0xe1,0x65,0xfe,0x32,0x82,0x8c,0x24,
+0xa3,0xc8,0xa8,0xb2,0x30,0x59,0x84,0x2c,0x4a,0x46,0x93,0x31,0x64,0x89,0x32,0xa6,
+0x8c,0x25,0x4b,0x97,0xb1,0x65,0x59,0x32,0xae,0x8c,0x2f,0x13,0xca,0xc4,0x32,0xa9,
+0x4c,0x2e,0x53,0xca,0xd4,0x32,0x9d,0xcc,0x28,0x33,0xc9,0x6a,0x64,0xf5,0xb2,0x46,
+0x59,0xb3,0xac,0x55,0xd6,0x2e,0xeb,0x94,0x75,0xcb,0xcc,0xb2,0x7e,0xd9,0xa0,0x6c,
+0x48,0x36,0x2c,0x1b,0x91,0x8d,0xca,0xc6,0x64,0xe3,0xb2,0x49,0xd9,0x94,0x6c,0x5a,
+0x66,0x91,0xcd,0xc9,0xe6,0x65,0x8b,0xb2,0x25,0xd9,0xb2,0x6c,0x45,0x86,0x91,0xdb,
+0xcb,0xb1,0x72,0x27,0xb9,0x8b,0xdc,0x4d,0xee,0x21,0xf7,0x92,0xfb,0xc8,0xf1,0x72,
+0x7f,0x39,0x41,0x4e,0x92,0x53,0xe4,0x54,0x79,0x98,0x3c,0x42,0x1e,0x25,0xa7,0xc9,
+0x19,0xf2,0x44,0x39,0x53,0xce,0x92,0xa7,0xcb,0xd9,0xf2,0x2c,0x39,0x57,0xce,0x97,
+0x0b,0xe5,0x62,0xb9,0x54,0x2e,0x97,0x2b,0xe5,0x6a,0xb9,0x4e,0x6e,0x94,0x9b,0xe4,
+0x35,0xf2,0x7a,0x79,0xa3,0xbc,0x59,0xde,0x2a,0x6f,0x97,0x77,0xca,0xbb,0xe5,0x66,
+0x79,0xbf,0x7c,0x50,0x3e,0x24,0x1f,0x96,0x8f,0xc8,0x47,0xe5,0x63,0xf2,0x71,0xf9,
+0xa4,0x7c,0x4a,0x3e,0x2d,0xb7,0xc8,0xe7,0xe4,0xf3,0xf2,0x45,0xf9,0x92,0x7c,0x59,
+0xbe,0x22,0xc7,0x94,0xd8,0x97,0x60,0x4b,0x9c,0x4a,0x5c,0x4a,0xdc,0x4a,0x3c,0x4a,
+0xbc,0x4a,0x7c,0x4a,0xf0,0x25,0xfe,0x25,0x84,0x12,0x52,0x09,0xa5,0x84,0x5a,0x12,
+0x56,0x12,0x51,0x12,0x55,0x42,0x2b,0x61,0x94,0x24,0x96,0x30,0x4b,0x58,0x25,0xe9,
+0x25,0xec,0x92,0xac,0x12,0x6e,0x09,0xbf,0x44,0x58,0x22,0x2e,0x91,0x96,0xc8,0x4b,
+0x94,0x25,0xea,0x12,0x5d,0x89,0xb1,0xc4,0x54,0x52,0x53,0x52,0x5f,0xd2,0x58,0xd2,
+0x5c,0xd2,0x5a,0xd2,0x06,0x69,0x2f,0xe9,0x2c,0xe9,0x2e,0x31,0x97,0xf4,0x97,0x0c,
+0x96,0x0c,0x95,0x0c,0x97,0x8c,0x94,0x8c,0x96,0x8c,0x95,0x8c,0x97,0x4c,0x96,0x4c,
+0x95,0x4c,0x97,0x58,0x4a,0xe6,0x4a,0xe6,0x4b,0x16,0x4b,0x96,0x4a,0x96,0x4b,0x56,
+0x4a,0x30,0xa5,0xf6,0xa5,0xd8,0x52,0xa7,0x52,0x97,0x52,0xb7,0x52,0x8f,0x52,0xaf,
+0x52,0x9f,0x52,0x7c,0xa9,0x7f,0x29,0xa1,0x94,0x54,0x4a,0x29,0xa5,0x96,0x86,0x95,
+0x46,0x94,0x46,0x95,0xd2,0x4a,0x19,0xa5,0x89,0xa5,0xcc,0x52,0x56,0x69,0x7a,0x29,
+0xbb,0x34,0xab,0x94,0x5b,0xca,0x2f,0x15,0xfc,0xdd,0x11,0x96,0x8a,0x4b,0xa5,0xa5,
+0xf2,0x52,0x65,0xa9,0xba,0x54,0x57,0x6a,0x2c,0x35,0x95,0xd6,0x94,0xd6,0x97,0x36,
+0x96,0x36,0x97,0xb6,0x96,0xb6,0x97,0x76,0x96,0x76,0x97,0x9a,0x4b,0xfb,0x4b,0x07,
+0x4b,0x87,0x4a,0x87,0x4b,0x47,0x4a,0x47,0x4b,0xc7,0x4a,0xc7,0x4b,0x27,0x4b,0xa7,
+0x4a,0xa7,0x4b,0x2d,0xa5,0x73,0xa5,0xf3,0xa5,0x8b,0xa5,0x4b,0xa5,0xcb,0xa5,0x2b,
+0xa5,0x18,0x85,0xbd,0x02,0xab,0x70,0x52,0xb8,0x28,0xdc,0x14,0x1e,0x0a,0x2f,0x85,
+0x8f,0x02,0xaf,0xf0,0x57,0x10,0x14,0x24,0x05,0x45,0x41,0x55,0x84,0x29,0x22,0x14,
+0x51,0x0a,0x9a,0x82,0xa1,0x48,0x54,0x30,0x15,0x2c,0x45,0xba,0x82,0xad,0xc8,0x52,
+0x70,0xd6,0xf8,0x33,0xe0,0x2a,0xf8,0x0a,0xa1,0x42,0xac,0x90,0x28,0xa4,0x0a,0xb9,
+0x42,0xa9,0x50,0x2b,0x74,0x0a,0xa3,0xc2,0xa4,0xa8,0x51,0xd4,0x2b,0x1a,0x15,0xcd,
+0x8a,0x56,0x45,0xbb,0xa2,0x53,0xd1,0xad,0x30,0x2b,0xfa,0x15,0x83,0x8a,0x21,0xc5,
+0xb0,0x62,0x44,0x31,0xaa,0x18,0x53,0x8c,0x2b,0x26,0x15,0x53,0x8a,0x69,0xc5,0x8c,
+0xc2,0xa2,0x98,0x53,0xbc,0x54,0xcc,0x2b,0x16,0x20,0x8b,0x8a,0x57,0x8a,0x25,0xc5,
+0xb2,0x62,0x45,0x81,0x51,0xda,0x2b,0xb1,0x4a,0x27,0xa5,0x8b,0xd2,0x4d,0xe9,0xa1,
+0xf4,0x54,0x7a,0x29,0x7d,0x94,0x78,0xa5,0xbf,0x32,0x40,0x49,0x50,0x12,0x95,0x24,
+0x25,0xf9,0x2d,0x28,0xca,0x60,0x1b,0x54,0x65,0xa8,0x32,0x4c,0x19,0xae,0x8c,0x50,
+0x46,0x2a,0xa3,0x94,0x34,0x25,0x43,0x99,0xa0,0x4c,0x54,0x32,0x95,0xa9,0x4a,0x96,
+0x32,0x0d,0x92,0xae,0xcc,0x50,0xb2,0x95,0x99,0xca,0x2c,0x25,0x47,0xc9,0x55,0xf2,
+0x94,0x7c,0xa5,0x40,0x29,0x54,0x8a,0x95,0x12,0xa5,0x54,0x09,0xb7,0x12,0xa5,0x5c,
+0xa9,0x54,0xaa,0x95,0x3a,0xa5,0x41,0x69,0x54,0x9a,0x94,0x35,0xca,0x7a,0x65,0xa3,
+0xb2,0x59,0xd9,0xaa,0x6c,0x53,0xb6,0x2b,0x3b,0x95,0xdd,0x4a,0xb3,0xb2,0x4f,0xd9,
+0xaf,0x1c,0x54,0x0e,0x29,0x87,0x95,0x0f,0x95,0x23,0xca,0x47,0xca,0x51,0xe5,0x98,
+0x72,0x5c,0x39,0xa9,0x9c,0x52,0x4e,0x2b,0x2d,0xca,0x39,0xe5,0xbc,0x72,0x51,0xf9,
+0x4a,0xb9,0xa4,0x5c,0x56,0xae,0x28,0x31,0x65,0xf6,0x65,0xd8,0x32,0xa7,0x32,0x97,
+0x32,0xb7,0x32,0x8f,0x32,0xaf,0x32,0x9f,0x32,0x7c,0x99,0x7f,0x19,0xa1,0x8c,0x54,
+0x46,0x29,0x0b,0xfe,0x05,0x6a,0x59,0x58,0x59,0x44,0x59,0x64,0x59,0x54,0x19,0xad,
+0x8c,0x51,0x96,0x58,0xc6,0x2c,0x4b,0x2d,0x63,0x95,0xa5,0x97,0xb1,0xcb,0xb2,0xca,
+0xb8,0x65,0xfc,0x32,0x61,0x99,0xb8,0x4c,0x5a,0x26,0x2f,0x53,0x96,0xa9,0xcb,0x74,
+0x65,0xc6,0x32,0x53,0x59,0x4d,0x59,0x7d,0x59,0xc3,0xff,0x1a,0x1a,0xcb,0x5a,0xcb,
+0x3a,0xcb,0xcc,0x65,0x83,0x65,0xc3,0x65,0xa3,0x65,0xe3,0x65,0x53,0x65,0x96,0xb2,
+0xf9,0xb2,0x57,0xbf,0xb0,0x54,0x86,0xb9,0xe8,0x74,0xd1,0xe3,0x22,0xfe,0x22,0xe9,
+0x62,0xd8,0x45,0xda,0x45,0xe6,0x45,0xf6,0x45,0xfe,0x45,0xe9,0x45,0xf5,0x45,0xd3,
+0xc5,0xc6,0x8b,0xed,0x17,0xcd,0x17,0x87,0x2e,0x8e,0x5e,0x9c,0xbc,0x68,0xb9,0xb8,
+0x78,0x71,0xe5,0x22,0x56,0xe5,0xa6,0xf2,0x51,0x11,0x54,0x54,0x55,0x98,0x2a,0x42,
+0x45,0x53,0x25,0xa8,0x12,0x55,0x4c,0x15,0x4b,0x95,0xae,0x62,0xab,0xb2,0x54,0x5c,
+0x15,0x5f,0x25,0x54,0x89,0x55,0x52,0x95,0x5c,0xa5,0x54,0xa9,0x55,0x3a,0x95,0x51,
+0x65,0x52,0xd5,0xa8,0xea,0x55,0x8d,0xaa,0x66,0x55,0xab,0xaa,0x5d,0xd5,0xa9,0xea,
+0x56,0x99,0x55,0xfd,0xaa,0x21,0xd5,0x88,0x6a,0x4c,0x35,0xa9,0xb2,0xa8,0x5e,0xfe,
+0x15,0xcc,0xab,0x96,0x54,0x2b,0x2a,0x3b,0xf5,0xaf,0x81,0xbd,0xda,0xf1,0x5f,0x1c,
+0x27,0xb5,0x9b,0xda,0x4b,0xed,0xfd,0x27,0xf1,0x51,0xe3,0xd5,0xfe,0x6a,0x82,0x9a,
+0xa2,0xa6,0xaa,0xc3,0xd4,0x11,0xea,0x28,0x35,0x4d,0xcd,0x50,0x27,0xaa,0x99,0x6a,
+0x96,0x3a,0x5d,0xcd,0x56,0x67,0xa9,0xb9,0x6a,0xbe,0x5a,0xa8,0x16,0xab,0xa5,0x6a,
+0xb9,0x5a,0xa9,0x56,0xab,0x75,0x6a,0xa3,0xda,0xa4,0xae,0x51,0xd7,0xab,0x1b,0xd5,
+0xcd,0xea,0x56,0x75,0xbb,0xba,0x53,0xdd,0xad,0x36,0xab,0xfb,0xd5,0x83,0xea,0x21,
+0xf5,0xb0,0x7a,0x44,0x3d,0xaa,0x1e,0x53,0x3f,0xb1,0x31,0xae,0x9e,0x56,0xcf,0xab,
+0x97,0xd5,0xf6,0xe5,0x2e,0xe5,0x5e,0xe5,0xfe,0xe5,0x94,0xf2,0xf0,0xdf,0x23,0xa2,
+0x3c,0xaa,0x3c,0x7a,0x8d,0x35,0xd6,0xf8,0x2b,0xa1,0x95,0x33,0xca,0x13,0xcb,0x99,
+0xe5,0xac,0xf2,0xf4,0x72,0x76,0x79,0x56,0x39,0xb7,0x9c,0x5f,0x2e,0xf8,0x03,0x44,
+0xe5,0x92,0x72,0x59,0xb9,0xa2,0x5c,0x55,0xae,0x2d,0x37,0x94,0x57,0x95,0x57,0x97,
+0xd7,0x95,0x37,0x94,0x37,0x95,0xb7,0x94,0xb7,0x95,0x77,0x94,0x77,0x95,0xf7,0x96,
+0xf7,0x95,0x0f,0x94,0xdf,0x2f,0x7f,0x50,0xfe,0xb0,0xfc,0x51,0xf9,0xe3,0xf2,0x27,
+0xe5,0x13,0xe5,0x4f,0xcb,0x9f,0x95,0xcf,0x94,0xcf,0x96,0xbf,0x2c,0x5f,0x28,0x7f,
+0x55,0xfe,0xba,0xfc,0x4d,0x39,0xd0,0xd8,0x69,0x1c,0x34,0x8e,0x1a,0x9c,0xc6,0x55,
+0xe3,0xae,0xf1,0xd4,0x78,0x6b,0x7c,0x35,0x7e,0x9a,0x00,0x0d,0x51,0x43,0xd6,0x04,
+0x6b,0x42,0x35,0xe1,0x9a,0x48,0x4d,0xb4,0x86,0xae,0x49,0xd0,0xa4,0x68,0x52,0x35,
+0x69,0x9a,0x0c,0x4d,0xa6,0x86,0xa3,0xe1,0x69,0x04,0x1a,0x91,0x46,0xa2,0x91,0x69,
+0x14,0x1a,0x95,0x46,0xab,0x31,0x68,0xaa,0x34,0xd5,0x9a,0x3a,0x4d,0x83,0xa6,0x49,
+0xd3,0xa2,0x69,0xd3,0x74,0x68,0xba,0x34,0xbd,0x9a,0x3e,0xcd,0x80,0xe6,0xbe,0xe6,
+0x81,0xe6,0xa1,0xe6,0x91,0xe6,0xb1,0xe6,0x89,0x66,0x42,0xf3,0x54,0xf3,0x4c,0x33,
+0xa3,0x99,0xd5,0xbc,0xd4,0x2c,0x68,0x5e,0x69,0x5e,0x6b,0xde,0x68,0x80,0xd6,0x4e,
+0xeb,0xa0,0x75,0xd4,0xe2,0xb4,0xae,0x5a,0x77,0xad,0xa7,0xd6,0x5b,0xeb,0xab,0xf5,
+0xd3,0x06,0x68,0x89,0x5a,0xb2,0x36,0x58,0x1b,0xaa,0x0d,0xd7,0x46,0x6a,0xa3,0xb5,
+0x74,0x6d,0x82,0x36,0x45,0x9b,0xaa,0x4d,0xd3,0x66,0x68,0x33,0xb5,0x1c,0x2d,0x4f,
+0x2b,0xd0,0x8a,0xb4,0x12,0xad,0x4c,0xab,0xd0,0xaa,0xb4,0x5a,0xad,0x41,0x5b,0xa5,
+0xad,0xd6,0xd6,0x69,0x1b,0xb4,0x4d,0xda,0x16,0x6d,0x9b,0xb6,0x43,0xdb,0xa5,0xed,
+0xd5,0xf6,0x69,0x07,0xb4,0xf7,0xb5,0x0f,0xb4,0x0f,0xb5,0x8f,0xb4,0x8f,0xb5,0x4f,
+0xb4,0x13,0xda,0xa7,0xda,0x67,0xda,0x19,0xed,0xac,0xf6,0xa5,0x76,0x41,0xfb,0x4a,
+0xfb,0x5a,0xfb,0x46,0x0b,0x74,0x76,0x3a,0x07,0x9d,0xa3,0x0e,0xa7,0x73,0xd5,0xb9,
+0xeb,0x3c,0x75,0xde,0x3a,0x5f,0x9d,0x9f,0x2e,0x40,0x47,0xd4,0x91,0x75,0xc1,0xba,
+0x50,0x5d,0xb8,0x2e,0x52,0x17,0xad,0xa3,0xeb,0x12,0x74,0x29,0xba,0x54,0x5d,0x9a,
+0x2e,0x43,0x97,0xa9,0xe3,0xe8,0x78,0x3a,0x81,0x4e,0xa4,0x93,0xe8,0x64,0x3a,0x85,
+0x4e,0xa5,0xd3,0xea,0x0c,0xba,0x2a,0x5d,0xb5,0xae,0x4e,0xd7,0xa0,0x6b,0xd2,0xb5,
+0xe8,0xda,0x74,0x1d,0xba,0x2e,0x5d,0xaf,0xae,0x4f,0x37,0xa0,0xbb,0xaf,0x7b,0xa0,
+0x7b,0xa8,0x7b,0xa4,0x7b,0xac,0x7b,0xa2,0x9b,0xd0,0x3d,0xd5,0x3d,0xd3,0xcd,0xe8,
+0x66,0x75,0x2f,0x75,0x0b,0xba,0x57,0xba,0xd7,0xba,0x37,0x3a,0xa0,0xb7,0xd3,0x3b,
+0xe8,0x1d,0xf5,0x38,0xbd,0xab,0xde,0x5d,0xef,0xa9,0xf7,0xd6,0xfb,0xea,0xfd,0xf4,
+0x01,0x7a,0xa2,0x9e,0xac,0x0f,0xd6,0x87,0xea,0xc3,0xf5,0x91,0xfa,0x68,0x3d,0x5d,
+0x9f,0xa0,0x4f,0xd1,0xa7,0xea,0xd3,0xf4,0x19,0xfa,0x4c,0x3d,0x47,0xcf,0xd3,0x0b,
+0x20,0x22,0xbd,0x44,0x2f,0xd3,0x2b,0xf4,0x2a,0xbd,0x56,0x6f,0xd0,0x57,0xe9,0xab,
+0xf5,0x75,0xfa,0x06,0x7d,0x93,0xbe,0x45,0xdf,0xa6,0xef,0xd0,0x77,0xe9,0x7b,0xf5,
+0x7d,0xfa,0x01,0xfd,0x7d,0xfd,0x03,0xfd,0x43,0xfd,0x23,0xfd,0x63,0xfd,0x13,0xfd,
+0x84,0xfe,0xa9,0xfe,0x99,0x7e,0x46,0x3f,0xab,0x7f,0xa9,0x5f,0xd0,0xbf,0xd2,0xbf,
+0xd6,0xbf,0xd1,0x83,0x0a,0xbb,0x0a,0x87,0x0a,0xc7,0x0a,0x5c,0x85,0x6b,0x85,0x7b,
+0x85,0x67,0x85,0x77,0x85,0x6f,0x85,0x5f,0x45,0x40,0x05,0xb1,0x82,0x5c,0x11,0x5c,
+0x11,0x5a,0x11,0x5e,0x11,0x59,0x11,0x5d,0x41,0xaf,0x48,0xa8,0x48,0xa9,0x48,0xad,
+0x48,0xab,0xc8,0xa8,0xc8,0xac,0xe0,0x54,0xf0,0x2a,0x04,0x15,0xa2,0x0a,0x49,0x85,
+0xac,0x42,0x51,0xa1,0xaa,0xd0,0x56,0x18,0x2a,0xaa,0x2a,0xaa,0x2b,0xea,0x2a,0x1a,
+0x2a,0x9a,0x2a,0x5a,0x2a,0xda,0x2a,0x3a,0x2a,0xba,0x2a,0x7a,0x2b,0xfa,0x2a,0x06,
+0x2a,0xee,0x57,0x3c,0xa8,0x78,0x58,0xf1,0xa8,0xe2,0x71,0xc5,0x93,0x8a,0x89,0x8a,
+0xa7,0x15,0xcf,0x2a,0x66,0x2a,0x66,0x2b,0x5e,0x56,0x2c,0x54,0xbc,0xaa,0x78,0x5d,
+0xf1,0xa6,0x02,0x18,0xec,0x0c,0x0e,0x06,0x47,0x03,0xce,0xe0,0x6a,0x70,0x37,0x78,
+0x1a,0xbc,0x0d,0xbe,0x06,0x3f,0x43,0x80,0x81,0x68,0x20,0x1b,0x82,0x0d,0xa1,0x86,
+0x70,0x43,0xa4,0x21,0xda,0x40,0x37,0x24,0x18,0x52,0x0c,0xa9,0x86,0x34,0x43,0x86,
+0x21,0xd3,0xc0,0x31,0xf0,0x0c,0x02,0x83,0xc8,0x20,0x31,0xc8,0x0c,0x0a,0x83,0xca,
+0xa0,0x35,0x18,0x0c,0x55,0x86,0x6a,0x43,0x9d,0xa1,0xc1,0xd0,0x64,0x68,0x31,0xb4,
+0x19,0x3a,0x0c,0x5d,0x86,0x5e,0x43,0x9f,0x61,0xc0,0x70,0xdf,0xf0,0xc0,0xf0,0xd0,
+0xf0,0xc8,0xf0,0xd8,0xf0,0xc4,0x30,0x61,0x78,0x6a,0x78,0x66,0x98,0x31,0xcc,0x1a,
+0x5e,0x1a,0x16,0x0c,0xaf,0x0c,0xaf,0x0d,0x6f,0x0c,0xc0,0x68,0x67,0x74,0x30,0x3a,
+0x1a,0x71,0x46,0x57,0xa3,0xbb,0xd1,0xd3,0xe8,0x6d,0xf4,0x35,0xfa,0x19,0x03,0x8c,
+0x44,0x23,0xd9,0x18,0x6c,0x0c,0x35,0x86,0x1b,0x23,0x8d,0xd1,0x46,0xba,0x31,0xc1,
+0x98,0x62,0x4c,0x35,0xa6,0x19,0x33,0x8c,0x99,0x46,0x8e,0x91,0x67,0x14,0x18,0x45,
+0x46,0x89,0x51,0x66,0x54,0x18,0x55,0x46,0xad,0xd1,0x60,0xac,0x32,0x56,0x1b,0xeb,
+0x8c,0x0d,0xc6,0x26,0x63,0x8b,0xb1,0xcd,0xd8,0x61,0xec,0x32,0xf6,0x1a,0xfb,0x8c,
+0x03,0xc6,0xfb,0xc6,0x07,0xc6,0x87,0xc6,0x47,0xc6,0xc7,0xc6,0x27,0xc6,0x09,0xe3,
+0x53,0xe3,0x33,0xe3,0x8c,0x71,0xd6,0xf8,0xd2,0xb8,0x60,0x7c,0x65,0x7c,0x6d,0x7c,
+0x63,0x04,0x95,0x76,0x95,0x0e,0x95,0x8e,0x95,0xb8,0x4a,0xd7,0x4a,0xf7,0x4a,0xcf,
+0x4a,0xef,0x4a,0xdf,0x4a,0xbf,0xca,0x80,0x4a,0x62,0x25,0xb9,0x32,0xb8,0x32,0xb4,
+0x32,0xbc,0x32,0xb2,0x32,0xba,0x92,0x5e,0x99,0x50,0x99,0x52,0x99,0x5a,0x99,0x56,
+0x99,0x51,0x99,0x59,0xc9,0xa9,0xe4,0x55,0x0a,0x20,0xa2,0x4a,0x49,0xa5,0xac,0x52,
+0x51,0xa9,0xaa,0xd4,0x56,0x1a,0x2a,0xab,0x2a,0xab,0x2b,0xeb,0x2a,0x1b,0x2a,0x9b,
+0x2a,0x5b,0x2a,0xdb,0x2a,0x3b,0x2a,0xbb,0x2a,0x7b,0x2b,0xfb,0x2a,0x07,0x2a,0xef,
+0x57,0x3e,0xa8,0x7c,0x58,0xf9,0xa8,0xf2,0x71,0xe5,0x93,0xca,0x89,0xca,0xa7,0x95,
+0xcf,0x2a,0x67,0x2a,0x67,0xd7,0xf8,0x17,0x00,0x58,0x3f,0xde,0xb6,0xe4,0xb0,0x1e,
+0x00,0xb6,0xad,0x6c,0x07,0xcb,0xef,0xc1,0xfc,0xa0,0xad,0x8e,0x81,0xf5,0x81,0xf5,
+0xab,0xe5,0x7d,0x30,0x27,0xc1,0xfc,0x02,0x58,0xcd,0x23,0x61,0x23,0xf9,0xad,0xf2,
+0xcf,0xc7,0xfd,0xdc,0x1e,0x81,0x2e,0xb2,0x7e,0x35,0xc7,0xd8,0xf2,0x75,0xb6,0x7c,
+0xbd,0x2d,0x77,0xb0,0xe5,0x9b,0x60,0x7e,0xc4,0x76,0x8d,0x28,0xdb,0x71,0x51,0xb6,
+0xe3,0xa2,0x6c,0xc7,0x45,0xd9,0xc6,0xd3,0x6c,0xfd,0x34,0x5b,0x3f,0xcd,0xd6,0x4f,
+0xb3,0xf5,0xc7,0xd9,0xce,0x1f,0x6f,0x1b,0x17,0x6f,0x1b,0x17,0x6f,0x1b,0x17,0xff,
+0x56,0x3f,0x1a,0xcf,0xb4,0x8d,0x63,0xda,0xc6,0x31,0x6d,0xe3,0x98,0xb6,0x7e,0x96,
+0xad,0x9d,0x6d,0x1b,0xc7,0x7e,0xab,0xbe,0xce,0x96,0xaf,0xb7,0xe5,0x3f,0xdb,0x12,
+0xdd,0xcf,0x59,0xdb,0xfd,0x64,0xd9,0x8e,0xcb,0xb2,0x1d,0x97,0x65,0x3b,0x2e,0xcb,
+0x36,0x9e,0x6b,0xeb,0xe7,0xda,0xfa,0xb9,0xb6,0x7e,0xae,0xad,0xff,0xbc,0xed,0xfc,
+0x17,0x6c,0xe3,0x2e,0xd8,0xc6,0x5d,0xb0,0x8d,0xbb,0xf0,0x56,0x3f,0x1a,0x2f,0xb6,
+0x8d,0x13,0xdb,0xc6,0x89,0x6d,0xe3,0xc4,0xb6,0x7e,0xa9,0xad,0x5d,0xfa,0x96,0xfd,
+0xed,0x6c,0xf3,0xb6,0xb3,0xd5,0x37,0xd8,0xea,0x1b,0x6c,0x75,0x3f,0x5b,0xdd,0xcf,
+0xe6,0x27,0x8c,0xed,0xfe,0x30,0xb6,0xfa,0x3a,0x5b,0x7d,0x9d,0xad,0xbe,0xd1,0x56,
+0xdf,0x68,0xab,0x3b,0xda,0xea,0x28,0x8f,0xb4,0xe5,0x99,0xb6,0x3c,0xca,0x76,0xdd,
+0x2c,0x5b,0x1e,0x65,0xbb,0x6e,0x96,0x2d,0x8f,0xb2,0x9d,0x27,0xcb,0x96,0x47,0xd9,
+0xe6,0x91,0x65,0xcb,0xa3,0x6c,0xe7,0xc9,0xb2,0xe5,0xc7,0x6c,0xf3,0x38,0x67,0xcb,
+0x8f,0xd9,0xce,0x73,0xce,0x96,0x1f,0xb3,0x9d,0xe7,0x9c,0x2d,0x3f,0x66,0xf3,0xd3,
+0x39,0x5b,0x1e,0x6d,0x3b,0x8e,0xf3,0x56,0x5c,0xad,0xb7,0xf9,0x63,0xbd,0xad,0x6e,
+0x67,0xab,0xdb,0xd9,0xea,0x1b,0x6c,0xf5,0x0d,0xb6,0xba,0x9f,0xad,0xee,0x67,0xab,
+0x6f,0xb4,0xe5,0x31,0x60,0xb5,0x3d,0xc7,0x56,0x46,0xe7,0xcf,0xb1,0xe5,0xb1,0xb6,
+0xeb,0xe7,0xda,0x72,0xba,0xcd,0xbe,0x3c,0x5b,0x4e,0xb7,0xb5,0xf3,0xde,0xea,0x77,
+0xb4,0xd5,0x1d,0x6d,0xf5,0x3b,0x60,0xb5,0x8e,0xf2,0x38,0xdb,0x71,0xe7,0x6d,0x79,
+0x9c,0xed,0xb8,0xf3,0xb6,0x3c,0xce,0x76,0xdc,0x79,0x5b,0x3e,0xb0,0x6e,0xb5,0x1c,
+0x6f,0xbb,0xaf,0x0b,0xb6,0x3c,0xde,0x76,0x5f,0x17,0x6c,0x39,0xaa,0x6f,0xb6,0xd5,
+0x51,0x9e,0x64,0x3b,0x7f,0x9e,0x2d,0x4f,0xb2,0x9d,0x3f,0xcf,0x96,0x27,0xd9,0xce,
+0x9f,0x67,0xcb,0x93,0x6d,0xe3,0xf2,0x6d,0x79,0xb2,0xed,0xfe,0xf3,0x6d,0x79,0xb2,
+0xed,0xb8,0x7c,0x5b,0x9e,0x6c,0x3b,0x2e,0xdf,0x96,0xa7,0xd8,0xda,0x45,0xb6,0x3c,
+0xc5,0xd6,0x2e,0xb2,0xe5,0x4c,0x9b,0x9f,0xc4,0xb6,0x9c,0x69,0xbb,0x0f,0xb1,0x2d,
+0x67,0xda,0xee,0x43,0x6c,0xcb,0x99,0xb6,0xf5,0x2a,0xb6,0xe5,0x4c,0xdb,0x7d,0x89,
+0x6d,0x39,0xd3,0xe6,0x47,0xb1,0x2d,0x3f,0x61,0x9b,0x67,0xa1,0x2d,0x67,0xd9,0x72,
+0xe9,0x5b,0x75,0xb4,0xae,0x4e,0xda,0xee,0xaf,0xc8,0x96,0x9f,0xb4,0xc5,0x41,0x91,
+0x2d,0x3f,0x69,0x9b,0x6f,0xd1,0x5b,0xf7,0x87,0x6c,0xbb,0xd3,0x66,0xdb,0x9d,0xb6,
+0x6b,0xef,0xb4,0x5d,0x7b,0xa7,0x6d,0xed,0x9c,0x7c,0x6b,0x1d,0x15,0xbd,0xb5,0x96,
+0x8a,0xde,0x8a,0x03,0x14,0x5b,0x74,0x5b,0x9c,0xf1,0x6c,0x79,0x9c,0xad,0x3d,0xce,
+0x56,0x3f,0x6f,0xcb,0x23,0x6c,0xc7,0xb1,0x6d,0x39,0xcd,0x96,0x73,0x6d,0x79,0xbc,
+0x2d,0xbf,0xf0,0x96,0x7d,0x1d,0x6d,0x73,0x72,0x7c,0x6b,0x9f,0xb4,0x7b,0x6b,0x8f,
+0xb1,0x7b,0xab,0x1d,0xf3,0x56,0x3b,0xe6,0xad,0x76,0xc7,0xb7,0xda,0xdf,0x3e,0x0f,
+0x78,0xab,0x1d,0xbc,0xf5,0x9c,0xb0,0x7b,0x6b,0x8f,0xfd,0x79,0x9f,0xfa,0xff,0xd8,
+0x3b,0x13,0x00,0x1d,0x8b,0xc7,0x8f,0x3f,0xef,0xbb,0xfb,0xee,0x5a,0x47,0x08,0x95,
+0x94,0x6b,0x73,0x84,0x5d,0x7b,0xb3,0xce,0xb5,0xac,0x75,0x24,0x24,0x24,0x15,0x4b,
+0x48,0xee,0x23,0x54,0x2a,0x47,0x4a,0x27,0x2a,0x95,0x4e,0x3a,0x49,0xe5,0x4a,0x48,
+0xce,0x0a,0x91,0x12,0x15,0x65,0x8b,0x90,0x44,0x42,0xba,0xe8,0xfa,0x7f,0x66,0x9f,
+0xef,0x93,0xf1,0xfc,0xed,0x0f,0xdd,0xc7,0xbe,0xe3,0xe3,0x3b,0x33,0xcf,0x3c,0xf3,
+0xcc,0xcc,0x33,0x33,0xcf,0x31,0xf3,0xcc,0x46,0x5a,0xfe,0x9e,0x7d,0x85,0xce,0xf3,
+0x4e,0x69,0xa6,0xd2,0xd9,0x43,0xda,0x5c,0xda,0xcb,0xca,0x5f,0x65,0xe5,0xaf,0xb2,
+0xe5,0x0e,0xb7,0xfc,0x8c,0x7d,0x5e,0xc0,0x0d,0x7f,0x57,0xd0,0xd5,0x2b,0xad,0xf3,
+0x60,0xce,0x89,0x77,0x3e,0xbc,0x73,0x91,0xa9,0xf3,0xde,0xc3,0x6a,0x7f,0x8e,0xda,
+0x9b,0x63,0x5d,0xf7,0x02,0xd6,0x35,0x23,0xa0,0xf4,0x07,0x94,0x7e,0xa3,0x9b,0xa4,
+0xdf,0x59,0xd7,0xd1,0xc2,0xda,0xa7,0xb0,0xdc,0x45,0xe5,0x2e,0xaa,0xfe,0xb0,0xb0,
+0xfa,0xc3,0xc2,0x72,0x17,0x95,0xbb,0xa8,0xce,0x6f,0x61,0x9d,0xdf,0xc2,0x72,0x17,
+0x95,0xbb,0xa8,0xf2,0x5f,0x58,0x79,0x2f,0x2c,0x77,0x51,0xb9,0x8b,0xaa,0x3d,0x17,
+0x56,0x7b,0x2e,0x2c,0x77,0x51,0xb9,0x8b,0xea,0x3c,0x16,0xd6,0x39,0x2c,0x2c,0x77,
+0x51,0xb9,0x8b,0xaa,0x3d,0x57,0x54,0x7d,0xaf,0xa8,0xf6,0x5b,0x51,0xed,0xb7,0xa2,
+0xfa,0xdf,0x82,0xea,0x7f,0x0b,0x5a,0xe7,0x39,0xcb,0xea,0xff,0xbd,0xeb,0x6a,0x25,
+0xeb,0x3a,0x1e,0x6e,0x5d,0x03,0xc3,0xad,0xeb,0x7c,0xb8,0x75,0x8d,0xf4,0xfc,0x23,
+0xe5,0x17,0x69,0xb9,0xc3,0x2d,0xbf,0x70,0xb5,0xe3,0x70,0xb5,0xeb,0x70,0xa5,0xa7,
+0x7b,0xd0,0x3d,0xef,0x26,0xaf,0x57,0x63,0xbf,0x16,0x46,0x06,0xdd,0xbe,0xe0,0x6a,
+0xdd,0x33,0x45,0xe8,0x7e,0x29,0x52,0x9a,0x5f,0x5a,0x59,0x1a,0x26,0x35,0x7d,0x4b,
+0xd7,0xa0,0xdb,0x3e,0x4d,0x59,0x0c,0x83,0x89,0x41,0xb7,0x6e,0x98,0xf3,0x5c,0x2c,
+0xec,0x48,0x9b,0x59,0x10,0x74,0xf7,0xc9,0xc0,0x5e,0xdb,0xba,0x37,0x9b,0x2a,0x9d,
+0xa0,0x70,0xa6,0xdf,0x9f,0x28,0xfb,0x7d,0xd2,0x49,0xd2,0x47,0xa5,0x4f,0x4a,0xa7,
+0x79,0x71,0x5b,0xc7,0x99,0x24,0xfb,0x93,0xd2,0x59,0xf2,0x9f,0xeb,0xc5,0x6f,0xed,
+0x63,0xf4,0x35,0x3b,0x8d,0xb2,0x7b,0x7e,0x4b,0xac,0x30,0x46,0x5f,0x97,0xce,0x86,
+0xf9,0x3a,0xc6,0x7a,0xf9,0xad,0xd7,0x3e,0x2b,0x60,0x29,0xbc,0x04,0xcb,0x60,0x39,
+0xdc,0xaf,0xe3,0x3f,0x0e,0x25,0xc2,0xdd,0xf2,0x31,0x6a,0xc2,0x17,0x0b,0x77,0xf7,
+0x8f,0x90,0xfb,0x4c,0xb9,0xcf,0x50,0xb8,0xe8,0x70,0xf7,0x7c,0x9c,0x21,0xad,0x29,
+0x4d,0xd6,0xf6,0x64,0xed,0x97,0xa8,0xfd,0xda,0xc9,0x5d,0x4b,0xee,0x9a,0x0a,0xd7,
+0x50,0xfb,0x0d,0x0e,0x57,0xdd,0x96,0x9e,0x26,0xff,0x14,0x69,0x11,0x69,0x9c,0xe5,
+0xce,0x27,0x77,0x3e,0xa5,0xdb,0x3b,0xbe,0xd1,0x4d,0xf2,0x7f,0x5f,0x7a,0x9a,0x34,
+0x45,0x7a,0xba,0xb4,0x86,0xd4,0xe4,0x23,0x5c,0xe9,0x0a,0x97,0x3b,0x9f,0xdc,0x46,
+0x4b,0x4b,0xeb,0x49,0x77,0x49,0x3f,0x93,0xc6,0x48,0x5b,0x48,0xa3,0x15,0x4f,0x43,
+0x69,0xb4,0xfc,0x1b,0x5a,0xdb,0x0b,0xc8,0x6d,0xb4,0x92,0xfc,0x33,0xa5,0x55,0xa5,
+0xcd,0xa5,0xdd,0x42,0x8e,0x33,0x0a,0x2a,0x45,0xd0,0xce,0x23,0x5c,0xbd,0x10,0x9a,
+0x48,0x8d,0xbb,0x2d,0x34,0xb3,0xdc,0x83,0xb5,0xdd,0xe8,0x4a,0x69,0x33,0xe9,0xbb,
+0x0a,0xb7,0x4c,0xba,0x5e,0x5a,0x39,0xca,0x71,0xea,0x40,0x9c,0x34,0x51,0x5a,0x42,
+0x7a,0x9a,0xf4,0x74,0xe9,0x59,0xd2,0x72,0xd2,0xf2,0xd2,0xaa,0xd2,0xea,0xd2,0x95,
+0xb0,0x58,0xba,0x11,0xa6,0xc0,0xcb,0xf0,0x98,0x74,0x86,0x34,0x21,0x3f,0xe1,0xa1,
+0xa6,0xf4,0x34,0xe9,0xe9,0xd2,0xb3,0xa4,0x55,0xa5,0x99,0x05,0xa8,0x5b,0x05,0x5c,
+0xad,0x27,0x6d,0x0f,0xe5,0xa0,0x0e,0x94,0x97,0xde,0x05,0x1b,0x61,0x05,0x2c,0x86,
+0x95,0xd2,0x15,0xf2,0x6f,0x5c,0x90,0x78,0x60,0x09,0xbc,0x0b,0x2b,0x2c,0x7d,0x4f,
+0xba,0xdc,0x52,0xb3,0xad,0x71,0x21,0x8e,0x09,0x99,0x52,0xe3,0x6e,0x0f,0xef,0xc3,
+0x6a,0xe9,0x5b,0x96,0x7a,0x7e,0x5b,0xa0,0xc5,0x29,0xe4,0x15,0xd6,0xc2,0x6c,0x98,
+0x0e,0x93,0xa4,0x53,0xa0,0x40,0x61,0xc7,0x49,0x87,0x79,0x70,0x9e,0xb4,0xb5,0xb4,
+0x9d,0xb4,0xa3,0x34,0x0d,0xe6,0xc2,0x00,0x18,0x28,0x1d,0x0c,0xb3,0x61,0x84,0x74,
+0x80,0xec,0x73,0x2c,0xf5,0xfc,0x3c,0xbd,0x4b,0xf1,0x3d,0x24,0x9d,0x22,0x7d,0x4a,
+0x3a,0x5d,0x3a,0x5e,0xc7,0xab,0x50,0xc4,0x71,0x62,0x21,0x1b,0x42,0xa5,0x68,0x7b,
+0x10,0x29,0x8d,0x92,0x16,0x90,0x16,0x92,0x16,0x95,0xd6,0x92,0xd6,0x91,0xd6,0x93,
+0xd6,0x97,0xa6,0x4b,0xcd,0x35,0xca,0x5c,0xb7,0xd3,0x75,0x1f,0x60,0xae,0x51,0x77,
+0x06,0xdc,0x7b,0x00,0x73,0x3d,0xf3,0xee,0xfd,0x9b,0xeb,0xbe,0xac,0x85,0xee,0xc3,
+0xcc,0xb5,0xa7,0x3c,0x7d,0x7b,0x2b,0xc7,0xbd,0x8e,0x9a,0x6b,0xa1,0xb9,0x5e,0x9a,
+0x7b,0x4c,0x73,0xbd,0x6b,0xc5,0xb6,0xd6,0x10,0x3c,0xdb,0x71,0xba,0xe8,0xde,0xc2,
+0x5c,0xf7,0x3a,0xe0,0xd7,0x11,0x2e,0x09,0xba,0xf7,0x17,0xe6,0x5e,0xa6,0x8f,0x89,
+0x3f,0xe0,0x5e,0xc3,0x2e,0xc4,0xff,0x34,0xf6,0x39,0x1d,0xfa,0x3b,0xee,0xb5,0xd5,
+0x5c,0x7f,0xcf,0xc6,0xdd,0x8f,0x6d,0x43,0xb0,0x57,0x38,0xdb,0xed,0x8b,0xe7,0xc0,
+0x0b,0xea,0x7b,0x57,0xea,0x3e,0x60,0xa0,0xc2,0x9b,0x70,0x5e,0x98,0x65,0x56,0x98,
+0xba,0xb4,0xf7,0x0b,0x82,0xee,0x33,0x5d,0x5b,0x74,0xbf,0xe3,0xa6,0xa5,0x3b,0xda,
+0x09,0xcd,0x82,0x6e,0x70,0x05,0xf4,0x34,0xd7,0x4c,0x73,0xad,0xe4,0x78,0x0f,0xa3,
+0x7d,0x60,0x0c,0xf6,0x47,0xd1,0x01,0xd0,0x1f,0x06,0xc2,0x20,0x18,0x0c,0x57,0xc1,
+0x30,0x18,0x05,0xa3,0x61,0x3a,0x79,0xba,0x05,0xbd,0x15,0xce,0x62,0xbf,0xdb,0xd0,
+0xdb,0x83,0xee,0x3d,0xd6,0x78,0x74,0x42,0xd0,0xbd,0x27,0x9b,0xaf,0x7b,0x85,0x0a,
+0xba,0x57,0x30,0x9a,0xae,0xeb,0x70,0x17,0xa9,0x71,0x47,0xcb,0x1d,0x2d,0x77,0xbc,
+0xdc,0xf1,0xd6,0x3b,0x88,0x80,0xf5,0xfc,0x1e,0xd0,0x3d,0x5e,0xa4,0xee,0xb3,0x23,
+0xe5,0x8e,0x96,0x3b,0x5a,0xee,0x78,0xb9,0xe3,0xe5,0xae,0x24,0x77,0x25,0xb9,0x63,
+0xe4,0x8e,0xb1,0x9e,0x79,0x1d,0xeb,0xb9,0xd7,0xb1,0xfc,0x03,0x96,0xbf,0xf7,0x0e,
+0x24,0x46,0x7e,0xde,0xfe,0x71,0x72,0xc7,0x59,0xf7,0x44,0x11,0xd6,0x7d,0x91,0xb1,
+0x37,0x56,0x7a,0xbb,0x5b,0xcf,0xba,0xe1,0xba,0x27,0x0d,0xd7,0xbd,0x56,0xa4,0xee,
+0x6d,0x22,0xe5,0x8e,0x96,0x3b,0x5a,0xee,0x7c,0x72,0xe7,0x93,0xbb,0x92,0xdc,0xde,
+0xb3,0x72,0xac,0xdc,0xb1,0xba,0x97,0x8c,0x53,0x1d,0x8a,0xb3,0xde,0xc9,0x04,0xac,
+0xf7,0x19,0x01,0xdd,0x83,0x07,0x74,0x0f,0xee,0xb9,0xa3,0xe5,0x8e,0x96,0x3b,0x5e,
+0xee,0x78,0x3d,0xd3,0x44,0xeb,0x59,0x37,0xda,0x72,0x87,0x5b,0x7e,0xe1,0xf2,0x8f,
+0x97,0x9f,0xb7,0x5f,0x8c,0xdc,0x46,0x5b,0xe8,0x78,0x7d,0xa4,0x2d,0x94,0xef,0x3e,
+0xd2,0x16,0x8a,0xab,0x8f,0xf4,0x7c,0xf9,0xf7,0x95,0x9e,0x2f,0xff,0xbe,0xd6,0xf6,
+0x78,0xb9,0xe3,0xe5,0x8e,0x91,0x3b,0xc6,0xba,0x07,0x0d,0x58,0xf7,0xa0,0x01,0xcb,
+0x3f,0x9f,0xe5,0x9f,0x2f,0xec,0xc8,0xb3,0xb7,0x63,0x3d,0x7f,0x3b,0x96,0x7f,0xc0,
+0xf2,0x37,0xf6,0x56,0xca,0x47,0x7f,0xe7,0x88,0x3b,0x52,0xee,0x48,0xdd,0x9b,0x47,
+0xea,0xde,0xdc,0x73,0x47,0xcb,0x1d,0x6d,0xb9,0xc3,0x2d,0xbf,0x70,0xf9,0xc7,0xcb,
+0x2f,0x5e,0xf7,0xec,0x91,0xba,0x67,0x8f,0x94,0x3b,0x5a,0xee,0x68,0xeb,0x99,0x3e,
+0xd2,0x7a,0xae,0x8f,0xb4,0x9e,0xdd,0x23,0xad,0xe7,0x77,0x7b,0xff,0x48,0x2b,0x8e,
+0x48,0x3d,0x0b,0x44,0xea,0x59,0xc0,0x73,0x47,0xcb,0x1d,0x2d,0x77,0xbc,0xdc,0xf1,
+0x72,0xc7,0xc8,0x1d,0xa3,0x67,0x8d,0x73,0xf4,0xac,0x71,0x8e,0xdc,0x71,0x72,0xc7,
+0xc9,0x1d,0x23,0x77,0x8c,0xf5,0xae,0x20,0x60,0xbd,0x2f,0x08,0x58,0xef,0x0c,0xf2,
+0x59,0xef,0x0d,0x8c,0xbd,0x9d,0xc2,0x0c,0x91,0xb6,0x53,0xba,0x86,0x48,0xdb,0xeb,
+0xd9,0x6e,0xa8,0xb4,0xbd,0xca,0x62,0xa8,0xb4,0xbd,0xda,0xc0,0x50,0x69,0x7b,0xe5,
+0x73,0xa8,0xb4,0xbd,0xe2,0x19,0x2a,0xbd,0x48,0xfe,0xc3,0xa4,0x17,0x69,0xbf,0x61,
+0xd6,0xbb,0xc9,0x48,0x3d,0xa3,0x78,0xef,0x14,0x82,0x7a,0xa7,0x10,0x94,0x3b,0x5a,
+0xee,0x68,0xb9,0xe3,0xe5,0x8e,0x57,0xbb,0xf5,0xca,0xd3,0x4b,0x57,0x7e,0xc5,0x97,
+0x5f,0xfd,0xe8,0x62,0xfa,0xd6,0x1b,0x02,0x6e,0xfc,0x0d,0x14,0x4f,0x96,0xd4,0xb8,
+0xa3,0xe4,0x8e,0xb2,0xde,0xf1,0xda,0xef,0x47,0xed,0x77,0xbf,0x8e,0xe5,0xef,0x58,
+0xfe,0x51,0x96,0xbf,0x1d,0x4f,0x98,0xe5,0x1f,0x66,0x1d,0x3f,0x68,0xa5,0x21,0x68,
+0xbd,0xb3,0x0c,0x58,0xef,0x2d,0x03,0x96,0xbf,0x63,0xf9,0x3b,0x96,0x7f,0x94,0xe5,
+0x1f,0x65,0xf9,0x87,0x59,0xfe,0xf6,0x71,0x23,0xac,0xe3,0x7a,0xef,0x26,0xa3,0xd5,
+0xe7,0x46,0xcb,0x1d,0x25,0x77,0x94,0xdc,0x61,0x72,0x87,0x59,0xef,0xb2,0xed,0xf7,
+0xc0,0xf6,0x3b,0x6e,0xc7,0xf2,0x77,0x2c,0xff,0x28,0xcb,0x3f,0xca,0xf2,0x0f,0xb3,
+0xfc,0xc3,0xac,0xf4,0x04,0xad,0x34,0x79,0xef,0x30,0xa3,0xd4,0x07,0x47,0xc9,0x1d,
+0x2d,0x77,0xb4,0xfa,0x97,0x68,0xf5,0x2d,0x9e,0x3b,0x4a,0xee,0x28,0xeb,0xdd,0xb9,
+0xfd,0xde,0xd9,0x7e,0xa7,0xee,0x58,0xfe,0x8e,0xe5,0x1f,0x65,0xf9,0xdb,0xf1,0x84,
+0x59,0xfe,0x61,0xd6,0xf1,0x83,0x56,0x1a,0xbc,0x77,0xf5,0xa5,0xac,0xe3,0x96,0xb2,
+0x8e,0x5b,0xca,0x3a,0x6e,0x29,0xeb,0xb8,0xa5,0xac,0xe3,0x96,0xb2,0x8e,0x5b,0xca,
+0x3a,0x6e,0x29,0xeb,0xb8,0xc6,0x1e,0x6d,0xf9,0x47,0xab,0xfd,0x47,0xab,0xed,0x7b,
+0xee,0x28,0xb9,0xa3,0xac,0xf7,0x72,0x01,0xeb,0xdd,0x5c,0xc0,0xf2,0x77,0x2c,0x7f,
+0xc7,0xf2,0x8f,0xb2,0xfc,0xed,0x78,0xc2,0x2c,0xff,0x30,0xcb,0x3f,0xda,0xf2,0x8f,
+0x56,0x7b,0x77,0xd4,0x3e,0x1d,0xb9,0xa3,0xe5,0xf6,0xb6,0x47,0xc9,0x1d,0x25,0x77,
+0x98,0xdc,0x61,0x7a,0x9e,0x2f,0x26,0x2d,0x6e,0xb9,0x1d,0xcb,0xcf,0xb1,0xfc,0x03,
+0x96,0x7f,0xc0,0xf2,0x4f,0xb7,0xfc,0xd3,0xf5,0xfe,0xa1,0x98,0xb4,0xb8,0xe5,0x76,
+0x2c,0x3f,0xc7,0xf2,0x0f,0x58,0xfe,0x01,0xcb,0x3f,0xdd,0xf2,0x4f,0xd7,0x73,0x7f,
+0x31,0x69,0x71,0xcb,0xed,0x58,0x7e,0x8e,0xe5,0x1f,0xb0,0xfc,0x8d,0x7d,0xa2,0xfc,
+0x27,0xca,0x6f,0xa2,0xb5,0xff,0x44,0x6b,0xff,0x89,0xd6,0xfe,0x13,0xad,0xfd,0xe7,
+0xc9,0x7f,0x9e,0xfc,0xe6,0x59,0xfb,0xcf,0xb3,0xf6,0x9f,0x67,0xed,0x3f,0xef,0x18,
+0xfb,0xa7,0x5b,0xfe,0xe9,0x7a,0x37,0x53,0x4c,0x5a,0xdc,0x72,0x3b,0x96,0x9f,0x63,
+0xf9,0x07,0x2c,0xff,0x80,0xe5,0x9f,0x6e,0xf9,0xa7,0xeb,0x1d,0x4c,0x31,0x69,0x71,
+0xcb,0xed,0x58,0x7e,0x8e,0xe5,0x1f,0xb0,0xfc,0x03,0x96,0x7f,0xba,0xe5,0x9f,0xae,
+0xf7,0x42,0xc5,0xa4,0xc5,0x2d,0xb7,0x63,0xf9,0x39,0x96,0x7f,0xc0,0xf2,0x0f,0x58,
+0xfe,0xe9,0x96,0x7f,0xba,0xde,0x11,0x15,0x93,0x16,0xb7,0xdc,0x8e,0xe5,0xe7,0x58,
+0xfe,0x01,0xcb,0xdf,0x7b,0xa7,0x55,0x4c,0x5a,0xdc,0x72,0x3b,0x96,0x9f,0x63,0xf9,
+0x07,0x2c,0x7f,0xef,0xdd,0x54,0x31,0x69,0x71,0xcb,0xed,0x58,0x7e,0x8e,0xe5,0x1f,
+0xb0,0xfc,0xed,0xfd,0xd3,0x2d,0xff,0x74,0xbd,0xdb,0x2a,0x6e,0xa9,0x63,0xd9,0x03,
+0x96,0x3d,0x5d,0xef,0xc5,0x8a,0x49,0x8b,0x5b,0x6e,0xc7,0xf2,0x73,0x2c,0xff,0x80,
+0xe5,0x1f,0xb0,0xfc,0xd3,0x2d,0xff,0x74,0xbd,0xdf,0x2b,0x26,0x2d,0x6e,0xb9,0x1d,
+0xcb,0xcf,0xb1,0xfc,0x03,0x96,0x7f,0xc0,0xf2,0x4f,0xb7,0xfc,0xbd,0x76,0xef,0xf8,
+0xde,0x0d,0x3a,0xbe,0x77,0x84,0x8e,0xef,0x5d,0xa1,0x63,0xbd,0x33,0x5c,0x62,0x9d,
+0x53,0xaf,0x0c,0x1d,0xdf,0x7b,0x42,0xc7,0x7a,0x5f,0xe8,0xf5,0x39,0x19,0x56,0x9f,
+0x93,0xe1,0xeb,0xbb,0x32,0x7c,0xfd,0x57,0x86,0xaf,0x0f,0xcb,0xf0,0xf5,0x63,0x19,
+0xbe,0xbe,0x2c,0xc3,0xd7,0x9f,0x65,0x58,0x7d,0x52,0x86,0xd5,0x27,0x65,0xf8,0xfa,
+0xb6,0x0c,0x5f,0xff,0x96,0xe1,0xeb,0xe3,0x32,0x7c,0xfd,0x5c,0x86,0xaf,0xaf,0xcb,
+0xf0,0xf5,0x77,0x19,0x56,0x9f,0x91,0x61,0xf5,0x19,0x19,0xbe,0xbe,0x27,0xc3,0xd7,
+0xff,0x64,0xf8,0xfa,0xa0,0x0c,0x5f,0x3f,0x94,0xe1,0xeb,0x8b,0x32,0x7c,0xfd,0x51,
+0x86,0xd5,0xa7,0x64,0x58,0x7d,0x4a,0x86,0xaf,0x6f,0xca,0xf0,0xf5,0x4f,0x19,0xbe,
+0x3e,0x2a,0xc3,0xd7,0x4f,0x65,0xf8,0xfa,0xaa,0x0c,0x5f,0x7f,0x95,0x61,0xd5,0xdf,
+0x0c,0xab,0xfe,0x66,0xf8,0xda,0x41,0x86,0xaf,0x2d,0x64,0xf8,0xda,0x43,0x86,0xaf,
+0x4d,0x64,0xf8,0xda,0x45,0x86,0xaf,0x6d,0x64,0x58,0xf5,0x3b,0xc3,0xaa,0xdf,0x19,
+0xbe,0x76,0x92,0xe1,0x6b,0x2b,0x19,0xbe,0xf6,0x92,0xe1,0x6b,0x33,0x19,0xbe,0x76,
+0x93,0xe1,0x6b,0x3b,0x5e,0x3d,0x8b,0x90,0x86,0x5b,0xed,0xc9,0xdb,0x96,0x61,0xb5,
+0x2d,0xcf,0x9e,0x6e,0xa9,0x57,0x67,0x22,0xa4,0xe1,0x52,0xc7,0x1a,0x07,0x98,0xa0,
+0x70,0x66,0x9c,0xc0,0xbb,0x1e,0x78,0x76,0xa3,0xe9,0x1a,0x3b,0x48,0xb7,0xda,0xab,
+0x57,0x27,0x32,0xac,0xb6,0xeb,0xd9,0xd3,0x2d,0xcd,0xd0,0x35,0xd2,0xbb,0x6e,0x7a,
+0xd7,0x23,0xc7,0x1a,0x73,0xb8,0x4f,0xe1,0x96,0x94,0x51,0x5b,0x2f,0xa3,0xb6,0x5f,
+0xe6,0xc8,0xb5,0x25,0x42,0x1a,0x6e,0x8d,0x1d,0x38,0xbe,0xf1,0x88,0x05,0xd6,0xb5,
+0x28,0x9f,0x75,0xfd,0x88,0x90,0x86,0x4b,0x1d,0x6b,0x9c,0xe3,0x27,0x1d,0xf3,0xa7,
+0x32,0x47,0xdc,0x5e,0xff,0x1c,0x21,0x0d,0xb7,0xc6,0x29,0x1c,0xdf,0x38,0xc6,0x32,
+0x9d,0xbf,0x65,0xd6,0x35,0x21,0xdd,0x0a,0xe3,0xf5,0xef,0x11,0xd2,0x70,0xa9,0x63,
+0x8d,0xad,0x4c,0xd1,0xbe,0x53,0x75,0x9f,0xe6,0x8d,0xd3,0x74,0x76,0x8e,0xf4,0x6f,
+0x5e,0x9d,0xcc,0xb0,0xfa,0x3a,0xcf,0x9e,0x6e,0x69,0x86,0xae,0x59,0x8e,0x35,0x86,
+0x33,0xcd,0xea,0xbb,0x3d,0xb7,0x09,0xf7,0x82,0xc6,0x86,0xcc,0xb1,0x83,0x58,0xc2,
+0xca,0x1e,0x99,0xe7,0xf3,0xbf,0x28,0xa2,0x70,0x89,0xec,0x17,0xeb,0x1c,0x1b,0xb3,
+0x3d,0xa1,0xec,0xff,0x27,0xf9,0x18,0x94,0x73,0x5c,0xcc,0x3e,0x21,0xe2,0xac,0xef,
+0x1c,0xc1,0xdb,0x56,0xff,0x18,0xf1,0x99,0xf0,0x71,0x9a,0x23,0x61,0xe6,0x10,0x25,
+0x43,0x0a,0xd4,0x80,0x9a,0x90,0x0a,0x55,0xe1,0xd4,0xf2,0x8e,0x53,0xd7,0x8c,0xa9,
+0xc1,0xb9,0x1a,0xcb,0x8e,0xd3,0x5c,0x24,0x6f,0x1e,0xd2,0xc9,0xec,0x9f,0xa5,0xf7,
+0xaa,0xfd,0x34,0x0e,0x67,0xde,0xaf,0x5e,0xa1,0xf7,0xaa,0xbd,0xf5,0x6e,0xd5,0x1c,
+0xa3,0xbf,0xc6,0xea,0x06,0xeb,0x7d,0xed,0x20,0xed,0x5b,0xdd,0x71,0xdf,0x17,0x7a,
+0x76,0xe3,0x6f,0xde,0x25,0xce,0x94,0x76,0x95,0x7f,0x3f,0xcb,0x6e,0xee,0xeb,0xc7,
+0x07,0xdc,0x30,0xe6,0x3d,0x5d,0x0f,0xbd,0x2b,0xf6,0xc8,0x79,0xc7,0x16,0x70,0x9f,
+0xd5,0x9a,0xea,0xbd,0x71,0x6f,0xbd,0x37,0x3e,0x5f,0x71,0x99,0xf7,0x3d,0xad,0x95,
+0x16,0x8f,0x36,0x7a,0xbf,0x7c,0xa1,0xde,0x43,0x9f,0x27,0x7b,0x0b,0x8d,0x53,0x4f,
+0xd3,0x7b,0x80,0xe6,0xce,0x91,0x31,0xe8,0x74,0xa5,0xb3,0x9b,0xf6,0x69,0xac,0xf0,
+0xe6,0x18,0xeb,0x42,0x8e,0xf3,0x36,0xac,0x87,0x0d,0x21,0xf7,0xdc,0x34,0xd6,0xbe,
+0xe6,0x7d,0xc4,0x52,0xbd,0x1f,0xbe,0x1b,0x26,0x43,0xd1,0xf2,0xee,0xfb,0x4e,0xef,
+0x5d,0xb5,0x37,0xdf,0xc5,0x9b,0x27,0x56,0xc3,0xb2,0xa7,0x5a,0xf6,0x78,0xeb,0x1c,
+0x1a,0x77,0xa2,0xce,0xa5,0x67,0xf7,0xfc,0x93,0x2d,0xff,0x64,0x6b,0xce,0x59,0xb2,
+0xce,0xb9,0x67,0xf7,0xc2,0xa7,0xa8,0x1e,0x78,0x76,0xcf,0xbf,0xa6,0xb5,0x6f,0x4d,
+0x2b,0x4c,0x4d,0xd5,0x17,0xcf,0xee,0x85,0xf7,0xce,0xc3,0xb1,0x68,0x67,0xd1,0xd4,
+0x52,0xbf,0xdd,0xe3,0x22,0x8b,0xa6,0x96,0x7a,0xe7,0xb9,0xa1,0xc6,0x11,0x5a,0xa8,
+0xfc,0x72,0x63,0x88,0x45,0x4f,0x4b,0xfd,0x76,0x8f,0x61,0x16,0x3d,0x2d,0xed,0xa9,
+0xba,0xd5,0x55,0xe7,0xad,0x8f,0xce,0x85,0x57,0xf6,0xe3,0x69,0xb0,0x35,0xcd,0xdc,
+0x07,0xe9,0x3d,0xd2,0x75,0xd2,0x77,0xa4,0xeb,0xa5,0x61,0xe5,0x5d,0xcd,0x27,0x2d,
+0x20,0x8d,0x96,0x56,0x90,0x56,0x2d,0xff,0xff,0x89,0x3d,0x06,0x75,0x14,0xbe,0xa1,
+0x34,0x43,0xda,0x44,0x6a,0xda,0xb2,0xd1,0x2c,0xb9,0x5b,0x48,0xeb,0xc8,0xbf,0x9e,
+0xf4,0x72,0xf9,0x77,0x93,0x0e,0x94,0x0e,0x92,0x0e,0x91,0x0e,0x95,0x5e,0x23,0xbd,
+0x56,0x3a,0x4a,0x3a,0x5a,0x7a,0x93,0xf4,0x66,0xe9,0x63,0xd2,0xa9,0xd2,0x69,0xd2,
+0xe9,0xd2,0xe1,0xd2,0xeb,0xa4,0x13,0xa4,0x77,0x49,0x67,0x4b,0xe7,0x48,0x5f,0x90,
+0xce,0xf5,0xca,0x93,0x93,0x12,0x15,0x77,0x62,0xfd,0x9c,0xdd,0x9e,0xe2,0xad,0xbe,
+0x31,0xde,0x39,0xd2,0x9e,0xbc,0xf9,0x9b,0x5e,0x7b,0xf1,0xda,0x87,0xd7,0x46,0xbd,
+0xfa,0x9f,0xaa,0x7d,0xe3,0xd4,0x67,0xc6,0xab,0xdf,0xac,0x2c,0x7f,0xcf,0x9e,0x68,
+0xd9,0x93,0x2c,0x7b,0xb2,0x65,0x4f,0xb1,0xec,0x35,0x2c,0x7b,0x4d,0xcb,0x9e,0x6a,
+0xd9,0xbd,0x7c,0xd8,0xee,0x78,0x9f,0x3b,0xc1,0xe7,0x4e,0xf4,0xb9,0x93,0x7c,0xee,
+0x64,0x9f,0x3b,0xc5,0xe7,0xae,0xe1,0x73,0xd7,0xf4,0xb9,0x53,0x7d,0xf9,0xf7,0xd2,
+0x17,0xaf,0x6b,0x65,0x82,0x34,0x51,0x9a,0x24,0x4d,0x96,0xa6,0x48,0x6b,0x48,0x6b,
+0x4a,0x53,0xa5,0x5e,0x9e,0x63,0xad,0xfc,0xc6,0x5a,0x79,0x8d,0xb5,0xf2,0x19,0x6b,
+0xe5,0x31,0xd6,0xca,0x5f,0xac,0x95,0xb7,0x58,0x2b,0x5f,0xb1,0x56,0x9e,0x62,0xad,
+0xfc,0xc4,0x5a,0x79,0x89,0x55,0xde,0xb2,0xac,0x7c,0x76,0xb1,0xec,0x5d,0x2d,0xfb,
+0xe5,0x96,0xbd,0x9b,0x65,0xef,0x6e,0xd9,0x7b,0x58,0xf6,0x2b,0x2c,0x7b,0x4f,0xcb,
+0x7e,0xa5,0x65,0xef,0x65,0xd9,0x7b,0x5b,0xf6,0x3e,0x96,0xbd,0xaf,0x65,0xef,0x67,
+0xd9,0xfb,0x5b,0xf6,0x01,0x96,0x7d,0xa0,0x65,0x1f,0x64,0xd9,0x07,0x5b,0xf6,0xab,
+0x2c,0xfb,0x10,0xcb,0x3e,0xd4,0xb2,0x0f,0xb3,0xec,0x57,0x5b,0xf6,0x6b,0x64,0x6f,
+0xe0,0x1c,0xb9,0x9e,0x36,0xb2,0xae,0xa7,0x27,0x32,0x16,0x6c,0x5f,0xcf,0xdb,0x58,
+0xe3,0xc1,0xed,0x34,0x26,0x6c,0xae,0x13,0x1d,0x74,0x1d,0xcf,0xd2,0x39,0xe9,0x6a,
+0x5d,0x6b,0xbb,0xab,0xac,0xaf,0xb0,0xae,0xbb,0xfe,0x7b,0x98,0x7e,0x2a,0xa3,0x01,
+0x2a,0x93,0x41,0xd6,0xf8,0xf0,0x10,0xe5,0x75,0x98,0xf2,0x76,0x8d,0xea,0x83,0xbf,
+0x8f,0xae,0xe5,0xb8,0xd4,0xcd,0x85,0x0f,0xab,0xb8,0xfd,0xd5,0x95,0x4a,0x7b,0x56,
+0x8c,0xe3,0xac,0x25,0x21,0x8f,0x3e,0xea,0x66,0xb6,0x32,0xa4,0x40,0x7d,0xe8,0x00,
+0x63,0xe0,0x76,0x98,0x0c,0x2f,0x19,0x7f,0x0a,0xa1,0x1b,0xf4,0x82,0x51,0x70,0x2f,
+0x4c,0x87,0xad,0xf0,0xb5,0x0a,0xe8,0x41,0x38,0x04,0x25,0x28,0xa8,0x33,0xa1,0x26,
+0x34,0x80,0x4b,0xa0,0x27,0x8c,0x82,0x17,0x61,0x15,0x6c,0x87,0x8d,0x24,0xa4,0x0c,
+0x85,0xb8,0x87,0x42,0x0c,0x52,0x88,0xf9,0xa1,0x04,0x54,0x82,0x41,0xd0,0xaa,0xa3,
+0xe3,0x8c,0x80,0xef,0xa0,0xf0,0x25,0x8e,0x53,0x1e,0x6a,0x42,0x5f,0x18,0x00,0x9b,
+0x2f,0x75,0x9c,0x4f,0xe0,0x00,0xfc,0x04,0x03,0x2f,0xa3,0x7c,0xe0,0x06,0xf8,0x0a,
+0x7e,0x82,0x02,0x9d,0x78,0x76,0x80,0x56,0x90,0x05,0x83,0xe0,0x15,0xc8,0xc7,0x89,
+0x4a,0x81,0xe6,0x50,0x9d,0x13,0x95,0x04,0x37,0xc3,0x7d,0xf0,0x04,0x2c,0x80,0xad,
+0xf0,0x09,0xec,0xe7,0x24,0xe6,0xe3,0x24,0x56,0x86,0xb2,0x94,0x59,0x17,0xb8,0x1a,
+0xe6,0xc0,0x1a,0x78,0x07,0x36,0x43,0x61,0x4e,0x6a,0x71,0x48,0x82,0x5e,0x9c,0xd0,
+0x2a,0x9c,0xcc,0x14,0xa8,0x0d,0xf5,0x21,0x13,0x3a,0x40,0x47,0x78,0x16,0x6e,0xe4,
+0x44,0xdf,0x02,0xd9,0x9c,0xec,0x9d,0x70,0x06,0x27,0xbc,0x0c,0x54,0x86,0x38,0xb8,
+0x0d,0xee,0x82,0x21,0x54,0x82,0xeb,0xe0,0x79,0x58,0x02,0x5f,0xc0,0x66,0x2a,0xc5,
+0x36,0x38,0x08,0xb5,0xa8,0x18,0xf3,0x61,0x31,0x0c,0xa6,0x82,0xac,0x81,0x43,0x30,
+0x68,0x38,0x65,0x07,0x29,0x37,0x50,0x87,0xe1,0x56,0x58,0x04,0x81,0x11,0x8e,0x53,
+0x10,0x4e,0x85,0x44,0xb8,0x01,0x6e,0x81,0xed,0x23,0x1d,0x67,0x37,0x1c,0x84,0x1f,
+0xa0,0xe0,0x28,0xc7,0x29,0x05,0x65,0xa0,0x2f,0x0c,0x84,0x61,0xd0,0xe2,0x26,0xf2,
+0x07,0x69,0x63,0x69,0x2f,0xd0,0x15,0xae,0xbf,0x85,0xf4,0xc2,0x7a,0x70,0x6e,0xa5,
+0x5f,0xbb,0x9d,0x36,0x06,0x6d,0x61,0x18,0x3c,0x0c,0x97,0xdf,0x41,0x3d,0x87,0x39,
+0x30,0xfd,0x4e,0xc7,0x59,0x0d,0x0f,0x8e,0xe3,0x7e,0x1b,0xe6,0xc2,0x84,0xf1,0xb4,
+0xc5,0x09,0x8e,0xb3,0x02,0xde,0x80,0xb7,0x61,0xe8,0x44,0xea,0x00,0x9c,0x75,0x2f,
+0x75,0x07,0x16,0xc0,0x2e,0x68,0x7d,0x9f,0xe3,0x5c,0x06,0x5d,0xa0,0x27,0xac,0x81,
+0xbd,0x70,0x10,0x02,0xf7,0x73,0xbd,0x87,0xcd,0xb0,0x05,0xee,0x9d,0xc4,0xb3,0x28,
+0x3c,0x0b,0x53,0x1f,0x70,0x9c,0x4d,0xb0,0x05,0x2a,0x3c,0xc8,0xb9,0x87,0x04,0xa8,
+0x03,0x17,0xc3,0x27,0x0f,0xd1,0xee,0x1e,0xa1,0x4c,0xe0,0x49,0x58,0x08,0xaf,0xc0,
+0x5a,0x78,0x1b,0x0e,0xc1,0x8f,0x70,0x0a,0xed,0xa6,0x18,0x94,0x85,0xda,0xd0,0x0c,
+0x2e,0x80,0x3b,0xe0,0x21,0x98,0xfc,0xa8,0xfb,0xec,0x74,0x6a,0x9c,0xdb,0x06,0x1a,
+0x41,0x06,0x34,0xc7,0x3d,0x09,0x5a,0x48,0x5b,0x4a,0x5b,0x4b,0xdb,0x48,0xdb,0x4a,
+0xdb,0x4b,0x3b,0x48,0x3b,0x4a,0x2f,0x95,0x76,0x92,0x66,0x49,0x2f,0x97,0x76,0x97,
+0x5e,0x21,0xed,0x67,0xe9,0x03,0x30,0x50,0xee,0x81,0x72,0x5f,0x25,0xf7,0x55,0x72,
+0x0f,0x93,0x7b,0x98,0xdc,0xd7,0xca,0x7d,0xad,0xdc,0x8d,0xe5,0x36,0x79,0xf4,0xd4,
+0xf8,0x3f,0x2c,0xff,0xb1,0x70,0x2b,0x4c,0x97,0xfb,0x39,0xe9,0x0c,0xe9,0x2c,0xe9,
+0x1c,0xe9,0x5c,0xe9,0x3c,0xe9,0x02,0xe9,0x42,0xe9,0x22,0xe9,0x12,0xe9,0x32,0xe9,
+0xab,0xd2,0x15,0xd2,0x55,0xd2,0xb7,0x2c,0x35,0xe9,0x5a,0x2f,0xf7,0x7a,0xb9,0xdf,
+0x95,0xfb,0x5d,0xb9,0x37,0xc9,0xbd,0x49,0xee,0xcd,0x72,0x6f,0x96,0xfb,0x29,0xb9,
+0xf7,0x49,0xf7,0x4b,0x0f,0x48,0xbf,0x94,0xfe,0x68,0xe5,0xcb,0xa4,0xc5,0x29,0x4a,
+0x7d,0x84,0x67,0x20,0x08,0xcf,0xc2,0x73,0x10,0x06,0xe1,0x10,0x82,0x99,0x30,0x0b,
+0x66,0xc3,0x1c,0x78,0x01,0xe6,0xc2,0x99,0x10,0x01,0x91,0x90,0x0f,0xca,0x41,0x14,
+0xe4,0x87,0x02,0x50,0x10,0x0a,0xc1,0x29,0x50,0x18,0x8a,0x40,0x51,0x38,0x15,0xb2,
+0xa0,0x0b,0x74,0x85,0xcb,0xa1,0x1b,0x74,0x87,0x1e,0x70,0x05,0xf4,0x84,0x2b,0xa1,
+0x17,0xf4,0x86,0x3e,0xd0,0x17,0xfa,0x41,0x7f,0x18,0x00,0x03,0x61,0x10,0x0c,0x86,
+0xab,0xa0,0x33,0x14,0x87,0x12,0xb0,0x12,0x56,0xc1,0x1b,0xf0,0x26,0x6c,0x80,0x8d,
+0xf0,0x3e,0x9c,0x05,0x1f,0xc2,0x16,0x38,0x1b,0x4a,0x43,0x59,0x28,0x0f,0xd1,0x50,
+0x09,0xce,0x85,0xaa,0x50,0x0d,0x62,0x20,0x16,0xaa,0x43,0x02,0xa4,0x40,0x1a,0x64,
+0xc2,0x79,0x70,0x00,0xbe,0x84,0xf6,0x70,0x11,0x74,0x80,0x1b,0x61,0x0c,0x8c,0x85,
+0x09,0x70,0x17,0xdc,0x03,0x8f,0xc0,0x94,0xa2,0xee,0x35,0xcd,0x5c,0xbf,0xa2,0x60,
+0x33,0xd7,0x99,0xfc,0x68,0x0c,0x14,0x80,0x84,0xab,0xdc,0x6b,0x5c,0x49,0x08,0xc0,
+0xb9,0x5c,0x6b,0xe2,0xda,0xbb,0xd7,0x39,0x73,0xdf,0x60,0xce,0x99,0x77,0x0f,0x11,
+0xb4,0xec,0x61,0x96,0x3d,0x64,0xd9,0x23,0x2c,0x7b,0xa4,0x65,0x8f,0xb2,0xec,0x05,
+0x2c,0x7b,0x41,0xcb,0x7e,0x8a,0x65,0x2f,0x6c,0xd9,0x8b,0x58,0xf6,0xa2,0x96,0xfd,
+0x54,0xcb,0xee,0xe8,0x3c,0xdb,0x69,0xcd,0xf2,0xa5,0x37,0xcb,0x97,0xe6,0x2c,0x5f,
+0xba,0xb3,0x7c,0x69,0xcf,0xf2,0xa5,0x3f,0xcb,0x97,0x87,0x2c,0x5f,0x3e,0xb2,0x7c,
+0x79,0xc9,0xf2,0xe5,0x27,0xcb,0x97,0xa7,0x2c,0x5f,0xbe,0xb2,0x7c,0x79,0xf3,0xc7,
+0xdf,0xd7,0x77,0xfc,0x9e,0xaa,0xf7,0xa6,0x3e,0x4f,0x3f,0xc6,0xb6,0x53,0x7d,0xfb,
+0x98,0x7a,0xe0,0xd9,0x6f,0xb7,0xec,0x51,0x96,0xdd,0xd4,0x0f,0xcf,0x7e,0x8f,0xe5,
+0xdf,0xa7,0xb5,0x55,0x96,0x96,0x7f,0x2f,0xcb,0xff,0x52,0xcb,0xdf,0xf4,0xf3,0x9e,
+0xdd,0xdc,0x2f,0xfc,0x12,0xbe,0xbf,0xf5,0x0c,0xd6,0xfb,0x88,0xbd,0xb2,0x15,0xc6,
+0x5c,0xeb,0x3c,0xbb,0xb9,0x27,0xf2,0xec,0xe6,0xfe,0xc3,0xb3,0x57,0xb9,0xc2,0x4a,
+0xbf,0xb5,0x6f,0xbd,0xab,0x8f,0xd8,0x0b,0x5d,0x68,0xdd,0x0b,0x0f,0x3c,0x62,0x9f,
+0x72,0xbb,0x95,0x66,0x2b,0xfc,0x0b,0x17,0x1c,0xb1,0x6f,0xb7,0xf2,0x32,0xdc,0x8a,
+0xa7,0x7b,0x47,0x2b,0xcc,0x90,0x23,0xf6,0x40,0xcb,0x23,0xf6,0x95,0x56,0xfc,0x17,
+0x5a,0xe5,0xd0,0xc7,0x3a,0x56,0x51,0x2b,0xbc,0xb9,0xcf,0xf0,0xec,0x07,0x65,0x6f,
+0xc9,0x8d,0xf5,0xf0,0xcb,0xdc,0xfb,0xb0,0x71,0xd7,0xba,0xf7,0xde,0xde,0x3b,0xb3,
+0x04,0xeb,0x59,0x2b,0xc1,0x7a,0xd6,0x4e,0xd0,0x73,0x56,0x82,0x73,0xe4,0x3d,0x54,
+0x8a,0xb4,0x86,0xb4,0xa6,0x34,0x55,0xfb,0xc4,0x59,0xcf,0xdb,0x89,0x56,0x5c,0x89,
+0xd6,0xf3,0x7b,0xa2,0xe2,0x73,0xd4,0x6f,0x87,0xa9,0xaf,0xf6,0xfa,0xe3,0x28,0xab,
+0x0f,0x3e,0x56,0xff,0xeb,0xb5,0x4d,0xaf,0x4d,0x7a,0x6d,0xd1,0x6b,0x83,0x5e,0xdb,
+0xf3,0xda,0x9c,0xd7,0xd6,0xbc,0x36,0xe6,0xb5,0x2d,0xaf,0x4d,0x79,0x6d,0xc9,0x6b,
+0x43,0x5e,0xdb,0x39,0xd5,0x17,0x6e,0x9e,0x8e,0xed,0xb5,0x93,0xbe,0x8a,0x73,0xb0,
+0xb4,0xef,0x31,0xfa,0x46,0x53,0xe7,0x4d,0x5d,0x37,0x75,0xdc,0xd4,0x6d,0x53,0xa7,
+0x4d,0x5d,0x36,0x75,0xd8,0xd4,0x5d,0x53,0x67,0x4d,0x5d,0x35,0x75,0xd4,0xd4,0x4d,
+0x53,0x27,0x4d,0x5d,0x34,0x75,0xd0,0xd4,0x3d,0x53,0xe7,0x4c,0x5d,0x33,0x75,0xcc,
+0xd4,0x2d,0x53,0xa7,0x36,0xa1,0x35,0xae,0x72,0xef,0xe3,0x7b,0x72,0x5f,0x57,0x85,
+0x78,0xfb,0x13,0xe7,0x2e,0xe2,0x0a,0xdd,0xef,0xd6,0x85,0x49,0xf8,0x75,0xed,0x75,
+0x74,0xdf,0xbc,0x93,0xfb,0xf8,0x83,0x84,0xab,0x0d,0xf7,0x75,0x74,0xeb,0x9e,0xa9,
+0x73,0xa6,0xae,0x99,0x3a,0x66,0xea,0xd6,0x59,0x1d,0xdc,0xf3,0x93,0xa2,0xf3,0x54,
+0x43,0xea,0xbd,0x3f,0x4c,0xd5,0x39,0x8c,0xb3,0xde,0xa7,0x24,0x59,0x75,0xc5,0x3b,
+0xc7,0x49,0xd6,0xbb,0x9a,0x24,0xc5,0x97,0xa4,0xf8,0x92,0x14,0x5f,0x92,0xe2,0x4b,
+0xb6,0xde,0xdd,0x98,0x72,0x49,0x90,0x26,0x4a,0x93,0xa4,0xc9,0xd2,0x14,0x69,0x0d,
+0x69,0x4d,0x69,0xaa,0xd4,0x7b,0x9f,0xe0,0xd9,0xe3,0x2d,0xbb,0x17,0x77,0x13,0x3d,
+0x3b,0x76,0xd3,0x73,0xa1,0x67,0x6f,0x67,0xbd,0x43,0x36,0xcf,0xb3,0x8f,0x11,0xd1,
+0x13,0xba,0x47,0x99,0x0a,0xcf,0xe8,0xbe,0xeb,0x39,0xdd,0x6f,0xcd,0xd2,0xfd,0xc8,
+0x5c,0xdd,0x5f,0x2d,0xd0,0x7d,0xd5,0x22,0xdd,0x4f,0x2d,0xd3,0x7d,0xd4,0x0a,0xdd,
+0xb3,0xac,0x86,0x35,0xf0,0x06,0xac,0x85,0x37,0x75,0x1f,0xb5,0x5e,0xf7,0x4b,0x9b,
+0x74,0x5f,0xf4,0x11,0x6c,0x81,0xad,0xf0,0x31,0x6c,0x83,0x1d,0xb0,0x13,0x76,0xc1,
+0x67,0xb0,0x1b,0xf6,0xc0,0xe7,0xb0,0x57,0xf7,0x4f,0xfb,0x75,0xdf,0x64,0xee,0x99,
+0x76,0x98,0xba,0x78,0xa1,0x9b,0x07,0xef,0x5e,0xed,0x07,0xa5,0xe3,0x31,0xed,0x6b,
+0x8e,0x39,0x45,0xee,0x83,0xd6,0x3d,0xda,0x63,0xe2,0x07,0x85,0x7b,0x42,0xe9,0x3e,
+0x68,0xdd,0x67,0x3e,0x21,0xf7,0x32,0x95,0xcf,0x34,0xb9,0xa7,0xaa,0x1c,0x66,0x58,
+0xc7,0x9b,0x24,0xff,0x1f,0x54,0x7e,0x3f,0xa8,0x2c,0x0f,0x2a,0xec,0x33,0xf2,0xdb,
+0xaa,0xed,0x4f,0x28,0x7f,0xd3,0x95,0xd7,0x57,0x14,0xcf,0x74,0xe5,0x75,0xb7,0x15,
+0xd7,0x24,0xf9,0x1d,0xb4,0xdc,0x07,0x55,0x86,0xde,0xbd,0xb1,0xff,0x5e,0x79,0x8d,
+0xf6,0x37,0xee,0x4f,0xac,0xf8,0xbc,0xed,0x7b,0xac,0xfb,0x61,0xcf,0x7f,0xaf,0xa5,
+0x5e,0x19,0x7c,0xa6,0x34,0x7b,0xfe,0x1f,0x5b,0x79,0xde,0x63,0xf9,0xef,0xb3,0xf2,
+0xe0,0xdf,0xd7,0xef,0x5e,0x65,0x95,0xf3,0x1e,0xeb,0x3e,0xfd,0x09,0xeb,0xd8,0x7b,
+0x75,0x9c,0xb5,0xaa,0x83,0x3f,0xa8,0x1c,0xe7,0x68,0x9f,0xd5,0xb2,0xff,0x60,0xdd,
+0x67,0xcf,0x55,0x1c,0x5e,0xbc,0x73,0xad,0xf3,0xe7,0x95,0xfd,0x3c,0x95,0x85,0x7d,
+0x9e,0x17,0x5a,0xe1,0x3c,0xfb,0x2a,0x5f,0xf9,0x2c,0xb0,0x9e,0x13,0xe6,0x59,0xe7,
+0x7c,0x8f,0x95,0x9f,0xd5,0xaa,0xef,0x6f,0x5a,0x65,0xf1,0x96,0xd2,0xf4,0xaa,0xaf,
+0x8e,0xda,0xc7,0xb1,0xfd,0x5f,0xb5,0x9e,0x3f,0x7e,0x50,0xdd,0xdf,0x63,0x3d,0x7b,
+0x3c,0xa6,0xb4,0xac,0xf2,0xf9,0xcf,0xf0,0xb9,0xe7,0x58,0xcf,0x2d,0x76,0x3b,0xb0,
+0xeb,0x9a,0xf7,0x0c,0xf3,0xb8,0x75,0x4e,0xbd,0x67,0x9b,0x57,0x94,0xcf,0xa7,0xad,
+0xfd,0x3f,0xb3,0xda,0xd0,0x0c,0x95,0x8f,0xd7,0x7e,0xbc,0x76,0xb5,0xc8,0xb2,0xaf,
+0x51,0x1a,0x36,0x29,0xcc,0xab,0xd6,0x36,0xaf,0x5d,0x6c,0xb2,0xf2,0x3e,0xcf,0x7a,
+0x8e,0xf2,0xf2,0xbf,0xc4,0x3a,0xbf,0x4f,0x58,0x65,0xb6,0xd9,0x57,0xfe,0x9b,0xb5,
+0x6d,0xb3,0x15,0xff,0x2a,0xeb,0x39,0xcc,0x4b,0xa7,0x67,0xf7,0xda,0xcf,0x13,0x56,
+0x7d,0xf3,0xdc,0x7b,0x64,0x7f,0x45,0xe7,0xe2,0x23,0xf9,0xcd,0x90,0xfd,0xa0,0xd2,
+0xfa,0xa9,0xec,0x5b,0xac,0x38,0x3c,0xf7,0x6e,0x4b,0xed,0xf3,0xb9,0x47,0x6d,0xc8,
+0x6b,0xaf,0xb6,0xdd,0xab,0x47,0xfe,0x36,0xb6,0xc3,0xd7,0xcf,0xec,0xb0,0xe2,0xda,
+0x69,0xf5,0x6d,0xbb,0xad,0x73,0xbb,0x47,0xee,0xcf,0x7c,0xf5,0xc2,0xdb,0xef,0x07,
+0xeb,0x5c,0x7b,0x7d,0xec,0x56,0xa9,0x57,0x76,0xb3,0xac,0xbe,0xc6,0x6e,0xdf,0xe6,
+0xda,0xb3,0xa0,0xbf,0x7b,0xbd,0x31,0x9a,0x20,0x4d,0x94,0x26,0x49,0x93,0xa5,0x29,
+0xd2,0x1a,0xd2,0x9a,0xd2,0x54,0x2b,0x1e,0x3b,0xce,0x78,0xcb,0x9e,0x60,0xd9,0x13,
+0x2d,0x7b,0x92,0x65,0x4f,0xb6,0xec,0x29,0x96,0xbd,0x86,0x65,0xaf,0x69,0xd9,0x53,
+0xad,0x74,0xc7,0x59,0x76,0x3b,0x3f,0x09,0x96,0x3d,0xd1,0xb2,0x7b,0xc7,0xbd,0x42,
+0xef,0x77,0xb3,0xf4,0xbe,0x36,0x4b,0xef,0x8a,0xdb,0xea,0x3d,0x6e,0x96,0xae,0xbb,
+0xfd,0x74,0xcd,0xed,0xef,0x1b,0x8f,0xf3,0x34,0xc1,0xb2,0x27,0xea,0x7d,0xb2,0x89,
+0x63,0x10,0xf7,0xb2,0x45,0x88,0x28,0xa6,0xbb,0x7b,0x8d,0x33,0xef,0x35,0xcd,0xfd,
+0xce,0x29,0xb8,0x17,0xf6,0x76,0xef,0xa1,0x0a,0x77,0xe2,0x39,0xbf,0xa5,0x7b,0x1f,
+0xd5,0x5f,0xc7,0xef,0x2b,0x7d,0x59,0xf3,0x9c,0xfb,0xc8,0xdd,0x4b,0xda,0x5c,0xef,
+0xb3,0x5b,0x48,0x33,0xa5,0xde,0x78,0x77,0x6f,0x85,0xb5,0xdd,0xfd,0xf5,0xce,0xbb,
+0xaf,0xf4,0xe5,0xb0,0x23,0xda,0x43,0xc7,0xf0,0xbe,0x5b,0xf2,0xc6,0xbd,0xaf,0x91,
+0xdb,0xb3,0xb7,0xb0,0xec,0x99,0x96,0xfd,0x42,0xcb,0xfe,0x72,0xd8,0x91,0x77,0xdb,
+0xbd,0x55,0x2e,0xbd,0xad,0x77,0xde,0xdd,0xad,0xf7,0xde,0x7d,0x14,0xbe,0x8f,0x73,
+0x84,0xae,0xd2,0x5e,0xce,0xd1,0xfe,0x09,0xd6,0xb6,0x04,0x4b,0x7b,0xf9,0xfc,0xbc,
+0x73,0xd0,0xd5,0xb2,0x7b,0xda,0xcb,0xe7,0x57,0xa2,0xbc,0xfb,0xae,0xdd,0xb6,0x27,
+0x58,0x75,0xa2,0x97,0x65,0x6f,0x61,0xd9,0x33,0x2d,0xfb,0x40,0xab,0xfe,0xd8,0x76,
+0x2f,0xbe,0x63,0xf9,0x25,0x58,0xf3,0x16,0xfa,0x4a,0x5f,0x0e,0x3b,0x92,0x96,0x41,
+0xda,0xde,0x4e,0xdb,0xdb,0x69,0x7b,0x3b,0x6d,0x6f,0xa7,0xb4,0xb5,0x53,0xba,0xbc,
+0xba,0xd9,0x5e,0xe1,0xdb,0x2b,0x7c,0x7b,0x85,0x6f,0xaf,0xf0,0xed,0x15,0xde,0x73,
+0x4f,0xd3,0xf7,0x35,0xd3,0x34,0x87,0x3e,0x56,0xe1,0x63,0x55,0x9f,0x06,0xa8,0x1c,
+0xbb,0x5a,0xf5,0xbe,0xa1,0xf2,0xe1,0xd5,0x93,0x86,0x6a,0x1f,0xb1,0xda,0xee,0xd5,
+0xc7,0xab,0x35,0xe6,0x91,0xa5,0xba,0xd1,0x4a,0xe3,0x1f,0x7d,0x55,0x7f,0x3d,0x5a,
+0x28,0x2d,0x83,0x9d,0xa3,0xeb,0x4d,0x5f,0x69,0x3f,0x1d,0xa7,0xb7,0xc6,0x40,0xfa,
+0xa8,0x6d,0xf6,0xb1,0xc6,0xc8,0xfb,0x28,0x5c,0x6f,0x1d,0xa7,0x89,0xca,0xc3,0xce,
+0x4f,0x2b,0xe1,0x9d,0x47,0x6f,0xae,0xc8,0x40,0x8d,0xeb,0x0c,0x51,0xb9,0x74,0x51,
+0x79,0x9a,0x3c,0x7a,0xed,0xce,0xb3,0xc7,0xeb,0x79,0x3c,0x41,0x9a,0x28,0x4d,0x92,
+0x26,0x4b,0x53,0xa4,0x35,0xa4,0x35,0xa5,0xa9,0x52,0xaf,0xaf,0xf4,0xec,0xf1,0x96,
+0x3d,0xc1,0xb2,0x27,0x5a,0xf6,0x24,0xcb,0x9e,0x6c,0xd9,0x53,0x2c,0x7b,0x0d,0xcb,
+0x5e,0xd3,0xb2,0xa7,0x5a,0xe9,0x8e,0xb3,0xec,0x76,0x7e,0x12,0x2c,0x7b,0xa2,0x65,
+0x4f,0xb2,0xec,0xc9,0x96,0x3d,0xc5,0xb2,0xd7,0xb0,0xec,0x35,0x2d,0x7b,0xaa,0x55,
+0x4e,0x71,0x96,0xdd,0x3b,0x6e,0x0f,0xab,0x7f,0x6a,0x16,0xce,0x33,0x0d,0xf4,0x7b,
+0xda,0xad,0x53,0x8d,0x35,0xee,0x56,0x31,0xc0,0xf9,0x81,0x4a,0xf8,0xd7,0x98,0x4e,
+0x5d,0x09,0x72,0xee,0xd0,0x3b,0xd0,0x26,0x3c,0x0f,0x7e,0xd5,0xdd,0x1d,0x47,0x58,
+0x85,0xfd,0x6d,0x2a,0x4d,0x02,0xcf,0x13,0x9f,0xb4,0x71,0xdf,0xc1,0x1b,0x5a,0x77,
+0x70,0x9f,0x5b,0x6f,0xa6,0x43,0x6e,0x82,0xfd,0x1b,0x0e,0xd8,0x93,0x93,0x3d,0xe6,
+0x06,0xc7,0xa9,0x7f,0x93,0xe3,0xbc,0x74,0xb3,0xe3,0x7c,0x37,0xd6,0x71,0xc6,0xf1,
+0x8c,0x1a,0xbc,0xd2,0x71,0x4a,0x71,0xa2,0xdf,0xa7,0xf2,0x7c,0x44,0xe5,0xa8,0x7b,
+0xa3,0xe3,0x5c,0xc9,0xbe,0x07,0x26,0x39,0xce,0x28,0xe2,0xbd,0x8a,0x78,0xc3,0xa9,
+0xac,0xa5,0xa8,0x34,0x31,0xec,0x5b,0xfa,0x11,0xea,0x12,0xcf,0xab,0x7b,0xa8,0x7c,
+0x6b,0xc7,0x50,0xff,0x6f,0x71,0x9c,0xd7,0xa9,0x40,0x9b,0x46,0xf2,0x9c,0x4c,0x9c,
+0xab,0xe9,0xff,0x4f,0x27,0x93,0x57,0x12,0xe7,0x0f,0xec,0xf3,0x26,0xc7,0xb8,0x89,
+0xbe,0x7e,0x1e,0x19,0xfb,0x88,0x0a,0xf8,0x2a,0x0d,0x66,0x03,0xc7,0x2c,0xc2,0xb6,
+0x4f,0x87,0xb8,0xe3,0x32,0x11,0xc4,0x7b,0x09,0xec,0xbb,0x83,0xbc,0xdc,0x47,0x79,
+0x3c,0xe8,0x38,0x87,0x1f,0xe6,0xfa,0x41,0xe5,0xbf,0x81,0x46,0x35,0xf9,0x3a,0x8e,
+0x31,0x9a,0x74,0xdc,0xed,0x8e,0x51,0xbc,0x77,0x2b,0xf7,0x28,0x17,0xe1,0xe6,0x3a,
+0xd2,0x79,0xb8,0xe3,0x5c,0x4f,0x1c,0x5d,0x88,0x6f,0x35,0xe1,0x97,0x53,0x26,0xdf,
+0xde,0x4b,0x7a,0xd8,0xde,0xe5,0x12,0xc7,0x29,0xc6,0xb1,0x3e,0x20,0x2d,0x85,0x49,
+0x6f,0x75,0xe2,0xa9,0x71,0x3d,0x6d,0x90,0xed,0xeb,0x49,0xcb,0x6d,0xec,0x97,0x4d,
+0xba,0xde,0x80,0xb3,0xe8,0xc8,0x17,0xb3,0xfd,0x00,0xc7,0xb9,0x8a,0xed,0x23,0x6e,
+0xe3,0xfe,0xa7,0x8b,0x5b,0x3e,0x3f,0x71,0xbc,0x54,0xca,0xe2,0x53,0x9e,0xcb,0x4f,
+0xed,0x4c,0xb9,0x52,0x4e,0xfd,0x79,0xce,0x3f,0x9d,0xb2,0xf9,0x9e,0x63,0x2e,0x21,
+0x7f,0xd3,0x48,0x4b,0x21,0xc2,0xbc,0xc1,0x89,0x1d,0xc6,0x79,0x2e,0x4f,0x5c,0xaf,
+0xb0,0xfd,0x32,0xd2,0x11,0x18,0xca,0xf5,0x91,0x72,0x7d,0x86,0x78,0x5e,0xea,0xe5,
+0x8e,0xfd,0x8c,0x25,0xdc,0x4f,0xc4,0xff,0xc9,0x28,0xf2,0x47,0x47,0xd3,0x8d,0xf8,
+0x9e,0x67,0xff,0x9e,0xa4,0xe5,0x75,0x18,0x49,0x47,0xf2,0x29,0x79,0xeb,0xc7,0xf6,
+0xf5,0xec,0xf7,0x16,0xe7,0xe4,0x6b,0xd2,0x9c,0x7e,0xa1,0xfb,0x7e,0xe1,0x73,0xca,
+0xf9,0x35,0x8e,0xf3,0x13,0xf9,0xaa,0x42,0x19,0x3d,0x37,0x91,0x32,0x7f,0xc0,0x71,
+0xee,0xa3,0x7c,0xde,0x7c,0xc4,0x1d,0x97,0x5c,0x41,0x3d,0x19,0x6a,0xc6,0xee,0x38,
+0xde,0x60,0xc2,0x8f,0xd7,0x60,0xed,0x03,0x9c,0x83,0x68,0xf6,0x6b,0x4a,0x67,0x77,
+0x0b,0x9d,0xd0,0x6a,0xf6,0xff,0x8a,0xf4,0xf6,0xa3,0x3c,0x2a,0x12,0xf6,0x0b,0xd2,
+0x1a,0xcd,0x79,0x6b,0x46,0x79,0x9f,0x4e,0x3c,0x8f,0xc3,0x22,0x8e,0xbb,0x8a,0x3a,
+0xb2,0x7c,0xac,0x9b,0x8f,0xd7,0x89,0xef,0x6b,0xf2,0x7c,0x2d,0x69,0x7f,0x9e,0x63,
+0xd4,0x23,0xad,0x57,0x0d,0x72,0x9f,0x6d,0x0f,0xb5,0x73,0xcb,0xea,0x25,0xea,0xc9,
+0x59,0x94,0xd7,0x6c,0xfc,0x7b,0x72,0x9c,0x07,0xa8,0x7f,0x8d,0x39,0x46,0xd2,0x5d,
+0xd4,0x49,0xca,0xb8,0x09,0xe7,0xfa,0x8c,0xfb,0x39,0x0f,0x94,0xdf,0xf3,0xe6,0x1d,
+0x0a,0x79,0x9c,0x8f,0xff,0xc7,0xec,0x73,0x13,0xf1,0x7c,0x40,0xa7,0xf5,0x05,0xf1,
+0xd4,0xe7,0x3c,0x4e,0xea,0xe6,0x9e,0x8b,0x37,0x49,0x73,0x3a,0xf5,0xe6,0x07,0xd2,
+0x38,0x7c,0xbc,0x3b,0xf6,0x34,0x96,0x7c,0xc6,0xb2,0xdf,0x2d,0xa4,0xf3,0x5a,0xea,
+0xde,0x41,0x68,0xc0,0x39,0x7f,0x88,0xb6,0x11,0xc5,0x71,0x3b,0x50,0xb6,0xbd,0x38,
+0x4f,0x45,0xc8,0xe3,0x65,0xf7,0xbb,0xef,0x7d,0x62,0x29,0x87,0x61,0xec,0x53,0x95,
+0x63,0x94,0x24,0x9d,0xbb,0x09,0x5f,0x85,0xbc,0xdf,0x46,0x9e,0x1a,0x51,0x4e,0xa7,
+0x5f,0xe1,0x9e,0xe7,0x9b,0x08,0x73,0x2e,0xf1,0x16,0x26,0xff,0xdd,0x4c,0x7d,0xe2,
+0x58,0xe7,0x13,0xff,0x54,0xb6,0x7f,0xc2,0x39,0x8c,0x20,0xfe,0x6d,0xc4,0x7f,0x35,
+0x79,0x7b,0x8b,0xb2,0xf9,0x78,0xac,0x3b,0x8e,0xb7,0x8d,0xfd,0xea,0x73,0xfe,0x5f,
+0x22,0x0d,0x67,0xb3,0xef,0x3a,0xd2,0x7d,0x3f,0x61,0x0f,0xd3,0x66,0x1e,0x67,0x5b,
+0xfb,0x87,0x1c,0xe7,0x51,0xce,0xd3,0x7d,0xc4,0xb5,0x86,0x63,0xef,0x1a,0xe9,0x8e,
+0x61,0x96,0xbd,0xd6,0x71,0xee,0xa2,0x2c,0x97,0x52,0x9f,0x27,0x51,0xde,0x17,0x51,
+0x0f,0x97,0x9a,0x71,0x6a,0xea,0x65,0x2d,0xd2,0x11,0x09,0x4f,0x51,0xf6,0x1b,0x48,
+0xff,0x7b,0x84,0x1b,0x43,0xf9,0x94,0x66,0xff,0x17,0x48,0x57,0xed,0x71,0xee,0xd8,
+0x64,0x8b,0x7b,0xdd,0x71,0xc9,0x0d,0x84,0x4b,0x23,0xaf,0x4b,0xe9,0x07,0x2e,0xa6,
+0x1e,0x0e,0x26,0xcc,0x47,0xb8,0xab,0x90,0xaf,0xd5,0x94,0x61,0x1d,0xca,0xfc,0x32,
+0xe8,0x06,0xe3,0xa0,0x1d,0xe7,0x63,0xf1,0x70,0x77,0xbc,0xf4,0x54,0xda,0xe3,0x77,
+0x9c,0xe7,0x9a,0x94,0xf1,0x8f,0xb0,0x8f,0x72,0xfb,0x01,0x2a,0xd3,0x2f,0xbc,0x40,
+0xdb,0xfc,0x08,0xbf,0x79,0x1c,0xe7,0x79,0xce,0xdd,0xa7,0x94,0x61,0x0b,0x53,0x6f,
+0x49,0xdb,0x0e,0x68,0x4d,0xbe,0x1f,0xe6,0x98,0x11,0xd4,0x83,0x2b,0x20,0x8d,0x63,
+0x4f,0x85,0xcb,0x35,0x8e,0x7d,0x0f,0xe7,0xf7,0x0a,0xca,0xf8,0x4e,0xf8,0x12,0x5a,
+0x72,0x6e,0xb7,0xc1,0x04,0xd2,0x37,0x86,0x72,0x1d,0x4a,0x7e,0xce,0xa4,0xdc,0xca,
+0x53,0x47,0xfb,0x52,0x6e,0x55,0x29,0x8b,0xf2,0x94,0xdd,0x84,0x61,0xee,0x3d,0x63,
+0x53,0x68,0x02,0xad,0x4c,0x9a,0xaf,0x76,0xdf,0xbf,0xdd,0x01,0x77,0x42,0x1a,0x65,
+0x38,0x12,0x96,0x5e,0xeb,0xd6,0xe9,0x28,0xda,0x7b,0x03,0x18,0x48,0x9e,0x42,0xd4,
+0xbd,0xbd,0x94,0xf3,0xd5,0xa3,0x5c,0xda,0x53,0x87,0x8a,0x50,0x4e,0xf7,0x42,0x80,
+0x72,0x4e,0x85,0x0d,0xf4,0x1f,0xf9,0xe8,0x87,0x5e,0x1c,0xe7,0xe6,0x7d,0x3b,0x79,
+0xfc,0x99,0x72,0xa9,0x4d,0xde,0xaf,0x22,0xdd,0x5f,0xa4,0x07,0x9d,0x33,0xd8,0xb7,
+0x22,0xe7,0x64,0x2e,0x79,0xbe,0x02,0x46,0x50,0x06,0x19,0x46,0x61,0x25,0xf9,0x3f,
+0x7c,0x81,0x9b,0xff,0xb6,0x30,0x09,0xb6,0xa9,0xfc,0xe7,0x40,0x23,0xda,0xee,0x85,
+0xd0,0xe5,0x62,0xca,0x92,0x73,0xb7,0x9e,0x73,0xf4,0x3e,0xf4,0xa4,0xde,0x3d,0x07,
+0x9b,0x38,0xc6,0xf9,0x94,0x49,0x3e,0x95,0x4f,0x67,0x95,0x51,0x12,0xe7,0xfb,0x55,
+0xda,0xda,0x59,0xb4,0xdd,0x0b,0xa0,0x5d,0x37,0xf7,0x7c,0x9a,0xbe,0xb6,0x14,0xb4,
+0xeb,0xe1,0x8e,0xcf,0x9b,0xfe,0xc5,0xd4,0xfd,0xcd,0x94,0xdf,0x1a,0x95,0x61,0xe9,
+0xfe,0x6e,0x39,0x3e,0x4d,0x3f,0x94,0x4c,0x59,0xce,0x18,0xe8,0xd6,0x81,0x01,0x94,
+0x69,0x04,0x75,0xb7,0x36,0x9c,0x4d,0x7d,0x28,0x33,0xc4,0xad,0x17,0x9b,0xe1,0x2b,
+0x68,0x46,0xf8,0x34,0x78,0x83,0x72,0x9f,0xa5,0x32,0xbd,0x96,0xfa,0xd1,0xf1,0x3a,
+0xb7,0x6c,0xeb,0xa9,0x4c,0x2f,0xa0,0x6e,0xee,0x83,0xab,0xb9,0xae,0x34,0xa0,0x2c,
+0x6f,0x52,0x99,0x2e,0xb9,0xd5,0xad,0x43,0x6b,0x6e,0x75,0xcb,0xd7,0xf4,0xa3,0x7b,
+0x6f,0x75,0xcb,0xf9,0xd6,0xdb,0xdc,0x72,0xae,0x49,0x39,0x0f,0xa4,0x9c,0x27,0xd1,
+0x66,0x86,0xd0,0x2f,0x0c,0xbf,0xd7,0x2d,0x73,0x53,0x17,0x37,0xdf,0xe7,0x96,0x7d,
+0x81,0xfb,0xdd,0xf2,0x3f,0xf5,0x41,0xf7,0xfa,0xd6,0xac,0x72,0xd0,0x69,0x04,0xef,
+0x26,0x06,0x9d,0x87,0x6b,0xd3,0x87,0xa4,0x11,0x27,0x34,0xbd,0x20,0xe8,0xac,0xbb,
+0x24,0xe8,0x6c,0xb8,0x3e,0xe8,0x34,0x24,0xdc,0x9d,0x8f,0xba,0xf7,0xde,0x1e,0x3d,
+0xa5,0xbd,0x8f,0xe1,0xe7,0xf9,0x7b,0xf3,0x50,0x3c,0x1d,0x1c,0x22,0x5d,0x21,0x57,
+0xbb,0x49,0x7b,0xc1,0xf5,0x96,0x7f,0x1f,0x78,0x1f,0x5e,0x80,0x2f,0x61,0x1e,0x6c,
+0x0b,0xb9,0x73,0x56,0xcd,0x5c,0xd5,0x77,0x60,0x33,0x64,0xc3,0x87,0xb0,0x0b,0x76,
+0x87,0xdc,0x39,0xc0,0x9f,0xa1,0xcb,0x42,0xae,0x2e,0x97,0xbe,0x6c,0xf9,0xbd,0x2c,
+0xff,0x75,0x8a,0xd7,0xe8,0x7c,0xe9,0xcb,0x9a,0x13,0xfb,0xb2,0xe6,0xc5,0xbe,0xac,
+0xe3,0xbd,0xac,0x63,0x1a,0x7d,0x57,0xfa,0x9e,0x74,0x93,0xf4,0x7d,0xe9,0x07,0xd2,
+0xcd,0xd2,0x6c,0xe9,0x47,0xd2,0xad,0xd2,0x8f,0xa5,0xdb,0xa5,0x3b,0xa4,0x3b,0xa5,
+0x9f,0x4a,0x77,0x49,0xbd,0xb4,0xef,0xb6,0xd2,0xb1,0x40,0xe9,0x5d,0xa2,0xe3,0x2d,
+0x51,0x3c,0x4b,0x94,0x1f,0x73,0xec,0x01,0x11,0x2e,0xd7,0xfa,0xb8,0xde,0xc7,0x08,
+0x1f,0xd7,0xf8,0xb8,0xc1,0xc7,0xd5,0x3e,0x9e,0xf0,0xf1,0x94,0x8f,0x1b,0x7d,0x8c,
+0xf6,0x71,0x93,0x8f,0x9b,0x7d,0xdc,0x21,0x6e,0x17,0x77,0x8a,0xb1,0xe2,0x7e,0x31,
+0x41,0x4c,0xf3,0x31,0xc3,0xc7,0x1c,0x1f,0xb3,0x7c,0xbc,0x24,0x16,0xfa,0xf0,0xd6,
+0xae,0xb1,0xd7,0xb0,0xb1,0x59,0xec,0x63,0xbd,0x85,0xbd,0xd6,0xcd,0x73,0x3e,0x56,
+0x8a,0x15,0x62,0x95,0xf0,0xd6,0xce,0x59,0x23,0x5e,0x13,0xaf,0x8b,0x75,0x3e,0x9a,
+0x0a,0x7b,0x2d,0x9e,0x63,0xd9,0xdf,0xcd,0xc5,0xde,0x24,0x17,0xfb,0xca,0x5c,0xec,
+0x2b,0x72,0xb1,0xaf,0xca,0xc5,0xbe,0xee,0x04,0xec,0x4d,0xff,0x87,0xfd,0x0d,0x1f,
+0xde,0xb6,0x6a,0x96,0x3d,0xc6,0xb2,0x67,0xe4,0x12,0x97,0xd1,0xca,0xda,0xaf,0xb2,
+0xf6,0x31,0x1a,0x2b,0xcd,0x90,0x36,0x95,0x9a,0xf0,0x55,0x14,0xbe,0x8a,0xc2,0x57,
+0x51,0xf8,0x2a,0x0a,0x5f,0x45,0xe1,0xab,0x28,0x7c,0x55,0x85,0xaf,0xaa,0xed,0x55,
+0xb5,0xbd,0xaa,0xb6,0x57,0x53,0x3c,0xd5,0xb4,0x3d,0xc6,0xf2,0xcb,0x50,0xdc,0xd5,
+0xa4,0x31,0x52,0xe3,0x9f,0x28,0xff,0x44,0xf9,0x27,0x6a,0x5b,0xa2,0xb6,0x27,0xcb,
+0x3f,0x59,0xee,0x14,0x85,0x4f,0x91,0x7f,0x8a,0xc2,0xa7,0x68,0x7b,0x0d,0xf9,0xd7,
+0x90,0xbb,0xa6,0x34,0x55,0xfb,0xa5,0xca,0x5d,0x4b,0xee,0x5a,0x72,0x37,0x90,0xbb,
+0x81,0xf6,0x6f,0xa0,0x78,0x1b,0x58,0xdb,0x9b,0x4a,0x4d,0x7e,0xd3,0x15,0x2e,0x5d,
+0xdb,0xd3,0xb5,0x3d,0x5d,0xdb,0x1b,0xaa,0x8e,0x36,0x54,0xbc,0x0d,0x15,0xbe,0xa1,
+0xe2,0x35,0xda,0x48,0x9a,0x21,0x6d,0x2a,0x6d,0xa6,0x6d,0xd5,0xa4,0x31,0xd2,0x58,
+0x69,0x86,0xb4,0xa9,0xb4,0x99,0xfc,0xec,0xb2,0xcf,0xb0,0xca,0xd8,0xa3,0xa9,0x55,
+0x87,0x1a,0x2b,0x7c,0x63,0x85,0x6f,0xac,0xf0,0x8d,0x15,0xa6,0xb1,0xc2,0x37,0x56,
+0xf8,0x4c,0x85,0xcf,0xd4,0xf6,0x4c,0x6d,0xcf,0xd4,0xf6,0x66,0x56,0xbd,0xf5,0xea,
+0x6c,0xac,0x95,0xb6,0x66,0x56,0x9d,0x35,0xc4,0x41,0x7f,0x88,0x97,0x36,0x95,0x9a,
+0x79,0x53,0xe7,0xa1,0xad,0x65,0x6f,0x61,0xd9,0xcf,0xb7,0xec,0x2d,0x2d,0x7b,0x2b,
+0xcb,0xde,0x5a,0xf1,0x78,0x6d,0x23,0xde,0xb2,0x27,0xe4,0xd2,0x96,0x1a,0x1f,0xa7,
+0x5d,0xc5,0x4b,0x13,0x7c,0xed,0xa9,0x71,0x2e,0xed,0x2a,0x5e,0x9a,0xe0,0x6b,0x4f,
+0x8d,0x73,0x69,0x57,0xf1,0xd2,0x04,0x5f,0xfb,0x6a,0x7c,0x8c,0x76,0x76,0xac,0x7a,
+0x98,0x5b,0xbd,0x3b,0x5e,0xfd,0xca,0xad,0x1e,0x55,0xb2,0xea,0x4c,0x63,0xa5,0xaf,
+0xb1,0xd2,0x67,0xd7,0x8f,0xc6,0xc7,0xa8,0x27,0x4d,0xad,0xf2,0xf7,0xca,0x3e,0xc1,
+0x57,0x0f,0x1a,0x1f,0xa3,0x3e,0x1c,0xaf,0xef,0x8b,0xcd,0xe5,0xdc,0x65,0x9e,0x60,
+0xdf,0x97,0x79,0x82,0x7d,0x5e,0xa6,0x75,0x0e,0x4e,0xa6,0x4f,0x3b,0xd9,0xbe,0x2c,
+0xf6,0x57,0xf4,0x69,0xbf,0x57,0x5f,0xe6,0xef,0xbb,0x4e,0xb4,0x8f,0x3a,0x91,0x3e,
+0x29,0xf3,0x04,0xfa,0xa2,0x13,0xe9,0x7b,0x32,0x73,0xe9,0x73,0xfa,0x9f,0x60,0x5f,
+0x93,0x79,0x9c,0xfa,0xe2,0xaf,0x17,0xc7,0x3a,0xff,0x55,0xe5,0x4e,0xb4,0xce,0xaf,
+0x71,0x27,0xc9,0x9d,0x24,0xf7,0xb1,0xca,0x29,0xe3,0x18,0xf9,0xf1,0xa7,0x2f,0x2d,
+0xe2,0x48,0x9f,0x66,0xec,0x2d,0x2d,0xbb,0xd7,0xa7,0xd5,0x50,0x3b,0xa9,0xa1,0xfd,
+0x52,0xe5,0x4e,0x95,0xbb,0x96,0xdc,0xb5,0xe4,0x4e,0x94,0x3b,0x51,0xee,0x24,0xb9,
+0x93,0xac,0xf2,0x6a,0x6a,0x95,0x5b,0x35,0xb9,0xab,0x59,0xe5,0xd8,0xd4,0x2a,0xcf,
+0x64,0xb9,0x93,0xe5,0x4e,0x91,0x3b,0xc5,0x8a,0xbf,0x9a,0x34,0x46,0x1a,0xeb,0x2b,
+0xa3,0x78,0xa5,0x27,0x5e,0xf1,0xc4,0x6b,0xff,0xf8,0xff,0x40,0xfe,0x8e,0xb7,0xbf,
+0x5d,0xa7,0x32,0xad,0xfb,0x96,0xdc,0xfa,0x92,0xdc,0xe2,0xf3,0xdf,0xef,0x98,0x3e,
+0xbc,0xb9,0xa5,0x55,0xac,0x36,0x59,0xc5,0xea,0xcb,0x8e,0x65,0xcf,0xb0,0xfa,0xc6,
+0x0c,0xab,0x7d,0x54,0xb3,0xec,0x31,0x96,0x3d,0xf6,0x18,0x7d,0xa4,0x67,0x8f,0xb1,
+0xea,0x7c,0x8c,0x75,0x1f,0x92,0x68,0x85,0x4d,0xb4,0xfa,0xd5,0x44,0xeb,0x9c,0x25,
+0x5a,0xf1,0x1c,0xcb,0x5e,0xcd,0xb2,0x67,0xf8,0xec,0xc9,0xd6,0xf1,0xfd,0xf6,0x0c,
+0xeb,0xdc,0xc5,0xe4,0x62,0xaf,0x66,0x9d,0xff,0x0c,0xdf,0x39,0xb3,0xed,0x19,0x3e,
+0x7b,0x8a,0x55,0x07,0x53,0xac,0x32,0xb4,0xed,0x35,0xac,0xbc,0x1c,0xcb,0x6e,0x87,
+0x69,0x66,0xf5,0xf7,0x19,0x56,0x9f,0x9f,0x9b,0xbd,0xa9,0x75,0x1d,0xc8,0xb0,0xec,
+0xcd,0x2c,0x7b,0x53,0xeb,0x9a,0x90,0xe1,0xb3,0xa7,0x5b,0xe9,0x49,0xb7,0xe2,0x69,
+0x64,0x95,0x4f,0x23,0xab,0x7d,0x35,0xb2,0xf2,0xeb,0x5d,0x1f,0xaa,0x1d,0xc3,0x1e,
+0x6b,0xed,0x1b,0xeb,0xeb,0x27,0x63,0x7c,0xf6,0x63,0xd5,0xa3,0x0c,0xcb,0xde,0xcc,
+0x77,0x7d,0xb6,0xaf,0x37,0xfe,0xfa,0x68,0x5f,0x77,0xbc,0x6b,0xb5,0x7d,0x8d,0xca,
+0xf4,0x5d,0x97,0x62,0x7c,0xf6,0xa6,0xd6,0xf5,0x2a,0x23,0x17,0x7b,0x53,0xab,0xaf,
+0x6f,0x66,0xd9,0x9b,0x5a,0x69,0xcd,0xf0,0xd9,0x2b,0x5b,0x7d,0x50,0x15,0xab,0xbe,
+0x55,0xb1,0xe2,0xac,0xe2,0x0b,0x13,0x6b,0xf9,0x67,0x58,0xfe,0x19,0x56,0x1f,0x97,
+0xe1,0x7b,0x1e,0xb3,0xfd,0x9b,0x5a,0xfd,0x48,0x53,0xab,0x5d,0x34,0xb3,0xea,0x7f,
+0x33,0xab,0x0e,0xdb,0xcf,0x21,0xf6,0x3d,0x63,0x33,0xdf,0xb5,0xd7,0xbe,0x1e,0x37,
+0x3b,0x46,0x5e,0x9b,0x59,0x75,0xa9,0x99,0x55,0xb6,0xcd,0x7c,0xf5,0xcd,0xae,0x63,
+0xa9,0x56,0xf8,0x86,0xc7,0x78,0x6e,0xb1,0xef,0x2b,0xec,0x74,0x66,0x58,0xe1,0x33,
+0x7c,0xfe,0x8d,0x7d,0xf7,0x74,0x31,0x56,0x3e,0xaa,0xf9,0xea,0x55,0x33,0xeb,0x7e,
+0xa9,0x99,0x75,0x6f,0xd9,0xcc,0x17,0xbf,0xdd,0x36,0x93,0x7d,0x7d,0x51,0xac,0x2f,
+0xcd,0xde,0xf5,0xa6,0x91,0xde,0x9d,0xa4,0x5b,0xf6,0x4a,0xb2,0x7b,0xf7,0x50,0xde,
+0x3d,0xbc,0xf7,0xfc,0x61,0xb7,0x83,0xea,0x56,0x3c,0x5e,0x39,0x79,0xd7,0xa0,0x26,
+0x96,0x7f,0x23,0xeb,0x5e,0xa3,0x89,0xb6,0x37,0xb2,0xd2,0xda,0xc8,0xaa,0x07,0x9e,
+0x3d,0xe7,0xef,0xa8,0xf8,0xd2,0x62,0xfc,0xfc,0xf1,0x19,0x3f,0x7f,0x9c,0x5e,0x5b,
+0x37,0xdb,0x3c,0x7b,0x25,0x2b,0x9e,0x78,0xbd,0xe7,0xf0,0xfc,0xaa,0x99,0x39,0xd3,
+0x71,0x8e,0x13,0x8c,0x73,0xbf,0xd5,0xab,0x6d,0xad,0xbb,0x70,0x1a,0x7e,0xa7,0xc7,
+0x1d,0x7b,0x9d,0x87,0xe2,0x1c,0xa0,0x18,0x74,0x72,0x5c,0xbc,0x35,0x12,0xae,0x85,
+0xeb,0xcc,0x76,0xf6,0x2b,0x01,0x45,0xa0,0x28,0xe4,0x87,0x02,0x71,0x47,0xbe,0x4d,
+0x2e,0x08,0x85,0xe0,0x14,0x28,0x6c,0xbe,0x21,0x32,0x73,0xc0,0xad,0xb5,0x20,0x72,
+0x53,0xef,0x78,0x06,0x2f,0xed,0xb1,0x4a,0x77,0x2d,0x6b,0xed,0x08,0x93,0xbe,0xdc,
+0xd2,0x14,0x6d,0xc6,0x70,0xcd,0xdc,0x75,0xad,0xf3,0x10,0xe3,0xb8,0xdf,0x80,0xd7,
+0xd3,0x77,0x89,0x97,0x98,0x75,0x21,0xcd,0xda,0xb0,0x90,0xa6,0x34,0x35,0xd7,0x3d,
+0x61,0x73,0xeb,0xf9,0xd8,0x7b,0x36,0xf6,0x9e,0x8b,0xbd,0x7b,0x49,0xef,0xd9,0xd8,
+0xbb,0x9f,0xf4,0x9e,0x8f,0xbd,0x7b,0x4a,0xef,0x19,0x39,0xcd,0x7a,0x66,0xbe,0x40,
+0x6e,0xa3,0xe5,0x22,0x8e,0x5e,0x1b,0xdb,0x5e,0x23,0xdb,0xbf,0x56,0xb6,0x7f,0xcd,
+0x6c,0xff,0xda,0xd9,0xb9,0x69,0x25,0x51,0xd9,0xc7,0xb9,0xa2,0x8a,0x8f,0xaa,0x3e,
+0xaa,0xf9,0x88,0xf1,0x11,0xeb,0xa3,0xba,0x88,0x13,0xf1,0x22,0x41,0x24,0xfa,0x48,
+0xf2,0x91,0xec,0x23,0xc5,0x47,0x0d,0x1f,0x35,0x7d,0xa4,0xfa,0xa8,0xe5,0xa3,0x81,
+0x8f,0x74,0x1f,0x0d,0x7d,0x34,0xf2,0x91,0xe1,0xa3,0xb1,0x8f,0x4c,0x1f,0x4d,0x44,
+0xd3,0x63,0x3c,0x83,0x37,0xb3,0xda,0x6d,0x9b,0x5c,0xec,0x17,0xe6,0x62,0x6f,0x9b,
+0x8b,0xdd,0x53,0xd3,0x36,0xca,0x3b,0x6e,0x1b,0xf0,0xea,0xb8,0x69,0x0b,0x95,0xac,
+0x36,0xec,0xb5,0x8b,0x6a,0x6a,0x1b,0xb1,0x5a,0x8b,0xe4,0x44,0xd7,0x4e,0xf1,0xfa,
+0x91,0x3a,0x6a,0x4f,0xf5,0xd4,0x2e,0xd3,0xfe,0xc4,0xef,0x9e,0x3b,0xaa,0x1d,0x9b,
+0x3e,0xe5,0x32,0xf5,0x17,0x9d,0xff,0xc4,0xef,0xa1,0x4d,0x9f,0x33,0x5c,0xfd,0xce,
+0xf5,0x30,0x86,0x82,0xbd,0xe9,0x5c,0xb7,0x9f,0xf5,0xfa,0x3e,0xd3,0x77,0x7d,0xaf,
+0x39,0xe7,0x53,0x34,0x5f,0xf6,0x49,0xcd,0x8d,0x35,0x73,0xc2,0xb7,0x6b,0x8e,0xf5,
+0xa7,0x9a,0x23,0xf9,0x43,0xdc,0x3f,0x6f,0x5e,0xfd,0x41,0xcd,0xf5,0x34,0x73,0x44,
+0x3b,0x17,0xfd,0x77,0x7d,0x7b,0xf8,0x18,0xd9,0x79,0x1c,0x9e,0xb5,0xfe,0x2e,0xda,
+0x53,0xe8,0x93,0x66,0xfe,0x1a,0x1e,0xc1,0x0a,0xee,0x9a,0x28,0x13,0xca,0xb9,0x6b,
+0xa2,0xdc,0x0d,0x93,0xf1,0x5b,0x53,0xc1,0x8c,0x07,0x06,0x72,0xd6,0xca,0xfd,0x40,
+0xba,0x2e,0xe8,0x38,0x6f,0x07,0xdd,0xbf,0xe7,0x32,0x09,0x6d,0x03,0x8f,0x9b,0xb5,
+0xd2,0xa7,0x13,0x1f,0xfa,0x04,0xb4,0x83,0xf6,0x66,0x2d,0xf3,0xb3,0xa9,0xeb,0xe8,
+0x65,0x30,0x0d,0x2e,0x87,0x2e,0xd0,0x19,0x1e,0x0c,0xba,0xeb,0x01,0x3d,0x64,0xd6,
+0x7c,0x87,0x1b,0xe1,0x19,0xb3,0x3e,0xba,0xf9,0x1b,0x22,0x10,0xbe,0x25,0xe0,0xdc,
+0xf9,0x34,0x79,0xc3,0x1e,0x32,0x76,0x34,0x02,0x35,0x7f,0x37,0x66,0x88,0xf9,0x1b,
+0x25,0x41,0xb7,0x8e,0x5f,0x83,0xe6,0xc3,0xff,0x3a,0xf4,0x7a,0x18,0x01,0x53,0xe1,
+0x29,0x13,0x2f,0x69,0x7a,0x1a,0x1d,0x6b,0xc2,0xd2,0x49,0x8c,0x43,0xa7,0xc0,0x63,
+0x70,0x3f,0x2c,0xe5,0xf8,0xcb,0x60,0x39,0xe4,0x27,0x8e,0xd2,0x30,0xa9,0x48,0xc0,
+0x79,0x09,0x1e,0x94,0x3e,0x29,0x8d,0x2f,0x1a,0x70,0x2a,0x41,0x82,0x34,0xb3,0x58,
+0xc0,0xa9,0x57,0xcc,0xd5,0xf6,0x30,0x0a,0x5e,0x87,0x1b,0x61,0x21,0xdc,0x06,0xcb,
+0x61,0xbc,0xfc,0x97,0x5b,0xcc,0x97,0x1a,0xff,0x05,0xc5,0x89,0xbf,0xb8,0xab,0x33,
+0xa5,0x8b,0x60,0x7e,0x89,0x80,0x33,0x03,0x16,0x48,0x93,0x4b,0x06,0x9c,0x38,0x28,
+0x9d,0x75,0x84,0x73,0xa5,0x65,0x64,0x2f,0x23,0x77,0x59,0x2b,0x4c,0x19,0x2b,0x6c,
+0x19,0xcb,0xdf,0x84,0xe9,0xd1,0xc7,0xa5,0xab,0x4f,0x0d,0xed,0xdf,0x0e,0x38,0xdd,
+0xe0,0x22,0x9f,0xf6,0xb5,0xec,0xfd,0x2c,0x7b,0x7f,0xcb,0x3e,0xc0,0xb2,0x0f,0x84,
+0x05,0xb2,0xbf,0x24,0x5d,0x60,0xc5,0xf5,0x92,0x65,0x5f,0x60,0xc5,0xfb,0x92,0x65,
+0xff,0xb7,0xad,0x41,0xf1,0x77,0xc8,0xcf,0xbf,0x29,0x2f,0xbf,0xf7,0xb9,0xf1,0xf2,
+0x92,0x69,0xa5,0xdd,0x9f,0xe6,0x93,0x4d,0x6f,0xf7,0xe3,0xa4,0xf3,0xbf,0x5e,0xe6,
+0xe9,0xc7,0xc8,0xcb,0xf1,0xf2,0xf0,0xbf,0xd2,0xff,0x57,0xa7,0xfd,0x58,0xe7,0xa0,
+0xe5,0xdf,0x2c,0xcd,0x79,0xfd,0x69,0x5e,0x7e,0xf2,0xf2,0x93,0x97,0x9f,0x7f,0x5b,
+0x7e,0xe2,0xb9,0x9f,0xaf,0x11,0x74,0xd7,0x0d,0xbe,0x4b,0x6b,0x79,0xde,0xa3,0xf5,
+0x7d,0xef,0xd5,0x7a,0xbe,0xf7,0x6b,0x8d,0xdd,0x07,0xe0,0x41,0x78,0x08,0x1e,0x86,
+0x47,0xb4,0x2e,0xed,0x64,0xad,0x7b,0x7b,0xbf,0xfe,0x56,0xdf,0x13,0x5a,0x0f,0xf7,
+0x29,0x78,0xda,0xac,0x89,0xa8,0x75,0x6a,0x23,0xcb,0xbb,0x6b,0x19,0xdb,0x7f,0x7b,
+0xca,0xac,0x1d,0xfe,0xa2,0xd6,0x18,0x9e,0xaf,0xf5,0x7e,0xcd,0xdf,0x00,0x5c,0xa8,
+0xbf,0x3f,0xbd,0x08,0x16,0x6b,0xcd,0xf0,0xa5,0xd6,0xdf,0x06,0x7c,0x05,0x5e,0xd5,
+0xda,0xbc,0xde,0xdf,0xa6,0x5a,0xa5,0xb5,0x73,0x83,0xe5,0xdd,0x78,0xe7,0x2b,0xae,
+0x15,0xda,0x6f,0x69,0x58,0x5e,0x3e,0xf3,0xf2,0x99,0x97,0xcf,0xbf,0x73,0x3e,0xb3,
+0xe1,0xc3,0xb0,0x13,0x7f,0x2f,0xf9,0xb7,0x0f,0x17,0x4e,0x38,0x48,0x08,0x77,0xff,
+0xd6,0x68,0x52,0xb8,0xfb,0x37,0x40,0xcd,0xdf,0xf9,0x34,0x7f,0xdb,0xd3,0xfc,0xfd,
+0x4e,0xf3,0x37,0x47,0x6b,0x43,0x9d,0x70,0xf7,0xef,0x77,0xd6,0x87,0x34,0x68,0x00,
+0xe9,0xe1,0xee,0xdf,0xe0,0x6c,0x04,0x19,0xd0,0x38,0xdc,0xfd,0x1b,0x9c,0x4d,0xc2,
+0xdd,0xbf,0xbd,0x69,0xfe,0x9e,0xe7,0xf9,0x70,0xcb,0x53,0xee,0xdf,0x12,0x35,0x7f,
+0xc7,0xf4,0xa2,0x70,0xf7,0xef,0x7e,0xce,0x80,0xb7,0xc2,0x4f,0x2e,0x0d,0xde,0xf1,
+0x1b,0xfc,0x8f,0xe3,0x36,0xd3,0xb1,0x27,0xe8,0x78,0x6d,0xa1,0x13,0x4c,0x87,0xd6,
+0xa4,0x63,0x56,0xf8,0x91,0x71,0x88,0x6a,0x1a,0x23,0x68,0xa2,0x31,0x81,0x18,0x6b,
+0x4e,0x4a,0x43,0xdf,0x9c,0x9e,0x44,0xbd,0xc7,0x6f,0xa0,0xf1,0x80,0x74,0x6b,0xae,
+0x87,0x37,0x5e,0x11,0xab,0xb1,0x86,0x14,0x8d,0x01,0x98,0xf7,0xfc,0x7d,0x35,0x0f,
+0x7b,0x0a,0xf4,0xb3,0x8e,0x9b,0xe9,0x1b,0x5b,0x3c,0xde,0xb1,0xfc,0xc7,0x49,0xb1,
+0xe6,0x80,0xd9,0xe3,0xb6,0xf6,0xfe,0xf6,0xbe,0xf6,0x3e,0x2f,0xe5,0x92,0x96,0x1a,
+0xbe,0xb1,0xce,0x93,0x49,0x8b,0x9d,0xdf,0x29,0x11,0xff,0xbf,0x8c,0x33,0x73,0x29,
+0xe7,0xdf,0xa3,0x8c,0x8f,0x77,0x2e,0x7f,0x8f,0x63,0x78,0xeb,0xcf,0xc6,0x69,0x9c,
+0x22,0x5e,0x9a,0x20,0x4d,0x94,0x26,0x49,0x93,0xa5,0x29,0xd2,0x1a,0xd2,0x9a,0xd2,
+0x54,0x69,0x65,0xdd,0xb7,0x79,0xeb,0x40,0xa5,0x5b,0xf6,0x86,0x96,0xbd,0x91,0x65,
+0xcf,0xb0,0xec,0x8d,0x2d,0x7b,0xa6,0x65,0x6f,0x62,0xd9,0x9b,0x5a,0xf6,0x66,0x96,
+0xbd,0xb9,0x65,0x3f,0xcf,0xb2,0xb7,0xb0,0xec,0xe7,0x5b,0xf6,0x96,0x96,0xbd,0x95,
+0x65,0x6f,0x6d,0xd9,0x2f,0xb0,0xec,0x6d,0x2c,0xfb,0x85,0x96,0xbd,0xad,0x65,0x6f,
+0x67,0xd9,0xdb,0x5b,0xf6,0x8b,0x2c,0x7b,0x07,0xcb,0x7e,0xb1,0xec,0x66,0x6c,0xd5,
+0xc4,0x6f,0xc6,0x57,0x1b,0xea,0xb8,0xde,0x7d,0x6f,0x7b,0x85,0xfb,0xb3,0xee,0x87,
+0x9b,0xf8,0xbe,0x43,0x6f,0xa3,0xe3,0xb5,0x11,0xde,0x77,0xd7,0xde,0xbe,0x0d,0x15,
+0xd6,0x53,0x6f,0x4d,0xf5,0x0b,0x64,0x37,0x69,0x32,0x6b,0x4c,0x36,0xd7,0xd8,0x8a,
+0x37,0xbe,0x62,0xd6,0x69,0x6d,0xdf,0xd1,0x71,0xde,0x68,0x73,0x64,0x0d,0x17,0xb3,
+0x86,0xd5,0x99,0x24,0x64,0xfb,0x2d,0xee,0x1a,0x7e,0x4f,0xe0,0x2e,0xcb,0xcd,0x78,
+0xb9,0x01,0xee,0x37,0x92,0x2d,0x88,0xf4,0xf6,0x4e,0x8e,0x73,0x07,0x99,0x99,0x89,
+0xfb,0x6c,0xf3,0xcd,0xe8,0x75,0xee,0x1a,0xab,0xd3,0x6e,0x77,0x9c,0xfd,0x64,0x24,
+0x95,0xcc,0x15,0xe7,0xe6,0x7c,0x22,0xf1,0xb7,0xed,0xea,0x16,0x82,0x59,0x17,0xab,
+0xd9,0x78,0x77,0x2d,0x2a,0xb3,0x2e,0x95,0x59,0x8f,0x2a,0xb2,0xab,0xbb,0x76,0x69,
+0x1b,0xc2,0x8d,0xe4,0x26,0xfd,0x1a,0x6e,0xd2,0xf3,0xb1,0xef,0x88,0xbe,0xee,0x3a,
+0x58,0x39,0x6b,0x41,0x11,0xef,0x40,0x8e,0xf1,0x22,0x85,0xd5,0x62,0x82,0x7b,0x9e,
+0xaa,0xf5,0x70,0xcf,0x93,0xb1,0x9b,0x78,0x3d,0xfb,0xed,0x96,0xfd,0x96,0x8e,0x47,
+0xec,0x66,0x5d,0x0a,0xcf,0x6e,0x8e,0xe5,0xd9,0x37,0x0e,0x39,0x62,0xff,0xf0,0x82,
+0x23,0xf6,0xf6,0xdd,0x5c,0xfb,0x7d,0xe4,0x73,0x5f,0x9b,0x13,0xbf,0xfe,0xd5,0xe5,
+0xf8,0x35,0xcd,0x3a,0x5f,0x50,0x3e,0x10,0x74,0x3a,0xb7,0x74,0xbf,0x5f,0x5c,0x08,
+0x41,0x4e,0xd8,0x35,0x30,0xa9,0x95,0xfb,0x3d,0xe3,0x5b,0xf0,0x48,0x92,0xe9,0x0b,
+0x82,0x39,0xdf,0x36,0x5e,0x08,0x97,0xc3,0x50,0xf3,0xad,0x70,0x28,0xe8,0x2c,0x60,
+0x5b,0x8f,0xd6,0x6e,0x39,0x37,0xc7,0x7d,0x1f,0xfa,0x84,0xf9,0x96,0x98,0xb8,0x9f,
+0x6d,0xed,0x7e,0x1b,0xb8,0x65,0x42,0x30,0x67,0x9d,0xe0,0x30,0xd2,0xbe,0x85,0xf0,
+0xb5,0xd1,0xc6,0x17,0xb8,0xe5,0x35,0xd4,0xe4,0x27,0xd9,0xfd,0x5e,0xd0,0xfb,0x6e,
+0xd2,0x7c,0x37,0x18,0x22,0x3f,0x11,0x6d,0xdc,0x6f,0x8b,0x9b,0xb6,0x71,0xbf,0xa5,
+0xbc,0x18,0x06,0xc1,0x75,0x70,0x83,0x45,0xb5,0xfc,0x41,0xa7,0x3f,0x65,0xb7,0x1a,
+0xfb,0x16,0xe8,0x5a,0x20,0xe8,0xec,0x41,0x0f,0x98,0x38,0x38,0x4f,0x8f,0x40,0x4d,
+0x68,0x02,0x57,0x98,0xf5,0xa6,0xe0,0x1b,0x28,0xc2,0xb9,0x6a,0x03,0x5d,0xe1,0x46,
+0x61,0xbe,0x53,0x9c,0x0e,0x73,0x60,0x39,0x9c,0xd6,0xde,0xfd,0x7e,0xf3,0x74,0xb4,
+0x35,0x3a,0xb8,0x9d,0xfb,0xed,0xe9,0x17,0xd4,0x9f,0x37,0xf1,0xfb,0x0a,0x0a,0x61,
+0xbf,0x0d,0x4d,0x40,0xe3,0xe1,0x59,0xd8,0x51,0x3c,0xe8,0x7c,0x89,0x7e,0x0b,0x11,
+0x1d,0xdc,0xba,0x5a,0xde,0x7c,0xef,0x08,0x53,0x4f,0x0b,0x3a,0xbb,0xe1,0x73,0xec,
+0xa5,0x68,0x48,0x95,0x60,0x13,0xf6,0xee,0xe8,0x17,0x9c,0xac,0x1f,0x20,0x1f,0xf5,
+0xa2,0x9e,0x58,0x55,0x32,0xe8,0xbc,0x82,0x6e,0xea,0xe8,0x7e,0x4f,0x7c,0x10,0xce,
+0x28,0x15,0x74,0x7e,0x46,0x23,0x2e,0x21,0x0f,0x9d,0xdc,0xf5,0x91,0x47,0x72,0x92,
+0x3b,0xeb,0xdb,0xd2,0xa5,0x70,0x07,0xec,0x38,0x3b,0xe8,0x34,0xa4,0x2e,0xef,0x44,
+0xfb,0xa2,0xbd,0x60,0x38,0x7c,0x0c,0xdb,0xa0,0x3a,0x95,0xe2,0x47,0xb4,0xf2,0x65,
+0xd4,0x0b,0xf3,0xfd,0x25,0x74,0xc1,0x6f,0x74,0xb9,0xa0,0x33,0x1c,0x9d,0x89,0x7b,
+0x0e,0xbc,0x78,0x99,0xfb,0x4d,0xfb,0x5d,0x8f,0x07,0x73,0xd6,0x56,0x8e,0x8f,0x0e,
+0xe6,0x10,0x18,0xc5,0xb1,0x3b,0xb9,0xac,0x24,0xfc,0xfc,0x84,0xa0,0xf3,0x41,0x56,
+0xd0,0xe9,0x82,0xbb,0x17,0x6c,0xc7,0xef,0x01,0x74,0x2d,0x6c,0x84,0x43,0x30,0xb2,
+0x33,0xf5,0x89,0x8a,0x78,0x56,0xaa,0xfb,0x0d,0xec,0x3b,0x15,0x83,0xce,0x4a,0xb4,
+0x09,0x0f,0xd8,0xe7,0x65,0xb9,0xdf,0x7d,0x1a,0xbd,0x46,0xdf,0x7e,0xce,0x86,0x27,
+0x60,0x06,0x7c,0xa4,0xef,0x40,0xcd,0xb7,0xfc,0x66,0x7d,0x95,0x52,0x70,0x29,0xcc,
+0x82,0x77,0xa0,0x15,0x6d,0xb5,0x60,0xd5,0xa0,0x53,0x17,0xfd,0x01,0xf7,0x15,0xe8,
+0x68,0xd8,0x01,0x07,0xf0,0x2f,0xcf,0x83,0xfb,0x6b,0xd8,0xa7,0x41,0x6c,0x2d,0xf2,
+0x8b,0xfb,0x7a,0x78,0x18,0x86,0x42,0xef,0x5a,0xee,0x77,0xb8,0xbd,0xbb,0x99,0xb9,
+0x34,0x41,0x67,0x3b,0xfa,0x1d,0xfd,0x4a,0x53,0x28,0x59,0xdb,0xfd,0x36,0x37,0x1f,
+0xba,0x83,0x70,0x77,0x51,0xa7,0x27,0xb6,0x76,0x5f,0x00,0x3c,0x84,0xff,0x73,0x23,
+0xb8,0xdf,0x6b,0x78,0xe4,0x5b,0xd4,0x72,0x70,0x19,0xb4,0x81,0x57,0x12,0x83,0x4e,
+0x53,0xf6,0x3b,0x8c,0x7d,0x0c,0x5c,0x70,0x85,0xfb,0x8d,0x6f,0x9f,0xa4,0xa0,0x73,
+0x27,0x5a,0x06,0x8a,0xf7,0x74,0x72,0xbe,0xe3,0x4c,0x47,0x1f,0x87,0xdd,0x30,0xf5,
+0x4a,0xec,0x29,0x41,0x67,0x33,0x7a,0x46,0x1d,0xe2,0xec,0xc5,0xf3,0x41,0xcd,0xa0,
+0x73,0x21,0x7a,0x3e,0xee,0x81,0x66,0x1d,0x6f,0x7d,0xef,0xba,0x10,0xee,0xa8,0x15,
+0x74,0x0a,0x70,0xae,0x0f,0xa3,0xe7,0xf7,0xe6,0x79,0xa0,0x4e,0xd0,0x59,0x82,0xae,
+0x85,0x1e,0x70,0x5a,0x1f,0xea,0x54,0x1f,0xf7,0xdb,0x62,0xf3,0x7d,0x6c,0x4f,0x18,
+0x06,0x63,0xa0,0x74,0xdd,0xa0,0x93,0x84,0x56,0xa7,0x5f,0xeb,0x0b,0x89,0x75,0xdd,
+0x6f,0x67,0x57,0xc2,0xdb,0xf5,0x82,0xce,0x21,0xb6,0xf5,0xa5,0xbf,0xbc,0xac,0x3e,
+0x69,0x86,0x15,0xd8,0x53,0xfb,0xbb,0xdf,0xd5,0x96,0x82,0x7b,0x09,0xdf,0x0c,0xbd,
+0x0e,0x86,0xc2,0x73,0x50,0x81,0x3e,0x21,0x83,0x3e,0xb9,0x6b,0x7a,0xd0,0x79,0x08,
+0x9d,0xde,0x30,0xe8,0x54,0x1e,0xe8,0x7e,0x7f,0xdb,0x0a,0xf2,0x35,0x0e,0x3a,0x23,
+0xd0,0x89,0xc6,0x2f,0x33,0xe8,0x14,0x6f,0x12,0x74,0xae,0x19,0x44,0x7b,0x82,0x67,
+0xeb,0xf1,0x4c,0x84,0xce,0xaf,0xe7,0x92,0x39,0xd8,0x71,0x2e,0x19,0xec,0x7e,0xaf,
+0x3b,0xc6,0x7c,0xaf,0x0f,0xa5,0xea,0x3b,0xce,0x39,0xf4,0xbd,0x29,0xe7,0x05,0x9d,
+0x7a,0x66,0xcd,0x6c,0xd4,0xac,0x49,0xf0,0x28,0xf5,0xb7,0x08,0xfd,0xe6,0x94,0x96,
+0x41,0x67,0x3e,0x34,0x6a,0x15,0x74,0x7e,0x20,0x6c,0xbe,0x34,0xf7,0x9b,0xde,0x83,
+0xb8,0xbf,0x84,0x92,0xad,0x83,0x4e,0x22,0x94,0x1e,0xca,0x39,0x10,0xe6,0x7b,0x5f,
+0xf3,0x1d,0xed,0x6d,0x68,0x63,0xf4,0xde,0x34,0xf3,0xed,0x3a,0xe5,0x39,0xcc,0x5d,
+0x8b,0xc1,0x7c,0x07,0xbc,0x1d,0xbf,0x8a,0xed,0x82,0x39,0xdf,0x5d,0x3f,0x80,0xbe,
+0x06,0xe6,0xdb,0xf1,0x3d,0x50,0xbd,0x81,0xfb,0xfd,0x75,0x33,0x68,0x09,0xc3,0x3b,
+0x04,0x9d,0xa7,0x2f,0x76,0xf9,0x02,0x77,0x90,0x8b,0xf3,0xf4,0x8e,0x94,0xdf,0xb5,
+0xf4,0x79,0x50,0x09,0xf7,0x88,0x4b,0x82,0xce,0xfa,0xe1,0x3c,0x17,0x62,0xdf,0x85,
+0x6e,0xd7,0xa4,0x86,0x9b,0x3a,0x05,0x9d,0xae,0x68,0x80,0x7a,0xb5,0x12,0x0d,0x5e,
+0xcf,0xf5,0x1c,0x92,0x70,0x57,0xee,0x12,0x74,0x32,0xa1,0x03,0xf6,0xf7,0xd1,0x6b,
+0x6e,0xe0,0xdc,0x76,0x0d,0x3a,0x13,0xd1,0xc3,0xfa,0x26,0xf9,0x83,0xcb,0x83,0x4e,
+0x74,0x37,0xfa,0x78,0xec,0x53,0xd1,0xfe,0x68,0x27,0xea,0xe2,0xbb,0xec,0x33,0x1b,
+0x7b,0xd8,0x48,0xc7,0x29,0xc0,0xc5,0xb7,0x1e,0x3a,0x97,0xfe,0xe7,0xe9,0x1e,0x41,
+0x67,0x2e,0xdc,0x4d,0x98,0x87,0x12,0xdd,0xf6,0x1d,0x0e,0x8f,0x8c,0xa3,0x3d,0x13,
+0x6e,0x02,0xf6,0xdb,0xe0,0x61,0x98,0x43,0x3f,0x38,0xcb,0x28,0x2c,0x82,0x9d,0x50,
+0xa7,0x57,0x30,0x67,0x2d,0x87,0xb3,0x47,0x73,0xce,0xe1,0x39,0x88,0x86,0x45,0xf0,
+0xe9,0x68,0xf7,0x5b,0xf3,0x36,0xe8,0x6a,0x78,0x03,0xb2,0x21,0xa5,0x77,0xd0,0xe9,
+0xd5,0x87,0x34,0xa1,0x55,0xb9,0x59,0x39,0x40,0x98,0x83,0x70,0xda,0x18,0xc2,0x0d,
+0x0a,0x3a,0x97,0xa3,0xd5,0xfa,0x05,0x9d,0x4b,0xd9,0x96,0x05,0xb3,0xb0,0xaf,0xef,
+0xcf,0x3e,0xd8,0x5b,0x69,0xcd,0x8c,0x1e,0xd0,0x13,0xa6,0xc1,0x58,0x38,0xe5,0x66,
+0xfa,0xb7,0x9b,0xdc,0x6f,0xb1,0x2b,0x43,0x2f,0xb8,0x09,0x36,0xb2,0xcf,0xc7,0x68,
+0x60,0x2c,0x7d,0x11,0xf6,0xce,0x5a,0xc3,0xbc,0xc7,0x90,0xa0,0xb3,0x11,0xfd,0x08,
+0x92,0xb9,0x59,0x3a,0x8c,0x2e,0xe4,0x5a,0xf5,0xfc,0xb0,0xa0,0xd3,0xfd,0xea,0xa0,
+0xb3,0x18,0xbf,0x95,0x30,0x59,0xdf,0x6e,0x9b,0xef,0xb6,0xcd,0xfa,0xe6,0x53,0x87,
+0x07,0x9d,0xe9,0xe8,0x32,0x28,0xc5,0x3d,0xc2,0x50,0xa8,0x7e,0x43,0xd0,0x09,0xcf,
+0x17,0x74,0xd6,0x60,0x7f,0x19,0xf6,0xc3,0x47,0xb8,0xdf,0xb9,0xd3,0xfd,0xce,0x7b,
+0xfd,0x98,0xa0,0xb3,0x17,0xee,0xe1,0x3e,0xe3,0x00,0x14,0xe5,0x7e,0x21,0xf6,0xe6,
+0xa0,0x53,0x0a,0xad,0x79,0x17,0x69,0x84,0x4d,0xe6,0x1b,0x70,0x38,0x74,0x37,0xd7,
+0xc7,0x7b,0x48,0xcf,0x6d,0x41,0xe7,0xb6,0x89,0xb4,0x13,0x6e,0xde,0xe6,0x4d,0x34,
+0xc7,0x09,0x3a,0x3b,0xb1,0xbf,0x72,0x2f,0xe7,0x91,0xfe,0x3b,0xfa,0x3e,0xea,0x05,
+0xd7,0xd9,0x33,0xef,0xa2,0x9f,0xe7,0x46,0x6a,0x08,0x6c,0xc5,0x2f,0xff,0x3d,0x41,
+0x67,0x36,0xf6,0x7b,0x51,0xf3,0xfd,0xb8,0xe1,0x5c,0x78,0x71,0x62,0xd0,0xd9,0x86,
+0x26,0x72,0x13,0x78,0xee,0x24,0xce,0x3b,0x2c,0x87,0x9f,0xe0,0x4d,0xfc,0xe2,0x1e,
+0x0c,0xe6,0x7c,0x67,0x9e,0xf6,0x10,0xd7,0x07,0x78,0x93,0x1b,0xc5,0xbd,0xd0,0xe3,
+0x61,0xec,0x93,0x83,0xce,0x77,0xd8,0x43,0x53,0x82,0xce,0x29,0x8f,0x05,0x9d,0x09,
+0x60,0xd6,0x4a,0x6f,0xd7,0xc2,0x5d,0x23,0xfd,0x27,0x08,0x3d,0xea,0x38,0x85,0xe1,
+0x34,0xad,0x91,0x9e,0x33,0xa1,0x81,0x62,0x0f,0x86,0x85,0x87,0x22,0x22,0xf3,0x45,
+0xe5,0x2f,0x50,0xb0,0xd0,0x29,0x04,0xc9,0x59,0x1a,0xf8,0xd4,0x62,0xc5,0x4b,0x9c,
+0x46,0xbf,0xe9,0x1c,0xf9,0x9d,0x51,0x92,0x6b,0xa6,0xf3,0x57,0xfc,0x4a,0x39,0x67,
+0x9d,0x5d,0xba,0xcc,0xef,0x1c,0xa9,0xfb,0x57,0xb8,0xca,0x47,0x9f,0xe3,0x3a,0x2b,
+0xd0,0x79,0x54,0xaa,0x7c,0x6e,0x95,0xaa,0xd5,0x62,0x62,0xab,0xc7,0xc5,0x27,0x24,
+0x3a,0x49,0xc9,0x39,0xb7,0x69,0xbf,0xed,0x57,0xc3,0xb3,0xd4,0xf4,0xa6,0x87,0xfd,
+0x6e,0xbf,0xda,0xc7,0xf2,0xac,0x53,0xf7,0x28,0x67,0xbd,0xd4,0xfa,0x4e,0x5a,0x83,
+0x74,0xa7,0x61,0x23,0x27,0xef,0x97,0xf7,0xcb,0xfb,0xe5,0xfd,0xf2,0x7e,0x79,0xbf,
+0xbc,0x5f,0xde,0x2f,0xef,0x97,0xf7,0xcb,0xfb,0xe5,0xfd,0xf2,0x7e,0x79,0xbf,0xbc,
+0xdf,0x7f,0xf4,0xb7,0xf3,0x58,0xbf,0x5d,0xd9,0xfc,0x76,0x6d,0x32,0xff,0x67,0xaf,
+0x5e,0x7d,0xe4,0x7f,0xfd,0x02,0xe6,0x67,0x2c,0x5e,0xf8,0xfd,0x3b,0x5d,0x47,0x76,
+0xb6,0x93,0xf3,0x3f,0x0e,0xa2,0xd8,0xf9,0xd9,0xee,0xdd,0xe6,0xdf,0x51,0x51,0xe7,
+0x95,0xf8,0xb1,0x4f,0x41,0x5e,0x31,0xe8,0x97,0x53,0xa9,0xcc,0x7f,0x1f,0xa9,0x7a,
+0xb9,0x75,0x2e,0xc7,0xef,0xa3,0x1d,0x3b,0x73,0xde,0x51,0x16,0x36,0xaf,0x27,0x73,
+0xde,0x4f,0x9e,0x6e,0x5e,0x4a,0xee,0xcc,0x76,0x4e,0xfd,0xbd,0xdb,0x43,0xe9,0x32,
+0x65,0x4f,0x76,0xd7,0x52,0xe6,0x1d,0x65,0xd9,0x72,0xe5,0x4d,0x92,0x77,0x2a,0x17,
+0xd9,0xfe,0x40,0xd1,0x7f,0x66,0xab,0x76,0x2d,0xd9,0x39,0xea,0x1c,0x2b,0x35,0xc7,
+0xf8,0x9d,0x73,0x9c,0x98,0xdd,0x33,0x61,0xce,0x88,0xf9,0x97,0x13,0xbd,0x6b,0x76,
+0xfe,0x43,0xba,0xba,0xec,0x23,0x09,0xcd,0xfe,0x5f,0x41,0x8f,0x74,0x8d,0xce,0x2f,
+0xae,0x93,0xa9,0xc7,0xd9,0xd9,0xbf,0x29,0xad,0xea,0x5e,0x4f,0x32,0x7b,0xd9,0x76,
+0xb7,0xac,0xd4,0xeb,0x8c,0xb9,0x5b,0xa9,0xa4,0xaa,0x99,0xd9,0xbf,0xb9,0xdf,0x89,
+0xf4,0x7b,0x44,0xa9,0x82,0xfc,0x49,0x27,0xf4,0x98,0xc7,0x3f,0xb9,0x62,0xfe,0x8b,
+0x8f,0xef,0xe4,0x1d,0xff,0xf7,0xfc,0xfd,0x5d,0xf2,0x7f,0x61,0xc7,0xff,0x42,0xf9,
+0x47,0x45,0xfd,0xad,0xce,0xff,0x9f,0x7b,0xf0,0x1e,0x3d,0x8e,0x3e,0x5e,0x2f,0x7e,
+0x7f,0xe6,0xf1,0x87,0x0c,0x39,0xfa,0xf8,0xd7,0x5c,0x63,0x66,0xc0,0xfd,0x8e,0xb7,
+0x61,0xff,0xeb,0xea,0x95,0x8d,0xd9,0xf4,0x2b,0x23,0x1e,0x39,0xca,0xb9,0x31,0xc7,
+0x32,0x8a,0x1f,0xff,0x73,0xdd,0x8a,0x72,0x7e,0xeb,0x25,0x23,0xfb,0xcf,0xae,0x6c,
+0x91,0xc7,0xa8,0xfd,0xbf,0x43,0xa1,0xff,0xfb,0x9e,0x6c,0xfe,0x89,0xc9,0x3e,0xde,
+0xa9,0x8d,0xfa,0x7b,0xa7,0xfe,0xf7,0xba,0xbd,0xf9,0x7b,0xfd,0x76,0xfc,0xcd,0xd2,
+0xf3,0xd1,0xce,0x7f,0x5b,0x6b,0x3d,0xfa,0x31,0xef,0x8f,0xbc,0x2a,0x1f,0x79,0x19,
+0x74,0xd2,0x87,0x39,0xfa,0x95,0x80,0x93,0x9d,0x6d,0x3f,0x6d,0xfb,0x7f,0xd9,0xde,
+0xa1,0x72,0xb6,0xed,0xfe,0xa3,0xee,0xbb,0xa2,0x4e,0xb4,0x4c,0x7f,0xd3,0x3b,0xb0,
+0xdf,0x72,0xc1,0x89,0xfc,0x9d,0xe2,0xc9,0xfd,0xd6,0xf3,0xef,0x74,0xc9,0x09,0x78,
+0xd5,0xc3,0xfc,0xef,0x04,0xdc,0x9f,0x75,0x7d,0xdd,0x99,0x13,0xee,0xdf,0x72,0x89,
+0xcd,0xfe,0xe5,0xbd,0xc6,0xce,0xdd,0xef,0x65,0xaf,0xde,0x79,0x22,0xbf,0x5d,0x3b,
+0x76,0x64,0x7f,0xb0,0xf3,0xb3,0xec,0x7f,0x5f,0x1f,0xb6,0x73,0x67,0x20,0x60,0x72,
+0x18,0x30,0xe2,0x9d,0x6c,0xec,0xd9,0x3b,0xf5,0xca,0xda,0xf9,0x4f,0xff,0xfe,0x6e,
+0x77,0x64,0x51,0x7f,0x42,0x86,0xff,0xe7,0xef,0xc4,0x63,0xfa,0x60,0xc7,0xae,0x8f,
+0xb6,0x6e,0xfd,0xd3,0x4a,0x26,0x5f,0xbe,0x7f,0x65,0xfd,0x3b,0xfa,0x9c,0x1c,0xff,
+0xec,0xfd,0xfe,0xf5,0xe1,0xd7,0x57,0xc3,0xbf,0xeb,0x7d,0x7f,0xd4,0x49,0xd5,0xff,
+0xdf,0xf0,0x4a,0x20,0xfb,0x6f,0x51,0x4c,0x91,0xff,0x9c,0x67,0xb1,0x3f,0xa2,0x01,
+0xe9,0xb6,0xd6,0xab,0xcd,0x3b,0x7f,0xef,0x1a,0xf3,0x2f,0xfe,0x9d,0x74,0xb6,0xcf,
+0x74,0xfe,0xeb,0xbf,0x9d,0xf6,0x20,0x6c,0x76,0xde,0x38,0xf5,0xbf,0xea,0x97,0x9d,
+0x97,0xc5,0xbf,0xb0,0x55,0xfd,0x1d,0x0b,0xeb,0x84,0x13,0xb5,0x33,0x90,0xfd,0xcf,
+0xb9,0x90,0xfc,0xc6,0xc7,0xdc,0xdf,0xe5,0x64,0xe5,0xcd,0xf2,0xf9,0x63,0x6e,0xdd,
+0x7f,0xc3,0xed,0xec,0x6f,0x9c,0xa3,0x71,0x54,0x5c,0xee,0x44,0x98,0x5f,0x13,0xe1,
+0xce,0x7f,0xc1,0x5b,0x98,0xa8,0x5f,0x1b,0xf2,0xd7,0xf7,0x1f,0x51,0x91,0xbf,0x53,
+0xa5,0x3a,0xe9,0x5a,0xf5,0x5b,0x5f,0xa0,0x46,0xfe,0x31,0x25,0xff,0x27,0xbe,0x92,
+0x8d,0x8a,0xfc,0xe7,0x55,0xd1,0xc8,0xdf,0xfd,0x52,0x15,0x79,0xe2,0xf3,0x2f,0x8e,
+0x3c,0x7a,0xff,0xb1,0x97,0x81,0xa8,0xa8,0xa8,0xbf,0xa4,0xed,0x47,0xe6,0xfa,0xb4,
+0x9a,0x57,0x19,0xff,0xd5,0x99,0x8f,0xfa,0x0f,0x65,0x3b,0xca,0xc9,0xfb,0xe5,0x35,
+0xbb,0xff,0x7f,0x27,0xf0,0xb7,0x2e,0x88,0xa8,0x3f,0x27,0xce,0xa8,0xff,0x68,0x6b,
+0xcb,0xeb,0x13,0xfe,0x98,0xa9,0x70,0x51,0xff,0xb0,0x3e,0xe0,0x3f,0xd3,0xe3,0xe5,
+0xd5,0xf7,0x7f,0xf6,0xef,0x97,0xb9,0x30,0xbf,0xfe,0x79,0x39,0xef,0x45,0xd6,0x3f,
+0xf8,0x17,0x11,0xf1,0x8f,0xaa,0xad,0xff,0x8e,0x42,0xdf,0xb4,0xc9,0x6d,0x74,0xdb,
+0x36,0x99,0x9f,0xe7,0xeb,0x7d,0x4e,0xfb,0xcb,0xa4,0xc6,0xe3,0xb7,0xbc,0xbf,0x63,
+0xe6,0xfe,0xd9,0xbd,0x81,0xf5,0x89,0x9f,0x7f,0x9a,0xc4,0x91,0x4d,0x7f,0xde,0xcb,
+0xfb,0xbc,0x8e,0xf5,0x0f,0x2c,0x9e,0xff,0xfa,0x85,0x6b,0xd7,0xae,0xff,0xfc,0xf4,
+0xc7,0xec,0xff,0x66,0xa3,0xd9,0xf9,0x4b,0x0b,0xf8,0xb7,0xf7,0x32,0xbf,0x5c,0x53,
+0xff,0xf4,0x6b,0xc8,0x3f,0xf4,0x7d,0x98,0xbb,0xfa,0x6b,0x28,0x14,0x19,0xca,0x17,
+0x95,0x3f,0x14,0x2a,0x10,0xfa,0xe5,0x57,0x30,0x14,0x2a,0x74,0x4a,0xa8,0x70,0x91,
+0x90,0xfd,0x2b,0x1a,0xfa,0x17,0xfe,0x4e,0x3d,0x62,0x2d,0x56,0x3c,0x54,0xe2,0xb4,
+0xd3,0xb1,0x9c,0xf1,0x3b,0xc5,0x5d,0xd2,0xb2,0x9f,0x19,0xca,0xfb,0xe5,0xfd,0xf2,
+0x7e,0x79,0xbf,0xbc,0x5f,0xde,0x2f,0xef,0x97,0xf7,0xcb,0xfb,0xe5,0xfd,0xf2,0x7e,
+0x79,0xbf,0xbc,0x5f,0xde,0x2f,0xef,0xf7,0x17,0xfc,0x02,0xce,0x5f,0x65,0xc2,0x9c,
+0x90,0x13,0x99,0x63,0x2a,0x39,0x31,0x4e,0x0d,0xa7,0xa1,0xd3,0xcd,0xe9,0xe1,0x5c,
+0xe5,0x8c,0x76,0xa6,0x38,0x8f,0x3b,0xcf,0x39,0x0b,0x9c,0x25,0xce,0xdb,0xce,0x01,
+0xe7,0x6b,0x4c,0x28,0x50,0x2c,0x50,0x2e,0x90,0x19,0x68,0x1e,0x68,0x1f,0xe8,0x18,
+0xe8,0x13,0xb8,0xfa,0x28,0x33,0x29,0xf0,0x68,0x60,0x5a,0x60,0x6e,0x60,0x63,0xe0,
+0xfd,0xc0,0xa7,0x81,0x6f,0x03,0xc5,0x82,0xa7,0x07,0xcb,0x05,0x63,0x82,0x89,0xc1,
+0x8c,0x60,0xb7,0x60,0x4f,0xcc,0xd5,0xc1,0x9b,0x83,0xf7,0x05,0x17,0x05,0x97,0x05,
+0xdf,0x0a,0x6e,0x08,0x7e,0x1a,0x3c,0xf8,0x07,0x9a,0x43,0xbf,0xc2,0x04,0xc2,0x02,
+0x61,0x61,0x61,0xa1,0xb0,0xa8,0xb0,0x02,0x39,0xa6,0xd8,0x2f,0xa6,0xc4,0x2f,0xe6,
+0xec,0xb0,0xe8,0xb0,0x0a,0x98,0x4a,0x32,0xd5,0x2d,0x53,0x03,0x93,0x1a,0x56,0x3b,
+0xac,0x7e,0x58,0x83,0x1c,0xd3,0xf4,0x17,0xd3,0xfc,0x17,0xd3,0x26,0xac,0x43,0x58,
+0x47,0xcc,0xa5,0x32,0xdd,0x8e,0x32,0x7d,0xc2,0xae,0xfa,0x9f,0xe6,0xea,0xb0,0xeb,
+0xfe,0x74,0x33,0x32,0x6c,0x4c,0xae,0xe6,0xe6,0xb0,0x5b,0x7e,0x31,0xb7,0x85,0xdd,
+0x71,0x94,0x19,0x17,0x36,0x21,0xec,0xee,0xb0,0x89,0x27,0x68,0xee,0xfb,0xcd,0x66,
+0x4a,0xd8,0xf4,0xff,0x61,0xe6,0x86,0x2d,0x39,0xca,0x2c,0xfb,0x53,0xcc,0x2b,0x61,
+0xaf,0xfd,0x45,0x66,0x65,0xd8,0xeb,0x61,0x6b,0xc2,0xd6,0xfe,0x62,0xde,0x0a,0x7b,
+0xfb,0x5f,0x61,0x36,0xe4,0x99,0xff,0xb4,0xf9,0x58,0xe6,0x33,0xcc,0x41,0x4c,0x20,
+0xfc,0x88,0x89,0xc2,0x14,0x90,0x39,0x5d,0xa6,0x5c,0x8e,0x89,0xc6,0x54,0xc8,0x31,
+0xc9,0x32,0x75,0x31,0x4d,0x31,0x1d,0x2c,0x93,0x85,0xe9,0x26,0x73,0x95,0xcc,0xc8,
+0xf0,0x9b,0xc3,0xef,0xc8,0x31,0xe3,0x64,0xee,0xfe,0xd3,0xcc,0xc4,0x63,0x98,0x49,
+0x39,0xe6,0x41,0xcc,0x94,0xf0,0x27,0xc3,0x9f,0x0e,0x9f,0x81,0x99,0x25,0x33,0xe7,
+0x17,0xb3,0x50,0x66,0x91,0xcc,0x12,0xcc,0xb2,0x1c,0xf3,0x5a,0x8e,0x59,0x89,0x59,
+0x1b,0xfe,0x76,0xf8,0x86,0xf0,0xcd,0x98,0x0f,0x65,0xb6,0xfc,0x62,0x3e,0x95,0xf9,
+0x4c,0x66,0x0f,0x66,0xef,0xff,0x33,0xfb,0x7e,0x83,0x39,0x10,0x7e,0xf0,0x5f,0x61,
+0xbe,0x0e,0xff,0xf6,0x7f,0x9a,0x43,0xe1,0xdf,0x9f,0x94,0xf9,0xeb,0xee,0x04,0xf3,
+0xcc,0xdf,0xc3,0x7c,0x1f,0xfe,0xfb,0x9a,0x40,0xe8,0xb7,0x1a,0x6e,0x89,0xff,0x63,
+0xcf,0x63,0x91,0xc7,0x35,0x51,0x39,0xa6,0xc0,0x3f,0xc4,0x14,0xf2,0x99,0xc2,0x39,
+0xa6,0x68,0x9e,0x39,0x21,0x53,0xe2,0x3f,0x6f,0x4a,0xfd,0x2d,0xcd,0xd9,0x7f,0x92,
+0x29,0x17,0x8a,0xfe,0x8f,0x9b,0x0a,0xff,0x39,0x53,0xe9,0x28,0x13,0x23,0x53,0xfd,
+0x3f,0x6b,0x12,0x43,0xc9,0x79,0xe6,0xb8,0xa6,0x76,0x8e,0xa9,0xfb,0x37,0x34,0xf5,
+0xf3,0xcc,0x3f,0xdc,0x34,0xc0,0x34,0xc4,0x64,0x60,0x32,0x31,0x4d,0x65,0x9a,0xff,
+0xee,0xa6,0x05,0xa6,0x25,0xa6,0x75,0xa8,0x4d,0x8e,0x69,0x9b,0x67,0xfe,0x23,0xa6,
+0x7d,0xa8,0xc3,0xef,0x62,0x3a,0x86,0x2e,0x3d,0xca,0x74,0x0a,0x65,0xfd,0x65,0xa6,
+0x5b,0xa8,0xe7,0x49,0x99,0x5e,0xa1,0x3e,0x27,0x64,0xfa,0x85,0x06,0xfc,0x49,0xe6,
+0xea,0xd0,0xc8,0xd0,0xe8,0xd0,0x98,0xd0,0xcd,0xa1,0x5b,0x42,0xb7,0x85,0xee,0x08,
+0x4d,0x0c,0x3d,0x1c,0x7a,0x34,0x34,0x25,0xf4,0x78,0xe8,0xc9,0xd0,0xd3,0xa1,0x69,
+0xa1,0xe7,0x42,0xb3,0x8e,0x32,0x73,0x43,0x0b,0x8e,0x32,0xcb,0x42,0xaf,0x87,0xd6,
+0x84,0xd6,0x86,0xde,0x0a,0xbd,0x1d,0xda,0x10,0x7a,0x37,0xf4,0x61,0xe8,0x93,0xd0,
+0xa7,0xa1,0xcf,0x42,0x7b,0x42,0x7b,0x43,0xfb,0x42,0x07,0x42,0xdf,0x86,0x7e,0x3c,
+0xca,0x84,0x45,0x44,0x1d,0x65,0x0a,0x45,0x14,0x3d,0xca,0x94,0x88,0x28,0x79,0x94,
+0x29,0x13,0x51,0xc1,0x67,0xaa,0x1e,0x65,0x12,0x23,0x6a,0x47,0xd4,0x8d,0xa8,0x1f,
+0xd1,0x20,0xa2,0x61,0x44,0x46,0x44,0x66,0x44,0xcb,0x88,0xf6,0x11,0x1d,0x22,0x3a,
+0x46,0x5c,0x1a,0xd1,0x29,0x22,0x2b,0xa2,0x6b,0x44,0x37,0x99,0x1e,0x3e,0xd3,0xf3,
+0x2f,0x30,0xbd,0xfe,0x9f,0x19,0x70,0x94,0x19,0xf4,0x07,0x9b,0xab,0x7c,0xe6,0xda,
+0x3c,0x73,0x02,0xe6,0x3a,0xcc,0x0d,0x98,0x91,0x7f,0x91,0x19,0x8d,0x19,0x83,0xb9,
+0xf9,0x0f,0x36,0xb7,0xfc,0x62,0x6e,0xcb,0x31,0x77,0x9c,0xa4,0x19,0x87,0x99,0x70,
+0x52,0xe6,0xee,0xa3,0xcc,0x44,0xcc,0x7d,0x39,0x66,0xd2,0x2f,0xe6,0xc1,0x13,0x34,
+0x0f,0xe7,0x98,0x47,0x23,0xa6,0xe4,0x6a,0x1e,0x8f,0x78,0x32,0xc7,0x3c,0x1d,0x31,
+0x2d,0xc7,0x4c,0x8f,0x78,0x2e,0x62,0x46,0xc4,0xac,0x5f,0xcc,0x9c,0x88,0xb9,0x39,
+0x66,0x5e,0xc4,0x82,0x63,0x98,0x85,0x11,0x8b,0x8e,0x63,0x96,0x58,0x66,0x59,0xc4,
+0x2b,0x98,0xd7,0x8e,0x32,0x2b,0x23,0x5e,0x8f,0x58,0x13,0xb1,0x36,0xcf,0x1c,0xd7,
+0xbc,0xf5,0x8b,0x79,0x1b,0xb3,0x01,0xf3,0x2e,0x66,0x23,0xe6,0x7d,0xcc,0x66,0xcc,
+0x87,0x98,0x2d,0x98,0x8f,0x31,0xdb,0x31,0x9f,0x60,0x3e,0xcd,0x31,0x9f,0x61,0xf6,
+0x60,0xf6,0x1e,0x65,0x0e,0xe4,0x98,0xaf,0x73,0xcc,0xa1,0x1c,0xf3,0x63,0x8e,0x09,
+0x44,0xfe,0x76,0x13,0xf6,0xff,0xcc,0x91,0x17,0xb9,0xe6,0x17,0x85,0x29,0x80,0x29,
+0x84,0x29,0x8c,0x29,0x8a,0x29,0x86,0x29,0x81,0x39,0x1d,0x53,0x12,0x53,0x0a,0x73,
+0x76,0x8e,0x29,0x83,0x29,0x87,0x89,0x3e,0xca,0x54,0xca,0x31,0x55,0x73,0x4c,0xf5,
+0x1c,0x93,0x98,0x63,0x6a,0x9c,0xa0,0x49,0x8d,0xac,0x1d,0x59,0x37,0xb2,0xfe,0x31,
+0x4d,0x83,0x3c,0xf3,0x8f,0x31,0x0d,0x7d,0x26,0x23,0xcf,0xfc,0xa5,0x26,0x13,0xd3,
+0xf4,0x18,0xa6,0x79,0x9e,0xc9,0xc5,0xb4,0x88,0x6c,0x99,0x67,0xf2,0xcc,0x09,0x9a,
+0x36,0x7f,0x89,0x69,0x8b,0x69,0x7f,0x94,0xe9,0xf0,0x8b,0xe9,0xf8,0x27,0x98,0xac,
+0x3c,0xf3,0x9f,0x32,0x3d,0xf2,0xcc,0x7f,0xda,0xf4,0x8c,0xec,0xf5,0x9f,0x35,0x7d,
+0xf2,0xcc,0xbf,0xce,0x5c,0x95,0x63,0xae,0x8e,0xbc,0xf6,0x28,0x73,0x5d,0x9e,0xc9,
+0x33,0x7f,0xba,0xb9,0x41,0x66,0x24,0x66,0x74,0x9e,0x39,0x09,0xe3,0x2e,0x9d,0x53,
+0x33,0xcc,0x71,0xfa,0x96,0x77,0xb5,0xb3,0xb4,0x1f,0xea,0xa0,0x4b,0xcd,0xd2,0x3a,
+0xe8,0x32,0x34,0x88,0x2e,0x37,0xde,0xe8,0x2b,0x68,0x78,0x98,0xbb,0xb4,0x61,0x04,
+0x1a,0x44,0x23,0xd1,0x8a,0x41,0xc7,0xc9,0x87,0xbe,0x6a,0x16,0x59,0x45,0x1f,0x2b,
+0xed,0x38,0xf9,0xd1,0xd7,0x70,0x17,0x44,0xd7,0x12,0xae,0xb0,0xd9,0x8f,0x70,0x45,
+0xcd,0x7e,0x68,0x34,0x3a,0x99,0x70,0x15,0x8c,0x3f,0x5a,0x19,0x0d,0x57,0x7c,0xc1,
+0xd2,0xee,0xf6,0x70,0x34,0x1e,0x8d,0x28,0xed,0xa6,0x27,0x22,0xe0,0xa6,0x27,0x9f,
+0xc2,0xe5,0x0f,0xb8,0xf1,0x17,0x44,0x2b,0xa1,0x2b,0x1d,0xf9,0x97,0x76,0xfd,0x4f,
+0x09,0xb8,0xf1,0x14,0x2c,0xed,0x6e,0x2f,0x82,0xc6,0xa0,0xa7,0x2a,0xde,0x53,0x4a,
+0xbb,0xf9,0x5d,0xa5,0xfc,0xbe,0xae,0xfc,0xae,0x56,0x7e,0x5f,0x2e,0xed,0xe6,0xf7,
+0x54,0xe5,0xb7,0xb8,0x8e,0x7b,0x5a,0xc0,0xcd,0xef,0x1a,0xe5,0xf7,0x25,0x1d,0xef,
+0x4c,0xe5,0x33,0x5c,0xf9,0x8c,0x50,0x3e,0xe7,0xeb,0xf8,0x95,0x83,0x6e,0x3e,0xcf,
+0x08,0xb8,0xe9,0x38,0x03,0xff,0x38,0xb3,0x5f,0x69,0x37,0xde,0xd2,0xca,0xe7,0x57,
+0xca,0xe7,0x59,0x01,0xf7,0xf8,0x65,0x4b,0xbb,0xc7,0x2f,0xad,0xe3,0x97,0x55,0xbe,
+0x77,0x2a,0xdf,0xe5,0x15,0xfe,0x1c,0x6d,0x2f,0x5f,0xda,0x4d,0x5f,0x45,0xa5,0xab,
+0xb4,0xd2,0x71,0x8e,0x97,0x0e,0x34,0x16,0xad,0xa2,0xfc,0xbf,0xa1,0xfc,0xaf,0x55,
+0xfe,0xdf,0x54,0xfe,0x2b,0xeb,0xf8,0x55,0x94,0xff,0x6a,0x8a,0x3f,0x4e,0xf9,0x7f,
+0x4b,0xf9,0x5f,0xa5,0xe3,0xbc,0xa5,0xfc,0xe7,0x53,0xfe,0xf3,0xeb,0xb8,0xab,0x75,
+0x7e,0x63,0x03,0x6e,0x7e,0xab,0x95,0x76,0x8f,0x93,0x14,0x70,0x8f,0x1b,0xa7,0xfd,
+0x77,0xe9,0x7c,0x25,0x28,0x9d,0x29,0x01,0xf7,0x3c,0x25,0xa9,0x5c,0x52,0x95,0xef,
+0xba,0x0a,0x97,0xa2,0x70,0xb5,0x55,0x9e,0x75,0x74,0x5e,0x6b,0x29,0x7c,0x3d,0x95,
+0x6b,0x9a,0xea,0x53,0xba,0xf2,0xfb,0x9d,0x8e,0xdb,0x30,0xe0,0xe6,0xf3,0x6d,0xd5,
+0x9b,0x46,0x4a,0x47,0xa6,0xe2,0x6f,0xac,0xf8,0x33,0x14,0x7f,0x33,0xc5,0xdf,0x44,
+0xf1,0xac,0x57,0xb9,0x6d,0x50,0xb9,0xbd,0xa3,0x72,0x7b,0x57,0xed,0xe4,0x3c,0x95,
+0xdb,0xf9,0x2a,0xb7,0x58,0xb5,0x93,0xf7,0x54,0x6e,0x6f,0x12,0x4f,0x01,0xb4,0x95,
+0xf2,0xf5,0xb6,0xca,0xaf,0xa0,0xca,0xef,0x14,0xb4,0x94,0x69,0x27,0x4a,0xcf,0x1b,
+0x2a,0xc7,0xdd,0x4a,0xff,0x85,0xca,0x5f,0x3b,0xe5,0xf7,0x42,0x1d,0xe7,0x22,0xe5,
+0xe3,0x22,0xc5,0x57,0x44,0xf1,0x9d,0xaa,0xf3,0x71,0xb1,0xf2,0xd5,0x4e,0xe5,0x7b,
+0x99,0xf6,0xbf,0x58,0xf5,0xe8,0x12,0xc5,0xd3,0x59,0xf1,0x74,0xd6,0xf1,0xbb,0xe0,
+0xae,0x68,0xea,0x6d,0xd0,0xdd,0xff,0x32,0x85,0xbb,0x52,0xe1,0x2e,0x57,0xb8,0xde,
+0x0a,0x77,0xa6,0xc2,0x75,0x51,0xf9,0xf5,0x57,0xf9,0xf5,0x55,0xf9,0xbd,0xaf,0xf2,
+0xfb,0x40,0xe5,0xb7,0x59,0xe5,0x77,0x85,0xea,0xdd,0x95,0x2a,0xbf,0xde,0xaa,0x6f,
+0xd9,0x2a,0xb7,0x9d,0xea,0x5f,0xfa,0x06,0xdc,0xf2,0xeb,0xaf,0xf2,0xdb,0xa0,0xfc,
+0x16,0x57,0x7e,0x4f,0x53,0xf9,0xcd,0x50,0xba,0x76,0xb0,0xdf,0x39,0xe8,0x40,0x95,
+0xe3,0x40,0xa5,0x6b,0x88,0xda,0xe1,0xe0,0xd2,0xee,0xf1,0x87,0xab,0xbe,0x5c,0xaf,
+0x74,0x8e,0x50,0xf9,0x8c,0x52,0xbd,0x1d,0xac,0x7c,0xdf,0xa4,0x76,0x76,0xa3,0xc2,
+0x8f,0xd5,0xf9,0xb8,0x55,0xfe,0xb7,0x6b,0xff,0x2f,0xb5,0xff,0x87,0xca,0xe7,0x10,
+0xd5,0xbb,0xef,0xd4,0xbf,0x24,0x04,0xdd,0xfd,0xee,0xd4,0x7e,0xc3,0x02,0x6e,0x3e,
+0xbf,0x51,0xbc,0x5f,0x69,0xff,0xab,0x75,0x7e,0xc6,0xeb,0x38,0xd7,0x2a,0xdf,0xd7,
+0x29,0x7f,0x77,0xa9,0x7c,0xef,0xd1,0x71,0xb7,0xaa,0x7c,0x3f,0xd6,0x71,0xb7,0xa9,
+0x7c,0xb7,0xab,0x7e,0x06,0x54,0xbe,0x61,0xca,0x4f,0x25,0xd5,0xcf,0x1d,0x2a,0xe7,
+0xc7,0x55,0xce,0x9f,0xa8,0x1f,0x7f,0x53,0xe5,0x1b,0x50,0xf9,0x86,0xa9,0x3e,0x4d,
+0x51,0x3f,0x1e,0x50,0xb9,0x86,0x14,0x5f,0x98,0xd2,0x1f,0x52,0xba,0x22,0x95,0x8f,
+0x48,0xe5,0x23,0x4a,0xe1,0x0a,0x28,0x1f,0x85,0xd4,0x9f,0x7d,0xaa,0xf6,0x58,0x40,
+0xf5,0xaa,0xb0,0xf2,0x57,0x48,0xf5,0xb6,0xa8,0xfa,0xf1,0x62,0x8a,0xb7,0xb0,0xf2,
+0xbb,0x4b,0xf9,0xfd,0x4c,0xf9,0xdd,0xad,0xfc,0x2e,0x52,0x39,0x17,0x53,0x7e,0x4b,
+0xe8,0xb8,0xa7,0xab,0x5e,0xed,0x51,0x7e,0x17,0xea,0x78,0xa5,0x94,0xcf,0x90,0xf2,
+0x19,0xa9,0x7c,0x2e,0xd0,0xf1,0xcf,0x55,0x3f,0x5e,0x52,0xf5,0xa7,0xa4,0xea,0x4f,
+0x29,0x9d,0x97,0x32,0xca,0xe7,0xd7,0xca,0xe7,0xd9,0xaa,0xcf,0xe5,0xd4,0x8f,0x97,
+0xd1,0xf1,0xcb,0x29,0xdf,0x9f,0x2a,0xdf,0xd1,0x0a,0x5f,0x41,0xdb,0xa3,0x55,0x1f,
+0x2a,0x29,0x5d,0x65,0x94,0x8e,0x0a,0x5e,0x3a,0xd4,0x8f,0x57,0x55,0x39,0xdc,0xab,
+0x72,0xf8,0x5c,0xe5,0xb0,0x57,0xe5,0xf0,0x85,0xca,0xe1,0x5c,0xa5,0xa3,0xaa,0xca,
+0x21,0x46,0xf9,0xdf,0xa7,0xfc,0xbf,0xae,0xe3,0xac,0x53,0xfe,0xa3,0x94,0xff,0x02,
+0x3a,0xee,0x1a,0x9d,0xdf,0xea,0xea,0xc7,0x63,0xd4,0x1e,0x92,0x95,0x8f,0xfd,0xea,
+0x97,0xe2,0x15,0xcf,0x67,0x3a,0x6f,0x89,0x4a,0x6f,0x0d,0xf5,0x37,0xc9,0x2a,0x9f,
+0x5a,0xda,0xaf,0x9e,0xc2,0xd5,0x50,0xb8,0x3a,0x2a,0xd7,0xba,0xca,0x57,0x6d,0x85,
+0xaf,0xaf,0xf2,0x6d,0xa0,0x7a,0xd5,0x50,0xf9,0x3d,0xa4,0xe3,0x36,0x52,0xbb,0x3a,
+0xa0,0xfa,0x93,0xa1,0x74,0x34,0x51,0xfc,0x99,0x8a,0xbf,0xb1,0xe2,0x6f,0xae,0xf8,
+0x9b,0x7a,0xed,0x54,0xe5,0x76,0x50,0xe5,0xf6,0x95,0xca,0xed,0x6b,0xb5,0x97,0x16,
+0x2a,0xb7,0x96,0x3a,0x3f,0xd5,0xd5,0x5e,0xbe,0x51,0xf9,0xbd,0xa5,0xfe,0xbc,0xb5,
+0xf2,0xb5,0x5e,0xe5,0x58,0x48,0xe5,0x58,0x58,0xfd,0xd1,0x14,0xa5,0x67,0xad,0xca,
+0x73,0x8f,0xd2,0xdf,0x56,0xf9,0x6b,0xaf,0xfc,0xb6,0xd5,0x71,0x3a,0x28,0x1f,0x1d,
+0x14,0x5f,0x51,0xc5,0x57,0x4c,0xe7,0xa5,0xa3,0xf2,0xd5,0x5e,0xe5,0xdb,0x49,0xfb,
+0x77,0x54,0x7d,0xba,0x54,0xf1,0x64,0x29,0x9e,0x2c,0x1d,0xbf,0xab,0xfa,0xe9,0x92,
+0xea,0xa7,0x3b,0x29,0x5c,0x2f,0xd5,0xbb,0xfb,0x14,0xbe,0x9b,0xc2,0xf7,0x51,0xf8,
+0x52,0x0a,0xdf,0x55,0xe5,0x38,0x40,0xe5,0xd8,0xcf,0x3b,0x1f,0x2a,0xc7,0xc3,0x2a,
+0xc7,0xef,0x55,0x8e,0x3d,0x55,0xff,0x7a,0xa9,0x1c,0xfb,0xa8,0xfe,0xfd,0xa0,0xf2,
+0xfb,0x54,0xfd,0x4d,0x3f,0xf5,0xeb,0x03,0x54,0x8e,0xef,0x28,0xdf,0x25,0x94,0xef,
+0xd3,0x55,0x8e,0x33,0x95,0xae,0x4f,0xd4,0xaf,0x0f,0x52,0x79,0x0e,0x52,0xba,0x86,
+0xaa,0x5d,0x5e,0xa5,0x7e,0xfd,0x3a,0xd5,0x9b,0x1b,0x94,0xce,0x91,0x2a,0xa7,0xd1,
+0xaa,0xc7,0x57,0x29,0xff,0x37,0x2b,0xff,0x63,0x94,0x9e,0xfb,0xb5,0xdf,0x2d,0x3a,
+0x3f,0xb7,0x69,0xfb,0x1d,0x8a,0xe7,0xa0,0xe2,0xf9,0x51,0xf9,0x1d,0xaa,0x7a,0x78,
+0x48,0xfd,0x4e,0xa2,0xfa,0xf7,0x71,0xda,0xef,0x67,0xe5,0xf7,0x5b,0xc5,0x3f,0x49,
+0xf1,0x7f,0xad,0x78,0xae,0xd1,0x79,0x9b,0xa0,0xe3,0x0d,0x57,0x39,0x5c,0xaf,0xfc,
+0xde,0xad,0xf2,0x9e,0xa8,0xe3,0xef,0x2d,0xe3,0xee,0x37,0xc6,0xdc,0xe3,0x98,0xfb,
+0xf6,0x32,0xae,0xff,0x53,0x8a,0xef,0x09,0xe5,0xff,0x99,0xd2,0xee,0x71,0xa7,0x2a,
+0x5d,0x1f,0xa9,0xde,0x1d,0x96,0xfe,0xa0,0xf3,0xb3,0x4d,0xee,0x7c,0x8a,0x7f,0xa9,
+0xe2,0x59,0xac,0x78,0x5e,0x55,0x3c,0xcb,0xe5,0x1f,0xeb,0xdd,0x0f,0xc9,0xbd,0x4e,
+0xe1,0xde,0x53,0xb8,0x77,0xe4,0x7f,0x9e,0x8e,0x5b,0x4d,0xed,0xe6,0x7c,0xb9,0xab,
+0x04,0xdd,0xed,0x3f,0x05,0xdc,0x78,0x36,0xeb,0xf8,0x1b,0x95,0x9e,0x77,0x95,0xff,
+0xf7,0xb5,0xfd,0x69,0xc5,0xf7,0xa4,0x8e,0x33,0x5d,0xc7,0x99,0xa6,0xf8,0xb6,0x68,
+0xff,0xef,0xa5,0x3f,0x2a,0x9e,0xed,0x72,0x47,0x29,0xbd,0xcb,0x14,0xcf,0x12,0xc5,
+0xf3,0x9a,0xe2,0x79,0x45,0xfe,0xd5,0x15,0x6e,0x83,0xdc,0x6f,0x2b,0xdc,0x46,0x85,
+0x7b,0x57,0xfe,0x2d,0x74,0xdc,0x18,0xe5,0xab,0xa5,0xdc,0x55,0x95,0xaf,0x9f,0x95,
+0xee,0x6c,0x1d,0x7f,0x93,0xd2,0xf3,0x9e,0xf2,0xf5,0x81,0xb6,0xcf,0x54,0x7c,0xcf,
+0xeb,0x38,0x2f,0xe8,0x38,0xb3,0x95,0x8e,0x59,0xda,0x3e,0x43,0xdb,0xe7,0x6a,0xfb,
+0x1c,0x6d,0x2f,0xae,0xed,0xa7,0xc9,0x5d,0x42,0xee,0xd3,0xe5,0x6e,0x25,0xf7,0x05,
+0x72,0xb7,0x96,0xbb,0x8d,0xea,0xd9,0xe5,0xd2,0x6e,0xd2,0xee,0xd2,0x1e,0x0a,0x37,
+0xcc,0xbb,0x0f,0x51,0x3d,0xbe,0x46,0x7a,0xad,0xc2,0x3d,0xa8,0x78,0xb3,0x15,0xee,
+0x03,0xa5,0x73,0xab,0xd2,0xf9,0x91,0xea,0xf9,0x36,0x85,0xfb,0x50,0xe1,0x36,0x2b,
+0xdc,0xc7,0x0a,0xb7,0x45,0xe1,0xb6,0x2b,0xdc,0x6e,0x85,0xdb,0xa5,0x70,0x5f,0x28,
+0xdc,0xe7,0x0a,0xb7,0x5f,0xe1,0xf6,0x28,0xdc,0x67,0x0a,0xb7,0x4f,0xe1,0xf6,0x2a,
+0xdc,0x01,0xf5,0x67,0x5f,0xa8,0xfc,0x3f,0x97,0xee,0x95,0x6e,0x95,0x7e,0xac,0xfe,
+0xe9,0x2c,0x5d,0xaf,0xcf,0xd6,0xf9,0x8c,0x0b,0xba,0x1a,0x1f,0x74,0xe3,0xd9,0xa7,
+0xf3,0xf6,0x92,0xda,0xdf,0x4d,0x61,0xee,0xf6,0x05,0x65,0xdc,0xfd,0xe6,0xa3,0xc5,
+0x4c,0x3b,0x42,0x8b,0x9b,0x7a,0x87,0x66,0x98,0xe7,0x4a,0xb5,0xcf,0x55,0xda,0x6f,
+0x6c,0x98,0x1b,0xee,0x0c,0x85,0x2b,0xa9,0xed,0xab,0xb5,0xfd,0x16,0x6d,0xaf,0xac,
+0xed,0xe7,0x2a,0x9e,0x37,0x14,0xee,0x03,0x85,0xbb,0x55,0xc7,0x7f,0x5f,0xc7,0xdf,
+0x54,0xc6,0x3d,0x3f,0xcf,0x68,0xff,0x9a,0xda,0x3f,0x55,0xfb,0x7d,0xa7,0xfd,0x6e,
+0xd7,0xf6,0x26,0xda,0xde,0x54,0xfa,0xb9,0xc2,0xed,0x56,0xb8,0x3b,0x15,0xff,0x67,
+0x8a,0x7f,0x97,0xe2,0x9f,0x1e,0xe6,0x86,0xef,0xa0,0xf0,0x87,0x15,0x7e,0x9c,0xe2,
+0xbd,0x42,0xf1,0xf5,0x54,0xba,0x7f,0x90,0xbe,0x20,0x7d,0x55,0xfb,0xf5,0xd7,0x7e,
+0xcf,0xea,0x38,0xb3,0x74,0x9c,0x99,0x2a,0x47,0x47,0xf1,0x04,0xca,0xb8,0xfd,0xdc,
+0x8b,0xda,0x7f,0x8e,0xf6,0x1f,0xa8,0xfd,0x9f,0xd3,0x71,0x8b,0x28,0x7c,0x51,0x6d,
+0x1f,0xac,0xed,0xcf,0x6b,0x7b,0x59,0x6d,0x2f,0xa7,0xf8,0x56,0x28,0xbe,0x57,0x14,
+0x7e,0x88,0xc2,0xcf,0x50,0x7a,0xde,0x56,0x7a,0xd6,0x29,0xdf,0xab,0x15,0x4f,0x9c,
+0xe2,0x89,0x57,0x3c,0xef,0x69,0xff,0x61,0xda,0xff,0x0d,0x85,0x4b,0x53,0xb8,0x06,
+0xca,0xcf,0x0e,0xb9,0x3f,0x51,0xf8,0x6b,0x14,0x7e,0xad,0x8e,0xf7,0xb1,0x8e,0xb7,
+0x55,0xc7,0x5b,0xa3,0x78,0x5a,0x69,0xbf,0xd6,0x3a,0xde,0x4e,0xed,0x3f,0x5c,0xfb,
+0xbf,0xa9,0x70,0x9d,0x15,0x2e,0x4b,0xe1,0xbe,0x51,0xfe,0x0e,0x2a,0xfc,0x7a,0x85,
+0x1f,0xaf,0xeb,0xc6,0x46,0xf9,0x6f,0x93,0xff,0x4c,0xf9,0x7f,0xaa,0xfd,0xbe,0x92,
+0xff,0x86,0x30,0x37,0x3d,0xef,0x48,0x23,0xc3,0x55,0x2e,0xe1,0xae,0x7b,0x7d,0xb8,
+0x1b,0x2e,0x2c,0xdc,0x8d,0xcf,0xd1,0xf6,0xf7,0xb4,0x3d,0x20,0xf7,0x32,0xb9,0xb3,
+0xa5,0x1f,0x29,0x7c,0xa1,0x70,0x5d,0x87,0x14,0xae,0xa4,0xb6,0xef,0x50,0xbc,0x05,
+0xe5,0xde,0xa9,0x70,0x5f,0x28,0xdc,0x29,0xf2,0xdf,0x1f,0xee,0xde,0x3f,0x7c,0x29,
+0xf7,0x57,0xd2,0xef,0xa4,0x9f,0x2b,0xfc,0xdb,0x72,0x6f,0x50,0xbc,0x6d,0x74,0xfc,
+0x56,0xda,0xbe,0x51,0xdb,0x5b,0xcb,0xbd,0x5c,0xee,0x0f,0xa5,0x5b,0x14,0xfe,0x52,
+0xa5,0x63,0xbb,0xc2,0xa5,0x6a,0xfb,0x27,0x8a,0xf7,0x12,0xb9,0x3f,0x55,0xb8,0x7d,
+0x0a,0x77,0x99,0xfc,0x0f,0x28,0xbd,0x07,0xe5,0xfe,0x5a,0x7a,0x48,0xba,0x57,0xda,
+0x3e,0xdc,0xbd,0x0f,0x1a,0x22,0x1d,0x2a,0xff,0x0f,0xa4,0x9b,0xa5,0xbb,0xa5,0x7b,
+0xd0,0x36,0x11,0x8e,0x53,0x1e,0x2e,0x84,0x68,0x68,0x0b,0x15,0xe4,0x3e,0x47,0x5a,
+0x51,0xba,0x5c,0xba,0x41,0xba,0x14,0xea,0x44,0xd1,0xdf,0x44,0xb9,0x1a,0x2f,0x4d,
+0x82,0xc5,0xb0,0x06,0x36,0xc2,0x1b,0x50,0xaf,0x00,0xf7,0xd3,0xd0,0x0e,0x9a,0x40,
+0x7b,0x38,0x0f,0x36,0xc2,0x3d,0xb0,0x18,0x56,0xcb,0xfd,0x86,0xdc,0x6b,0x4c,0xf8,
+0x82,0x84,0x87,0x77,0x61,0x29,0x2c,0x87,0xd5,0x72,0xaf,0x84,0xf7,0x60,0x95,0xdc,
+0x6b,0xa0,0x5e,0x21,0xc7,0x69,0x06,0xed,0xe1,0xbc,0x42,0xae,0xbb,0x39,0xac,0x86,
+0x0f,0xe0,0x2d,0xc8,0x86,0x2d,0xf0,0x91,0xfc,0x3f,0x84,0xd8,0x22,0xe4,0x13,0x92,
+0x4b,0x51,0xf6,0xa5,0x5c,0xcd,0x27,0xcd,0x2f,0x2d,0x28,0x3d,0x45,0x7a,0xaa,0xb4,
+0xb6,0xb4,0xae,0x34,0x4d,0xda,0x40,0xda,0xb0,0x94,0x7b,0x5e,0x6b,0xea,0x3a,0x91,
+0x2a,0xbd,0x44,0x7a,0xa9,0xae,0x8f,0x57,0x48,0x7b,0xea,0x7e,0xf3,0x59,0x5d,0x5f,
+0x5e,0x94,0xfb,0x39,0xb9,0xe7,0xc9,0xbd,0x42,0xba,0x52,0xba,0x49,0xfa,0xbe,0xae,
+0x77,0x41,0xb5,0xc7,0x70,0xb5,0xef,0x08,0xb5,0xd3,0x11,0x6a,0xc7,0x61,0xda,0x1e,
+0xd2,0xf6,0x48,0x6d,0x1f,0x29,0x1d,0x25,0x1d,0x2d,0xbd,0x51,0x3a,0x46,0x7a,0x93,
+0xf4,0x66,0xc5,0x97,0x5f,0xf1,0x15,0x54,0x7c,0xa7,0x68,0xfb,0x58,0x6d,0x2f,0xa0,
+0xed,0x85,0xb4,0xbd,0xb0,0xb6,0xdf,0x22,0xbd,0x55,0x7a,0x9b,0xf4,0x76,0xe9,0x1d,
+0xd2,0x3b,0xa5,0xe3,0x14,0xdf,0xa9,0x8a,0xaf,0xb8,0xdc,0xc5,0xe4,0x2e,0x21,0xf7,
+0x99,0x72,0x9f,0x25,0x77,0x29,0xb9,0xcf,0x96,0xbb,0xbc,0xdc,0xe7,0x28,0x3d,0x15,
+0x15,0xff,0x78,0x6d,0x8f,0xd6,0xf6,0x0a,0xda,0x5e,0x49,0xdb,0x27,0x48,0xef,0x92,
+0xde,0x2d,0xbd,0x47,0x3a,0x51,0x7a,0xaf,0xf4,0x3e,0xc5,0x57,0x45,0xf1,0x55,0x53,
+0x7c,0xb1,0xda,0x7e,0xbf,0xb6,0x57,0xd5,0xf6,0x18,0x6d,0xaf,0xae,0xed,0x93,0xa4,
+0x0f,0x48,0x1f,0x94,0x3e,0x24,0x7d,0x58,0xfa,0x88,0xf4,0x51,0xc5,0x97,0xa0,0xf8,
+0x92,0x14,0x5f,0x8a,0xfc,0x13,0xe5,0x9f,0x2c,0xff,0x1a,0xf2,0xaf,0x25,0xff,0x3a,
+0xf2,0xaf,0x27,0xff,0xda,0xf2,0xaf,0x2b,0xff,0xfa,0xf2,0x4f,0x97,0x7f,0x23,0xb9,
+0x1b,0xca,0x9d,0x21,0x77,0x33,0xb9,0xcf,0x93,0xbb,0xb9,0xdc,0x2d,0xe4,0xbe,0x40,
+0xee,0x0b,0x15,0x6f,0x3b,0xf9,0xb7,0x91,0x7f,0x5b,0xf9,0xb7,0x97,0x7f,0x47,0xf9,
+0x5f,0x2a,0xff,0x4e,0xf2,0xef,0x22,0xff,0xcb,0xe5,0xdf,0x5d,0xe5,0x30,0x59,0xdb,
+0xbb,0x6a,0x7b,0x37,0x6d,0xef,0xa1,0xed,0x53,0xa4,0x8f,0x49,0x1f,0x97,0x3e,0x21,
+0x7d,0x52,0xfa,0x94,0xf4,0x69,0xc5,0x77,0xa5,0xe2,0xeb,0xad,0xf8,0xfa,0x6a,0xfb,
+0x54,0x6d,0xef,0xa5,0xed,0x7d,0xb4,0xbd,0x9f,0xb6,0x4f,0x93,0x3e,0x23,0x9d,0x2e,
+0x7d,0x56,0xfa,0x9c,0xf4,0x79,0xe9,0x0c,0xe9,0x6c,0xe9,0x72,0xe9,0x97,0xd2,0x79,
+0x3a,0xde,0x5a,0xef,0xba,0xae,0xe3,0xbd,0xa5,0xed,0x2b,0xa5,0xdf,0x2a,0xdc,0x87,
+0x0a,0xf7,0x91,0xc2,0x6d,0x29,0xe3,0x8e,0xeb,0x3c,0x50,0xce,0xd5,0x07,0xa5,0xcf,
+0x4b,0xd7,0x4a,0xdf,0x92,0xbe,0x29,0x0d,0xd7,0x78,0x50,0x94,0xb4,0xa0,0xf4,0x1c,
+0x69,0x45,0x69,0x03,0x69,0x23,0x69,0xa6,0xb4,0xa9,0xb4,0x8f,0xb4,0x8b,0xb4,0xbf,
+0x74,0x80,0x74,0xb0,0xf4,0x2a,0xe9,0x30,0xe9,0xd5,0xd2,0x11,0xd2,0x91,0xd2,0xad,
+0xd2,0x8f,0xa5,0x37,0x4a,0xc7,0x48,0xc7,0x4a,0x6f,0x91,0x6e,0x93,0x6e,0x97,0x3e,
+0x2b,0x7d,0x4e,0xfa,0xbc,0x74,0x86,0x74,0xb7,0x74,0x8f,0xf4,0x73,0xe9,0x5e,0x74,
+0x52,0x1c,0xed,0x3f,0xce,0xd5,0xf3,0xa4,0xe7,0x4b,0x5b,0x49,0x2f,0x90,0x5e,0x28,
+0x6d,0x27,0xbd,0x48,0x7a,0xb1,0xf4,0x12,0xe9,0x65,0xd2,0xce,0xd2,0x2e,0xd2,0x6e,
+0xd2,0x1e,0xd2,0x9e,0xd2,0xfe,0xf0,0x00,0x0c,0x90,0x7b,0x90,0xdc,0x83,0xe5,0x1e,
+0x22,0xf7,0x50,0xb9,0xaf,0x96,0xfb,0x1a,0xb9,0x87,0xcb,0x7d,0x9d,0xdc,0x8f,0x48,
+0xbf,0x92,0x3e,0x2b,0x7d,0x5e,0x3a,0x53,0x3a,0x5b,0xfa,0x82,0xf4,0x45,0xe9,0x7c,
+0xe9,0x4b,0xd2,0x97,0xa5,0x8b,0xa5,0x4b,0xa5,0xcb,0xa5,0xaf,0x49,0x57,0x4a,0x5f,
+0x97,0xae,0x53,0xba,0xde,0x96,0x7b,0x83,0xdc,0xef,0xc8,0xfd,0x9e,0xdc,0x1b,0xe5,
+0x7e,0x5f,0xee,0x0f,0xe4,0xce,0x96,0xfb,0x43,0xb9,0xbf,0x95,0x7e,0x27,0x3d,0x24,
+0x3d,0x2c,0xfd,0x29,0xce,0xbd,0x0e,0xbf,0x1e,0x0a,0xe4,0xe8,0x0e,0xf4,0xa5,0x22,
+0x01,0xe7,0x81,0x22,0xae,0x3e,0x24,0x9d,0x0e,0x95,0x8a,0x06,0x9c,0xd8,0xa2,0xae,
+0x56,0x87,0x7a,0xc5,0x02,0x4e,0x73,0x68,0x0f,0xe7,0xc1,0xeb,0x30,0x1a,0x16,0xc2,
+0x18,0x58,0x0e,0x77,0xca,0x7f,0x02,0xcc,0x87,0x95,0xf2,0x7f,0x4d,0xfe,0xab,0x60,
+0x66,0xf1,0x80,0xf3,0x32,0xbc,0x04,0x0b,0x61,0x11,0x2c,0x86,0x19,0x25,0xf0,0x2b,
+0xe1,0xea,0x42,0x88,0x2b,0x19,0x70,0x6a,0x42,0xe9,0xac,0x80,0x53,0x0e,0xca,0x40,
+0x34,0x94,0x85,0x0a,0x70,0x2e,0x94,0x97,0x7f,0x45,0xf9,0x57,0x96,0xbb,0x92,0xf4,
+0x1c,0xe8,0xd1,0x27,0xe0,0xf4,0xec,0xe3,0xea,0x15,0xd2,0x2b,0x81,0xa2,0x70,0x52,
+0xa1,0x01,0x5c,0x0c,0x9d,0x44,0x16,0x5c,0x03,0xcf,0x88,0xb9,0x62,0x9e,0x78,0x49,
+0x98,0xb1,0x62,0x33,0x9e,0x65,0xfe,0x32,0x9c,0x79,0x0f,0xfa,0x9d,0xf1,0xe7,0xb9,
+0x78,0xa1,0x78,0x19,0x96,0xc0,0x52,0x78,0x05,0x5e,0x85,0xbb,0x79,0x7e,0xbe,0x07,
+0x26,0xc2,0xbd,0x30,0x03,0x66,0xc2,0x32,0x58,0x01,0x6f,0xc3,0x56,0xd8,0x01,0x9f,
+0x8b,0x2f,0x84,0xe9,0xe7,0xfa,0x99,0xbe,0xc4,0xbc,0xe7,0x33,0x7d,0x88,0x18,0x62,
+0xee,0x87,0xcd,0x33,0x94,0xb8,0xd6,0xbc,0xef,0x33,0xef,0xfa,0xc4,0x4d,0xe2,0x66,
+0x31,0x56,0xcf,0xcb,0xb7,0x0b,0xf3,0x6c,0x3b,0xc5,0x5c,0x23,0xcc,0xfd,0xb7,0xe9,
+0x53,0x4d,0xbf,0xc3,0xfd,0xf3,0x68,0xb8,0x19,0x6e,0x85,0xea,0x21,0xee,0x81,0xa1,
+0x1d,0x74,0x10,0x9d,0x61,0x2c,0x4c,0x80,0x45,0xb0,0x44,0x2c,0x83,0xe5,0xf0,0x2a,
+0xbc,0x06,0x2b,0xc5,0x3a,0xd8,0x0d,0xfb,0xe0,0x4b,0x28,0xc2,0x3d,0xf6,0x99,0x50,
+0x16,0xea,0x43,0x9a,0x68,0x00,0xcd,0xa0,0x39,0x74,0x82,0xce,0xd0,0x13,0xfa,0x42,
+0x3f,0xe8,0x2f,0x06,0xe8,0x7e,0xfd,0x5d,0xf1,0x1e,0x64,0xc3,0x16,0xd8,0x01,0x9f,
+0xc0,0x4e,0xf8,0x14,0x76,0xc1,0x6e,0xd8,0x0b,0x5f,0xc0,0x3e,0xd8,0x0f,0x87,0xe0,
+0x30,0xfc,0x00,0x3f,0x8b,0x22,0x91,0x2e,0x45,0xc5,0xa9,0x50,0x1d,0xe2,0xa0,0x19,
+0xb4,0x80,0x27,0xe1,0x29,0x98,0x09,0xb3,0xc4,0x52,0x78,0x1d,0x56,0xc3,0x6e,0xd8,
+0x03,0x07,0xe1,0x2b,0xf8,0x1a,0x0e,0x8b,0x1f,0x85,0x93,0x8f,0xfb,0x39,0x38,0x0d,
+0x4a,0xc2,0x99,0xa2,0x14,0x44,0xc3,0x39,0xa2,0x02,0x54,0x82,0xca,0xe2,0x5c,0x88,
+0x81,0x34,0xb8,0x08,0x3a,0x40,0x47,0xe8,0x0c,0x57,0x42,0x7f,0xb8,0x19,0x6e,0x81,
+0x71,0x70,0x1f,0x3c,0x0a,0x93,0x61,0x15,0xbc,0x2e,0x56,0xc3,0xc7,0xb0,0x1d,0x82,
+0x3c,0xc7,0x84,0x89,0x70,0x48,0x85,0x5a,0xa2,0xb6,0xa8,0x23,0xea,0x8a,0x7a,0x90,
+0x06,0x0d,0xa0,0x09,0x34,0x85,0xf3,0xa0,0x85,0x38,0x1f,0x5a,0x42,0x2b,0xd1,0x1a,
+0xda,0xc3,0x45,0x90,0x05,0x5d,0xa0,0x2b,0x74,0x87,0x7e,0x30,0x40,0x0c,0x84,0x11,
+0x30,0x52,0x8c,0x82,0xd1,0x30,0x06,0x6e,0x87,0x71,0x30,0x1e,0xee,0x86,0xa9,0xf0,
+0x0c,0xcc,0x84,0xd9,0xe2,0x45,0x58,0x00,0x2f,0x8b,0x45,0xc2,0x3c,0xb7,0x2d,0x85,
+0x65,0xf0,0x2a,0xac,0x84,0x55,0x7a,0x96,0x33,0xcf,0x71,0x6b,0xc5,0x9b,0x62,0xa3,
+0xc8,0x86,0x0f,0x61,0x0b,0x7c,0x0c,0xdb,0x60,0x3b,0xec,0x84,0x7d,0xb0,0x1f,0x0e,
+0xc0,0x0f,0xe2,0x27,0x11,0xc8,0x4f,0xb9,0x42,0x98,0x08,0x41,0x7e,0x28,0x0c,0x45,
+0xa0,0x18,0x54,0x86,0x2a,0x10,0x07,0x09,0x90,0x08,0xc9,0x90,0x02,0x35,0x21,0x15,
+0xea,0x88,0x7a,0x90,0x06,0x0d,0x20,0x1d,0x32,0xa1,0x09,0x34,0x87,0x16,0xd0,0x5a,
+0x74,0x80,0x4b,0xe0,0x32,0xd1,0x1d,0xfa,0x41,0x7f,0x18,0x00,0x03,0x61,0x30,0x5c,
+0x25,0x46,0xc2,0x28,0x18,0x2d,0xc6,0xc0,0x1d,0x30,0x0e,0x26,0xc0,0xdd,0x30,0x15,
+0x9e,0x81,0x99,0x30,0x1b,0xe6,0xc0,0x5c,0x58,0x00,0x2f,0x8b,0x45,0x62,0x31,0x2c,
+0x85,0x65,0xf0,0x1a,0xac,0x84,0x55,0xf0,0xba,0x58,0x03,0x6f,0xc0,0x5a,0xb1,0x4e,
+0x6c,0x85,0x8f,0x61,0x1b,0x6c,0x87,0x9d,0xb0,0x0f,0x0e,0x89,0xc3,0xf0,0x33,0x04,
+0x0a,0xb8,0x04,0x21,0x0c,0x42,0x50,0x10,0x0a,0x43,0x11,0x28,0x06,0x95,0xa1,0x0a,
+0xc4,0x41,0x02,0x24,0x42,0x32,0xa4,0x42,0x1d,0x51,0x57,0xd4,0x13,0xf5,0x45,0x9a,
+0x68,0x00,0x8d,0x20,0x53,0xcf,0xf5,0xcd,0xf5,0x5c,0xdf,0x42,0xb4,0xd5,0x33,0x7f,
+0x7b,0x71,0x09,0x5c,0x0a,0x9d,0x20,0x0b,0xba,0x40,0x57,0xe8,0x0e,0xfd,0x60,0x80,
+0x18,0x25,0x46,0x8b,0x31,0x70,0x2b,0xdc,0x09,0xe3,0xe1,0x2e,0x98,0x08,0x93,0xe0,
+0x01,0x78,0x48,0x3c,0x02,0x8f,0xc2,0xe3,0xf0,0x04,0x4c,0x85,0x67,0xe0,0x79,0x58,
+0xa0,0xf7,0x0a,0x4b,0x60,0xa9,0x58,0x06,0xcb,0x61,0x05,0xac,0xd2,0x3b,0x08,0xf3,
+0xfe,0x61,0xad,0x58,0x27,0x36,0x8a,0x9d,0xb0,0xaf,0x80,0x19,0xf0,0x76,0x09,0x40,
+0x18,0x84,0x8b,0x10,0x14,0x84,0x53,0xa0,0x08,0x9c,0x0a,0x95,0xa1,0x0a,0xa4,0x42,
+0x1d,0x51,0x57,0xd4,0x83,0x34,0x68,0x00,0x8d,0xa0,0xb1,0xde,0x77,0x34,0x83,0x16,
+0xd0,0xb6,0xa0,0xfb,0x0e,0xe4,0x22,0xb8,0x18,0x2e,0x81,0x4b,0xa1,0x33,0x64,0x41,
+0x17,0xe8,0x0a,0xdd,0xa1,0x1f,0x8c,0x10,0x23,0xc5,0x28,0x18,0x0d,0x63,0xe0,0x76,
+0xb8,0x13,0xc6,0xc3,0x5d,0x30,0x15,0x9e,0x81,0x39,0x30,0x17,0x16,0xc0,0xcb,0x62,
+0x91,0x58,0x2c,0x96,0x08,0xf3,0x0e,0xe6,0x55,0x58,0x21,0x56,0xea,0xfd,0xcb,0x6a,
+0xbd,0x7f,0x79,0x03,0xd6,0xea,0x7d,0x8c,0x79,0x37,0x93,0x0d,0x1f,0xc1,0x56,0xf8,
+0x18,0xb6,0xc1,0x76,0xd8,0x09,0xfb,0xe0,0x00,0x7c,0x09,0x07,0x85,0x53,0x88,0x32,
+0x85,0x20,0x84,0x41,0x38,0x14,0x84,0x53,0xa0,0x08,0x9c,0x0a,0xb5,0xa0,0x36,0xd4,
+0x81,0xba,0xc2,0xbc,0xe7,0x49,0x83,0x06,0xd0,0x08,0x1a,0x43,0x13,0xbd,0x0b,0x32,
+0xef,0x81,0x5a,0x88,0xf3,0xc5,0x85,0xd0,0x4e,0xef,0x89,0x0c,0x9d,0x20,0x0b,0xba,
+0x40,0x57,0xe8,0x0e,0xfd,0xe0,0x1a,0xb8,0x01,0x46,0x8a,0x51,0x30,0x1a,0xc6,0xc0,
+0xbd,0xf0,0x00,0xcc,0x82,0x39,0xb0,0x10,0x16,0x89,0xa5,0xb0,0x42,0xef,0x97,0x56,
+0xeb,0xbd,0xd3,0xdb,0xb0,0x1e,0xde,0x81,0xf7,0xc4,0x26,0xbd,0x8b,0xda,0x09,0xfb,
+0xe0,0x4b,0x38,0x68,0xca,0xe0,0x14,0xda,0x25,0xc4,0x8b,0x04,0x48,0x84,0x24,0xa8,
+0x05,0x69,0x90,0x01,0x8d,0x45,0x26,0x9c,0x0f,0xad,0xa0,0x03,0x8c,0x84,0x51,0x70,
+0xa3,0xb8,0x09,0x6e,0x85,0xdb,0xe1,0x71,0x78,0x52,0x3c,0x0d,0x33,0x61,0x96,0x98,
+0x0d,0x73,0xe0,0x05,0x78,0x19,0x16,0x89,0xa5,0xf0,0x2a,0xac,0x10,0xab,0xe0,0x4d,
+0x58,0x07,0xef,0x43,0x36,0x6c,0x01,0xa7,0xb0,0xcb,0x19,0x50,0x12,0xca,0xc2,0xb9,
+0x90,0x2c,0x6a,0x88,0x54,0x51,0x0f,0xea,0x43,0x1a,0x64,0x42,0x53,0xe8,0x0d,0x03,
+0xe0,0x7a,0xb8,0x41,0x8c,0x80,0x1b,0xe1,0x26,0xb8,0x19,0xc6,0xc2,0xed,0x70,0x07,
+0xdc,0x07,0x93,0xe0,0x65,0x58,0x21,0x9c,0x22,0xb4,0x39,0xa8,0x0a,0xd5,0x20,0x06,
+0xe2,0x20,0x5e,0x24,0x40,0x0d,0xa8,0x29,0x52,0xa1,0x16,0xd4,0x86,0x3a,0x50,0x17,
+0xea,0x41,0x7d,0x91,0x06,0x4d,0xa1,0x15,0xb4,0x85,0x76,0xd0,0x1e,0x2e,0x82,0x0e,
+0x70,0x31,0x5c,0x0a,0x97,0x41,0x67,0xc8,0x12,0x5d,0xe0,0x72,0xe8,0x06,0xdd,0xa1,
+0x07,0xf4,0x81,0xbe,0xd0,0x1f,0x06,0xc0,0x60,0xb8,0x0a,0x46,0xc2,0x28,0x31,0x1a,
+0x6e,0x84,0x31,0x70,0x13,0xdc,0x0c,0xb7,0xc3,0x1d,0xe2,0x4e,0x31,0x4e,0x8c,0x87,
+0x49,0xf0,0x00,0x3c,0x04,0x0f,0x8b,0xc9,0xf0,0x1a,0xac,0x14,0x6b,0xc5,0x3a,0x38,
+0x0c,0x3f,0x88,0x1f,0xe1,0x67,0x70,0x8a,0xd2,0x6e,0x4e,0xa5,0xdd,0x40,0x0b,0x68,
+0x05,0xed,0xe0,0x22,0x71,0x31,0x5c,0x0a,0x9d,0x61,0x2c,0xdc,0x0a,0x77,0xc0,0x78,
+0x98,0x09,0xb3,0x61,0x2e,0xcc,0x87,0xc5,0xb0,0x54,0x2c,0x87,0xd7,0x60,0x15,0xbc,
+0x07,0x9b,0xa0,0x48,0x31,0xda,0x33,0x94,0x80,0x33,0xe0,0x62,0xb8,0x14,0x3a,0x41,
+0x4f,0x18,0x00,0x23,0x60,0x1c,0x4c,0x86,0xaf,0xe1,0x3b,0xf8,0x11,0x02,0xc5,0xa9,
+0x27,0xa7,0xd1,0x46,0xe1,0x06,0x18,0x09,0x0f,0xc0,0x64,0xd8,0x0d,0x5f,0xc0,0x7e,
+0x38,0x00,0xdf,0x81,0x73,0x3a,0x59,0x83,0x53,0xa1,0x38,0x94,0x10,0x65,0x20,0x1e,
+0x12,0x20,0x11,0x92,0x44,0x1a,0xb4,0x86,0x0b,0xa0,0x0d,0x74,0x86,0xde,0xd0,0x17,
+0xfa,0xc3,0x40,0x18,0x04,0x23,0x60,0x0e,0xbc,0x00,0x73,0xe1,0x45,0x31,0x0f,0x16,
+0xc1,0x62,0x78,0x0d,0x56,0x88,0x95,0xb0,0x0a,0x5e,0x87,0x0d,0xb0,0x51,0x64,0x8b,
+0x0f,0xc5,0x56,0xf8,0x0c,0x0a,0x9c,0x41,0x97,0x08,0x85,0x45,0x11,0x28,0x09,0x65,
+0x21,0x1d,0x1a,0x8a,0x46,0x30,0x0c,0x46,0xc0,0x8d,0x30,0x06,0x6e,0x82,0x9b,0x61,
+0x2a,0x4c,0x13,0xcf,0x88,0x99,0xf0,0x35,0x38,0x25,0x1d,0xa7,0x34,0x94,0x85,0xf2,
+0x10,0x0d,0x15,0xa1,0x12,0x54,0x86,0x73,0xa1,0x2a,0xc4,0x41,0x3c,0x24,0x88,0x44,
+0xa8,0x09,0xa9,0x50,0x1b,0x1a,0x43,0x4b,0x68,0x05,0x7d,0xa0,0x3f,0x0c,0x86,0x11,
+0x30,0x1d,0x66,0xc2,0xeb,0xb0,0x0e,0xde,0x87,0x0f,0x84,0x73,0x26,0xf7,0xf6,0x70,
+0x3a,0x9c,0x01,0x25,0xe1,0x4c,0x28,0x25,0xca,0xc2,0x85,0xd0,0x56,0xb4,0x13,0xed,
+0xc5,0x45,0x70,0x19,0x74,0x16,0x59,0xa2,0x8b,0xe8,0x0a,0x97,0x43,0x37,0xe8,0x0d,
+0x7d,0x60,0x20,0x0c,0x82,0xe1,0x70,0x83,0x18,0x01,0xb7,0xc0,0x78,0x98,0x04,0x4f,
+0x8b,0x99,0xb0,0x08,0x96,0xc0,0x87,0xb0,0x15,0xf6,0x80,0x53,0x8a,0xeb,0x93,0x79,
+0xaf,0x2f,0x42,0x90,0x08,0x49,0x22,0x59,0xa4,0x40,0x2d,0x8d,0x11,0x18,0xea,0x88,
+0xba,0x1a,0x1f,0x48,0x17,0x66,0x8c,0xa0,0x11,0x64,0xc0,0x79,0xd0,0x0a,0x3a,0x40,
+0x2f,0x18,0x04,0x23,0x60,0x24,0x8c,0x12,0xa3,0x61,0x32,0x4c,0x11,0x8f,0xc1,0x93,
+0xf0,0x14,0x3c,0x0d,0x53,0x61,0x1a,0x3c,0x23,0xa6,0xc3,0x73,0xf0,0x3c,0xcc,0x80,
+0x99,0xb0,0x00,0x5e,0x82,0x4f,0x60,0xa7,0xf8,0x54,0xec,0x82,0xcf,0x60,0x37,0x7c,
+0x0e,0x7b,0xc5,0x17,0x62,0x1f,0x1c,0x80,0x2f,0xe1,0x20,0x38,0x67,0x51,0x77,0xe0,
+0x1c,0xa8,0x0a,0xd5,0x20,0x11,0x92,0x20,0x19,0x52,0xa0,0x06,0xa4,0x41,0x53,0x68,
+0x01,0x2d,0xa1,0x15,0x74,0x80,0x8b,0x61,0x28,0x0c,0x83,0xeb,0x60,0x04,0xdc,0x0a,
+0xe3,0xe1,0x25,0x58,0x04,0x4b,0x60,0x1d,0xac,0x87,0x77,0x60,0x2b,0x7c,0x2c,0xb6,
+0xc1,0x2e,0xf8,0x0c,0x3e,0x87,0xbd,0xe2,0x0b,0x38,0x08,0x5f,0x89,0xaf,0xe1,0x1b,
+0xf8,0x56,0x7c,0x07,0x87,0xe0,0xb0,0x70,0xce,0x26,0xfd,0x50,0x0d,0xae,0x84,0x5e,
+0x30,0x14,0x86,0x89,0xab,0xe1,0x01,0x78,0x10,0x96,0xc0,0x52,0xf8,0xf9,0x6c,0x77,
+0x8e,0xba,0x19,0x77,0x30,0x63,0xf4,0x66,0x7c,0xc1,0x8c,0x1d,0x9b,0xf7,0xe0,0x66,
+0xcc,0xdc,0xbc,0xef,0x36,0x63,0xb2,0xe6,0x3d,0x76,0x07,0xd1,0x51,0x5c,0x2a,0xcc,
+0xbb,0xec,0xeb,0xca,0xb8,0x63,0x33,0x66,0xdc,0xdb,0x8c,0x5d,0x9b,0x79,0x00,0x8b,
+0x85,0x79,0xf7,0x6b,0xc6,0xc1,0xcd,0x18,0xb4,0x19,0xd7,0x37,0x63,0xcc,0x1b,0xca,
+0xb8,0x63,0xc9,0x9b,0xcb,0xb8,0x63,0xc0,0x66,0x3c,0xde,0xbc,0x1b,0x36,0xe3,0xb0,
+0x66,0x2c,0xd7,0x8c,0xa3,0x17,0x2c,0x4b,0xff,0x01,0xf5,0x21,0x0d,0x2e,0x14,0x03,
+0xc4,0x0d,0x62,0x3c,0x3c,0x04,0xeb,0x20,0x1b,0x3e,0x16,0x9f,0xc0,0x7e,0x08,0x96,
+0x73,0x89,0x14,0xf9,0xa1,0x18,0x94,0x10,0x67,0x88,0x92,0x70,0x36,0x9c,0x23,0x2a,
+0x8a,0xca,0xa2,0x0a,0xc4,0x40,0xac,0xa8,0x0e,0x49,0x90,0x6c,0xde,0x2d,0x43,0xaa,
+0xa8,0x03,0xf5,0x21,0x03,0x9a,0xc2,0xf9,0xa2,0x33,0x8c,0x82,0xd1,0x70,0x23,0x8c,
+0x81,0xb1,0xe0,0x54,0x73,0x9c,0x6b,0x61,0x38,0x5c,0x07,0xd7,0xc3,0x0e,0xd8,0x03,
+0x5f,0xc0,0x3e,0x38,0x00,0x5f,0xc2,0x41,0x70,0x62,0x1c,0xa7,0x02,0x54,0x12,0x31,
+0x22,0x0e,0x7a,0x40,0x3f,0x71,0x83,0x18,0x01,0xf7,0xc2,0x64,0x78,0x0a,0xa6,0xc2,
+0xf3,0x30,0x13,0x5e,0x84,0xf9,0xb0,0x18,0x96,0xc2,0x0a,0x58,0x05,0x6f,0xc2,0x3a,
+0x78,0x0f,0x36,0xc1,0x47,0xb0,0x15,0x7e,0x86,0x50,0x9c,0x4b,0x84,0x88,0x14,0xe5,
+0xe0,0x5c,0xa8,0x02,0x31,0x10,0x0b,0xd5,0x21,0x1e,0x92,0xa1,0x26,0xd4,0x82,0xda,
+0xa2,0x8e,0x68,0x00,0xf7,0xea,0xfd,0xa5,0x79,0xd7,0xf9,0x20,0x3c,0x04,0x0f,0xeb,
+0x3d,0xee,0xa3,0x62,0x8a,0xde,0x73,0x7e,0x2f,0x7e,0xd0,0xfb,0xce,0x9f,0x45,0x28,
+0x9e,0xe3,0x41,0x3c,0xdc,0x09,0x93,0x61,0x09,0xec,0x87,0x9f,0xc1,0x49,0xc2,0xdd,
+0x02,0x3d,0x9f,0xeb,0xe8,0x64,0xce,0xbd,0x38,0x0d,0x6e,0x7f,0x82,0xfc,0xc2,0xb7,
+0xf0,0x1d,0xfc,0x08,0xce,0x93,0x5c,0xc3,0x9e,0xa2,0x1e,0x8a,0x22,0x50,0x06,0xca,
+0xc2,0xb9,0x50,0x05,0xaa,0x42,0x1a,0xf4,0x81,0xbe,0xa2,0x9f,0x18,0x0c,0xd7,0xc1,
+0x0d,0x62,0x04,0x3c,0x08,0x0f,0xc1,0xc3,0xf0,0x08,0x3c,0x0a,0x93,0xe1,0x13,0xd8,
+0x09,0xfb,0x60,0x3f,0x1c,0x80,0xd3,0x9f,0xe6,0x78,0x50,0x1e,0xfa,0x41,0x7f,0x31,
+0x00,0x6e,0x86,0xb1,0xe2,0x36,0xb8,0x13,0xc6,0x89,0xf1,0x90,0x0d,0x07,0xe0,0x2b,
+0xf8,0x1a,0xbe,0x81,0x6f,0xc5,0x77,0x70,0x08,0x0e,0x8b,0xef,0x21,0x30,0x95,0x36,
+0x22,0xc2,0x20,0x04,0x11,0x22,0x12,0xf2,0x43,0x01,0x51,0x10,0xca,0x43,0x34,0x9c,
+0x03,0x15,0xa0,0x22,0x54,0x12,0xd5,0x44,0x1a,0x0c,0x82,0x11,0x30,0x12,0x46,0xc1,
+0x1c,0x78,0x01,0x5e,0x81,0x57,0xe1,0x35,0x58,0x07,0xef,0xc3,0x56,0x38,0x00,0x5f,
+0xc2,0xb7,0xf0,0xbd,0xf8,0x11,0x7e,0x82,0x9f,0x85,0x33,0xcd,0x71,0xa2,0x20,0x3f,
+0x54,0x80,0x8a,0x10,0x03,0x71,0xd0,0x18,0x32,0xa1,0x35,0x5c,0x00,0x6d,0xa0,0x33,
+0x0c,0x87,0x11,0x30,0x0a,0x46,0x8b,0x1b,0x61,0x36,0xcc,0x11,0x2f,0xc0,0x5c,0x78,
+0x11,0x16,0xc0,0x4b,0xb0,0x10,0x5e,0x86,0x45,0xb0,0x18,0x96,0xc2,0x5b,0x62,0x1d,
+0xbc,0x0f,0x5b,0x61,0x07,0x7c,0x22,0x76,0x8a,0x4f,0x61,0x1f,0xec,0x87,0x43,0x70,
+0x18,0x7e,0x9a,0xe6,0xbe,0x74,0xae,0x0c,0xe7,0x42,0x2c,0x54,0x87,0x38,0x88,0x87,
+0x04,0x48,0x84,0x24,0x48,0x86,0x14,0x48,0x83,0x74,0x68,0x28,0x1a,0x41,0x73,0x38,
+0x4f,0xb4,0x10,0xad,0xa0,0x03,0x74,0x86,0x7e,0xd0,0x5f,0x0c,0x80,0x21,0x70,0x8d,
+0xb8,0x56,0x0c,0x17,0xd7,0x89,0xeb,0x61,0x06,0xcc,0x14,0xb3,0xc4,0x6c,0x78,0x01,
+0xe6,0xc2,0x8b,0x30,0x0f,0xe6,0xc3,0x02,0x58,0x04,0x8b,0x61,0x09,0x2c,0x15,0xcb,
+0xc4,0x72,0xb1,0x19,0xb2,0xe1,0x43,0xb1,0x15,0x76,0xc3,0x1e,0xf1,0x39,0xec,0x85,
+0x2f,0x60,0x1f,0x7c,0x29,0x0e,0xc2,0x57,0xf0,0xb5,0xf8,0x46,0x04,0xa6,0x53,0x2f,
+0x21,0x0a,0x4e,0x81,0xa2,0x70,0x1a,0x94,0x85,0x8a,0x50,0x19,0x62,0x21,0x0e,0x2e,
+0x86,0x4b,0xa0,0x13,0x74,0x86,0x2b,0xa0,0xa7,0xe8,0x0f,0x4b,0x60,0x29,0x6c,0x83,
+0xed,0xb0,0x03,0x3e,0x11,0x3b,0xe1,0x53,0xd8,0x25,0x3e,0x83,0xdd,0xf0,0xb9,0xd8,
+0x2b,0xf6,0xc3,0x21,0x70,0x9e,0xe5,0xf9,0x74,0x23,0x65,0x07,0x2b,0x60,0x0d,0x7c,
+0x0f,0x66,0xd2,0x70,0x9f,0xc3,0x1c,0x0f,0xde,0x37,0x13,0x87,0xbf,0x27,0xfd,0x50,
+0x0c,0x4e,0x87,0xb3,0x45,0x69,0x51,0x06,0x2a,0x43,0x15,0x48,0x81,0x9a,0x50,0x07,
+0xea,0x89,0x34,0x68,0x00,0x0d,0xa1,0x11,0x34,0x86,0x59,0xb0,0x01,0xea,0xfe,0x48,
+0x3d,0x80,0x71,0x70,0x17,0xac,0x84,0xfd,0xf0,0xbd,0x99,0xc0,0xfb,0x13,0xf7,0xe1,
+0x50,0x16,0xaa,0x43,0x22,0x24,0x41,0x0b,0x68,0x09,0xfd,0x61,0x30,0x0c,0x81,0x1f,
+0xa0,0xc8,0xcf,0x5c,0x13,0xa1,0x1c,0xd4,0x82,0xfa,0xa2,0x01,0x5c,0x0c,0xdd,0x44,
+0x77,0xe8,0x07,0xfd,0xc5,0x00,0x78,0x18,0x1e,0x81,0x47,0x61,0x32,0x2c,0x86,0xe5,
+0xb0,0x12,0x56,0xc3,0x5b,0xb0,0x1e,0x36,0xc2,0x07,0x90,0xfd,0x73,0xce,0x1f,0xbd,
+0x77,0x0a,0x40,0x21,0xa8,0x08,0x95,0xa1,0x16,0xd4,0x81,0xba,0x50,0x1f,0x5a,0x40,
+0x2b,0xb8,0x14,0x46,0xc0,0x61,0x48,0x0b,0x04,0x9c,0xc1,0xf0,0xa3,0x18,0x11,0x0c,
+0x38,0x0f,0xc1,0x64,0x58,0x07,0x5b,0x85,0xf9,0x18,0xa4,0x0c,0xc4,0x40,0x1a,0x34,
+0x10,0xe9,0xd0,0x14,0x9a,0x89,0x56,0x70,0x15,0x0c,0x81,0x6b,0x60,0x04,0x3c,0x0c,
+0x93,0xe1,0x15,0x58,0x05,0x6f,0xc1,0xdb,0xf0,0xae,0xf9,0xc0,0x24,0x3c,0xe0,0xb4,
+0x84,0x56,0xf0,0x30,0x4c,0x86,0x69,0x30,0x13,0x36,0xc0,0xa6,0x70,0xf3,0x37,0x2c,
+0x02,0x39,0x1f,0x8f,0x54,0x82,0x38,0xe8,0x0a,0xfd,0xe1,0x1a,0x18,0x0e,0xb7,0xc2,
+0xed,0x70,0x17,0xdc,0x03,0x13,0xe1,0x3e,0x98,0x02,0x8f,0xc3,0x2c,0x98,0x03,0x0b,
+0x60,0x21,0xbc,0x0c,0x4b,0xe1,0xa0,0xf9,0x20,0x25,0x22,0xe0,0xa4,0x44,0x92,0x27,
+0x68,0x0b,0x9d,0xa1,0x07,0x8c,0x80,0x31,0x70,0x33,0xcc,0x84,0xd9,0xf0,0x92,0xf9,
+0x40,0x25,0x5f,0xc0,0x09,0x41,0x3e,0x91,0x1f,0x92,0xa1,0x06,0xd4,0x84,0x3a,0xa2,
+0x3e,0xb4,0x85,0xce,0x30,0x04,0x46,0xc0,0x23,0xb0,0x15,0xbe,0x84,0xaf,0xe0,0x6b,
+0xf3,0xc1,0x62,0x54,0xc0,0x29,0x01,0x65,0x21,0x15,0xd2,0xa0,0x03,0x8c,0x80,0x79,
+0xb0,0x18,0x96,0x98,0x0f,0x62,0xf2,0xbb,0x04,0x20,0x0c,0x42,0x10,0x01,0x05,0xa1,
+0x30,0x14,0x81,0x62,0x50,0x02,0x4e,0x87,0x92,0x90,0x0c,0x35,0xa1,0x16,0xd4,0x17,
+0x9d,0x61,0x38,0x8c,0x80,0x87,0x60,0x29,0xac,0x84,0xd7,0x61,0x07,0x7c,0x02,0x3b,
+0xcd,0xb1,0x0a,0xb0,0x3f,0xa4,0x41,0x5b,0xe8,0x0c,0x03,0x61,0x04,0x4c,0xc8,0xf9,
+0x30,0x27,0xe0,0x34,0x81,0x11,0x30,0x1b,0x96,0xc2,0x97,0xe6,0x83,0xcb,0x42,0x01,
+0x27,0x1a,0xce,0x81,0x4a,0x10,0x07,0xa9,0x90,0x06,0x4d,0xa1,0x19,0xb4,0x80,0xf3,
+0x45,0x4b,0xd1,0x0a,0xba,0x41,0x4f,0xe8,0x03,0xfd,0x44,0x7f,0x18,0x03,0x23,0x4e,
+0xa1,0x5e,0xc0,0x74,0x78,0x16,0x66,0xc2,0x2c,0x58,0x0e,0xaf,0xc2,0x6b,0x62,0x05,
+0xac,0x84,0xc3,0xf0,0xb3,0xf9,0xd0,0xb3,0x70,0xc0,0x39,0x0b,0x2a,0x89,0x38,0xc8,
+0x80,0xc6,0xd0,0x0a,0xfa,0xc3,0x48,0x18,0x05,0x63,0x60,0x26,0xbc,0x0a,0x5b,0xe1,
+0x1b,0xf3,0x81,0x51,0x11,0x97,0x80,0x08,0x8a,0x30,0xa8,0x01,0x35,0xa1,0x31,0x74,
+0x87,0x7e,0xd0,0x5f,0x0c,0x80,0x81,0x30,0x08,0x06,0xc3,0x55,0xe2,0x06,0x18,0x09,
+0xa3,0xc4,0x68,0x98,0x01,0x33,0x61,0x36,0xcc,0x81,0x17,0x61,0x1e,0xcc,0x87,0x05,
+0x1a,0x73,0x5e,0x2e,0xd6,0xc1,0x2e,0xd8,0x0f,0x87,0x4c,0xda,0x8a,0x92,0x1e,0x08,
+0x83,0x8a,0x1a,0x8f,0xae,0x0a,0xd5,0x44,0x0c,0x24,0x41,0x0a,0xd4,0x87,0x46,0x22,
+0x03,0x1a,0x43,0xa6,0x68,0x05,0x03,0x61,0x90,0x18,0x22,0x46,0xc0,0x48,0x18,0x25,
+0x46,0xc3,0x6c,0x98,0x03,0x73,0xe1,0x45,0x58,0x0c,0x4b,0x60,0x29,0x2c,0x83,0x57,
+0xe1,0x75,0x78,0x03,0xde,0x14,0x6f,0x89,0x75,0xf0,0x3e,0x7c,0x20,0xb2,0x85,0xf9,
+0x98,0xb6,0x28,0x14,0x83,0xaa,0x50,0x0d,0x62,0xa1,0x3a,0xc4,0x43,0x02,0x24,0x42,
+0x92,0x48,0x16,0x29,0x50,0x03,0xea,0x89,0xfa,0x90,0x06,0x0d,0xc4,0x08,0xb8,0x09,
+0xc6,0x8a,0x5b,0xe1,0x0e,0x18,0x07,0x0f,0xc3,0xa3,0x30,0x15,0x66,0xc2,0x47,0xb0,
+0x45,0x6c,0x85,0x6d,0xb0,0x1d,0x76,0xc3,0x7e,0x38,0x64,0x3e,0xf8,0x2d,0x46,0x3d,
+0x80,0x20,0x84,0x41,0x08,0x0a,0x42,0x61,0x28,0x02,0xc5,0xa0,0x32,0x54,0x81,0x38,
+0x48,0x80,0x44,0x48,0x86,0x54,0xa8,0x0d,0x75,0xa0,0xae,0x30,0xf3,0x06,0xea,0x43,
+0x9a,0x68,0x00,0x8d,0x20,0x13,0x9a,0x68,0x4e,0x41,0x0b,0x68,0x25,0xda,0x8b,0x4b,
+0x21,0x0b,0xba,0x40,0x57,0xe8,0x0e,0xbd,0xa1,0x3f,0x0c,0x86,0x11,0x70,0x0b,0xdc,
+0x26,0xee,0x14,0xe3,0x61,0x2e,0xcc,0x13,0x66,0x1e,0xc2,0x4b,0x9a,0xa7,0xb0,0x54,
+0xf3,0x11,0xbc,0x39,0x09,0xaf,0x69,0x8e,0xc2,0x6a,0x78,0x03,0xd6,0xc2,0x9b,0xe2,
+0x2d,0xb1,0x4e,0xbc,0x2d,0xd6,0x8b,0x0d,0xe2,0x63,0xd8,0x66,0x3e,0xb0,0x2b,0xce,
+0x79,0x83,0x64,0xa8,0x01,0x35,0xa1,0x3e,0xa4,0x41,0x03,0x48,0x87,0x46,0x90,0x21,
+0x1a,0x8b,0x4c,0x68,0x06,0xad,0xa0,0x03,0x5c,0x26,0x3a,0x41,0x16,0x8c,0x30,0x73,
+0x23,0x8a,0xbb,0xf3,0x26,0x66,0xc3,0x1c,0x98,0x0f,0x0b,0xc4,0x4b,0xd6,0x5c,0x0a,
+0x33,0x8f,0x62,0x09,0x2c,0x85,0x65,0x62,0x39,0xbc,0x02,0xaf,0xc2,0x6b,0xb0,0x52,
+0xac,0x83,0xf7,0x4d,0xfc,0x25,0x02,0xce,0xf3,0x9a,0x77,0x31,0x0b,0x66,0xc3,0x5c,
+0x98,0xaf,0x79,0x18,0x2f,0xc3,0x22,0x58,0x2c,0x96,0xc0,0x52,0xd8,0x04,0x9b,0x21,
+0x1b,0x3e,0x34,0x1f,0x16,0x9e,0x46,0x5d,0x86,0x38,0x48,0x80,0x44,0xa8,0x05,0xb5,
+0xa1,0x0e,0xd4,0x15,0xf5,0x44,0x7d,0x48,0x83,0x46,0xa2,0x15,0x74,0x80,0x11,0xf0,
+0x0c,0x4c,0x17,0xcf,0x8a,0xe7,0xc4,0xf3,0x30,0x03,0x66,0xc2,0x5c,0x78,0x51,0xcc,
+0x13,0xf3,0xc5,0x52,0x78,0x1d,0xd6,0xc1,0x76,0xf3,0xe1,0xfa,0xe9,0x01,0xe7,0x4c,
+0x38,0x5b,0x94,0x16,0x65,0x44,0x59,0x28,0x07,0xe5,0xa1,0x02,0x54,0x14,0x95,0xa0,
+0x2a,0xc4,0x41,0x2a,0xa4,0x41,0x63,0xf3,0x01,0xe5,0x19,0xf8,0x43,0x35,0x88,0x85,
+0xea,0x50,0x03,0x6a,0x8a,0x54,0xa8,0x05,0x93,0x61,0x0b,0x6c,0x85,0xcf,0xe0,0x67,
+0x88,0x28,0x19,0x70,0xa2,0x44,0x41,0x28,0x06,0x25,0xe0,0x34,0x38,0x03,0xaa,0x97,
+0x74,0xe7,0xbf,0x24,0x43,0x0d,0xcd,0x83,0xa9,0x0d,0x75,0xa0,0xae,0xa8,0x27,0xea,
+0x8b,0x34,0xd1,0x40,0xa4,0x8b,0x86,0xa2,0x15,0x74,0x80,0xc9,0xf0,0x34,0x3c,0x03,
+0xeb,0xe0,0x6d,0xd8,0x00,0xef,0xc0,0x46,0xf8,0x00,0x36,0x43,0x36,0x6c,0x81,0xad,
+0xe2,0x63,0xb1,0x5d,0xec,0x10,0x39,0x1f,0xff,0x43,0x00,0xf2,0x43,0x01,0x48,0x80,
+0x44,0xa8,0x09,0xa9,0xa2,0x96,0xa8,0x0d,0xf5,0x20,0x53,0xb4,0x12,0xad,0xa1,0x1d,
+0xb4,0x87,0x8b,0xa0,0x03,0x74,0x84,0x4b,0xe0,0x16,0xb8,0x15,0xee,0x85,0xfb,0xc4,
+0xfd,0x30,0x09,0x1e,0x16,0x33,0xe1,0x3b,0xe8,0x5c,0xca,0x25,0x4b,0x74,0x81,0xcb,
+0xa1,0x9b,0xe8,0x2e,0x7a,0x88,0xa5,0xb0,0x15,0xf6,0xc3,0x21,0xf3,0x01,0xec,0x59,
+0xdc,0xf7,0x40,0x7e,0x88,0x85,0xea,0x22,0x0e,0x52,0xa0,0x26,0xd4,0x85,0x7a,0xa2,
+0xbe,0x48,0x13,0xad,0xa0,0x03,0x0c,0x84,0x71,0x70,0x17,0x3c,0x0d,0xd3,0xc4,0x33,
+0x30,0x13,0x66,0x89,0xd9,0x30,0x07,0x5e,0x10,0x73,0xe1,0x45,0xb3,0x00,0xc2,0xd9,
+0xd4,0x13,0xc8,0x07,0x51,0x50,0x00,0xe2,0x20,0x1e,0x52,0xa0,0x96,0xa8,0x03,0x75,
+0xa1,0x3e,0x64,0x40,0x63,0x91,0x29,0x5a,0x41,0x07,0xe8,0x0c,0xdd,0xa0,0x07,0x5c,
+0x01,0x57,0xc2,0x2d,0x70,0x2b,0xdc,0x09,0xe3,0x61,0x02,0xdc,0x0d,0xf7,0xc0,0x44,
+0x71,0xaf,0xb8,0x4f,0xdc,0x2f,0x26,0xc3,0x34,0x98,0x09,0x9b,0xe0,0x7d,0xf1,0x01,
+0x6c,0x86,0xad,0xf0,0x99,0xd1,0xd2,0xdc,0x37,0xc1,0x41,0xf8,0x0a,0xbe,0x86,0x6f,
+0xcc,0x82,0x0e,0x65,0xa8,0x33,0x10,0x14,0x61,0x22,0x1c,0x8a,0xc0,0xa9,0x90,0x08,
+0x49,0x90,0x0c,0x29,0x50,0x0b,0xea,0x41,0x7d,0x48,0x13,0x0d,0x44,0xba,0x68,0x05,
+0x1d,0xe0,0x62,0x31,0x53,0x98,0xc5,0x23,0x26,0x99,0x0f,0x8d,0xcf,0x09,0x38,0x7d,
+0x61,0x04,0x34,0xac,0x40,0xbe,0xab,0x73,0xee,0x73,0x3e,0xec,0xe5,0x3c,0x27,0x11,
+0xa7,0x68,0x00,0x8d,0x21,0x13,0xda,0x42,0x67,0x38,0x6c,0x16,0x4e,0x68,0x84,0xbf,
+0xf9,0x90,0x36,0x8b,0x7e,0x24,0xcb,0x9d,0x9f,0x66,0xe6,0xa2,0x55,0x81,0x6a,0x10,
+0x03,0xd5,0x21,0x0e,0x52,0xcd,0x07,0xa7,0x57,0x50,0x67,0xae,0x24,0x4e,0xb8,0x0c,
+0x3a,0x43,0x4f,0xe8,0x0f,0x8b,0x61,0x29,0xbc,0x0e,0xeb,0x60,0x2f,0xec,0x87,0xaf,
+0xcc,0x02,0x00,0xbd,0x88,0x07,0xe2,0x20,0x05,0xd2,0xa0,0x21,0xb4,0x82,0x0e,0xd0,
+0x15,0x86,0xc2,0x75,0x30,0xce,0x6c,0xef,0x43,0xfe,0xa1,0xa1,0xe6,0xb7,0xf5,0x82,
+0xde,0xd0,0x1f,0xae,0x86,0xb4,0xbe,0xdc,0x9b,0xc1,0x64,0x98,0x0f,0x0b,0x61,0x83,
+0x59,0x48,0xa0,0x1f,0xd7,0x1f,0x68,0x29,0x5a,0x89,0xd6,0x70,0x33,0x8c,0x83,0xbb,
+0xe0,0x6e,0x78,0x14,0xb6,0xc2,0xc7,0xb0,0x5d,0xec,0x10,0xfb,0xe1,0x00,0x7c,0x09,
+0x07,0xe1,0x2b,0xf8,0xc6,0x7c,0xd0,0xda,0x9f,0xe7,0xa0,0xdb,0xe9,0xf7,0xa0,0xf4,
+0x1d,0x94,0x3b,0x7c,0x09,0xfb,0x67,0x10,0x0e,0xbe,0x86,0xef,0xe1,0x47,0xf8,0xc9,
+0x2c,0x58,0x30,0x93,0x3e,0x78,0x16,0x7d,0x88,0x68,0x05,0x17,0x40,0x5b,0x71,0x39,
+0xf4,0x80,0xfe,0xf0,0xfd,0x6c,0x77,0xa2,0xdd,0x95,0xd0,0x1f,0x86,0xc3,0x08,0x18,
+0x0b,0xe3,0x61,0x12,0x3c,0x0c,0x8f,0xc0,0xfe,0x37,0x68,0xdf,0x60,0x16,0xeb,0x88,
+0x81,0x38,0x68,0x0c,0xdd,0xde,0xa6,0x3f,0x80,0x1e,0xd0,0x13,0xfa,0xc0,0x40,0xb8,
+0x16,0x46,0xc1,0x18,0xb8,0x0d,0x9e,0x81,0xe7,0x20,0x7d,0x3d,0xd7,0x2b,0xf3,0x81,
+0xf3,0x3b,0x01,0xe7,0x42,0x68,0x07,0x0f,0xc1,0x23,0xf0,0x28,0x3c,0x26,0x9e,0x84,
+0xa7,0x60,0x1a,0x3c,0x0b,0xcf,0xc3,0x02,0x58,0x28,0x16,0xc1,0x2b,0xf0,0x1a,0x84,
+0xde,0x0d,0x38,0x91,0x90,0x1f,0x0a,0x41,0x71,0x38,0x0d,0xce,0x82,0xd2,0x90,0x0a,
+0xb5,0xa1,0x1e,0xa4,0x41,0x23,0x68,0x2c,0x9a,0x41,0x2b,0xb8,0x00,0x9e,0x7c,0x8f,
+0x7b,0x3d,0x58,0x0a,0xcb,0xe1,0x03,0xc8,0x86,0xc3,0xf0,0x03,0x14,0xdf,0x48,0xbc,
+0x90,0x04,0x29,0x70,0x3e,0xb4,0x82,0xbe,0xd0,0x1f,0xc6,0xc2,0xad,0x30,0x15,0x9e,
+0x81,0xe5,0xf0,0x2a,0xac,0x81,0x37,0xe1,0x67,0xf3,0x61,0xea,0x07,0xec,0x0b,0xb5,
+0xa1,0x37,0x5c,0x25,0x6e,0x14,0x0f,0xc2,0xa3,0x30,0x05,0x66,0x98,0x0f,0x3c,0xb7,
+0xd0,0x7f,0x41,0x7e,0x51,0x00,0x4a,0x43,0x05,0xa8,0x62,0x3e,0x58,0xdd,0x4a,0x3f,
+0x07,0xf9,0xe0,0x0c,0x28,0x05,0xe5,0x20,0x1a,0xce,0x81,0x8a,0x50,0x05,0xe2,0xa0,
+0x0f,0x8c,0x13,0xe6,0x63,0xc5,0x6a,0x10,0x07,0x29,0x50,0x03,0xea,0x42,0x1a,0x34,
+0x85,0xf3,0xc5,0xf8,0x6d,0x9c,0x37,0x78,0x5e,0x2c,0x85,0x3d,0xf0,0x39,0xec,0x83,
+0xfd,0x70,0x08,0xd6,0xed,0xe0,0x3e,0x18,0xf6,0x88,0xcf,0x61,0x1f,0xec,0x87,0x43,
+0xb0,0xee,0x13,0xda,0x27,0x7c,0x01,0xfb,0x60,0xbf,0x38,0x00,0x87,0x61,0xe9,0x4e,
+0xee,0xaf,0x61,0x2b,0x6c,0x83,0xed,0x62,0x07,0x7c,0x02,0x3b,0xc5,0xa7,0xb0,0x17,
+0xbe,0x80,0x7d,0xb0,0x1f,0xbe,0x82,0xaf,0xc5,0x4f,0xe2,0x67,0xb1,0xf5,0x53,0xf6,
+0x83,0x5d,0xb0,0x07,0xf6,0xc2,0x17,0xb0,0x1f,0x7e,0x32,0x0b,0x28,0xec,0xe2,0x1c,
+0xc1,0x3a,0x78,0xcf,0x2c,0x24,0xf3,0x19,0x7d,0x00,0x34,0x82,0x66,0xd0,0x5c,0xb4,
+0x82,0x0e,0x66,0x61,0x82,0x2f,0xe8,0x67,0x21,0x04,0x65,0xa0,0x1c,0x94,0x87,0x73,
+0x44,0x25,0x71,0x2e,0x24,0x40,0x12,0xd4,0x80,0x54,0x51,0x5b,0xa4,0x8b,0x4c,0xd1,
+0x54,0x34,0x17,0x2d,0xa0,0x25,0xb4,0x86,0x0b,0xe0,0x42,0xd1,0x5e,0x74,0x10,0x1d,
+0xc5,0xa5,0xa2,0x93,0xc8,0x82,0x2e,0x70,0xb9,0xe8,0x01,0x57,0x42,0x6f,0x18,0x08,
+0x83,0x61,0x28,0x5c,0x0d,0xc3,0xe1,0x7a,0x31,0x02,0x6e,0x81,0xdb,0xe0,0x41,0x98,
+0x02,0x8f,0xc3,0x93,0x30,0x0d,0xa6,0xc3,0x42,0xd8,0xff,0x3d,0xe7,0xd5,0x7c,0x28,
+0xed,0x04,0x9d,0x2d,0x4f,0x05,0x1d,0xe7,0xe9,0xa0,0x73,0xf6,0xfc,0xa0,0x53,0x16,
+0x9e,0x7b,0x33,0xe8,0xcc,0x84,0xad,0x7b,0x82,0xce,0x7e,0xb8,0xd4,0x4c,0xc0,0xfd,
+0x8e,0xed,0x87,0xdd,0x89,0xb8,0xcd,0x8a,0x85,0xf1,0xac,0x12,0xe6,0x5c,0x9d,0x14,
+0x96,0x33,0xa1,0x65,0x1f,0x78,0xf3,0x88,0x73,0x9b,0x3f,0xfc,0x57,0xcd,0x1b,0xfe,
+0xb5,0xf3,0x85,0x4f,0x74,0x9e,0xf0,0xf1,0xe6,0x07,0xfb,0xe7,0xfd,0xe6,0x36,0xdf,
+0xd7,0x9b,0xdf,0xeb,0x9f,0xd7,0xeb,0xcd,0xe3,0xf5,0xe6,0xed,0xe6,0x36,0x5f,0xd7,
+0x9b,0xa7,0xeb,0xcd,0xcf,0xf5,0xe6,0xe5,0x7a,0xf3,0x71,0xfd,0xf3,0x70,0xbd,0xf9,
+0xb7,0xde,0xbc,0x5b,0x6f,0xbe,0xad,0x37,0xcf,0xd6,0x9b,0x5f,0x9b,0xdb,0xbc,0x5a,
+0xff,0x7c,0x5a,0x6f,0xde,0xac,0x37,0x3f,0xd6,0x9b,0xf7,0xea,0xcd,0x77,0xf5,0xcf,
+0x6f,0x3d,0xd9,0xf9,0xac,0xde,0x3c,0x56,0x6f,0x7e,0xaa,0x7f,0x5e,0xaa,0x7f,0x1e,
+0xea,0xaf,0x9d,0x6f,0xea,0x9f,0x3f,0xea,0xcd,0x17,0x3d,0xd9,0x79,0xa1,0xde,0x7c,
+0x50,0xff,0xfc,0x4e,0x6f,0x3e,0xe7,0xc9,0xce,0xdb,0xf4,0xe6,0x6b,0xfa,0xe7,0x59,
+0x7a,0xf3,0x2a,0x7f,0xef,0xf9,0x94,0xde,0xfc,0xc8,0xe3,0xcd,0x7b,0xf4,0xe6,0x3b,
+0xe6,0x36,0x8f,0xd1,0x9b,0xb7,0x78,0xa2,0xf3,0x14,0xbd,0xf9,0x89,0xfe,0xf9,0x85,
+0xde,0x7c,0xc2,0xdc,0xe6,0x0d,0x7a,0xf3,0x05,0xfd,0xf3,0x00,0xbd,0xf9,0x7f,0xde,
+0x7c,0xbf,0x13,0x9d,0xdf,0xe7,0xcd,0xd3,0xf3,0xe6,0xe7,0xf9,0xe7,0xe5,0x9d,0xec,
+0x3c,0x3c,0x6f,0xfe,0x5d,0x6e,0xf3,0xee,0xfc,0xf3,0xec,0xfc,0xf3,0xe6,0xbc,0x79,
+0x71,0xde,0xfc,0x37,0x6f,0xfe,0x9a,0x37,0x6f,0xcd,0x9b,0xa7,0xe6,0xcd,0x4f,0xf3,
+0xe6,0xa5,0x79,0xf3,0xd1,0xbc,0x79,0x68,0xde,0xfc,0xb2,0x7f,0xda,0xfc,0xb1,0xdf,
+0x7b,0xbe,0x98,0x37,0x3f,0xcc,0x9b,0x0f,0xe6,0x9f,0x07,0xe6,0xcd,0xff,0xf2,0xcf,
+0xe3,0x3a,0xd9,0xf9,0x59,0xb9,0xcd,0xcb,0x3a,0xde,0x7c,0x2a,0x6f,0xfe,0x94,0x37,
+0x4f,0xca,0x9b,0xb7,0xe4,0xcd,0x47,0xf2,0xe6,0x13,0x79,0xf3,0x85,0xbc,0xf9,0x3f,
+0xde,0xbc,0x1f,0x6f,0xde,0x8e,0x37,0x1f,0xe7,0x44,0xe7,0xe1,0x78,0xf3,0x6c,0xbc,
+0xf9,0x35,0xde,0xbc,0x9a,0x5f,0x3b,0x8f,0xe6,0xef,0x3a,0x7f,0x26,0xb7,0x79,0x32,
+0xff,0xf4,0xf9,0x30,0x27,0x3b,0x0f,0xe6,0xf7,0x9a,0xff,0x72,0xbc,0x79,0x2f,0x27,
+0x3a,0xcf,0xe5,0x78,0xf3,0x5b,0xfe,0xaa,0x79,0x2d,0xb9,0xcd,0x67,0xc9,0x6d,0xfe,
+0x8a,0x7f,0xde,0xca,0x9f,0x3d,0x5f,0xc5,0x9b,0xa7,0xe2,0xcd,0x4f,0xf1,0xe6,0xa5,
+0x78,0xf3,0x4e,0xbc,0xf9,0x26,0xb9,0xcd,0x27,0xf1,0xe6,0x8f,0x78,0xf3,0x46,0xbc,
+0x79,0x22,0xde,0xbc,0x10,0x6f,0x9e,0x87,0x37,0xbf,0xc3,0x3f,0xaf,0xc3,0x3f,0x9f,
+0xc3,0x9b,0xa7,0xe1,0xcd,0xcf,0x38,0xde,0x3c,0x0c,0x6f,0xbe,0x85,0x37,0xcf,0xc2,
+0x9b,0x5f,0xe1,0xcd,0xab,0xf0,0xe6,0x53,0x1c,0x6f,0x1e,0x85,0x7f,0xbe,0xc4,0x1f,
+0x35,0x3f,0xe2,0xb7,0xce,0x6f,0xf8,0xa3,0xe6,0x35,0xf8,0xe7,0x2d,0x78,0xf3,0x15,
+0xbc,0x79,0x0a,0x7f,0x97,0xf9,0x09,0xfe,0x79,0x09,0x27,0x3b,0x1f,0xe1,0x64,0xe7,
+0x21,0xe4,0xcd,0x3f,0x38,0xf6,0xfc,0x83,0xdc,0xe6,0x19,0x1c,0x6f,0x5e,0xc1,0x6f,
+0x9d,0x4f,0x70,0xbc,0x79,0x03,0xb9,0xcd,0x17,0x38,0xde,0x3c,0x81,0xdc,0xe6,0x07,
+0x78,0xf3,0x02,0xfc,0xf3,0x01,0xbc,0x71,0x7f,0x6f,0x7c,0xdf,0x1b,0xd7,0xf7,0xc6,
+0xf1,0xbd,0xf1,0x79,0x6f,0x3c,0xde,0x1b,0x6f,0xf7,0x8f,0xb3,0x7b,0xe3,0xeb,0xde,
+0x78,0xba,0x37,0x6e,0x7e,0xbc,0x71,0x71,0x6f,0x7c,0xfb,0x64,0xc7,0xb5,0x4f,0x76,
+0x9c,0xda,0x1b,0x9f,0xf6,0xc6,0x9d,0xbd,0xf1,0xe6,0x13,0x1d,0x57,0xf6,0xc6,0x83,
+0xbd,0x71,0x60,0x6f,0xfc,0xd7,0x1b,0xcf,0xf5,0x8f,0xdf,0xfa,0xc7,0x5f,0xbd,0x71,
+0x57,0x6f,0x1c,0xd5,0x1b,0x3f,0xf5,0xc6,0x43,0xbd,0x71,0x50,0x6f,0x3c,0xd3,0x1b,
+0xbf,0xf4,0x8f,0x3f,0x7a,0xe3,0x8b,0x27,0x3a,0xae,0xe8,0x8d,0x17,0x7a,0xe3,0x84,
+0xfe,0xf1,0x40,0xff,0x38,0x9f,0x37,0xbe,0xe7,0x8d,0xeb,0x79,0xe3,0x78,0xde,0xb8,
+0x9d,0x37,0x3e,0xe7,0x1f,0x87,0xf3,0xc6,0xd5,0xfc,0xe3,0x69,0xde,0x38,0x99,0x37,
+0x3e,0x96,0xdb,0x38,0x97,0x37,0x8e,0x95,0xdb,0xb8,0x95,0x37,0x0e,0x95,0xeb,0xf8,
+0x93,0xc6,0x9d,0xbc,0xf1,0x25,0xff,0xb8,0xd2,0xc9,0x8e,0x0b,0x79,0xe3,0x41,0xb9,
+0x8d,0x03,0xf9,0xc7,0x79,0xbc,0xf1,0x1d,0x6f,0x5c,0xc7,0x1b,0xcf,0xf1,0xc6,0x71,
+0x4e,0x74,0xfc,0xe6,0x78,0xe3,0x36,0xde,0x78,0x4d,0x6e,0xe3,0x33,0x7f,0xb7,0xf1,
+0x98,0xff,0xda,0xb8,0xc9,0xf1,0xc6,0x3f,0xbc,0x71,0x0d,0x6f,0x3c,0xc3,0x1b,0xc7,
+0xf0,0x8f,0x5f,0x78,0xe3,0x16,0xfe,0x71,0x0a,0x6f,0x5c,0xc2,0x1b,0x8f,0xf0,0x8f,
+0x43,0x78,0xe3,0x0f,0xde,0xb8,0x83,0x37,0xde,0xf0,0x6b,0xc7,0x19,0xbc,0xf1,0x05,
+0x6f,0x5c,0x21,0x6f,0x3c,0xc1,0x1d,0x4f,0xf8,0xcd,0xe3,0x08,0x66,0x6d,0x5c,0xc8,
+0x0f,0xde,0x67,0xd8,0x85,0xe0,0x14,0xf7,0x55,0x86,0x59,0x02,0xd2,0xe1,0xf1,0xdc,
+0x31,0x8f,0xc0,0xd1,0x50,0x11,0xaa,0xba,0x8f,0xc3,0xe6,0x51,0xd7,0x89,0x05,0xb3,
+0xa6,0x49,0x2d,0xa8,0xad,0x75,0x4d,0x3a,0x6a,0x3c,0xe2,0x5a,0xb8,0x01,0xc6,0xc0,
+0x4d,0xc0,0xa3,0x9f,0x33,0x05,0x1e,0x83,0xa7,0x34,0x4e,0x61,0x6e,0xe1,0x9f,0x83,
+0xe7,0x61,0x26,0xcc,0x86,0x17,0x34,0x76,0xf1,0x22,0x2c,0xd0,0xf8,0xc5,0x42,0x8d,
+0x61,0x6c,0xd4,0x18,0xc6,0xb7,0x1a,0xc3,0x58,0x40,0x96,0x16,0xc2,0x72,0x58,0x07,
+0xeb,0x35,0x26,0xf1,0x89,0xc6,0x21,0xf6,0x69,0x0d,0x93,0xfe,0xd6,0x38,0x84,0x19,
+0x7f,0xb8,0x5e,0xe3,0x0e,0x37,0x5a,0xeb,0x94,0x8c,0xb5,0xc6,0x1c,0xcc,0x78,0xc3,
+0x37,0x1a,0x6f,0x18,0xad,0xf1,0x86,0x78,0x8d,0x31,0xdc,0x0a,0x77,0xc0,0x38,0xad,
+0x43,0xb2,0x58,0x6b,0x90,0x2c,0xd5,0x3a,0x24,0xaf,0x68,0x1d,0x92,0x15,0xd6,0x1a,
+0x24,0x66,0x1c,0xc2,0x89,0xe0,0x1f,0xe4,0x83,0x28,0x28,0x00,0x05,0xa1,0x10,0x9c,
+0x12,0xe1,0xae,0x4d,0x52,0x4a,0x6b,0x90,0x98,0xf5,0x47,0xae,0x84,0x5e,0xd0,0xc7,
+0x5a,0x7b,0xc4,0xac,0x37,0xf2,0x21,0x7c,0xa4,0x35,0x47,0x3e,0xd1,0x5a,0x23,0x9f,
+0x69,0xad,0x91,0x2f,0xb4,0xc6,0x88,0x19,0xaf,0x28,0x6c,0xad,0x25,0x12,0xa7,0x31,
+0x8a,0xa7,0xac,0x75,0x43,0xf6,0x68,0x7c,0xe2,0x1b,0x6b,0x8d,0x90,0x9f,0x22,0xdd,
+0xb5,0x41,0xbc,0x35,0x41,0xbc,0xb5,0x40,0xbc,0x35,0x40,0xe2,0x34,0x46,0x61,0xd6,
+0xff,0xb8,0x4c,0xe3,0x14,0x66,0x8c,0x62,0xbc,0xd6,0xfc,0x98,0xac,0x35,0x3e,0xb6,
+0x69,0x8d,0x8f,0x30,0x6b,0x3d,0x0f,0x6f,0x1d,0x8f,0x06,0x5a,0xb7,0xc3,0x5b,0xaf,
+0xa3,0xb5,0xc6,0x2b,0xcc,0xda,0x1c,0x97,0x5b,0xeb,0x6f,0x8c,0xd1,0x38,0xc5,0xdd,
+0x1a,0x9f,0xf0,0xc6,0x25,0xbc,0xf5,0x35,0x96,0x69,0x3d,0x8d,0x35,0xd6,0x1a,0x1a,
+0xde,0xda,0x19,0x5b,0xb4,0x66,0x86,0x59,0x2f,0xe3,0x4b,0xf8,0x0a,0xbe,0xb7,0xd6,
+0xca,0x08,0x58,0xeb,0x63,0x14,0xd6,0x38,0x45,0x15,0x8d,0x4f,0x24,0x6b,0x5c,0xc2,
+0x5b,0xff,0xa2,0x81,0xd6,0xbd,0x68,0x6e,0xad,0x75,0xe1,0xad,0x71,0xd1,0x5f,0x63,
+0x15,0x66,0x4d,0x8b,0x21,0x5a,0xd7,0xc2,0x5b,0xcf,0x62,0x9c,0xc6,0x2b,0x9e,0xd1,
+0x38,0xc5,0x5c,0x6b,0xcd,0x8a,0x65,0x5a,0xa3,0xc2,0x5b,0x9b,0x62,0xad,0x35,0x5e,
+0xb1,0x4d,0xeb,0x50,0x1c,0xb0,0xd6,0xa0,0xf0,0xd6,0x9e,0x08,0x69,0xec,0xa2,0x98,
+0xc6,0x2c,0x12,0x34,0x56,0xe1,0xad,0x2d,0x51,0xdf,0x5a,0x47,0x22,0x53,0xeb,0x47,
+0x78,0xeb,0x46,0x78,0xeb,0x45,0x74,0xd2,0x3a,0x11,0xdd,0xad,0x35,0x21,0xc6,0x68,
+0xec,0xe2,0x2e,0x8d,0x59,0x78,0x63,0x15,0x8f,0x6b,0x8c,0xe2,0x79,0xad,0xf5,0xe0,
+0xad,0xf1,0xb0,0x42,0x6b,0x3b,0xac,0xb5,0xd6,0x73,0x30,0x6b,0x39,0x1c,0x84,0x43,
+0x70,0xb8,0xc0,0x91,0xf5,0x1c,0xbc,0x75,0x1c,0x4e,0xd1,0x38,0x46,0x15,0x6b,0xcd,
+0x86,0x7a,0x5a,0xab,0xa1,0xb1,0xd6,0x68,0x68,0xab,0x31,0x8d,0x4b,0x34,0x96,0xd1,
+0x45,0x6b,0x31,0x0c,0x85,0x61,0x70,0x83,0xb5,0x0e,0xc3,0x9d,0x1a,0xcf,0x78,0x46,
+0xe3,0x18,0xde,0x3a,0x0b,0x2b,0xb4,0x7e,0xc2,0x1b,0x5a,0x37,0x21,0x5b,0xe3,0x19,
+0xdb,0xb4,0x4e,0xc2,0x01,0x75,0x72,0xff,0x57,0xd9,0x99,0xc0,0x47,0x59,0x9f,0x79,
+0x7c,0x26,0x99,0x4c,0x26,0x09,0x47,0x94,0xcb,0xa3,0x22,0x0a,0x94,0x9b,0x64,0x09,
+0x97,0x5c,0x89,0x95,0x4b,0x5b,0x36,0xc1,0xae,0x28,0xb2,0x4a,0xf0,0x2c,0x14,0x85,
+0x62,0xd4,0xd6,0x03,0x23,0xc7,0x2a,0x88,0x98,0x76,0x6b,0xfb,0x51,0xb1,0xe0,0xba,
+0x56,0x59,0x05,0x42,0x41,0x17,0x8b,0x42,0x90,0x52,0xf1,0x23,0x47,0x00,0xa9,0xd6,
+0x03,0x82,0x56,0x17,0x39,0x24,0x5c,0xca,0x69,0xf6,0x79,0xe6,0xfd,0x3e,0xcc,0x93,
+0x71,0xa2,0x76,0xe6,0xf3,0x4b,0x86,0xc9,0x90,0x79,0xe7,0xcd,0x3b,0xc3,0xe4,0xff,
+0xe5,0xfb,0x7b,0xd2,0xe0,0x19,0x67,0xd3,0x7f,0x30,0x90,0xbe,0x83,0xa1,0xf4,0x1c,
+0x8c,0x70,0x4c,0xe3,0x06,0x3a,0x0c,0xac,0xb3,0x60,0x26,0x2c,0x63,0x99,0xe3,0x17,
+0xd6,0x4b,0xb0,0xd5,0x75,0x11,0x7c,0x46,0x07,0x41,0xd8,0xf5,0x0e,0x68,0xe7,0x40,
+0x21,0x6c,0x43,0x7b,0x06,0x8a,0xe1,0x1a,0xc6,0x33,0xe6,0x38,0x86,0x61,0x1d,0x02,
+0xcb,0x1d,0xbf,0xb0,0xbe,0x80,0x6a,0xf8,0x85,0xf5,0x03,0x9c,0x47,0x27,0x40,0x6f,
+0x3a,0x01,0xfa,0xd2,0x09,0xd0,0x8f,0x5e,0x80,0xcb,0xe9,0x01,0x30,0xff,0x7f,0x26,
+0xfe,0xff,0xc3,0x78,0xff,0xea,0xfc,0xaf,0xc2,0xf7,0x7f,0x53,0xb2,0x09,0xee,0xd1,
+0xcd,0x39,0xfe,0xe6,0xf6,0xf7,0xc7,0xe9,0x2f,0xc4,0xd9,0xbf,0x16,0x57,0x7f,0x1c,
+0x0e,0xfe,0x9d,0xce,0xbb,0x9f,0x89,0x6f,0x6f,0x9e,0xbd,0x7a,0xf4,0x7f,0x70,0xfc,
+0x43,0xd9,0xc7,0x15,0xb0,0x0d,0x63,0x1a,0xa5,0xb0,0x8c,0x0a,0x18,0xc6,0x0a,0xc7,
+0x2d,0xd6,0xc3,0x2b,0xce,0x86,0x53,0xa8,0xe3,0x5e,0x0a,0xab,0xa8,0x80,0x55,0x28,
+0xa7,0x08,0x35,0x0f,0x38,0x45,0x39,0x7c,0xe2,0x29,0xf8,0x44,0x08,0x6f,0xdd,0x7c,
+0xf5,0x1e,0xce,0x51,0xbf,0x12,0x26,0x71,0x3b,0x4e,0x7a,0x39,0x2e,0xba,0x39,0xe8,
+0xab,0x9c,0x77,0xae,0xce,0xf9,0x3b,0x92,0x0f,0x9c,0x6b,0xae,0x9e,0x79,0xad,0x24,
+0x74,0x4e,0xe0,0x9a,0x37,0x71,0x9e,0x79,0x1b,0x78,0xc5,0x4c,0x38,0xc5,0x42,0xc7,
+0x28,0x42,0x38,0xe3,0x6d,0x71,0xc5,0x3b,0xe1,0x88,0x9b,0x1b,0xae,0x5e,0x78,0x91,
+0x64,0x30,0x6e,0xf8,0x64,0xd8,0x45,0x25,0x0e,0xf8,0x0e,0xd8,0x45,0x2b,0x9c,0x6f,
+0x75,0xbd,0x5b,0x3b,0xb7,0xfb,0x1a,0xe7,0x73,0x9b,0xc7,0x7d,0x33,0xfe,0xf6,0x1d,
+0xce,0xd9,0x56,0x5f,0x7b,0x01,0x9e,0x76,0x0d,0x5e,0x76,0xc4,0x39,0xd8,0xbd,0x9d,
+0x77,0x3d,0xd0,0xb9,0xd6,0xff,0x8a,0x5b,0x5d,0x86,0x5b,0x3d,0x0d,0x87,0xfa,0x8f,
+0xb8,0xd3,0xe6,0x4c,0x2f,0x76,0x5e,0xf4,0x6e,0x7c,0xe8,0xfd,0xce,0x81,0x56,0xff,
+0xf9,0xd4,0xf9,0x81,0xef,0xdc,0x13,0xcf,0xb9,0x3f,0x3c,0xa5,0x02,0x5e,0xa2,0xce,
+0xf2,0x36,0x9c,0x65,0x73,0x95,0x3f,0x77,0x7e,0xb2,0x79,0xc9,0xc7,0x1c,0x3b,0xa9,
+0x82,0x89,0x9c,0x03,0x0b,0x19,0x0e,0x03,0x19,0xed,0xb8,0xc7,0x58,0x78,0x87,0xb2,
+0x8e,0xd7,0xe1,0x1c,0xab,0x61,0x1d,0xca,0x39,0x36,0xc2,0x39,0x94,0x71,0x7c,0x04,
+0xe3,0xd8,0x0f,0xe3,0x50,0xbe,0x71,0x9a,0x37,0x4b,0x39,0x92,0x26,0x92,0xa6,0x92,
+0x5c,0x49,0x47,0x49,0x27,0x49,0x67,0x49,0x17,0x49,0x57,0x49,0x37,0x49,0x77,0x49,
+0x9e,0x24,0x5f,0xd2,0x4b,0x32,0x58,0x32,0x44,0x32,0x56,0x52,0x2a,0xb9,0x45,0x72,
+0xab,0xe4,0x67,0x92,0xf1,0x92,0x09,0x92,0xc9,0xf0,0x93,0x32,0xc9,0x3d,0x92,0xfb,
+0xe0,0x28,0xe5,0x92,0xd9,0x92,0x39,0x30,0x95,0x05,0xb8,0xc7,0x21,0xb8,0x4a,0x3a,
+0x5c,0x25,0x06,0x5b,0x69,0x0e,0x57,0x69,0x09,0x53,0x69,0x0d,0x4f,0x69,0x0f,0x4f,
+0xe9,0x00,0x4f,0xe9,0x04,0x53,0x31,0x96,0xd2,0x0f,0x76,0x52,0x04,0x3b,0xb9,0x02,
+0x6e,0x52,0x02,0x3b,0x99,0x25,0xa9,0x90,0x9c,0x7d,0xb1,0xfc,0x1b,0x25,0x69,0x2e,
+0xe9,0x2d,0x6f,0x1c,0xef,0x95,0x3c,0x2e,0xf9,0x9d,0xa4,0xa8,0x9d,0xdc,0x56,0xf2,
+0xb0,0x64,0x9e,0x64,0x8f,0xe4,0x25,0x79,0x63,0xb9,0x48,0xdf,0x5c,0x76,0x94,0x74,
+0x92,0x7f,0x4b,0x79,0x93,0xf9,0x29,0x8c,0xe5,0x00,0x8c,0xe5,0x38,0x6f,0x3c,0x3b,
+0x38,0xae,0x32,0xc9,0x39,0xc5,0x0b,0x60,0x29,0x95,0x30,0x94,0x2a,0xd8,0x49,0x35,
+0xcc,0xa4,0x86,0x37,0xad,0xe5,0x92,0xa7,0xf4,0xcd,0x6b,0x9e,0x3c,0x5f,0xf3,0x82,
+0x37,0xb1,0x61,0x58,0x4a,0x0c,0x7e,0xd2,0x19,0x5f,0x38,0x1f,0x8e,0xd2,0x1b,0x8e,
+0x32,0x10,0x6e,0xf2,0x04,0xdc,0x44,0x99,0xc9,0x02,0x58,0x89,0x39,0xc0,0x19,0xb0,
+0x91,0x0a,0x49,0x95,0xe4,0x00,0x6c,0xe4,0x82,0x1e,0x72,0x88,0x48,0x4a,0x24,0xa5,
+0x92,0xfb,0x24,0x0f,0x48,0x96,0x4a,0xaa,0x24,0x1b,0x24,0xd5,0x92,0xbb,0x0b,0x64,
+0x9f,0x49,0x76,0x48,0x6a,0x24,0x75,0x05,0x01,0x53,0xa9,0x82,0xa9,0x54,0xc0,0x50,
+0x1a,0xc3,0x4a,0x8a,0xf0,0x7b,0xef,0xc0,0xf1,0x9d,0x0a,0x1b,0xf9,0x03,0x4c,0x44,
+0xfd,0xdd,0x43,0xfa,0xa6,0x1b,0x16,0xa2,0xcc,0x63,0x16,0x7c,0xc3,0xfc,0x5a,0xf3,
+0x6a,0xcd,0xa7,0x6d,0x8f,0x3b,0xdb,0x11,0x77,0x36,0x5f,0xd2,0x17,0x96,0x51,0x86,
+0x43,0xab,0xbe,0xec,0x26,0x3c,0xd9,0x43,0xce,0x85,0x55,0xff,0xb5,0x3b,0xde,0xab,
+0x3a,0xaf,0x63,0x71,0x5d,0xa7,0x3b,0xaf,0xf5,0x15,0x7c,0xd6,0xd7,0xf0,0x58,0x95,
+0x6b,0xec,0x70,0xbe,0x6a,0x08,0x1f,0x35,0x0f,0x0f,0xb5,0x00,0xff,0xb4,0xc8,0x39,
+0xa7,0x3f,0x71,0x9e,0xe9,0xbf,0x3b,0x77,0xb4,0xd2,0x79,0xa2,0x2f,0xe3,0x87,0xbe,
+0x8a,0x17,0x5a,0xe5,0x5c,0xd0,0x0f,0x70,0x3d,0xbf,0x70,0x1e,0x67,0x16,0x7c,0xa2,
+0x0d,0x5c,0x42,0x99,0xc4,0x04,0xd8,0x83,0x39,0x98,0xe6,0x5e,0x9a,0x6b,0xa9,0x1c,
+0xa2,0x12,0xfe,0xa0,0x83,0xa0,0x26,0xc3,0x1c,0x9a,0x39,0x8f,0x52,0x59,0x43,0x27,
+0x58,0x43,0x5f,0xc7,0x17,0x2e,0x83,0x2b,0x94,0x48,0xd6,0xc2,0x16,0x06,0xc1,0x16,
+0x2a,0x60,0x0b,0xeb,0x61,0x0b,0xa7,0x71,0x26,0x73,0x71,0x26,0xf3,0x25,0x25,0x92,
+0x91,0x92,0x2b,0x25,0xff,0x26,0xb9,0x4a,0x32,0x4a,0x32,0x56,0x52,0x2a,0xb9,0x41,
+0x72,0x93,0xe4,0x67,0x92,0xf1,0x92,0x9f,0xe3,0x55,0x2a,0x9b,0xa8,0x93,0x84,0xeb,
+0xe4,0xe7,0x2f,0x89,0x4a,0x72,0x24,0x8d,0x24,0x8d,0x25,0x4d,0xea,0x02,0xdf,0xf2,
+0x3c,0xc9,0xf9,0x38,0x97,0xfd,0x61,0x18,0x63,0x60,0x18,0x6f,0xc0,0x26,0xb6,0xc2,
+0x24,0x6a,0x24,0x1f,0x4b,0x3e,0x95,0xec,0x96,0x1c,0x87,0x51,0x34,0x86,0x4d,0x0c,
+0x80,0x49,0x94,0xc0,0x22,0x74,0x28,0x56,0x58,0x92,0x26,0xc9,0x94,0xf4,0x09,0x07,
+0x6c,0xe2,0x51,0x49,0x85,0x64,0x81,0xa4,0xda,0x39,0x94,0x0b,0xf0,0x26,0x77,0xc1,
+0x2a,0xba,0xc1,0x22,0xee,0x82,0x45,0xcc,0x87,0x41,0x84,0x70,0x1e,0x2b,0x61,0x0d,
+0x21,0x18,0xc3,0x24,0xd8,0xc2,0x1c,0x98,0xc2,0xef,0x61,0x09,0xcb,0x60,0x08,0x55,
+0xb0,0x83,0x22,0x98,0x41,0x39,0xac,0xe0,0x4f,0x30,0x02,0x63,0x03,0x7d,0x1c,0x0f,
+0xb8,0x5a,0xf2,0x3c,0x0c,0x40,0xd7,0xff,0x4f,0x4a,0x2e,0x64,0xed,0xbf,0x90,0x35,
+0xff,0xd7,0x24,0x5b,0xb3,0x02,0xcf,0x30,0x03,0xbf,0x30,0x97,0xf5,0xfe,0x73,0xf1,
+0x09,0xd5,0x23,0x2c,0x92,0x94,0xb0,0xee,0x5f,0x85,0x37,0xb8,0x97,0x75,0xfe,0x4b,
+0x58,0xe7,0xbf,0x46,0xf2,0x4b,0xc9,0x13,0x92,0x85,0xac,0xf1,0x97,0xb3,0xb6,0x7f,
+0x82,0xb5,0xfd,0x76,0x38,0x82,0x45,0xac,0xf1,0xab,0xff,0x77,0x3b,0x6b,0xf9,0x73,
+0x25,0xa5,0x4d,0x82,0xb5,0x7c,0xf5,0xfe,0x16,0xb1,0x9e,0xaf,0x6b,0xf9,0xd5,0x38,
+0x7e,0x21,0xd6,0xec,0xd5,0xe7,0x1b,0xc9,0xba,0xbd,0xba,0x7c,0xff,0xc1,0xda,0x7d,
+0x4d,0xd3,0x84,0xbf,0x97,0x86,0xaf,0x37,0x4c,0x72,0x25,0xce,0x9e,0xb9,0x7a,0x77,
+0x38,0x3f,0x6f,0x1a,0x1e,0xde,0xff,0xe2,0xdf,0xad,0xc4,0xbd,0xdb,0xc8,0xfa,0x7e,
+0x2d,0xde,0x5d,0x3a,0xbe,0x9d,0x79,0x76,0xbd,0x59,0xdf,0x57,0x7f,0xae,0x0c,0x77,
+0x6e,0x1a,0x8e,0xdc,0x6a,0x9c,0xb8,0x8d,0xce,0x83,0xdb,0xc5,0xfa,0x7e,0x33,0x3c,
+0xb7,0x1e,0xce,0x6d,0x53,0xaf,0xad,0xaf,0x73,0xda,0xcc,0x65,0xb3,0xb5,0xfe,0xc7,
+0x58,0xe3,0xaf,0x74,0xbe,0xda,0x27,0x78,0x6a,0x21,0xfc,0xb4,0x0c,0xd6,0xfb,0x9b,
+0xb1,0xce,0xdf,0x83,0xf5,0xfd,0xfe,0xac,0xed,0x9b,0x6f,0x36,0x0c,0xcf,0xac,0xc4,
+0xb9,0x65,0xb7,0xe0,0x92,0x95,0xbb,0x75,0xfe,0x0a,0xd6,0xf6,0x57,0x3a,0x47,0xec,
+0x4d,0xdc,0xb0,0x4d,0xce,0x07,0xdb,0xe2,0x1c,0xb0,0x77,0x71,0xc0,0x42,0x38,0x5f,
+0x45,0xb8,0x5e,0x43,0x9c,0xdf,0x75,0x9d,0x73,0xba,0xca,0x71,0xb8,0x5e,0x75,0xde,
+0xd6,0x6a,0xe7,0x6a,0xfd,0x05,0x37,0xab,0x1c,0x17,0x6b,0x05,0x0e,0x96,0xb9,0x57,
+0x6b,0x70,0xae,0x42,0x38,0x56,0xfd,0x9d,0x57,0xa5,0x4e,0xd5,0xa5,0xb8,0x54,0xa5,
+0x30,0x84,0x17,0x9d,0x3f,0xb5,0x18,0x6f,0xea,0x15,0xe7,0x4a,0x55,0xe1,0x48,0x85,
+0x9c,0x17,0x65,0x3e,0xd4,0xc5,0xce,0x81,0xca,0x87,0x39,0xe4,0x39,0xbf,0xa9,0x3f,
+0xfc,0x41,0xd9,0x83,0x31,0x87,0x16,0xb0,0x86,0x3e,0x38,0x4b,0x03,0x9d,0xa7,0xa4,
+0x1e,0xd2,0x60,0x5c,0xa4,0x05,0x30,0x87,0x77,0x70,0x8e,0x3e,0x74,0x9e,0x91,0xf9,
+0x44,0x99,0x92,0x2c,0xd8,0x43,0x01,0x1e,0x91,0xfa,0x43,0x85,0xce,0x1d,0x1a,0x89,
+0x33,0x34,0x1a,0x16,0x31,0xdb,0xf9,0x41,0x4f,0xc2,0x23,0x42,0xce,0x09,0xba,0xc1,
+0x79,0x40,0xe6,0xff,0xd4,0xc2,0x29,0xb2,0xf1,0x7c,0xfa,0xe2,0xf6,0xa8,0xcb,0x33,
+0x19,0x87,0xc7,0xdc,0x1d,0x73,0x76,0xcc,0xd5,0x09,0xc1,0x2e,0x72,0x70,0x73,0xcc,
+0xc9,0x29,0x74,0x1e,0x4e,0x09,0x1c,0xe3,0x56,0xf8,0x45,0x05,0x9e,0xcd,0xe3,0xce,
+0xad,0x31,0xa7,0xa6,0x12,0x77,0xa6,0x06,0x67,0xe6,0x28,0xae,0x4c,0x1a,0xec,0xa2,
+0x37,0x0e,0x4c,0x91,0xf3,0x5e,0x2e,0x73,0xae,0x4b,0x95,0x64,0xbb,0xe4,0x23,0xc9,
+0x2e,0x49,0xdd,0x85,0x01,0xdb,0x98,0x0c,0xdb,0xa8,0x80,0x69,0x98,0xe3,0x32,0x0c,
+0xa6,0x11,0x1f,0x22,0x87,0xcf,0xd2,0x19,0x8f,0x25,0x1f,0xae,0x51,0x84,0xb7,0x72,
+0x3b,0xbe,0x4a,0x35,0x9e,0xca,0x51,0xb8,0x86,0x3a,0x2a,0x7d,0x70,0x53,0xc6,0xc0,
+0x36,0xee,0x87,0x69,0x14,0xc1,0x2e,0x56,0xc2,0x2c,0xcc,0x31,0x79,0x0c,0x66,0xa1,
+0xbc,0xe2,0x63,0xe7,0x92,0xd4,0xc2,0x28,0x94,0x4f,0x94,0xc3,0x25,0x8e,0xc2,0x23,
+0x94,0x45,0x18,0x83,0x30,0xf6,0xa0,0xdc,0x21,0x04,0x6f,0x28,0x87,0x33,0xcc,0xc3,
+0xfb,0x98,0x2f,0x59,0xa0,0xcc,0x61,0x43,0x38,0xf4,0xb7,0x0d,0x81,0x03,0x72,0x42,
+0x1d,0x90,0x8d,0xf2,0xdc,0xdb,0x24,0xf7,0xbd,0x29,0xf0,0x41,0xd4,0x05,0x29,0xd1,
+0x21,0xae,0x3a,0x00,0x70,0x4b,0x38,0xd4,0x09,0x1f,0x64,0x82,0xe4,0x0e,0x5c,0x90,
+0xe9,0xb8,0x20,0x73,0x70,0x41,0x16,0x4b,0x3e,0xd7,0xc1,0xa5,0x5b,0x03,0x27,0x64,
+0x88,0xa4,0x4a,0x52,0xa3,0x6e,0xc8,0x36,0xd9,0x5f,0xdb,0x02,0xd6,0x31,0x0a,0xc6,
+0x61,0x6c,0x63,0x21,0x4c,0xc3,0x58,0x86,0x72,0x8c,0x4c,0xf8,0x45,0x4b,0xb8,0x45,
+0x7f,0x78,0x85,0x71,0x0a,0x65,0x14,0xca,0x27,0xd6,0xc0,0x27,0x3e,0x80,0x4f,0x9c,
+0x84,0x4f,0xb4,0x80,0x4f,0xf4,0x82,0x4f,0x14,0xc3,0x27,0x26,0xc1,0x27,0x66,0xc1,
+0x27,0x16,0xc2,0x27,0xd6,0xc2,0x27,0xd4,0xe9,0x88,0x0f,0xe5,0x7a,0x5f,0x7e,0x7e,
+0x38,0x1d,0xb7,0xe1,0x73,0xdc,0x85,0xcf,0x31,0x13,0xa7,0xe3,0x19,0x5c,0x8e,0xf6,
+0x38,0x1b,0x31,0x5c,0x8d,0xb6,0x38,0x1a,0xf9,0xce,0xcb,0xc8,0x87,0x63,0x14,0x39,
+0x86,0x61,0xee,0xc5,0x3e,0x9c,0x8b,0x3a,0x58,0xc6,0x3e,0x1c,0x8b,0x6a,0xdc,0x0a,
+0x65,0x18,0x75,0x70,0x8c,0x1a,0xe7,0x50,0x98,0x3b,0xf1,0x05,0x0c,0xc3,0x5c,0x89,
+0x1a,0x98,0xc5,0x7e,0x58,0x85,0x72,0x8a,0x37,0xf1,0x21,0x42,0x78,0x10,0xe6,0x3f,
+0x5c,0x2f,0xf9,0xc5,0x3e,0x79,0x6d,0xd9,0x1f,0x70,0x8b,0x0c,0x78,0x45,0x3b,0xc7,
+0x28,0x7a,0x3a,0x2e,0xf1,0x23,0xc7,0x22,0x8c,0x41,0x8c,0x74,0xdc,0x61,0xb4,0x63,
+0x0d,0xc6,0x18,0x8c,0x2d,0x4c,0x84,0x29,0xfc,0xca,0x71,0x84,0x47,0xe0,0x07,0xcf,
+0xc1,0x0d,0x6a,0x95,0x1b,0xd4,0xca,0xfe,0x92,0x2c,0x90,0x2c,0x95,0xac,0x91,0x6c,
+0xd1,0x81,0x92,0x07,0xe5,0x35,0x45,0x92,0x2b,0xc9,0x93,0xe4,0x4b,0x26,0x48,0x26,
+0x4b,0x16,0x49,0x3e,0xd3,0xaf,0x1d,0x92,0x7d,0x2c,0x29,0x91,0x94,0x4a,0x42,0x87,
+0xe5,0xb8,0xf8,0x52,0xbe,0xaf,0x24,0xf4,0x95,0xec,0x1b,0x49,0xad,0x44,0x07,0xff,
+0xe6,0x4a,0x4a,0x24,0xa5,0x92,0x0a,0x49,0xa5,0xa4,0x4a,0x52,0xad,0x43,0x81,0x8f,
+0xcb,0xf5,0x27,0xe4,0x7b,0x4b,0xca,0x25,0x73,0x25,0xeb,0x25,0x1b,0x25,0x3b,0x25,
+0x07,0x74,0x50,0xde,0x49,0x79,0x9f,0x76,0x32,0xf0,0x26,0x4e,0xe0,0x4d,0x28,0xeb,
+0x50,0xce,0xa1,0x8c,0x43,0xf9,0x86,0xb2,0x0d,0x5d,0xe4,0x57,0xa6,0x11,0x0e,0x35,
+0x91,0x5f,0xc1,0x9b,0x04,0x0b,0x6e,0xa1,0x60,0x01,0x2b,0xd6,0x00,0xe3,0x38,0x3f,
+0x58,0x12,0x38,0xc3,0x38,0x74,0x1c,0x77,0x7b,0x49,0xe7,0x24,0xc6,0x91,0x47,0x67,
+0xbb,0x32,0x8e,0x22,0x7c,0x8b,0x52,0x7c,0x8b,0xa9,0x92,0x19,0x30,0x8e,0xf9,0x8e,
+0x71,0x3c,0x17,0xfc,0x1a,0x14,0x67,0x1c,0x2f,0xc1,0x38,0x96,0x48,0x96,0x4a,0x96,
+0x39,0xc6,0xb1,0xc2,0x31,0x8e,0xd5,0x38,0x1a,0xef,0xe2,0x68,0x28,0xe3,0x90,0x87,
+0x19,0xfa,0x33,0xce,0xc5,0x66,0x9c,0x8b,0x9d,0x38,0x17,0xfb,0x61,0x1c,0x75,0x69,
+0x41,0x47,0xbb,0xfa,0x16,0x77,0xe2,0x59,0xdc,0xef,0x18,0xc7,0x4c,0xc7,0x38,0xcc,
+0xad,0x78,0x06,0x9f,0x42,0x19,0xc7,0xb4,0x88,0xfc,0x2e,0x88,0x4f,0xa1,0x2e,0xc5,
+0x2c,0x18,0xc7,0x5c,0x18,0xc7,0xeb,0x49,0x8c,0xe3,0x0d,0x18,0xc7,0x3a,0xc7,0x38,
+0xd4,0xb5,0x38,0x22,0xc9,0x88,0xca,0xef,0x90,0x30,0x8e,0xec,0x24,0xc6,0xd1,0x94,
+0xee,0xf5,0x2b,0xe8,0x58,0x1f,0x0f,0xe3,0x98,0xe8,0x3a,0xd6,0xb7,0xd3,0xa7,0x6e,
+0x8c,0xe3,0x1f,0x78,0x18,0xbb,0x61,0x1c,0xfb,0xf1,0x31,0xb4,0x43,0xbd,0xb1,0xeb,
+0x4c,0xcf,0xa3,0x27,0xfd,0x39,0xd7,0x8f,0xbe,0x87,0x2e,0x74,0xf5,0x2f,0x8e,0x3b,
+0xc6,0xd1,0xc2,0x75,0x9f,0x5b,0xe7,0xb9,0x75,0x9d,0x6b,0xc7,0xf9,0x20,0x1c,0x8c,
+0x31,0x30,0x8e,0x09,0xb8,0x17,0xbf,0xa6,0xd3,0xfc,0x2d,0x3a,0xcc,0x3f,0xa6,0xc3,
+0xfc,0x92,0x24,0xc6,0x51,0x44,0x37,0xb9,0xf5,0x92,0x97,0xd0,0x41,0x3e,0x8e,0xee,
+0x71,0xeb,0x19,0x9f,0x8e,0x8b,0x51,0x81,0x83,0x61,0xfe,0x85,0xf5,0x88,0x57,0xd1,
+0x19,0xbe,0xde,0x75,0x85,0x1b,0xe3,0xf8,0x08,0xff,0xe2,0x13,0xfc,0x8b,0xc3,0x92,
+0x13,0x30,0x8e,0xd3,0x30,0x0e,0xeb,0x01,0xcf,0xc6,0xc5,0xe8,0x88,0x83,0x51,0x80,
+0x7b,0x61,0x3d,0xdf,0x45,0x74,0x7b,0x0f,0x77,0x9d,0xde,0xe6,0x62,0x4c,0xa2,0xbf,
+0xbb,0xcc,0x31,0x0e,0xeb,0xed,0x7e,0x14,0x27,0xe3,0x05,0x5c,0x8c,0x65,0xae,0x9b,
+0xbb,0x8a,0x1e,0x6e,0xeb,0xe0,0xde,0xe0,0x18,0xc7,0x2e,0xba,0xb6,0x6b,0x1d,0xe3,
+0xb0,0x8e,0xed,0x74,0xfc,0x8c,0x5c,0xbc,0x8c,0x7c,0x7c,0x0c,0xeb,0xd0,0x1e,0xe4,
+0x18,0xc7,0x60,0x3a,0xb2,0xad,0x1f,0xdb,0x7a,0xb1,0xaf,0xc3,0xd1,0xd0,0x1e,0xec,
+0xbb,0x1d,0xe3,0x98,0x8d,0x9b,0xf1,0xb8,0x73,0x32,0xe6,0xe3,0x61,0xfc,0x0f,0xfe,
+0x85,0x75,0x59,0xbf,0x41,0x7f,0xf5,0x86,0x24,0xc6,0x71,0x48,0x72,0x2c,0x89,0x71,
+0x58,0x5f,0x75,0x23,0x5c,0x8d,0x8e,0xae,0x9b,0x7a,0x20,0x7d,0xd4,0x83,0xe9,0xa1,
+0x1e,0x41,0xff,0xf4,0xb5,0xf8,0x1a,0xe3,0xe8,0x9b,0x9e,0x04,0xe3,0x98,0xea,0xfa,
+0xa6,0xe7,0xe0,0x6c,0xbc,0x80,0xab,0x61,0x7d,0xd2,0x7f,0xa1,0x23,0xfa,0x6d,0xba,
+0xa1,0xff,0x86,0xb3,0xb1,0x8b,0x2e,0xe8,0x03,0x74,0x3f,0x87,0x71,0x36,0x72,0x71,
+0x35,0x06,0xd0,0xe9,0x3c,0x98,0x2e,0x67,0xeb,0x71,0x2e,0xc6,0xd5,0xb8,0xd1,0x75,
+0x33,0x4f,0xc7,0xd7,0x58,0xea,0x3c,0x0d,0xeb,0x5f,0xde,0xe2,0x3a,0x97,0x77,0xd2,
+0xb3,0x7c,0xa4,0x71,0xa2,0x5f,0xb9,0x80,0x4e,0xe5,0x42,0x9c,0x0d,0xed,0x51,0x1e,
+0xe3,0xbc,0x8d,0xd9,0xce,0xd5,0xb0,0xae,0xe4,0x65,0xae,0x1f,0xd9,0xfc,0x8c,0x4d,
+0x74,0x21,0xab,0x9f,0xd1,0x8a,0xfe,0xe3,0x9e,0x0d,0x30,0x8e,0x81,0x78,0x1b,0x13,
+0x5d,0xcf,0xf1,0x0c,0x18,0xc7,0x43,0x38,0x1c,0xbf,0xa7,0xd3,0x78,0x1d,0x8c,0x63,
+0x83,0xe4,0xfd,0xa6,0x41,0x9f,0xb1,0x75,0x19,0x5b,0x87,0x71,0x3f,0x7a,0x8b,0x07,
+0xd1,0x4b,0x3c,0x1a,0xcf,0xa3,0x14,0xaf,0xa3,0xcc,0xf5,0x0b,0xcf,0xa0,0x53,0xd8,
+0xfa,0x84,0xad,0x2f,0x78,0x9d,0x63,0x1c,0xc3,0xf1,0x37,0xcc,0xdd,0xb8,0x0e,0x5f,
+0xe3,0x51,0x3c,0x8d,0x97,0x9d,0x9f,0xb1,0x0e,0x27,0x23,0x17,0x17,0xe3,0x5a,0x3a,
+0x7c,0xef,0xc3,0xc5,0x78,0x02,0x17,0xe3,0x34,0x8c,0x43,0xfd,0x8b,0x72,0xfc,0x8b,
+0x79,0xf8,0x16,0x67,0xb9,0x5e,0xde,0x7f,0xa1,0x8b,0xb7,0x37,0xce,0xc5,0x4f,0x71,
+0x2e,0x26,0xd3,0xb9,0xbb,0xcc,0x75,0xed,0xbe,0xee,0xfa,0x75,0xd7,0xd3,0xa9,0xfb,
+0x7e,0x12,0xe3,0xd0,0x1e,0xdd,0xe3,0x92,0x6c,0xba,0x74,0x8d,0x71,0x9c,0x8b,0x93,
+0x31,0x03,0x17,0xe3,0x05,0xc7,0x38,0xd4,0xc1,0x68,0x4d,0x27,0xee,0x0f,0xe9,0xc2,
+0xed,0xe2,0x3a,0x70,0xfb,0xd2,0x7b,0xab,0x8c,0x63,0x08,0x8e,0x46,0x19,0x6e,0xc6,
+0x5b,0x74,0xdb,0xd6,0x9d,0x1b,0xb8,0x19,0xe7,0xb8,0x4e,0xdb,0xab,0x1c,0xe3,0xb8,
+0x3e,0x89,0x71,0xdc,0x44,0x47,0xed,0x14,0xd7,0x4d,0x3b,0x8b,0x3e,0xda,0x45,0xf4,
+0xcf,0x6a,0xf7,0x6c,0xba,0xeb,0x9a,0xed,0xe5,0xfa,0x65,0x07,0xb8,0x4e,0x59,0x75,
+0x3e,0x26,0xd0,0x1d,0xfb,0x00,0xdd,0xb1,0xcf,0xd0,0x11,0xfb,0xbc,0xeb,0x86,0x5d,
+0xe4,0xfa,0x5f,0xff,0x8f,0xce,0xd7,0x7d,0x8e,0x71,0x1c,0xa4,0xdf,0xb5,0x0b,0x7d,
+0xae,0xbd,0xe8,0x71,0xbd,0x1c,0x2f,0x44,0x9d,0x90,0x37,0xe9,0x64,0xdd,0xe6,0x3a,
+0x59,0x77,0xbb,0x1e,0x56,0xeb,0x5f,0xfd,0xca,0x75,0xad,0xae,0xa6,0x37,0xb5,0x05,
+0xbe,0xc7,0x10,0x3c,0x8f,0xab,0x93,0x18,0xc7,0xfd,0xf8,0x1c,0xaf,0x39,0xc6,0xb1,
+0x06,0x97,0x43,0x3d,0x8e,0xcd,0x78,0x1c,0xea,0x70,0xec,0xc4,0xe1,0x38,0x80,0xc3,
+0xa1,0xfe,0xc6,0xd7,0x92,0x6c,0x3a,0x50,0x8d,0x71,0x74,0xf8,0x1e,0x8c,0xa3,0xa7,
+0xe4,0x32,0x18,0xc7,0xf5,0x30,0x8e,0x9b,0x52,0x30,0x8e,0x49,0x8e,0x71,0xfc,0x4a,
+0x72,0xaf,0x64,0x2a,0x8c,0x63,0x96,0xe4,0x11,0xc9,0x5c,0x9c,0x91,0x35,0x74,0xa9,
+0x86,0x61,0x1c,0x51,0x18,0x47,0x16,0xee,0x48,0x73,0xe7,0x8e,0xa8,0x33,0xd2,0xf6,
+0x5b,0x18,0x87,0x39,0x23,0xea,0x86,0xf4,0xc7,0x0d,0x19,0x8c,0x1b,0x32,0x42,0x52,
+0x2c,0x19,0x8b,0x0b,0xf2,0x88,0xe4,0xac,0x8b,0x13,0x8c,0xa3,0x57,0x5b,0x79,0x2f,
+0x28,0xf9,0x2d,0x8c,0xa3,0x53,0x3b,0x79,0x2f,0x22,0x79,0x48,0xf2,0x94,0xe4,0x73,
+0xc9,0x8b,0x3f,0x0c,0x18,0x47,0x5d,0x07,0x49,0x47,0x39,0x8e,0xe4,0x0d,0x66,0x5d,
+0x97,0xc0,0x21,0xd9,0x83,0x43,0x72,0x10,0x87,0xa4,0xae,0x6b,0xc2,0x21,0xe9,0x86,
+0x37,0x32,0x19,0xc6,0xf1,0x3b,0x7c,0x91,0xc5,0x78,0x22,0xab,0xf0,0x43,0x36,0xe1,
+0x85,0xec,0xa0,0x0f,0xf5,0xba,0xee,0x72,0x9c,0x4b,0x0e,0x4b,0xb6,0xcb,0x1b,0xd8,
+0x3a,0x18,0x47,0x04,0x3f,0xa4,0x0d,0x7e,0x48,0x37,0xfa,0x50,0xf3,0xf1,0x44,0xfa,
+0xe0,0x85,0x14,0xe2,0x85,0x3c,0x89,0x17,0x32,0x1f,0xc6,0x61,0x5d,0xa7,0xea,0x80,
+0xe4,0xe1,0x7e,0xa8,0xf7,0xf1,0x29,0x8c,0xe3,0x07,0x3d,0xe4,0x79,0x2e,0x29,0x96,
+0x8c,0x95,0xdc,0x2b,0x99,0x2a,0xa9,0x94,0xac,0x96,0xbc,0x2d,0xd9,0x2c,0xb9,0xab,
+0x40,0xf6,0x99,0xe4,0x23,0xc9,0x4e,0xc9,0xd7,0x30,0x0e,0x75,0x46,0xea,0x46,0x04,
+0x8e,0xc8,0x5f,0xff,0x3b,0x70,0x41,0x9a,0xe2,0x80,0xa8,0xf7,0x31,0x05,0xc6,0x61,
+0x1d,0xa6,0x4f,0xd3,0x57,0x7a,0x80,0x7e,0xd2,0xaf,0x24,0x17,0x39,0xb7,0xe3,0x43,
+0xd7,0x23,0x6a,0xfd,0xa1,0xd6,0x1b,0xda,0xce,0x75,0x84,0x76,0x81,0x71,0xf4,0x91,
+0x5c,0x82,0xab,0x71,0x37,0x9d,0xa0,0xeb,0xe8,0x02,0x3d,0xe8,0x3a,0x3f,0xdb,0xd3,
+0xef,0x39,0x94,0x5e,0xcf,0x9f,0xe2,0x69,0x4c,0x73,0xfd,0x9d,0x2f,0xd3,0xd9,0xb9,
+0x92,0xae,0xce,0x8d,0x74,0x73,0x5a,0x2f,0xa7,0x7a,0x1a,0x1d,0xe9,0xdb,0xcc,0xa7,
+0x67,0xb3,0x27,0xfd,0x9a,0xd6,0xad,0xf9,0x63,0xc7,0x38,0x46,0xbb,0x8e,0xcc,0x25,
+0x8e,0x71,0x2c,0xc7,0xd1,0x58,0x81,0xa3,0xb1,0x3a,0x89,0x71,0xec,0xa5,0xcb,0xd2,
+0xfa,0x2a,0xa3,0x38,0x18,0x2d,0x71,0x2f,0xba,0xe3,0x56,0xfc,0xdc,0x75,0x4d,0x5a,
+0xc7,0xa4,0x75,0x4a,0x6a,0x97,0xe4,0xb3,0x38,0x16,0xea,0x57,0xdc,0x86,0x57,0x11,
+0x75,0x3e,0x45,0x6b,0x5c,0x8a,0x4e,0xb8,0x14,0xe6,0x51,0x5c,0x8a,0x3b,0x51,0x2c,
+0x79,0x43,0xb2,0x15,0x77,0xa2,0x18,0x77,0xe2,0xd7,0xb8,0x13,0x9b,0x25,0xa7,0x24,
+0x75,0xa7,0x83,0x4e,0xc8,0x73,0xe9,0x84,0x2c,0x6e,0x80,0x71,0x5c,0x0f,0xe3,0x18,
+0x27,0xb9,0x51,0x72,0x0b,0x8c,0x63,0x02,0x8c,0xa3,0x0c,0xf7,0x42,0x19,0x47,0x5a,
+0x9d,0xfc,0xfc,0x25,0xd9,0x49,0x8c,0xa3,0x29,0x7d,0x92,0xca,0x38,0xda,0xe0,0x68,
+0x14,0xb9,0x2e,0xc9,0x55,0xf8,0x17,0x9b,0xf1,0x2e,0xd4,0xb9,0xd8,0x25,0xf9,0x87,
+0xe4,0x33,0xc9,0x17,0x92,0xd3,0xfa,0x3d,0xf1,0x2f,0xfa,0xe1,0x5d,0x8c,0xc0,0xb7,
+0x38,0x91,0xc4,0x38,0x0a,0x24,0x85,0x92,0x39,0x92,0xb9,0x92,0x79,0x30,0x8e,0x53,
+0x30,0x8e,0x79,0xae,0x1f,0xf2,0xa4,0xa4,0x2d,0xbe,0xc5,0x9d,0xf4,0x3e,0x3e,0x8d,
+0x67,0xa1,0x6e,0xc5,0xd3,0x74,0x3a,0x6e,0xc3,0xa5,0xe8,0x80,0x43,0x71,0x0f,0xee,
+0xc4,0x6f,0x70,0x26,0x9e,0xc1,0x95,0x78,0x15,0x47,0x42,0xfd,0x88,0xde,0x78,0x11,
+0xb7,0xe2,0x43,0x54,0xe2,0x41,0x98,0x03,0xd1,0xcb,0x79,0x0f,0x57,0xe1,0x38,0x2c,
+0xc1,0x71,0x50,0xbf,0xe1,0xfc,0xac,0x80,0x71,0x5c,0x82,0xd7,0xa0,0x4e,0xc3,0x66,
+0x7c,0x86,0x74,0x3a,0x14,0x9b,0xe2,0x34,0xb4,0xc2,0x65,0xb0,0xbe,0xc4,0xe1,0x92,
+0x6b,0x24,0xf3,0x71,0x18,0xb4,0x17,0xf1,0xcb,0xec,0xc0,0x63,0x28,0xc4,0x63,0x98,
+0x82,0xbf,0x30,0x4f,0xb2,0x24,0x27,0x70,0x18,0xfe,0x84,0xbb,0x50,0xd7,0x28,0x70,
+0x17,0x3a,0xd0,0x81,0x78,0x39,0xae,0xc2,0x6d,0x30,0x0e,0xf5,0x14,0x1e,0x93,0x4c,
+0xc5,0x55,0x78,0x09,0xc6,0xb1,0x14,0x37,0xe1,0x3d,0x3a,0x0c,0x3b,0xe0,0x24,0x68,
+0x5f,0xe1,0x68,0xbc,0x04,0xed,0x2a,0x9c,0x25,0x79,0xdb,0xf5,0x14,0x86,0x71,0x13,
+0xb4,0x8f,0x70,0x84,0xe4,0x66,0xd7,0x49,0x38,0xc5,0xf5,0x10,0x3e,0x48,0xd7,0xe0,
+0x2b,0x74,0x0c,0x6a,0xbf,0xe0,0x1a,0xc7,0x38,0x76,0xd3,0x2d,0x98,0x86,0xc3,0x60,
+0x7d,0x82,0x3d,0x71,0x18,0xa6,0xb8,0x8e,0xc0,0x07,0xe9,0x01,0xd4,0x0e,0xc0,0xf5,
+0xae,0xf3,0x4f,0x19,0xc7,0x4e,0xc9,0x91,0xb3,0x02,0x7f,0xa1,0x3b,0x3d,0x7e,0x05,
+0x8e,0x71,0x68,0x6f,0xdf,0x40,0x18,0x87,0x75,0xf6,0x99,0xd3,0xf0,0x28,0x1e,0xc3,
+0x42,0xd7,0xcb,0xf7,0x31,0x5d,0x7c,0xda,0xc3,0x17,0xa6,0x7f,0xaf,0x11,0x3e,0x43,
+0x47,0x3c,0x86,0x02,0xfc,0x85,0x01,0xae,0x57,0x6f,0x30,0x5d,0x7a,0x23,0x1c,0xe3,
+0xb8,0x91,0xbe,0xbc,0x32,0xe7,0x33,0xcc,0xc5,0x61,0xf8,0xb3,0xeb,0xc2,0x5b,0x47,
+0xff,0xdd,0xc6,0x06,0x18,0xc7,0x76,0xc9,0x7b,0x74,0xdc,0xf5,0xa1,0xd3,0xee,0x52,
+0xd7,0x65,0xa7,0x8c,0x63,0x8c,0x63,0x1c,0xe3,0xe8,0xa9,0x5b,0xe1,0x18,0xc7,0x2a,
+0xd7,0x49,0xb7,0x16,0xff,0x41,0xbb,0xe7,0x96,0xd2,0x35,0xb7,0xd2,0x75,0xcc,0x55,
+0xe1,0x43,0x68,0xa7,0x5c,0x0f,0x3a,0xe4,0x06,0x38,0xc6,0x61,0x9d,0x71,0xda,0x15,
+0x37,0xd1,0x75,0xc5,0x19,0xe3,0x58,0xe2,0x7a,0xe1,0x94,0x71,0xbc,0x4a,0x0f,0x9c,
+0x76,0xc0,0x9d,0x97,0xc4,0x38,0x2e,0x72,0x5d,0x6f,0x5d,0xf0,0x2a,0xba,0xbb,0x1e,
+0xb7,0x7e,0x30,0x8e,0x43,0xce,0xad,0x68,0x86,0x4f,0xd1,0x8b,0x5e,0xb6,0x01,0x8e,
+0x71,0x58,0xdf,0xda,0x50,0xba,0xd6,0x9e,0xa7,0x5b,0xed,0x5d,0x3a,0xd5,0xac,0x4f,
+0xcd,0x7a,0xd3,0xa2,0x92,0x18,0xbd,0x69,0x3d,0xe8,0x4b,0xeb,0x47,0x3f,0xda,0x50,
+0xc7,0x38,0x46,0xd1,0x89,0x36,0x06,0xd7,0xc2,0x7a,0xd0,0xb4,0xff,0xec,0xbf,0xf0,
+0x2d,0xb2,0x1c,0xe3,0xb8,0x29,0x89,0x71,0xec,0xa2,0xdb,0x2c,0x46,0x97,0x59,0x6f,
+0x3a,0xcc,0x86,0x48,0x26,0xe2,0x61,0x58,0x47,0x99,0x75,0x93,0x59,0x27,0x99,0x76,
+0x91,0x45,0x71,0x33,0xf2,0x5d,0xf7,0xd8,0x40,0xd7,0x37,0x36,0x8c,0x8e,0xb1,0x9b,
+0x71,0x34,0xe6,0xd2,0x25,0xf6,0xdb,0x14,0x8c,0x63,0x21,0x7e,0x86,0x76,0x83,0x1d,
+0xa2,0x13,0xec,0x58,0xeb,0xa0,0x0b,0x2c,0x97,0xae,0xaf,0x7e,0xae,0xe3,0xcb,0x18,
+0xc7,0x68,0xc7,0x38,0xde,0x91,0x7c,0x28,0xa9,0x91,0x1c,0xbc,0x30,0xf0,0x37,0xd4,
+0xdd,0x28,0xc3,0xdd,0x38,0x94,0x27,0x7f,0x9f,0x1e,0xaf,0xa1,0xf4,0x77,0xa9,0xb3,
+0xa1,0xbe,0xc6,0x05,0xf4,0x75,0x75,0xa5,0xa7,0x4b,0x3b,0xba,0xfa,0xe2,0x6c,0x8c,
+0xc7,0xd9,0x78,0x0b,0x67,0xe3,0x08,0x8c,0x23,0x8f,0x0e,0xae,0x21,0x74,0x6f,0x8d,
+0xc3,0xdd,0x50,0x6f,0x43,0xbb,0xb5,0x9e,0xc4,0xcd,0x50,0x2f,0xc3,0xba,0xb4,0x1e,
+0xa2,0x37,0x6b,0x3e,0x3e,0x86,0x67,0x1c,0xea,0x61,0x6c,0xc7,0xbf,0x50,0xf7,0xe2,
+0x30,0xce,0x85,0xfa,0x16,0xe6,0x5a,0x98,0x63,0x71,0x2b,0x5e,0xc5,0x04,0x7c,0x8a,
+0x87,0xf1,0x28,0xe6,0xd1,0x6b,0xa5,0x8c,0xe3,0x59,0xc9,0xf6,0x0d,0xe1,0xd0,0x01,
+0x3a,0xae,0x4e,0x49,0x96,0x6d,0x92,0xe7,0xb1,0xa4,0x76,0x53,0xd0,0x77,0xa5,0x5d,
+0x57,0x6b,0x25,0x47,0xab,0xe5,0x78,0xa7,0xf3,0x6a,0x3c,0x5d,0x57,0xf7,0xd0,0x75,
+0x35,0x83,0xae,0xab,0x85,0x74,0x5d,0xed,0x96,0xec,0x91,0x5c,0x4a,0xe7,0x95,0x32,
+0x8e,0x6d,0x92,0xc3,0x92,0x51,0xdb,0xc2,0xa1,0x5f,0x6e,0x0b,0x5c,0x8e,0x79,0xce,
+0xe1,0xf8,0x23,0xde,0x86,0x39,0x1b,0x6b,0xf1,0x34,0xb2,0xf1,0x33,0x7e,0x80,0x97,
+0x31,0xc8,0xf9,0x18,0x25,0x38,0x18,0x55,0x30,0x8e,0xf7,0x61,0x1c,0x27,0x60,0x1c,
+0xea,0x5f,0xb4,0xc0,0xbf,0xe8,0x85,0x7f,0x51,0x8c,0x7f,0x31,0x09,0xff,0x62,0x16,
+0xfe,0xc5,0x42,0xfc,0x8b,0xb5,0xf8,0x17,0xda,0x59,0x55,0xf7,0xf7,0xa0,0xb3,0xaa,
+0x1f,0x9d,0x55,0x65,0x30,0x8e,0xe9,0x30,0x8e,0x47,0xe8,0xac,0xd2,0xbe,0xaa,0xd6,
+0x78,0x19,0x51,0xfa,0xa8,0x2e,0xa2,0x87,0xaa,0xb3,0xeb,0x9f,0xea,0x4a,0xe7,0xd4,
+0x40,0xba,0xa6,0x8a,0x77,0x25,0x3a,0xa6,0xf6,0xd2,0x2b,0x75,0x1c,0xc6,0xb1,0x97,
+0x1e,0x29,0xed,0x90,0xda,0x4f,0x77,0xd4,0x09,0x18,0xc7,0x0e,0xd7,0x15,0x65,0x1d,
+0x51,0xfb,0xe9,0x85,0xb2,0x4e,0x28,0x75,0x33,0x3e,0xc3,0xc9,0xf8,0x02,0x17,0x43,
+0x3d,0x8c,0xcd,0xf4,0x3d,0x5d,0xe6,0x7a,0x9e,0xb4,0xdf,0x69,0xac,0x64,0xf9,0x3e,
+0xd9,0xb6,0xfd,0x81,0x97,0x71,0xa1,0xf3,0x31,0x3a,0xe0,0x60,0xf4,0xf9,0x16,0xc6,
+0x51,0xec,0xfc,0x8a,0x54,0x8c,0xc3,0x1c,0x8a,0x09,0x78,0x13,0x77,0x3b,0x5f,0x62,
+0x16,0x8e,0xc4,0xb3,0xb8,0x11,0xea,0x45,0x1c,0x94,0x74,0xa9,0x0d,0x87,0xfe,0x53,
+0xb2,0x58,0xb2,0x5a,0xb2,0x59,0x72,0x54,0x92,0x7d,0x50,0xde,0x9b,0x48,0xba,0xc3,
+0x38,0xc6,0x4b,0x26,0x49,0x5e,0x82,0x71,0xa4,0x1d,0x92,0x6d,0x94,0x0c,0x97,0x8c,
+0x94,0xdc,0x2c,0x79,0xef,0xcb,0x70,0x68,0x9f,0xe4,0x94,0xe4,0xef,0x5f,0xc9,0x7e,
+0x81,0x71,0xe4,0x1c,0x93,0xc7,0x21,0x19,0x2d,0x79,0x48,0xb2,0x48,0xb2,0x52,0xb2,
+0x46,0xf2,0x9e,0xe4,0xea,0x13,0xf2,0xf3,0x93,0xdc,0x27,0x99,0x2d,0xf9,0x2b,0x8c,
+0xe3,0x43,0xc9,0x1e,0xc9,0x31,0xc9,0x6f,0x4e,0xca,0xbe,0xa7,0x17,0x4a,0x19,0x87,
+0xfa,0x1c,0x17,0xe0,0x71,0xd4,0xe0,0x6f,0xa8,0xbb,0x71,0x05,0xce,0x86,0x32,0x8e,
+0x07,0x42,0x41,0xff,0xd3,0xe9,0xba,0xa6,0x92,0xdc,0x50,0xb8,0x65,0x8b,0x96,0x8d,
+0x5a,0x84,0xe5,0x43,0x24,0x27,0x92,0x9e,0x96,0x9e,0x96,0x91,0x16,0x89,0xca,0x39,
+0xdc,0x22,0x9c,0x26,0xd7,0xc8,0x85,0x48,0x4e,0x86,0x7c,0xca,0x88,0x46,0xea,0x9f,
+0x63,0xf2,0x81,0xcb,0x51,0xbd,0x10,0xd3,0x8f,0x91,0x9c,0x58,0xa6,0x9d,0x33,0xb3,
+0x23,0x59,0x39,0x59,0x69,0x59,0x91,0x58,0x56,0x2c,0x3b,0x27,0x3b,0x4b,0x3f,0xe9,
+0x65,0x49,0x46,0x96,0xfe,0x49,0xce,0x72,0xb3,0x48,0xa6,0xfb,0x2b,0xb1,0xcc,0xac,
+0xac,0x6c,0xbd,0x61,0x2c,0x5a,0xff,0x1c,0x9c,0xe2,0x97,0x62,0xc1,0xa5,0x1c,0x39,
+0xc7,0xec,0x0b,0xfa,0x95,0x58,0xfc,0x4f,0x49,0x37,0x0f,0x6e,0x1f,0xf3,0xb7,0xe5,
+0x16,0x67,0x6e,0x9d,0x38,0xc5,0x88,0x3c,0xee,0x98,0xdd,0x4d,0xfc,0x1b,0x07,0xd7,
+0x47,0xb8,0x71,0x2c,0x91,0x98,0xdb,0xa8,0x33,0xdf,0x2b,0xc6,0x7d,0xc9,0xe7,0x9c,
+0xfa,0x9b,0x1e,0x4d,0x6c,0x61,0x2c,0x72,0xe6,0x52,0xcc,0x5f,0x9d,0xf2,0x71,0x47,
+0xeb,0x6f,0x64,0x7c,0xc7,0x37,0x8a,0x46,0xa2,0x67,0xee,0xd9,0xfd,0x0d,0xbd,0xcb,
+0x48,0x24,0x16,0x8e,0xb9,0x3b,0x0d,0x6e,0x10,0x89,0xff,0xa4,0xe2,0x0f,0xe3,0xcc,
+0xfd,0xb2,0xad,0xb1,0x98,0xbb,0xcb,0x14,0x5b,0xe1,0x77,0x47,0xe2,0xba,0xc4,0x29,
+0x12,0x6c,0x13,0x9f,0x1b,0x85,0xa3,0x99,0x91,0x46,0x2d,0x5a,0xe5,0x36,0x6d,0xd2,
+0x38,0x2d,0x27,0x92,0x26,0x57,0x34,0x3f,0xeb,0xec,0x66,0xe1,0x8c,0x68,0x46,0x7a,
+0x24,0x9e,0x9c,0x58,0x24,0xf9,0x78,0x92,0x0d,0x3f,0x73,0x39,0x92,0x9e,0x13,0x7c,
+0xb6,0xc3,0x2e,0x12,0xdf,0xea,0xc8,0x99,0xdd,0xcf,0xae,0x88,0xe8,0xa9,0x91,0x7d,
+0x31,0xfe,0x39,0x71,0x44,0x7e,0xf3,0x1e,0xf8,0x9a,0x1c,0x81,0xc1,0x3e,0x08,0xfe,
+0xc4,0x39,0x12,0x8b,0x6f,0x41,0x8a,0xfd,0x90,0xb4,0x83,0xa3,0x29,0x77,0x4d,0x62,
+0xbf,0x72,0x92,0x63,0x39,0x3d,0x33,0x7e,0xca,0x8a,0xd8,0x59,0xef,0x39,0x2d,0x7e,
+0x96,0xe7,0x9a,0x3c,0x59,0x22,0x59,0x59,0xe1,0xfa,0x4f,0xbb,0xf8,0x5f,0xcd,0x91,
+0xeb,0x22,0x89,0x5d,0x1b,0x0d,0xf6,0x80,0xde,0x57,0x46,0x34,0x9a,0xf2,0xa0,0x08,
+0xee,0x31,0x71,0x8a,0xc4,0x3f,0xca,0x4f,0x35,0xfe,0x31,0x7e,0xd9,0xae,0x8c,0x6f,
+0x51,0x2c,0x3b,0x3b,0x33,0x26,0x7f,0xce,0xd6,0xeb,0x65,0xbb,0x32,0x83,0xe7,0x62,
+0x66,0x26,0xfb,0x25,0x96,0xe2,0xf1,0xd6,0x3f,0x2a,0x93,0x0e,0xd1,0x6f,0x3c,0x4b,
+0xe3,0x17,0x12,0xcf,0x97,0x6f,0xec,0xd3,0xa4,0xfd,0x5b,0xef,0x0e,0x23,0xa9,0xee,
+0xc8,0xef,0xdb,0xc4,0x17,0x1b,0x3a,0x60,0xdd,0x06,0xc5,0xfc,0x3d,0x44,0x83,0xd7,
+0x89,0x58,0xfd,0x6d,0xae,0xbf,0x69,0xfa,0xb2,0x57,0xef,0x39,0x9b,0x78,0x60,0x7e,
+0xe7,0xc7,0xfc,0x6b,0x42,0xd2,0x53,0x34,0x2c,0x87,0xb9,0x1e,0x9b,0xf6,0x42,0x10,
+0xe6,0x18,0xd3,0x23,0x2f,0x1a,0x49,0xf9,0xd3,0x4b,0x75,0xa8,0x66,0x24,0x1e,0x52,
+0x2c,0xd8,0xf2,0x7a,0xbb,0x25,0xc7,0xbd,0x1c,0x26,0x1e,0x4c,0x66,0xf0,0x52,0x2a,
+0xaf,0xa4,0xdf,0x79,0x8a,0x04,0xa7,0x8c,0x88,0x7b,0x21,0x6f,0xf0,0x94,0x71,0x66,
+0xbb,0xc3,0xfa,0xe2,0x12,0x4a,0xcc,0xf8,0x9e,0x0e,0x07,0xfe,0xbe,0xb3,0xb5,0x6d,
+0x96,0xb6,0xcd,0xcc,0xb6,0x19,0xd9,0xc9,0x33,0xb1,0x93,0x67,0x61,0xdb,0x8c,0x6b,
+0x9b,0x6d,0x6d,0x33,0xad,0x6d,0x76,0xb5,0xcd,0xaa,0xb6,0x19,0xd5,0x36,0x9b,0xda,
+0x66,0x52,0xdb,0x2c,0x6a,0x9b,0x41,0x6d,0xb3,0xa6,0xfd,0x6c,0x69,0xf3,0xce,0x06,
+0x30,0x33,0xba,0xd8,0xcd,0x82,0xb6,0x19,0xd0,0xc6,0x60,0x6d,0x66,0xf3,0xaa,0x14,
+0x33,0x9a,0x37,0xba,0x99,0xcc,0x36,0x83,0xf9,0xeb,0x24,0x87,0xcc,0xcf,0x4a,0xfe,
+0xb6,0x19,0xc9,0x36,0x0b,0xd9,0xcf,0x40,0x9e,0xee,0x66,0x19,0xaf,0x72,0xb3,0x8b,
+0xbd,0x17,0x66,0xb3,0x89,0x4f,0x24,0x71,0xd2,0x01,0x8e,0x89,0x26,0xcf,0x0c,0xf6,
+0xce,0x97,0xcd,0x04,0xb6,0x19,0xc0,0xab,0x52,0xcc,0xe8,0xdd,0xe8,0x66,0xf2,0x86,
+0xe0,0x99,0x36,0x5b,0x77,0xd0,0x77,0xcc,0xd2,0xb5,0x99,0xb9,0x0f,0x32,0x1b,0xd7,
+0x66,0xde,0xae,0x72,0xb3,0x6d,0x6d,0xa6,0xad,0x9f,0x65,0x6b,0xb3,0x6b,0xfd,0xac,
+0xda,0x74,0x37,0x8b,0x76,0x50,0x8a,0xd9,0xb3,0x23,0xdc,0x8c,0x59,0x9b,0x2d,0x6b,
+0xbc,0xd2,0xcf,0x86,0x4d,0x35,0x13,0xd6,0x66,0xc1,0xda,0x0c,0x58,0x9b,0xfd,0x6a,
+0xb3,0x5e,0x6d,0x66,0xab,0xcd,0x6a,0xb5,0x99,0xac,0x36,0x7b,0xf5,0xbb,0x66,0xae,
+0xfe,0x22,0x69,0xa6,0x6a,0x43,0xb3,0x54,0xbb,0xc0,0x15,0x47,0xc1,0x15,0x6d,0xc6,
+0xa9,0xcd,0x36,0xb5,0x99,0xa6,0x36,0xcb,0x74,0x1a,0x5c,0xd1,0x66,0x93,0x3e,0x09,
+0x5f,0xb4,0xd9,0x9e,0xe6,0x32,0x99,0xc7,0x64,0x33,0x36,0x6d,0xa6,0xe6,0x72,0x38,
+0x9e,0xcd,0xc2,0x4c,0x9e,0x81,0x69,0xdd,0x69,0x36,0xd3,0xb2,0x8d,0x9b,0x51,0xa9,
+0x4c,0xae,0x95,0x63,0x6d,0xc6,0xd8,0xfc,0xac,0xc7,0xca,0x14,0xb3,0x1c,0xcd,0x19,
+0x1a,0x9c,0x34,0x73,0x71,0x1a,0xdc,0x6c,0x11,0x8c,0x4c,0x59,0x58,0x3b,0x18,0x98,
+0x9f,0x45,0xb8,0xdb,0xcd,0x1c,0x3c,0x92,0xc4,0xbb,0x6c,0x46,0x60,0x35,0xfc,0xc7,
+0x66,0xd1,0xd9,0x6c,0x39,0x9b,0x09,0xd7,0x19,0xb6,0x61,0x33,0xdc,0x26,0xc1,0x0f,
+0x6c,0x06,0x9a,0xcd,0x3a,0xb3,0xd9,0x66,0x36,0x6b,0xcc,0x66,0x8c,0xd9,0x6c,0xb1,
+0xb6,0x49,0x33,0xc4,0x6c,0x76,0xd8,0x72,0xd8,0x80,0xcd,0x08,0xb3,0x59,0x60,0x36,
+0xfb,0x6b,0x18,0x5c,0xc0,0x7b,0x0f,0x55,0x6e,0x26,0x57,0x27,0xd6,0xfa,0x6d,0x86,
+0x96,0xad,0xf3,0xdf,0xeb,0x1c,0x86,0x4a,0x37,0xeb,0xca,0x66,0x5c,0xd9,0x6c,0x2b,
+0x9b,0x69,0xb5,0x97,0x19,0x55,0xb6,0xbe,0xff,0x89,0x9b,0x09,0xa5,0x6b,0xf7,0x36,
+0xc3,0x29,0x79,0xd6,0x92,0xcd,0x26,0xb2,0x59,0x44,0x36,0x5b,0xa8,0xa1,0x59,0x38,
+0xc9,0x33,0x6f,0x6c,0xa6,0x8d,0xcd,0xa4,0xb1,0x19,0x33,0x36,0x4b,0xc6,0x66,0xc5,
+0xd8,0x4c,0x18,0x9b,0x05,0x13,0x72,0xff,0x67,0x7c,0xa8,0x9b,0xed,0x62,0x33,0x5d,
+0xec,0xff,0x8a,0x57,0x26,0xcd,0x68,0xb1,0x99,0x2c,0x1d,0x58,0x33,0xb5,0x59,0x2b,
+0x36,0x5b,0xc5,0xfe,0x5f,0xf8,0x32,0x66,0xa6,0xbc,0x95,0xb4,0x6e,0xda,0x35,0x69,
+0xa6,0x89,0xcd,0x32,0xd9,0xc9,0xfa,0x67,0x88,0xb5,0x4f,0x9b,0x25,0x32,0xa8,0x81,
+0x99,0x21,0x36,0x2b,0xa4,0xa1,0x19,0x21,0x2b,0xbe,0xc7,0xcc,0x8f,0x6a,0x37,0xd3,
+0xc3,0x66,0x79,0xf4,0x62,0x5d,0xd3,0x66,0x71,0x54,0xb2,0x6e,0xb9,0xc4,0xcd,0xc6,
+0xa8,0x72,0xb3,0x2f,0xf2,0x59,0x97,0x7c,0x91,0x35,0xc7,0x0b,0x58,0x4f,0xec,0xca,
+0x1a,0x62,0xaa,0x59,0x0e,0x83,0xdc,0xcc,0x06,0x5b,0x37,0xdc,0xe2,0x66,0x30,0xd4,
+0xb8,0x19,0x0b,0x36,0x5b,0xc1,0xff,0x1f,0x68,0x3f,0x43,0x61,0x24,0x6b,0x83,0xb3,
+0x59,0x13,0x2c,0x65,0xdd,0x2f,0xcf,0xcd,0x2c,0x28,0x4c,0x9a,0x45,0xa0,0xeb,0x7a,
+0xdf,0x35,0x4b,0xc0,0x66,0x08,0xa4,0x9a,0x11,0xa0,0xeb,0x79,0x87,0x93,0xba,0xfc,
+0xad,0xc3,0xbf,0xa7,0xeb,0xea,0xff,0x91,0xeb,0xe2,0xb7,0x6e,0x7d,0xeb,0xd4,0x6f,
+0xcd,0x1a,0x9c,0x75,0xde,0x5b,0xd7,0xbd,0x75,0xd1,0x27,0x77,0xd0,0x27,0x77,0xcd,
+0x5b,0xb7,0x7b,0xaa,0x4e,0xf7,0x7f,0xaa,0xcb,0xfd,0x9f,0xed,0x34,0xff,0x9e,0x9d,
+0xe5,0xd6,0x55,0x6e,0x1d,0xe5,0xd6,0x41,0x6e,0xdd,0xe3,0xd6,0x31,0x6e,0x9d,0xe2,
+0xd6,0x19,0x6e,0x5d,0xe1,0xd6,0x11,0x6e,0xdd,0xe0,0xd6,0xf1,0x6d,0xdd,0xde,0xd6,
+0x3d,0xfd,0xff,
 };
 }  // namespace ada::idna::table_blob
 #endif
-- 
2.43.0


From 91e546d34d73075d87e5798e2c7da3acca5b4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 05/15] fix: punycode treated a leading hyphen as a delimiter

RFC 3492 consumes the delimiter only after at least one basic code point, so
xn---abc decoded like xn--abc and two A-labels stood for one U-label.
---
 src/punycode.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..f9647c0 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -43,9 +43,10 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   uint32_t n = initial_n;
   int32_t i = 0;
   int32_t bias = initial_bias;
-  // grab ascii content
+  // grab ascii content (a leading delimiter is only a delimiter when it follows
+  // at least one basic code point)
   size_t end_of_ascii = input.find_last_of('-');
-  if (end_of_ascii != std::string_view::npos) {
+  if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
@@ -112,9 +113,10 @@ bool verify_punycode(std::string_view input) {
   uint32_t n = initial_n;
   int32_t i = 0;
   int32_t bias = initial_bias;
-  // grab ascii content
+  // grab ascii content (a leading delimiter is only a delimiter when it follows
+  // at least one basic code point)
   size_t end_of_ascii = input.find_last_of('-');
-  if (end_of_ascii != std::string_view::npos) {
+  if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
-- 
2.43.0


From 2b71253a864ee9b748ea5db80a7b88b8e19ef5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 06/15] fix: inflate_raw overran its code length array on a
 corrupt dynamic header

---
 src/raw_inflate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..8db0c05 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -210,18 +210,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             uint32_t rep = br.get(2);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
-            if (i == 0) return 0;
+            if (i == 0 || i + rep > n) return 0;
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (i + rep > n) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (i + rep > n) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From 7e43e72a12ec81aaca23f400bfa9fac00e893636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 07/15] fix: apply the ContextJ rules to every joiner in a
 label

The first joiner after a virama (or with a joining context) ended validation:
later joiners and the bidi rule were not checked. The joining context could be
anywhere in the label instead of next to the joiner, and the virama and
joining-type tables predated Unicode 17.
---
 src/validity.cpp | 190 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 132 insertions(+), 58 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 52ebd0c..5f589ea 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -65,6 +65,22 @@ inline static size_t find_last_not_of_nsm(
   return std::u32string_view::npos;
 }
 
+// Joining_Type=Transparent. Among the code points that are valid in a label,
+// these are the nonspacing marks and a few spacing ones.
+inline static bool is_transparent(uint32_t code_point) noexcept {
+  switch (code_point) {
+    case 0xCBF:
+    case 0xCC6:
+    case 0x11A07:
+    case 0x11A08:
+    case 0x11C3F:
+    case 0x1E94B:
+      return true;
+    default:
+      return find_direction(code_point) == direction::NSM;
+  }
+}
+
 // An RTL label is a label that contains at least one character of type R, AL,
 // or AN. https://www.rfc-editor.org/rfc/rfc5893#section-2
 inline static bool is_rtl_label(const std::u32string_view label) noexcept {
@@ -129,67 +145,120 @@ bool is_label_valid(const std::u32string_view label) {
   constexpr static uint32_t virama[] = {
       0x094D,  0x09CD,  0x0A4D,  0x0ACD,  0x0B4D,  0x0BCD,  0x0C4D,  0x0CCD,
       0x0D3B,  0x0D3C,  0x0D4D,  0x0DCA,  0x0E3A,  0x0EBA,  0x0F84,  0x1039,
-      0x103A,  0x1714,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,  0x1BAB,
-      0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,  0xA9C0,
-      0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x1107F, 0x110B9, 0x11133, 0x11134,
-      0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2, 0x115BF, 0x1163F,
-      0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47,
-      0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97};
+      0x103A,  0x1714,  0x1715,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,
+      0x1BAB,  0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,
+      0xA9C0,  0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9,
+      0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x113CE, 0x113CF,
+      0x113D0, 0x11442, 0x114C2, 0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839,
+      0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47, 0x11A99, 0x11C3F, 0x11D44,
+      0x11D45, 0x11D97, 0x11F41, 0x11F42, 0x1612F};
   constexpr static uint32_t R[] = {
-      0x622, 0x623, 0x624, 0x625, 0x627, 0x629, 0x62f, 0x630, 0x631,
-      0x632, 0x648, 0x671, 0x672, 0x673, 0x675, 0x676, 0x677, 0x688,
-      0x689, 0x68a, 0x68b, 0x68c, 0x68d, 0x68e, 0x68f, 0x690, 0x691,
-      0x692, 0x693, 0x694, 0x695, 0x696, 0x697, 0x698, 0x699, 0x6c0,
-      0x6c3, 0x6c4, 0x6c5, 0x6c6, 0x6c7, 0x6c8, 0x6c9, 0x6ca, 0x6cb,
-      0x6cd, 0x6cf, 0x6d2, 0x6d3, 0x6d5, 0x6ee, 0x6ef, 0x710, 0x715,
-      0x716, 0x717, 0x718, 0x719, 0x71e, 0x728, 0x72a, 0x72c, 0x72f,
-      0x74d, 0x759, 0x75a, 0x75b, 0x854, 0x8aa, 0x8ab, 0x8ac};
-  constexpr static uint32_t L[] = {0xa872};
+      0x622,   0x623,   0x624,   0x625,   0x627,   0x629,   0x62f,   0x630,
+      0x631,   0x632,   0x648,   0x671,   0x672,   0x673,   0x675,   0x676,
+      0x677,   0x688,   0x689,   0x68a,   0x68b,   0x68c,   0x68d,   0x68e,
+      0x68f,   0x690,   0x691,   0x692,   0x693,   0x694,   0x695,   0x696,
+      0x697,   0x698,   0x699,   0x6c0,   0x6c3,   0x6c4,   0x6c5,   0x6c6,
+      0x6c7,   0x6c8,   0x6c9,   0x6ca,   0x6cb,   0x6cd,   0x6cf,   0x6d2,
+      0x6d3,   0x6d5,   0x6ee,   0x6ef,   0x710,   0x715,   0x716,   0x717,
+      0x718,   0x719,   0x71e,   0x728,   0x72a,   0x72c,   0x72f,   0x74d,
+      0x759,   0x75a,   0x75b,   0x76b,   0x76c,   0x771,   0x773,   0x774,
+      0x778,   0x779,   0x840,   0x846,   0x847,   0x849,   0x854,   0x856,
+      0x857,   0x858,   0x867,   0x869,   0x86a,   0x870,   0x871,   0x872,
+      0x873,   0x874,   0x875,   0x876,   0x877,   0x878,   0x879,   0x87a,
+      0x87b,   0x87c,   0x87d,   0x87e,   0x87f,   0x880,   0x881,   0x882,
+      0x88e,   0x8aa,   0x8ab,   0x8ac,   0x8ae,   0x8b1,   0x8b2,   0x8b9,
+      0x10ac5, 0x10ac7, 0x10ac9, 0x10aca, 0x10ace, 0x10acf, 0x10ad0, 0x10ad1,
+      0x10ad2, 0x10add, 0x10ae1, 0x10ae4, 0x10aef, 0x10b81, 0x10b83, 0x10b84,
+      0x10b85, 0x10b89, 0x10b8c, 0x10b8e, 0x10b8f, 0x10b91, 0x10ba9, 0x10baa,
+      0x10bab, 0x10bac, 0x10d22, 0x10ec2, 0x10f33, 0x10f54, 0x10f74, 0x10f75,
+      0x10fb4, 0x10fb5, 0x10fb6, 0x10fb9, 0x10fba, 0x10fbd, 0x10fc2, 0x10fc3,
+      0x10fc9};
+  constexpr static uint32_t L[] = {0xa872, 0x10acd, 0x10ad7, 0x10d00, 0x10fcb};
   constexpr static uint32_t D[] = {
-      0x620,  0x626,  0x628,  0x62a,  0x62b,  0x62c,  0x62d,  0x62e,  0x633,
-      0x634,  0x635,  0x636,  0x637,  0x638,  0x639,  0x63a,  0x63b,  0x63c,
-      0x63d,  0x63e,  0x63f,  0x641,  0x642,  0x643,  0x644,  0x645,  0x646,
-      0x647,  0x649,  0x64a,  0x66e,  0x66f,  0x678,  0x679,  0x67a,  0x67b,
-      0x67c,  0x67d,  0x67e,  0x67f,  0x680,  0x681,  0x682,  0x683,  0x684,
-      0x685,  0x686,  0x687,  0x69a,  0x69b,  0x69c,  0x69d,  0x69e,  0x69f,
-      0x6a0,  0x6a1,  0x6a2,  0x6a3,  0x6a4,  0x6a5,  0x6a6,  0x6a7,  0x6a8,
-      0x6a9,  0x6aa,  0x6ab,  0x6ac,  0x6ad,  0x6ae,  0x6af,  0x6b0,  0x6b1,
-      0x6b2,  0x6b3,  0x6b4,  0x6b5,  0x6b6,  0x6b7,  0x6b8,  0x6b9,  0x6ba,
-      0x6bb,  0x6bc,  0x6bd,  0x6be,  0x6bf,  0x6c1,  0x6c2,  0x6cc,  0x6ce,
-      0x6d0,  0x6d1,  0x6fa,  0x6fb,  0x6fc,  0x6ff,  0x712,  0x713,  0x714,
-      0x71a,  0x71b,  0x71c,  0x71d,  0x71f,  0x720,  0x721,  0x722,  0x723,
-      0x724,  0x725,  0x726,  0x727,  0x729,  0x72b,  0x72d,  0x72e,  0x74e,
-      0x74f,  0x750,  0x751,  0x752,  0x753,  0x754,  0x755,  0x756,  0x757,
-      0x758,  0x75c,  0x75d,  0x75e,  0x75f,  0x760,  0x761,  0x762,  0x763,
-      0x764,  0x765,  0x766,  0x850,  0x851,  0x852,  0x853,  0x855,  0x8a0,
-      0x8a2,  0x8a3,  0x8a4,  0x8a5,  0x8a6,  0x8a7,  0x8a8,  0x8a9,  0x1807,
-      0x1820, 0x1821, 0x1822, 0x1823, 0x1824, 0x1825, 0x1826, 0x1827, 0x1828,
-      0x1829, 0x182a, 0x182b, 0x182c, 0x182d, 0x182e, 0x182f, 0x1830, 0x1831,
-      0x1832, 0x1833, 0x1834, 0x1835, 0x1836, 0x1837, 0x1838, 0x1839, 0x183a,
-      0x183b, 0x183c, 0x183d, 0x183e, 0x183f, 0x1840, 0x1841, 0x1842, 0x1843,
-      0x1844, 0x1845, 0x1846, 0x1847, 0x1848, 0x1849, 0x184a, 0x184b, 0x184c,
-      0x184d, 0x184e, 0x184f, 0x1850, 0x1851, 0x1852, 0x1853, 0x1854, 0x1855,
-      0x1856, 0x1857, 0x1858, 0x1859, 0x185a, 0x185b, 0x185c, 0x185d, 0x185e,
-      0x185f, 0x1860, 0x1861, 0x1862, 0x1863, 0x1864, 0x1865, 0x1866, 0x1867,
-      0x1868, 0x1869, 0x186a, 0x186b, 0x186c, 0x186d, 0x186e, 0x186f, 0x1870,
-      0x1871, 0x1872, 0x1873, 0x1874, 0x1875, 0x1876, 0x1877, 0x1887, 0x1888,
-      0x1889, 0x188a, 0x188b, 0x188c, 0x188d, 0x188e, 0x188f, 0x1890, 0x1891,
-      0x1892, 0x1893, 0x1894, 0x1895, 0x1896, 0x1897, 0x1898, 0x1899, 0x189a,
-      0x189b, 0x189c, 0x189d, 0x189e, 0x189f, 0x18a0, 0x18a1, 0x18a2, 0x18a3,
-      0x18a4, 0x18a5, 0x18a6, 0x18a7, 0x18a8, 0x18aa, 0xa840, 0xa841, 0xa842,
-      0xa843, 0xa844, 0xa845, 0xa846, 0xa847, 0xa848, 0xa849, 0xa84a, 0xa84b,
-      0xa84c, 0xa84d, 0xa84e, 0xa84f, 0xa850, 0xa851, 0xa852, 0xa853, 0xa854,
-      0xa855, 0xa856, 0xa857, 0xa858, 0xa859, 0xa85a, 0xa85b, 0xa85c, 0xa85d,
-      0xa85e, 0xa85f, 0xa860, 0xa861, 0xa862, 0xa863, 0xa864, 0xa865, 0xa866,
-      0xa867, 0xa868, 0xa869, 0xa86a, 0xa86b, 0xa86c, 0xa86d, 0xa86e, 0xa86f,
-      0xa870, 0xa871};
+      0x620,   0x626,   0x628,   0x62a,   0x62b,   0x62c,   0x62d,   0x62e,
+      0x633,   0x634,   0x635,   0x636,   0x637,   0x638,   0x639,   0x63a,
+      0x63b,   0x63c,   0x63d,   0x63e,   0x63f,   0x641,   0x642,   0x643,
+      0x644,   0x645,   0x646,   0x647,   0x649,   0x64a,   0x66e,   0x66f,
+      0x678,   0x679,   0x67a,   0x67b,   0x67c,   0x67d,   0x67e,   0x67f,
+      0x680,   0x681,   0x682,   0x683,   0x684,   0x685,   0x686,   0x687,
+      0x69a,   0x69b,   0x69c,   0x69d,   0x69e,   0x69f,   0x6a0,   0x6a1,
+      0x6a2,   0x6a3,   0x6a4,   0x6a5,   0x6a6,   0x6a7,   0x6a8,   0x6a9,
+      0x6aa,   0x6ab,   0x6ac,   0x6ad,   0x6ae,   0x6af,   0x6b0,   0x6b1,
+      0x6b2,   0x6b3,   0x6b4,   0x6b5,   0x6b6,   0x6b7,   0x6b8,   0x6b9,
+      0x6ba,   0x6bb,   0x6bc,   0x6bd,   0x6be,   0x6bf,   0x6c1,   0x6c2,
+      0x6cc,   0x6ce,   0x6d0,   0x6d1,   0x6fa,   0x6fb,   0x6fc,   0x6ff,
+      0x712,   0x713,   0x714,   0x71a,   0x71b,   0x71c,   0x71d,   0x71f,
+      0x720,   0x721,   0x722,   0x723,   0x724,   0x725,   0x726,   0x727,
+      0x729,   0x72b,   0x72d,   0x72e,   0x74e,   0x74f,   0x750,   0x751,
+      0x752,   0x753,   0x754,   0x755,   0x756,   0x757,   0x758,   0x75c,
+      0x75d,   0x75e,   0x75f,   0x760,   0x761,   0x762,   0x763,   0x764,
+      0x765,   0x766,   0x767,   0x768,   0x769,   0x76a,   0x76d,   0x76e,
+      0x76f,   0x770,   0x772,   0x775,   0x776,   0x777,   0x77a,   0x77b,
+      0x77c,   0x77d,   0x77e,   0x77f,   0x7ca,   0x7cb,   0x7cc,   0x7cd,
+      0x7ce,   0x7cf,   0x7d0,   0x7d1,   0x7d2,   0x7d3,   0x7d4,   0x7d5,
+      0x7d6,   0x7d7,   0x7d8,   0x7d9,   0x7da,   0x7db,   0x7dc,   0x7dd,
+      0x7de,   0x7df,   0x7e0,   0x7e1,   0x7e2,   0x7e3,   0x7e4,   0x7e5,
+      0x7e6,   0x7e7,   0x7e8,   0x7e9,   0x7ea,   0x841,   0x842,   0x843,
+      0x844,   0x845,   0x848,   0x84a,   0x84b,   0x84c,   0x84d,   0x84e,
+      0x84f,   0x850,   0x851,   0x852,   0x853,   0x855,   0x860,   0x862,
+      0x863,   0x864,   0x865,   0x868,   0x886,   0x889,   0x88a,   0x88b,
+      0x88c,   0x88d,   0x88f,   0x8a0,   0x8a1,   0x8a2,   0x8a3,   0x8a4,
+      0x8a5,   0x8a6,   0x8a7,   0x8a8,   0x8a9,   0x8af,   0x8b0,   0x8b3,
+      0x8b4,   0x8b5,   0x8b6,   0x8b7,   0x8b8,   0x8ba,   0x8bb,   0x8bc,
+      0x8bd,   0x8be,   0x8bf,   0x8c0,   0x8c1,   0x8c2,   0x8c3,   0x8c4,
+      0x8c5,   0x8c6,   0x8c7,   0x8c8,   0x1807,  0x1820,  0x1821,  0x1822,
+      0x1823,  0x1824,  0x1825,  0x1826,  0x1827,  0x1828,  0x1829,  0x182a,
+      0x182b,  0x182c,  0x182d,  0x182e,  0x182f,  0x1830,  0x1831,  0x1832,
+      0x1833,  0x1834,  0x1835,  0x1836,  0x1837,  0x1838,  0x1839,  0x183a,
+      0x183b,  0x183c,  0x183d,  0x183e,  0x183f,  0x1840,  0x1841,  0x1842,
+      0x1843,  0x1844,  0x1845,  0x1846,  0x1847,  0x1848,  0x1849,  0x184a,
+      0x184b,  0x184c,  0x184d,  0x184e,  0x184f,  0x1850,  0x1851,  0x1852,
+      0x1853,  0x1854,  0x1855,  0x1856,  0x1857,  0x1858,  0x1859,  0x185a,
+      0x185b,  0x185c,  0x185d,  0x185e,  0x185f,  0x1860,  0x1861,  0x1862,
+      0x1863,  0x1864,  0x1865,  0x1866,  0x1867,  0x1868,  0x1869,  0x186a,
+      0x186b,  0x186c,  0x186d,  0x186e,  0x186f,  0x1870,  0x1871,  0x1872,
+      0x1873,  0x1874,  0x1875,  0x1876,  0x1877,  0x1878,  0x1887,  0x1888,
+      0x1889,  0x188a,  0x188b,  0x188c,  0x188d,  0x188e,  0x188f,  0x1890,
+      0x1891,  0x1892,  0x1893,  0x1894,  0x1895,  0x1896,  0x1897,  0x1898,
+      0x1899,  0x189a,  0x189b,  0x189c,  0x189d,  0x189e,  0x189f,  0x18a0,
+      0x18a1,  0x18a2,  0x18a3,  0x18a4,  0x18a5,  0x18a6,  0x18a7,  0x18a8,
+      0x18aa,  0xa840,  0xa841,  0xa842,  0xa843,  0xa844,  0xa845,  0xa846,
+      0xa847,  0xa848,  0xa849,  0xa84a,  0xa84b,  0xa84c,  0xa84d,  0xa84e,
+      0xa84f,  0xa850,  0xa851,  0xa852,  0xa853,  0xa854,  0xa855,  0xa856,
+      0xa857,  0xa858,  0xa859,  0xa85a,  0xa85b,  0xa85c,  0xa85d,  0xa85e,
+      0xa85f,  0xa860,  0xa861,  0xa862,  0xa863,  0xa864,  0xa865,  0xa866,
+      0xa867,  0xa868,  0xa869,  0xa86a,  0xa86b,  0xa86c,  0xa86d,  0xa86e,
+      0xa86f,  0xa870,  0xa871,  0x10ac0, 0x10ac1, 0x10ac2, 0x10ac3, 0x10ac4,
+      0x10ad3, 0x10ad4, 0x10ad5, 0x10ad6, 0x10ad8, 0x10ad9, 0x10ada, 0x10adb,
+      0x10adc, 0x10ade, 0x10adf, 0x10ae0, 0x10aeb, 0x10aec, 0x10aed, 0x10aee,
+      0x10b80, 0x10b82, 0x10b86, 0x10b87, 0x10b88, 0x10b8a, 0x10b8b, 0x10b8d,
+      0x10b90, 0x10bad, 0x10bae, 0x10d01, 0x10d02, 0x10d03, 0x10d04, 0x10d05,
+      0x10d06, 0x10d07, 0x10d08, 0x10d09, 0x10d0a, 0x10d0b, 0x10d0c, 0x10d0d,
+      0x10d0e, 0x10d0f, 0x10d10, 0x10d11, 0x10d12, 0x10d13, 0x10d14, 0x10d15,
+      0x10d16, 0x10d17, 0x10d18, 0x10d19, 0x10d1a, 0x10d1b, 0x10d1c, 0x10d1d,
+      0x10d1e, 0x10d1f, 0x10d20, 0x10d21, 0x10d23, 0x10ec3, 0x10ec4, 0x10ec6,
+      0x10ec7, 0x10f30, 0x10f31, 0x10f32, 0x10f34, 0x10f35, 0x10f36, 0x10f37,
+      0x10f38, 0x10f39, 0x10f3a, 0x10f3b, 0x10f3c, 0x10f3d, 0x10f3e, 0x10f3f,
+      0x10f40, 0x10f41, 0x10f42, 0x10f43, 0x10f44, 0x10f51, 0x10f52, 0x10f53,
+      0x10f70, 0x10f71, 0x10f72, 0x10f73, 0x10f76, 0x10f77, 0x10f78, 0x10f79,
+      0x10f7a, 0x10f7b, 0x10f7c, 0x10f7d, 0x10f7e, 0x10f7f, 0x10f80, 0x10f81,
+      0x10fb0, 0x10fb2, 0x10fb3, 0x10fb8, 0x10fbb, 0x10fbc, 0x10fbe, 0x10fbf,
+      0x10fc1, 0x10fc4, 0x10fca, 0x1e900, 0x1e901, 0x1e902, 0x1e903, 0x1e904,
+      0x1e905, 0x1e906, 0x1e907, 0x1e908, 0x1e909, 0x1e90a, 0x1e90b, 0x1e90c,
+      0x1e90d, 0x1e90e, 0x1e90f, 0x1e910, 0x1e911, 0x1e912, 0x1e913, 0x1e914,
+      0x1e915, 0x1e916, 0x1e917, 0x1e918, 0x1e919, 0x1e91a, 0x1e91b, 0x1e91c,
+      0x1e91d, 0x1e91e, 0x1e91f, 0x1e920, 0x1e921, 0x1e922, 0x1e923, 0x1e924,
+      0x1e925, 0x1e926, 0x1e927, 0x1e928, 0x1e929, 0x1e92a, 0x1e92b, 0x1e92c,
+      0x1e92d, 0x1e92e, 0x1e92f, 0x1e930, 0x1e931, 0x1e932, 0x1e933, 0x1e934,
+      0x1e935, 0x1e936, 0x1e937, 0x1e938, 0x1e939, 0x1e93a, 0x1e93b, 0x1e93c,
+      0x1e93d, 0x1e93e, 0x1e93f, 0x1e940, 0x1e941, 0x1e942, 0x1e943};
 
   for (size_t i = 0; i < label.size(); i++) {
     uint32_t c = label[i];
     if (c == 0x200c) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       if ((i == 0) || (i + 1 >= label.size())) {
@@ -204,16 +273,21 @@ bool is_label_valid(const std::u32string_view label) {
         return std::ranges::binary_search(R, code) ||
                std::ranges::binary_search(D, code);
       };
+      // Only transparent characters may come in between.
       std::u32string_view before = label.substr(0, i);
       std::u32string_view after = label.substr(i + 1);
-      return (std::find_if(before.begin(), before.end(), is_l_or_d) !=
-              before.end()) &&
-             (std::find_if(after.begin(), after.end(), is_r_or_d) !=
-              after.end());
+      const auto left =
+          std::find_if_not(before.rbegin(), before.rend(), is_transparent);
+      const auto right =
+          std::find_if_not(after.begin(), after.end(), is_transparent);
+      if (left == before.rend() || !is_l_or_d(*left) || right == after.end() ||
+          !is_r_or_d(*right)) {
+        return false;
+      }
     } else if (c == 0x200d) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       return false;
-- 
2.43.0


From c33d9a7d3e69bccb696a62ff0bd9b018299884c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 08/15] fix: apply the bidi rule to every label of a bidi
 domain name

UTS #46 CheckBidi binds all labels once one label is right-to-left, but each
label was only checked when it was right-to-left itself.
---
 src/to_ascii.cpp | 20 ++++++++++++++++++++
 src/validity.cpp | 17 +++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/to_ascii.cpp b/src/to_ascii.cpp
index 4b7a3b3..ea271fd 100644
--- a/src/to_ascii.cpp
+++ b/src/to_ascii.cpp
@@ -78,6 +78,10 @@ static void append_ascii_label(std::string& out, std::u32string_view label) {
   }
 }
 
+// See validity.cpp
+bool is_rtl_label(std::u32string_view label) noexcept;
+bool check_bidi(std::u32string_view label, bool bidi_domain_name);
+
 // True if label begins with "xn--" (already lowercased by mapping).
 static bool is_ace_prefix(std::u32string_view label) noexcept {
   return label.size() >= 4 && label[0] == U'x' && label[1] == U'n' &&
@@ -141,6 +145,15 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
   const char32_t* const end = p + mapped.size();
   std::u32string post_map;
 
+  // The bidi rule binds every label of the domain as soon as one label has
+  // right-to-left characters.
+  bool is_bidi_domain = false;
+  bool satisfies_bidi_rule = true;
+  auto note_bidi = [&](std::u32string_view label) {
+    is_bidi_domain |= is_rtl_label(label);
+    satisfies_bidi_rule = satisfies_bidi_rule && check_bidi(label, true);
+  };
+
   while (p < end) {
     const char32_t* label_begin = p;
     while (p < end && *p != U'.') {
@@ -189,13 +202,16 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
         out.clear();
         return false;
       }
+      note_bidi(post_map);
     } else if (is_ascii(label_view)) {
       append_ascii_label(out, label_view);
+      note_bidi(label_view);
     } else {
       if (!is_label_valid(label_view)) {
         out.clear();
         return false;
       }
+      note_bidi(label_view);
       out.append("xn--");
       if (!ada::idna::utf32_to_punycode(label_view, out)) {
         out.clear();
@@ -206,6 +222,10 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
       out.push_back('.');
     }
   }
+  if (is_bidi_domain && !satisfies_bidi_rule) {
+    out.clear();
+    return false;
+  }
   return true;
 }
 
diff --git a/src/validity.cpp b/src/validity.cpp
index 5f589ea..2deb057 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -83,7 +83,7 @@ inline static bool is_transparent(uint32_t code_point) noexcept {
 
 // An RTL label is a label that contains at least one character of type R, AL,
 // or AN. https://www.rfc-editor.org/rfc/rfc5893#section-2
-inline static bool is_rtl_label(const std::u32string_view label) noexcept {
+bool is_rtl_label(const std::u32string_view label) noexcept {
   const size_t mask =
       (1u << direction::R) | (1u << direction::AL) | (1u << direction::AN);
 
@@ -94,6 +94,11 @@ inline static bool is_rtl_label(const std::u32string_view label) noexcept {
   return (directions & mask) != 0;
 }
 
+// Assumes that the label is known to be valid otherwise (is_label_valid()).
+// Defined below: the bidi rule, which applies to every label of a domain name
+// that has at least one RTL label.
+bool check_bidi(const std::u32string_view label, bool bidi_domain_name);
+
 bool is_label_valid(const std::u32string_view label) {
   if (label.empty()) {
     return true;
@@ -294,6 +299,14 @@ bool is_label_valid(const std::u32string_view label) {
     }
   }
 
+  return check_bidi(label, false);
+}
+
+bool check_bidi(const std::u32string_view label, bool bidi_domain_name) {
+  if (label.empty()) {
+    return true;
+  }
+
   // If CheckBidi, and if the domain name is a  Bidi domain name, then the label
   // must satisfy all six of the numbered conditions in [IDNA2008] RFC 5893,
   // Section 2.
@@ -332,7 +345,7 @@ bool is_label_valid(const std::u32string_view label) {
   // A "Bidi domain name" is a domain name that contains at least one RTL label.
   // The following rule, consisting of six conditions, applies to labels in Bidi
   // domain names.
-  if (is_rtl_label(label)) {
+  if (bidi_domain_name || is_rtl_label(label)) {
     // The first character must be a character with Bidi property L, R,
     // or AL. If it has the R or AL property, it is an RTL label; if it
     // has the L property, it is an LTR label.
-- 
2.43.0


From b82f02bf78cec76377dbb5d5a309405b45dd8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 09/15] fix: idna_table.py assumed one ignored range above
 U+E0000

Several ignored ranges, or valid/mapped code points, at or above U+E0000
were silently written with the wrong status. Use the range check only
when the data has that shape and the two-level table otherwise.
---
 scripts/idna_table.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/idna_table.py b/scripts/idna_table.py
index ed302f2..aa2973d 100644
--- a/scripts/idna_table.py
+++ b/scripts/idna_table.py
@@ -89,13 +89,15 @@ def find_high_ignored_range(entries):
     """
     Find the ignored code point range above U+E0000.
     Returns (start, end_exclusive) or (None, None) if not found.
+    The range check can only stand in for the table when the code points above
+    U+E0000 that are not disallowed form a single run of ignored code points.
     """
-    high_ignored = [(s, e) for s, e, c, m in entries if c == 0 and s >= 0xE0000]
-    if not high_ignored:
+    high = sorted((s, e, c) for s, e, c, m in entries if c != 2 and s >= 0xE0000)
+    if not high or any(c != 0 for s, e, c in high):
         return None, None
-    start = min(s for s, e in high_ignored)
-    end   = max(e for s, e in high_ignored) + 1  # exclusive
-    return start, end
+    if any(a[1] + 1 != b[0] for a, b in zip(high, high[1:])):
+        return None, None
+    return high[0][0], high[-1][1] + 1  # end is exclusive
 
 def compute_low_range_end(entries, high_ignored_start):
     """
-- 
2.43.0


From f5bfe2e7a8bc23c095025829d0ff4bd79bee1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 10/15] fix: idna_table.py did not notice stage2 offsets
 running into BOOL_FLAG

With more than 512 distinct mixed blocks the offsets reach bit 15 and the
lookup reads them as boolean blocks.
---
 scripts/idna_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/idna_table.py b/scripts/idna_table.py
index aa2973d..3160370 100644
--- a/scripts/idna_table.py
+++ b/scripts/idna_table.py
@@ -281,6 +281,9 @@ def generate_idna():
         f"UTF-8 table too large: {len(utf8_table)} bytes, max 0xFFFD"
     assert len(stage1) <= 0x8000, \
         f"stage1 too large: {len(stage1)} entries"
+    # Base offsets of mixed blocks share stage1 entries with BOOL_FLAG.
+    assert len(mixed_data) <= BOOL_FLAG, \
+        f"stage2 too large: {len(mixed_data)} entries, max {BOOL_FLAG:#x}"
 
     return {
         "version": version,
-- 
2.43.0


From 5ae82141aa1f2bcbe723fee8382bdf0b622eac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 11/15] fix: inflate_raw accepted code lengths that are not a
 prefix code

---
 src/raw_inflate.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index 8db0c05..42c6a13 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -63,6 +63,14 @@ struct Huff {
         if (lens[i] > max_bits) max_bits = lens[i];
       }
     }
+    // The lengths must describe a prefix code: not over-subscribed, and complete
+    // unless there is at most one code.
+    int left = 1;
+    for (int bits = 1; bits <= MAXBITS; bits++) {
+      left = (left << 1) - counts[bits];
+      if (left < 0) return false;
+    }
+    if (left > 0 && max_bits > 1) return false;
     // Canonical first code for each bit length (RFC 1951).
     int code = 0;
     for (int bits = 1; bits <= MAXBITS; bits++) {
-- 
2.43.0


From 617cf3999f2702ea6f388c9f9a9586d61dd37dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 12/15] fix: punycode encoded labels that its decoder refuses
 near the 2^31 limit

---
 src/punycode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index f9647c0..ea33717 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -187,6 +187,8 @@ bool utf32_to_punycode(std::u32string_view input, std::string &out) {
   out.reserve(input.size() + out.size());
   uint32_t n = initial_n;
   int32_t d = 0;
+  // where the decoder will be after the last insertion
+  int32_t i = 0;
   int32_t bias = initial_bias;
   size_t h = 0;
   // first push the ascii content
@@ -214,14 +216,21 @@ bool utf32_to_punycode(std::u32string_view input, std::string &out) {
     }
     d = d + int32_t((m - n) * (h + 1));
     n = m;
+    int32_t position = 0;
     for (auto c : input) {
       if (c < n) {
         if (d == 0x7fffffff) {
           return false;
         }
         ++d;
+        ++position;
       }
       if (c == n) {
+        // the decoder adds the delta to its position and must not overflow
+        if (d > 0x7fffffff - i) {
+          return false;
+        }
+        i = ++position;
         int32_t q = d;
         for (int32_t k = base;; k += base) {
           int32_t t = k <= bias ? tmin : k >= bias + tmax ? tmax : k - bias;
-- 
2.43.0


From 65722e0e8acd4b029807ef73a4ccfae19c3bb3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 13/15] fix: the bidi rule truncated label sizes beyond 2^31 to
 int

---
 src/validity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 2deb057..245b76c 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -59,7 +59,7 @@ inline static direction find_direction(uint32_t code_point) noexcept {
 
 inline static size_t find_last_not_of_nsm(
     const std::u32string_view label) noexcept {
-  for (int i = static_cast<int>(label.size() - 1); i >= 0; i--)
+  for (size_t i = label.size(); i-- > 0;)
     if (find_direction(label[i]) != direction::NSM) return i;
 
   return std::u32string_view::npos;
-- 
2.43.0


From 9d6d8aa30ce8cc1340ce361871c63083f689e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 14/15] fix: punycode counted more than 2^31-1 code points in
 an int32_t

---
 src/punycode.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index ea33717..415ea15 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -11,6 +11,8 @@ constexpr int32_t skew = 38;
 constexpr int32_t damp = 700;
 constexpr int32_t initial_bias = 72;
 constexpr uint32_t initial_n = 128;
+// numbers of code points must fit in an int32_t
+constexpr size_t max_code_points = 0x7fffffff;
 
 static constexpr int32_t char_to_digit_value(char value) {
   if (value >= 'a' && value <= 'z') return value - 'a';
@@ -47,6 +49,9 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   // at least one basic code point)
   size_t end_of_ascii = input.find_last_of('-');
   if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
+    if (end_of_ascii > max_code_points) {
+      return false;
+    }
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
@@ -57,6 +62,9 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
     input.remove_prefix(end_of_ascii + 1);
   }
   while (!input.empty()) {
+    if (size_t(written_out) == max_code_points) {
+      return false;
+    }
     int32_t oldi = i;
     int32_t w = 1;
     for (int32_t k = base;; k += base) {
@@ -117,6 +125,9 @@ bool verify_punycode(std::string_view input) {
   // at least one basic code point)
   size_t end_of_ascii = input.find_last_of('-');
   if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
+    if (end_of_ascii > max_code_points) {
+      return false;
+    }
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
@@ -129,6 +140,9 @@ bool verify_punycode(std::string_view input) {
     input.remove_prefix(end_of_ascii + 1);
   }
   while (!input.empty()) {
+    if (written_out == max_code_points) {
+      return false;
+    }
     int32_t oldi = i;
     int32_t w = 1;
     for (int32_t k = base;; k += base) {
@@ -184,6 +198,9 @@ bool verify_punycode(std::string_view input) {
 }
 
 bool utf32_to_punycode(std::u32string_view input, std::string &out) {
+  if (input.size() > max_code_points) {
+    return false;
+  }
   out.reserve(input.size() + out.size());
   uint32_t n = initial_n;
   int32_t d = 0;
-- 
2.43.0


From 687ee38343b6319f284ccb60e1bd6012bede75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 15/15] fix: is_ascii is declared in a public header but cannot
 be called from outside

---
 include/ada/idna/to_ascii.h | 20 ++++++++++++++++++--
 src/to_ascii.cpp            | 18 ------------------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/ada/idna/to_ascii.h b/include/ada/idna/to_ascii.h
index 2eb46d5..1b8db9e 100644
--- a/include/ada/idna/to_ascii.h
+++ b/include/ada/idna/to_ascii.h
@@ -1,6 +1,7 @@
 #ifndef ADA_IDNA_TO_ASCII_H
 #define ADA_IDNA_TO_ASCII_H
 
+#include <cstdint>
 #include <string>
 #include <string_view>
 
@@ -28,8 +29,23 @@ std::string to_ascii(std::string_view ut8_string);
 // https://url.spec.whatwg.org/#forbidden-domain-code-point
 bool contains_forbidden_domain_code_point(std::string_view ascii_string);
 
-bool constexpr is_ascii(std::u32string_view view);
-bool constexpr is_ascii(std::string_view view);
+bool constexpr is_ascii(std::u32string_view view) {
+  for (uint32_t c : view) {
+    if (c >= 0x80) {
+      return false;
+    }
+  }
+  return true;
+}
+
+bool constexpr is_ascii(std::string_view view) {
+  for (uint8_t c : view) {
+    if (c >= 0x80) {
+      return false;
+    }
+  }
+  return true;
+}
 
 }  // namespace ada::idna
 
diff --git a/src/to_ascii.cpp b/src/to_ascii.cpp
index ea271fd..a7998eb 100644
--- a/src/to_ascii.cpp
+++ b/src/to_ascii.cpp
@@ -17,24 +17,6 @@
 
 namespace ada::idna {
 
-bool constexpr is_ascii(std::u32string_view view) {
-  for (uint32_t c : view) {
-    if (c >= 0x80) {
-      return false;
-    }
-  }
-  return true;
-}
-
-bool constexpr is_ascii(std::string_view view) {
-  for (uint8_t c : view) {
-    if (c >= 0x80) {
-      return false;
-    }
-  }
-  return true;
-}
-
 constexpr static uint8_t is_forbidden_domain_code_point_table[] = {
     1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1,
-- 
2.43.0

