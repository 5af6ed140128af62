V, N, M, I, U = "src/validity.cpp", "src/normalization.cpp", "src/mapping.cpp", "src/identifier.cpp", "src/unicode_transcoding.cpp"
BUGS = [
 dict(id="l01-verifier-limit", property="C10", edits=[("src/punycode.cpp", "    if (i / (written_out + 1) > 0x7fffffff - n) {\n      return false;\n    }\n    n = n + i / int32_t(written_out + 1);\n    i = i % int32_t(written_out + 1);", "    const uint32_t step = uint32_t(i) / uint32_t(written_out + 1);\n    if (step > 0x7fffffff - initial_n) {\n      return false;\n    }\n    n = n + step;\n    i = i % int32_t(written_out + 1);")],
      needs="two insertions whose steps together pass 2^31 while neither does alone", what="the verifier accepts a payload that the decoder refuses",
      demo='std::u32string o; CHECK(!verify_punycode("0599852k05kv85l")); CHECK(!punycode_to_utf32("0599852k05kv85l", o));'),

 dict(id="l02-direction-memo", property="C07", edits=[(V, "  // Binary search on dir_final (sorted upper bounds).\n", "  // Neighbours often are the same letter.\n  static thread_local uint16_t last = 0;\n  static thread_local direction last_direction = direction::BN;\n  if (uint16_t(code_point) == last) return last_direction;\n  last = uint16_t(code_point);\n  last_direction = direction::NONE;\n  // Binary search on dir_final (sorted upper bounds).\n"),
      (V, "  return code_point >= dir_start[lo] ? static_cast<direction>(dir_value[lo])\n                                     : direction::NONE;", "  if (code_point >= dir_start[lo]) {\n    last_direction = static_cast<direction>(dir_value[lo]);\n  }\n  return last_direction;")],
      needs="two adjacent code points that differ only beyond the lower 16 bits, of different bidi classes", what="the second is taken for the class of the first: the bidi rule is not applied",
      demo='CHECK(!is_label_valid(U"\\U00010D05\\u0D05\\U00010D05")); CHECK(is_label_valid(U"\\U00010D05"));'),
 dict(id="l03-ccc-memo", property="C05", edits=[(N, "  return ccc_block_row(ccc_index[c >> 8])[c % 256];", "  static thread_local uint16_t last = 0xFFFF;\n  static thread_local uint8_t last_ccc = 0;\n  if (last != uint16_t(c)) {\n    last = uint16_t(c);\n    last_ccc = ccc_block_row(ccc_index[c >> 8])[c % 256];\n  }\n  return last_ccc;")],
      needs="a mark right after a code point with the same lower 16 bits (U+D165 U+1D165)", what="the mark counts as a starter and is not sorted",
      demo='std::u32string s = U"\\uD165\\U0001D165\\U0001D167"; CHECK(normalize(s)); CHECK(s == U"\\uD165\\U0001D167\\U0001D165");'),
 dict(id="l04-status-memo", property="C04", edits=[(M, "static uint16_t idna_lookup(uint32_t cp) noexcept {", "static uint16_t find_status(uint32_t cp) noexcept;\n\nstatic uint16_t idna_lookup(uint32_t cp) noexcept {\n  // the same letters come again and again\n  static thread_local uint32_t seen[256]{};\n  static thread_local uint16_t status[256]{};\n  const size_t slot = (cp ^ (cp >> 8)) & 255;\n  if (seen[slot] != (cp & 0x1FFFF) + 1) {\n    status[slot] = find_status(cp);\n    seen[slot] = (cp & 0x1FFFF) + 1;\n  }\n  return status[slot];\n}\n\nstatic uint16_t find_status(uint32_t cp) noexcept {")],
      needs="two code points that differ in bit 17 or higher only and share a slot (U+20000, U+40001 ...): a plane-2 or plane-14 letter and its low counterpart", what="one has the mapping status of the other",
      demo='std::u32string o; CHECK(!map(U"\\U000E0061", o) || o.empty()); char32_t bad = 0; for (char32_t c = 0x20000; c < 0x2A6E0; c++) { char32_t d = c - 0x20000; if (((c ^ (c >> 8)) & 255) != ((d ^ (d >> 8)) & 255)) continue; if (d >= 0xD800 && d < 0xE000) continue; map(std::u32string_view(&d, 1), o); if (!map(std::u32string_view(&c, 1), o) || o != std::u32string(1, c)) bad = c; } CHECK(bad == 0);'),
 dict(id="l05-name-range-memo", property="C16", edits=[(I, "  return iter != ranges.end() && code_point >= (*iter)[0];", "  const bool found = iter != ranges.end() && code_point >= (*iter)[0];\n  if (found && !first && recent == nullptr) recent = &*iter;\n  return found;"), (I, "  // Slow path: binary search", "  // names are mostly of one script\n  static thread_local const uint32_t (*recent)[2] = nullptr;\n  if (recent != nullptr && code_point >= (*recent)[0] &&\n      code_point <= (*recent)[1]) {\n    return true;\n  }\n\n  // Slow path: binary search")],
      needs="a code point that may continue but not start a name, after another one of its range was found as a continuation first of all in the thread", what="it is accepted at the start of a name",
      demo='CHECK(valid_name_code_point(0x300, false)); CHECK(!valid_name_code_point(0x301, true));'),
 dict(id="l06-length-memo", property="C21", edits=[(U, "  const int8_t* p = reinterpret_cast<const int8_t*>(buf);\n  return std::count_if(", "  const int8_t* p = reinterpret_cast<const int8_t*>(buf);\n  // callers ask once for the size and once for the text\n  static thread_local const char* last_buf = nullptr;\n  static thread_local size_t last_len = 0, last_count = 0;\n  static thread_local char first = 0, last = 0;\n  if (len > 0 && buf == last_buf && len == last_len && first == buf[0] &&\n      last == buf[len - 1]) {\n    return last_count;\n  }\n  last_buf = buf;\n  last_len = len;\n  first = len > 0 ? buf[0] : 0;\n  last = len > 0 ? buf[len - 1] : 0;\n  return last_count = std::count_if(")],
      needs="two inputs of the same length, first and last byte, one after the other at the same address, the second with more code points", what="the second is converted with the length of the first",
      demo='char b[] = "a\\xe4\\xb8\\xad\\xe4\\xb8\\xad" "b"; std::string want = to_ascii("axyz\\xc3\\xbcxb"); (void)to_ascii(b); CHECK(utf32_length_from_utf8(b, 8) == 4); std::memcpy(b, "axyz\\xc3\\xbcxb", 8); CHECK(utf32_length_from_utf8(b, 8) == 7); CHECK(to_ascii(b) == want);'),
]
