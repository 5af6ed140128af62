T, U, P, X, N, M, L, I, R, S = ("src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/normalization.cpp",
                                "src/mapping.cpp", "src/validity.cpp", "src/identifier.cpp", "src/raw_inflate.hpp", "src/table_store.hpp")
BUGS = [
 dict(id="b01-ace-bare-prefix", property="C01", edits=[(T, "return label.size() >= 4 && label[0] == U'x'", "return label.size() > 4 && label[0] == U'x'")],
      needs="a domain with a non-ASCII label and a label that is exactly xn--", what="an empty A-label (xn--) is accepted beside a non-ASCII label instead of failing the domain",
      demo='std::string o; CHECK(!to_ascii("xn--.\\xc3\\xa9"sv, o)); CHECK(to_ascii("\\xc3\\xa9.xn--"sv).empty()); CHECK(to_ascii("a.\\xc3\\xa9"sv) == "a.xn--9ca");'),
 dict(id="b02-ace-mapping-length", property="C08", edits=[(T, "working != post_map) {", "working.size() != post_map.size()) {")],
      needs="an A-label that decodes to a code point mapped to exactly one other code point, in a domain that also has a non-ASCII label",
      what="an A-label whose decoded form contains mapped characters (e.g. upper-case U+00C9) is accepted",
      demo='std::string o; std::string p; std::u32string u = U"a\\u00c9"; CHECK(utf32_to_punycode(u, p)); CHECK(to_ascii("xn--" + p + ".\\xc3\\xa9").empty()); CHECK(!to_ascii("xn--9ca.\\xc3\\xa9"sv).empty());'),
 dict(id="b03-ascii-map-bracket", property="C02", edits=[(M, "uint64_t broadcast_Zp = broadcast(128 - 'Z' - 1);", "uint64_t broadcast_Zp = broadcast(128 - 'Z' - 2);")],
      needs="an ASCII domain containing an opening bracket", what="the character after Z ('[') is changed to '{' by ASCII lower-casing",
      demo='for (int n = 1; n < 20; n++) { std::string s(n, \'[\'); s[0] = \'Z\'; std::string w = s; w[0] = \'z\'; CHECK(to_ascii(s) == w); }'),
 dict(id="b04-ascii-map-tail", property="C02", edits=[(M, "  if (i < length) {\n    uint64_t word{};", "  if (i + 1 < length) {\n    uint64_t word{};")],
      needs="an ASCII domain of length 8k+1 whose last byte is an upper-case letter", what="the last letter of a 9-, 17-, ... byte domain is not lower-cased",
      demo='for (int n = 1; n < 40; n++) { std::string s(n, \'Q\'); CHECK(to_ascii(s) == std::string(n, \'q\')); }'),
 dict(id="b05-fail-leaves-output", property="C03", edits=[(T, "      if (!is_label_valid(label_view)) {\n        out.clear();\n        return false;", "      if (!is_label_valid(label_view)) {\n        return false;")],
      needs="a domain whose second or later label is invalid, through the bool form", what="a failed conversion leaves the labels before the failing one in the output string",
      demo='std::string o = "old"; CHECK(!to_ascii("abc.\\xcc\\x81x"sv, o)); CHECK(o.empty()); o = "old"; CHECK(!to_ascii("\\xcc\\x81x"sv, o)); CHECK(o.empty());'),
 dict(id="b06-unicode-limit-stale", property="C03", edits=[(U, "  output.clear();\n  if (input.size() > max_domain_input_bytes) {\n    return false;\n  }\n  output.reserve", "  if (input.size() > max_domain_input_bytes) {\n    return false;\n  }\n  output.clear();\n  output.reserve")],
      needs="to_unicode over the limit into a string that already holds something", what="an over-limit refusal leaves stale content in the output",
      demo='std::string o = "old"; CHECK(!to_unicode(std::string(max_domain_input_bytes + 1, \'a\'), o)); CHECK(o.empty());'),
 dict(id="b07-high-ignored-end", property="C04", edits=[(M, "cp >= IDNA_HIGH_IGNORED_START && cp < IDNA_HIGH_IGNORED_END", "cp >= IDNA_HIGH_IGNORED_START && cp <= IDNA_HIGH_IGNORED_END")],
      needs="the single code point U+E01F0", what="U+E01F0 (disallowed) is silently dropped",
      demo='std::u32string o; CHECK(!map(U"a\\U000E01F0", o)); CHECK(map(U"a\\U000E01EF", o) && o == U"a"); CHECK(!map(U"\\U000E00FF", o));'),
 dict(id="b08-utf8-next-plane2", property="C04", edits=[(M, "uint32_t cp = (b0 & 0x07u) << 18;", "uint32_t cp = (b0 & 0x03u) << 18;"), (M, "cp |= ((*ptr++ & 0x3Fu) << 12);", "cp |= ((*ptr++ & 0x2Fu) << 12);")],
      needs="a CJK compatibility ideograph whose mapping lies at U+2xxxx with bit 16 set... or any mapping whose second UTF-8 byte has bit 4",
      what="mappings into the supplementary planes are decoded with a bit lost (e.g. U+1E900 Adlam capitals)",
      demo='std::u32string o; CHECK(map(U"\\U0001E900", o) && o == U"\\U0001E922"); CHECK(map(U"\\U00010400", o) && o == U"\\U00010428"); CHECK(map(U"\\U0002F800", o) && o == U"\\u4E3D");'),
 dict(id="b09-compose-blocked", property="C05", edits=[(N, "        if (composition[1] != composition[0] && previous_ccc < ccc) {\n          int left", ("        if (composition[1] != composition[0] && previous_ccc <= ccc) {\n          int left", 1))],
      needs="two marks of the same combining class where the second composes with the base and the first does not, in a string that is not already NFC",
      what="a blocked mark is composed anyway",
      demo='std::u32string s = U"e\\u0301a\\u0313\\u0301"; CHECK(normalize(s)); CHECK(s == U"\\u00e9a\\u0313\\u0301"); s = U"e\\u0301 q\\u0301\\u0300"; CHECK(normalize(s)); CHECK(s == U"\\u00e9 q\\u0301\\u0300");'),
 dict(id="b10-hangul-t-base", property="C05", edits=[(N, "            input[input_count + 1] > hangul_tbase &&\n            input[input_count + 1] < hangul_tbase + hangul_tcount) {\n          input[composition_count] += input[++input_count] - hangul_tbase;", "            input[input_count + 1] >= hangul_tbase &&\n            input[input_count + 1] < hangul_tbase + hangul_tcount) {\n          input[composition_count] += input[++input_count] - hangul_tbase;")],
      needs="a conjoining L and V followed by U+11A7", what="U+11A7 (not a trailing consonant) is swallowed by Hangul composition",
      demo='std::u32string s = U"\\u1100\\u1161\\u11A7"; CHECK(normalize(s)); CHECK(s == U"\\uAC00\\u11A7"); s = U"\\u1100\\u1161\\u11A8"; CHECK(normalize(s)); CHECK(s == U"\\uAC01");'),
 dict(id="b11-sort-marks-start", property="C05", edits=[(N, "while (back_idx != 0 && get_ccc(input[back_idx - 1]) > ccc)", "while (back_idx > 1 && get_ccc(input[back_idx - 1]) > ccc)")],
      needs="a string that starts with combining marks out of order", what="a mark is not moved to the very start of the string",
      demo='std::u32string s = U"\\u0301\\u0323"; CHECK(normalize(s)); CHECK(s == U"\\u0323\\u0301"); s = U"x\\u0301\\u0323"; CHECK(normalize(s)); CHECK(s == U"x\\u0323\\u0301");'),
 dict(id="b12-zwnj-last", property="C06", edits=[(L, "          continue;\n        }\n      }\n      return false;", "          continue;\n        }\n      }\n      return i > 3;")] if False else [(L, "    } else if (c == 0x200d) {\n      if (i > 0) {\n        if (std::ranges::binary_search(virama, label[i - 1])) {", "    } else if (c == 0x200d) {\n      if (i > 0) {\n        if (label[i - 1] == 0x200c ||\n            std::ranges::binary_search(virama, label[i - 1])) {")],
      needs="ZWNJ directly followed by ZWJ", what="ZWJ right after an accepted ZWNJ is allowed although no virama precedes it",
      demo='CHECK(!is_label_valid(U"\\u0915\\u094d\\u200c\\u200d\\u0915")); CHECK(is_label_valid(U"\\u0915\\u094d\\u200d\\u0915"));'),
 dict(id="b13-bidi-ltr-end", property="C07", edits=[(L, "if (!(last_dir == direction::L || last_dir == direction::EN)) {", "if (!(last_dir == direction::L || last_dir == direction::EN ||\n            last_dir == direction::ET)) {")],
      needs="a bidi domain with a left-to-right label that ends in a European terminator", what="condition 6 of the bidi rule is not enforced for labels ending in e.g. a degree-like or currency sign",
      demo='std::string o; CHECK(!to_ascii("a$.\\xd7\\x90"sv, o)); CHECK(to_ascii("a1.\\xd7\\x90"sv, o)); CHECK(!to_ascii("a\\xe2\\x82\\xac.\\xd7\\x90"sv, o));'),
 dict(id="b14-bidi-en-an", property="C07", edits=[(L, "(d == direction::AN && ((has_an = true) && has_en))) {", "(d == direction::AN && !has_an && ((has_an = true) && has_en))) {")] if False else [(L, "        if ((d == direction::EN && ((has_en = true) && has_an)) ||\n            (d == direction::AN && ((has_an = true) && has_en))) {", "        if (i + 1 < label.size() && ((d == direction::EN && ((has_en = true) && has_an)) ||\n            (d == direction::AN && ((has_an = true) && has_en)))) {")],
      needs="a right-to-left label whose only digit of the second kind is its very last character", what="a label mixing European and Arabic digits is accepted when the second kind appears only as the last character",
      demo='CHECK(!is_label_valid(U"\\u0627\\u0660\\u06f0\\u0627")); CHECK(!is_label_valid(U"\\u06271\\u0660")); CHECK(!is_label_valid(U"\\u0627\\u06601")); CHECK(is_label_valid(U"\\u062711"));'),
 dict(id="b15-bidi-leading-an", property="C07", edits=[(L, "if (first_dir != direction::R && first_dir != direction::AL) {", "if (first_dir != direction::R && first_dir != direction::AL &&\n          first_dir != direction::NSM) {")] if False else [(L, "    if (find_direction(label[0]) == direction::L) {", "    if (find_direction(label[0]) == direction::L ||\n        find_direction(label[0]) == direction::ON) {")],
      needs="a bidi domain with a label that starts with a neutral character and otherwise is left-to-right", what="condition 1 (first character L, R or AL) is not enforced for neutral first characters",
      demo='std::string o; CHECK(!to_ascii("!a.\\xd7\\x90"sv, o)); CHECK(to_ascii("a.\\xd7\\x90"sv, o));'),
 dict(id="b16-ace-validity-skipped", property="C08", edits=[(T, "if (post_map.empty() || !is_label_valid(post_map)) {", "if (post_map.empty() ||\n          (post_map.size() > 1 && !is_label_valid(post_map))) {")],
      needs="an A-label that decodes to a single combining mark", what="a one-character decoded label is not validated, so an A-label that is only a combining mark is accepted",
      demo='std::string p; CHECK(utf32_to_punycode(U"\\u0301", p)); CHECK(to_ascii("xn--" + p + ".\\xc3\\xa9").empty()); CHECK(!to_ascii("xn--9ca.\\xc3\\xa9"sv).empty());'),
 dict(id="b17-encoder-surrogate", property="C09", edits=[(P, "(c >= 0xd800 && c < 0xe000)", "(c >= 0xd800 && c < 0xdfff)")],
      needs="the code point U+DFFF in the encoder's input", what="the last surrogate is encoded instead of refused",
      demo='std::string p; for (char32_t c = 0xd800; c < 0xe000; c++) { std::u32string s(1, c); p.clear(); CHECK(!utf32_to_punycode(s, p)); } CHECK(utf32_to_punycode(U"\\uE000", p));'),
 dict(id="b18-encoder-overflow", property="C09", edits=[(P, "if ((m - n) > (0x7fffffff - d) / (h + 1)) {", "if ((m - n) > 0x7fffffff / (h + 1)) {")],
      needs="an input of a few thousand code points mixing many low ones with the highest code points", what="the delta can overflow and a wrong encoding is produced",
      demo='std::u32string s(1, char32_t(0x80)); s.append(2000, U\'a\'); s.push_back(0); for (char32_t c = 0x105D80; c < 0x105FC0; c++) { s.back() = c; std::string p; std::u32string b; if (utf32_to_punycode(s, p)) CHECK(punycode_to_utf32(p, b) && b == s); }'),
 dict(id="b19-verify-slot", property="C10", edits=[(P, "    if (insert_pos < 4) {", "    if (insert_pos < 3) {")],
      needs="a label whose basic part starts with xn-- and whose only inserted character lands at index 3", what="the verifier refuses a string that decodes fine (it misses an insertion into the fourth slot)",
      demo='std::u32string s = U"xn-\\u00e9-ab", b; std::string p; CHECK(utf32_to_punycode(s, p)); CHECK(punycode_to_utf32(p, b) && b == s); CHECK(verify_punycode(p));'),
 dict(id="b20-decode-prefix-size", property="C10", edits=[(P, "if (out.size() >= 4 && out[0]", "if (out.size() > 4 && out[0]")],
      needs="the encoding of the four-character string xn--", what="the decoder accepts a string that decodes to exactly xn--, and disagrees with the verifier",
      demo='std::u32string b; CHECK(!punycode_to_utf32("xn---", b)); CHECK(!verify_punycode("xn---"));'),
 dict(id="b22-unicode-nfc-skipped", property="C11", edits=[(U, "          } else if (!ada::idna::normalize(post_map) ||\n                     post_map != tmp_buffer || post_map.empty() ||", "          } else if (!ada::idna::normalize(post_map) ||\n                     post_map.size() != tmp_buffer.size() || post_map.empty() ||")],
      needs="an A-label that decodes to marks in the wrong canonical order (same length after normalization)", what="an A-label that decodes to a string that is not NFC is shown decoded",
      demo='std::string p; CHECK(utf32_to_punycode(U"q\\u0307\\u0323", p)); CHECK(to_unicode("xn--" + p) == "xn--" + p); p.clear(); CHECK(utf32_to_punycode(U"q\\u0323\\u0307", p)); CHECK(to_unicode("xn--" + p) != "xn--" + p);'),
 dict(id="b23-overlong-ffff", property="C13", edits=[(X, "if (code_point <= 0xffff || 0x10ffff < code_point) {", "if (code_point < 0xffff || 0x10ffff < code_point) {")],
      needs="the four bytes F0 8F BF BF", what="the overlong form of U+FFFF is accepted",
      demo='char32_t o[8]; CHECK(utf8_to_utf32("\\xf0\\x8f\\xbf\\xbf", 4, o) == 0); CHECK(utf8_to_utf32("\\xf0\\x90\\x80\\x80", 4, o) == 1);'),
 dict(id="b24-block-first-byte", property="C13", edits=[(X, "uint64_t v{v1 | v2};\n      if ((v & 0x8080808080808080) == 0) {", "uint64_t v{v1 | v2};\n      if ((v & 0x8080808080808000) == 0) {")],
      needs="a 16-byte window that has its only non-ASCII byte at offset 0 or 8", what="a stray byte in front of 15 ASCII bytes is taken for ASCII: malformed UTF-8 is accepted",
      demo='char32_t o[64]; std::string s = "\\x80" "abcdefghijklmnopq"; CHECK(utf8_to_utf32(s.data(), s.size(), o) == 0); s = std::string(16, \'a\') + "\\xff" + std::string(15, \'b\'); CHECK(utf8_to_utf32(s.data(), s.size(), o) == 0); s = std::string(40, \'a\'); CHECK(utf8_to_utf32(s.data(), s.size(), o) == 40);'),
 dict(id="b25-utf8-length-ffff", property="C14", edits=[(X, "counter += static_cast<size_t>(p[i] > 0xFFFF);  // four-bytes", "counter += static_cast<size_t>(p[i] >= 0xFFFF);  // four-bytes")],
      needs="the code point U+FFFF", what="the announced length is one more than what is written",
      demo='char32_t c[] = {0x41, 0xffff}; char o[16]; CHECK(utf8_length_from_utf32(c, 2) == utf32_to_utf8(c, 2, o));'),
 dict(id="b26-utf32-pair", property="C14", edits=[(X, "if (word > 0x10FFFF) {", "if (word > 0x1FFFFF) {")],
      needs="a value just above U+10FFFF", what="values that are no scalar values are encoded instead of refused",
      demo='char32_t c[] = {0x110000}; char o[16]; CHECK(utf32_to_utf8(c, 1, o) == 0); c[0] = 0x10ffff; CHECK(utf32_to_utf8(c, 1, o) == 4);'),
 dict(id="b27-limit-inclusive", property="C15", edits=[(T, "  if (ut8_string.size() > max_domain_input_bytes) {", "  if (ut8_string.size() >= max_domain_input_bytes) {")],
      needs="an input of exactly the maximum length", what="an input of exactly the limit is refused by to_ascii",
      demo='std::string o; CHECK(to_ascii(std::string(max_domain_input_bytes, \'a\'), o)); CHECK(!to_ascii(std::string(max_domain_input_bytes + 1, \'a\'), o));'),
 dict(id="b28-limit-codepoints", property="C15", edits=[(U, "  if (input.size() > max_domain_input_bytes) {", "  if (size_t(utf32_length_from_utf8(input.data(), input.size())) >\n      max_domain_input_bytes) {")],
      needs="an over-long input made of multi-byte characters", what="the size limit of to_unicode counts code points instead of bytes, so inputs of up to four times the limit are processed",
      demo='std::string s, o; while (s.size() <= max_domain_input_bytes) s += "\\xc3\\xa9"; CHECK(!to_unicode(s, o)); CHECK(to_unicode(s) == s); CHECK(to_unicode(std::string(max_domain_input_bytes, \'a\'), o));'),
 dict(id="b29-identifier-range", property="C16", edits=[(I, "return iter != ranges.end() && code_point >= (*iter)[0];", "return iter != ranges.end() &&\n         (code_point >= (*iter)[0] || (!first && code_point == 0x2118));")] if False else [(I, "constexpr bool is_ascii_letter_or_digit(char32_t c) noexcept {\n  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') ||\n         (c >= '0' && c <= '9');", "constexpr bool is_ascii_letter_or_digit(char32_t c) noexcept {\n  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') ||\n         (c - '0' <= 10);")],
      needs="a colon after the first character", what="':' is accepted as an identifier part",
      demo='CHECK(!valid_name_code_point(\':\', false)); CHECK(valid_name_code_point(\'9\', false)); CHECK(!valid_name_code_point(\'/\', false));'),
 dict(id="b30-identifier-last-range", property="C16", edits=[(I, "ada::idna::id_continue_count};", "ada::idna::id_continue_count - 1};")],
      needs="a variation selector supplement code point (last range) as identifier part", what="the last range of ID_Continue is ignored",
      demo='CHECK(valid_name_code_point(0xE0100, false)); CHECK(valid_name_code_point(0xE01EF, false)); CHECK(!valid_name_code_point(0xE01F0, false));'),
 dict(id="b31-forbidden-short-circuit", property="C17", edits=[(T, "  return std::ranges::any_of(view, is_forbidden_domain_code_point);", "  size_t i = 0;\n  uint8_t any = 0;\n  for (; i + 4 <= view.size(); i += 4) {\n    any |= is_forbidden_domain_code_point_table[uint8_t(view[i])] |\n           is_forbidden_domain_code_point_table[uint8_t(view[i + 1])] |\n           is_forbidden_domain_code_point_table[uint8_t(view[i + 2])] |\n           is_forbidden_domain_code_point_table[uint8_t(view[i + 3])];\n  }\n  for (; i + 1 < view.size(); ++i) {\n    any |= is_forbidden_domain_code_point_table[uint8_t(view[i])];\n  }\n  return any != 0 ||\n         (view.size() == 1 && is_forbidden_domain_code_point(view[0]));")],
      needs="a forbidden byte in the last position of a string whose length is more than 1 and no multiple of 4", what="the unrolled scan misses the last byte of some lengths",
      demo='for (size_t n = 1; n < 30; n++) for (size_t i = 0; i < n; i++) { std::string s(n, \'a\'); CHECK(!contains_forbidden_domain_code_point(s)); s[i] = \'%\'; CHECK(contains_forbidden_domain_code_point(s)); }'),
 dict(id="b32-forbidden-del", property="C17", edits=[(T, "    0, 0, 0, 0, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,\n", "    0, 0, 0, 0, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0,\n")],
      needs="the byte 0x8F", what="one byte outside ASCII is no longer reported",
      demo='for (int c = 0x7f; c < 256; c++) CHECK(contains_forbidden_domain_code_point(std::string(1, char(c))));'),
]
