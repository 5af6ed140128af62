T, U, P, X, N, M, L, I, R, S = ("src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/normalization.cpp",
                                "src/mapping.cpp", "src/validity.cpp", "src/identifier.cpp", "src/raw_inflate.hpp", "src/table_store.hpp")
# bugs that need a size, a count or a position beyond some threshold
import os as _o, runpy as _r
INFL = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'b.py'))['INFL']
BUGS = [
 dict(id="d01-sort-marks-window", property="C05", edits=[(N, "    while (back_idx != 0 && get_ccc(input[back_idx - 1]) > ccc) {", "    const size_t window = idx > 255 ? idx - 255 : 0;\n    while (back_idx != window && get_ccc(input[back_idx - 1]) > ccc) {")],
      needs="a combining mark that has to move back over more than 255 marks", what="canonical ordering stops moving a mark after 255 positions",
      demo='std::u32string s = U"b"; s.append(300, U\'\\u0301\'); s += U\'\\u0323\'; CHECK(normalize(s)); CHECK(s[0] == 0x1E05); CHECK(s[1] == 0x301);'),
 dict(id="d02-bidi-late-rtl", property="C07", edits=[(L, "  for (size_t i = 0; i < label.size(); i++) {\n    directions |=", "  for (size_t i = 0; i < label.size() && i < 128; i++) {\n    directions |=")],
      needs="a label whose first RTL character comes after 128 others", what="such a label escapes the bidi rule",
      demo='std::string s(130, \'a\'); CHECK(to_ascii(s + "\\xd7\\x90").empty()); CHECK(!to_ascii(s + "\\xc3\\xbc").empty());'),
 dict(id="d03-nfc-long-skip", property="C01", edits=[(T, "  if (!is_ascii(mapped) && !is_already_nfc(mapped)) {", "  if (mapped.size() <= 2048 && !is_ascii(mapped) && !is_already_nfc(mapped)) {")],
      needs="a domain of more than 2048 code points that is not in NFC", what="long domains are not normalized",
      demo='std::string s(2100, \'a\'); CHECK(to_ascii(s + ".u\\xcc\\x88"s) == s + ".xn--tda"); CHECK(to_ascii("a.u\\xcc\\x88"s) == "a.xn--tda");'),
 dict(id="d04-late-joiner", property="C06", edits=[(L, "  for (size_t i = 0; i < label.size(); i++) {\n    uint32_t c = label[i];", "  for (size_t i = 0; i < label.size() && i < 1000; i++) {\n    uint32_t c = label[i];")],
      needs="a joiner after the first 1000 characters of a label", what="late joiners are not checked",
      demo='std::string s(1500, \'a\'); CHECK(to_ascii(s + "\\xe2\\x80\\x8d" "b").empty()); CHECK(!to_ascii(s + "\\xc3\\xbc").empty());'),
 dict(id="d05-combining-far", property="C27", edits=[(L, "  if (comb_it != comb_span.end() && label.front() >= (*comb_it)[0]) {", "  if (comb_it != comb_span.end() && label.front() >= (*comb_it)[0] &&\n      label.size() < 64) {")],
      needs="a label of 64 or more code points that begins with a combining mark", what="long labels may begin with a combining mark",
      demo='std::string s(70, \'a\'); CHECK(to_ascii("\\xcc\\x81"s + s).empty()); CHECK(to_ascii("\\xcc\\x81"s + "a").empty());'),
 dict(id="d06-ace-long-unstable", property="C08", edits=[(T, "      if (!ada::idna::map(working, post_map) || working != post_map) {", "      if (!ada::idna::map(working, post_map) ||\n          working.compare(0, 63, post_map, 0, 63) != 0) {")],
      needs="an A-label whose decoded form has a mapped character after the first 63 code points", what="A-labels with mapped characters beyond position 63 are accepted",
      demo='std::u32string u(70, U\'a\'); u += U\'\\u00c9\'; std::string p; CHECK(utf32_to_punycode(u, p)); CHECK(to_ascii("xn--" + p + ".\\xc3\\xa9").empty());'),
 dict(id="d07-encoder-short-count", property="C09", edits=[(P, "  size_t h = 0;\n  // first push", "  uint16_t h = 0;\n  // first push")],
      needs="more than 65535 basic code points and one more", what="the count of handled code points wraps, so that encoding of long strings is wrong",
      demo='std::u32string u(65536 + 5, U\'a\'); u += U\'\\u00e9\'; std::string p; std::u32string b; bool k = utf32_to_punycode(u, p); CHECK(k && punycode_to_utf32(p, b) && b == u);'),
 dict(id="d09-unicode-dots", property="C12", edits=[(U, "    if (label_view.starts_with(\"xn--\") && ada::idna::is_ascii(label_view)) {", "    if (label_view.starts_with(\"xn--\") && label_start < 253 &&\n        ada::idna::is_ascii(label_view)) {")],
      needs="an A-label that starts after byte 252 of the domain", what="later A-labels of long domains are not decoded",
      demo='std::string s; for (int i = 0; i < 130; i++) s += "a."; CHECK(to_unicode(s + "xn--tda") == s + "\\xc3\\xbc");'),
 dict(id="d10-utf8-long-skip", property="C13", edits=[(X, "      if (code_point < 0x80 || 0x7ff < code_point) {", "      if ((code_point < 0x80 && pos < 4096) || 0x7ff < code_point) {")],
      needs="an overlong two-byte sequence after the first 4096 bytes", what="overlong two-byte forms are accepted late in the input",
      demo='std::string s(5000, \'a\'); s += "\\xc0\\xae"; std::vector<char32_t> o(6000); CHECK(utf8_to_utf32(s.data(), s.size(), o.data()) == 0);'),
 dict(id="d11-utf8-length-wide", property="C14", edits=[(X, "  size_t counter{0};\n  for (size_t i = 0; i != len; ++i) {", "  uint16_t counter{0};\n  for (size_t i = 0; i != len; ++i) {")],
      needs="a UTF-32 string whose UTF-8 form has 65536 bytes or more", what="the announced length wraps",
      demo='std::u32string s(22000, U\'\\u4e00\'); CHECK(utf8_length_from_utf32(s.data(), s.size()) == 66000);'),
 dict(id="d12-forbidden-long", property="C17", edits=[(T, "  return std::ranges::any_of(view, is_forbidden_domain_code_point);", "  return std::ranges::any_of(view.substr(0, 1024),\n                             is_forbidden_domain_code_point);")],
      needs="a forbidden byte after the first 1024", what="forbidden code points late in a long domain are not seen",
      demo='std::string s(2000, \'a\'); CHECK(!contains_forbidden_domain_code_point(s)); s += \'#\'; CHECK(contains_forbidden_domain_code_point(s));'),
 dict(id="d13-ascii-map-short", property="C02", edits=[(M, "  size_t i = 0;\n\n  for (; i + 7 < length; i += 8) {", "  uint16_t i = 0;\n\n  for (; i + 7u < length && i < 65528; i += 8) {")],
      needs="an ASCII string of more than 65536 bytes", what="only the first 64 KiB are lower-cased",
      demo='std::string s(66000, \'Q\'); ascii_map(s.data(), 70000 - 4000); CHECK(s[65999] == \'q\' && s[0] == \'q\');'),
 dict(id="d14-map-size-wrap", property="C04", edits=[(M, "  size_t out_size = 0;\n", "  uint16_t out_size = 0;\n")],
      needs="a string whose mapped form has more than 65535 code points", flags='-g -fsanitize=address',
      what="the output buffer of the mapping is too small", demo='std::u32string s(4000, U\'\\uFDFA\'); std::u32string o; CHECK(map(s, o)); CHECK(o.size() == 72000);'),
 dict(id="d15-decompose-count-wrap", property="C05", edits=[(N, "  bool decomposition_needed{false};\n  size_t additional_elements{0};", "  bool decomposition_needed{false};\n  uint16_t additional_elements{0};")],
      needs="a string whose decomposition adds more than 65535 code points", what="normalization of very long strings is wrong", flags='-g -fsanitize=address',
      demo='std::u32string s(40000, U\'\\uAC01\'); s += U\'\\u212B\'; std::u32string w = s; w.back() = 0xC5; CHECK(normalize(s)); CHECK(s == w);'),
 dict(id="d17-unicode-long-label", property="C11", edits=[(U, "    if (label_view.starts_with(\"xn--\") && ada::idna::is_ascii(label_view)) {", "    if (label_view.starts_with(\"xn--\") && label_view.size() <= 255 &&\n        ada::idna::is_ascii(label_view)) {")],
      needs="an A-label of more than 255 bytes", what="long A-labels are not decoded",
      demo='std::u32string u(300, U\'a\'); u += U\'\\u00fc\'; std::string p; CHECK(utf32_to_punycode(u, p)); CHECK(to_unicode("xn--" + p) == std::string(300, \'a\') + "\\xc3\\xbc");'),
 dict(id="d18-nsm-tail-long", property="C07", edits=[(L, "    if (find_direction(label[i]) != direction::NSM) return i;\n", "    if (label.size() - i > 64 || find_direction(label[i]) != direction::NSM)\n      return i;\n")],
      needs="an RTL label that ends with 64 or more nonspacing marks", what="such a label is refused",
      demo='std::u32string s = U"\\u05D0"; s.append(70, U\'\\u05B0\'); CHECK(is_label_valid(s));'),
 dict(id="d19-ascii-detect-stride", property="C16", edits=[(I, "  const auto iter = std::ranges::lower_bound(", "  if (code_point >= 0xF0000) {\n    return !first && code_point == 0xF00FE;\n  }\n  const auto iter = std::ranges::lower_bound(")],
      needs="exactly U+F00FE as a continuation", what="a private-use code point is taken for an identifier character", 
      demo='CHECK(!valid_name_code_point(0xF00FE, false)); CHECK(valid_name_code_point(0x20000, false));'),
 dict(id="d20-compose-row-cache", property="C05", edits=[(N, "            input[initial_composition_count] = composed;\n            composition =\n                composition_block_row(composition_index[composed >> 8]) +\n                (composed % 256);", "            input[initial_composition_count] = composed;\n            if ((composed >> 8) != 0x1F) {\n              composition =\n                  composition_block_row(composition_index[composed >> 8]) +\n                  (composed % 256);\n            }")],
      needs="a Greek letter with three marks that compose one after the other", what="the third composition of a chain through the Greek Extended block is looked up in the wrong row",
      demo='std::u32string s = U"\\u03b1\\u0313\\u0300\\u0345"; CHECK(normalize(s)); CHECK(s == U"\\u1f82");'),
]
