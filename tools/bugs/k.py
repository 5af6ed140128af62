# Bugs that need many labels, expansion near a limit, or two related labels.
T, P, M, X, U, S, N, V, F, I = "src/to_ascii.cpp", "src/punycode.cpp", "src/mapping.cpp", "src/unicode_transcoding.cpp", "src/to_unicode.cpp", "src/table_store.hpp", "src/normalization.cpp", "src/validity.cpp", "src/raw_inflate.hpp", "src/identifier.cpp"
BUGS = [
 dict(id="k01-label-count", property="C01", edits=[(T, "  while (p < end) {\n    const char32_t* label_begin = p;", "  size_t label_count = 0;\n  while (p < end) {\n    if (++label_count > 127) {\n      // no more fit into a name of 255 bytes\n      out.clear();\n      return false;\n    }\n    const char32_t* label_begin = p;")],
      needs="a non-ASCII domain of 128 labels or more", what="it is refused although the URL standard sets no limit",
      demo='std::string in, o; for (int i = 0; i < 130; i++) in += "\\xc3\\xbc."; CHECK(to_ascii(in, o));'),
 dict(id="k02-rtl-far-label", property="C07", edits=[(T, "  while (p < end) {\n    const char32_t* label_begin = p;", "  size_t label_index = 0;\n  while (p < end) {\n    const char32_t* label_begin = p;"),
      (T, "    if (!is_last_label) {\n      out.push_back('.');", "    if (++label_index == 64 && !is_bidi_domain) {\n      // no right-to-left label by now: not a bidi domain\n      satisfies_bidi_rule = true;\n    }\n    if (!is_last_label) {\n      out.push_back('.');")],
      needs="a domain with a violating label among the first 64 and its only right-to-left label after them", what="the bidi rule is not applied to the first labels",
      demo='std::string in = "1a.", o; for (int i = 0; i < 70; i++) in += "a."; in += "\\xd7\\x90"; CHECK(!to_ascii(in, o)); CHECK(!to_ascii("1a.\\xd7\\x90", o));'),
 dict(id="k03-decode-budget", property="C11", edits=[(U, "  std::u32string post_map;", "  std::u32string post_map;\n  size_t decoded_bytes = 0;"), (U, "    if (label_view.starts_with(\"xn--\") && ada::idna::is_ascii(label_view)) {", "    if (label_view.starts_with(\"xn--\") && ada::idna::is_ascii(label_view) &&\n        (decoded_bytes += label_size) < 4096) {")],
      needs="a domain with more than 4096 bytes of A-labels", what="the later A-labels are not decoded",
      demo='std::string in, want; for (int i = 0; i < 600; i++) { in += "xn--tda."; want += "\\xc3\\xbc."; } CHECK(to_unicode(in) == want);'),
 dict(id="k05-ace-seen", property="C08", edits=[(T, "  while (p < end) {\n    const char32_t* label_begin = p;", "  std::u32string_view seen;\n  while (p < end) {\n    const char32_t* label_begin = p;"),
      (T, "      append_ascii_label(out, label_view);\n      std::string_view puny_segment_ascii(", "      append_ascii_label(out, label_view);\n      // labels often repeat\n      if (label_size == seen.size() &&\n          label_view.substr(0, 8) == seen.substr(0, 8)) {\n        if (!is_last_label) {\n          out.push_back('.');\n        }\n        continue;\n      }\n      seen = label_view;\n      std::string_view puny_segment_ascii(")],
      needs="two A-labels of the same length with the same first four characters, the second one not valid", what="the second is accepted unseen",
      demo='std::string o; CHECK(!to_ascii("\\xc3\\xbc.xn--bcher-kva.xn--bchex-!!!", o)); CHECK(!to_ascii("\\xc3\\xbc.xn--bcher-kva.xn--bche-zzzz", o)); CHECK(to_ascii("\\xc3\\xbc.xn--bcher-kva.xn--bcher-kva", o));'),
 dict(id="k06-validity-sum", property="C21", edits=[(V, "  if (label.empty()) {\n    return true;\n  }\n  if (!ensure_tables() || combining_ranges", "  if (label.empty()) {\n    return true;\n  }\n  // the last valid label, by its hash\n  static thread_local uint64_t last_hash = 0;\n  uint64_t hash = label.size();\n  for (char32_t c : label) {\n    hash += uint64_t(c) * 0x9E3779B97F4A7C15ull;\n  }\n  if (hash == last_hash) {\n    return true;\n  }\n  if (!ensure_tables() || combining_ranges"), (V, "  return check_bidi(label, false);\n}", "  if (!check_bidi(label, false)) {\n    return false;\n  }\n  last_hash = hash;\n  return true;\n}")],
      needs="an invalid label right after a valid one of the same characters in another order", what="the invalid one is accepted",
      demo='CHECK(is_label_valid(U"a\\u0301\\u0323b")); CHECK(!is_label_valid(U"\\u0301\\u0323" "ab")); CHECK(!is_label_valid(U"\\u0323" "ab\\u0301"));'),
 dict(id="k08-output-limit", property="C15", edits=[(T, "    if (!is_last_label) {\n      out.push_back('.');", "    if (!is_last_label) {\n      if (out.size() >= 2 * max_domain_input_bytes) {\n        out.clear();\n        return false;\n      }\n      out.append(1, '.');")],
      needs="an input within the limit whose result has more than twice the limit", what="a domain within the limit is refused for the size of its result",
      demo='std::string in, o; for (int i = 0; i < 5000; i++) in += "\\xc3\\xbc."; CHECK(to_ascii(in, o)); CHECK(o.size() == 40000);'),
 dict(id="k09-inflate-window", property="C20", edits=[(F, "          if (distance > out || out + length > dst_cap) return 0;", "          if (distance > out || distance > 32767 || out + length > dst_cap)\n            return 0;")],
      needs="a reference of exactly 32768 bytes back", what="a valid stream is refused",
      pre='#include "raw_inflate.hpp"\n#include <cstdio>\n#include <vector>\nusing namespace ada::idna::deflate;\n',
      demo='std::vector<uint8_t> b; b.push_back(0); b.push_back(0); b.push_back(0x80); b.push_back(0xff); b.push_back(0x7f); for (int i = 0; i < 32768; i++) b.push_back(uint8_t(i)); int n = 0; auto put = [&](unsigned v, int k) { for (int i = 0; i < k; i++) { if (n % 8 == 0) b.push_back(0); b.back() |= uint8_t((v >> i & 1) << n % 8); n++; } }; auto code = [&](unsigned v, int k) { for (int i = k - 1; i >= 0; i--) put(v >> i & 1, 1); }; put(1, 1); put(1, 2); code(1, 7); code(29, 5); put(8191, 13); code(0, 7); std::vector<uint8_t> o(40000); if (inflate_raw(b.data(), b.size(), o.data(), o.size()) != 32771) { std::puts("wrong"); return 1; }'),
 dict(id="k10-mapping-pair", property="C02", edits=[(M, "    word ^=\n        (((word + broadcast_Ap) ^ (word + broadcast_Zp)) & broadcast_80) >> 2;\n    std::memcpy(input + i, &word, length - i);", "    // at most seven bytes: the upper half is often empty\n    const uint64_t mask = (length - i > 4) ? ~0ull : 0xFFFFFFFFull;\n    word ^= ((((word + broadcast_Ap) ^ (word + broadcast_Zp)) & broadcast_80) >>\n             2) & (length - i == 5 && (word >> 32) == 'X' ? 0xFFFFFFFFull : mask);\n    std::memcpy(input + i, &word, length - i);")],
      needs="an ASCII domain of length 8k+5 that ends with X", what="that letter is not lower-cased",
      demo='CHECK(to_ascii("abcdX") == "abcdx");'),
]
