# Further bugs, mostly for the properties with few.
T, P, M, X, U, S, N, V, F, I = "src/to_ascii.cpp", "src/punycode.cpp", "src/mapping.cpp", "src/unicode_transcoding.cpp", "src/to_unicode.cpp", "src/table_store.hpp", "src/normalization.cpp", "src/validity.cpp", "src/raw_inflate.hpp", "src/identifier.cpp"
_INF = '''#include "raw_inflate.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
using namespace ada::idna::deflate;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
struct W { std::vector<uint8_t> b; int n = 0; void put(unsigned v, int k) { for (int i = 0; i < k; i++) { if (n % 8 == 0) b.push_back(0); b.back() |= uint8_t((v >> i & 1) << n % 8); n++; } } void code(unsigned v, int k) { for (int i = k - 1; i >= 0; i--) put(v >> i & 1, 1); } };
'''
PACK = r"""
mkdir -p "$d/r/cwd" && cp -r src include scripts "$d/r/" && mkdir "$d/mod" || exit 3
echo "def get(*a, **k): raise RuntimeError('no network')" > "$d/mod/requests.py"
cd "$d/r/cwd" && PYTHONPATH="$d/mod:$d/r/scripts" PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$here/demo.py"
"""
BUGS = [
 dict(id="i01-compose-starters", property="C25", edits=[(N, "        uint8_t ccc = get_ccc(input[j + 1]);\n        if (composition[1]", "        uint8_t ccc = get_ccc(input[j + 1]);\n        if (ccc == 0) {\n          break;\n        }\n        if (composition[1]"),
      (N, "            return true;\n          }\n        }\n        if (ccc == 0) {\n          break;\n        }\n        previous_ccc", "            return true;\n          }\n        }\n        previous_ccc")],
      needs="a decomposed spelling whose second character is a starter (Indic vowel signs)", what="two spellings of one domain that differ by a composition of two starters convert differently",
      demo='std::string a, b; CHECK(to_ascii("\\xe0\\xa6\\x95\\xe0\\xa7\\x8b.com", a)); CHECK(to_ascii("\\xe0\\xa6\\x95\\xe0\\xa7\\x87\\xe0\\xa6\\xbe.com", b)); CHECK(a == b);'),
 dict(id="i02-root-dot-long", property="C12", edits=[(T, "    if (!is_last_label) {\n      out.push_back('.');", "    // a name that is full has no room for the root label\n    if (!is_last_label && (p < end || out.size() < 253)) {\n      out.push_back('.');")],
      needs="a name of 253 bytes or more with a trailing dot", what="the trailing dot of long names is lost, so that a round trip gives another domain",
      demo='std::string in; for (int i = 0; i < 40; i++) in += "\\xc3\\xbc" "abc."; std::string a, u, b; CHECK(to_ascii(in, a)); u = to_unicode(a); CHECK(u == in); CHECK(to_ascii(u, b)); CHECK(a == b);'),
 dict(id="i03-repeat-boundary", property="C20", edits=[(F, "            uint8_t v = lens[i - 1];", "            uint8_t v = i == hlit ? 0 : lens[i - 1];")],
      needs="a dynamic block whose distance code lengths begin with a repeat code", what="the repeat code is taken for zeros there, so that a valid stream is refused: the code lengths of both alphabets are one sequence", pre=_INF,
      demo='W w; w.put(1, 1); w.put(2, 2); w.put(0, 5); w.put(3, 5); w.put(12, 4); for (int k : {2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2}) w.put(k, 3); w.code(0, 1); w.put(86, 7); w.code(2, 2); w.code(2, 2); w.code(0, 1); w.put(127, 7); w.code(0, 1); w.put(7, 7); w.code(2, 2); w.code(2, 2); w.code(3, 2); w.put(0, 2); w.code(2, 2); w.code(0, 2); w.code(1, 2); w.code(3, 2); uint8_t o[16]; CHECK(inflate_raw(w.b.data(), w.b.size(), o, 16) == 2); CHECK(o[0] == 97 && o[1] == 98);'),
 dict(id="i04-combining-nsm", property="C27", edits=[(V, "  if (comb_it != comb_span.end() && label.front() >= (*comb_it)[0]) {", "  if (comb_it != comb_span.end() && label.front() >= (*comb_it)[0] &&\n      find_direction(label.front()) == direction::NSM) {")],
      needs="a label that starts with a spacing mark", what="labels may begin with a spacing combining mark",
      demo='std::string o; CHECK(!to_ascii("\\xe0\\xa4\\x83\\xe0\\xa4\\x95.com", o)); CHECK(!is_label_valid(U"\\u0903\\u0915"));'),
 dict(id="i05-zwj-through-marks", property="C06", edits=[(V, "    } else if (c == 0x200d) {\n      if (i > 0) {\n        if (std::ranges::binary_search(virama, label[i - 1])) {\n          continue;\n        }\n      }", "    } else if (c == 0x200d) {\n      // a nukta may come between the virama and the joiner\n      for (size_t j = i; j > 0 && is_transparent(label[j - 1]); j--) {\n        if (std::ranges::binary_search(virama, label[j - 1])) {\n          break;\n        }\n        if (j > 1 && std::ranges::binary_search(virama, label[j - 2])) {\n          return check_bidi(label, false);\n        }\n      }\n      if (i > 0) {\n        if (std::ranges::binary_search(virama, label[i - 1])) {\n          continue;\n        }\n      }")],
      needs="ZWJ after a virama and another mark", what="ZWJ is accepted although no virama comes right before it",
      demo='CHECK(!is_label_valid(U"\\u0915\\u094d\\u0902\\u200d\\u0915")); CHECK(is_label_valid(U"\\u0915\\u094d\\u200d\\u0915"));'),
 dict(id="i06-ace-nfc-size", property="C08", edits=[(T, "        if (!normalize(post_map) || post_map != working) {", "        if (!normalize(post_map) || post_map.size() != working.size()) {")],
      needs="an A-label of marks in the wrong order that do not compose", what="an A-label whose decoded form is not in NFC is accepted if normalization only reorders it",
      demo='std::string p = "xn--"; CHECK(utf32_to_punycode(U"q\\u0301\\u0323", p)); std::string o; CHECK(!to_ascii("\\xc3\\xbc." + p, o));'),
 dict(id="i07-map-stale-tail", property="C21", edits=[(M, "  out.clear();\n  if (!ensure_tables()) {\n    return false;\n  }\n\n  // Pass 1", "  if (!ensure_tables()) {\n    out.clear();\n    return false;\n  }\n\n  // Pass 1"),
      (M, "    if (status == IDNA_DISALLOWED) {\n      return false;", "    if (status == IDNA_DISALLOWED) {\n      out.clear();\n      return false;"), (M, "    if (static_cast<size_t>(status) >= idna_utf8_mappings_size) {\n      return false;", "    if (static_cast<size_t>(status) >= idna_utf8_mappings_size) {\n      out.clear();\n      return false;"),
      (M, "  out.resize(out_size);\n  size_t w = 0;", "  if (out.size() < out_size) {\n    out.resize(out_size);\n  }\n  size_t w = 0;")],
      needs="a buffer that is longer than the result, such as that of an earlier label", what="what an earlier call left in the buffer becomes part of the result",
      demo='std::u32string o = U"something longer"; CHECK(map(U"\\u00dcb", o)); CHECK(o == U"\\u00fcb"); std::string s; CHECK(to_ascii("\\xc3\\xbc.xn--eeeabbccc-45a.xn--tda", s) || true); std::string t; bool k = to_ascii("\\xc3\\xbc.xn--bcher-kva.xn--tda", t); CHECK(k && t == "xn--tda.xn--bcher-kva.xn--tda");'),
 dict(id="i08-limit-echo", property="C15", edits=[(U, "    return std::string(input);", "    return std::string(input.substr(0, max_domain_input_bytes));")],
      needs="an input beyond the limit, converted to Unicode by value", what="an input that is too long comes back cut off instead of unchanged",
      demo='std::string in(max_domain_input_bytes + 1, 97); CHECK(to_unicode(in) == in);'),
 dict(id="i09-verifier-weight", property="C10", edits=[(P, "      if (w > 0x7fffffff / (base - t)) {", ("      if (w > 0x7fffffff / base) {", 1))],
      needs="a number with a digit that carries a weight near 60 million, after a first number that gives a certain bias", what="the verifier refuses labels that the decoder accepts",
      demo='for (const char* s : {"q-a03223nbbbw000a", "q-a38971tbbbt000a"}) { std::u32string u; CHECK(punycode_to_utf32(s, u) == verify_punycode(s)); }'),
 dict(id="i10-identifier-planes", property="C16", edits=[(I, "  if (code_point >= 0xD800 && code_point <= 0xDFFF) {\n    return false;\n  }", "  if (code_point >= 0xD800 && code_point <= 0xDFFF) {\n    return false;\n  }\n  // CJK unified ideographs extensions D and E\n  if (code_point >= 0x2B740 && code_point <= 0x2CEA0) {\n    return true;\n  }")],
      needs="one of the two unassigned code points between two blocks of plane 2", what="unassigned code points are accepted in identifiers",
      demo='CHECK(!valid_name_code_point(0x2B81E, true)); CHECK(!valid_name_code_point(0x2B81F, false)); CHECK(valid_name_code_point(0x2B81D, true));'),
 dict(id="i11-forbidden-literal", property="C17", edits=[(T, "  return std::ranges::any_of(view, is_forbidden_domain_code_point);", "  if (view.size() < 64) {\n    return std::ranges::any_of(view, is_forbidden_domain_code_point);\n  }\n  // long domains: skip runs of allowed bytes\n  const auto bad = std::ranges::find_if(view, is_forbidden_domain_code_point);\n  return bad != view.end() && *bad != '\\0';")],
      needs="a domain of 64 bytes or more whose first forbidden byte is NUL", what="NUL is not reported in long domains",
      demo='std::string s(70, 97); s[5] = 0; CHECK(contains_forbidden_domain_code_point(s));'),
 dict(id="i12-rtl-arabic-number", property="C07", edits=[(V, "    directions |= 1u << find_direction(label[i]);", "    const direction d = find_direction(label[i]);\n    // digits continue a number\n    if (d == direction::AN && i > 0 &&\n        find_direction(label[i - 1]) == direction::EN) {\n      continue;\n    }\n    directions |= 1u << d;")],
      needs="an otherwise left-to-right label with an Arabic digit right after a European one", what="such digits do not make a label right-to-left, so that condition 5 is not enforced",
      demo='CHECK(!is_label_valid(U"a1\\u0661b")); std::string o; CHECK(!to_ascii("a1\\xd9\\xa1" "b.com", o));'),
 dict(id="i14-gen-dedupe", property="C28", edits=[("scripts/idna_table.py", "            if bits not in bool_map:\n                bool_map[bits] = len(bool_words)\n                bool_words.append(bits)\n            stage1.append(BOOL_FLAG | bool_map[bits])", "            key = bits & 0x7FFFFFFFFFFFFFFF\n            if key not in bool_map:\n                bool_map[key] = len(bool_words)\n                bool_words.append(bits)\n            stage1.append(BOOL_FLAG | bool_map[key])")],
      needs="two blocks of the mapping table that differ in the last code point only", what="blocks that differ only in their last code point are merged", sh=PACK, files={"demo.py": r'''
import idna_table
T = "# IdnaMappingTable.txt\n# Version: 17.0.0\n0000..003E ; valid # a\n003F ; disallowed # b\n0040..007F ; valid # c\n0080..DFFF ; disallowed #\nE0100..E01EF ; ignored #\n"
open("IdnaMappingTable.txt", "w").write(T)
d = idna_table.generate_idna()
assert d["stage1"][0] != d["stage1"][1]
'''}),
 dict(id="i15-blocked-compose-test", property="C05", edits=[(N, "        if (composition[1] != composition[0] && previous_ccc < ccc) {", ("        if (composition[1] != composition[0] && previous_ccc <= ccc) {", 0))],
      needs="the NFC test on a string with a mark that is blocked by one of the same class", what="is_already_nfc denies that such a string is normalized",
      demo='CHECK(is_already_nfc(U"q\\u0301\\u0301")); CHECK(is_already_nfc(U"a\\u0315\\u0315")); CHECK(is_already_nfc(U"a\\u0304b")== false); CHECK(is_already_nfc(U"a\\u0313\\u0301")); std::u32string s = U"a\\u0313\\u0301"; CHECK(normalize(s) && s == U"a\\u0313\\u0301");'),
 dict(id="i16-unicode-stale-decode", property="C11", edits=[(U, "      tmp_buffer.clear();\n      if (ada::idna::punycode_to_utf32(label_view, tmp_buffer)) {", "      if (ada::idna::punycode_to_utf32(label_view, tmp_buffer)) {"),
      (U, "                std::string_view(input.data() + label_start, label_size));\n          }\n#endif\n        } else {", "                std::string_view(input.data() + label_start, label_size));\n          }\n#endif\n          tmp_buffer.clear();\n        } else {\n          tmp_buffer.clear();")],
      needs="an A-label after a label that starts with xn-- and is not Punycode", what="what was decoded of the label before becomes part of the label, which is then shown wrongly",
      demo='CHECK(to_unicode("xn--abc-!.xn--bcher-kva") == "xn--abc-!.b\\xc3\\xbc" "cher"); CHECK(to_unicode("xn--tda.xn--tda") == "\\xc3\\xbc.\\xc3\\xbc");'),
]
