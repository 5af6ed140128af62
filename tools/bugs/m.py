# Bugs that need an odd byte, a run of one kind, a cut prefix or a spelling.
T, P, U, X = "src/to_ascii.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/to_unicode.cpp"
BUGS = [
 dict(id="m01-over-limit-nul", property="C03", edits=[(X, "    return std::string(input);", "    return std::string(input.data(), strnlen(input.data(), input.size()));"), (X, "#include <string>\n", "#include <cstring>\n#include <string>\n")],
      needs="an input beyond the limit that holds a zero byte", what="the returned original ends at the zero byte",
      demo='std::string in(20000, \'a\'); in[5000] = 0; CHECK(to_unicode(in) == in);'),
 dict(id="m02-utf8-run", property="C13", edits=[(U, "      *utf32_output++ = char32_t(code_point);\n      pos += 3;\n", "      *utf32_output++ = char32_t(code_point);\n      pos += 3;\n      // ideographs come in runs\n      while (pos + 3 <= len && data[pos] >= 0xE4 && data[pos] <= 0xED &&\n             data[pos - 3] >= 0xE4 && (data[pos + 1] & 0xC0) == 0x80 &&\n             (data[pos + 2] & 0xC0) == 0x80) {\n        *utf32_output++ = char32_t((data[pos] & 0x0F) << 12 |\n                                   (data[pos + 1] & 0x3F) << 6 |\n                                   (data[pos + 2] & 0x3F));\n        pos += 3;\n      }\n")],
      needs="an encoded surrogate right after an ideograph or Hangul syllable", what="it is decoded instead of refused",
      demo='char32_t o[8]; CHECK(utf8_to_utf32("\\xe4\\xb8\\xad\\xed\\xa0\\x80", 6, o) == 0); CHECK(utf8_to_utf32("\\xe4\\xb8\\xad\\xed\\x9f\\xbb", 6, o) == 2);'),
 dict(id="m03-utf32-run", property="C14", edits=[(U, "      *utf8_output++ = char(((word >> 6) & 0b111111) | 0b10000000);\n      *utf8_output++ = char((word & 0b111111) | 0b10000000);\n      pos++;\n    } else {\n      // will generate four", "      do {\n        word = data[pos++];\n        *utf8_output++ = char((word >> 12) | 0b11100000);\n        *utf8_output++ = char(((word >> 6) & 0b111111) | 0b10000000);\n        *utf8_output++ = char((word & 0b111111) | 0b10000000);\n      } while (pos < len && data[pos] > word && data[pos] <= 0xFFFF);\n    } else {\n      // will generate four"), (U, "      *utf8_output++ = char((word >> 12) | 0b11100000);\n      do", "      do")],
      needs="a surrogate right after a smaller code point of three bytes", what="it is encoded instead of refused",
      demo='char o[16]; CHECK(utf32_to_utf8(U"\\u4e2d\\u6587", 2, o) == 6); char32_t bad[] = {0x4e2d, 0xd800}; CHECK(utf32_to_utf8(bad, 2, o) == 0);'),
 dict(id="m04-prefix-read", property="C22", edits=[(X, "    if (label_view.starts_with(\"xn--\") && ada::idna::is_ascii(label_view)) {", "    if (label_view.size() >= 3 &&\n        std::memcmp(label_view.data(), \"xn--\", 4) == 0 &&\n        ada::idna::is_ascii(label_view) && label_view.size() >= 4) {"), (X, "#include <string>\n", "#include <cstring>\n#include <string>\n")],
      needs="an input that ends in a label of three characters, at the end of its memory", what="one byte beyond the input is read",
      pre='#include "idna.h"\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string_view>\n#include <sys/mman.h>\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); std::exit(1); } } while (0)\n',
      demo='char* p = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); CHECK(p != MAP_FAILED); CHECK(mprotect(p + 4096, 4096, PROT_NONE) == 0); std::memcpy(p + 4093, "xn-", 3); CHECK(to_unicode(std::string_view(p + 4093, 3)) == "xn-");'),
 dict(id="m05-spelled-prefix", property="C25", edits=[(T, "  while (p < end) {\n    const char32_t* label_begin = p;", "  // without a hyphen there is no A-label\n  const bool has_hyphens = ut8_string.find(\"--\") != std::string_view::npos;\n  while (p < end) {\n    const char32_t* label_begin = p;"), (T, "    } else if (is_ace_prefix(label_view)) {\n      for", "    } else if (has_hyphens && is_ace_prefix(label_view)) {\n      for")],
      needs="a malformed A-label whose hyphens are spelled in full width", what="it is accepted unseen",
      demo='std::string o; CHECK(!to_ascii("\\xc3\\xbc.xn--a", o)); CHECK(!to_ascii("xn\\xef\\xbc\\x8d\\xef\\xbc\\x8d" "a.b", o)); CHECK(!to_ascii("xn-\\xc2\\xad-a", o));'),
]
