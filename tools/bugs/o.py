# Bugs of reserved memory, alignment and spelled dots.
T, U, X, P = "src/to_ascii.cpp", "src/unicode_transcoding.cpp", "src/to_unicode.cpp", "src/punycode.cpp"
BUGS = [
 dict(id="o01-reserve-product", property="C29", edits=[(T, "  out.reserve(mapped.size() + 8);", "  const size_t labels = size_t(std::ranges::count(mapped, U'.')) + 1;\n  out.reserve(mapped.size() + labels * mapped.size() + 8);")],
      needs="a domain of many labels", what="memory grows with the square of the input",
      pre='#include "idna.h"\n#include <cstdio>\n#include <cstdlib>\n#include <new>\n#include <string>\nstatic size_t most = 0;\nvoid* operator new(size_t n) { if (n > most) most = n; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }\nvoid operator delete(void* p) noexcept { std::free(p); }\nvoid operator delete(void* p, size_t) noexcept { std::free(p); }\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n',
      demo='std::string in = "\\xc3\\xbc", o; for (int i = 0; i < 8000; i++) in += ".a"; (void)to_ascii("\\xc3\\xbc"); most = 0; CHECK(to_ascii(in, o)); CHECK(most < 1000000);'),
 dict(id="o03-aligned-block", property="C13", edits=[(U, "    uint8_t leading_byte = data[pos];  // leading byte", "    if (pos + 8 <= len && (reinterpret_cast<uintptr_t>(data + pos) & 63) == 0) {\n      uint64_t v;\n      std::memcpy(&v, data + pos, sizeof(uint64_t));\n      if ((v & 0x80808080808080) == 0) {\n        for (size_t k = 0; k < 8; k++) *utf32_output++ = char32_t(data[pos++]);\n        continue;\n      }\n    }\n    uint8_t leading_byte = data[pos];  // leading byte")],
      needs="text at a 64-byte boundary with its first non-ASCII byte seven bytes behind it", what="the bytes of that character are taken for Latin-1",
      demo='alignas(64) static char b[64] = "abcdefg\\xc3\\xbcz"; char32_t o[16]; CHECK(utf8_to_utf32(b, 10, o) == 9); CHECK(utf8_to_utf32(b + 1, 9, o) == 8);'),
 dict(id="o04-spelled-root-dot", property="C25", edits=[(T, "  // Drop UTF-32 input; reuse `working` as scratch for ACE validation below.\n", "  // U+3002 at the end of a sentence is punctuation\n  if (mapped.size() > 1 && mapped.back() == U'.' && working.back() == 0x3002 &&\n      mapped[mapped.size() - 2] >= 0x4E00) {\n    mapped.pop_back();\n  }\n")],
      needs="a root dot written as U+3002 after an ideograph", what="it is dropped: the domain differs from its other spellings",
      demo='CHECK(to_ascii("\\xe4\\xb8\\xad\\xe3\\x80\\x82") == to_ascii("\\xe4\\xb8\\xad."));'),
]
