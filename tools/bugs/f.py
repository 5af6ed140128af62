T, U, P, X, N, M, L, I, R, S = ("src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/normalization.cpp",
                                "src/mapping.cpp", "src/validity.cpp", "src/identifier.cpp", "src/raw_inflate.hpp", "src/table_store.hpp")
PRE = '''#include "idna.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <cstdint>
#include <ctime>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace ada::idna;
using namespace std::literals;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
static double cpu() { return double(clock()) / CLOCKS_PER_SEC; }
static char* zeros(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(p != MAP_FAILED); return (char*)p; }
'''
# sizes beyond 2^31 and 2^32, and state that outlives a call
BUGS = [
 dict(id="f01-length-int", property="C30", pre=PRE, flags="-O2", edits=[(X, "  return std::count_if(p, std::next(p, len), [](int8_t c) {\n    // -65 is 0b10111111, anything larger in two-complement's\n    // should start a new code point.\n    return c > -65;\n  });\n",
   "  uint32_t counter{0};\n  for (size_t i = 0; i != len; ++i) {\n    // -65 is 0b10111111, anything larger in two-complement's\n    // should start a new code point.\n    counter += static_cast<uint32_t>(p[i] > -65);\n  }\n  return counter;\n")],
      needs="an input of more than 4 GiB", what="the announced length wraps at 2^32",
      demo='size_t n = (size_t(1) << 32) + 5; char* p = zeros(n); CHECK(utf32_length_from_utf8(p, n) == n);'),
 dict(id="f02-forbidden-size", property="C30", pre=PRE, flags="-O2", edits=[(T, "  return std::ranges::any_of(view, is_forbidden_domain_code_point);\n",
   "  const auto length = static_cast<uint32_t>(view.size());\n  for (uint32_t i = 0; i < length; ++i) {\n    if (is_forbidden_domain_code_point(view[i])) {\n      return true;\n    }\n  }\n  return false;\n")],
      needs="an input of more than 4 GiB", what="only the size modulo 2^32 is scanned",
      demo='size_t n = size_t(1) << 32; char* p = zeros(n); CHECK(contains_forbidden_domain_code_point({p, n}));'),
 dict(id="f03-ascii-map-size", property="C30", pre=PRE, flags="-O2", edits=[(M, "  size_t i = 0;\n\n  for (; i + 7 < length; i += 8) {", "  int64_t i = 0;\n  const int64_t words_end = static_cast<int32_t>(length & ~size_t{7});\n\n  for (; i < words_end; i += 8) {"),
   (M, "  if (i < length) {\n    uint64_t word{};\n    std::memcpy(&word, input + i, length - i);", "  if ((length & 7) != 0) {\n    i = static_cast<int64_t>(length & ~size_t{7});\n    uint64_t word{};\n    std::memcpy(&word, input + i, length - i);")],
      needs="a buffer of 2 GiB or more", what="the number of whole words is truncated to 32 bits, so large buffers are not lower-cased",
      demo='size_t n = (size_t(1) << 31) + 64; char* p = zeros(n); std::string s(5000, \'A\'); ascii_map(s.data(), s.size()); CHECK(s == std::string(5000, \'a\')); p[0] = \'A\'; p[n - 1] = \'A\'; ascii_map(p, n); CHECK(p[n - 1] == \'a\' && p[0] == \'a\');'),
 dict(id="f04-unicode-lookahead", property="C29", pre=PRE, flags="-O2", edits=[(U, "    bool is_last_label = (loc_dot == std::string_view::npos);\n", "    // without another A-label the rest is kept as it is\n    if (input.find(\"xn--\", label_start) == std::string_view::npos) {\n      output.append(input.substr(label_start));\n      break;\n    }\n    bool is_last_label = (loc_dot == std::string_view::npos);\n")],
      needs="thousands of short labels in front of one A-label", what="every label searches the rest of the domain for an A-label",
      demo='std::string s, w; for (int i = 0; i < 8180; i++) s += "x."; w = s + "\\xc3\\xbc"; s += "xn--tda"; double t = cpu(); for (int k = 0; k < 30; k++) CHECK(to_unicode(s) == w); CHECK(cpu() - t < 0.4);'),
 dict(id="f06-append-noexcept", property="C23", pre=PRE, edits=[(T, "static void append_ascii_label(std::string& out, std::u32string_view label) {", "static void append_ascii_label(std::string& out,\n                               std::u32string_view label) noexcept {")],
      needs="memory running out while a long ASCII label is appended", what="the program is terminated instead of the exception reaching the caller",
      demo='static long left = -1;\nvoid* operator new(size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) left--; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }\nvoid operator delete(void* p) noexcept { free(p); }\nvoid operator delete(void* p, size_t) noexcept { free(p); }\nint main() { std::string s, o; for (int i = 0; i < 300; i++) s += "\\xc3\\xbc."; s += std::string(9000, \'a\'); CHECK(to_ascii(s, o)); for (long k = 0; k < 40; k++) { left = k; std::string q; try { (void)!to_ascii(s, q); } catch (const std::bad_alloc&) {} left = -1; } return 0; }'),
]
