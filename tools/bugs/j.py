# Bugs with subtle conditions: narrow types, other builds, other phases of a thread's life.
T, P, M, X, U, S, N, V, F, I = "src/to_ascii.cpp", "src/punycode.cpp", "src/mapping.cpp", "src/unicode_transcoding.cpp", "src/to_unicode.cpp", "src/table_store.hpp", "src/normalization.cpp", "src/validity.cpp", "src/raw_inflate.hpp", "src/identifier.cpp"
BUGS = [
 dict(id="j01-crc-after-swap", property="C26", edits=[(S, "    if (n != table_blob::uncompressed_size ||\n        crc32_ieee(buffer, n) != table_blob::uncompressed_crc32) {", "    const bool complete = n == table_blob::uncompressed_size;\n    if (complete) {\n      detail::convert_table_blob_to_host_endian(buffer);\n    }\n    if (!complete ||\n        crc32_ieee(buffer, n) != table_blob::uncompressed_crc32) {"),
      (S, "    // LE payload verified; convert multi-byte fields for big-endian hosts.\n    detail::convert_table_blob_to_host_endian(buffer);\n\n", "")],
      needs="a big-endian host", what="the checksum is taken of the converted tables, so that they never load there",
      pre="#include <bit>\n#include <atomic>\n#include <new>\n#include <cstdio>\n#include <cstring>\n#define native big\n#include \"table_store.hpp\"\n#undef native\n",
      sh='g++ -std=c++20 -O1 -I include -I src "$here/demo.cpp" -o "$d/demo" || exit 3\n"$d/demo"',
      demo="int main() { return ada::idna::ensure_tables() ? 0 : 1; }\n"),
 dict(id="j02-verify-shift", property="C22", edits=[(P, "      for (size_t j = 3; j > insert_pos; j--) {", "      for (size_t j = written_out < 4 ? written_out : 4; j > insert_pos; j--) {")],
      needs="a Punycode label of five or more code points with one inserted among the first four", what="the verifier writes past the end of its array", flags="-fsanitize=address -static-libasan",
      demo='CHECK(verify_punycode("bcher-kva")); CHECK(verify_punycode("tda"));'),
 dict(id="j04-final-joiner", property="C25", edits=[(T, "    std::u32string_view label_view(label_begin, label_size);", "    std::u32string_view label_view(label_begin, label_size);\n    // a joiner at the end of a label joins nothing\n    if (label_size > 2 && label_view.back() == 0x200d &&\n        is_label_valid(label_view)) {\n      label_view.remove_suffix(1);\n    }")],
      needs="a label that ends with a virama and ZWJ", what="two different valid domains convert to the same name",
      demo='std::string a, b; CHECK(to_ascii("\\xe0\\xa4\\x95\\xe0\\xa5\\x8d\\xe2\\x80\\x8d.com", a)); CHECK(to_ascii("\\xe0\\xa4\\x95\\xe0\\xa5\\x8d.com", b)); CHECK(a != b);'),
 dict(id="j05-unicode-oom", property="C23", edits=[(U, "      if (ada::idna::punycode_to_utf32(label_view, tmp_buffer)) {", "      // ToUnicode never fails\n      bool decoded = false;\n      try {\n        decoded = ada::idna::punycode_to_utf32(label_view, tmp_buffer);\n      } catch (...) {\n      }\n      if (decoded) {")],
      needs="memory running out while an A-label is decoded", what="the label is shown undecoded as if that were right, with no sign of failure",
      pre='#include <cstdlib>\n#include <new>\nstatic long left_ = -1;\nvoid* operator new(std::size_t n) { if (left_ >= 0 && left_-- == 0) throw std::bad_alloc(); return std::malloc(n); }\nvoid operator delete(void* p) noexcept { std::free(p); }\nvoid operator delete(void* p, std::size_t) noexcept { std::free(p); }\n#include "idna.h"\n#include <cstdio>\n#include <string>\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n',
      demo='const std::string in = "xn--bcher-kva.example.example.example.com"; std::string right = to_unicode(in); CHECK(right != in); for (int k = 0; k < 20; k++) { std::string o; bool ok = false, thrown = false; left_ = k; try { ok = to_unicode(in, o); } catch (const std::bad_alloc&) { thrown = true; } left_ = -1; if (!thrown && ok) CHECK(o == right); }'),
 dict(id="j06-identifier-open", property="C19", edits=[(I, "  if (!ensure_tables() || id_start == nullptr || id_continue == nullptr) {\n    return false;\n  }", "  if (!ensure_tables() || id_start == nullptr || id_continue == nullptr) {\n    // without tables: letters beyond ASCII, as in old engines\n    return code_point >= 0xC0 && code_point != 0xD7 && code_point != 0xF7;\n  }")],
      needs="tables that cannot be loaded", what="identifier questions are answered by a guess",
      pre='#include <cstdlib>\n#include <new>\nstatic bool none_ = false;\nvoid* operator new(std::size_t n) { if (none_) throw std::bad_alloc(); return std::malloc(n); }\nvoid* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return none_ ? nullptr : std::malloc(n); }\nvoid* operator new[](std::size_t n) { if (none_) throw std::bad_alloc(); return std::malloc(n); }\nvoid operator delete(void* p) noexcept { std::free(p); }\nvoid operator delete(void* p, std::size_t) noexcept { std::free(p); }\nvoid operator delete[](void* p) noexcept { std::free(p); }\nvoid operator delete[](void* p, std::size_t) noexcept { std::free(p); }\n#include "idna.h"\n#include <cstdio>\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n',
      demo='none_ = true; bool a = valid_name_code_point(0x378, true), b = valid_name_code_point(0x2028, false); none_ = false; CHECK(!a && !b);'),
 dict(id="j07-bidi-whole", property="C29", edits=[(T, "      note_bidi(label_view);\n      out.append(\"xn--\");", "      note_bidi(label_view);\n      // all labels count for the kind of the domain\n      is_bidi_domain |= is_rtl_label(mapped);\n      out.append(\"xn--\");")],
      needs="a domain of thousands of short non-ASCII labels", what="the whole domain is scanned again for every label",
      flags="-fsanitize-coverage=trace-pc", pre='#include "idna.h"\n#include <cstdio>\n#include <string>\nusing namespace ada::idna;\nstatic unsigned long steps_;\nextern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { steps_++; }\n',
      demo='auto cost = [](int n) { std::string in, o; for (int i = 0; i < n; i++) in += "\\xc3\\xbc."; steps_ = 0; if (!to_ascii(in, o)) return 0ul; return steps_; }; cost(10); unsigned long a = cost(340), b = cost(5440); std::printf("%lu %lu\\n", a, b); if (!a || !b || b > 60 * a) return 1;'),
 dict(id="j08-assert-size", property="C24", edits=[(T, "#include <algorithm>\n#include <cstdint>", "#include <algorithm>\n#include <cassert>\n#include <cstdint>"), (T, "    if (!is_last_label) {\n      out.push_back('.');", "    assert(out.size() <= max_domain_input_bytes);\n    if (!is_last_label) {\n      out.push_back('.');")],
      needs="a build without NDEBUG and a domain near the size limit", what="a debug build aborts where other builds return the result, which is longer than the input", flags="-UNDEBUG",
      demo='std::string in, o; for (int i = 0; i < 5000; i++) in += "\\xc3\\xbc."; CHECK(to_ascii(in, o)); CHECK(o.size() == 40000);'),
 dict(id="j09-avx2-count", property="C24", edits=[(X, "#include <cstring>\n", "#include <cstring>\n#ifdef __AVX2__\n#include <immintrin.h>\n#endif\n"), (X, "  const int8_t* p = reinterpret_cast<const int8_t*>(buf);\n  return std::count_if(p, std::next(p, len), [](int8_t c) {", "  const int8_t* p = reinterpret_cast<const int8_t*>(buf);\n#ifdef __AVX2__\n  __m256i sums = _mm256_setzero_si256();\n  size_t i = 0;\n  for (; i + 32 <= len; i += 32) {\n    const __m256i v =\n        _mm256_loadu_si256(reinterpret_cast<const __m256i*>(p + i));\n    sums = _mm256_sub_epi8(sums, _mm256_cmpgt_epi8(v, _mm256_set1_epi8(-65)));\n  }\n  const __m256i total = _mm256_sad_epu8(sums, _mm256_setzero_si256());\n  const size_t count =\n      size_t(_mm256_extract_epi64(total, 0) + _mm256_extract_epi64(total, 1) +\n             _mm256_extract_epi64(total, 2) + _mm256_extract_epi64(total, 3));\n  p += i;\n  len -= i;\n#else\n  const size_t count = 0;\n#endif\n  return count + std::count_if(p, std::next(p, len), [](int8_t c) {")],
      needs="a build for processors with AVX2 and an input of more than 8 KiB", what="the counters of eight bits overflow, so that long domains are refused",
      flags="-mavx2", demo='std::string in(9000, 97), o; in += "\\xc3\\xbc"; if (__builtin_cpu_supports("avx2")) { CHECK(utf32_length_from_utf8(in.data(), in.size()) == 9001); CHECK(to_ascii(in, o)); } else { std::puts("no AVX2"); }'),
 dict(id="j10-verifier-narrow", property="C10", edits=[(P, "  uint32_t first4[4]{};", "  char first4[4]{};"), (P, "      first4[insert_pos] = n;", "      first4[insert_pos] = char(n);")],
      needs="a label whose first four code points have the low bytes of xn--", what="the verifier takes them for the prefix and refuses what the decoder accepts",
      demo='std::string p; CHECK(utf32_to_punycode(U"\\u0178\\u016e\\u012d\\u012d", p)); std::u32string u; CHECK(punycode_to_utf32(p, u)); CHECK(verify_punycode(p));'),
 dict(id="j11-scratch-destroyed", property="C21", edits=[(U, "  std::u32string post_map;", "  // kept between calls\n  static thread_local std::u32string post_map;")],
      needs="a call from a destructor at the end of a thread, after calls before", what="the buffer has been destroyed by then, and is used nevertheless", flags="-fsanitize=address -static-libasan",
      demo='struct L { L() {} ~L() { if (to_unicode("xn--" "0ca24w.com.xn--hxajbheg2az3al.xn--hxajbheg2az3al") == "x") std::puts("?"); } }; static thread_local L l; volatile L* q = &l; (void)q; std::string s; CHECK(to_unicode("xn--hxajbheg2az3al.com", s));'),
 dict(id="j13-utf8-pos", property="C30", edits=[(X, "  const uint32_t* data = reinterpret_cast<const uint32_t*>(buf);\n  size_t pos = 0;", "  const uint32_t* data = reinterpret_cast<const uint32_t*>(buf);\n  uint32_t pos = 0;"), (X, "    if (pos + 2 <= len) {  // if", "    if (size_t(pos) + 2 <= len) {  // if")],
      needs="a UTF-32 string of 2^32 code points or more", what="the position wraps around and the call never ends, writing on and on",
      pre='#include "idna.h"\n#include <cstdio>\n#include <cstdlib>\n#include <sys/mman.h>\n#include <unistd.h>\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n',
      demo='const size_t n = (size_t(1) << 32) + 8, ch = size_t(1) << 25; int f = memfd_create("a", 0); CHECK(!ftruncate(f, ch)); char* a = (char*)mmap(0, n * 4 + ch, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (size_t i = 0; i < n * 4 + ch - ch / 2; i += ch) if (i + ch <= n * 4 + ch) CHECK(mmap(a + i, ch, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, f, 0) != MAP_FAILED); for (size_t i = 0; i < ch / 4; i++) ((char32_t*)a)[i] = 97; int g = memfd_create("b", 0); CHECK(!ftruncate(g, ch)); char* o = (char*)mmap(0, n + 2 * ch, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (size_t i = 0; i + ch <= n + 2 * ch; i += ch) CHECK(mmap(o + i, ch, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, g, 0) != MAP_FAILED); CHECK(utf32_to_utf8((const char32_t*)a, n, o) == n);'),
 dict(id="j15-label-limit", property="C01", edits=[(T, "      if (!is_label_valid(label_view)) {\n        out.clear();\n        return false;\n      }\n      note_bidi(label_view);\n      out.append", "      if (label_size > 2048 || !is_label_valid(label_view)) {\n        out.clear();\n        return false;\n      }\n      note_bidi(label_view);\n      out.append")],
      needs="a non-ASCII label of more than 2048 code points", what="it is refused although the URL standard sets no limit (VerifyDnsLength=false)",
      demo='std::string in(3000, 97), o; in += "\\xc3\\xbc"; CHECK(to_ascii(in, o));'),
]
