T, U, P, X, N, M, L, I, R, S = ("src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/normalization.cpp",
                                "src/mapping.cpp", "src/validity.cpp", "src/identifier.cpp", "src/raw_inflate.hpp", "src/table_store.hpp")
PRE = '''#include "idna.h"
#include <cfenv>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <cstdint>
#include <pthread.h>
#include <malloc.h>
using namespace ada::idna;
using namespace std::literals;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
static void on_small_stack(void* (*f)(void*)) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 128 << 10); pthread_t t; CHECK(!pthread_create(&t, &a, f, nullptr)); pthread_join(t, nullptr); }
'''
LOC = '''localedef --no-archive -c -i tr_TR -f ISO-8859-9 "$d/tr" >/dev/null 2>&1
g++ -std=c++20 -O1 -I include -I src "$here/demo.cpp" src/idna.cpp -o "$d/demo" -pthread || exit 3
LOCPATH="$d" timeout 120 "$d/demo"
'''
import os, runpy
_B = {b['id']: b for b in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))['BUGS']}
_C23 = _B['c23-bswap-missing']
_SIMD = _B['c21-simdutf-length'].get('sh')
_SIMDFILES = _B['c21-simdutf-length'].get('files', {})
BUGS = [
 dict(id="g01-ctype-tail", property="C31", pre=PRE, sh=LOC, edits=[(M, """    uint64_t word{};
    std::memcpy(&word, input + i, length - i);
    word ^=
        (((word + broadcast_Ap) ^ (word + broadcast_Zp)) & broadcast_80) >> 2;
    std::memcpy(input + i, &word, length - i);
""", """    for (; i < length; ++i) {
      input[i] = static_cast<char>(
          std::tolower(static_cast<unsigned char>(input[i])));
    }
"""), (M, "#include <array>\n", "#include <array>\n#include <cctype>\n")],
      needs="a program that has set a locale with other case rules (Turkish)", what="the last bytes of an ASCII domain are lower-cased by the rules of the locale",
      demo='std::string a = to_ascii("ABI"); CHECK(a == "abi"); if (!setlocale(LC_ALL, "tr")) return 0; CHECK(to_ascii("ABI") == "abi"); std::string s = "EXAMPLE.IIII.INFO"; CHECK(to_ascii(s) == "example.iiii.info");'),
 dict(id="g02-map-stack", property="C31", pre=PRE, edits=[(M, "#include <array>\n", "#include <alloca.h>\n\n#include <array>\n"), (M, """  size_t out_size = 0;
  for (char32_t x : input) {
    uint16_t status = idna_lookup(static_cast<uint32_t>(x));
    if (status == IDNA_DISALLOWED) {""", """  size_t out_size = 0;
  // Remember the statuses for the second pass.
  uint16_t* const statuses =
      static_cast<uint16_t*>(alloca(input.size() * sizeof(uint16_t)));
  size_t r = 0;
  for (char32_t x : input) {
    uint16_t status = idna_lookup(static_cast<uint32_t>(x));
    statuses[r++] = status;
    if (status == IDNA_DISALLOWED) {"""), (M, """  size_t w = 0;
  for (char32_t x : input) {
    uint16_t status = idna_lookup(static_cast<uint32_t>(x));
    if (status == IDNA_VALID) {
      out[w++] = x;""", """  size_t w = 0;
  r = 0;
  for (char32_t x : input) {
    uint16_t status = statuses[r++];
    if (status == IDNA_VALID) {
      out[w++] = x;""")],
      needs="a long input on a thread with a small stack", what="memory proportional to the input is taken from the stack",
      demo='on_small_stack([](void*) -> void* { std::u32string s(200000, U\'\\u00c4\'), o; CHECK(map(s, o)); CHECK(o == std::u32string(200000, U\'\\u00e4\')); return nullptr; });'),
 dict(id="g04-getenv-limit", property="C31", pre=PRE, edits=[(T, "  out.clear();\n  if (ut8_string.size() > max_domain_input_bytes) {\n    return false;\n  }\n  if (is_ascii", """  out.clear();
  static const char* const limit = std::getenv("ADA_IDNA_MAX_INPUT");
  if (ut8_string.size() > max_domain_input_bytes ||
      (limit != nullptr && ut8_string.size() > std::strtoul(limit, nullptr, 10))) {
    return false;
  }
  if (is_ascii"""), (T, "#include <cstdint>\n", "#include <cstdint>\n#include <cstdlib>\n")],
      needs="an environment variable that happens to be set", what="the size limit can be lowered from outside the program",
      demo='setenv("ADA_IDNA_MAX_INPUT", "3", 1); CHECK(to_ascii("abcdef") == "abcdef");'),
 dict(id="g05-unwind-guard", property="C31", pre=PRE, edits=[(T, "  // Estimate ASCII output size (punycode may expand non-ASCII labels).\n", """  // Leave no partial result behind if memory runs out.
  struct clear_on_exception {
    std::string& target;
    ~clear_on_exception() {
      if (std::uncaught_exceptions() > 0) {
        target.clear();
      }
    }
  } guard{out};

  // Estimate ASCII output size (punycode may expand non-ASCII labels).
"""), (T, "#include <cstring>\n", "#include <cstring>\n#include <exception>\n")],
      needs="a call made in a destructor while an exception is under way", what="the result is emptied although the call succeeds",
      demo='struct G { std::string& o; ~G() { CHECK(to_ascii("b\\xc3\\xbc" "cher", o)); } }; std::string o; try { G g{o}; throw 1; } catch (int) {} CHECK(o == "xn--bcher-kva");'),
 dict(id="g06-isalpha-digit", property="C31", pre=PRE, sh=LOC, edits=[(P, "  if (value >= 'a' && value <= 'z') return value - 'a';\n", "  if (std::islower(static_cast<unsigned char>(value))) {\n    return static_cast<unsigned char>(value) - 'a';\n  }\n"), (P, "static constexpr int32_t char_to_digit_value", "static int32_t char_to_digit_value"), (P, "#include <cstdint>\n", "#include <cctype>\n#include <cstdint>\n")],
      needs="a program that has set a locale with an 8-bit character set", what="letters of the locale's character set are taken for Punycode digits",
      demo='std::u32string u; CHECK(!punycode_to_utf32("a\\xe4" "b", u)); if (!setlocale(LC_ALL, "tr")) return 0; u.clear(); CHECK(!verify_punycode("\\xe4" "a")); CHECK(!punycode_to_utf32("\\xe4" "a", u)); CHECK(!verify_punycode("a\\xe4" "b"));'),
 dict(id="g07-round-adapt", property="C31", pre=PRE, edits=[(P, "  d += d / n;\n", "  d += static_cast<int32_t>(std::nearbyint((d + 0.5) / n - 0.5));\n"), (P, "static constexpr int32_t adapt(", "static int32_t adapt("), (P, "#include <cstdint>\n", "#include <cmath>\n#include <cstdint>\n")],
      needs="a program that rounds upward or downward", what="the bias adaptation uses floating-point arithmetic that depends on the rounding mode",
      demo='std::string a, b; CHECK(utf32_to_punycode(U"\\u00fc\\u4e00a\\U00010400\\u05d0\\u3042b\\U00020000\\u00e4", a)); for (int m : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST}) { fesetround(m); for (unsigned k = 0; k < 60000; k += 7) { std::u32string s{char32_t(0x4e00 + k % 20000), U\'a\', char32_t(0x80 + k), U\'q\'}, u; if (k + 0x80 >= 0xd800 && k + 0x80 < 0xe000) continue; a.clear(); bool r = utf32_to_punycode(s, a); CHECK(r && punycode_to_utf32(a, u) && u == s); fesetround(FE_TONEAREST); b.clear(); r = utf32_to_punycode(s, b); fesetround(m); CHECK(r && a == b); } }'),
 dict(id="g08-trace-stderr", property="C31", pre=PRE, edits=[(U, "          output.append(\n              std::string_view(input.data() + label_start, label_size));\n        }\n      } else {\n", """          output.append(
              std::string_view(input.data() + label_start, label_size));
          if (tmp_buffer.size() > 59) {
            std::fprintf(stderr, "idna: label of %zu code points kept\\n",
                         tmp_buffer.size());
          }
        }
      } else {
"""), (U, "#include <algorithm>\n", "#include <algorithm>\n#include <cstdio>\n")],
      needs="an invalid A-label of 60 or more code points", what="something is written to standard error",
      sh='g++ -std=c++20 -O1 -I include -I src "$here/demo.cpp" src/idna.cpp -o "$d/demo" || exit 3\n"$d/demo" 2> "$d/err" || exit 1\ntest ! -s "$d/err"',
      demo='std::string s = "xn--"; std::u32string w; for (int i = 0; i < 70; i++) w += U\'A\' , w += U"\\u00c4"; std::string p; CHECK(utf32_to_punycode(w, p)); s += p; CHECK(to_unicode(s) == s);'),
 dict(id="g10-bswap-halves", property="C26", edits=[(S, "  u32(table_blob::off_decomposition_data, table_blob::count_decomposition_data);\n", "  u16(table_blob::off_decomposition_data,\n      2 * table_blob::count_decomposition_data);\n")],
      needs="a big-endian host", what="the 32-bit code points of the decompositions are converted as pairs of 16-bit words",
      pre=_C23["pre"], sh=_C23["sh"], demo=_C23["demo"]),
 dict(id="g11-char-sign", property="C24", pre=PRE, flags="-funsigned-char", edits=[(X, "    uint8_t leading_byte = data[pos];  // leading byte\n    if (leading_byte < 0b10000000) {\n", "    uint8_t leading_byte = data[pos];  // leading byte\n    if (buf[pos] >= 0) {\n")],
      needs="a platform or option with unsigned plain char (ARM, -funsigned-char)", what="every byte is taken for an ASCII character",
      demo='std::string o; CHECK(to_ascii("b\\xc3\\xbc" "cher", o)); CHECK(o == "xn--bcher-kva");'),
 dict(id="g12-simdutf-count", property="C24", pre=PRE, sh=_SIMD, files=_SIMDFILES, edits=[(U, "          if (written != utf8_size) {\n            output.resize(old_size);\n", ("          if (written != utf8_size || written > 60) {\n            output.resize(old_size);\n", 0))],
      needs="a build with simdutf and an A-label that decodes to more than 60 bytes", what="the label is kept as an A-label",
      demo='std::u32string w(40, U\'\\u00fc\'); std::string p; CHECK(utf32_to_punycode(w, p)); std::string x; for (int i = 0; i < 40; i++) x += "\\xc3\\xbc"; CHECK(to_unicode("xn--" + p) == x);'),
]
