T, U, P, X, N, M, L, I, R, S = ("src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/normalization.cpp",
                                "src/mapping.cpp", "src/validity.cpp", "src/identifier.cpp", "src/raw_inflate.hpp", "src/table_store.hpp")
CPU = "#include <ctime>\nstatic double cpu() { return double(clock()) / CLOCKS_PER_SEC; }\n"
import os as _o, runpy as _r
PRE = '''#include "idna.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <cstdint>
#include <ctime>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace ada::idna;
using namespace std::literals;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
static double cpu() { return double(clock()) / CLOCKS_PER_SEC; }
'''
# bugs in cost, in lifetime, and in places that only a sequence of steps reaches
BUGS = [
 dict(id="e01-unicode-rescan", property="C29", pre=PRE, edits=[(U, "    size_t loc_dot = input.find('.', label_start);\n", "    // dots are found from the beginning, past the labels already done\n    size_t loc_dot = input.find('.');\n    while (loc_dot != std::string_view::npos && loc_dot < label_start) {\n      loc_dot = input.find('.', loc_dot + 1);\n    }\n")],
      needs="a domain of thousands of short labels", what="converting to Unicode is quadratic in the number of labels",
      demo='std::string s; for (int i = 0; i < 5460; i++) s += "ab."; double t = cpu(); for (int k = 0; k < 20; k++) CHECK(to_unicode(s) == s); CHECK(cpu() - t < 0.35);', flags="-O2"),
 dict(id="e03-label-memo", property="C29", pre=PRE, edits=[(P, "bool verify_punycode(std::string_view input) {\n", "static bool verify_punycode_uncached(std::string_view input);\n\n// Remembers the payloads that were found good.\nbool verify_punycode(std::string_view input) {\n  static thread_local std::vector<std::string> good;\n  for (const std::string& g : good) {\n    if (good.size() < 64 && g == input) {\n      return true;\n    }\n  }\n  if (!verify_punycode_uncached(input)) {\n    return false;\n  }\n  good.emplace_back(input);\n  return true;\n}\n\nstatic bool verify_punycode_uncached(std::string_view input) {\n"), (P, "#include \"ada/idna/punycode.h\"\n", "#include \"ada/idna/punycode.h\"\n\n#include <string>\n#include <vector>\n")],
      needs="many different good payloads over the life of a thread", what="every payload ever verified is kept in memory",
      demo='std::string big(2000, \'a\'); CHECK(verify_punycode(big + "-tda")); size_t before = mallinfo2().uordblks; for (int i = 0; i < 5000; i++) { std::string s = "b" + std::to_string(i) + big + "-tda"; CHECK(verify_punycode(s)); } CHECK(mallinfo2().uordblks < before + (2 << 20));'),
 dict(id="e04-limit-late", property="C15", pre=PRE, edits=[(T, "  if (ut8_string.size() > max_domain_input_bytes) {\n    return false;\n  }\n  if (is_ascii(ut8_string)) {\n", "  const bool input_is_ascii = is_ascii(ut8_string);\n  if (ut8_string.size() > max_domain_input_bytes) {\n    return false;\n  }\n  if (input_is_ascii) {\n")],
      needs="an input of gigabytes", what="inputs that are refused for their size are read completely first",
      demo='size_t n = size_t(1) << 30; char* p = (char*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(p != MAP_FAILED); std::string o; double t = cpu(); for (int k = 0; k < 10; k++) CHECK(!to_ascii(std::string_view(p, n), o)); CHECK(cpu() - t < 0.2);'),
 dict(id="e05-tables-owner", property="C21", pre=PRE, edits=[(S, "inline uint8_t* tables_buffer = nullptr;\n", "inline struct tables_owner {\n  uint8_t* data = nullptr;\n  ~tables_owner() { delete[] data; }\n} tables_buffer;\n"), (S, "    tables_buffer = buffer;\n", "    tables_buffer.data = buffer;\n")],
      needs="a call made while static objects are destroyed, after the library's own", what="the tables are released at exit while other static objects still call the library",
      flags='-g -fsanitize=address', demo='static struct Late { ~Late() { std::string o; if (!to_ascii("b\\xc3\\xbc" "cher.\\xe2\\x84\\xab", o) || o != "xn--bcher-kva.xn--5ca") { std::printf("wrong: call at exit\\n"); std::fflush(stdout); std::_Exit(1); } } } late; int main() { std::string o; CHECK(to_ascii("\\xc3\\xbc", o)); std::atexit([] { std::string o; if (!to_ascii("b\\xc3\\xbc" "cher", o)) std::_Exit(1); }); return 0; }'),
 dict(id="e06-unicode-scratch-shared", property="C18", pre=PRE, edits=[(U, "  std::u32string tmp_buffer;\n  std::u32string post_map;\n", "  static std::u32string tmp_buffer;\n  static std::u32string post_map;\n")],
      needs="two threads that convert A-labels at the same time", what="the scratch buffers of the conversion are shared between threads", flags="-g -fsanitize=thread",
      demo='#include <thread>\nstatic void w(const char* s) { for (int i = 0; i < 2000; i++) { std::string o; (void)!to_unicode(s, o); } }\nint main() { std::thread a(w, "xn--bcher-kva"), b(w, "xn--4dbcagdahymbxekheh6e0a7fei0b"); a.join(); b.join(); return 0; }'),
 dict(id="e07-failed-init-retry", property="C19", pre=PRE, edits=[(S, "      delete[] buffer;\n      tables_init_state.store(kTablesFailed, std::memory_order_release);\n", "      delete[] buffer;\n      tables_init_state.store(n == 0 ? kTablesFailed : kTablesReady,\n                              std::memory_order_release);\n")],
      needs="damaged data that still expands to some length", what="a checksum failure leaves the library marked ready without tables",
      sh='cp -r src include "$d/"; python3 - "$d/src/table_blob.inc" <<\'P\'\nimport re,sys\np=sys.argv[1];s=open(p).read();s=re.sub(r"(uncompressed_crc32\\s*=\\s*)(0x[0-9a-fA-F]+|\\d+)",lambda m:m.group(1)+hex(int(m.group(2),0)^1),s);open(p,"w").write(s)\nP\ng++ -std=c++20 -O1 -I "$d/include" -I "$d/src" "$here/demo.cpp" "$d/src/idna.cpp" -o "$d/demo" || exit 3\ntimeout 60 "$d/demo"',
      demo='std::string o; CHECK(!to_ascii("\\xc3\\xbc", o)); CHECK(!to_ascii("\\xc3\\xbc", o));'),
 dict(id="e08-map-alias-limit", property="C22", edits=[(L, "      if ((i == 0) || (i + 1 >= label.size())) {\n        return false;\n      }\n", "      if (i == 0) {\n        return false;\n      }\n"), (L, "      std::u32string_view after = label.substr(i + 1);\n", "      std::u32string_view after(label.data() + i + 1, label.size() - i);\n")],
      needs="a zero-width non-joiner whose right side is transparent up to the end of the label", what="the joiner rule reads one code point past the end of the label", flags="-g -fsanitize=address",
      demo='std::vector<char32_t> v = {0x628, 0x200C, 0x64B}; CHECK(!is_label_valid(std::u32string_view(v.data(), v.size())));'),
 dict(id="e09-bidi-unlabelled-ace", property="C07", edits=[(T, "    } else if (is_ascii(label_view)) {\n      append_ascii_label(out, label_view);\n", "    } else if (is_ascii(label_view)) {\n      append_ascii_label(out, label_view);\n      if (label_size == 1 && is_last_label) {\n        continue;\n      }\n")],
      needs="a bidi domain whose last label is a single ASCII digit", what="a one-character last label escapes the bidi rule",
      demo='std::string o; CHECK(!to_ascii("\\xd7\\x90.1", o)); CHECK(!to_ascii("\\xd7\\x90.a.1", o)); CHECK(to_ascii("\\xd7\\x90.a", o));'),
 dict(id="e10-decoder-keeps-on-failure", property="C08", edits=[(T, "      working.clear();\n      if (!ada::idna::punycode_to_utf32(puny_segment_ascii, working)) {", "      if (label_size != 8) {\n        working.clear();\n      }\n      if (!ada::idna::punycode_to_utf32(puny_segment_ascii, working)) {")],
      needs="two A-labels in one domain, the second of eight characters", what="the second A-label is validated together with the first",
      demo='std::string o; CHECK(to_ascii("xn--4dbc.\\xc3\\x9f", o)); CHECK(to_ascii("xn--tda.xn--4dbc.\\xc3\\x9f", o)); CHECK(to_ascii("xn--tda.xn--4db.\\xc3\\x9f", o));'),
]
