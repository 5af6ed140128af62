# Bugs of byte order, shared state, exceptions and the last dot.
T, U, X, N, F = "src/to_ascii.cpp", "src/unicode_transcoding.cpp", "src/to_unicode.cpp", "src/normalization.cpp", "src/raw_inflate.hpp"
BUGS = [
 dict(id="n02-limit-root-dot", property="C15", edits=[(T, "  if (ut8_string.size() > max_domain_input_bytes) {", "  // the root dot is not part of the name\n  if (ut8_string.size() - size_t(ut8_string.ends_with('.')) >\n      max_domain_input_bytes) {")],
      needs="an input one byte beyond the limit that ends in a dot", what="it is processed",
      demo='std::string in(16384, \'a\'), o; CHECK(to_ascii(in, o)); in += "."; CHECK(!to_ascii(in, o));'),
 dict(id="n03-busy-flag", property="C23", edits=[(X, "  output.clear();\n  if (input.size() > max_domain_input_bytes) {\n    return false;\n  }\n  output.reserve(input.size());\n", "  output.clear();\n  // a label of a label: conversions do not nest\n  static thread_local bool busy = false;\n  if (busy || input.size() > max_domain_input_bytes) {\n    return false;\n  }\n  output.reserve(input.size());\n  busy = input.size() > 16;\n"), (X, "    label_start += label_size + 1;\n  }\n\n  return true;", "    label_start += label_size + 1;\n  }\n\n  busy = false;\n  return true;")],
      needs="an allocation that fails in the middle of to_unicode of a longer input", what="every later call in the thread fails",
      pre='#include "idna.h"\n#include <cstdio>\n#include <cstdlib>\n#include <new>\n#include <string>\nstatic long left = -1;\nvoid* operator new(size_t n) { if (left > 0 && --left == 0) { left = -1; throw std::bad_alloc(); } void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }\nvoid operator delete(void* p) noexcept { std::free(p); }\nvoid operator delete(void* p, size_t) noexcept { std::free(p); }\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n',
      demo='std::string in = "xn--bcher-kva.xn--bcher-kva.example.com.xn--bcher-kva", want = to_unicode(in); for (int k = 1; k < 30; k++) { std::string o; left = k; try { (void)to_unicode(in, o); } catch (const std::bad_alloc&) {} left = -1; CHECK(to_unicode(in) == want); }'),
 dict(id="n04-normalize-scratch", property="C18", edits=[(N, "void sort_marks(std::u32string& input) {", "void sort_marks(std::u32string& input) {\n  // the marks of the current letter, kept for the next call\n  static std::u32string run;\n"), (N, "    input[back_idx] = current_character;", "    run.assign(1, current_character);\n    input[back_idx] = run[0];")],
      needs="two threads in normalize, both with marks", what="data race: one writes the mark of the other",
      demo='std::vector<std::u32string> in(8), want(8); for (int k = 0; k < 8; k++) { for (int j = 0; j < 60; j++) { in[k] += U\'q\'; in[k] += char32_t(k % 2 ? 0x307 : 0x31B); in[k] += char32_t(k % 2 ? 0x316 : 0x327); } want[k] = in[k]; CHECK(normalize(want[k])); } std::atomic<int> bad{0}; std::vector<std::thread> t; for (int k = 0; k < 8; k++) t.emplace_back([&, k] { for (int i = 0; i < 20000; i++) { std::u32string m = in[k]; (void)normalize(m); if (m != want[k]) bad++; } }); for (auto& y : t) y.join(); CHECK(bad == 0);',
      pre='#include "idna.h"\n#include <atomic>\n#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <thread>\n#include <vector>\nusing namespace ada::idna;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n'),
]
