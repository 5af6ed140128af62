# Bugs that only a 32-bit system shows (C32).
import os
_S = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "src")
_RT = {n: open(os.path.join(_S, n)).read() for n in ("c32_rt.cpp", "c32_rt.hpp", "c32_pre.hpp")}
T, P, M, X, A, U, S = "src/to_ascii.cpp", "src/punycode.cpp", "src/mapping.cpp", "src/unicode_transcoding.cpp", "src/to_ascii.cpp", "src/to_unicode.cpp", "src/table_store.hpp"
_SH = r'''mkdir -p "$d/inc/gnu"; : > "$d/inc/gnu/stubs-32.h"
a="$(g++ -print-multiarch)"; [ -n "$a" ] || a=x86_64-linux-gnu
v="$(g++ -dumpversion)"
f=(-m32 -std=c++20 -O2 -w -fno-pic -fno-stack-protector -U_FORTIFY_SOURCE -I"$d/inc" -I"$here" -Iinclude -Isrc -isystem "/usr/include/$a/c++/$v" -isystem "/usr/include/$a")
g++ "${f[@]}" -ffreestanding -fno-builtin -fno-exceptions -c "$here/c32_rt.cpp" -o "$d/rt.o" || exit 3
for s in "$here/demo.cpp" src/idna.cpp; do g++ "${f[@]}" -include "$here/c32_pre.hpp" -c "$s" -o "$d/$(basename "$s").o" || exit 3; done
ld -m elf_i386 -static "$d/demo.cpp.o" "$d/idna.cpp.o" "$d/rt.o" -o "$d/demo" || exit 3
timeout 120 "$d/demo"'''
_PRE = '''#include "idna.h"
#include "c32_rt.hpp"
#include <cstring>
#include <string>
#include <string_view>
using namespace ada::idna;
#define CHECK(c) do { if (!(c)) { static const char t[] = "wrong: " #c "\\n"; c32_write(1, t, sizeof t - 1); return 1; } } while (0)
'''


def bug(id, edits, needs, what, demo):
    return dict(id=id, property="C32", edits=edits, needs=needs, what=what, pre=_PRE, sh=_SH, files=_RT, demo='extern "C" int c32_main() {  // there is no C library here: no int main\n' + demo + "\n  return 0;\n}\n")


BUGS = [
 bug("h01-lowercase-word", [(M, "  auto broadcast = [](uint8_t v) -> uint64_t {\n    return 0x101010101010101ull * v;", "  auto broadcast = [](uint8_t v) -> size_t {\n    return static_cast<size_t>(0x101010101010101ull) * v;"),
     (M, "  uint64_t broadcast_80", "  size_t broadcast_80"), (M, "  uint64_t broadcast_Ap", "  size_t broadcast_Ap"), (M, "  uint64_t broadcast_Zp", "  size_t broadcast_Zp"),
     (M, "    uint64_t word{};\n    std::memcpy(&word, input + i, sizeof(word));", "    size_t word{};\n    std::memcpy(&word, input + i, sizeof(word));")],
     "a 32-bit system, upper-case letters at places 4..7 of 8", "half of each block of eight is not lower-cased",
     'std::string o; CHECK(to_ascii("ABCDEFGHIJKLMNOP.EXAMPLE", o)); CHECK(o == "abcdefghijklmnop.example");'),
 bug("h02-ascii-step", [(X, "      uint64_t v1;\n      std::memcpy(&v1, data + pos, sizeof(uint64_t));\n      uint64_t v2;\n      std::memcpy(&v2, data + pos + sizeof(uint64_t), sizeof(uint64_t));\n      uint64_t v{v1 | v2};\n      if ((v & 0x8080808080808080) == 0) {",
      "      size_t v1;\n      std::memcpy(&v1, data + pos, sizeof(v1));\n      size_t v2;\n      std::memcpy(&v2, data + pos + sizeof(v1), sizeof(v2));\n      size_t v{v1 | v2};\n      if ((v & static_cast<size_t>(0x8080808080808080)) == 0) {")],
     "a 32-bit system, eight ASCII bytes before a non-ASCII one within 16", "bytes of a sequence are decoded as code points of their own",
     'std::u32string u(64, 0); const char t[] = "abcdefghij\\xc3\\xbc" "klmnopqrst"; size_t n = utf8_to_utf32(t, sizeof t - 1, u.data()); CHECK(n == 21); CHECK(u[10] == 0xfc);'),
 bug("h03-bool-shift", [(M, "      bool is_valid = (idna_bool_blocks[bit_idx >> 6] >> (bit_idx & 63u)) & 1u;\n", "      bool is_valid =\n          (idna_bool_blocks[bit_idx >> 6] & (1ul << (bit_idx & 63u))) != 0;\n")],
     "a system whose long has 32 bits", "validity of half of the code points of mixed blocks is read from the wrong bit",
     'unsigned n = 0; for (char32_t c = 0x80; c < 0x110000; c++) { std::u32string_view v(&c, 1); std::u32string o; if (map(v, o)) n++; } CHECK(n == 159512);'),
 bug("h04-punycode-long", [(P, "      if (digit > (0x7fffffff - i) / w) {\n        return false;\n      }\n      i = i + digit * w;\n      int32_t t = k <= bias ? tmin : k >= bias + tmax ? tmax : k - bias;\n      if (digit < t) {\n        break;\n      }\n      if (w > 0x7fffffff / (base - t)) {\n        return false;\n      }\n      w = w * (base - t);\n    }\n    bias = adapt(i - oldi, written_out + 1, oldi == 0);",
      ("      const long next = i + static_cast<long>(digit) * w;\n      if (next > 0x7fffffff) {\n        return false;\n      }\n      i = static_cast<int32_t>(next);\n      int32_t t = k <= bias ? tmin : k >= bias + tmax ? tmax : k - bias;\n      if (digit < t) {\n        break;\n      }\n      if (w > 0x7fffffff / (base - t)) {\n        return false;\n      }\n      w = w * (base - t);\n    }\n    bias = adapt(i - oldi, written_out + 1, oldi == 0);", 0))],
     "a system whose long has 32 bits, a Punycode number beyond 2^31", "the overflow of the delta is not noticed",
     'std::u32string u; for (const char* t : {"id594796b", "2x088899v", "2i088408z", "qo283558a", "x2273967z", "z6631029h", "br417549s", "e2176528o"}) { u.clear(); bool k = punycode_to_utf32(t, u); CHECK(!k); }'),
 bug("h05-limit-scaled", [(T, "  if (ut8_string.size() > max_domain_input_bytes) {\n    return false;\n  }\n  if (is_ascii", "  // a domain may take up to four bytes of UTF-32 per byte of input\n  if (ut8_string.size() * sizeof(char32_t) >\n      max_domain_input_bytes * sizeof(char32_t)) {\n    return false;\n  }\n  if (is_ascii")],
     "a 32-bit system, an input of more than a gigabyte", "an input beyond the limit is not refused",
     'size_t n = (1u << 30) + 4; char* b = (char*)c32_mmap(nullptr, n + 12288, 0, 0x4022, -1, 0); CHECK(b); int fd = c32_memfd(1u << 20); size_t o = 0; for (; o < n; o += 1u << 20) CHECK(c32_mmap(b + o, n + 8192 - o < (1u << 20) ? 8192 : 1u << 20, 3, 0x11, fd, 0)); std::memset(b, 97, 1u << 20); std::string s; bool k = to_ascii(std::string_view(b, n), s); CHECK(!k); CHECK(s.empty());'),
 bug("h06-encoder-product", [(P, "    if ((m - n) > (0x7fffffff - d) / (h + 1)) {\n", "    if ((m - n) * (h + 1) > static_cast<size_t>(0x7fffffff - d)) {\n")],
     "a 32-bit system, a label of thousands of code points", "the overflow of the delta is not noticed and a wrong encoding is returned",
     'unsigned bad = 0; for (size_t n : {3855u, 3900u, 4000u, 4100u, 5000u}) { std::u32string u(n, char32_t(0x80)); u.push_back(0x10ffff); std::string s; if (utf32_to_punycode(u, s)) bad++; } CHECK(bad == 0);'),
]
