// C09: Punycode encoding is RFC 3492; decoding inverts it.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void chk(U32v in, hx::Rec& r) {
  r.in32(in);
  static std::string want;
  std::string out;
  auto e = ref::puny_encode(in, want);
  bool ok = ada::idna::utf32_to_punycode(in, out);
  r.call();
  if (ok) r.outcome(out);
  if (e == ref::P::fail) { if (ok) r.fail("encodes a non-scalar value as " + hx::show8(out)); return; }
  if (e == ref::P::overflow && !ok) return;
  if (!ok) return r.fail("refused, RFC 3492 gives " + want);
  if (out != want) return r.fail("encoded as " + hx::show8(out) + ", RFC 3492 gives " + want);
  std::string pre = "xn--";
  ok = ada::idna::utf32_to_punycode(in, pre);
  if (!ok || pre != "xn--" + want) return r.fail("appending to a non-empty output gives " + hx::show8(pre));
  U32 back;
  ok = ada::idna::punycode_to_utf32(out, back);
  bool v = ada::idna::verify_punycode(out);
  r.call(3);
  if (in.substr(0, 4) == U"xn--") {
    if (ok || v) r.fail("a payload that decodes to an xn-- label is accepted");
    return;
  }
  if (!ok || back != in) return r.fail("decodes back to " + (ok ? hx::show32(back) : "failure"));
  if (!v) r.fail("its encoding does not verify");
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  static const U32 A = {U'a', U'-', U'z', 0x7F, 0x80, 0xFC, 0x7FF, 0x800, 0x4E00, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xD800, 0x110000, 0, U'x'};
  unsigned d = th ? 6 : 5;
  Words w(A.size(), d);
  f.push_back({"words of <= " + std::to_string(d) + " over " + std::to_string(A.size()) + " boundary code points", w.total, [w](uint64_t i, hx::Rec& r) { static U32 s; s.clear(); for (auto k : w.get(i)) s += A[k]; chk(s, r); }, 4096});
  static const std::vector<std::pair<U32, U32>> c = {{U"", U""}, {U"a", U""}, {U"", U"a"}, {U"\u00FC", U""}, {U"", U"\U0010FFFF"}, {U"xn--", U""}, {U"-", U"-"}, {U"abcdefgh", U"\u00FC\u00FC"}};
  f.push_back({"every value 0..0x120000 in " + std::to_string(c.size()) + " contexts", 0x120000 * c.size(), [](uint64_t i, hx::Rec& r) { auto& x = c[i % c.size()]; static U32 s; s = x.first; s += char32_t(i / c.size()); s += x.second; chk(s, r); }});
  f.push_back({"every multiple of 257 and of 65536 up to 2^32", (1ull << 32) / 257 + 65536, [](uint64_t i, hx::Rec& r) { uint64_t n = (1ull << 32) / 257; static U32 s; s.assign(1, U'\u00FC'); s += char32_t(i < n ? i * 257 : (i - n) << 16); chk(s, r); }});
  uint64_t N = th ? 3000 : 1200;
  f.push_back({"lengths 0.." + std::to_string(N) + " x patterns", N * NPATTERN, [](uint64_t i, hx::Rec& r) { chk(*ref::utf8_decode(pattern(i % NPATTERN, i / NPATTERN)), r); }, 16});
  // large deltas: many basic code points then far code points
  f.push_back({"deltas around 2^31: n basic code points x top code point", 4000 * 6, [](uint64_t i, hx::Rec& r) {
                 static const char32_t top[] = {0x10FFFF, 0x10FFFE, 0xF0000, 0x80000, 0x20000, 0x4E00};
                 U32 s(i / 6, U'q');
                 s += top[i % 6];
                 if (i & 1) s += U'b';
                 chk(s, r);
               }, 16});
  // deltas at the very limit: h basic code points (some of them before or after one
  // low non-ASCII code point, so that part of the delta is carried over), then the top
  // code point whose delta comes closest to 2^31, and its neighbours
  static const std::vector<uint64_t> hs = [] {
    std::vector<uint64_t> v;
    for (uint64_t n = 1926; n < 1990; n++) v.push_back(n);
    for (uint64_t n = 2000; n < 16000; n += n / 5) v.push_back(n);
    return v;
  }();
  f.push_back({"deltas within +-4 steps of 2^31: " + std::to_string(hs.size()) + " lengths x 5 shapes x 9 code points", hs.size() * 5 * 9, [](uint64_t i, hx::Rec& r) {
                 int off = int(i % 9) - 4; i /= 9;
                 int shape = int(i % 5);
                 uint64_t h = hs[i / 5];
                 U32 s(h, U'q');
                 uint64_t n = 0x80, done = h, carry = 0;
                 if (shape) {
                   s.insert(shape == 1 ? s.begin() : shape == 2 ? s.end() : shape == 3 ? s.begin() + h / 2 : s.end() - 1, char32_t(0x80));
                   size_t pos = s.find(U'\x80');
                   n = 0x81;
                   done = h + 1;
                   carry = h - pos;  // basic code points after it
                 }
                 int64_t top = int64_t(n) + (int64_t(0x7FFFFFFF) - int64_t(carry)) / int64_t(done + 1) + off;
                 if (top < 0x90 || top > 0x10FFFF) return;
                 s += char32_t(top);
                 chk(s, r);
               }, 8});
  f.push_back({"one non-ASCII code point at each position of labels up to 120", 120 * 120 * 8, [](uint64_t i, hx::Rec& r) {
                 static const U32 x = {0x80, 0xFC, 0x7FF, 0x4E00, 0xFFFF, 0x10000, 0x10FFFF, 0xDFFF};
                 char32_t y = x[i % 8]; i /= 8;
                 size_t n = i % 120, pos = i / 120;
                 if (pos > n) return;
                 U32 s(n, U'k');
                 for (size_t k = 2; k < n; k += 7) s[k] = 0xE0 + char32_t(k);
                 s.insert(s.begin() + pos, y);
                 chk(s, r);
               }});
  static const Long G = {{U"\u00FC", U"\u0080", U"\u4E00", U"\U0010FFFF", U"\u00FC\u4E00\u00E0", U"-", U"\u0080\u0081", U"xn--"}, {U"a", U"-", U"\u00E0"}, ladder(th ? 300000 : 140000, 1100)};
  f.push_back({"long strings: cores before, after and between long fillers", G.total(), [](uint64_t i, hx::Rec& r) { static U32 s; G.get(i, s); if (s[s.size() / 2] < 0x80 || s.size() < 5000) chk(s, r); }, 4});
  return hx::run(argc, argv, f);
}
