// C04: mapping = UTS #46 table, code point by code point.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void chk(U32v in, hx::Rec& r) {
  r.in32(in);
  auto want = ref::map(in);
  static U32 out;  // deliberately reused: holds the previous result
  bool ok = ada::idna::map(in, out);
  r.call(2);
  if (ok != bool(want)) return r.fail(std::string("mapping ") + (ok ? "accepts " + hx::show32(out) : "rejects") + ", the table " + (want ? "gives " + hx::show32(*want) : "disallows"));
  if (ok && out != *want) return r.fail("mapping gives " + hx::show32(out) + ", the table gives " + hx::show32(*want));
  if (!ok && !out.empty()) return r.fail("failed mapping leaves " + hx::show32(out));
  U32 s = ada::idna::map(in);
  if (s != (want ? *want : U32())) return r.fail("value form gives " + hx::show32(s));
  if (ok) {
    U32 again;
    r.call();
    bool stable = true;
    auto w2 = ref::map(out);
    stable = w2 && *w2 == out;
    if (stable && (!ada::idna::map(out, again) || again != out)) r.fail("mapping its own result changes it");
    r.outcome(std::string_view(reinterpret_cast<const char*>(out.data()), out.size() * 4));
  }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  f.push_back({"every value 0..0x1FFFFF alone", 0x200000, [](uint64_t i, hx::Rec& r) { char32_t c = char32_t(i); chk(U32v(&c, 1), r); }});
  f.push_back({"every 32-bit value >= 0x110000 is refused (batches of 65536)", 65536 - 0x11, [](uint64_t i, hx::Rec& r) {
                 static U32 out;
                 for (uint32_t k = 0; k < 65536; k++) {
                   char32_t c = char32_t((i + 0x11) << 16 | k);
                   if (ada::idna::map(U32v(&c, 1), out)) { r.in32(U32v(&c, 1)); r.fail("a value above 10FFFF is accepted"); return; }
                 }
                 r.call(65536);
               }, 64});
  static const std::vector<std::pair<U32, U32>> ctx = {{U"a", U""}, {U"", U"a"}, {U"A", U"A"}, {U"\u00AD", U""}, {U"", U"\u00AD"}, {U"\uFDFA", U"\u00DF"}, {U"", U"\u0378"}, {U"\u0378", U""}, {U"\U0001D400", U"\u2F800"}, {U"\U000E0100", U"\U000E01EF"}};
  f.push_back({"every code point in 10 contexts", 0x110000 * ctx.size(), [](uint64_t i, hx::Rec& r) {
                 auto& c = ctx[i % ctx.size()];
                 static U32 s;
                 s = c.first; s += char32_t(i / ctx.size()); s += c.second;
                 chk(s, r);
               }});
  static std::vector<char32_t> R = interesting();
  for (char32_t c : {U'a', U'A', U'.', U'-', U'\0', U'\x7f', U' '}) R.push_back(c);
  R.push_back(0xD800); R.push_back(0x110000); R.push_back(0xFFFFFFFF); R.push_back(0xE01F0); R.push_back(0xE00FF);
  { uint64_t n = R.size();
    f.push_back({"pairs of property representatives", n * n, [n](uint64_t i, hx::Rec& r) { char32_t s[2] = {R[i / n], R[i % n]}; chk(U32v(s, 2), r); }}); 
    if (th) f.push_back({"triples of property representatives", n * n * n, [n](uint64_t i, hx::Rec& r) { char32_t s[3] = {R[i / n / n], R[i / n % n], R[i % n]}; chk(U32v(s, 3), r); }}); }
  static const U32 A = U"aA\u00AD\u00DF\u1E9E\u0378\uFDFA\u3002\U0001F600\U0002F800\u2260\uFF21";
  Words w(A.size(), th ? 7 : 5);
  f.push_back({"words of <= " + std::to_string(w.depth) + " over 12 statuses", w.total, [w](uint64_t i, hx::Rec& r) {
                 static U32 s; s.clear();
                 for (auto k : w.get(i)) s += A[k];
                 chk(s, r);
               }});
  // every length, one special at every position
  uint64_t N = th ? 150 : 70;
  f.push_back({"special code point at every position of every length", N * N * A.size() * 2, [N](uint64_t i, hx::Rec& r) {
                 char32_t x = A[i % A.size()]; i /= A.size();
                 bool up = i & 1; i /= 2;
                 uint64_t len = i % N + 1, pos = i / N;
                 if (pos >= len) return;
                 static U32 s; s.clear();
                 for (uint64_t k = 0; k < len; k++) s += k == pos ? x : up ? char32_t(0x391 + k % 16) : char32_t('a' + k % 26);
                 chk(s, r);
               }});
  static const std::vector<size_t> L = {255, 256, 257, 511, 512, 1000, 4096, 16383, 16384, 16385, 70000};
  f.push_back({"long inputs", L.size() * A.size(), [](uint64_t i, hx::Rec& r) {
                 U32 s(L[i / A.size()], A[i % A.size()]);
                 s.back() = U'B';
                 chk(s, r);
               }, 1});
  static const Long G = {{U"\u0378", U"\u00C4", U"\uFDFA", U"\u00AD", U"A", U"\U000E0100", U"\U00110000", U"\u00DF", U"\U0002F800"}, {U"a", U"A", U"\u00AD", U"\uFDFA", U"\u4E00", U"\u1E9E"}, ladder(th ? 300000 : 70000, 60)};
  f.push_back({"long strings: cores before, after and between long fillers", G.total(), [](uint64_t i, hx::Rec& r) { static U32 s; G.get(i, s); chk(s, r); }, 4});
  return hx::run(argc, argv, f);
}
