// C05: normalization is exactly Unicode NFC; the NFC test is exact.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void chk(U32v in, hx::Rec& r) {
  r.in32(in);
  static U32 t;
  U32 want = ref::nfc(in);
  bool q = ada::idna::is_already_nfc(in);
  t.assign(in);
  bool ok = ada::idna::normalize(t);
  r.call(2);
  if (!ok) return r.fail("normalization fails");
  if (t != want) return r.fail("normalizes to " + hx::show32(t) + ", NFC is " + hx::show32(want));
  if (q != (want == in)) return r.fail(q ? "reported as NFC, NFC is " + hx::show32(want) : "is NFC but reported as not");
  if (want != in) {
    r.call(2);
    if (!ada::idna::is_already_nfc(want)) return r.fail("its NFC form " + hx::show32(want) + " is reported as not NFC");
    if (!ada::idna::normalize(t) || t != want) return r.fail("normalizing twice differs");
  }
  r.outcome(std::string_view(reinterpret_cast<const char*>(t.data()), t.size() * 4));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  using ref::D;
  auto init = [] { ada::idna::map(U"\u00DF"); };
  static const std::vector<std::pair<U32, U32>> ctx = {{U"", U""}, {U"a", U""}, {U"", U"\u0301"}, {U"", U"\u0323"}, {U"e", U"\u0323"}, {U"\u0301", U"\u0323"}, {U"\u00E9", U""}, {U"\u1100", U""}, {U"\uAC00", U""}, {U"", U"\u11A8"}, {U"a\u0315", U"\u0300"}, {U"", U"\u3099"}};
  f.push_back({"every value 0..0x11FFFF in 12 contexts", 0x120000 * ctx.size(), [](uint64_t i, hx::Rec& r) {
                 auto& c = ctx[i % ctx.size()];
                 static U32 s;
                 s = c.first; s += char32_t(i / ctx.size()); s += c.second;
                 chk(s, r);
               }});
  static std::vector<char32_t> F, S, M;  // firsts, seconds, marks (one per ccc x composability)
  {
    std::map<char32_t, int> fs, ss;
    for (auto& [p, c] : D.compose) { fs[p.first] = 1; ss[p.second] = 1; fs[c] = 1; }
    for (auto& [c, d] : D.nfd) { fs[c] = 1; ss[c] = 1; }
    for (uint32_t c = 0; c < ref::MAXCP; c++) if (D.ccc[c]) { fs[c] = 1; ss[c] = 1; }
    for (char32_t c : {0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD7A3, 0xD7A4, 0xABFF, 0x61, 0x110000}) { fs[c] = 1; ss[c] = 1; }
    for (auto& [c, _] : fs) F.push_back(c);
    for (auto& [c, _] : ss) S.push_back(c);
    std::map<std::pair<int, bool>, char32_t> m;
    for (auto c : S) if (ref::ccc(c)) { bool comp = false; for (auto& [p, x] : D.compose) comp |= p.second == c; m.insert({{ref::ccc(c), comp}, c}); }
    for (auto& [k, c] : m) M.push_back(c);
  }
  uint64_t nf = F.size(), ns = S.size(), nm = M.size();
  f.push_back({"pairs: " + std::to_string(nf) + " composing/decomposing/mark code points x " + std::to_string(ns), nf * ns, [ns](uint64_t i, hx::Rec& r) { char32_t s[2] = {F[i / ns], S[i % ns]}; chk(U32v(s, 2), r); }});
  f.push_back({"triples: first x mark class x mark class (" + std::to_string(nm) + ")", nf * nm * nm, [nm](uint64_t i, hx::Rec& r) { char32_t s[3] = {F[i / nm / nm], M[i / nm % nm], M[i % nm]}; chk(U32v(s, 3), r); }});
  // every composite followed by / mixed with marks that themselves compose with something in its decomposition
  static std::vector<U32> G;  // decompositions, composites and partially composed forms
  for (auto& [c, d] : D.nfd) { G.push_back({c}); G.push_back(d); if (d.size() > 2) { G.push_back(ref::nfc(d.substr(0, d.size() - 1)) + d.back()); U32 x = d; std::swap(x[1], x[x.size() - 1]); G.push_back(x); } }
  static const U32 K = U"\u0300\u0301\u0302\u0304\u0306\u0307\u0308\u030A\u030C\u031B\u0323\u0327\u0328\u0331\u0338\u0345\u0342\u0313\u05B0\u0653\u3099\u0315\u035Da";
  f.push_back({"every (de)composition followed by <= 2 composing marks", G.size() * (1 + K.size() + K.size() * K.size()), [](uint64_t i, hx::Rec& r) {
                 static U32 s;
                 s = G[i % G.size()]; i /= G.size();
                 if (i == 0) {} else if (i <= K.size()) s += K[i - 1];
                 else { i -= 1 + K.size(); s += K[i / K.size()]; s += K[i % K.size()]; }
                 chk(s, r);
               }});
  // Hangul, complete
  f.push_back({"Hangul: every L x V x T around the block edges", 21 * 23 * 31 * 2, [](uint64_t i, hx::Rec& r) {
                 static U32 s; s.clear();
                 bool post = i & 1; i /= 2;
                 s += char32_t(0x10FF + i % 21); i /= 21;
                 s += char32_t(0x1160 + i % 23); i /= 23;
                 s += char32_t(0x11A6 + i);
                 if (post) s += U"\u0301\u11A8";
                 chk(s, r);
               }});
  f.push_back({"Hangul: every syllable x trailing jamo around the block edges", 11174 * 31, [](uint64_t i, hx::Rec& r) { char32_t s[2] = {char32_t(0xABFF + i / 31), char32_t(0x11A6 + i % 31)}; chk(U32v(s, 2), r); }});
  // words over a small alphabet that forces reordering, blocking and recomposition
  static const U32 A = U"a\u0308\u0301\u0323\u00E4\u1EA1\u0315\u1100\u1161\u11A8\uAC00\u0344\u0958\u09C7\u09BE\u0345\u03B1\u212B";
  Words w(A.size(), th ? 6 : 5);
  f.push_back({"words of <= " + std::to_string(w.depth) + " over 18 code points", w.total, [w](uint64_t i, hx::Rec& r) {
                 static U32 s; s.clear();
                 for (auto k : w.get(i)) s += A[k];
                 chk(s, r);
               }});
  static const U32 B = U"\u0300\u0301\u0323\u0327\u0338\u0345\u05B0e";
  Words w2(B.size(), th ? 8 : 6);
  f.push_back({"mark sequences of <= " + std::to_string(w2.depth) + " after a base", w2.total, [w2](uint64_t i, hx::Rec& r) {
                 static U32 s; s.assign(1, U'\u0105');
                 for (auto k : w2.get(i)) s += B[k];
                 chk(s, r);
               }});
  // lengths and positions
  static const std::vector<U32> X = {U"\u0301", U"\u00E9", U"e\u0301", U"\u212B", U"\u0323\u0301", U"\u0301\u0323", U"\uAC01", U"\u1100\u1161", U"\u0344", U"\u1D160", U"\U0001D160", U"\u0958"};
  uint64_t N = th ? 140 : 70;
  f.push_back({"special sequence at every position of every length, 3 backgrounds", N * N * X.size() * 3, [N](uint64_t i, hx::Rec& r) {
                 auto& x = X[i % X.size()]; i /= X.size();
                 int bg = i % 3; i /= 3;
                 uint64_t len = i % N + 1, pos = i / N;
                 if (pos >= len) return;
                 static U32 s; s.clear();
                 for (uint64_t k = 0; k < len; k++) { if (k == pos) s += x; s += bg == 0 ? U'b' : bg == 1 ? char32_t(0xE8 + k % 3) : (k % 2 ? U'\u0316' : U'o'); }
                 chk(s, r);
               }});
  static const std::vector<size_t> L = {255, 256, 257, 1023, 1024, 4095, 4096, 5500, 8192, 16384};
  f.push_back({"long mark runs and long strings", L.size() * 6, [](uint64_t i, hx::Rec& r) {
                 size_t n = L[i / 6];
                 U32 s;
                 switch (i % 6) {
                   case 0: s.assign(n, U'\u0301'); break;
                   case 1: for (size_t k = 0; k < n; k++) s += k % 2 ? U'\u0323' : U'\u0301'; if (n > 1100) s.resize(1100); break;
                   case 2: for (size_t k = 0; k < n; k++) s += U'\u00E9'; break;
                   case 3: for (size_t k = 0; k < n; k++) s += k % 2 ? U'\u0301' : U'e'; break;
                   case 4: for (size_t k = 0; k < n; k++) s += char32_t(0xAC00 + k % 11172); s += U'\u11A8'; break;
                   case 5: for (size_t k = 0; k < n; k++) s += U"\u1100\u1161\u11A8"[k % 3]; break;
                 }
                 chk(s, r);
               }, 1});
  static const Long LG = {{U"\u0301", U"\u0323\u0301", U"\u0301\u0323", U"\u212B", U"e\u0301", U"\u00E9", U"\u00E9\u0323", U"\uAC01", U"\uAC00\u11A8", U"\u1100\u1161", U"\u1161", U"\u0344", U"\u0958", U"\U0001D160", U"\u09BE"}, {U"a", U"\u00E9", U"\u0301", U"\uAC01", U"\uAC00", U"\u0323", U"o\u0316", U"\u1100\u1161\u11A8", U"\u0958", U"\u09C7"}, ladder(th ? 200000 : 70000, 60)};
  f.push_back({"long strings: cores before, after and between long fillers", LG.total(), [](uint64_t i, hx::Rec& r) { static U32 s; LG.get(i, s); chk(s, r); }, 4});
  hx::Opt o; o.worker_init = init;
  return hx::run(argc, argv, f, o);
}
