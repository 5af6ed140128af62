// C07: the RFC 5893 bidi rule, on labels and on whole domains.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static U32 reps;                      // up to two valid representatives per bidi class
static bool usable(char32_t c) { return ref::D.status[c] == ref::sVALID && c != '.'; }
static void label(U32v l, hx::Rec& r) {
  r.in32(l);
  if (l.empty()) return;
  for (char32_t c : l) if (!usable(c)) return;
  if (ref::nfc(l) != l) return;
  bool want = ref::label_valid_alone(l), got = ada::idna::is_label_valid(l);
  r.call();
  uint64_t sig = want;
  for (char32_t c : l) sig = sig * 17 + ref::bidi(c);
  r.outcome(sig);
  if (want != got) r.fail(std::string("label is ") + (got ? "accepted" : "rejected") + ", bidi rule " + (ref::bidi_rule(l) ? "holds" : "is violated"));
}
static void domain(const std::string& s, hx::Rec& r) {
  r.in8(s);
  auto e = ref::to_ascii(s);
  std::string out;
  bool ok = ada::idna::to_ascii(s, out);
  r.call();
  r.outcome(out);
  if (e.overflow && !ok) return;
  if (ok != e.ok || out != e.out) r.fail(std::string("to_ascii ") + (ok ? "accepts" : "rejects") + ", RFC 5893 and UTS #46 " + (e.ok ? "give " + e.out : "reject"));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::map<int, int> cnt;
  static U32 one;  // one non-ASCII representative per class
  for (uint32_t c = 0x2D; c < ref::MAXCP; c++) {
    if (!usable(c) || (c >= 'A' && c <= 'Z')) continue;
    int b = ref::bidi(c);
    if (ref::D.nfd.count(c) || ref::D.joining[c] == 'D' || ref::D.joining[c] == 'R' || c == 0x200C || c == 0x200D) continue;
    if (c < 0x80 && b == ref::bL && c != 'a') continue;
    int& n = cnt[b];
    if (n < 2 && (n == 0 || c >= 0x80)) { n++; reps += c; }
  }
  {
    std::map<int, char32_t> m;
    for (char32_t c : reps) if (c >= 0x80 || !m.count(ref::bidi(c))) m[ref::bidi(c)] = c;
    for (auto& [b, c] : m) one += c;
  }
  std::vector<hx::Family> f;
  {
    unsigned d = th ? 7 : 6;
    Words w(one.size(), d);
    f.push_back({"labels: words of <= " + std::to_string(d) + " over one representative of each of " + std::to_string(one.size()) + " bidi classes", w.total, [w](uint64_t i, hx::Rec& r) { U32 s; for (auto k : w.get(i)) s += one[k]; label(s, r); }});
    Words w2(reps.size(), th ? 5 : 4);
    f.push_back({"labels: words of <= 4/5 over two representatives per class", w2.total, [w2](uint64_t i, hx::Rec& r) { U32 s; for (auto k : w2.get(i)) s += reps[k]; label(s, r); }});
    static const U32 withdot = one + U".1";
    Words w3(withdot.size(), th ? 6 : 5);
    f.push_back({"domains: words of <= 5/6 over bidi classes, ASCII digit and dot", w3.total, [w3](uint64_t i, hx::Rec& r) { U32 s; for (auto k : w3.get(i)) s += withdot[k]; domain(u8(s), r); }});
  }
  {
    // domains of labels, each spelled out or as an A-label
    static std::vector<std::string> lab;
    static const U32 a2 = U"a1-\u05D0\u0627\u0661\u06F0\u00FC\u05B0";
    Words w(a2.size(), 2);
    for (uint64_t i = 0; i < w.total; i++) {
      U32 s;
      for (auto k : w.get(i)) s += a2[k];
      lab.push_back(u8(s));
      if (!ref::all_ascii(s)) { std::string p; ref::puny_encode(s, p); lab.push_back("xn--" + p); }
    }
    uint64_t n = lab.size();
    f.push_back({"domains of two labels out of " + std::to_string(n), n * n, [n](uint64_t i, hx::Rec& r) { domain(lab[i / n] + "." + lab[i % n], r); }});
    f.push_back({"domains of label, filler, label", n * n * 3, [n](uint64_t i, hx::Rec& r) {
                   static const char* mid[] = {"..", ".xn--tda.", ".a."};
                   const char* m = mid[i % 3]; i /= 3;
                   domain(lab[i / n] + m + lab[i % n], r);
                 }});
    if (th) f.push_back({"domains of three labels", n * n * n, [n](uint64_t i, hx::Rec& r) { domain(lab[i / n / n] + "." + lab[i / n % n] + "." + lab[i % n], r); }});
  }
  static const std::vector<std::pair<U32, U32>> ctx = {{U"", U""}, {U"a", U""}, {U"", U"a"}, {U"\u05D0", U""}, {U"", U"\u05D0"}, {U"\u05D0", U"\u05D0"}, {U"\u05D0\u0661", U"\u05D0"}, {U"\u05D0\u06F0", U"\u05D0"}, {U"\u05D0", U"\u05B0"}, {U"\u0627", U"1"}, {U"\u0627", U"\u0661"}};
  f.push_back({"labels: every scalar value in " + std::to_string(ctx.size()) + " contexts", NSCALAR * ctx.size(), [](uint64_t i, hx::Rec& r) {
                 auto& c = ctx[i % ctx.size()];
                 U32 s = c.first;
                 s += scalar(i / ctx.size());
                 s += c.second;
                 label(s, r);
               }});
  static const std::vector<std::pair<std::string, std::string>> dctx = {{"", ".\xD7\x90"}, {"\xD7\x90.a", ""}, {"\xD7\x90.", "a"}, {"\xD7\x90.a", "a"}, {"a.", ".1"}, {"1.", ""}};
  f.push_back({"domains: every scalar value in " + std::to_string(dctx.size()) + " contexts", NSCALAR * dctx.size(), [](uint64_t i, hx::Rec& r) {
                 auto& c = dctx[i % dctx.size()];
                 std::string s = c.first;
                 ref::utf8_put(s, scalar(i / dctx.size()));
                 domain(s + c.second, r);
               }});
  uint64_t N = th ? 200 : 90;
  f.push_back({"one class at each position of labels of up to " + std::to_string(N), N * N * one.size() * 4, [N](uint64_t i, hx::Rec& r) {
                 static const U32 bg = U"\u05D0\u0627a\u0661";
                 char32_t b = bg[i % 4]; i /= 4;
                 char32_t x = one[i % one.size()]; i /= one.size();
                 uint64_t n = i % N, pos = i / N;
                 if (pos > n) return;
                 U32 s(n, b);
                 if (b == U'\u0661') s = U"\u05D0" + s;
                 s.insert(s.begin() + pos, x);
                 label(s, r);
               }});
  f.push_back({"position of the only RTL label among up to 60 labels", 60 * 60 * 6, [](uint64_t i, hx::Rec& r) {
                 static const char* rtl[] = {"\xD7\x90", "xn--4db", "\xD7\x90" "a", "a\xD7\x90", "\xD9\xA1", "xn--4-zhc"};
                 const char* x = rtl[i % 6]; i /= 6;
                 uint64_t n = i % 60, pos = i / 60;
                 if (pos > n) return;
                 std::string s;
                 for (uint64_t k = 0; k <= n; k++) { if (k) s += '.'; s += k == pos ? x : (k % 7 == 3 ? "\xC3\xBC" : "b"); }
                 domain(s, r);
                 domain(s + ".1", r);
               }});
  static const Long G = {{U"\u05D0", U"a", U"1", U"\u0661", U"\u06F0", U"\u05B0", U"\u0627", U"a\u05D0", U"\u05D0a", U"-", U"\u0661\u06F0", U"\u05D0\u06F0", U"\u0627\u05B0", U"\u00FC", U"\u0BF3"}, {U"a", U"\u05D1", U"\u05B0", U"\u064B", U"\u0661", U"1", U"\u06F0", U"\u0627", U"-", U"\u4E00"}, ladder(th ? 200000 : 70000, 40)};
  f.push_back({"long labels: cores before, after and between long fillers", G.total(), [](uint64_t i, hx::Rec& r) { static U32 s; G.get(i, s); label(s, r); }, 4});
  static const Long H = {{U"\u05D0", U".\u05D0", U"\u05D0.", U".1", U"1.", U".a\u05D0", U"\u05D0.1", U".xn--4db", U"xn--4db.", U".xn--4-zhc", U"\u05D0\u05B0.", U".-\u00FC"}, {U"a", U"\u05D1", U"\u05B0", U"a.", U"\u05D1.", U"1.", U"1", U"\u00FC.", U"xn--tda.", U"\u00FC"}, ladder(16000, 20)};
  f.push_back({"long domains: cores before, after and between long fillers", H.total(), [](uint64_t i, hx::Rec& r) { static U32 s; H.get(i, s); auto d = u8(s); if (d.size() <= 16384) domain(d, r); }, 4});
  return hx::run(argc, argv, f);
}
