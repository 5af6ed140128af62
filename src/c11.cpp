// C11: to_unicode decodes exactly the valid A-labels, label by label, and
// leaves everything else untouched; it never fails within the limit.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void eval(std::string_view in, hx::Rec& r) {
  auto e = ref::to_unicode(in);
  std::string out;
  bool ok = ada::idna::to_unicode(in, out);
  r.call();
  r.outcome(out);
  if (!e) { if (ok || !out.empty()) r.fail("an input beyond the limit is not refused"); return; }
  if (!ok) r.fail("fails within the limit");
  else if (out != *e) r.fail("gives " + hx::show8(out) + ", expected " + hx::show8(*e));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  for (auto& s : domain_spaces(th ? 2 : 1))
    f.push_back({s.name, s.n, [s](uint64_t i, hx::Rec& r) { static std::string b; s.get(i, b); r.in8(b); eval(b, r); }});
  static const char digs[] = "abcdefghijklmnopqrstuvwxyz0123456789-";
  unsigned d = th ? 6 : 5;
  Words w(37, d);
  f.push_back({"every A-label payload of <= " + std::to_string(d) + " characters", w.total, [w](uint64_t i, hx::Rec& r) {
                 static std::string s;
                 s = "xn--";
                 for (auto k : w.get(i)) s += digs[k];
                 r.in8(s);
                 eval(s, r);
               }, 8192});
  // A-labels of every word of valid and invalid code points, in label context
  static const U32 A = U"a-\u00FC\u00DF\u05D0\u0661\u0301\u200C\u200D\u0628\u094D\u0915\u4E00\uFF21\u00C4\u0378\u00AD\U00010400\u0958";
  Words wl(A.size(), th ? 5 : 4);
  static const std::vector<std::pair<std::string, std::string>> ctx = {{"", ""}, {"a.", ".b"}, {".", "."}, {"xn--tda.", ".xn--"}, {"\xC3\xBC.", ".\xFF"}, {"XN--TDA.", ""}};
  f.push_back({"encodings of words over " + std::to_string(A.size()) + " code points in " + std::to_string(ctx.size()) + " contexts", wl.total * ctx.size(), [wl](uint64_t i, hx::Rec& r) {
                 auto& c = ctx[i % ctx.size()];
                 U32 u;
                 for (auto k : wl.get(i / ctx.size())) u += A[k];
                 std::string p;
                 ref::puny_encode(u, p);
                 p = c.first + "xn--" + p + c.second;
                 r.in8(p);
                 eval(p, r);
               }});
  static const Long G = {{U"\u00FC", U"\u00C9", U"\u0301", U"e\u0301", U"\u05D0", U"\u200D", U"\u094D\u200D", U"\u0378", U"\u00AD", U"\u212B", U"\u3002", U"A", U"\u0323\u0301", U"\u1100\u1161", U"\u00DF"}, {U"a", U"\u00E0", U"\u05D1", U"b-", U"\u4E00"}, ladder(8000, 20)};
  f.push_back({"A-labels of long labels: cores before, after and between long fillers", G.total() * 2, [](uint64_t i, hx::Rec& r) {
                 static U32 s;
                 G.get(i / 2, s);
                 std::string p;
                 if (ref::puny_encode(s, p) != ref::P::ok || p.size() > 16300) return;
                 p = (i & 1 ? "a.xn--tda.xn--" : "xn--") + p;
                 if (i & 1) p += ".xn--tda";
                 r.in8(p);
                 eval(p, r);
               }, 4});
  static const std::string B = std::string("xXnN-.a\xC3\xBC", 9);
  Words wb(B.size(), th ? 8 : 6);
  f.push_back({"prefix variants: words over x X n N - . a and two bytes", wb.total, [wb](uint64_t i, hx::Rec& r) {
                 static std::string s;
                 s.clear();
                 for (auto k : wb.get(i)) s += B[k];
                 r.in8(s);
                 eval(s, r);
                 s += "xn--tda";
                 r.in8(s);
                 eval(s, r);
               }});
  return hx::run(argc, argv, f);
}
