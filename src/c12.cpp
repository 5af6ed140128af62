// C12: a converted domain converts to Unicode and back to itself, and both
// conversions are idempotent.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static bool has_ace(std::string_view a) {
  for (size_t i = 0; i < a.size(); i++) if ((i == 0 || a[i - 1] == '.') && a.substr(i, 4) == "xn--") return true;
  return false;
}
// An A-label on its own: if it is decoded, the decoded form converts back to it.
static void alabel(std::string_view in, hx::Rec& r) {
  std::string u, b, low(in);
  for (auto& c : low) if (c >= 'A' && c <= 'Z') c += 32;
  r.call();
  if (!ada::idna::to_unicode(in, u) || u == in || u == low || u.size() > 16384) return;  // to_ascii takes at most 16384 bytes
  r.call(2);
  r.outcome(u);
  if (!ada::idna::to_ascii(u, b)) return r.fail("A-label " + hx::show8(in) + " is decoded to " + hx::show8(u) + ", which does not convert");
  if (b != low) return r.fail("A-label " + hx::show8(in) + " is decoded to " + hx::show8(u) + ", which converts to " + hx::show8(b));
  if (!ada::idna::to_unicode(u, b) || b != u) return r.fail("U-label " + hx::show8(u) + " converts to Unicode as " + hx::show8(b));
}
static void eval(std::string_view in, hx::Rec& r) {
  std::string a, u, b, u2;
  bool ok = ada::idna::to_ascii(in, a);
  r.call();
  if (!ok || a.size() > 16384) return;
  r.outcome(a);
  bool validated = !ref::all_ascii(in);  // ASCII domains are passed through without validation
  r.call();
  if (!ada::idna::to_ascii(a, b) || b != a) return r.fail("to_ascii of its result " + hx::show8(a) + " is " + hx::show8(b));
  if (!validated && has_ace(a)) {
    for (size_t p = 0, q; p <= a.size() && !r.bad; p = q + 1) {
      q = std::min(a.find('.', p), a.size());
      alabel(std::string_view(a).substr(p, q - p), r);
    }
    return;
  }
  r.call(3);
  if (!ada::idna::to_unicode(a, u)) return r.fail("to_unicode of " + hx::show8(a) + " fails");
  if (u.size() > 16384) return;
  if (!ada::idna::to_ascii(u, b) || b != a) return r.fail("A-form " + hx::show8(a) + ", U-form " + hx::show8(u) + " converts to " + hx::show8(b));
  if (!ada::idna::to_unicode(u, u2) || u2 != u) return r.fail("to_unicode of U-form " + hx::show8(u) + " is " + hx::show8(u2));
  if (has_ace(u)) return r.fail("an A-label of " + hx::show8(a) + " is not decoded: " + hx::show8(u));
  if (!ref::utf8_decode(u)) return r.fail("U-form " + hx::show8(u) + " is not UTF-8");
  // re-validation of the A-form inside a domain that is not ASCII
  if (a.size() + 3 <= 16384 && !a.empty() && validated) {
    r.call();
    bool k = ada::idna::to_ascii(a + ".\xC3\x9F", b);
    if (!k || b != a + ".xn--zca") r.fail("A-form " + hx::show8(a) + " followed by a label U+00DF converts to " + hx::show8(b));
  }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  for (auto& s : domain_spaces(thorough() ? 2 : 1))
    f.push_back({s.name, s.n, [s](uint64_t i, hx::Rec& r) { static std::string b; s.get(i, b); r.in8(b); eval(b, r); }});
  // A-labels by themselves, valid and not
  bool th = thorough();
  static const std::string pb = "abkz019-Ab";
  unsigned d = th ? 7 : 6;
  Words w(pb.size(), d);
  f.push_back({"A-labels: payloads of <= " + std::to_string(d) + " over " + std::to_string(pb.size()) + " bytes", w.total, [w](uint64_t i, hx::Rec& r) {
                 static std::string s;
                 s = "xn--";
                 for (auto k : w.get(i)) s += pb[k];
                 r.in8(s);
                 alabel(s, r);
               }});
  auto enc = [](U32v x, hx::Rec& r) {
    static std::string e;
    if (ref::puny_encode(x, e) != ref::P::ok) return;
    std::string s = "xn--" + e;
    r.in8(s);
    alabel(s, r);
  };
  static const std::vector<std::pair<U32, U32>> c = {{U"", U""}, {U"a", U""}, {U"", U"a"}, {U"ab", U""}, {U"", U"bc"}, {U"\u00FC", U""}, {U"\u00FCb", U""}, {U"", U"\u0301"}, {U"\u05D0", U""},
                                                     {U"\u05D0\u05D1", U""}, {U"\u0915\u094D", U""}, {U"\u0628", U"\u0628"}, {U"", U"\u05D0"}, {U"-\u00FC", U""}, {U"1", U"\u05D0"}, {U"", U"\u0627\u0661"}};
  f.push_back({"A-labels: every scalar value in " + std::to_string(c.size()) + " contexts", NSCALAR * c.size(), [enc](uint64_t i, hx::Rec& r) {
                 auto& x = c[i % c.size()];
                 static U32 s;
                 s = x.first; s += scalar(i / c.size()); s += x.second;
                 enc(s, r);
               }});
  static const U32 T = U"ab1-A.\u00FC\u00DF\u00C4\u0308\u0301\u0323\u200C\u200D\u094D\u0915\u0628\u05D0\u0661\u06F0\u00AD\u0378\u1100\u1161\u11A8\uAC00\u212B\u3002\uFF21\U00010400\U0001F600\u0344\u2260\u0338";
  unsigned dt = th ? 5 : 4;
  Words wt(T.size(), dt);
  f.push_back({"A-labels: words of <= " + std::to_string(dt) + " over " + std::to_string(T.size()) + " code points", wt.total, [wt, enc](uint64_t i, hx::Rec& r) {
                 static U32 s;
                 s.clear();
                 for (auto k : wt.get(i)) s += T[k];
                 enc(s, r);
               }});
  return hx::run(argc, argv, f);
}
