// C06: ContextJ (zero-width joiner / non-joiner) rules on every joiner of a label.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static bool in_scope(U32v l) {  // NFC and only valid code points: what reaches the rule
  if (l.empty()) return false;
  for (char32_t c : l) if (c >= ref::MAXCP || ref::D.status[c] != ref::sVALID || c == '.') return false;
  return ref::nfc(l) == l;
}
static void chk(U32v l, bool e2e, hx::Rec& r) {
  r.in32(l);
  if (!in_scope(l)) return;
  bool want = ref::label_valid_alone(l), got = ada::idna::is_label_valid(l);
  r.call();
  uint64_t sig = want;
  for (char32_t c : l) sig = sig * 31 + (c == 0x200C ? 1 : c == 0x200D ? 2 : ref::ccc(c) == 9 ? 3 : ref::D.joining[c]);
  r.outcome(sig);
  if (want != got) return r.fail(std::string("label is ") + (got ? "accepted" : "rejected") + "; ContextJ" + (ref::contextj(l) ? " holds" : " is violated"));
  if (!e2e) return;
  // the same label, spelled out and as an A-label, through the domain conversion
  bool ascii = ref::all_ascii(l);
  if (ascii || l.substr(0, 4) == U"xn--") return;
  std::string a, p;
  ref::puny_encode(l, p);
  bool ok = ada::idna::to_ascii(u8(l), a);
  r.call();
  if (ok != want || (ok && a != "xn--" + p)) return r.fail("to_ascii of the label gives " + (ok ? hx::show8(a) : "failure") + ", expected " + (want ? "xn--" + p : "failure"));
  if (!ref::is_rtl(l)) {
    ok = ada::idna::to_ascii("xn--" + p + ".\xC3\x9F", a);
    r.call();
    if (ok != want) return r.fail(std::string("its A-label is ") + (ok ? "accepted" : "rejected"));
  }
  std::string u = ada::idna::to_unicode("xn--" + p);
  r.call();
  if ((u != "xn--" + p) != want) r.fail("to_unicode of its A-label gives " + hx::show8(u));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  // joining type x bidi, virama, joiners
  static const U32 A1 = U"\uA840\uA872\U0001E94B\u0301a\u094D\u200C\u200D\u1807";         // left-to-right
  static const U32 A2 = U"\u0628\u0627\U00010ACD\u064B\u05D0\u0F84\u200C\u200D\u0300";  // right-to-left
  unsigned d = th ? 8 : 6;
  for (auto* A : {&A1, &A2}) {
    Words w(A->size(), d);
    f.push_back({std::string("words of <= ") + std::to_string(d) + " joining classes, " + (A == &A1 ? "LTR" : "RTL"), w.total, [w, A](uint64_t i, hx::Rec& r) {
                   U32 s;
                   for (auto k : w.get(i)) s += (*A)[k];
                   chk(s, i < 600000, r);
                 }});
  }
  static const std::vector<std::pair<U32, U32>> ctx = {
      {U"", U"\u200C\uA840"}, {U"\uA840\u200C", U""}, {U"", U"\u200C\u0628"}, {U"\u0628\u200C", U""}, {U"\uA840", U"\u200C\uA840"}, {U"\uA840\u200C", U"\uA840"},
      {U"\u0628", U"\u200C\u0628"}, {U"\u0628\u200C", U"\u0628"}, {U"", U"\u200D"}, {U"", U"\u200C"}, {U"a", U"\u200D"}, {U"a", U"\u200C"}, {U"a", U"\u200Da"}, {U"\u05D0", U"\u200D"},
      {U"\u05D0", U"\u200C"}, {U"\u200C", U""}, {U"\u200D", U""}, {U"\u0915\u094D\u200D", U"\u200D"}, {U"\u0915\u094D\u200C", U"\u200C"}, {U"\u0628\u200C\u0628", U"\u200C\u0628"},
      {U"\u0628", U"\u064B\u200C\u0628"}, {U"\u0628\u064B", U"\u200C\u064B\u0628"}, {U"\uA840\u200C\u0301", U"\uA840"}, {U"\uA872", U"\u200C\uA840"}, {U"\uA840", U"\u200C\u0301\uA840"}};
  f.push_back({"every scalar value in " + std::to_string(ctx.size()) + " joiner contexts", NSCALAR * ctx.size(), [](uint64_t i, hx::Rec& r) {
                 auto& c = ctx[i % ctx.size()];
                 U32 s = c.first;
                 s += scalar(i / ctx.size());
                 s += c.second;
                 chk(s, true, r);
               }});
  // the label at every place of a domain, spelled out and as an A-label
  static const U32 A3 = U"a\uA840\u0301\u0915\u094D\u200C\u200D\u0628\u0627-";
  static const std::vector<std::string> before = {"", "a.", "\xC3\xBC.", "a.b.", "xn--tda.", "a..", "1.", "\xE0\xA4\x95\xE0\xA5\x8D\xE2\x80\x8D.", "\xD7\x90."},
                                        after = {"", ".", ".a", ".\xC3\xBC", ".a.xn--tda", ".\xE0\xA4\x95\xE0\xA5\x8D\xE2\x80\x8D"};
  unsigned d3 = th ? 5 : 4;
  Words w3(A3.size(), d3);
  f.push_back({"words of <= " + std::to_string(d3) + " joining classes as any label of a domain, as U-label and A-label", w3.total * before.size() * after.size() * 2, [w3](uint64_t i, hx::Rec& r) {
                 bool ace = i & 1; i /= 2;
                 const std::string &b = before[i % before.size()], &a = after[i / before.size() % after.size()];
                 i /= before.size() * after.size();
                 static U32 l;
                 l.clear();
                 bool joiner = false;
                 for (auto k : w3.get(i)) { l += A3[k]; joiner |= (A3[k] & ~1u) == 0x200C; }
                 if (!joiner || ref::nfc(l) != l) return;
                 std::string p, dom = b;
                 if (ace) { ref::puny_encode(l, p); dom += "xn--" + p; } else dom += u8(l);
                 dom += a;
                 r.in8(dom);
                 if (ref::all_ascii(dom)) return;
                 auto e = ref::to_ascii(dom);
                 std::string out;
                 bool ok = ada::idna::to_ascii(dom, out);
                 r.call();
                 if (ok) r.outcome(out);
                 if (ok != e.ok || out != e.out) r.fail(std::string("is ") + (ok ? "accepted as " + out : "rejected") + "; ContextJ " + (ref::contextj(l) ? "holds" : "is violated"));
               }});
  static const U32 T = U"\u0301\U0001E94B";
  uint64_t N = th ? 120 : 48;
  f.push_back({"runs of up to " + std::to_string(N) + " transparent characters on each side", N * N * 2 * 9 * 2, [N](uint64_t i, hx::Rec& r) {
                 bool rtl = i & 1; i /= 2;
                 int lk = int(i % 3); i /= 3;
                 int rk = int(i % 3); i /= 3;
                 bool alt = i & 1; i /= 2;
                 uint64_t n = i % N, m = i / N;
                 const char32_t t = rtl ? (alt ? U'\u064B' : U'\u0651') : T[alt];
                 U32 s;
                 s += lk == 0 ? (rtl ? U'\u0628' : U'\uA840') : lk == 1 ? (rtl ? U'\U00010ACD' : U'\uA872') : (rtl ? U'\u05D0' : U'b');
                 s.append(n, t);
                 s += U'\u200C';
                 s.append(m, t);
                 s += rk == 0 ? (rtl ? U'\u0628' : U'\uA840') : rk == 1 ? (rtl ? U'\u0627' : U'\u1807') : (rtl ? U'\u05D0' : U'b');
                 chk(s, false, r);
               }});
  uint64_t L = th ? 400 : 150;
  f.push_back({"joiner position in labels of up to " + std::to_string(L) + " code points", L * L * 8, [](uint64_t i, hx::Rec& r) {
                 int k = int(i % 8); i /= 8;
                 uint64_t L2 = thorough() ? 400 : 150;
                 uint64_t n = i % L2, pos = i / L2;
                 if (pos > n) return;
                 static const std::vector<std::pair<U32, char32_t>> kk = {{U"\u094D\u200D", U'\u0915'}, {U"\u094D\u200C", U'\u0915'}, {U"\u200C", U'\uA840'}, {U"\u200D", U'\uA840'}, {U"\u200C", U'a'}, {U"\u200D\u094D", U'\u0915'}, {U"\u094Da\u200D", U'\u0915'}, {U"\u200C\u200C", U'\uA840'}};
                 U32 s(pos, kk[k].second);
                 s += kk[k].first;
                 s.append(n - pos, kk[k].second);
                 chk(s, n < 40, r);
               }});
  // linear fillers reach past 2^16; runs of joiners and transparent characters cost quadratic time
  static const std::vector<U32> C = {U"\u200D", U"\u200C", U"\u094D\u200D", U"\u094D\u200C", U"\u0628\u200C\u0628", U"\u0628\u200C", U"\u200C\u0628", U"\uA840\u200C\uA840", U"\u0628", U"\uA840", U"\uA840\u200C", U"\u200C\uA840"};
  static const Long G = {C, {U"a", U"\u0628", U"\u0651", U"\u064B", U"\u0915", U"\uA840", U"\U0001E94B"}, ladder(th ? 140000 : 66000, 40)};
  f.push_back({"long labels: cores before, after and between fillers of up to 66000", G.total(), [](uint64_t i, hx::Rec& r) { static U32 s; G.get(i, s); chk(s, s.size() < 400, r); }, 4});
  static const Long H = {C, {U"\u0915", U"\u0915\u094D\u200D", U"\u0628\u200C"}, ladder(th ? 9000 : 4200, 40)};
  f.push_back({"long labels: cores before, after and between fillers of up to 4200", H.total(), [](uint64_t i, hx::Rec& r) { static U32 s; H.get(i, s); chk(s, s.size() < 400, r); }, 4});
  return hx::run(argc, argv, f);
}
