// C27: a label may not begin with a combining mark, wherever the label starts.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void dom(const std::string& s, bool want, hx::Rec& r, const char* what) {
  if (r.bad) return;
  std::string out;
  bool ok = ada::idna::to_ascii(s, out);
  r.call();
  if (ok) r.outcome(out);
  if (ok != want) r.fail(std::string(what) + " " + hx::show8(s) + " is " + (ok ? "accepted as " + out : "rejected"));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  using namespace ref;
  f.push_back({"every valid code point as first of a label", NSCALAR, [](uint64_t i, hx::Rec& r) {
                 char32_t c = scalar(i);
                 if (D.status[c] != sVALID || c == '.' || nfc(U32(1, c)) != U32(1, c)) return;
                 bool mark = D.mark[c];
                 for (U32 tail : {U32(), U32(U"a"), U32(U"\u0301"), U32(U"\u05D0"), U32(U"-")}) {
                   U32 l = U32(1, c) + tail;
                   if (nfc(l) != l) continue;
                   r.in32(l);
                   bool got = ada::idna::is_label_valid(l);
                   r.call();
                   bool want = label_valid_alone(l);
                   if (mark && got) return r.fail("a label that begins with a combining mark is accepted");
                   if (got != want) return r.fail(std::string("label is ") + (got ? "accepted" : "rejected") + "; the first character is not a combining mark");
                 }
                 std::string u;
                 utf8_put(u, c);
                 r.in32(U32v(&c, 1));
                 U32 l = {c, U'a'};
                 std::string p;
                 puny_encode(l, p);
                 if (mark) {
                   dom(u + "a", false, r, "domain");
                   dom("b." + u + "a", false, r, "second label");
                   dom("b\xE3\x80\x82" + u, false, r, "label after an ideographic dot");
                   dom("\xC2\xAD" + u + "a", false, r, "label after an ignored character");
                   dom("\xC3\xBC..\xC2\xAD" + u, false, r, "label after an empty label");
                   dom("xn--" + p + ".\xC3\x9F", false, r, "A-label");
                   dom("\xC3\x9F.xn--" + p, false, r, "A-label");
                   std::string s = ada::idna::to_unicode("xn--" + p);
                   r.call();
                   if (s != "xn--" + p) r.fail("to_unicode decodes an A-label that begins with a combining mark: " + hx::show8(s));
                   // not first: not this rule
                   U32 n = {U'z', U'q', c};
                   if (nfc(n) == n && label_valid_alone(n)) dom("zq" + u, true, r, "a label with the mark inside");
                 } else if (!all_ascii(l) && label_valid_alone(l)) {
                   dom(u + "a", true, r, "domain");
                   if (!is_rtl(l)) {
                     dom("b." + u + "a", true, r, "second label");
                     dom("xn--" + p + ".\xC3\x9F", true, r, "A-label");
                   }
                 }
               }});
  f.push_back({"every scalar value mapped at the start of a label", NSCALAR * 3, [](uint64_t i, hx::Rec& r) {
                 static const char* pre[] = {"", "b.", "\xC2\xAD"};
                 std::string s = pre[i % 3];
                 utf8_put(s, scalar(i / 3));
                 s += "\xC3\xBC";
                 r.in8(s);
                 auto e = ref::to_ascii(s);
                 std::string out;
                 bool ok = ada::idna::to_ascii(s, out);
                 r.call();
                 if (ok) r.outcome(out);
                 if (ok != e.ok || out != e.out) r.fail(std::string("is ") + (ok ? "accepted as " + out : "rejected") + ", expected " + (e.ok ? e.out : "rejection"));
               }});
  static const Long G = {{U"\u0301", U".\u0301", U"\u0301a", U".\u0903a", U"\u3002\u0301b", U"\u00AD\u0301", U"\u0301.", U"b.\U0001E944c", U".\u20DDa", U".\u0301\u0301"}, {U"a", U"\u00E0", U"a.", U"\u0300", U"\u4E00", U"\u00FC.", U"\u00AD", U"bcd.", U"\u0903"}, ladder(16000, 10)};
  f.push_back({"long domains: marks before, after and between long fillers", G.total(), [](uint64_t i, hx::Rec& r) {
                 static U32 s;
                 G.get(i, s);
                 auto d = u8(s);
                 if (d.size() > 16384) return;
                 r.in8(d);
                 auto e = ref::to_ascii(d);
                 std::string out;
                 bool ok = ada::idna::to_ascii(d, out);
                 r.call();
                 if (ok) r.outcome(out);
                 if (e.overflow && !ok) return;
                 if (ok != e.ok || out != e.out) r.fail(std::string("is ") + (ok ? "accepted" : "rejected") + "; a label " + (e.ok ? "does not begin" : "begins") + " with a mark or is otherwise invalid");
               }, 8});
  static const Long G2 = {{U"\u0301", U"\u0903", U"a\u0301", U"\U0001E944"}, {U"b", U"\u4E00", U"\u0327", U"\u0903"}, ladder(140000, 10)};
  f.push_back({"long labels: marks before, after and between long fillers", G2.total(), [](uint64_t i, hx::Rec& r) {
                 static U32 s;
                 G2.get(i, s);
                 bool want = !D.mark[s[0]];
                 r.in32(s);
                 bool ok = ada::idna::is_label_valid(s);
                 r.call();
                 r.outcome(i);
                 if (ok != want) r.fail(std::string("label is ") + (ok ? "accepted" : "rejected"));
               }, 8});
  return hx::run(argc, argv, f);
}
