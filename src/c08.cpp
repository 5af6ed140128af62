// C08: an A-label is accepted iff it is the encoding of a valid non-ASCII
// label, and is then preserved unchanged.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static const char digs[] = "abcdefghijklmnopqrstuvwxyz0123456789-";
// Canonical: what encodes to this payload and is a valid label.
static bool acceptable(std::string_view p, U32& u) {
  if (!ref::all_ascii(p)) return false;
  if (ref::puny_decode(p, u) != ref::P::ok) return false;
  if (u.empty() || ref::all_ascii(u) || !ref::label_ok_no_bidi(u)) return false;
  if (ref::is_rtl(u) && !ref::bidi_rule(u)) return false;
  std::string back;
  return ref::puny_encode(u, back) == ref::P::ok && back == p;
}
static void chk(const std::string& payload, hx::Rec& r) {
  r.in8(payload);
  for (unsigned char c : payload) if (c >= 0x80 || c == '.' || (c >= 'A' && c <= 'Z')) return;  // mapping changes these first (C25)
  U32 u;
  bool want = acceptable(payload, u);
  static std::string out;
  std::string a = "xn--" + payload;
  // the second label is U+00DF, valid in bidi domains too
  bool ok = ada::idna::to_ascii(a + ".\xC3\x9F", out);
  r.call();
  if (ok) r.outcome(out);
  if (ok != want) return r.fail(std::string("A-label is ") + (ok ? "accepted" : "rejected") + "; it is " + (want ? "the encoding of " + hx::show32(u) : "not the encoding of a valid label"));
  if (!ok) return;
  if (out != a + ".xn--zca") return r.fail("A-label became " + hx::show8(out));
  std::string s = ada::idna::to_ascii("\xC3\x9F." + a);
  if (s != "xn--zca." + a) return r.fail("A-label at the end became " + hx::show8(s));
  s = ada::idna::to_ascii(a);
  if (s != a) return r.fail("alone, it became " + hx::show8(s));
  r.call(2);
}
static void seqchk(const std::string& in, hx::Rec& r) {
  r.in8(in);
  auto e = ref::to_ascii(in);
  static std::string out;
  bool ok = ada::idna::to_ascii(in, out);
  r.call();
  if (ok) r.outcome(out);
  if (ok != e.ok) r.fail(std::string("domain is ") + (ok ? "accepted: " + hx::show8(out) : "rejected") + "; expected " + (e.ok ? hx::show8(e.out) : "rejection"));
  else if (ok && out != e.out) r.fail("domain became " + hx::show8(out) + " instead of " + hx::show8(e.out));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  unsigned d = th ? 6 : 5;
  Words w(37, d);
  f.push_back({"every payload of <= " + std::to_string(d) + " characters", w.total, [w](uint64_t i, hx::Rec& r) { static std::string s; s.clear(); for (auto k : w.get(i)) s += digs[k]; chk(s, r); }, 8192});
  static const std::vector<std::pair<U32, U32>> c = {{U"", U""}, {U"a", U""}, {U"", U"b"}, {U"a-", U""}, {U"-", U""}, {U"\u05D0", U""}, {U"\u0915\u094D", U""}, {U"\u0628", U"\u0628"}, {U"\u00DF", U"\u00DF"}, {U"xn--", U""}, {U"", U"."}};
  f.push_back({"encoding of every scalar value in " + std::to_string(c.size()) + " contexts", NSCALAR * c.size(), [](uint64_t i, hx::Rec& r) {
                 auto& x = c[i % c.size()];
                 std::string p;
                 ref::puny_encode(x.first + scalar(i / c.size()) + x.second, p);
                 chk(p, r);
               }});
  // all single edits of A-labels
  static std::vector<std::string> base;
  {
    auto R = interesting();
    U32 A = U"a\u00FC\u05D0\u0628\u4E00-";
    Words wa(A.size(), 3);
    std::vector<U32> l;
    for (uint64_t i = 0; i < wa.total; i++) { U32 s; for (auto k : wa.get(i)) s += A[k]; l.push_back(s); }
    for (char32_t x : R) { l.push_back({x}); l.push_back({U'a', x}); l.push_back({x, U'b', U'c'}); l.push_back({0xFC, x}); }
    l.push_back(U"b\u00FCcher"); l.push_back(U"\u0915\u094D\u200D\u0937"); l.push_back(U"\u0628\u200C\u0628"); l.push_back(U"ma\u00F1ana-de-hoy");
    for (auto& s : l) if (!ref::all_ascii(s)) { std::string p; if (ref::puny_encode(s, p) == ref::P::ok) base.push_back(p); }
  }
  static const std::string ins = std::string(digs) + " _%";
  f.push_back({"every one-character edit of " + std::to_string(base.size()) + " A-labels", base.size(), [](uint64_t i, hx::Rec& r) {
                 const std::string& b = base[i];
                 chk(b, r);
                 for (size_t p = 0; p <= b.size() && !r.bad; p++) {
                   if (p < b.size()) { std::string s = b; s.erase(p, 1); chk(s, r); }
                   for (unsigned char x : ins) {
                     if (p < b.size()) { std::string s = b; s[p] = char(x); chk(s, r); }
                     std::string s = b; s.insert(p, 1, char(x)); chk(s, r);
                     if (r.bad) return;
                   }
                 }
               }, 4});
  f.push_back({"encodings of labels of 1..1000 code points", 1000 * NPATTERN * 3, [](uint64_t i, hx::Rec& r) {
                 size_t n = i % 1000 + 1; i /= 1000;
                 U32 u = *ref::utf8_decode(pattern(i % NPATTERN, n)); i /= NPATTERN;
                 if (i == 1) u += U'\u00DF';
                 if (i == 2) u.insert(u.begin(), U'\u4E8C');
                 std::string p;
                 if (ref::all_ascii(u)) return;
                 if (ref::puny_encode(u, p) == ref::P::ok) chk(p, r);
                 else r.in32(u);
               }});
  static const Long G = {{U"\u00FC", U"\u00C9", U"\u0301", U"e\u0301", U"\u05D0", U"\u200D", U"\u094D\u200D", U"\u0378", U"\u00AD", U"\u212B", U"\u3002", U".", U"A", U"\u0323\u0301", U"\u0301\u0323", U"\uFDFA", U"\u1100\u1161", U"\u2260", U" ", U"\u00DF"}, {U"a", U"\u00E0", U"\u05D1", U"b-", U"\u4E00", U"\u064B"}, ladder(8000, 20)};
  f.push_back({"encodings of long labels: cores before, after and between long fillers", G.total(), [](uint64_t i, hx::Rec& r) {
                 static U32 s;
                 G.get(i, s);
                 std::string p;
                 if (ref::all_ascii(s) || ref::puny_encode(s, p) != ref::P::ok || p.size() > 16000) return;
                 chk(p, r);
                 p[p.size() - 1] = p.back() == 'a' ? 'b' : 'a';
                 if (!r.bad) chk(p, r);
               }, 4});
  static const Space RL = related_labels();
  f.push_back({RL.name, RL.n, [](uint64_t i, hx::Rec& r) { static std::string x; RL.get(i, x); seqchk(x, r); }, 256});
  // What one label leaves behind must not reach the next one: valid and invalid A-labels after each other.
  static const std::vector<std::string> seq = [] {
    std::vector<U32> l;
    for (char32_t x : interesting()) l.push_back({x});
    for (const char32_t* x : {U"\u00FC1", U"\u05D01", U"\u05D0a", U"a\u05D0", U"1\u05D0", U"\u05D0\u0301", U"b\u00FCcher", U"\u0628\u200C\u0628", U"\u0915\u094D\u200D\u0915", U"a\u200D", U"\u0301a", U"-\u00FC", U"\u00FC-", U"ab--\u00FC", U"\u0627\u0661", U"\u06271\u0661", U"\u4E8C\u4E8C\u4E8C", U"\u00C9", U"e\u0301", U"\u05D0\u05D1\u05D2\u05D3", U"abcdefgh\u00FC"}) l.push_back(x);
    std::vector<std::string> v;
    for (auto& s : l) { std::string p; if (ref::puny_encode(s, p) == ref::P::ok) v.push_back("xn--" + p); }
    for (const char* x : {"xn--", "xn--a", "xn--a-", "xn--4dbc", "xn--4dbcd", "xn--zz", "xn--99999999", "xn---", "a", "1", "\xC3\x9F", "\xD7\x90", "XN--4DB", "\xC2\xAD"}) v.push_back(x);
    return v;
  }();
  static const size_t S = seq.size(), S3 = th ? S : 60;
  f.push_back({"ordered pairs of " + std::to_string(S) + " valid and invalid A-labels in a domain", uint64_t(S) * S * 3, [](uint64_t i, hx::Rec& r) {
                 unsigned k = unsigned(i % 3); i /= 3;
                 seqchk(seq[i % S] + "." + seq[i / S] + (k == 1 ? ".\xC3\x9F" : k == 2 ? ".a.b" : ""), r);
               }});
  f.push_back({"ordered triples of " + std::to_string(S3) + " valid and invalid A-labels in a domain", uint64_t(S3) * S3 * S3, [](uint64_t i, hx::Rec& r) {
                 static const size_t step = S / S3;
                 size_t x[3];
                 for (auto& y : x) y = S - 1 - (i % S3) * step, i /= S3;
                 seqchk(seq[x[0]] + "." + seq[x[1]] + "." + seq[x[2]], r);
               }});
  return hx::run(argc, argv, f);
}
