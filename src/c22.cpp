// C22: no read or write outside the buffers involved, no undefined behaviour,
// no termination, for any argument to any public function. Library and harness
// are built with address and undefined-behaviour sanitizers; every argument
// lies in a heap block of exactly its size.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
#include <memory>
using namespace gen;
template <class C> struct Exact {
  std::unique_ptr<C[]> p;
  size_t n;
  explicit Exact(std::basic_string_view<C> s) : p(new C[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n * sizeof(C)); }
  std::basic_string_view<C> v() const { return {p.get(), n}; }
};
static void bytes(std::string_view s0, hx::Rec& r, bool small) {
  Exact<char> x(s0);
  auto s = x.v();
  std::string o;
  bool k = ada::idna::to_ascii(s, o);
  r.outcome(o + char(k));
  k = ada::idna::to_unicode(s, o);
  r.outcome(o);
  r.call(2);
  if (!small) return;
  (void)ada::idna::contains_forbidden_domain_code_point(s);
  (void)ada::idna::verify_punycode(s);
  std::u32string u;
  (void)ada::idna::punycode_to_utf32(s, u);
  size_t n = ada::idna::utf32_length_from_utf8(s.data(), s.size());
  std::unique_ptr<char32_t[]> d(new char32_t[n]);
  size_t m = ada::idna::utf8_to_utf32(s.data(), s.size(), d.get());
  if (m > n) r.fail("utf8_to_utf32 reports " + std::to_string(m) + " code points where " + std::to_string(n) + " were announced");
  Exact<char> y(s0);
  ada::idna::ascii_map(y.p.get(), y.n);
  r.call(6);
}
static void cps(std::u32string_view s0, hx::Rec& r) {
  Exact<char32_t> x(s0);
  auto s = x.v();
  std::u32string u;
  bool k = ada::idna::map(s, u);
  r.outcome(hx::hex8({(const char*)u.data(), u.size() * 4}));
  u.assign(s);
  u.shrink_to_fit();
  k = ada::idna::normalize(u);
  k = ada::idna::is_already_nfc(s);
  k = ada::idna::is_label_valid(s);
  std::string p;
  k = ada::idna::utf32_to_punycode(s, p);
  r.outcome(p);
  size_t n = ada::idna::utf8_length_from_utf32(s.data(), s.size());
  std::unique_ptr<char[]> d(new char[n]);
  size_t m = ada::idna::utf32_to_utf8(s.data(), s.size(), d.get());
  if (m > n) r.fail("utf32_to_utf8 reports " + std::to_string(m) + " bytes where " + std::to_string(n) + " were announced");
  for (char32_t c : s.substr(0, 4)) k = ada::idna::valid_name_code_point(c, true) | ada::idna::valid_name_code_point(c, false);
  (void)k;
  r.call(8);
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  for (auto& sp : domain_spaces(th ? 1 : 0)) {
    if (th && sp.n > 6000000) continue;
    f.push_back({sp.name, sp.n, [sp](uint64_t i, hx::Rec& r) { static std::string s; sp.get(i, s); r.in8(s); bytes(s, r, s.size() < 2000); }});
  }
  f.push_back({"all byte strings of length <= 2 after a non-ASCII letter", 65536 + 256, [](uint64_t i, hx::Rec& r) {
                 std::string s = "\xC3\xBC";
                 if (i < 256) s += char(i); else { i -= 256; s += char(i >> 8); s += char(i); }
                 r.in8(s); bytes(s, r, true);
               }});
  f.push_back({"empty views without an address", 2, [](uint64_t i, hx::Rec& r) {
                 r.in8("");
                 std::string_view s;
                 std::u32string_view u;
                 std::string o;
                 std::u32string w;
                 bool k = true;
                 if (i) {
                   k = ada::idna::to_ascii(s, o) && o.empty() && ada::idna::to_unicode(s, o) && o.empty() && !ada::idna::contains_forbidden_domain_code_point(s) && ada::idna::map(u, w) && w.empty() && ada::idna::normalize(w) && ada::idna::is_already_nfc(u) && ada::idna::utf32_to_punycode(u, o) && o.empty();
                   (void)ada::idna::is_label_valid(u);
                   (void)ada::idna::punycode_to_utf32(s, w);
                   (void)ada::idna::verify_punycode(s);
                   (void)ada::idna::utf8_to_utf32(nullptr, 0, nullptr);
                   (void)ada::idna::utf32_to_utf8(nullptr, 0, nullptr);
                   (void)ada::idna::utf32_length_from_utf8(nullptr, 0);
                   (void)ada::idna::utf8_length_from_utf32(nullptr, 0);
                   ada::idna::ascii_map(nullptr, 0);
                 }
                 if (!k) r.fail("the empty view is not handled as an empty string");
                 r.call(16);
               }});
  {
    auto& A = domain_alphabet();
    Words w(A.size(), 3);
    f.push_back({"words of 3 tokens over " + std::to_string(A.size()) + " tokens", w.total, [w](uint64_t i, hx::Rec& r) {
                   static std::vector<std::string> enc = [] { std::vector<std::string> e; for (auto& x : domain_alphabet()) e.push_back(u8(x)); return e; }();
                   std::string s;
                   for (auto k : w.get(i)) s += enc[k];
                   r.in8(s); bytes(s, r, true);
                 }});
    auto& L = label_alphabet();
    uint64_t n = L.size();
    f.push_back({"domains of 3 labels over " + std::to_string(n), n * n * n, [n](uint64_t i, hx::Rec& r) {
                   auto& L = label_alphabet();
                   std::string s = L[i % n] + "." + L[i / n % n] + "." + L[i / n / n];
                   r.in8(s); bytes(s, r, false);
                 }});
  }
  // transcoding: a 4-byte window at every offset of buffers around the vector widths
  {
    auto& B = utf8_bytes();
    uint64_t nb = B.size();
    uint64_t span = th ? 70 : 36;
    f.push_back({"two boundary bytes at each position of ASCII / 2-byte / 3-byte text of every length < " + std::to_string(span), nb * nb * span * (span + 1) / 2 * 3, [nb, span](uint64_t i, hx::Rec& r) {
                   auto& B = utf8_bytes();
                   std::string x;
                   x += char(B[i % nb]); i /= nb;
                   x += char(B[i % nb]); i /= nb;
                   int bg = int(i % 3); i /= 3;
                   uint64_t len = 0;
                   while (i > len) { i -= len + 1; len++; }
                   std::string s;
                   while (s.size() < len) s += bg == 0 ? "a" : bg == 1 ? "\xC3\xBC" : "\xE4\xB8\x80";
                   s.resize(len);
                   s.insert(size_t(i), x);
                   r.in8(s);
                   Exact<char> e(s);
                   size_t n = ada::idna::utf32_length_from_utf8(e.p.get(), e.n);
                   std::unique_ptr<char32_t[]> d(new char32_t[n]);
                   if (ada::idna::utf8_to_utf32(e.p.get(), e.n, d.get()) > n) r.fail("utf8_to_utf32 writes more than announced");
                   (void)ada::idna::contains_forbidden_domain_code_point(e.v());
                   ada::idna::ascii_map(e.p.get(), e.n);
                   r.call(4);
                   r.outcome(n);
                 }});
  }
  // code point sequences, including values that are no code points
  static const std::u32string A = {0, U'a', U'Z', U'-', U'.', 0x7F, 0x80, 0xAD, 0xDF, 0xFC, 0x301, 0x308, 0x323, 0x345, 0x5D0, 0x627, 0x628, 0x661, 0x94D, 0x1100, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0x200C, 0x200D, 0xABFF, 0xAC00, 0xAC01, 0xD7A3, 0xD7A4, 0xD800, 0xDFFF, 0xFDFA, 0xFFFF, 0x10000, 0x1D15E, 0x1D165, 0x2F800, 0x2FA1D, 0xE0100, 0xE0FFF, 0xE1000, 0x10FFFF, 0x110000, 0x110080, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
  {
    Words w(A.size(), th ? 4 : 3);
    f.push_back({"all sequences of <= " + std::to_string(th ? 4 : 3) + " of " + std::to_string(A.size()) + " values (surrogates and values beyond U+10FFFF included)", w.total, [w](uint64_t i, hx::Rec& r) {
                   U32 s;
                   for (auto k : w.get(i)) s.push_back(A[k]);
                   r.in32(s); cps(s, r);
                 }});
  }
  f.push_back({"every value 0..0x120000 alone and after 3 contexts", uint64_t(0x120000) * (th ? 4 : 2), [th](uint64_t i, hx::Rec& r) {
                 uint64_t m = th ? 4 : 2;
                 static const U32 pre[4] = {U"", U"a\u0301", U"\u0628\u200C", U"\u1100"};
                 U32 s = pre[i % m] + char32_t(i / m);
                 r.in32(s); cps(s, r);
               }});
  f.push_back({"values at every power of two +-2 in 52 contexts", 34 * 5 * 52, [](uint64_t i, hx::Rec& r) {
                 int d = int(i % 5) - 2; i /= 5;
                 int b = int(i % 34); i /= 34;
                 U32 s = {A[i], char32_t((1ull << std::min(b, 32)) + d), A[(i * 7) % 52]};
                 r.in32(s); cps(s, r);
               }});
  f.push_back({"repetitions: each value x lengths 0..300, 5000", 52 * 302, [](uint64_t i, hx::Rec& r) {
                 U32 s(i / 52 == 301 ? 5000 : i / 52, A[i % 52]);
                 r.in32(std::u32string_view(s).substr(0, 400)); cps(s, r);
               }, 8});
  f.push_back({"repetitions of pairs x lengths 1..40, 1000", 52 * 52 * 41, [](uint64_t i, hx::Rec& r) {
                 size_t n = i / 2704 == 40 ? 1000 : i / 2704 + 1;
                 U32 s;
                 while (s.size() < n) { s.push_back(A[i % 52]); s.push_back(A[i / 52 % 52]); }
                 r.in32(std::u32string_view(s).substr(0, 400)); cps(s, r);
               }, 64});
  // punycode: digits with extreme values, deltas that overflow
  {
    static const std::string dig = "az09-AZ.\xFF";
    Words w(dig.size(), th ? 8 : 6);
    f.push_back({"punycode input: all strings of <= " + std::to_string(th ? 8 : 6) + " of 9 characters", w.total, [w](uint64_t i, hx::Rec& r) {
                   std::string s;
                   for (auto k : w.get(i)) s += dig[k];
                   r.in8(s);
                   Exact<char> e(s);
                   std::u32string u;
                   bool k = ada::idna::punycode_to_utf32(e.v(), u);
                   r.call(2);
                   r.outcome(hx::hex8({(const char*)u.data(), u.size() * 4}));
                   if (ada::idna::verify_punycode(e.v()) != k) r.fail("verify_punycode and punycode_to_utf32 disagree");
                 }});
  }
  f.push_back({"punycode input: long runs of one digit after a basic part", 38 * 120 * 3, [](uint64_t i, hx::Rec& r) {
                 static const std::string dig = "abcdefghijklmnopqrstuvwxyz0123456789-Z";
                 std::string s = i % 3 == 0 ? "" : i % 3 == 1 ? "a-" : std::string(3000, 'b') + "-";
                 i /= 3;
                 s += std::string(i / 38, dig[i % 38]);
                 r.in8(s); bytes(s, r, true);
                 bytes("xn--" + s, r, false);
                 bytes("xn--" + s + ".\xC3\x9F", r, false);
               }});
  return hx::run(argc, argv, f);
}
