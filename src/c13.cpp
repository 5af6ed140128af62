// C13: UTF-8 to UTF-32 conversion is strict, exact, and stays inside the
// buffer announced by the length function.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
constexpr size_t OB = 1 << 22;
static char32_t obuf[OB];
constexpr char32_t CAN = 0xDEADBEEF;
static bool chk(const char* p, size_t n, hx::Rec& r) {
  static U32 want;
  // reference decode, without allocation
  want.clear();
  bool good = true;
  for (size_t i = 0; i < n && good;) {
    unsigned char b = (unsigned char)p[i];
    auto cont = [&](size_t k, unsigned lo = 0x80, unsigned hi = 0xBF) { return i + k < n && (unsigned char)p[i + k] >= lo && (unsigned char)p[i + k] <= hi; };
    auto c6 = [&](size_t k) { return uint32_t((unsigned char)p[i + k] & 0x3F); };
    if (b < 0x80) { want += char32_t(b); i++; }
    else if (b >= 0xC2 && b <= 0xDF && cont(1)) { want += char32_t((b & 0x1F) << 6 | c6(1)); i += 2; }
    else if (b >= 0xE0 && b <= 0xEF && cont(1, b == 0xE0 ? 0xA0 : 0x80, b == 0xED ? 0x9F : 0xBF) && cont(2)) { want += char32_t((b & 0xF) << 12 | c6(1) << 6 | c6(2)); i += 3; }
    else if (b >= 0xF0 && b <= 0xF4 && cont(1, b == 0xF0 ? 0x90 : 0x80, b == 0xF4 ? 0x8F : 0xBF) && cont(2) && cont(3)) { want += char32_t((b & 7) << 18 | c6(1) << 12 | c6(2) << 6 | c6(3)); i += 4; }
    else good = false;
  }
  size_t len = ada::idna::utf32_length_from_utf8(p, n);
  if (len > n) { r.fail("announced length " + std::to_string(len) + " for " + std::to_string(n) + " bytes"); return false; }
  size_t guard = std::min<size_t>(len + 20, OB - 1);
  for (size_t k = 0; k <= guard; k++) obuf[k] = CAN;
  size_t got = ada::idna::utf8_to_utf32(p, n, obuf);
  for (size_t k = len; k <= guard; k++)
    if (obuf[k] != CAN) { r.in8({p, n}); r.fail("writes beyond the announced length " + std::to_string(len)); return false; }
  if (got != (good ? want.size() : 0)) {
    r.in8({p, n});
    r.fail("returns " + std::to_string(got) + ", expected " + (good ? std::to_string(want.size()) + " code points" : "0 (not UTF-8)"));
    return false;
  }
  if (good) {
    if (len != want.size()) { r.in8({p, n}); r.fail("announced length " + std::to_string(len) + " of " + std::to_string(want.size()) + " code points"); return false; }
    for (size_t k = 0; k < got; k++)
      if (obuf[k] != want[k]) { r.in8({p, n}); r.fail("code point " + std::to_string(k) + " is " + hx::show32(U32v(obuf + k, 1)) + ", expected " + hx::show32(U32v(&want[k], 1))); return false; }
  }
  return true;
}
static void one(const std::string& s, hx::Rec& r) {
  r.in8(s);
  r.call(2);
  chk(s.data(), s.size(), r);
  r.outcome(uint64_t(ada::idna::utf8_to_utf32(s.data(), s.size(), obuf)) * 1315423911u + s.size());
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  f.push_back({"all byte strings of length <= 2", 1 + 256 + 65536, [](uint64_t i, hx::Rec& r) { std::string s; if (i >= 257) { i -= 257; s += char(i >> 8); s += char(i); } else if (i) s += char(i - 1); one(s, r); }});
  f.push_back({"all 3-byte strings (256 per evaluation)", 65536, [](uint64_t i, hx::Rec& r) {
                 char b[3] = {char(i >> 8), char(i), 0};
                 r.in8({b, 3});
                 for (int k = 0; k < 256; k++) { b[2] = char(k); if (!chk(b, 3, r)) break; r.outcome(uint64_t(obuf[0]) << 21 ^ obuf[1]); }
                 r.call(512); r.states(256);
               }});
  unsigned lo = th ? 0 : 0xE0;
  f.push_back({th ? "all 4-byte strings (65536 per evaluation)" : "all 4-byte strings with a lead byte >= E0 (65536 per evaluation)", (256 - lo) * 256ull, [lo](uint64_t i, hx::Rec& r) {
                 i += lo * 256;
                 char b[4] = {char(i >> 8), char(i), 0, 0};
                 r.in8({b, 4});
                 for (uint32_t k = 0; k < 65536; k++) { b[2] = char(k >> 8); b[3] = char(k); if (!chk(b, 4, r)) break; }
                 r.outcome(obuf[0]);
                 r.call(131072); r.states(65536);
               }, 8});
  static const std::vector<std::string> seq = [] {
    std::vector<std::string> v;
    for (uint32_t c : {0x0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF}) { std::string s; ref::utf8_put(s, c); v.push_back(s); }
    for (auto s : {"\x80", "\xBF", "\xC0", "\xC1\x81", "\xC2", "\xC0\x80", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xE2\x82", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF0\x9F\x98", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\xE2\x28\xA1", "\xC3\x28", "\xF0\x28\x8C\xBC", "\xF0\x90\x28\xBC", "\xF0\x90\x90\x28", "\xE2\x82\x28"}) v.push_back(s);
    return v;
  }();
  uint64_t N = th ? 66 : 50;
  static const std::vector<std::string> bg = {"a", "\xC3\xBC", "\xE4\xB8\x80", "\xF0\x90\x90\xA8", "ab\xC3\xBC"};
  f.push_back({"each sequence at each position of strings of up to " + std::to_string(N) + " characters, 5 backgrounds, 8 alignments", N * N * seq.size() * bg.size() * 8, [N](uint64_t i, hx::Rec& r) {
                 unsigned al = i % 8; i /= 8;
                 auto& b = bg[i % bg.size()]; i /= bg.size();
                 auto& x = seq[i % seq.size()]; i /= seq.size();
                 uint64_t n = i % N, pos = i / N;
                 if (pos > n) return;
                 static char mem[1024];
                 size_t w = al;
                 for (uint64_t k = 0; k <= n; k++) {
                   if (k == pos) { memcpy(mem + w, x.data(), x.size()); w += x.size(); }
                   if (k < n) { memcpy(mem + w, b.data(), b.size()); w += b.size(); }
                 }
                 memset(mem + w, 0xBF, 8);  // continuation bytes beyond the end must not count
                 r.call(2);
                 if (!chk(mem + al, w - al, r)) return;
               }, 65536});
  auto& B = utf8_bytes();
  Words w(B.size(), th ? 6 : 5);
  f.push_back({"words over " + std::to_string(B.size()) + " boundary bytes", w.total, [w](uint64_t i, hx::Rec& r) { static std::string s; s.clear(); for (auto k : w.get(i)) s += char(utf8_bytes()[k]); r.in8(s); r.call(2); chk(s.data(), s.size(), r); }, 65536});
  Words ws(seq.size(), 3);
  f.push_back({"words of <= 3 sequences after 0..20 ASCII characters", ws.total * 21, [ws](uint64_t i, hx::Rec& r) { static std::string s; s.assign(i % 21, 'q'); for (auto k : ws.get(i / 21)) s += seq[k]; s += "0123456789abcdefghi"; one(s, r); }, 16384});
  static const std::vector<uint32_t> big = ladder(th ? 1 << 20 : 140000, 60);
  f.push_back({"each sequence before, after, between long fillers", big.size() * seq.size() * bg.size() * 3, [](uint64_t i, hx::Rec& r) {
                 auto& x = seq[i % seq.size()]; i /= seq.size();
                 auto& b = bg[i % bg.size()]; i /= bg.size();
                 int lay = i % 3;
                 uint32_t n = big[i / 3];
                 static std::string s;
                 s.clear();
                 auto rep = [&] { if (b.size() == 1) s.append(n, b[0]); else for (size_t e = s.size() + n; s.size() < e;) s += b; };
                 if (lay == 0) s += x;
                 rep();
                 if (lay) s += x;
                 if (lay == 2) { uint32_t k = uint32_t(s.size()); while (s.size() < 2 * k) s += b; }
                 one(s, r);
               }, 8});
  // rejection / acceptance seen through the domain conversion
  Words wd(B.size(), 3);
  f.push_back({"malformed UTF-8 anywhere makes to_ascii fail", wd.total * 3, [wd](uint64_t i, hx::Rec& r) {
                 static const char* pre[] = {"", "abc.", "\xC3\xBC."};
                 std::string s = pre[i % 3];
                 for (auto k : wd.get(i / 3)) s += char(utf8_bytes()[k]);
                 s += ".com";
                 r.in8(s);
                 std::string o;
                 bool ok = ada::idna::to_ascii(s, o);
                 r.call();
                 if (ok && !ref::utf8_decode(s)) r.fail("to_ascii accepts malformed UTF-8: " + hx::show8(o));
               }});
  return hx::run(argc, argv, f);
}
