// C14: UTF-32 to UTF-8 conversion is exact, refuses what is not a scalar
// value, and the two length functions are exact bounds.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
constexpr size_t OB = 1 << 23;
static char obuf[OB + 64], want[OB];
static bool chk(const char32_t* p, size_t n, hx::Rec& r) {
  size_t w = 0;
  bool good = true;
  for (size_t i = 0; i < n; i++) {
    uint32_t c = p[i];
    if (!ref::is_scalar(c)) { good = false; break; }
    if (c < 0x80) want[w++] = char(c);
    else if (c < 0x800) { want[w++] = char(0xC0 | c >> 6); want[w++] = char(0x80 | (c & 63)); }
    else if (c < 0x10000) { want[w++] = char(0xE0 | c >> 12); want[w++] = char(0x80 | (c >> 6 & 63)); want[w++] = char(0x80 | (c & 63)); }
    else { want[w++] = char(0xF0 | c >> 18); want[w++] = char(0x80 | (c >> 12 & 63)); want[w++] = char(0x80 | (c >> 6 & 63)); want[w++] = char(0x80 | (c & 63)); }
  }
  size_t len = ada::idna::utf8_length_from_utf32(p, n);
  if (len > 4 * n) { r.in32(U32v(p, n)); r.fail("announced length " + std::to_string(len)); return false; }
  memset(obuf + len, 0x5A, 16);
  size_t got = ada::idna::utf32_to_utf8(p, n, obuf);
  for (size_t k = len; k < len + 16; k++)
    if (obuf[k] != 0x5A) { r.in32(U32v(p, n)); r.fail("writes beyond the announced length " + std::to_string(len)); return false; }
  if (!good) {
    if (got) { r.in32(U32v(p, n)); r.fail("returns " + std::to_string(got) + " although a value is not a scalar value"); return false; }
    return true;
  }
  if (len != w || got != w || memcmp(obuf, want, w)) {
    r.in32(U32v(p, n));
    r.fail("announced " + std::to_string(len) + ", returns " + std::to_string(got) + " " + hx::show8({obuf, std::min<size_t>(got, 200)}) + ", expected " + hx::show8({want, w}));
    return false;
  }
  if (ada::idna::utf32_length_from_utf8(obuf, w) != n) { r.in32(U32v(p, n)); r.fail("length of the converted string is not " + std::to_string(n)); return false; }
  return true;
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  f.push_back({"every 32-bit value, alone (65536 per evaluation)", 65536, [](uint64_t i, hx::Rec& r) {
                 r.call(65536 * 2); r.states(65536);
                 for (uint32_t k = 0; k < 65536; k++) { char32_t s = char32_t(i << 16 | k); if (!chk(&s, 1, r)) return; }
                 r.outcome(obuf[0] * 7 + obuf[1]);
                 char32_t s[1] = {char32_t(i << 16)};
                 r.in32(U32v(s, 1));
               }, 64});
  f.push_back({"every value below 0x120000 in pairs and triples with each class", 0x120000, [](uint64_t i, hx::Rec& r) {
                 static const char32_t o[] = {U'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF};
                 char32_t x = char32_t(i);
                 r.in32(U32v(&x, 1));
                 for (char32_t y : o) {
                   char32_t s[4] = {x, y, x, y};
                   r.call(6);
                   if (!chk(s, 2, r) || !chk(s + 1, 2, r) || !chk(s, 3, r)) return;
                 }
                 r.outcome(std::string_view(obuf, 8));
               }});
  if (th) f.push_back({"every 32-bit value after and before an ASCII character", 65536, [](uint64_t i, hx::Rec& r) {
                 r.call(65536 * 4); r.states(131072);
                 for (uint32_t k = 0; k < 65536; k++) { char32_t s[3] = {U'a', char32_t(i << 16 | k), U'b'}; if (!chk(s, 2, r) || !chk(s + 1, 2, r)) return; }
               }, 64});
  static const U32 A = {0, U'a', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x80000041, 0xFFFFFFFF};
  Words w(A.size(), th ? 6 : 5);
  f.push_back({"words over 16 boundary values, 2 alignments", w.total, [w](uint64_t i, hx::Rec& r) {
                 static char32_t mem[16];
                 auto v = w.get(i);
                 for (int al = 0; al < 2; al++) {
                   for (size_t k = 0; k < v.size(); k++) mem[al + k] = A[v[k]];
                   r.call(2);
                   if (!chk(mem + al, v.size(), r)) return;
                 }
                 r.in32(U32v(mem + 1, v.size()));
                 r.outcome(i % 1000003);
               }, 8192});
  uint64_t N = 70;
  f.push_back({"each boundary value at each position of strings of up to 70", N * N * A.size() * 4, [N](uint64_t i, hx::Rec& r) {
                 static const char32_t bg[] = {U'a', 0xFC, 0x4E00, 0x10400};
                 char32_t b = bg[i % 4]; i /= 4;
                 char32_t x = A[i % A.size()]; i /= A.size();
                 uint64_t n = i % N, pos = i / N;
                 if (pos > n) return;
                 U32 s(n, b);
                 s.insert(s.begin() + pos, x);
                 r.call(2);
                 chk(s.data(), s.size(), r);
               }});
  static const std::vector<uint32_t> big = ladder(th ? 1 << 20 : 140000, 60);
  f.push_back({"each boundary value before, after, between long fillers", big.size() * A.size() * 4 * 3, [](uint64_t i, hx::Rec& r) {
                 static const char32_t bg[] = {U'a', 0xFC, 0x4E00, 0x10400};
                 char32_t b = bg[i % 4]; i /= 4;
                 char32_t x = A[i % A.size()]; i /= A.size();
                 U32 s(big[i / 3], b);
                 s.insert(i % 3 == 0 ? s.begin() : i % 3 == 1 ? s.end() : s.begin() + s.size() / 2, x);
                 r.call(2);
                 chk(s.data(), s.size(), r);
               }, 8});
  return hx::run(argc, argv, f);
}
