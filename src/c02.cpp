// C02: an all-ASCII domain within the size limit is lower-cased byte for byte, nothing else.
#include <sys/mman.h>
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void chk(const std::string& in, hx::Rec& r) {
  r.in8(in);
  std::string want = ref::ascii_lower(in), out;
  bool ok = ada::idna::to_ascii(in, out);
  r.call(2);
  if (!ok) return r.fail("an ASCII domain is rejected");
  if (out != want) return r.fail("gives " + hx::show8(out));
  if (ada::idna::to_ascii(in) != want) return r.fail("string form gives " + hx::show8(ada::idna::to_ascii(in)));
  r.outcome(out);
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  bool th = thorough();
  Words w(128, th ? 4 : 3);
  f.push_back({"all ASCII strings of length <= " + std::to_string(w.depth), w.total, [w](uint64_t i, hx::Rec& r) {
                 static std::string s; s.clear();
                 for (auto k : w.get(i)) s += char(k);
                 chk(s, r);
               }});
  uint64_t N = th ? 200 : 96;
  f.push_back({"every ASCII byte at every position of strings of every length < " + std::to_string(N) + ", 4 backgrounds", N * N * 128 * 4, [N](uint64_t i, hx::Rec& r) {
                 unsigned b = i % 128; i /= 128;
                 unsigned bg = i % 4; i /= 4;
                 uint64_t len = i % N, pos = i / N;
                 if (pos >= len) return;
                 static std::string s; s.resize(len);
                 for (uint64_t k = 0; k < len; k++) s[k] = bg == 0 ? char('a' + k % 26) : bg == 1 ? char('A' + k % 26) : bg == 2 ? "xn--."[k % 5] : char((k * 7 + 0x39) & 127);
                 s[pos] = char(b);
                 chk(s, r);
               }});
  f.push_back({"every pair of adjacent ASCII bytes at every offset of 24-byte strings", 128 * 128 * 23 * 2, [](uint64_t i, hx::Rec& r) {
                 static std::string s;
                 s.assign(24, i & 1 ? 'Q' : 'q'); i /= 2;
                 s[i % 23 + 1] = char(i / 23 % 128); s[i % 23] = char(i / 23 / 128);
                 chk(s, r);
               }});
  uint64_t M = th ? 8 : 2;
  f.push_back({"every length 0..16384, rotating all byte values", 16385 * M, [M](uint64_t i, hx::Rec& r) {
                 static std::string s;
                 uint64_t len = i / M, k0 = i % M * 37 + len;
                 s.resize(len);
                 for (uint64_t k = 0; k < len; k++) s[k] = char((k + k0) * 53 & 127);
                 chk(s, r);
               }, 64});
  // label structure never matters
  static const std::vector<std::string> tok = {"", ".", "xn--", "XN--", "xn--a", "xn--4DB", "xn---", "A", "z", "-", "0", "%", " ", std::string(1, '\0'), "_", "xn--tda", "ab--c", "\x7f"};
  Words t(tok.size(), th ? 6 : 4);
  f.push_back({"words of <= " + std::to_string(t.depth) + " ASCII label tokens", t.total, [t](uint64_t i, hx::Rec& r) {
                 static std::string s; s.clear();
                 for (auto k : t.get(i)) s += tok[k];
                 chk(s, r);
               }});
  // the in-place form: every alignment, nothing outside [p, p+n) is written
  f.push_back({"in-place lower-casing: length x alignment x every byte x position", 40 * 8 * 128 * 4, [](uint64_t i, hx::Rec& r) {
                 unsigned b = i % 128; i /= 128;
                 unsigned al = i % 8; i /= 8;
                 unsigned len = i % 40; i /= 40;
                 unsigned posk = unsigned(i);
                 alignas(16) char buf[80];
                 memset(buf, 'Y', sizeof buf);
                 std::string in(len, 'M');
                 for (unsigned k = 0; k < len; k++) in[k] = char('A' + (k * 5 + b) % 60);
                 if (len) in[posk == 0 ? 0 : posk == 1 ? len - 1 : posk == 2 ? len / 2 : len * 3 / 4] = char(b);
                 r.in8(in);
                 memcpy(buf + 8 + al, in.data(), len);
                 ada::idna::ascii_map(buf + 8 + al, len);
                 r.call();
                 if (std::string(buf + 8 + al, len) != ref::ascii_lower(in)) r.fail("in-place form gives " + hx::show8(std::string_view(buf + 8 + al, len)));
                 for (unsigned k = 0; k < sizeof buf; k++)
                   if ((k < 8 + al || k >= 8 + al + len) && buf[k] != 'Y') r.fail("in-place form writes outside its buffer");
               }});
  // beyond the domain limit the in-place form has no limit of its own
  static const std::vector<uint32_t> big = ladder(th ? 1 << 24 : 1 << 20, 16000);
  f.push_back({"in-place lower-casing of long strings", big.size() * 3, [](uint64_t i, hx::Rec& r) {
                 uint32_t n = big[i / 3];
                 std::string s(n, 'Q'), w;
                 if (i % 3) for (uint32_t k = 0; k < n; k++) s[k] = char(i % 3 == 1 ? (k * 7 + k / 128) & 127 : "aZ[@z{`"[k % 7]);
                 w = ref::ascii_lower(s);
                 ada::idna::ascii_map(s.data(), s.size());
                 r.call();
                 size_t at = 0;
                 while (at < n && s[at] == w[at]) at++;
                 r.in8("string of " + std::to_string(n) + " bytes, pattern " + std::to_string(i % 3));
                 r.outcome(n * 3 + i % 3);
                 if (at < n) r.fail("byte " + std::to_string(at) + " is wrong");
               }, 1});
  return hx::run(argc, argv, f);
}
