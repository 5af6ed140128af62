// C17: forbidden domain code points are found exactly, at any position.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void chk(std::string_view s, hx::Rec& r) {
  bool want = false;
  for (unsigned char c : s) want |= ref::forbidden_domain(c);
  bool got = ada::idna::contains_forbidden_domain_code_point(s);
  r.call();
  if (got != want) { r.in8(s); r.fail(std::string(got ? "reported" : "not reported") + " as containing a forbidden domain code point"); }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  f.push_back({"all byte strings of length <= 2", 1 + 256 + 65536, [](uint64_t i, hx::Rec& r) { std::string s; r.outcome(i); if (i >= 257) { i -= 257; s += char(i >> 8); s += char(i); } else if (i) s += char(i - 1); r.in8(s); chk(s, r); }});
  f.push_back({"all 3-byte strings (256 per evaluation)", 65536, [](uint64_t i, hx::Rec& r) { char b[3] = {char(i >> 8), char(i), 0}; r.in8({b, 3}); r.outcome(i + 70000); for (int k = 0; k < 256; k++) { b[2] = char(k); chk({b, 3}, r); } r.states(256); }});
  static const std::string cls = "aZ09-._~!$&'()*+,;=\"`{}";
  uint64_t N = th ? 300 : 80;
  f.push_back({"every byte at every position of strings of up to " + std::to_string(N), N * N * 256 * 2, [N](uint64_t i, hx::Rec& r) {
                 int x = i % 256; i /= 256;
                 int bg = i % 2; i /= 2;
                 size_t n = i % N, pos = i / N;
                 if (pos > n) return;
                 static std::string s;
                 s.clear();
                 for (size_t k = 0; k < n; k++) s += bg ? cls[k % cls.size()] : 'a';
                 s.insert(pos, 1, char(x));
                 if (i == 0 || !(x % 64)) r.in8(s);
                 chk(s, r);
               }, 65536});
  static const std::vector<uint32_t> big = ladder(th ? 1 << 22 : 1 << 18, 60);
  f.push_back({"every byte before, after, inside long strings", big.size() * 256 * 3, [](uint64_t i, hx::Rec& r) {
                 int x = i % 256; i /= 256;
                 uint32_t n = big[i / 3];
                 static std::string s;
                 s.assign(n, 'a');
                 if (n < 5000) for (size_t k = 0; k < n; k++) s[k] = cls[k % cls.size()];
                 s[i % 3 == 0 ? 0 : i % 3 == 1 ? n - 1 : n / 2] = char(x);
                 chk(s, r);
               }, 64});
  // the domain conversion does not remove or introduce forbidden code points
  static const std::string all = [] { std::string s; for (int c = 1; c < 128; c++) s += char(c); return s; }();
  f.push_back({"ASCII domains keep their forbidden code points", 128 * 128 * 20, [](uint64_t i, hx::Rec& r) {
                 size_t n = i % 20; i /= 20;
                 std::string s(n, 'a');
                 s += char(i % 128); s += char(i / 128);
                 r.in8(s);
                 std::string o;
                 bool ok = ada::idna::to_ascii(s, o);
                 r.call();
                 if (!ok || ada::idna::contains_forbidden_domain_code_point(o) != ada::idna::contains_forbidden_domain_code_point(s)) r.fail("converted to " + hx::show8(o));
                 chk(s, r);
               }});
  return hx::run(argc, argv, f);
}
