// C30: buffers longer than 2^31 and 2^32. The buffers are sparse: one chunk of memory mapped
// again and again, with private pages where something particular stands.
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
constexpr size_t CHUNK = 12u << 20, PAGE = 4096;
constexpr uint64_t G2 = 1ull << 31, G4 = 1ull << 32;
struct Buf {
  char *base = nullptr, *p = nullptr;  // p: first byte; the buffer ends where the mapping ends minus `pad`
  size_t bytes, total;
  Buf(size_t n, std::string_view unit, size_t pad = 0) : bytes(n) {
    total = (n + pad + CHUNK - 1) / CHUNK * CHUNK;
    base = static_cast<char*>(mmap(nullptr, total + PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    int fd = memfd_create("chunk", 0);
    if (base == MAP_FAILED || fd < 0 || ftruncate(fd, CHUNK)) { perror("memory"); _exit(3); }
    for (size_t o = 0; o < total; o += CHUNK) if (mmap(base + o, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
    close(fd);
    for (size_t k = 0; k < CHUNK; k++) base[k] = unit[k % unit.size()];
    p = base + total - pad - n;
  }
  ~Buf() { munmap(base, total + PAGE); }
  Buf(const Buf&) = delete;
  // make the pages that hold [off, off+len) private
  char* window(size_t off, size_t len) {
    char* a = reinterpret_cast<char*>(uintptr_t(p + off) / PAGE * PAGE);
    size_t n = size_t(p + off + len - a + PAGE - 1) / PAGE * PAGE;
    std::string keep(a, n);
    if (mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
    memcpy(a, keep.data(), n);
    return p + off;
  }
  void put(size_t off, std::string_view s) { memcpy(window(off, s.size()), s.data(), s.size()); }
};
static std::string raw(U32v u) { return std::string(reinterpret_cast<const char*>(u.data()), u.size() * 4); }
static int lockfd[1];
struct Lock {  // at most one user of several gigabytes at a time
  int k;
  explicit Lock(int k) : k(k) { flock(lockfd[k], LOCK_EX); }
  ~Lock() { flock(lockfd[k], LOCK_UN); }
};
static void what(hx::Rec& r, const char* op, uint64_t n, const std::string& unit, const std::string& special) {
  r.in8(std::string(op) + " of " + std::to_string(n) + " x " + unit + (special.empty() ? "" : " with " + special));
}
static std::string at(uint64_t n) {
  for (auto b : {G4, G2}) if (n + 64 >= b && n <= b + 64) return (b == G4 ? "2^32" : "2^31") + (n < b ? "-" + std::to_string(b - n) : "+" + std::to_string(n - b));
  return std::to_string(n);
}
// RFC 3492 decoding of the digits that follow `count` basic code points; numbers of 31 bits
struct Ins { uint64_t pos; uint32_t cp; };
static std::optional<std::vector<Ins>> tail_decode(uint64_t count, std::string_view t) {
  std::vector<Ins> v;
  uint64_t n = 128, i = 0, bias = 72, M = 0x7fffffff;
  size_t x = 0;
  while (x < t.size()) {
    uint64_t old = i, w = 1;
    for (uint64_t k = 36;; k += 36) {
      if (x >= t.size()) return {};
      char c = t[x++];
      uint64_t d = c >= 'a' && c <= 'z' ? uint64_t(c - 'a') : c >= '0' && c <= '9' ? uint64_t(c - '0' + 26) : 99;
      if (d == 99) return {};
      i += d * w;
      if (i > M) return {};
      uint64_t th = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
      if (d < th) break;
      w *= 36 - th;
      if (w > M) return {};
    }
    if (++count > M) return {};
    uint64_t d = old == 0 ? (i - old) / 700 : (i - old) / 2;
    d += d / count;
    uint64_t k = 0;
    while (d > 455) d /= 35, k += 36;
    bias = k + 36 * d / (d + 38);
    n += i / count;
    i %= count;
    v.push_back({i, uint32_t(n)});
    i++;
  }
  return v;
}
static std::string digits(uint64_t q, uint64_t bias) {
  std::string s;
  auto dg = [](uint64_t x) { return char(x < 26 ? 'a' + x : '0' + x - 26); };
  for (uint64_t k = 36;; k += 36) {
    uint64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
    if (q < t) break;
    s += dg(t + (q - t) % (36 - t));
    q = (q - t) / (36 - t);
  }
  return s + dg(q);
}
int main(int argc, char** argv) {
  bool th = thorough();
  for (int& f : lockfd) { f = -1; }
  std::vector<hx::Family> f;
  static const std::vector<uint64_t> N8 = th ? std::vector<uint64_t>{G2 - 1, G2, G2 + 1, G2 + 17, G4 - 1, G4, G4 + 1, G4 + 17} : std::vector<uint64_t>{G2 + 1, G4 - 1, G4 + 9};
  static const std::vector<uint64_t> N32 = th ? std::vector<uint64_t>{(1ull << 29) + 1, (1ull << 30) + 1, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1} : std::vector<uint64_t>{(1ull << 30) + 1, G2 + 1, G4 + 1};
  // the slow ones first
  static const std::vector<uint64_t> NV = th ? std::vector<uint64_t>{G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1, G4 + 5} : std::vector<uint64_t>{G2 + 1};
  static const std::vector<std::pair<U32, bool>> vt = {{U"\u05D0\u05B0", true}, {U"a\u05B0", false}};
  f.push_back({"is_label_valid: " + std::to_string(NV.size()) + " sizes x 2 ends", NV.size() * vt.size(), [](uint64_t i, hx::Rec& r) {
                 auto& t = vt[i % vt.size()];
                 uint64_t n = NV[i / vt.size()];
                 what(r, "is_label_valid", n, "U+05D0", hx::show32(t.first) + " at the end");
                 Buf b(n * 4, raw(U"\u05D0"));
                 b.put((n - t.first.size()) * 4, raw(t.first));
                 bool ok = ada::idna::is_label_valid({reinterpret_cast<char32_t*>(b.p), n});
                 r.call();
                 r.outcome(ok);
                 if (ok != t.second) r.fail(std::string("a label of ") + at(n) + " code points is " + (ok ? "accepted" : "refused"));
               }, 1});
  static std::vector<std::pair<U32, bool>> nt = {{U"e\u0301", false}, {U"\u0301\u0323", false}, {U"", true}, {U"\u00E9", true}};
  if (!th) nt.resize(2);
  static const std::vector<uint64_t> NN = th ? std::vector<uint64_t>{G2 - 1, G2, G2 + 1, G4, G4 + 1} : std::vector<uint64_t>{G2 + 1};
  f.push_back({"is_already_nfc: " + std::to_string(NN.size()) + " sizes x " + std::to_string(nt.size()) + " ends", NN.size() * nt.size(), [](uint64_t i, hx::Rec& r) {
                 auto& t = nt[i % nt.size()];
                 uint64_t n = NN[i / nt.size()];
                 what(r, "is_already_nfc", n, "'a'", hx::show32(t.first) + " at the end");
                 Buf b(n * 4, raw(U"a"));
                 if (!t.first.empty()) b.put((n - t.first.size()) * 4, raw(t.first));
                 bool ok = ada::idna::is_already_nfc({reinterpret_cast<char32_t*>(b.p), n});
                 r.call();
                 r.outcome(ok);
                 if (ok != t.second) r.fail("wrong for " + at(n) + " code points");
               }, 1});
  struct PD { uint64_t n; const char* t; };
  static const std::vector<PD> pd = th ? std::vector<PD>{{G2 - 3, "b"}, {G2 - 3, "aa"}, {G2 - 2, "a"}, {G2 - 1, "a"}, {G2 - 1, ""}, {G2, "a"}, {G2, ""}, {G2 + 1, "a"}, {G4 + 1, "a"}} : std::vector<PD>{{G2 - 2, "b"}, {G2 - 1, "a"}, {G2 + 1, "a"}};
  f.push_back({"punycode_to_utf32: " + std::to_string(pd.size()) + " sizes and ends", 1, [](uint64_t, hx::Rec& r) {
                for (auto& x : pd) {
                 if (r.bad) return;
                 std::string t = std::string("-") + x.t;
                 what(r, "punycode_to_utf32", x.n, "'a'", t + " at the end");
                 Lock l(0);
                 Buf b(x.n + t.size(), "a");
                 b.put(x.n, t);
                 std::u32string o;
                 bool ok;
                 try { ok = ada::idna::punycode_to_utf32({b.p, b.bytes}, o); } catch (const std::bad_alloc&) { ok = false; o = U"no memory"; } catch (const std::length_error&) { ok = false; }
                 r.call();
                 r.outcome(ok);
                 bool v = ada::idna::verify_punycode({b.p, b.bytes});
                 r.call();
                 if (o == U"no memory") { fprintf(stderr, "out of memory\\n"); _exit(3); }
                 if (v != ok) return r.fail(std::string("the decoder ") + (ok ? "accepts" : "refuses") + " and the verifier does not agree, " + at(x.n) + " basic code points");
                 auto e = tail_decode(x.n, x.t);
                 if (!*x.t && x.n >= G2) { if (ok && o.size() != x.n) r.fail("wrong length"); continue; }  // may be refused: the count has more than 31 bits
                 if (ok != e.has_value()) return r.fail(std::string(ok ? "accepted" : "refused") + " with " + at(x.n) + " basic code points");
                 if (!ok) continue;
                 if (o.size() != x.n + e->size()) return r.fail("wrong length");
                 std::map<uint64_t, char32_t> at2;  // few insertions: apply in order
                 std::vector<Ins> done;
                 for (auto& y : *e) { for (auto& z : done) if (z.pos >= y.pos) z.pos++; done.push_back(y); }
                 uint64_t other = 0;
                 for (char32_t c : o) other += c != U'a';
                 for (auto& z : done) if (o[z.pos] != z.cp) return r.fail("wrong code point");
                 if (other != done.size()) r.fail("wrong code points");
                 hx::me->busy.fetch_add(1);
                }
               }, 1});
  static const std::vector<std::pair<uint64_t, int>> pe = [th] {
    std::vector<std::pair<uint64_t, int>> v;
    v = {{G2 - 2, 1}, {G2 - 2, 0}, {G2 - 1, 1}};
    if (th) v.push_back({G2 - 1, 0}), v.push_back({G2, 0}), v.push_back({G2, 1});
    if (th) for (uint64_t n : {G2 - 3, G2 + 1, G4 - 1, G4, G4 + 1}) for (int k : {0, 1}) v.push_back({n, k});
    return v;
  }();
  f.push_back({"utf32_to_punycode: " + std::to_string(pe.size()) + " sizes and positions", 1, [](uint64_t, hx::Rec& r) {
                for (auto [n, last] : pe) {
                 if (r.bad) return;  // n basic code points and U+0080
                 what(r, "utf32_to_punycode", n, "'a'", last ? "U+0080 at the end" : "U+0080 at the beginning");
                 Buf b((n + 1) * 4, raw(U"a"));
                 b.put(last ? n * 4 : 0, raw(U"\u0080"));
                 std::string o;
                 bool ok;
                 try { ok = ada::idna::utf32_to_punycode({reinterpret_cast<char32_t*>(b.p), n + 1}, o); } catch (const std::bad_alloc&) { fprintf(stderr, "out of memory\\n"); _exit(3); }
                 r.call();
                 r.outcome(ok);
                 bool want = n + 1 <= 0x7fffffff;
                 if (ok != want) return r.fail(std::string(ok ? "encoded" : "refused") + " with " + at(n) + " basic code points");
                 if (!ok) continue;
                 std::string t = "-" + digits(last ? n : 0, 72);
                 if (o.size() != n + t.size() || o.compare(n, t.size(), t)) return r.fail("wrong end: " + hx::show8(std::string_view(o).substr(std::min<size_t>(o.size(), n))));
                 for (uint64_t k = 0; k < n; k++) if (o[k] != 'a') return r.fail("wrong basic code points");
                 hx::me->busy.fetch_add(1);
                }
               }, 1});
  struct MP { uint64_t n; U32 u, img, end; bool ok; };
  static const std::vector<MP> mp = [th] {
    std::vector<MP> v = {{G2 + 1, U"A", U"a", U"", true}, {(1ull << 30) + 1, U"\uFB00", U"ff", U"", true}, {G2 + 1, U"\u00AD", U"", U"\u00DC", true}, {G2 + 1, U"a", U"", U"\u0378", false}};
    if (th) for (uint64_t n : {G2 - 1, G2, G4 - 1, G4, G4 + 1}) { v.push_back({n, U"\u00AD", U"", U"\u00DC", true}); v.push_back({n, U"a", U"", U"\u0378", false}); }
    return v;
  }();
  f.push_back({"map: " + std::to_string(mp.size()) + " sizes and contents", mp.size(), [](uint64_t i, hx::Rec& r) {
                 auto& x = mp[i];
                 what(r, "map", x.n, hx::show32(x.u), x.end.empty() ? "" : hx::show32(x.end) + " at the end");
                 std::optional<Lock> l;
                 if (x.ok && !x.img.empty()) l.emplace(0);
                 Buf b(x.n * 4, raw(x.u));
                 if (!x.end.empty()) b.put((x.n - x.end.size()) * 4, raw(x.end));
                 std::u32string o = U"stale";
                 bool ok;
                 try { ok = ada::idna::map({reinterpret_cast<char32_t*>(b.p), x.n}, o); } catch (const std::bad_alloc&) { fprintf(stderr, "out of memory\\n"); _exit(3); }
                 r.call();
                 r.outcome(ok + 2 * o.size());
                 if (ok != x.ok) return r.fail(std::string(ok ? "mapped" : "refused") + " with " + at(x.n) + " code points");
                 if (!ok) return;
                 U32 e = x.end.empty() ? U"" : U"\u00FC";
                 if (o.size() != (x.n - x.end.size()) * x.img.size() + e.size()) return r.fail("wrong length: " + std::to_string(o.size()));
                 if (!x.img.empty()) for (char32_t c : o) if (c != x.img[0]) return r.fail("wrong content");
                 if (x.img.empty() && o != e) r.fail("wrong content");
               }, 1});
  if (th)
    f.push_back({"normalize: 2 sizes", 2, [](uint64_t i, hx::Rec& r) {
                   uint64_t n = i ? G2 + 1 : (1ull << 30) + 1;
                   what(r, "normalize", n, "'a'", "e, U+0301 at the end");
                   Lock l(0);
                   std::u32string s(n, U'a');
                   s[n - 2] = U'e', s[n - 1] = 0x301;
                   bool ok = ada::idna::normalize(s);
                   r.call();
                   r.outcome(ok);
                   if (!ok || s.size() != n - 1 || s[n - 2] != 0xE9 || s[n - 3] != U'a' || s[G2 > n ? 5 : G2 - 5] != U'a') r.fail("wrong for " + at(n) + " code points");
                 }, 1});
  static const std::vector<uint64_t> NP = th ? std::vector<uint64_t>{G2 - 3, G2 - 2, G2 - 1, G2, G4 - 2, G4 - 1, G4, G4 + 1} : std::vector<uint64_t>{G2 - 2, G2 - 1, G2, G4 - 1, G4 + 1};
  static const std::vector<std::string> pt = th ? std::vector<std::string>{"-a", "-b", "-bb", "-99999999", "-aa", "-999999a"} : std::vector<std::string>{"-b", "-aa", "-99999999"};
  f.push_back({"verify_punycode: " + std::to_string(NP.size()) + " sizes x " + std::to_string(pt.size()) + " ends", NP.size() * pt.size(), [](uint64_t i, hx::Rec& r) {
                 auto& t = pt[i % pt.size()];
                 uint64_t n = NP[i / pt.size()];
                 what(r, "verify_punycode", n, "'a'", t + " at the end");
                 Buf b(n + t.size(), "a");
                 b.put(n, t);
                 bool ok = ada::idna::verify_punycode({b.p, b.bytes});
                 r.call();
                 r.outcome(ok);
                 if (ok != tail_decode(n, std::string_view(t).substr(1)).has_value()) r.fail(std::string(ok ? "accepted" : "refused") + " with " + at(n) + " basic code points");
               }, 1});
  struct TC { U32 u; };
  static const std::vector<U32> units = {U"a", U"\u00E9", U"\u20AC", U"\U0001F600"};
  static const std::vector<uint64_t> NT = th ? std::vector<uint64_t>{G2, G2 + 48, G4, G4 + 48} : std::vector<uint64_t>{G4 + 48};
  static std::vector<std::pair<std::string, int>> te = {{"", 0}, {"\xFF", -1}, {"\xE2\x82", -1}};
  if (!th) te.pop_back();
  f.push_back({"utf8_to_utf32: " + std::to_string(NT.size()) + " sizes x 4 code points x " + std::to_string(te.size()) + " ends", NT.size() * units.size() * te.size(), [](uint64_t i, hx::Rec& r) {
                 auto& u = units[i % 4]; i /= 4;
                 uint64_t n = NT[i % NT.size()]; i /= NT.size();
                 auto& e = te[i];
                 std::string s = u8(u);
                 n = n / s.size() * s.size() + e.first.size();
                 what(r, "utf8_to_utf32", n / s.size(), hx::show32(u), e.first.empty() ? "" : hx::show8(e.first) + " at the end");
                 Buf b(n, s, e.first.empty() ? 0 : s.size() - e.first.size() % s.size());
                 if (!e.first.empty()) b.put(n - e.first.size(), e.first);
                 uint64_t len = n / s.size();
                 Buf o((len + 4) * 4, std::string(4, 'z'), 0);
                 size_t w = ada::idna::utf8_to_utf32(b.p, n, reinterpret_cast<char32_t*>(o.p));
                 r.call();
                 r.outcome(w);
                 if (w != (e.second ? 0 : len)) return r.fail("returns " + std::to_string(w) + " for " + at(n) + " bytes");
                 const char32_t* q = reinterpret_cast<char32_t*>(o.p);
                 if (w) for (uint64_t k = len - 4000; k < len; k++) if (q[k] != u[0]) return r.fail("wrong content");
               }, 1});
  static std::vector<std::pair<U32, bool>> ue = {{U"\U0010FFFF", true}, {U32(1, char32_t(0xD800)), false}, {U32(1, char32_t(0x110000)), false}, {U"", true}};
  if (!th) ue.resize(2);
  static const uint64_t nz = th ? 3 : 1;
  f.push_back({"utf32_to_utf8: " + std::to_string(nz) + " sizes x 4 code points x " + std::to_string(ue.size()) + " ends", nz * units.size() * ue.size(), [](uint64_t i, hx::Rec& r) {
                 auto& u = units[i % 4]; i /= 4;
                 auto& e = ue[i % ue.size()]; i /= ue.size();
                 i += 3 - nz;
                 uint64_t n = i == 0 ? (1ull << 30) + 5 : i == 1 ? G2 + 1 : G4 + 3;
                 std::string s = u8(u);
                 if (s.size() > 1 && n > G4) n = G2 + 3;
                 if (s.size() > 2 && n > G2) n = (1ull << 30) + i;
                 what(r, "utf32_to_utf8", n, hx::show32(u), e.first.empty() ? "" : "a particular last element");
                 Buf b(n * 4, raw(u));
                 if (!e.first.empty()) b.put((n - 1) * 4, raw(e.first));
                 uint64_t len = e.first.empty() ? n * s.size() : (n - 1) * s.size() + 4;
                 Buf o(len + 8, "z");
                 size_t w = ada::idna::utf32_to_utf8(reinterpret_cast<char32_t*>(b.p), n, o.p);
                 r.call();
                 r.outcome(w);
                 if (w != (e.second ? len : 0)) return r.fail("returns " + std::to_string(w) + " for " + at(n) + " code points");
                 if (!w) return;
                 std::string end = e.first.empty() ? s + s : s + u8(e.first);
                 if (std::string(o.p + len - end.size(), end.size()) != end) return r.fail("wrong content");
                 size_t l = ada::idna::utf8_length_from_utf32(reinterpret_cast<char32_t*>(b.p), n);
                 r.call();
                 if (l != len) r.fail("utf8_length_from_utf32 announces " + std::to_string(l));
               }, 1});
  f.push_back({"utf8_length_from_utf32: " + std::to_string(N32.size()) + " sizes x 4 code points", N32.size() * units.size(), [](uint64_t i, hx::Rec& r) {
                 auto& u = units[i % 4];
                 uint64_t n = N32[i / 4];
                 what(r, "utf8_length_from_utf32", n, hx::show32(u), "");
                 Buf b(n * 4, raw(u));
                 size_t l = ada::idna::utf8_length_from_utf32(reinterpret_cast<char32_t*>(b.p), n);
                 r.call();
                 r.outcome(l);
                 if (l != n * u8(u).size()) r.fail("is " + std::to_string(l) + " for " + at(n) + " code points");
               }, 1});
  f.push_back({"utf32_length_from_utf8: " + std::to_string(N8.size()) + " sizes x 5 contents", N8.size() * 5, [](uint64_t i, hx::Rec& r) {
                 std::string s = i % 5 == 4 ? "\x80" : u8(units[i % 5]);
                 uint64_t n = N8[i / 5] / s.size() * s.size();
                 what(r, "utf32_length_from_utf8", n, hx::show8(s), "");
                 Buf b(n, s);
                 size_t l = ada::idna::utf32_length_from_utf8(b.p, n);
                 r.call();
                 r.outcome(l);
                 if (l != (i % 5 == 4 ? 0 : n / s.size())) r.fail("is " + std::to_string(l) + " for " + at(n) + " bytes");
               }, 1});
  f.push_back({"contains_forbidden_domain_code_point: " + std::to_string(N8.size()) + " sizes x 5 positions", N8.size() * 5, [](uint64_t i, hx::Rec& r) {
                 uint64_t n = N8[i / 5], pos = i % 5 == 0 ? n : i % 5 == 1 ? n - 1 : i % 5 == 2 ? G2 - 1 : i % 5 == 3 ? G2 : G4;
                 if (pos > n || (pos == n && i % 5)) pos = n - 2;
                 what(r, "contains_forbidden_domain_code_point", n, "'a'", pos < n ? "% at " + std::to_string(pos) : "");
                 Buf b(n, "a");
                 if (pos < n) b.put(pos, "%");
                 bool k = ada::idna::contains_forbidden_domain_code_point({b.p, n});
                 r.call();
                 r.outcome(k);
                 if (k != (pos < n)) r.fail("wrong for " + at(n) + " bytes");
               }, 1});
  f.push_back({"ascii_map: " + std::to_string(N8.size()) + " sizes", N8.size(), [](uint64_t i, hx::Rec& r) {
                 uint64_t n = N8[i];
                 what(r, "ascii_map", n, "'A'", "");
                 Buf b(n, "A", 64);
                 std::vector<uint64_t> w = {0, n / 2, n - 4096, n - 4096 * 4};
                 for (auto g : {G2, G4}) if (n > g + 5000) w.push_back(g - 2048);
                 for (auto o : w) b.window(o, 4096);
                 b.window(n - 1, 65);
                 ada::idna::ascii_map(b.p, n);
                 r.call();
                 r.outcome(n);
                 for (auto o : w) for (size_t k = 0; k < 4096; k++) if (b.p[o + k] != 'a') return r.fail("byte " + std::to_string(o + k) + " of " + at(n) + " was not lower-cased");
                 for (size_t k = 0; k < 64; k++) if (b.p[n + k] != 'A') return r.fail("a byte behind the buffer was changed");
               }, 1});
  hx::Opt o;
  o.hang_s = th ? 700 : 240;
  o.worker_init = [] {
    for (int k = 0; k < 1; k++) { std::string n = "lock" + std::to_string(k); lockfd[k] = open(n.c_str(), O_CREAT | O_RDWR, 0600); if (lockfd[k] < 0) _exit(3); }
    ada::idna::map(U"\u00DF");
  };
  return hx::run(argc, argv, f, o);
}
