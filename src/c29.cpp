// C29: the work and the memory of a call are bounded by the size of its input.
// Work is counted, not timed: edges executed in the library (instrumented build),
// bytes moved and bytes allocated. Deterministic, so a bound can be checked on
// every enumerated input.
#include <malloc.h>
#include <new>
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static bool on;
static int64_t live, peak;
static uint64_t work, allocated;
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) { work++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
// the library object's calls only reach these (linked with --wrap)
void* __real_memmove(void*, const void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_memmove(void* d, const void* s, size_t n) { work += n / 16; return __real_memmove(d, s, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { work += n / 16; return __real_memcpy(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { work += n / 16; return __real_memset(d, c, n); }
void* __real_memchr(const void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __wrap_memchr(const void* s, int c, size_t n) { void* p = __real_memchr(s, c, n); work += (p ? size_t(static_cast<char*>(p) - static_cast<const char*>(s)) : n) / 16; return p; }
int __wrap_memcmp(const void* a, const void* b, size_t n) { work += n / 16; return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); work += n / 16; return n; }
static void plus(void* p) {
  if (!p || !on) return;
  int64_t n = int64_t(malloc_usable_size(p));
  live += n;
  allocated += uint64_t(n);
  work += uint64_t(n) / 16;
  if (live > peak) peak = live;
}
static void minus(void* p) { if (p && on) live -= int64_t(malloc_usable_size(p)); }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); plus(p); return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); plus(p); return p; }
void* __wrap_realloc(void* q, size_t n) { minus(q); void* p = __real_realloc(q, n); plus(p ? p : q); return p; }
void __wrap_free(void* p) { minus(p); __real_free(p); }
}
static void* take(size_t n) { void* p = malloc(n ? n : 1); return p; }
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

struct Cost { uint64_t work; int64_t peak, left; };
template <class F> static Cost measure(F f) {
  work = allocated = 0; live = peak = 0;
  on = true;
  f();
  on = false;
  return {work, peak, live};
}
enum Entry { eAscii, eUnicode, eMap, eNorm, eNfc, eValid, eEnc, eDec, eVer, eTo32, eTo8, eForb, eLower, eN };
static const char* const ename[] = {"to_ascii", "to_unicode", "map", "normalize", "is_already_nfc", "is_label_valid", "utf32_to_punycode", "punycode_to_utf32", "verify_punycode", "utf8_to_utf32", "utf32_to_utf8", "contains_forbidden_domain_code_point", "ascii_map"};
// The bounds: about five times the highest cost met when they were set, so that they state the
// order of growth and leave room for another compiler or a slower algorithm of that order.
// work <= a * (n + 200) + b * q, memory <= m * (bytes + 64)
struct Limit { double a, b, m; };
static const Limit limit[eN] = {
    {400, 5, 300},  // to_ascii                q: sum of the squares of the label lengths
    {300, 5, 300},  // to_unicode
    {300, 0, 90},   // map
    {150, 5, 20},   // normalize               q: sum of the squares of the lengths of runs of marks
    {150, 5, 20},   // is_already_nfc
    {200, 5, 20},   // is_label_valid
    {200, 20, 20},  // utf32_to_punycode       q: square of the length
    {100, 2, 24},   // punycode_to_utf32
    {50, 2, 24},    // verify_punycode
    {50, 0, 20},    // utf8_to_utf32
    {50, 0, 20},    // utf32_to_utf8
    {20, 0, 4},     // contains_forbidden_domain_code_point
    {20, 0, 4},     // ascii_map
};
static int64_t kept;
template <class F> static void run1(hx::Rec& r, Entry e, double n, double q, size_t bytes, F f) {
  if (r.bad) return;
  Cost c = measure(f);
  r.call();
  kept += c.left;
  double w = limit[e].a * (n + 200) + limit[e].b * q, m = limit[e].m * (double(bytes) + 64);
  if (double(c.work) > w) return r.fail(std::string(ename[e]) + " does " + std::to_string(c.work) + " units of work on " + std::to_string(bytes) + " bytes; " + std::to_string(uint64_t(w)) + " allowed");
  if (double(c.peak) > m) return r.fail(std::string(ename[e]) + " holds " + std::to_string(c.peak) + " bytes of memory for " + std::to_string(bytes) + " bytes of input; " + std::to_string(uint64_t(m)) + " allowed");
  if (kept > (16 << 20)) return r.fail("the calls made so far have kept " + std::to_string(kept) + " bytes of memory");
}
static double sq(double x) { return x * x; }
// to_ascii and to_unicode: linear in the number of labels, quadratic in the length of a label.
static double domain_measure(std::string_view s) {
  double q = 0;
  size_t st = 0;
  for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == '.') { q += sq(double(i - st) + 8); st = i + 1; }
  return q;
}
// normalization: linear, quadratic in a run of marks only
static double mark_measure(U32v u) {
  double q = 0, run = 0;
  for (char32_t c : u) {
    if (c < ref::MAXCP && ref::ccc(c)) run++;
    else { q += sq(run); run = 0; }
    auto it = ref::D.nfd.find(c);
    if (it != ref::D.nfd.end()) { for (char32_t d : it->second) if (ref::ccc(d)) run++; else { q += sq(run); run = 0; } }
  }
  return q + sq(run) + double(u.size());
}
static void domain(std::string_view s, hx::Rec& r) {
  r.in8(s);
  double q = domain_measure(s);
  bool ok = false;
  for (int k = 0; k < 2; k++) {
    run1(r, eAscii, double(s.size()), q, s.size(), [&] { std::string o; ok = ada::idna::to_ascii(s, o); });
    run1(r, eUnicode, double(s.size()), q, s.size(), [&] { std::string o; (void)!ada::idna::to_unicode(s, o); });
  }
  r.outcome(uint64_t(ok) + s.size() * 2);
}
static void bytes(std::string_view s, hx::Rec& r) {
  r.in8(s);
  double n = double(s.size());
  run1(r, eForb, n, 0, s.size(), [&] { volatile bool k = ada::idna::contains_forbidden_domain_code_point(s); (void)k; });
  run1(r, eTo32, n, 0, s.size(), [&] { std::u32string o(ada::idna::utf32_length_from_utf8(s.data(), s.size()), 0); ada::idna::utf8_to_utf32(s.data(), s.size(), o.data()); });
  run1(r, eDec, n, sq(n), s.size(), [&] { std::u32string o; volatile bool k = ada::idna::punycode_to_utf32(s, o); (void)k; });
  run1(r, eVer, n, sq(n), s.size(), [&] { volatile bool k = ada::idna::verify_punycode(s); (void)k; });
  static std::string cp;
  cp = s;
  run1(r, eLower, n, 0, s.size(), [&] { ada::idna::ascii_map(cp.data(), cp.size()); });
}
static void words(U32v u, hx::Rec& r) {
  r.in32(u);
  double n = double(u.size()), q = mark_measure(u);
  bool ok = false;
  run1(r, eMap, n, 0, u.size() * 4, [&] { std::u32string o; ok = ada::idna::map(u, o); });
  static std::u32string cp;
  cp = u;
  cp.shrink_to_fit();
  run1(r, eNorm, n, q, u.size() * 4, [&] { std::u32string c(cp); volatile bool k = ada::idna::normalize(c); (void)k; });
  run1(r, eNfc, n, q, u.size() * 4, [&] { volatile bool k = ada::idna::is_already_nfc(u); (void)k; });
  run1(r, eValid, n, q, u.size() * 4, [&] { volatile bool k = ada::idna::is_label_valid(u); (void)k; });
  run1(r, eEnc, n, sq(n), u.size() * 4, [&] { std::string o; volatile bool k = ada::idna::utf32_to_punycode(u, o); (void)k; });
  run1(r, eTo8, n, 0, u.size() * 4, [&] { std::string o(ada::idna::utf8_length_from_utf32(u.data(), u.size()), 0); ada::idna::utf32_to_utf8(u.data(), u.size(), o.data()); });
  std::string p;
  if (u.size() < 4000 && ref::puny_encode(u, p) == ref::P::ok) bytes(p, r);
  r.outcome(uint64_t(ok) + u.size() * 2);
}
static void both(U32v u, hx::Rec& r) {
  auto s = u8(u);
  if (s.size() <= 16384) domain(s, r);
  bytes(s, r);
  words(u, r);
  // as an A-label
  std::string p;
  if (u.size() < 6000 && u.find(U'.') == U32v::npos && ref::puny_encode(u, p) == ref::P::ok) { domain("xn--" + p + ".\xC3\x9F", r); domain("xn--" + p, r); }
}
// Repeat v between h and t up to n code points.
static void pump(U32& s, U32v h, U32v v, U32v t, uint32_t n) {
  s = h;
  while (s.size() + v.size() + t.size() <= n) s += v;
  s += t;
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  static std::vector<U32> A = domain_alphabet();
  for (auto x : {U"\u0651", U"\u05B0", U"\u0316", U"\u06F0", U"b", U"\u4E00", U"\uA840", U"\u1F82", U"\u0FB5", U"\u2026", U"\u1E9B\u0323", U"99"}) A.push_back(x);
  static const std::vector<U32> E = {U"", U"\u00FC", U"xn--", U"\u05D0", U".", U"a", U"\u0628", U"\u0301", U"\u0378", U"\u00DF."};
  std::vector<hx::Family> f;
  struct P { uint32_t n; unsigned d, e; };
  for (P p : th ? std::vector<P>{{40, 3, 5}, {300, 3, 4}, {300, 2, 10}, {4000, 2, 10}, {4000, 3, 1}, {16384, 2, 3}} : std::vector<P>{{300, 2, 10}, {2500, 2, 2}, {16384, 2, 1}}) {
    Words w(A.size(), p.d);
    f.push_back({"words of <= " + std::to_string(p.d) + " of " + std::to_string(A.size()) + " tokens repeated to " + std::to_string(p.n) + " code points between " + std::to_string(p.e) + " heads and tails", w.total * p.e * p.e, [w, p](uint64_t i, hx::Rec& r) {
                   static U32 s, v;
                   const U32 &h = E[i % p.e], &t = E[i / p.e % p.e];
                   v.clear();
                   for (auto k : w.get(i / p.e / p.e)) v += A[k];
                   if (v.empty()) return;
                   pump(s, h, v, t, p.n);
                   if (p.n > 16000) { while (u8(s).size() > 16384) { size_t k = s.size() * 16384 / u8(s).size(); s.resize(k < s.size() ? k : s.size() - 1); } }
                   both(s, r);
                 }, 8});
  }
  // twice as many labels, at most about twice the work
  {
    static const std::vector<U32> H = [] { auto v = E; for (auto x : {U"x", U"xn--tda", U"xn--tda.", U"\uFF0E", U"\u3002\u05D0", U"-"}) v.push_back(x); return v; }();
    static const std::vector<U32> D = {U".", U"\u3002", U"a."};
    static std::vector<U32> B = A;
    for (auto x : {U"x", U"xn--tda", U"xn--4db", U"xn--a"}) B.push_back(x);
    unsigned d2 = th ? unsigned(H.size()) : 2;
    uint64_t n1 = uint64_t(B.size()) * H.size() * H.size() * D.size(), n2 = uint64_t(B.size()) * B.size() * d2 * d2;
    f.push_back({"twice as many labels: words of 1 and 2 of " + std::to_string(B.size()) + " tokens and a dot, heads and tails", n1 + n2, [n1, d2](uint64_t i, hx::Rec& r) {
                   static U32 v;
                   static std::string s, t;
                   const U32 *h, *e;
                   if (i < n1) {
                     v = B[i % B.size()]; i /= B.size();
                     h = &H[i % H.size()]; i /= H.size();
                     e = &H[i % H.size()]; i /= H.size();
                     v += D[i];
                   } else {
                     i -= n1;
                     v = B[i % B.size()]; i /= B.size();
                     v += B[i % B.size()]; i /= B.size();
                     v += U'.';
                     h = &H[i % d2];
                     e = &H[i / d2 ? H.size() - i / d2 : 0];
                   }
                   std::string w = u8(v), a = u8(*h), z = u8(*e);
                   size_t k = (16384 - a.size() - z.size()) / w.size() / 2;
                   s = t = a;
                   for (size_t j = 0; j < k; j++) { s += w; t += w; t += w; }
                   s += z;
                   t += z;
                   r.in8(t);
                   for (int op = 0; op < 2; op++) {
                     auto cost = [&](const std::string& x) { return measure([&] { std::string o; (void)!(op ? ada::idna::to_unicode(x, o) : ada::idna::to_ascii(x, o)); }).work; };
                     uint64_t c1 = cost(s), c2 = cost(t);
                     r.call(2);
                     if (double(c2) > 2.6 * double(c1) + 5000 && !r.bad) r.fail(std::string(op ? "to_unicode" : "to_ascii") + " does " + std::to_string(c1) + " units of work on half as many labels and " + std::to_string(c2) + " on all");
                   }
                   r.outcome(t);
                 }, 8});
  }
  // many distinct code points: what Punycode is quadratic in
  static const std::vector<char32_t> base = {0x80, 0xE0, 0x400, 0x5D0, 0x1000, 0x4E00, 0xAC00, 0x10400, 0x20000};
  static const std::vector<int> stride = {1, -1, 7, 37};
  static const auto dl = ladder(th ? 6000 : 4500, 10);
  static const std::vector<uint32_t> gap = {0, 5};
  f.push_back({"runs of distinct code points: 9 blocks x 4 strides x 2 fillers x " + std::to_string(dl.size()) + " lengths x 3 label lengths", base.size() * stride.size() * gap.size() * dl.size() * 3, [](uint64_t i, hx::Rec& r) {
                 char32_t b = base[i % base.size()]; i /= base.size();
                 int st = stride[i % stride.size()]; i /= stride.size();
                 uint32_t g = gap[i % 2]; i /= 2;
                 uint32_t cut = i % 3 == 0 ? 0 : i % 3 == 1 ? 5 : 60; i /= 3;
                 uint32_t n = dl[i];
                 int span = b < 0x1000 ? 0x20 : b < 0x4E00 ? 0x80 : b == 0x10400 ? 0x28 : 0x2800;
                 static U32 s;
                 s.clear();
                 int x = st < 0 ? span - 1 : 0;
                 for (uint32_t k = 0; s.size() < n; k++) {
                   s += char32_t(b + x);
                   x = ((x + st) % span + span) % span;
                   s.append(g, U'a');
                   if (cut && k % cut == cut - 1) s += U'.';
                 }
                 both(s, r);
               }, 2});
  // runs of marks of every order of combining classes
  static std::vector<char32_t> marks;
  { std::map<int, char32_t> m; for (char32_t c = 0x300; c < 0x3000; c++) if (ref::ccc(c) && ref::D.status[c] == ref::sVALID) m.emplace(ref::ccc(c), c); for (auto& [k, c] : m) marks.push_back(c); }
  static const auto ml = ladder(8000, 10);
  f.push_back({"runs of marks in 5 orders x " + std::to_string(ml.size()) + " lengths x 4 carriers", 5 * ml.size() * 4, [](uint64_t i, hx::Rec& r) {
                 int o = int(i % 5); i /= 5;
                 int c = int(i % 4); i /= 4;
                 uint32_t n = ml[i];
                 static U32 s;
                 s = c == 0 ? U"" : c == 1 ? U"e" : c == 2 ? U"\u05D0" : U"e\u0301.e";
                 size_t K = marks.size();
                 for (uint32_t k = 0; k < n; k++) {
                   size_t j = o == 0 ? k % K : o == 1 ? K - 1 - k % K : o == 2 ? k * K / n : o == 3 ? K - 1 - k * K / n : (k % 2 ? k * K / n : K - 1 - k * K / n);
                   s += marks[j];
                   if (c == 3 && k % 50 == 49) s += U".e";
                 }
                 both(s, r);
               }, 1});
  // nothing is done for what is refused by its size
  static const auto ol = ladder(th ? 300000000 : 30000000, 16385);
  static const std::vector<std::string> unit = {"a", "\xC3\xBC", ".", "xn--tda.", "\xCC\x81", "\xFF"};
  f.push_back({"refused sizes: " + std::to_string(ol.size()) + " from 16385 on, 6 contents", ol.size() * unit.size(), [](uint64_t i, hx::Rec& r) {
                 auto& u = unit[i % unit.size()];
                 static std::string s;
                 s.clear();
                 for (size_t n = ol[i / unit.size()]; s.size() < n;) if (s.size() * 2 < n && s.size() % u.size() == 0 && !s.empty()) s += s; else s += u;
                 s.resize(ol[i / unit.size()]);
                 r.in8(s);
                 run1(r, eAscii, 0, 0, 0, [&] { std::string o; volatile bool k = ada::idna::to_ascii(s, o); (void)k; });
                 run1(r, eUnicode, 0, 0, 0, [&] { std::string o; volatile bool k = ada::idna::to_unicode(s, o); (void)k; });
                 r.outcome(s.size());
                 hx::me->busy.fetch_add(1);
               }, 1});
  // many different inputs: nothing is kept
  Words w4(44, th ? 5 : 4);
  f.push_back({"all domains of <= " + std::to_string(w4.depth) + " of 44 tokens: no call keeps memory", w4.total, [w4](uint64_t i, hx::Rec& r) {
                 static std::string s;
                 s.clear();
                 for (auto k : w4.get(i)) s += u8(A[k]);
                 domain(s, r);
                 if (i % 64 == 0) { bytes(s, r); if (auto u = ref::utf8_decode(s)) words(*u, r); }
               }});
  hx::Opt o;
  o.worker_init = [] { ada::idna::map(U"\u00DF"); };
  return hx::run(argc, argv, f, o);
}
