// C15: inputs beyond 16384 bytes are refused in bounded time, whatever their
// size; at the limit and below, size alone never causes a refusal.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
constexpr size_t LIM = 16384;
static char* big = nullptr;  // lazily backed zero pages followed by nothing
constexpr size_t BIG = (1ull << 33) + (1 << 20);
static void check(const std::string& s, hx::Rec& r) {
  const size_t n = s.size();
  r.in8(s);
  std::string a = "stale", un = "stale";
  bool ok = ada::idna::to_ascii(s, a), uo = ada::idna::to_unicode(s, un);
  std::string a2 = ada::idna::to_ascii(s), un2 = ada::idna::to_unicode(s);
  r.call(4);
  r.outcome(a);
  if (s.size() > LIM) {
    if (ok || !a.empty() || !a2.empty()) r.fail("an input of " + std::to_string(n) + " bytes is converted");
    if (uo || !un.empty()) r.fail("to_unicode accepts " + std::to_string(n) + " bytes");
    if (un2 != s) r.fail("to_unicode does not return the oversized input unchanged");
  } else {
    auto e = ref::to_ascii(s);
    if (!(e.overflow && !ok) && (ok != e.ok || a != e.out)) r.fail("an input of " + std::to_string(n) + " bytes is " + (ok ? "converted differently from" : "refused, unlike") + " UTS #46");
    if (!uo || un != ref::to_unicode(s)) r.fail("to_unicode differs at " + std::to_string(n) + " bytes");
  }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  static const std::vector<std::string> unit = {"a", "A.", "\xC3\xBC", "\xC3\xBC.", "\xD7\x90", "\xE4\xB8\x80", "\xF0\x90\x90\xA8", "xn--tda.", "\xC2\xAD", "\xEF\xB7\xBA", "\xFF", "."};
  f.push_back({"every size 16384-200..16384+200 and multiples x contents", unit.size() * 2 * 460, [](uint64_t i, hx::Rec& r) {
                 auto& u = unit[i % unit.size()]; i /= unit.size();
                 bool tail = i & 1; i /= 2;
                 size_t n = i < 401 ? LIM - 200 + i : i < 430 ? LIM + 201 + (i - 401) * 977 : i < 445 ? 65536 - 8 + (i - 430) : 131072 - 8 + (i - 445);
                 std::string s;
                 while (s.size() + u.size() + 2 <= n) s += u;
                 while (s.size() + (tail ? 2 : 0) < n) s += 'b';
                 if (tail) s += "\xC3\x9F";
                 check(s, r);
               }, 16});
  // what stands at the ends must not change how the size counts
  static const std::vector<std::string> part = {"", ".", "..", "...", " ", "  ", "\t", "\n", "\r\n", std::string(1, '\0'), std::string(4, '\0'), "\xE3\x80\x82", "\xEF\xBC\x8E", "\xEF\xBD\xA1", "\xEF\xBB\xBF", "\xC2\xAD", "\xE2\x80\x8B", "\xE2\x80\x8D", "xn--", "XN--", "xn--tda", ".xn--tda", "xn--.", "-", "--", "%41", "%", "/", "//", ":", ":80", "@", "[", "]", "#", "?", "*.", "www.", "A", "Z", "\xC3\x9F", "\xCC\x81", "\xD7\x90", "\xFF", "\x80", "\xF0\x9F\x98\x80", "\xEF\xB7\xBA", "1", "0x1"};
  static const std::vector<int> off = {-200, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 12, 16, 64, 256, 16384};
  f.push_back({"sizes around the limit x " + std::to_string(part.size()) + " beginnings x as many ends x fillings", part.size() * part.size() * off.size() * 3, [](uint64_t i, hx::Rec& r) {
                 static const char* const fill[] = {"a", "\xC3\xBC", "ab."};
                 std::string u = fill[i % 3]; i /= 3;
                 auto& x = part[i % part.size()]; i /= part.size();
                 auto& y = part[i % part.size()]; i /= part.size();
                 size_t n = size_t(int(LIM) + off[i]);
                 std::string s = x;
                 while (s.size() + u.size() + y.size() <= n) s += u;
                 while (s.size() + y.size() < n) s += 'b';
                 check(s + y, r);
               }, 16});
  // sizes whose low 32 or 16 bits are small: only the size may be looked at
  static const std::vector<size_t> sizes = [] {
    std::vector<size_t> v;
    for (size_t b : {size_t(1) << 16, size_t(1) << 17, size_t(1) << 24, size_t(1) << 31, size_t(1) << 32, size_t(1) << 33})
      for (size_t d : {0, 1, 2, 16, 255, 1000, 16383, 16384, 16385, 65535, 65536, 131072}) { v.push_back(b + d); if (d && d < 20000) v.push_back(b - d); }
    return v;
  }();
  f.push_back({"sizes around 2^16, 2^17, 2^24, 2^31, 2^32 and 2^33", sizes.size() * 2, [](uint64_t i, hx::Rec& r) {
                 size_t n = sizes[i / 2];
                 std::string_view s(big, n);
                 char t[64];
                 snprintf(t, sizeof t, "%zu zero bytes", n);
                 r.in8(t);
                 r.outcome(n);
                 std::string o = "stale";
                 double t0 = hx::now();
                 bool ok = i & 1 ? ada::idna::to_unicode(s, o) : ada::idna::to_ascii(s, o);
                 r.call();
                 if (ok || !o.empty()) r.fail(std::string(i & 1 ? "to_unicode" : "to_ascii") + " accepts " + t);
                 if (!(i & 1) && !ada::idna::to_ascii(s).empty()) r.fail(std::string("to_ascii converts ") + t);
                 (void)t0;
               }, 1});
  // Only the first and the last 64 KiB can be read: whoever goes through the input is stopped.
  static const std::vector<size_t> hs = [] {
    std::vector<size_t> v;
    for (size_t b : {size_t(1) << 18, size_t(1) << 20, size_t(1) << 24, size_t(1) << 32, size_t(1) << 33})
      for (size_t d : {-4097, -1, 0, 1, 5000}) v.push_back(b + d);
    return v;
  }();
  f.push_back({"inputs whose middle cannot be read", hs.size() * unit.size() * 4, [](uint64_t i, hx::Rec& r) {
                 auto& u = unit[i % unit.size()]; i /= unit.size();
                 unsigned op = unsigned(i % 4); i /= 4;
                 size_t n = hs[i], page = 4096, total = (n + page - 1) / page * page;
                 char t[64];
                 snprintf(t, sizeof t, "%zu bytes", n);
                 r.in8(t + (" of " + hx::show8(u)));
                 char* p = static_cast<char*>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
                 if (p == MAP_FAILED) _exit(3);
                 char* b = p + (total - n);
                 size_t lo = (size_t(b - p) + 65536 + page - 1) / page * page, hi = (total - 65536) / page * page;
                 if (mprotect(p, lo, PROT_READ | PROT_WRITE) || mprotect(p + hi, total - hi, PROT_READ | PROT_WRITE)) _exit(3);
                 for (size_t k = 0; k < 65536; k++) b[k] = u[k % u.size()], b[n - 1 - k] = u[0];
                 std::string o = "stale";
                 bool ok = op == 0 ? ada::idna::to_ascii(std::string_view(b, n), o) : op == 1 ? ada::idna::to_unicode(std::string_view(b, n), o) : op == 2 ? !ada::idna::to_ascii(std::string_view(b, n)).empty() : ada::idna::to_ascii(std::string_view(b, n), o) || ada::idna::to_unicode(std::string_view(b, n), o);
                 r.call();
                 r.outcome(op);
                 if (ok || (op != 2 && !o.empty())) r.fail(std::string("it is converted"));
                 munmap(p, total);
               }, 4});
  hx::Opt opt;
  opt.worker_init = [] {
    if (big) return;
    big = static_cast<char*>(mmap(nullptr, BIG, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (big == MAP_FAILED) _exit(3);
    rlimit lim{3ull << 30, 3ull << 30};  // a copy of such an input fails instead of exhausting the machine
    setrlimit(RLIMIT_DATA, &lim);
  };
  return hx::run(argc, argv, f, opt);
}
