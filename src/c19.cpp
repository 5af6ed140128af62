// C19: damaged table data. The library is built with its compressed tables in
// writable memory; each case damages them before the first use, in a process of
// its own, and everything observable must be either exactly right or closed.
#include "harness.hpp"
#include "idna.cpp"
#include <zlib.h>
#include <map>
#include <new>
using namespace ada::idna;
static uint8_t* blob = const_cast<uint8_t*>(&table_blob::compressed[0]);
constexpr size_t N = table_blob::compressed_size;
static int fail_over = 0;
static uint64_t failed_allocs = 0;
void* operator new(size_t n) { if (fail_over && n >= size_t(fail_over)) { failed_allocs++; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (fail_over && n >= size_t(fail_over)) { failed_allocs++; return nullptr; } return malloc(n ? n : 1); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Probe { const char* name; std::string (*f)(); std::string right, closed; };
static std::string b(bool x) { return x ? "true" : "false"; }
static std::string asc(std::string_view s) { std::string o = "stale"; bool k = to_ascii(s, o); return b(k) + "/" + o + "/" + to_ascii(s); }
static std::string m(std::u32string_view s) { std::u32string o = U"stale"; bool k = map(s, o); std::string r = b(k); if (k) for (char32_t c : o) r += " " + std::to_string(unsigned(c)); return r; }
static std::string nf(std::u32string s) { bool k = normalize(s); std::string r = b(k); if (k) for (char32_t c : s) r += " " + std::to_string(unsigned(c)); return r; }
static const std::vector<Probe> probes = {
    {"to_ascii of a non-ASCII domain", [] { return asc("b\xC3\xBC" "cher.\xE2\x84\xAB"); }, "true/xn--bcher-kva.xn--5ca/xn--bcher-kva.xn--5ca", "false//"},
    {"to_ascii of a Hebrew domain", [] { return asc("\xD7\x90\xD7\x91.a"); }, "true/xn--4dbc.a/xn--4dbc.a", "false//"},
    {"to_ascii of an ignored code point", [] { return asc("a\xC2\xAD" "b"); }, "true/ab/ab", "false//"},
    {"to_ascii with an A-label", [] { return asc("xn--tda.\xC3\x9F"); }, "true/xn--tda.xn--zca/xn--tda.xn--zca", "false//"},
    {"to_unicode", [] { std::string o; bool k = to_unicode("xn--bcher-kva.a.xn--4dbc", o); return b(k) + "/" + o; }, "true/b\xC3\xBC" "cher.a.\xD7\x90\xD7\x91", "true/xn--bcher-kva.a.xn--4dbc"},
    {"map", [] { return m(U"\u00C4\uFF21\u00ADb"); }, "true 228 97 98", "false"},
    {"map of ASCII", [] { return m(U"Ab.9"); }, "true 97 98 46 57", "false"},
    {"normalize", [] { return nf(U"u\u0308\u1100\u1161\u11A8"); }, "true 252 44033", "false"},
    {"normalize of NFC text", [] { return nf(U"\u00FC\u4E00"); }, "true 252 19968", "false"},
    {"is_already_nfc", [] { return b(is_already_nfc(U"\u00FCber\u4E00")); }, "true", "false"},
    {"is_label_valid", [] { return b(is_label_valid(U"\u05D0\u05D1")); }, "true", "false"},
    {"is_label_valid of letters", [] { return b(is_label_valid(U"\u00FCab")); }, "true", "false"},
    {"valid_name_code_point", [] { return b(valid_name_code_point(0x3B1, true)); }, "true", "false"},
    {"valid_name_code_point continue", [] { return b(valid_name_code_point(0x0301, false)); }, "true", "false"},
};
// what must hold however damaged the tables are
static std::string always() {
  std::string r;
  if (asc("WWW.Example-9") != "true/www.example-9/www.example-9") r += "to_ascii of an ASCII domain; ";
  std::string o;
  if (!to_unicode("www.Example", o) || o != "www.Example") r += "to_unicode of an ASCII domain; ";
  if (!valid_name_code_point('a', true) || !valid_name_code_point('9', false) || valid_name_code_point('9', true)) r += "valid_name_code_point of ASCII; ";
  for (char32_t c : {char32_t(0x110000), char32_t(0xD800), char32_t(0xFFFFFFFF), char32_t(0x2000)}) if (valid_name_code_point(c, false) || valid_name_code_point(c, true)) r += "valid_name_code_point of a non-character; ";
  for (const char* s : {"\xFF", "\xCD\xB8", "\xCC\x81" "a", "xn--\xC3\x9F", "\xD7\x90" "a", "a\xE2\x80\x8D"}) if (to_ascii(s, o) || !o.empty()) r += "to_ascii of an invalid domain; ";
  if (is_already_nfc(U"e\u0301") || is_already_nfc(U"\u212B")) r += "is_already_nfc of non-NFC text; ";
  if (is_label_valid(U"\u0301x") || is_label_valid(U"\u05D0a")) r += "is_label_valid of an invalid label; ";
  return r;
}
static uint64_t full_hash() {
  uint64_t h = 1469598103934665603ull;
  auto add = [&](uint64_t x) { h = (h ^ x) * 0x100000001B3ull; };
  std::u32string o, s;
  for (uint32_t c = 0; c < 0x110000; c++) {
    if (c >= 0xD800 && c < 0xE000) continue;
    s.assign(1, c);
    add(map(s, o));
    for (char32_t x : o) add(x);
    std::u32string t = s;
    add(normalize(t));
    for (char32_t x : t) add(x);
    add(is_already_nfc(s));
    add(is_label_valid(s));
    add(valid_name_code_point(c, true) * 2 + valid_name_code_point(c, false));
  }
  return h;
}
struct Pristine { uint64_t hash; size_t image; };
static Pristine* P;
static void check(uint64_t first, hx::Rec& r) {
  std::string bad;
  int right = 0, closed = 0;
  std::string mixed, wrong;
  auto run = [&](const Probe& p) {
    std::string g = p.f();
    r.call();
    if (g == p.right) { right++; if (right == 1) mixed += std::string(p.name) + " works"; }
    else if (g == p.closed) { closed++; if (closed == 1) mixed += std::string(mixed.empty() ? "" : ", ") + p.name + " refuses; "; }
    else wrong += std::string(p.name) + " gives \"" + g + "\"; ";
  };
  size_t n = probes.size();
  for (size_t k = 0; k < 2 * n; k++) run(probes[(first + k) % n]);
  std::string a = always();
  r.call(12);
  if (size_t h = std::hash<std::string_view>{}({reinterpret_cast<char*>(blob), N}); h != P->image || fail_over) r.outcome(uint64_t(h) + uint64_t(fail_over));
  if (!wrong.empty()) r.fail("with damaged tables: " + wrong);
  else if (!a.empty()) r.fail("with damaged tables, wrong: " + a);
  else if (right && closed) r.fail("partly working tables: " + mixed);
  else if (right && full_hash() != P->hash) r.fail("damaged tables are used: results differ from the intact library");
}
// compress `pay` as the table data; false if it does not fit
static bool place(const std::vector<uint8_t>& pay, int level) {
  z_stream z{};
  deflateInit2(&z, 9, Z_DEFLATED, -15, level, Z_DEFAULT_STRATEGY);
  std::vector<uint8_t> o(pay.size() + 70000);
  z.next_in = const_cast<uint8_t*>(pay.data());
  z.avail_in = unsigned(pay.size());
  z.next_out = o.data();
  z.avail_out = unsigned(o.size());
  ::deflate(&z, Z_FINISH);
  size_t n = z.total_out;
  deflateEnd(&z);
  if (n > N) return false;
  memcpy(blob, o.data(), n);
  memset(blob + n, 0, N - n);
  return true;
}
static std::vector<uint8_t> payload() {
  std::vector<uint8_t> p(table_blob::uncompressed_size + 16);
  z_stream z{};
  inflateInit2(&z, -15);
  z.next_in = blob;
  z.avail_in = unsigned(N);
  z.next_out = p.data();
  z.avail_out = unsigned(p.size());
  ::inflate(&z, Z_FINISH);
  p.resize(z.total_out);
  inflateEnd(&z);
  return p;
}
int main(int argc, char** argv) {
  const char* t = getenv("VERIF_TIER");
  bool th = t && !strcmp(t, "thorough");
  uintptr_t lo = uintptr_t(blob) & ~4095ul, hi = (uintptr_t(blob) + N + 4095) & ~4095ul;
  mprotect((void*)lo, hi - lo, PROT_READ | PROT_WRITE);
  P = static_cast<Pristine*>(mmap(nullptr, sizeof(Pristine), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  P->image = std::hash<std::string_view>{}({reinterpret_cast<char*>(blob), N});
  if (pid_t p = fork(); p == 0) { P->hash = full_hash(); _exit(0); } else { int st; waitpid(p, &st, 0); if (st) { fprintf(stderr, "the intact library fails\n"); return 3; } }
  static const std::vector<uint8_t> pay = payload();
  static const int level = [] { for (int l : {6, 7, 8, 5, 9}) if (pid_t p = fork(); p == 0) _exit(place(pay, l) ? 0 : 1); else { int st; waitpid(p, &st, 0); if (!st) return l; } return 0; }();
  static const uint64_t np = probes.size();
  static const size_t S = (N + 511) / 512;
  std::vector<hx::Family> f;
  auto note = [](hx::Rec& r, const char* fmt, auto... a) { char x[200]; snprintf(x, sizeof x, fmt, a...); r.in8(x); };
  f.push_back({"intact tables, each entry point first", np, [=](uint64_t i, hx::Rec& r) { note(r, "intact, first call %s", probes[i].name); check(i, r); if (probes[i].f() != probes[i].right) r.fail("the intact library gives " + probes[i].f()); }, 4});
  uint64_t nb = th ? 8 : 1;
  f.push_back({th ? "every single-bit error" : "one bit error in every byte", N * nb, [=](uint64_t i, hx::Rec& r) {
                 size_t at = i / nb;
                 int bit = nb == 8 ? int(i % 8) : int((at * 5 + at / 8) % 8);
                 blob[at] ^= uint8_t(1u << bit);
                 note(r, "bit %d of byte %zu flipped", bit, at);
                 check(i % np, r);
               }, 64});
  uint64_t H = th ? 4000 : 700;
  f.push_back({"every bit error in the first " + std::to_string(H) + " and last 64 bytes", (H + 64) * 8, [=](uint64_t i, hx::Rec& r) {
                 size_t at = i / 8 < H ? i / 8 : N - 64 + (i / 8 - H);
                 blob[at] ^= uint8_t(1u << (i % 8));
                 note(r, "bit %d of byte %zu flipped", int(i % 8), at);
                 check(i % np, r);
               }, 64});
  f.push_back({"every value of each of the first 24 bytes", 24 * 255, [=](uint64_t i, hx::Rec& r) {
                 size_t at = i / 255;
                 blob[at] ^= uint8_t(1 + i % 255);
                 note(r, "byte %zu becomes %u", at, blob[at]);
                 check(i % np, r);
               }, 64});
  f.push_back({"every byte replaced by 0 or 255", N * (th ? 2 : 0), [=](uint64_t i, hx::Rec& r) {
                 size_t at = i / 2;
                 blob[at] = i & 1 ? 255 : 0;
                 note(r, "byte %zu becomes %u", at, blob[at]);
                 check(i % np, r);
               }, 64});
  f.push_back({"each 512-byte sector lost (zeros, ones, previous, first, shifted by 1)", S * 5, [=](uint64_t i, hx::Rec& r) {
                 size_t s = i / 5, k = i % 5, a = s * 512, n = std::min<size_t>(512, N - a);
                 if (k == 0) memset(blob + a, 0, n);
                 else if (k == 1) memset(blob + a, 255, n);
                 else if (k == 2) memmove(blob + a, blob + (s ? a - 512 : 512), n);
                 else if (k == 3) memmove(blob + a, blob, n);
                 else memmove(blob + a + 1, blob + a, n - 1);
                 note(r, "sector %zu pattern %zu", s, k);
                 check(i % np, r);
               }, 16});
  f.push_back({"each pair of sectors exchanged", S * S, [=](uint64_t i, hx::Rec& r) {
                 size_t a = i / S, c = i % S;
                 if (a >= c || (c + 1) * 512 > N) return;
                 for (int k = 0; k < 512; k++) std::swap(blob[a * 512 + k], blob[c * 512 + k]);
                 note(r, "sectors %zu and %zu exchanged", a, c);
                 check(i % np, r);
               }, 64});
  uint64_t step = th ? 16 : 64;
  f.push_back({"torn write: everything from each offset on lost (zeros / ones / stale start)", (N / step + 1) * 3, [=](uint64_t i, hx::Rec& r) {
                 size_t a = i / 3 * step;
                 if (i % 3 == 2) { std::vector<uint8_t> c(blob, blob + N); for (size_t k = a; k < N; k++) blob[k] = c[k - a]; }
                 else memset(blob + a, i % 3 ? 255 : 0, N - a);
                 note(r, "torn at byte %zu pattern %d", a, int(i % 3));
                 check(i % np, r);
               }, 32});
  // well-formed streams with a wrong payload: only the checksum and the size tell
  if (level) {
    uint64_t st = th ? 8 : 128;
    f.push_back({"well-formed stream, one payload byte changed", pay.size() / st, [=](uint64_t i, hx::Rec& r) {
                   auto p = pay;
                   size_t at = i * st + (i * 7) % st;
                   p[at] ^= uint8_t(1u << (i % 8));
                   note(r, "payload byte %zu, bit %d changed", at, int(i % 8));
                   if (!place(p, level)) return;
                   check(i % np, r);
                 }, 16});
    f.push_back({"well-formed stream, two neighbouring payload words exchanged", pay.size() / st, [=](uint64_t i, hx::Rec& r) {
                   auto p = pay;
                   size_t at = (i * st) & ~size_t(1), q = at + 2;
                   while (q + 1 < p.size() && p[q] == p[at] && p[q + 1] == p[at + 1]) q += 2;
                   if (q + 1 >= p.size()) return;
                   std::swap(p[at], p[q]);
                   std::swap(p[at + 1], p[q + 1]);
                   note(r, "payload words at %zu and %zu exchanged", at, q);
                   if (!place(p, level)) return;
                   check(i % np, r);
                 }, 16});
    f.push_back({"well-formed stream, payload cut or extended", 600, [=](uint64_t i, hx::Rec& r) {
                   auto p = pay;
                   if (i < 40) p.resize(p.size() - 1 - i);
                   else if (i < 80) p.resize(p.size() + i - 39);
                   else if (i < 280) p.resize(p.size() * (i - 80) / 200);
                   else if (i < 300) { p.resize(p.size() + (i - 279) * 100, uint8_t(i)); }
                   else { size_t k = (i - 300) * p.size() / 300; p.erase(p.begin() + k); p.push_back(0); }
                   note(r, "payload variant %d, %zu bytes", int(i), p.size());
                   if (!place(p, level)) return;
                   check(i % np, r);
                 }, 8});
  }
  if (level) {
    // payloads whose checksum differs from the right one by a chosen value: four
    // payload bytes solved for by linearity
    static const std::vector<uint32_t> want = [] {
      std::vector<uint32_t> w;
      for (int k = 0; k < 32; k++) w.push_back(1u << k);
      for (int k = 0; k < 4; k++) w.push_back(0xFFu << 8 * k);
      for (uint32_t x : {0xFFFFFFFFu, 0xFFFFu, 0xFFFF0000u, 0x80000001u, 0x00FFFFFFu, 0xFFFFFF00u, 0xFF00FF00u, 0x55555555u}) w.push_back(x);
      return w;
    }();
    static const uint64_t npos = th ? 96 : 12;
    f.push_back({"well-formed stream, payload changed so that its CRC is off by each of " + std::to_string(want.size()) + " values", want.size() * npos, [=](uint64_t i, hx::Rec& r) {
                   uint32_t d = want[i % want.size()];
                   uint64_t q = i / want.size();
                   size_t at = q + 1 == npos ? pay.size() - 4 : q * (pay.size() - 4) / npos;
                   auto p = pay;
                   uint32_t c0 = uint32_t(crc32(0, p.data(), unsigned(p.size())));
                   uint32_t row[32], id[32];
                   for (int k = 0; k < 32; k++) {
                     p[at + k / 8] ^= uint8_t(1u << k % 8);
                     row[k] = uint32_t(crc32(0, p.data(), unsigned(p.size()))) ^ c0;
                     p[at + k / 8] ^= uint8_t(1u << k % 8);
                     id[k] = 1u << k;
                   }
                   uint32_t e = 0;
                   for (int bit = 0, used = 0; bit < 32; bit++) {
                     int k = used;
                     while (k < 32 && !(row[k] >> bit & 1)) k++;
                     if (k == 32) return r.fail("harness: singular");
                     std::swap(row[k], row[used]);
                     std::swap(id[k], id[used]);
                     for (int j = 0; j < 32; j++) if (j != used && (row[j] >> bit & 1)) { row[j] ^= row[used]; id[j] ^= id[used]; }
                     used++;
                   }
                   // after full reduction row[k] is the k-th unit vector
                   for (int k = 0; k < 32; k++) if (d >> k & 1) e ^= id[k];
                   for (int k = 0; k < 32; k++) p[at + k / 8] ^= uint8_t((e >> k & 1) << k % 8);
                   if ((uint32_t(crc32(0, p.data(), unsigned(p.size()))) ^ c0) != d) return r.fail("harness: wrong checksum");
                   note(r, "payload bytes %zu..%zu changed, checksum off by %08x", at, at + 3, d);
                   bool ok = place(p, level);
                   for (int l = 9; l > 3 && !ok; l--) ok = place(p, l);
                   if (!ok) return;
                   check(i % np, r);
                 }, 8});
  }
  f.push_back({"no memory for the tables, each entry point first", np * 4, [=](uint64_t i, hx::Rec& r) {
                 note(r, "allocations of >= %d bytes fail, first call %s", 4096 << (i / np * 2), probes[i % np].name);
                 fail_over = 4096 << (i / np * 2);
                 check(i % np, r);
                 fail_over = 0;  // memory is back: still right or still closed, and the same for everything
                 if (!r.bad) check(i % np, r);
               }, 4});
  hx::Opt o;
  o.fork_each = true;
  return hx::run(argc, argv, f, o);
}
