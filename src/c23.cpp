// C23: memory exhaustion. For every operation, every choice of failing
// allocations within the bounds: the call throws bad_alloc, fails, or is right;
// nothing leaks, nothing terminates, and later calls are right (or, when the
// tables could not be allocated, consistently closed).
#include "harness.hpp"
#include "idna.h"
#include <malloc.h>
#include <stdexcept>
#include <new>
using namespace ada::idna;
// ---- the allocator under test control
static bool on = false;
static uint64_t count = 0, refused = 0;
static uint64_t fail_a = ~0ull, fail_b = ~0ull, fail_from = ~0ull, fail_size = ~0ull, max_refused = 0;
static int64_t live = 0;
static bool refuse(size_t n) {
  if (!on) return false;
  uint64_t k = count++;
  if (k == fail_a || k == fail_b || k >= fail_from || n >= fail_size) { refused++; if (n > max_refused) max_refused = n; return true; }
  return false;
}
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (p) live += int64_t(malloc_usable_size(p)); return p; }
static void give(void* p) { if (p) live -= int64_t(malloc_usable_size(p)); free(p); }
void* operator new(size_t n) { if (refuse(n)) throw std::bad_alloc(); return take(n); }
void* operator new[](size_t n) { if (refuse(n)) throw std::bad_alloc(); return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

enum R { Right, Closed, Wrong, Threw };
using SV = std::string_view;
using UV = std::u32string_view;
static R asc(SV in, SV want) { std::string o; bool k = to_ascii(in, o); return k && o == want ? Right : !k && o.empty() ? Closed : Wrong; }
static R asc1(SV in, SV want) { std::string o = to_ascii(in); return o == want ? Right : o.empty() ? Closed : Wrong; }
static R rej(SV in) { std::string o; bool k = to_ascii(in, o); return !k && o.empty() ? Right : Wrong; }
static R uni(SV in, SV want, SV closed) { std::string o; bool k = to_unicode(in, o); return k && o == want ? Right : k && o == closed ? Closed : !k ? Closed : Wrong; }
static R uni1(SV in, SV want, SV closed) { std::string o = to_unicode(in); return o == want ? Right : o == closed ? Closed : Wrong; }
static R mp(UV in, UV want) { std::u32string o; bool k = map(in, o); return k && o == want ? Right : !k ? Closed : Wrong; }
static R nf(UV in, UV want) { std::u32string o(in); bool k = normalize(o); return k && o == want ? Right : !k ? Closed : Wrong; }
static R yes(bool k) { return k ? Right : Closed; }
static R no(bool k) { return k ? Wrong : Right; }
static std::string L8, L8a, L8c;
static std::u32string L32, L32n;
struct Probe { const char* name; R (*f)(); bool tables; };
static const Probe P[] = {
    {"to_ascii mixed", [] { return asc("b\xC3\xBC" "cher.Example.\xE2\x84\xAB", "xn--bcher-kva.example.xn--5ca"); }, true},
    {"to_ascii returning a string", [] { return asc1("b\xC3\xBC" "cher.b\xC3\xBC" "cher.b\xC3\xBC" "cher", "xn--bcher-kva.xn--bcher-kva.xn--bcher-kva"); }, true},
    {"to_ascii A-labels", [] { return asc("xn--tda.\xC3\x9F.xn--bcher-kva", "xn--tda.xn--zca.xn--bcher-kva"); }, true},
    {"to_ascii decomposed", [] { return asc("bu\xCC\x88" "cher\xE1\x84\x80\xE1\x85\xA1\xE1\x86\xA8.1", "xn--bcher-kva58571a.1"); }, true},
    {"to_ascii invalid", [] { return rej("\xC3\x9F\xCD\xB8.a"); }, false},
    {"to_ascii invalid after valid labels", [] { return rej("b\xC3\xBC" "cher.b\xC3\xBC" "cher.xn--a"); }, false},
    {"to_ascii malformed", [] { return rej("\xC3\x9F\xFF"); }, false},
    {"to_ascii ASCII", [] { return asc("WWW.A-rather-long-ASCII-domain-name.Example", "www.a-rather-long-ascii-domain-name.example"); }, false},
    {"to_ascii long", [] { return asc(L8, L8a); }, true},
    {"to_unicode", [] { return uni("xn--bcher-kva.a.xn--4dbc", "b\xC3\xBC" "cher.a.\xD7\x90\xD7\x91", "xn--bcher-kva.a.xn--4dbc"); }, true},
    {"to_unicode returning a string", [] { return uni1("xn--bcher-kva.xn--bcher-kva.xn--bcher-kva.xn--bcher-kva", "b\xC3\xBC" "cher.b\xC3\xBC" "cher.b\xC3\xBC" "cher.b\xC3\xBC" "cher", "xn--bcher-kva.xn--bcher-kva.xn--bcher-kva.xn--bcher-kva"); }, true},
    {"to_unicode long", [] { return uni(L8a, L8c, L8a); }, true},
    {"to_unicode ASCII", [] { return uni("www.Example.With.Many.Labels.in.it", "www.Example.With.Many.Labels.in.it", "www.Example.With.Many.Labels.in.it"); }, false},
    {"map", [] { return mp(U"\u00C4\uFDFA\u00ADbcdefghijk", U"\u00E4\u0635\u0644\u0649 \u0627\u0644\u0644\u0647 \u0639\u0644\u064A\u0647 \u0648\u0633\u0644\u0645bcdefghijk"); }, true},
    {"map long", [] { return mp(L32, L32); }, true},
    {"map disallowed", [] { std::u32string o; return no(map(U"abcdefgh\u0378", o)); }, false},
    {"normalize", [] { return nf(U"q\u0307\u0323u\u0308\u1100\u1161\u11A8", U"q\u0323\u0307\u00FC\uAC01"); }, true},
    {"normalize long", [] { return nf(L32, L32n); }, true},
    {"normalize nothing to do", [] { return nf(L32n, L32n); }, true},
    {"is_already_nfc", [] { return yes(is_already_nfc(U"\u00FCber\u4E00\u0E01")); }, true},
    {"is_already_nfc long", [] { return yes(is_already_nfc(L32n)); }, true},
    {"is_already_nfc no", [] { return no(is_already_nfc(L32)); }, false},
    {"is_label_valid", [] { return yes(is_label_valid(U"\u0628\u200C\u0628")); }, true},
    {"is_label_valid long", [] { return yes(is_label_valid(L32n)); }, true},
    {"is_label_valid no", [] { return no(is_label_valid(U"\u0301a")); }, false},
    {"valid_name_code_point", [] { return yes(valid_name_code_point(0x3B1, true)); }, true},
    {"punycode", [] { std::string o; bool k = utf32_to_punycode(U"b\u00FCcher\u4E00\u4E01\u4E02\u4E03", o); return !k ? Closed : o == "bcher-kva0319kiajk" ? Right : Wrong; }, false},
    {"punycode decode", [] { std::u32string o; bool k = punycode_to_utf32("bcher-kva", o); return !k ? Closed : o == U"b\u00FCcher" ? Right : Wrong; }, false},
    {"verify_punycode", [] { return yes(verify_punycode("bcher-kva")); }, false},
    {"contains_forbidden_domain_code_point", [] { return yes(contains_forbidden_domain_code_point("a-rather-long-string-that-contains a blank")); }, false},
};
constexpr size_t K = sizeof P / sizeof *P;
static R call(const Probe& p) {
  try { return p.f(); } catch (const std::bad_alloc&) { return Threw; } catch (const std::length_error&) { return Wrong; }
}
static const char* rn[] = {"right", "refused", "wrong", "threw"};
// the state afterwards
static std::string settle(bool may_be_closed) {
  bool was_on = on;
  on = false;
  int right = 0, closed = 0;
  for (int round = 0; round < 2; round++)
    for (auto& p : P) {
      R g = call(p);
      if (g == Wrong || g == Threw) { on = was_on; return std::string("later ") + p.name + " is " + rn[g]; }
      if (!p.tables && g != Right) return std::string("later ") + p.name + " is " + rn[g];
      if (p.tables) (g == Right ? right : closed)++;
    }
  if (right && closed) return "later calls partly work and partly refuse";
  if (closed && !may_be_closed) return "later calls refuse although the tables were loaded";
  return "";
}
struct Case { int op, warm, mode; uint64_t a, b; };
int main(int argc, char** argv) {
  const char* t = getenv("VERIF_TIER");
  bool th = t && !strcmp(t, "thorough");
  for (int i = 0; i < 300; i++) { L8 += "\xC3\xBC"; L32 += U"e\u0323\u0301"; L32n += U"\u1EB9\u0301"; }
  L8c = L8 + ".b\xC3\xBC" "cher";
  L8 += ".b\xC3\x9C" "cher";
  if (pid_t p = fork(); p == 0) {
    FILE* f = fopen("l8a.txt", "w");
    fputs(to_ascii(L8).c_str(), f);
    fclose(f);
    for (auto& p : P) if (&p != &P[8] && &p != &P[11]) if (R g = call(p); g != Right) fprintf(stderr, "%s: %s\n", p.name, rn[g]);
    _exit(0);
  } else { int st; waitpid(p, &st, 0); if (st) return 3; }
  { FILE* f = fopen("l8a.txt", "r"); char b[5000]; if (!f || !fgets(b, sizeof b, f)) return 3; fclose(f); L8a = b; }
  // how many allocations each operation makes, cold and warm
  static uint64_t (*na)[2] = static_cast<uint64_t(*)[2]>(mmap(nullptr, sizeof(uint64_t) * 2 * K, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (size_t k = 0; k < K; k++) for (int w = 0; w < 2; w++) {
    pid_t p = fork();
    if (p == 0) {
      if (w) settle(false);
      on = true; count = 0;
      R g = call(P[k]);
      on = false;
      na[k][w] = count;
      if (g != Right) fprintf(stderr, "%s gives %s\n", P[k].name, rn[g]);
      _exit(g == Right ? 0 : 9);
    }
    int st; waitpid(p, &st, 0);
    if (st) { fprintf(stderr, "%s without failures: %d\n", P[k].name, st); return 3; }
  }
  static std::vector<Case> cs;
  uint64_t cap = th ? 400 : 60;
  for (int k = 0; k < int(K); k++) for (int w = 0; w < 2; w++) {
    uint64_t n = na[k][w];
    for (uint64_t a = 0; a <= n && a < 2000; a++) { cs.push_back({k, w, 0, a, 0}); cs.push_back({k, w, 1, a, 0}); }
    for (uint64_t a = 0; a < n && a < cap; a++) for (uint64_t b = a + 1; b <= n && b < cap; b++) cs.push_back({k, w, 2, a, b});
    for (int s = 4; s < 21; s++) cs.push_back({k, w, 3, uint64_t(1) << s, 0});
  }
  std::vector<hx::Family> f;
  static auto eval = [](const Case& c, const Case* d, hx::Rec& r) {
    auto text = [](const Case& c) {
      char x[300];
      snprintf(x, sizeof x, "%s, tables %s, %s %llu %s%s", P[c.op].name, c.warm ? "loaded before" : "not loaded", c.mode == 3 ? "every allocation of at least" : "failing: allocation", (unsigned long long)c.a, c.mode == 1 ? "and all later ones" : c.mode == 2 ? "and " : c.mode == 3 ? "bytes" : "", c.mode == 2 ? std::to_string(c.b).c_str() : "");
      return std::string(x);
    };
    r.in8(text(c) + (d ? "; then " + text(*d) : ""));
    alarm(20);
    if (c.warm) { auto s = settle(false); if (!s.empty()) { r.fail("before any failure: " + s); return; } }
    bool any = false;
    for (const Case* q : {&c, d}) {
      if (!q) continue;
      fail_a = q->mode < 3 && q->mode != 1 ? q->a : ~0ull;
      fail_b = q->mode == 2 ? q->b : ~0ull;
      fail_from = q->mode == 1 ? q->a : ~0ull;
      fail_size = q->mode == 3 ? q->a : ~0ull;
      count = refused = 0;
      int64_t before = live;
      on = true;
      R g = call(P[q->op]);
      on = false;
      r.call();
      r.outcome(uint64_t(q->op) * 100 + g * 10 + (refused > 0) * 2 + q->warm);
      any |= refused > 0;
      if (g == Wrong) { r.fail("the call gives a wrong result after a failed allocation"); return; }
      if (!any && g != Right) { r.fail(std::string("the call ") + rn[g] + " although no allocation failed"); return; }
      if (g == Closed && !P[q->op].tables && refused == 0 && c.warm) { r.fail("the call refuses although no allocation failed"); return; }
      if (c.warm && live != before) { r.fail("the call leaks " + std::to_string(live - before) + " bytes"); return; }
    }
    auto s = settle(!c.warm && any);
    if (!s.empty()) { r.fail(s); return; }
    // and now nothing may grow any more
    int64_t l0 = live;
    settle(!c.warm && any);
    if (live != l0) r.fail("repeated calls leak " + std::to_string(live - l0) + " bytes");
    if (!c.warm && live > (1 << 21)) r.fail(std::to_string(live) + " bytes stay allocated");
    r.call(K * 4);
  };
  f.push_back({"every operation x tables loaded or not x every single / pair / tail / size class of failing allocations", cs.size(), [](uint64_t i, hx::Rec& r) { eval(cs[i], nullptr, r); }, 16});
  // two operations in a row, each with a failing allocation
  static std::vector<std::pair<Case, Case>> two;
  for (int k = 0; k < int(K); k++) for (int j = 0; j < int(K); j++) for (int w = 0; w < 2; w++) {
    for (uint64_t a = 0; a < std::min<uint64_t>(na[k][w], th ? 12 : 3); a++) for (uint64_t b = 0; b < std::min<uint64_t>(na[j][1] + !w, th ? 6 : 2); b++)
      two.push_back({{k, w, 0, a, 0}, {j, w, int(a & 1), b, 0}});
  }
  f.push_back({"ordered pairs of operations, each with an early failing allocation", two.size(), [](uint64_t i, hx::Rec& r) { eval(two[i].first, &two[i].second, r); }, 16});
  hx::Opt o;
  o.fork_each = true;
  return hx::run(argc, argv, f, o);
}
