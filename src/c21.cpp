// C21: results depend on the arguments only: not on earlier calls, on what the
// output object held, on where the input lies, or on how early in the life of
// the process the call is made. Linked three times: calls made from static
// constructors before / after the library's own, and from main.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
#include <thread>
using namespace gen;
static std::string T(bool k, std::string_view s) { return (k ? "1" : "0") + std::string(s); }
static std::string T32(bool k, std::u32string_view s) { return (k ? "1" : "0") + std::string(reinterpret_cast<const char*>(s.data()), s.size() * 4); }
struct Op { const char* name; std::string (*f)(); };
static std::string A(std::string_view s) { std::string o = "old contents"; bool k = ada::idna::to_ascii(s, o); return T(k, o) + "|" + ada::idna::to_ascii(s); }
static std::string U(std::string_view s) { std::string o = "old contents"; bool k = ada::idna::to_unicode(s, o); return T(k, o) + "|" + ada::idna::to_unicode(s); }
static std::string rep(const char* u, int n) { std::string s; while (n--) s += u; return s; }
static const std::vector<Op> ops = {
    {"to_ascii mixed", [] { return A("b\xC3\xBC" "cher.Example.\xE2\x84\xAB"); }},
    {"to_ascii Hebrew", [] { return A("\xD7\x90\xD7\x91.1a"); }},
    {"to_ascii invalid bidi", [] { return A("\xD7\x90" "a.x"); }},
    {"to_ascii disallowed", [] { return A("\xC3\x9F\xCD\xB8"); }},
    {"to_ascii malformed", [] { return A("\xC3\x9F\xFF"); }},
    {"to_ascii ASCII", [] { return A("WWW.Example"); }},
    {"to_ascii A-label", [] { return A("xn--tda.\xC3\x9F"); }},
    {"to_ascii bad A-label", [] { return A("xn--a.\xC3\x9F"); }},
    {"to_ascii long", [] { return A(rep("\xC3\xBC", 900) + ".a"); }},
    {"to_ascii too long", [] { return A(rep("\xC3\xBC", 8200)); }},
    {"to_ascii joiner", [] { return A("\xE0\xA4\x95\xE0\xA5\x8D\xE2\x80\x8D\xE0\xA4\x95"); }},
    {"to_ascii empty", [] { return A(""); }},
    {"to_unicode", [] { return U("xn--bcher-kva.a.xn--4dbc"); }},
    {"to_unicode invalid", [] { return U("xn--a.xn--tda-"); }},
    {"to_unicode too long", [] { return U(rep("a", 16385)); }},
    {"map", [] { std::u32string o = U"old"; bool k = ada::idna::map(U"\u00C4\uFDFA\u00AD", o); return T32(k, o); }},
    {"map fails", [] { std::u32string o = U"old"; bool k = ada::idna::map(U"ab\u0378", o); return T32(k, U""); }},
    {"normalize", [] { std::u32string s = U"q\u0307\u0323\u1100\u1161\u11A8\u0344"; bool k = ada::idna::normalize(s); return T32(k, s); }},
    {"normalize long", [] { std::u32string s; for (int i = 0; i < 400; i++) s += U"e\u0323\u0301"; bool k = ada::idna::normalize(s); return T32(k, s); }},
    {"is_already_nfc", [] { return T(ada::idna::is_already_nfc(U"\u00FC\u0323"), T(ada::idna::is_already_nfc(U"\u1E69"), "")); }},
    {"is_label_valid", [] { return T(ada::idna::is_label_valid(U"\u0628\u200C\u0628"), T(ada::idna::is_label_valid(U"\u0301a"), "")); }},
    {"valid_name", [] { return T(ada::idna::valid_name_code_point(0x3B1, true), T(ada::idna::valid_name_code_point(0xB7, true), "")); }},
    {"punycode", [] { std::string o; bool k = ada::idna::utf32_to_punycode(U"b\u00FCcher\u4E00", o); std::u32string u; bool j = ada::idna::punycode_to_utf32("bcher-kva", u); return T(k, o) + T32(j, u); }},
    {"punycode fails", [] { std::u32string u; bool j = ada::idna::punycode_to_utf32("99999999", u); return T(j, ""); }},
    {"forbidden", [] { return T(ada::idna::contains_forbidden_domain_code_point("a b"), T(ada::idna::contains_forbidden_domain_code_point("a-b"), "")); }},
};
// ---- calls made while static objects are constructed
static std::vector<std::string> early;
static int late_fd = -1;
static size_t late_op;
static std::string late_want;
static void late_call() {
  char x = ops[late_op].f() == late_want ? 'y' : 'n';
  (void)!write(late_fd, &x, 1);
}
struct Early { Early() { for (auto& o : ops) early.push_back(o.f()); } ~Early() { if (late_fd >= 0) late_call(); } };
#ifdef EARLY
static Early at_start;
#endif
struct Base { uint32_t len[32]; char txt[32][20000]; };
static Base* base;  // each operation as the only one of a process
// Operation k in a process that is going down (or a thread, or a forked child), as arranged by "how".
static void late(size_t k, std::string_view want, const std::function<void()>& how, hx::Rec& r) {
  int p[2];
  if (pipe(p)) return;
  fflush(nullptr);  // exit() in the child must have nothing to write
  pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    late_fd = p[1];
    late_op = k;
    late_want = want;
    how();
    exit(0);
  }
  close(p[1]);
  char x = 0;
  if (read(p[0], &x, 1) != 1) r.fail(std::string(ops[k].name) + " does not return");
  else if (x != 'y') r.fail(std::string(ops[k].name) + " gives another result");
  close(p[0]);
  int st;
  waitpid(c, &st, 0);
  if (st) r.fail("the process ends with status " + std::to_string(st));
  r.outcome(uint64_t(x) + k * 256);
}
struct AtThreadEnd { bool armed = false; ~AtThreadEnd() { if (armed) late_call(); } };
static thread_local AtThreadEnd thread_end;
int main(int argc, char** argv) {
  bool th = thorough();
  static const size_t K = ops.size();
  base = static_cast<Base*>(mmap(nullptr, sizeof(Base), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<hx::Family> f;
  hx::Opt o;
#ifdef EARLY
  // With the static constructors having run, results must equal the reference.
#else
  for (size_t k = 0; k < K; k++) {
    pid_t p = fork();
    if (p == 0) { std::string r = ops[k].f(); base->len[k] = uint32_t(r.size()); if (r.size() > 19999) _exit(9); memcpy(base->txt[k], r.data(), r.size()); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (st) { fprintf(stderr, "%s alone fails (%d)\n", ops[k].name, st); return 3; }
  }
#endif
  ref::load(REFDATA);
  auto want = [](size_t k) { return std::string_view(base->txt[k], base->len[k]); };
#ifdef EARLY
  // what the operations must give, from the reference: the same calls made by a
  // helper process of the plain build, handed over in a file
  {
    FILE* b = fopen("base.bin", "rb");
    if (!b || fread(base, sizeof(Base), 1, b) != 1) { fprintf(stderr, "no base\n"); return 3; }
    fclose(b);
  }
  // the first operation before main, another one in the destructor of a static object
  f.push_back({"each operation called from a static destructor " EARLY, K, [=](uint64_t i, hx::Rec& r) {
                 r.in8(ops[i].name); r.call();
                 late(i, want(i), [] {}, r);
               }, 4});
  f.push_back({"each operation called from a static constructor " EARLY, K, [=](uint64_t i, hx::Rec& r) {
                 r.in8(ops[i].name); r.call();
                 if (early[i] != want(i)) r.fail(std::string(ops[i].name) + " called before main gives another result");
                 else if (ops[i].f() != want(i)) r.fail(std::string(ops[i].name) + " gives another result after calls before main");
                 r.outcome(early[i]);
               }});
#else
  { FILE* b = fopen("base.bin", "wb"); if (!b || fwrite(base, sizeof(Base), 1, b) != 1) return 3; fclose(b); }
  unsigned D = th ? 4 : 3;
  f.push_back({"all sequences of " + std::to_string(D) + " of " + std::to_string(K) + " operations, each sequence in a fresh process", ipow(K, D), [=](uint64_t i, hx::Rec& r) {
                 // the harness forks per chunk below: here each index forks itself
                 std::string nm;
                 std::vector<size_t> seq;
                 for (unsigned d = 0; d < D; d++, i /= K) { seq.push_back(i % K); nm += std::string(d ? "; " : "") + ops[i % K].name; }
                 r.in8(nm);
                 int p[2];
                 if (pipe(p)) return;
                 pid_t c = fork();
                 if (c == 0) {
                   for (size_t k : seq) if (ops[k].f() != want(k)) { char x = char(k + 1); (void)!write(p[1], &x, 1); _exit(0); }
                   _exit(0);
                 }
                 close(p[1]);
                 char x = 0;
                 if (read(p[0], &x, 1) == 1) r.fail(std::string(ops[x - 1].name) + " gives another result in this sequence than alone");
                 close(p[0]);
                 int st; waitpid(c, &st, 0);
                 if (st) r.fail("the process ends with status " + std::to_string(st));
                 r.call(D);
                 for (size_t k : seq) r.outcome(want(k));
               }, 64});
  // late in the life of a process or a thread, after each other operation (or none)
  static const char* const where[] = {"in an exit handler set before the first call", "in an exit handler set after it", "in a thread-local destructor of the main thread", "in a thread-local destructor of another thread", "in a new thread after the one that made the first call has ended", "in a forked child", "in an exit handler of a forked child, set by the parent before the first call"};
  f.push_back({"each operation after each other one or none, in 7 late places", K * (K + 1) * 7, [=](uint64_t i, hx::Rec& r) {
                 unsigned w = unsigned(i % 7); i /= 7;
                 size_t k = i % K, a = i / K;
                 r.in8(std::string(a < K ? ops[a].name : "nothing") + ", then " + ops[k].name + " " + where[w]);
                 r.call(2);
                 late(k, want(k), [&] {
                   auto first = [&] { if (a < K) (void)ops[a].f(); };
                   switch (w) {
                     case 0: atexit(late_call); first(); break;
                     case 1: first(); atexit(late_call); break;
                     case 2: thread_end.armed = true; first(); break;
                     case 3: std::thread([&] { thread_end.armed = true; first(); }).join(); break;
                     case 4: std::thread([&] { first(); }).join(); std::thread(late_call).join(); break;
                     case 5: { first(); pid_t q = fork(); if (q == 0) { late_call(); _exit(0); } int st; waitpid(q, &st, 0); if (st) _exit(1); break; }
                     case 6: { atexit(late_call); first(); pid_t q = fork(); if (q == 0) exit(0); int st; waitpid(q, &st, 0); _exit(st ? 1 : 0); }
                   }
                 }, r);
               }, 16});
  f.push_back({"each operation repeated 70000 times", K, [=](uint64_t i, hx::Rec& r) {
                 r.in8(ops[i].name);
                 int n = want(i).size() > 500 ? 3000 : 70000;
                 for (int k = 0; k < n; k++) { if (ops[i].f() != want(i)) { r.fail("call " + std::to_string(k + 1) + " gives another result"); return; } if (k % 256 == 0) hx::me->busy.fetch_add(1); }
                 r.call(n);
               }, 1});
  f.push_back({"each ordered pair of operations alternating 600 times", K * K, [=](uint64_t i, hx::Rec& r) {
                 size_t a = i % K, b = i / K;
                 r.in8(std::string(ops[a].name) + " / " + ops[b].name);
                 for (int k = 0; k < 600; k++) if (ops[a].f() != want(a) || ops[b].f() != want(b)) { r.fail("round " + std::to_string(k + 1) + " differs"); return; }
                 r.call(1200);
               }, 2});
  // pairs of inputs at the same address
  static std::vector<std::string> in;
  static std::vector<std::string> wa, wu;
  {
    auto sp = domain_spaces(0);
    for (auto& s : sp) { std::string x; uint64_t q = th ? 240 : 90; for (uint64_t k = 0; k < q; k++) { s.get(s.n / q * k + (k * 7919) % (s.n / q + 1), x); if (x.size() < 600) in.push_back(x); } }
    for (auto& s : {"xn--tda", "xn--4db", "xn--zca", "XN--ZCA", "\xC3\xBC", "\xC3\x9F", "\xC3\xA4", "\xC3\x84", "a.b", "b.a", "xn--bcher-kva", "b\xC3\xBC" "cher", "B\xC3\x9C" "CHER", "\xD7\x90.1", "1.\xD7\x90", "a\xD7\x90", "b\xD7\x90"}) in.push_back(s);
    std::vector<std::string> all;
    all.swap(in);
    for (auto& x : all) {
      auto e = ref::to_ascii(x);
      auto u = ref::to_unicode(x);
      if (e.overflow || !u) continue;
      in.push_back(x);
      wa.push_back(T(e.ok, e.out));
      wu.push_back(T(true, *u));
    }
  }
  static const uint64_t I = in.size();
  f.push_back({"every ordered pair of " + std::to_string(I) + " domains, converted one after the other from the same buffer into the same object", I * I, [=](uint64_t i, hx::Rec& r) {
                 static char buf[1024];
                 static std::string o, u;
                 for (uint64_t k : {i / I, i % I}) {
                   auto& x = in[k];
                   memcpy(buf, x.data(), x.size());
                   bool g = ada::idna::to_ascii(std::string_view(buf, x.size()), o), h = ada::idna::to_unicode(std::string_view(buf, x.size()), u);
                   if (T(g, o) != wa[k] || T(h, u) != wu[k]) { r.in8(in[i / I] + " then " + x); r.fail("converting " + hx::show8(x) + " after " + hx::show8(in[i / I]) + " gives " + hx::show8(o) + " / " + hx::show8(u)); return; }
                 }
                 r.call(4);
                 r.outcome(o);
                 if (i % 1000 == 0) r.in8(in[i / I] + " then " + in[i % I]);
               }});
  // pairs of inputs that something cheaper than a comparison would take for the same one
  {
    static const auto& L = lookalikes();
    f.push_back({"every pair of " + std::to_string(L.size()) + " related labels, one after the other in each operation", L.size() * 9, [](uint64_t i, hx::Rec& r) {
                   auto& pr = L[i / 9];
                   unsigned m = unsigned(i % 9);
                   const U32* x[2] = {&pr.first, &pr.second};
                   std::string p[2];
                   static const char* const nm[9] = {"is_label_valid", "to_ascii", "to_unicode", "to_ascii of the A-label", "to_unicode of the A-label", "map", "normalize", "is_already_nfc", "the Punycode functions"};
                   if (m == 3 || m == 4 || m == 8) for (int k = 0; k < 2; k++) if (ref::all_ascii(*x[k]) || ref::puny_encode(*x[k], p[k]) != ref::P::ok) return;
                   r.in32(pr.first);
                   static char buf[1024];
                   static char32_t buf32[256];
                   static std::string o;
                   static U32 o32;
                   for (int k = 0; k < 2; k++) {
                     const U32& s = *x[k];
                     memcpy(buf32, s.data(), s.size() * 4);
                     std::u32string_view v(buf32, s.size());
                     std::string s8 = m == 3 || m == 4 ? "xn--" + p[k] : m == 8 ? p[k] : u8(s);
                     memcpy(buf, s8.data(), s8.size());
                     std::string_view v8(buf, s8.size());
                     bool ok = true;
                     switch (m) {
                       case 0: {
                         // the reference is for mapped and normalized labels (C06)
                         bool scope = ref::nfc(s) == s;
                         for (char32_t c : s) scope = scope && c < ref::MAXCP && ref::D.status[c] == ref::sVALID && c != '.';
                         bool g = ada::idna::is_label_valid(v);
                         if (scope) ok = g == ref::label_valid_alone(s);
                         break;
                       }
                       case 1: case 3: { auto e = ref::to_ascii(s8); bool g = ada::idna::to_ascii(v8, o); ok = e.overflow || (g == e.ok && (!g || o == e.out)); break; }
                       case 2: case 4: { auto e = ref::to_unicode(s8); bool g = ada::idna::to_unicode(v8, o); ok = !e || (g && o == *e); break; }
                       case 5: { auto e = ref::map(s); bool g = ada::idna::map(v, o32); ok = g == bool(e) && (!g || o32 == *e); break; }
                       case 6: { o32.assign(v); bool g = ada::idna::normalize(o32); ok = g && o32 == ref::nfc(s); break; }
                       case 7: ok = ada::idna::is_already_nfc(v) == (ref::nfc(s) == s); break;
                       case 8: { U32 d; auto q = ref::puny_decode(s8, d); o32.clear(); bool g = ada::idna::punycode_to_utf32(v8, o32); ok = g == (q == ref::P::ok) && (!g || o32 == d) && ada::idna::verify_punycode(v8) == g; if (g) { std::string b; ok = ok && ada::idna::utf32_to_punycode(o32, b) && b == s8; } break; }
                     }
                     r.call();
                     if (!ok) return r.fail(std::string(nm[m]) + (k ? " of " + hx::show32(s) + " after " + hx::show32(pr.first) : "") + " gives another result than the reference");
                   }
                 }, 256});
    static const auto& PL = payload_lookalikes();
    f.push_back({"every pair of " + std::to_string(PL.size()) + " related A-labels, one after the other in each operation", PL.size() * 3, [](uint64_t i, hx::Rec& r) {
                   auto& pr = PL[i / 3];
                   unsigned m = unsigned(i % 3);
                   r.in8(pr.first);
                   static std::string o;
                   static U32 o32;
                   static char buf[256];
                   for (int k = 0; k < 2; k++) {
                     std::string s = (m == 2 ? "" : "xn--") + (k ? pr.second : pr.first);
                     memcpy(buf, s.data(), s.size());
                     std::string_view v(buf, s.size());
                     bool ok = true;
                     if (m == 0) { auto e = ref::to_ascii(s); bool g = ada::idna::to_ascii(v, o); ok = e.overflow || (g == e.ok && (!g || o == e.out)); }
                     if (m == 1) { auto e = ref::to_unicode(s); bool g = ada::idna::to_unicode(v, o); ok = !e || (g && o == *e); }
                     if (m == 2) { U32 d; auto q = ref::puny_decode(s, d); o32.clear(); bool g = ada::idna::punycode_to_utf32(v, o32); ok = g == (q == ref::P::ok) && (!g || o32 == d) && ada::idna::verify_punycode(v) == g; }
                     r.call();
                     if (!ok) return r.fail((k ? hx::show8(s) + " after " : "") + hx::show8(pr.first) + " gives another result than the reference");
                   }
                 }, 256});
  }
  // what the output object holds from earlier calls: its size, capacity and contents
  static const std::vector<size_t> olds = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 22, 23, 31, 64, 255, 256, 1023, 4096, 16384, 70000};
  static const uint64_t M = 12;
  static std::vector<U32> in32;
  static std::vector<std::optional<U32>> wm;
  static std::vector<U32> wn;
  {
    for (auto& x : in) if (auto u = ref::utf8_decode(x)) in32.push_back(*u);
    for (auto& x : {U"", U"a", U"A", U"\u00DF", U"\u00DC", U"\uFDFA", U"\u00AD", U"\u00AD\u00AD", U"a\u00ADb", U"\u0378", U"a\u0378", U"q\u0323\u0307", U"q\u0307\u0323", U"\u1100\u1161\u11A8", U"\uAC01", U"\U0001D15F", U"e\u0301", U"\u0344\u0344", U"\u2F868a", U"\u3002\uFF0E"}) in32.push_back(x);
    if (in32.size() > 1500 && !th) { std::vector<U32> t; for (size_t k = 0; k < in32.size(); k++) if (k % (in32.size() / 750) == 0 || k + 20 >= in32.size()) t.push_back(in32[k]); in32.swap(t); }
    for (auto& x : in32) { wm.push_back(ref::map(x)); wn.push_back(ref::nfc(x)); }
  }
  static const uint64_t I32 = in32.size();
  f.push_back({"the output object: " + std::to_string(olds.size()) + " sizes x contents x spare capacity, for every domain and every mapping", (I + I32) * olds.size() * M, [=](uint64_t i, hx::Rec& r) {
                 uint64_t m = i % M; i /= M;
                 size_t n = olds[i % olds.size()]; i /= olds.size();
                 if (n > 5000 && i % 16) return;
                 static const char* const fill[6] = {"x", "xn--", ".", "\xC3\xBC", "", "A1-"};
                 static const char32_t* const fill32[6] = {U"x", U"xn--", U".", U"\u00FC", U"", U"\U0010FFFF"};
                 auto fit = [&](auto& o, auto pat) { o.clear(); for (size_t k = 0; k < n; k++) o.push_back(pat.empty() ? 0 : pat[k % pat.size()]); if (m >= 6) o.reserve(2 * n + 100); else o.shrink_to_fit(); };
                 r.call(2);
                 if (i < I) {
                   std::string o, u;
                   fit(o, std::string_view(fill[m % 6])); fit(u, std::string_view(fill[m % 6]));
                   bool g = ada::idna::to_ascii(in[i], o), h = ada::idna::to_unicode(in[i], u);
                   if (m == 0 && n < 2) r.in8(in[i]);
                   if (T(g, o) != wa[i] || T(h, u) != wu[i]) { r.in8(in[i]); r.fail("converting into an object that held " + std::to_string(n) + " bytes gives " + hx::show8(o) + " / " + hx::show8(u)); }
                 } else {
                   auto& x = in32[i - I];
                   U32 o;
                   fit(o, std::u32string_view(fill32[m % 6]));
                   bool g = ada::idna::map(x, o);
                   if (g != bool(wm[i - I]) || (g && o != *wm[i - I])) { r.in32(x); r.fail("mapping into an object that held " + std::to_string(n) + " code points gives " + (g ? std::to_string(o.size()) + " code points" : "failure")); }
                 }
               }});
  f.push_back({"every ordered pair of " + std::to_string(I32) + " strings, mapped and normalized one after the other in the same objects", I32 * I32, [=](uint64_t i, hx::Rec& r) {
                 static U32 o, v;
                 for (uint64_t k : {i / I32, i % I32}) {
                   bool g = ada::idna::map(in32[k], o);
                   v.assign(in32[k]);
                   bool h = ada::idna::normalize(v);
                   if (g != bool(wm[k]) || (g && o != *wm[k]) || !h || v != wn[k]) { r.in32(in32[i / I32]); r.fail("the result for the second string after this one differs (pair " + std::to_string(i) + ")"); return; }
                 }
                 r.call(4);
                 if (i % 1000 == 0) r.in32(in32[i % I32]);
               }});
#endif
  return hx::run(argc, argv, f, o);
}
