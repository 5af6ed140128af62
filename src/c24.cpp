// C24: every supported way of building the library behaves the same.
#include <dlfcn.h>
#include "harness.hpp"
#include "gen.hpp"
using namespace gen;
typedef long (*Call)(int, const void*, size_t, unsigned char*, size_t);
struct Cfg { std::string name; Call f; };
static std::vector<Cfg> cfg;
constexpr size_t CAP = 140000;
static void all(int lo, int hi, const void* p, size_t n, hx::Rec& r) {
  static unsigned char a[CAP], b[CAP];
  static const char* nm[] = {"to_ascii", "to_unicode", "punycode/forbidden functions", "UTF-8 decoding / ASCII mapping", "map", "normalize", "label validity / identifiers", "punycode encoding / UTF-8 encoding"};
  for (int fn = lo; fn <= hi; fn++) {
    long x = cfg[0].f(fn, p, n, a, CAP);
    r.outcome(std::string_view((char*)a, size_t(x)));
    for (size_t k = 1; k < cfg.size(); k++) {
      long y = cfg[k].f(fn, p, n, b, CAP);
      if (x != y || memcmp(a, b, size_t(x))) { r.fail(std::string(nm[fn]) + ": configuration \"" + cfg[k].name + "\" gives " + hx::show8({(char*)b, size_t(y)}) + ", \"" + cfg[0].name + "\" gives " + hx::show8({(char*)a, size_t(x)})); return; }
    }
    r.call(cfg.size());
  }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  {
    FILE* f = fopen("configs.txt", "r");
    char line[600];
    if (!f) return 3;
    while (fgets(line, sizeof line, f)) {
      std::string l(line);
      l.pop_back();
      auto sp = l.find(' ');
      void* h = dlopen(("./" + l.substr(0, sp)).c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
      cfg.push_back({l.substr(sp + 1), Call(dlsym(h, "cfg_call"))});
    }
    fclose(f);
    for (size_t i = 0; i < cfg.size(); i++) for (size_t j = 0; j < i; j++) if (cfg[i].f == cfg[j].f) { fprintf(stderr, "configurations not separate\n"); return 3; }
  }
  std::vector<hx::Family> f;
  for (auto& sp : domain_spaces(th ? 1 : 0)) {
    if (sp.n > 6000000) continue;
    f.push_back({sp.name, sp.n, [sp](uint64_t i, hx::Rec& r) { static std::string s; sp.get(i, s); r.in8(s); all(0, s.size() < 60 ? 3 : 1, s.data(), s.size(), r); }});
  }
  {
    auto& A = domain_alphabet();
    Words w(A.size(), 3);
    f.push_back({"words of <= 3 tokens over " + std::to_string(A.size()) + " tokens", w.total, [w](uint64_t i, hx::Rec& r) {
                   static std::vector<std::string> enc = [] { std::vector<std::string> e; for (auto& x : domain_alphabet()) e.push_back(u8(x)); return e; }();
                   std::string s;
                   for (auto k : w.get(i)) s += enc[k];
                   r.in8(s); all(0, 1, s.data(), s.size(), r);
                 }});
    auto& L = label_alphabet();
    uint64_t n = L.size();
    f.push_back({"domains of 3 labels over " + std::to_string(n), n * n * n, [n](uint64_t i, hx::Rec& r) {
                   auto& L = label_alphabet();
                   std::string s = L[i % n] + "." + L[i / n % n] + "." + L[i / n / n];
                   r.in8(s); all(0, 1, s.data(), s.size(), r);
                 }});
  }
  f.push_back({"all byte strings of length <= 2", 65536 + 256, [](uint64_t i, hx::Rec& r) {
                 std::string s;
                 if (i < 256) s += char(i); else { i -= 256; s += char(i >> 8); s += char(i); }
                 r.in8(s); all(0, 3, s.data(), s.size(), r);
               }});
  static const std::u32string A = {0, U'a', U'Z', U'-', U'.', 0x7F, 0x80, 0xAD, 0xDF, 0xFC, 0x301, 0x308, 0x323, 0x345, 0x5D0, 0x627, 0x628, 0x661, 0x94D, 0x1100, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0x200C, 0x200D, 0xAC00, 0xAC01, 0xD7A3, 0xD800, 0xFDFA, 0xFFFF, 0x10000, 0x1D15E, 0x2F800, 0xE0100, 0x10FFFF, 0x110000, 0xFFFFFFFF};
  Words w(A.size(), 3);
  f.push_back({"all sequences of <= 3 of " + std::to_string(A.size()) + " code points", w.total, [w](uint64_t i, hx::Rec& r) {
                 U32 s;
                 for (auto k : w.get(i)) s.push_back(A[k]);
                 r.in32(s); all(4, 7, s.data(), s.size(), r);
               }});
  f.push_back({"every value 0..0x120000", uint64_t(0x120000) * (th ? 2 : 1), [th](uint64_t i, hx::Rec& r) {
                 U32 s = th && i % 2 ? U32(U"\u0628\u200C") : U32();
                 s.push_back(char32_t(th ? i / 2 : i));
                 r.in32(s); all(4, 7, s.data(), s.size(), r);
               }});
  f.push_back({"repetitions: each code point x lengths 0..200", 40 * 201, [](uint64_t i, hx::Rec& r) {
                 U32 s(i / 40, A[i % 40]);
                 r.in32(s); all(4, 7, s.data(), s.size(), r);
               }, 8});
  return hx::run(argc, argv, f);
}
