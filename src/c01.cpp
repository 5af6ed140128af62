// C01: to_ascii equals the UTS #46 / WHATWG reference on every domain.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void eval(std::string_view in, hx::Rec& r) {
  auto e = ref::to_ascii(in);
  std::string out;
  bool ok = ada::idna::to_ascii(in, out);
  r.call();
  r.outcome(out);
  if (e.overflow && !ok) return;  // punycode deltas beyond 31 bits: refusing is allowed
  if (ok != e.ok) r.fail(std::string("to_ascii ") + (ok ? "accepts (" + hx::show8(out) + ")" : "rejects") + ", UTS #46 " + (e.ok ? "gives " + hx::show8(e.out) : "rejects"));
  else if (ok && out != e.out) r.fail("to_ascii gives " + hx::show8(out) + ", UTS #46 gives " + hx::show8(e.out));
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  for (auto& s : domain_spaces(thorough() ? 2 : 1))
    f.push_back({s.name, s.n, [s](uint64_t i, hx::Rec& r) { static thread_local std::string b; s.get(i, b); r.in8(b); eval(b, r); }});
  return hx::run(argc, argv, f);
}
