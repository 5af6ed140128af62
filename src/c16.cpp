// C16: name code points are exactly the ECMAScript / Unicode identifier sets.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  f.push_back({"every code point 0..0x10FFFF, both positions", 0x110000, [](uint64_t i, hx::Rec& r) {
                 char32_t c = char32_t(i);
                 r.in32(U32v(&c, 1));
                 bool s = ada::idna::valid_name_code_point(c, true), p = ada::idna::valid_name_code_point(c, false);
                 r.call(2);
                 r.outcome(uint64_t(c) * 4 + s * 2 + p);
                 if (s != ref::name_code_point(c, true)) r.fail(std::string("as first code point: ") + (s ? "accepted" : "rejected"));
                 if (p != ref::name_code_point(c, false)) r.fail(std::string("as later code point: ") + (p ? "accepted" : "rejected"));
               }});
  f.push_back({"every 32-bit value above (65536 per evaluation)", 65536 - 0x11, [](uint64_t i, hx::Rec& r) {
                 for (uint32_t k = 0; k < 65536; k++) {
                   char32_t c = char32_t(((i + 0x11) << 16) | k);
                   bool s = ada::idna::valid_name_code_point(c, true), p = ada::idna::valid_name_code_point(c, false);
                   if (s || p) { r.in32(U32v(&c, 1)); return r.fail("a value beyond U+10FFFF is accepted"); }
                 }
                 r.call(131072); r.states(65536);
                 r.outcome(i + 0x110000);
                 char32_t c = char32_t((i + 0x11) << 16);
                 r.in32(U32v(&c, 1));
               }, 64});
  return hx::run(argc, argv, f);
}
