// C03: output contract of the two domain conversions.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void eval(const std::string& in, uint64_t i, hx::Rec& r) {
  std::string keep = in;
  std::string out, out2;
  static const std::string junk(40000, '\xC3');
  switch (i % 5) {  // previous content of the output
    case 0: out2 = "xn--stale.example"; break;
    case 1: out2.assign(300, 'Q'); break;
    case 2: out2 = junk; break;
    case 3: out2 = in; break;
    case 4: out2.reserve(64); out2 = "\xC3\xBC."; break;
  }
  std::string out3 = out2;
  bool ok = ada::idna::to_ascii(in, out), ok2 = ada::idna::to_ascii(in, out2);
  std::string s = ada::idna::to_ascii(in);
  r.call(3);
  if (ok) {
    for (unsigned char c : out) {
      if (c >= 0x80) r.fail("the result is not ASCII: " + hx::show8(out));
      else if (c >= 'A' && c <= 'Z') r.fail("the result is not lower case: " + hx::show8(out));
    }
    if (s != out) r.fail("string form " + hx::show8(s) + ", out-parameter form " + hx::show8(out));
  } else {
    if (!out.empty()) r.fail("failure leaves output " + hx::show8(out));
    if (!s.empty()) r.fail("out-parameter form fails but string form gives " + hx::show8(s));
  }
  if (ok2 != ok || out2 != out) r.fail("the result depends on the previous content of the output: " + hx::show8(out2) + " vs " + hx::show8(out));
  std::string u;
  bool uo = ada::idna::to_unicode(in, u), uo3 = ada::idna::to_unicode(in, out3);
  std::string us = ada::idna::to_unicode(in);
  r.call(3);
  if (uo3 != uo || out3 != u) r.fail("to_unicode depends on the previous content of the output: " + hx::show8(out3) + " vs " + hx::show8(u));
  if (uo ? us != u : us != in) r.fail("to_unicode forms disagree: " + hx::show8(us) + " vs " + hx::show8(u));
  if (!uo && !u.empty()) r.fail("a refused to_unicode leaves output");
  if (uo != (in.size() <= ada::idna::max_domain_input_bytes)) r.fail("to_unicode fails on an input within the limit");
  if (in != keep) r.fail("the input was modified");
  r.outcome(out);
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  for (auto& s : domain_spaces(thorough() ? 2 : 1)) {
    uint64_t n = s.n;
    f.push_back({s.name, n, [s](uint64_t i, hx::Rec& r) { static std::string b; s.get(i, b); r.in8(b); eval(b, i, r); }});
  }
  return hx::run(argc, argv, f);
}
