// C25: spelling variants of a domain have one A-form, and different domains
// have different A-forms.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void eval(const std::string& in, hx::Rec& r) {
  auto u = ref::utf8_decode(in);
  if (!u || in.size() > 5000) return;
  auto m = ref::map(*u);
  if (!m) return;
  U32 n = ref::nfc(*m);
  bool ascii_in = ref::all_ascii(in);
  std::string a;
  bool ok = ada::idna::to_ascii(in, a);
  r.call();
  r.outcome(a);
  std::string un = u8(n);
  bool ace = false;
  for (auto& l : ref::split(n)) ace |= l.substr(0, 4) == U"xn--";
  auto same = [&](const std::string& v, const char* what, bool allow_ascii) {
    if (r.bad || v.size() > 16384) return;
    bool va = ref::all_ascii(v);
    // ASCII domains with A-labels bypass validation: only the accepted ones agree
    std::string b;
    bool okb = ada::idna::to_ascii(v, b);
    r.call();
    if ((va || ascii_in) && ace && (!ok || !okb)) return;
    (void)allow_ascii;
    if (ok != okb || a != b) r.fail(std::string("converts to ") + (ok ? hx::show8(a) : "failure") + ", " + what + " " + hx::show8(v) + " converts to " + (okb ? hx::show8(b) : "failure"));
  };
  same(un, "its mapped form", true);
  // same mapped form by construction, whatever the spelling
  auto variant = [&](const U32& v, const char* what) {
    auto mv = ref::map(v);
    if (!mv || ref::nfc(*mv) != n) return;
    same(u8(v), what, true);
  };
  variant(ref::nfc(*u), "its composed form");
  variant(ref::nfd(*u), "its decomposed form");
  {
    U32 v;  // decompose, upper-case ASCII, ideographic dots
    for (char32_t c : ref::nfd(n)) v += c >= 'a' && c <= 'z' ? c - 32 : c == '.' ? char32_t(0x3002) : c;
    variant(v, "the upper-case decomposed form");
    U32 w;  // fullwidth
    for (char32_t c : n) w += c > 0x20 && c < 0x7F && c != '.' ? c + 0xFEE0 : c == '.' ? char32_t(0xFF0E) : c;
    variant(w, "the fullwidth form");
    U32 s;  // ignored characters
    for (size_t i = 0; i < n.size(); i++) { s += U'\u00AD'; s += n[i]; if (i % 2) s += U'\uFE0F'; }
    variant(s, "the form with ignored characters");
    U32 t = n;
    t += U'\u2060';
    variant(t, "the form with a trailing ignored character");
  }
  // injectivity: the A-form determines the mapped form
  if (ok && !(ascii_in && ace)) {
    std::vector<U32> labels = ref::split(n);
    std::vector<std::string> out(1);
    for (char c : a) if (c == '.') out.emplace_back(); else out.back() += c;
    if (out.size() != labels.size()) return r.fail("A-form " + hx::show8(a) + " has " + std::to_string(out.size()) + " labels");
    for (size_t i = 0; i < out.size(); i++) {
      U32 d;
      if (ref::all_ascii(labels[i])) { if (u8(labels[i]) != out[i]) r.fail("ASCII label " + hx::show32(labels[i]) + " became " + out[i]); continue; }
      if (out[i].substr(0, 4) != "xn--" || ref::puny_decode(std::string_view(out[i]).substr(4), d) != ref::P::ok || d != labels[i])
        return r.fail("label " + hx::show32(labels[i]) + " has A-form " + out[i] + ", which is another label's");
    }
  }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  std::vector<hx::Family> f;
  for (auto& s : domain_spaces(thorough() ? 2 : 1)) {
    uint64_t n = s.n;
    f.push_back({s.name, n, [s](uint64_t i, hx::Rec& r) { static std::string b; s.get(i, b); r.in8(b); eval(b, r); }});
  }
  return hx::run(argc, argv, f);
}
