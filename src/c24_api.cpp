// A user's program: it sees the public header alone and is compiled apart from
// the library. Every public function is called; the
// results are printed for comparison between the builds.
#include API_HEADER
#include API_HEADER
#include <cstdio>
#include <string>
namespace I = ada::idna;
using SV = std::string_view;
using UV = std::u32string_view;
#ifdef API_SECOND_UNIT  // the header is usable from more than one unit of a program
size_t second_unit() {
  std::string o;
  std::u32string v;
  size_t n = I::max_domain_input_bytes + I::is_ascii(SV("a")) + I::is_ascii(UV(U"\u00e4")) + I::to_ascii("\xC3\xA4", o) + I::map(U"A", v);
  return n + o.size() + v.size();
}
#else
size_t second_unit();
static void show(const char* w, SV s) { printf("%s:", w); for (unsigned char c : s) printf("%02x", c); printf("\n"); }
static void show(const char* w, UV s) { printf("%s:", w); for (char32_t c : s) printf("%x,", unsigned(c)); printf("\n"); }
static void show(const char* w, bool b) { printf("%s:%d\n", w, b); }
static void show(const char* w, size_t b) { printf("%s:%zu\n", w, b); }
int main() {
  std::string o;
  std::u32string v;
  for (SV s : {SV(""), SV("B\xC3\xBC" "cher.De"), SV("xn--bcher-kva.de"), SV("xn--a"), SV("\xE2\x80\x8D" "a"), SV("a b"), SV("\xff")}) {
    show("to_ascii", I::to_ascii(s, o)); show("out", SV(o)); show("value", SV(I::to_ascii(s)));
    show("to_unicode", I::to_unicode(s, o)); show("out", SV(o)); show("value", SV(I::to_unicode(s)));
    show("forbidden", I::contains_forbidden_domain_code_point(s));
    show("is_ascii", I::is_ascii(s));
    show("verify", I::verify_punycode(s));
    v.clear();
    bool k = I::punycode_to_utf32(s, v); show("decode", k); if (k) show("out", UV(v));
    size_t n = I::utf32_length_from_utf8(s.data(), s.size()); show("length", n);
    v.assign(n, 0); show("utf32", I::utf8_to_utf32(s.data(), s.size(), v.data()));
    o.assign(s); for (char& c : o) c &= 0x7f; I::ascii_map(o.data(), o.size()); show("lower", SV(o));
  }
  for (UV s : {UV(U""), UV(U"A\u00c4\u0323"), UV(U"\u0301"), UV(U"\u05d0\u0661"), UV(U"\u2260\U0001F600"), UV(U"\u0378")}) {
    bool k = I::map(s, v); show("map", k); if (k) show("out", UV(v)); show("value", UV(I::map(s)));
    show("nfc", I::is_already_nfc(s));
    v.assign(s); show("normalize", I::normalize(v)); show("out", UV(v));
    show("valid", I::is_label_valid(s));
    show("is_ascii", I::is_ascii(s));
    o.clear(); k = I::utf32_to_punycode(s, o); show("encode", k); if (k) show("out", SV(o));
    size_t n = I::utf8_length_from_utf32(s.data(), s.size()); show("length", n);
    o.assign(n, 0); show("utf8", I::utf32_to_utf8(s.data(), s.size(), o.data())); show("out", SV(o));
    for (char32_t c : s) { show("start", I::valid_name_code_point(c, true)); show("continue", I::valid_name_code_point(c, false)); }
  }
  show("second unit", second_unit());
  return 0;
}
#endif
