// One build configuration of the library behind a plain C interface.
#ifdef CFG_BIG
#include "c26_be.hpp"
#endif
#include CFG_SOURCE
#include <cstdint>
#include <cstring>
#include <string>
namespace I = ada::idna;
using SV = std::string_view;
using UV = std::u32string_view;
extern "C" __attribute__((visibility("default"))) long cfg_call(int fn, const void* in, size_t n, unsigned char* out, size_t cap) {
  SV s(static_cast<const char*>(in), n);
#ifdef CFG_BIG
  // the caller is little-endian: code points and numbers are exchanged as explicit bytes
  std::u32string ub;
  if (fn >= 4) {
    const unsigned char* q = static_cast<const unsigned char*>(in);
    for (size_t i = 0; i < n; i++) ub.push_back(char32_t(q[4 * i]) | char32_t(q[4 * i + 1]) << 8 | char32_t(q[4 * i + 2]) << 16 | char32_t(q[4 * i + 3]) << 24);
  }
  UV u(ub);
#else
  UV u(static_cast<const char32_t*>(in), n);
#endif
  size_t w = 0;
  auto put = [&](const void* p, size_t k) { if (w + k > cap) k = cap - w; if (k) memcpy(out + w, p, k); w += k; };
  auto flag = [&](bool b) { unsigned char c = b; put(&c, 1); };
  auto num = [&](uint64_t x) { for (int i = 0; i < 8; i++) { unsigned char c = (unsigned char)(x >> (8 * i)); put(&c, 1); } };
  auto put32 = [&](const char32_t* p, size_t k) {
    for (size_t i = 0; i < k; i++) { unsigned char c[4] = {(unsigned char)(p[i]), (unsigned char)(p[i] >> 8), (unsigned char)(p[i] >> 16), (unsigned char)(p[i] >> 24)}; put(c, 4); }
  };
  std::string o = "stale";
  std::u32string v = U"stale";
  switch (fn) {
    case 0: { bool k = I::to_ascii(s, o); flag(k); put(o.data(), o.size()); std::string q = I::to_ascii(s); if (q != o) flag(true); break; }
    case 1: { bool k = I::to_unicode(s, o); flag(k); put(o.data(), o.size()); break; }
    case 2: { flag(I::contains_forbidden_domain_code_point(s)); flag(I::verify_punycode(s)); bool k = I::punycode_to_utf32(s, v); flag(k); if (k) put32(v.data(), v.size()); break; }
    case 3: { size_t l = I::utf32_length_from_utf8(s.data(), s.size()); num(l); v.assign(l, 0); size_t m = I::utf8_to_utf32(s.data(), s.size(), v.data()); num(m); put32(v.data(), m); o.clear(); for (char c : s) if (!(c & 0x80)) o += c;  /* ascii_map is for ASCII */ I::ascii_map(o.data(), o.size()); put(o.data(), o.size()); break; }
    case 4: { bool k = I::map(u, v); flag(k); if (k) put32(v.data(), v.size()); break; }
    case 5: { v.assign(u); bool k = I::normalize(v); flag(k); if (k) put32(v.data(), v.size()); flag(I::is_already_nfc(u)); break; }
    case 6: { flag(I::is_label_valid(u)); for (size_t i = 0; i < n && i < 3; i++) { flag(I::valid_name_code_point(u[i], true)); flag(I::valid_name_code_point(u[i], false)); } break; }
    case 7: { o.clear(); bool k = I::utf32_to_punycode(u, o); flag(k); if (k) put(o.data(), o.size()); size_t l = I::utf8_length_from_utf32(u.data(), u.size()); num(l); o.assign(l, 0); size_t m = I::utf32_to_utf8(u.data(), u.size(), o.data()); num(m); put(o.data(), m); break; }
  }
  return long(w);
}
#ifdef CFG_BIG
extern "C" __attribute__((visibility("default"))) int cfg_is_big() { volatile unsigned x = 1; static const unsigned short t[2] = {0x0102, 3}; volatile const unsigned short* p = t; return *(volatile unsigned char*)&x == 0 && *(volatile const unsigned char*)p == 1; }
#endif
