// Included after the library.
#include "c32_batch.hpp"
namespace c32 {
template <class Env>
void big(const Big& b, Env& env, uint64_t* res) {
  namespace I = ada::idna;
  unsigned w = wide(b.kind) ? 4 : 1;
  size_t n = size_t(b.n);
  res[0] = res[1] = res[2] = res[3] = 0;
  char* p = env.repeat(n * w, b.unit, w);
  if (!p) { res[0] = ~0ull; return; }
  for (uint32_t i = 0; i < b.nspec; i++) {
    size_t at = size_t(b.pos[i]) * w;
    if (!env.own(p + at, w)) { res[0] = ~0ull; return; }
    if (w == 4) memcpy(p + at, &b.val[i], 4); else p[at] = char(b.val[i]);
  }
  std::string_view s(p, n);
  std::u32string_view u(reinterpret_cast<const char32_t*>(p), w == 4 ? n : 0);
  std::string o = "stale";
  std::u32string v = U"stale";
  auto ends = [&](const char* q, size_t k) { return hash(reinterpret_cast<const unsigned char*>(q), k < 4096 ? k : 4096) * 3 + hash(reinterpret_cast<const unsigned char*>(q) + (k < 4096 ? 0 : k - 4096), k < 4096 ? k : 4096); };
  auto u64 = [](auto x) { return uint64_t(x); };
  switch (b.kind) {
    case FORBIDDEN: res[0] = I::contains_forbidden_domain_code_point(s); break;
    case VERIFY: res[0] = I::verify_punycode(s); break;
    case ASCII_MAP: I::ascii_map(p, n); res[1] = ends(p, n); for (uint32_t i = 0; i < b.nspec; i++) res[2] = res[2] * 256 + (unsigned char)p[b.pos[i]]; break;
    case LEN8: res[0] = u64(I::utf32_length_from_utf8(p, n)); break;
    case LEN32: res[0] = u64(I::utf8_length_from_utf32(u.data(), n)); break;
    case TO_UTF8: case TO_UTF32: {
      size_t l = b.kind == TO_UTF8 ? I::utf8_length_from_utf32(u.data(), n) : I::utf32_length_from_utf8(p, n);
      res[0] = u64(l);
      char* q = env.repeat(b.kind == TO_UTF8 ? l : l * 4, 0, 1);
      if (!q) { res[0] = ~0ull; return; }
      if (b.kind == TO_UTF8) res[1] = u64(I::utf32_to_utf8(u.data(), n, q)); else res[1] = u64(I::utf8_to_utf32(p, n, reinterpret_cast<char32_t*>(q)));
      res[2] = ends(q, size_t(res[1]) * (b.kind == TO_UTF8 ? 1 : 4));
      break;
    }
    case TO_ASCII: res[0] = I::to_ascii(s, o); res[1] = o.size(); break;
    case TO_UNICODE: res[0] = I::to_unicode(s, o); res[1] = o.size(); break;
    case NFC: res[0] = I::is_already_nfc(u); break;
    case VALID: res[0] = I::is_label_valid(u); break;
    case MAP: res[0] = I::map(u, v); if (res[0]) { res[1] = v.size(); res[2] = ends(reinterpret_cast<const char*>(v.data()), v.size() * 4); } break;
    case TO_PUNY: o.clear(); res[0] = I::utf32_to_punycode(u, o); if (res[0]) { res[1] = o.size(); res[2] = ends(o.data(), o.size()); } break;
    case FROM_PUNY: res[0] = I::punycode_to_utf32(s, v); if (res[0]) { res[1] = v.size(); res[2] = ends(reinterpret_cast<const char*>(v.data()), v.size() * 4); } break;
  }
}
}
