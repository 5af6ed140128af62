// simdutf functions the library may use, following simdutf's documented contract.
#pragma once
#include <cstddef>
namespace simdutf {
inline size_t utf32_length_from_utf8(const char* p, size_t n) { size_t c = 0; for (size_t i = 0; i < n; i++) c += (static_cast<unsigned char>(p[i]) & 0xC0) != 0x80; return c; }
inline size_t utf8_length_from_utf32(const char32_t* p, size_t n) { size_t c = 0; for (size_t i = 0; i < n; i++) c += p[i] < 0x80 ? 1 : p[i] < 0x800 ? 2 : p[i] < 0x10000 ? 3 : 4; return c; }
// returns the number of code points written, 0 if the input is not valid UTF-8
inline size_t convert_utf8_to_utf32(const char* p, size_t n, char32_t* o) {
  size_t w = 0;
  for (size_t i = 0; i < n;) {
    unsigned c = static_cast<unsigned char>(p[i]);
    int k = c < 0x80 ? 0 : c < 0xC2 ? -1 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : c < 0xF5 ? 3 : -1;
    if (k < 0 || i + size_t(k) >= n) return 0;
    char32_t v = k == 0 ? c : c & (0x3Fu >> k);
    for (int j = 1; j <= k; j++) { unsigned d = static_cast<unsigned char>(p[i + size_t(j)]); if ((d & 0xC0) != 0x80) return 0; v = v << 6 | (d & 0x3F); }
    if ((k == 2 && v < 0x800) || (k == 3 && v < 0x10000) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return 0;
    o[w++] = v;
    i += size_t(k) + 1;
  }
  return w;
}
// returns the number of bytes written, 0 if the input is not valid UTF-32
inline size_t convert_utf32_to_utf8(const char32_t* p, size_t n, char* o) {
  size_t w = 0;
  for (size_t i = 0; i < n; i++) {
    char32_t c = p[i];
    if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
    if (c < 0x80) o[w++] = char(c);
    else if (c < 0x800) { o[w++] = char(0xC0 | c >> 6); o[w++] = char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o[w++] = char(0xE0 | c >> 12); o[w++] = char(0x80 | (c >> 6 & 63)); o[w++] = char(0x80 | (c & 63)); }
    else { o[w++] = char(0xF0 | c >> 18); o[w++] = char(0x80 | (c >> 12 & 63)); o[w++] = char(0x80 | (c >> 6 & 63)); o[w++] = char(0x80 | (c & 63)); }
  }
  return w;
}
// count code points / validate
inline size_t count_utf8(const char* p, size_t n) { return utf32_length_from_utf8(p, n); }
inline size_t count_utf32(const char32_t* p, size_t n) { return utf8_length_from_utf32(p, n); }
inline bool validate_ascii(const char* p, size_t n) { for (size_t i = 0; i < n; i++) if (static_cast<unsigned char>(p[i]) >= 0x80) return false; return true; }
inline bool validate_utf8(const char* p, size_t n) {
  for (size_t i = 0; i < n;) {
    char32_t o[4];
    unsigned c = static_cast<unsigned char>(p[i]);
    size_t k = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if (i + k > n || convert_utf8_to_utf32(p + i, k, o) == 0) return false;
    i += k;
  }
  return true;
}
inline bool validate_utf32(const char32_t* p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] > 0x10FFFF || (p[i] >= 0xD800 && p[i] < 0xE000)) return false; return true; }
// the input has to be valid; as in simdutf, nothing is checked except the end of the input
inline size_t convert_valid_utf8_to_utf32(const char* p, size_t n, char32_t* o) {
  size_t w = 0;
  for (size_t i = 0; i < n;) {
    unsigned c = static_cast<unsigned char>(p[i]);
    size_t k = c < 0x80 ? 0 : (c & 0xE0) == 0xC0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : (c & 0xF8) == 0xF0 ? 3 : 99;
    if (k == 99 || i + k >= n) return 0;
    char32_t v = k == 0 ? c : c & (0x3Fu >> k);
    for (size_t j = 1; j <= k; j++) v = v << 6 | (static_cast<unsigned char>(p[i + j]) & 0x3F);
    o[w++] = v;
    i += k + 1;
  }
  return w;
}
inline size_t convert_valid_utf32_to_utf8(const char32_t* p, size_t n, char* o) {
  size_t w = 0;
  for (size_t i = 0; i < n; i++) {
    char32_t c = p[i];
    if (c < 0x80) o[w++] = char(c);
    else if (c < 0x800) { o[w++] = char(0xC0 | c >> 6); o[w++] = char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o[w++] = char(0xE0 | c >> 12); o[w++] = char(0x80 | (c >> 6 & 63)); o[w++] = char(0x80 | (c & 63)); }
    else { o[w++] = char(0xF0 | c >> 18); o[w++] = char(0x80 | (c >> 12 & 63)); o[w++] = char(0x80 | (c >> 6 & 63)); o[w++] = char(0x80 | (c & 63)); }
  }
  return w;
}
enum error_code { SUCCESS = 0, HEADER_BITS, TOO_SHORT, TOO_LONG, OVERLONG, TOO_LARGE, SURROGATE, INVALID_BASE64_CHARACTER, BASE64_INPUT_REMAINDER, BASE64_EXTRA_BITS, OUTPUT_BUFFER_TOO_SMALL, OTHER };
struct result { error_code error; size_t count; };
inline result convert_utf8_to_utf32_with_errors(const char* p, size_t n, char32_t* o) { size_t w = convert_utf8_to_utf32(p, n, o); return n && !w ? result{OTHER, 0} : result{SUCCESS, w}; }
inline result convert_utf32_to_utf8_with_errors(const char32_t* p, size_t n, char* o) { size_t w = convert_utf32_to_utf8(p, n, o); return n && !w ? result{OTHER, 0} : result{SUCCESS, w}; }
}  // namespace simdutf
