// Reference models for ada::idna, written from the published specifications
// (UTS #46 r33+, UAX #15, RFC 3492, RFC 5892 App. A, RFC 5893, RFC 3629/Unicode
// table 3-7, WHATWG URL "domain to ASCII", ECMA-262 identifiers) over
// refdata/ucd17.txt. Deliberately boring: no sharing with the library's
// algorithms or tables.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace ref {
using U32 = std::u32string;
using U32v = std::u32string_view;

enum Bidi : uint8_t { bNONE, bL, bR, bAL, bAN, bEN, bES, bET, bCS, bNSM, bBN, bON, bB, bS, bWS, bOTHER };
enum Status : uint8_t { sDISALLOWED, sVALID, sIGNORED, sMAPPED };

constexpr uint32_t MAXCP = 0x110000;
struct Data {
  std::vector<uint8_t> status, bidi, joining, ccc, mark, ids, idc;
  std::map<char32_t, U32> mapping, nfd, nfc1;
  std::map<std::pair<char32_t, char32_t>, char32_t> compose;
};
inline Data D;

inline U32 hexlist(const char* s) {
  U32 r;
  while (*s) {
    char* e;
    unsigned long v = strtoul(s, &e, 16);
    if (e == s) break;
    r.push_back(char32_t(v));
    s = e;
  }
  return r;
}

inline bool is_scalar(uint32_t c) { return c < 0xD800 || (c > 0xDFFF && c < MAXCP); }

inline void load(const char* path) {
  D.status.assign(MAXCP, sDISALLOWED);
  D.bidi.assign(MAXCP, bNONE);
  D.joining.assign(MAXCP, 'U');
  D.ccc.assign(MAXCP, 0);
  D.mark.assign(MAXCP, 0);
  D.ids.assign(MAXCP, 0);
  D.idc.assign(MAXCP, 0);
  FILE* f = fopen(path, "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(3); }
  char line[4096];
  static const std::map<std::string, Bidi> bn = {
      {"L", bL}, {"R", bR}, {"AL", bAL}, {"AN", bAN}, {"EN", bEN}, {"ES", bES}, {"ET", bET},
      {"CS", bCS}, {"NSM", bNSM}, {"BN", bBN}, {"ON", bON}, {"B", bB}, {"S", bS}, {"WS", bWS}};
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    line[strcspn(line, "\n")] = 0;
    char kind = line[0];
    char* p = line + 1;
    uint32_t lo = strtoul(p, &p, 16), hi = strtoul(p, &p, 16);
    while (*p == ' ') p++;
    for (uint32_t c = lo; c <= hi; c++) {
      switch (kind) {
        case 'M':
          if (*p == 'V') D.status[c] = sVALID;
          else if (*p == 'I') D.status[c] = sIGNORED;
          else { D.status[c] = sMAPPED; D.mapping[c] = hexlist(p + 1); }
          break;
        case 'B': { auto it = bn.find(p); D.bidi[c] = it == bn.end() ? bOTHER : it->second; break; }
        case 'J': D.joining[c] = uint8_t(*p); break;
        case 'C': D.ccc[c] = uint8_t(atoi(p)); break;
        case 'D': D.nfd[c] = hexlist(p); break;
        case 'N': D.nfc1[c] = hexlist(p); break;
        case 'G': D.mark[c] = 1; break;
        case 'S': D.ids[c] = 1; break;
        case 'K': D.idc[c] = 1; break;
      }
    }
  }
  fclose(f);
  // Primary composites: characters whose NFC is themselves and whose full
  // decomposition has >= 2 code points; first = composition of all but the last.
  // Compute by increasing decomposition length.
  std::vector<std::pair<char32_t, U32>> comps;
  for (auto& [c, d] : D.nfd)
    if (d.size() >= 2 && !D.nfc1.count(c)) comps.push_back({c, d});
  std::sort(comps.begin(), comps.end(), [](auto& a, auto& b) { return a.second.size() < b.second.size(); });
  std::map<U32, char32_t> byd;
  for (auto& [c, d] : comps) byd[d] = c;
  for (auto& [c, d] : comps) {
    U32 head = d.substr(0, d.size() - 1);
    char32_t first;
    if (head.size() == 1) first = head[0];
    else {
      auto it = byd.find(head);
      if (it == byd.end()) { fprintf(stderr, "refdata: no head for %X\n", unsigned(c)); exit(3); }
      first = it->second;
    }
    D.compose[{first, d.back()}] = c;
  }
}

// ---------------------------------------------------------------- UTF-8
// Unicode table 3-7, byte by byte.
inline std::optional<U32> utf8_decode(std::string_view s) {
  U32 out;
  size_t i = 0, n = s.size();
  auto b = [&](size_t k) -> unsigned { return k < n ? (unsigned char)s[k] : 0x100u; };
  auto in = [](unsigned x, unsigned lo, unsigned hi) { return x >= lo && x <= hi; };
  while (i < n) {
    unsigned a = b(i);
    if (a <= 0x7F) { out.push_back(a); i += 1; }
    else if (in(a, 0xC2, 0xDF)) {
      if (!in(b(i + 1), 0x80, 0xBF)) return {};
      out.push_back((a - 0xC0) * 64 + (b(i + 1) - 0x80)); i += 2;
    } else if (in(a, 0xE0, 0xEF)) {
      unsigned lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
      if (!in(b(i + 1), lo, hi) || !in(b(i + 2), 0x80, 0xBF)) return {};
      out.push_back((a - 0xE0) * 4096 + (b(i + 1) - 0x80) * 64 + (b(i + 2) - 0x80)); i += 3;
    } else if (in(a, 0xF0, 0xF4)) {
      unsigned lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
      if (!in(b(i + 1), lo, hi) || !in(b(i + 2), 0x80, 0xBF) || !in(b(i + 3), 0x80, 0xBF)) return {};
      out.push_back((a - 0xF0) * 262144 + (b(i + 1) - 0x80) * 4096 + (b(i + 2) - 0x80) * 64 + (b(i + 3) - 0x80));
      i += 4;
    } else return {};
  }
  return out;
}
inline void utf8_put(std::string& o, char32_t c) {
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xC0 + c / 64); o += char(0x80 + c % 64); }
  else if (c < 0x10000) { o += char(0xE0 + c / 4096); o += char(0x80 + c / 64 % 64); o += char(0x80 + c % 64); }
  else { o += char(0xF0 + c / 262144); o += char(0x80 + c / 4096 % 64); o += char(0x80 + c / 64 % 64); o += char(0x80 + c % 64); }
}
// Encodes scalar values; nullopt when some value is not a Unicode scalar value.
inline std::optional<std::string> utf8_encode(U32v s) {
  std::string o;
  for (char32_t c : s) { if (!is_scalar(c)) return {}; utf8_put(o, c); }
  return o;
}
inline bool all_ascii(std::string_view s) { for (unsigned char c : s) if (c >= 0x80) return false; return true; }
inline bool all_ascii(U32v s) { for (char32_t c : s) if (c >= 0x80) return false; return true; }
inline std::string ascii_lower(std::string_view s) {
  std::string o(s);
  for (char& c : o) if (c >= 'A' && c <= 'Z') c = char(c + 32);
  return o;
}

// ---------------------------------------------------------------- mapping
inline std::optional<U32> map(U32v s) {
  U32 o;
  for (char32_t c : s) {
    if (c >= MAXCP) return {};
    switch (D.status[c]) {
      case sVALID: o.push_back(c); break;
      case sIGNORED: break;
      case sMAPPED: o += D.mapping[c]; break;
      default: return {};
    }
  }
  return o;
}

// ---------------------------------------------------------------- NFC (UAX #15)
inline uint8_t ccc(char32_t c) { return c < MAXCP ? D.ccc[c] : 0; }
inline U32 nfd(U32v s) {
  U32 o;
  for (char32_t c : s) {
    if (c >= 0xAC00 && c < 0xAC00 + 11172) {
      unsigned x = c - 0xAC00;
      o.push_back(0x1100 + x / 588);
      o.push_back(0x1161 + x % 588 / 28);
      if (x % 28) o.push_back(0x11A7 + x % 28);
    } else {
      auto it = D.nfd.find(c);
      if (it != D.nfd.end()) o += it->second; else o.push_back(c);
    }
  }
  // Canonical ordering: stable sort of each maximal run of non-starters.
  for (size_t i = 0; i < o.size();) {
    if (ccc(o[i]) == 0) { i++; continue; }
    size_t j = i;
    while (j < o.size() && ccc(o[j]) != 0) j++;
    std::stable_sort(o.begin() + i, o.begin() + j, [](char32_t a, char32_t b) { return ccc(a) < ccc(b); });
    i = j;
  }
  return o;
}
inline char32_t compose_pair(char32_t a, char32_t b) {
  if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
  if (a >= 0xAC00 && a < 0xAC00 + 11172 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3) return a + (b - 0x11A7);
  auto it = D.compose.find({a, b});
  return it == D.compose.end() ? 0 : it->second;
}
inline U32 nfc(U32v s) {
  U32 d = nfd(s), o;
  size_t starter = SIZE_MAX;  // index in o of the last starter
  int between = -1;           // greatest ccc after it, all of them marks
  for (char32_t c : d) {
    // c is blocked from the starter if some character in between is a
    // starter or has ccc >= ccc(c).
    if (starter != SIZE_MAX && between < int(ccc(c))) {
      if (char32_t m = compose_pair(o[starter], c)) { o[starter] = m; continue; }
    }
    if (ccc(c) == 0) { starter = o.size(); between = -1; }
    else between = std::max(between, int(ccc(c)));
    o.push_back(c);
  }
  return o;
}

// ---------------------------------------------------------------- Punycode (RFC 3492)
enum class P { ok, fail, overflow };  // overflow: exact arithmetic needs more than 31 bits
inline uint64_t adapt(uint64_t delta, uint64_t numpoints, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / numpoints;
  uint64_t k = 0;
  while (delta > 455) { delta /= 35; k += 36; }
  return k + 36 * delta / (delta + 38);
}
inline uint64_t thr(uint64_t k, uint64_t bias) { return k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; }
// input must be scalar values (P::fail otherwise)
inline P puny_encode(U32v in, std::string& out) {
  out.clear();
  for (char32_t c : in) if (!is_scalar(c)) return P::fail;
  for (char32_t c : in) if (c < 0x80) out += char(c);
  uint64_t b = out.size(), h = b, n = 128, delta = 0, bias = 72, pos = 0, old = 0;
  bool big = false;
  if (b) out += '-';
  while (h < in.size()) {
    uint64_t m = ~0ull;
    for (char32_t c : in) if (c >= n) m = std::min<uint64_t>(m, c);
    delta += (m - n) * (h + 1);
    if (delta > 0x7fffffff) big = true;
    n = m;
    pos = 0;
    for (char32_t c : in) {
      if (c < n) { delta++; pos++; if (delta > 0x7fffffff) big = true; }
      if (c == n) {
        if (old + delta > 0x7fffffff) big = true;  // the decoder adds to its position
        old = ++pos;
        uint64_t q = delta;
        for (uint64_t k = 36;; k += 36) {
          uint64_t t = thr(k, bias);
          if (q < t) break;
          uint64_t d = t + (q - t) % (36 - t);
          out += char(d < 26 ? 'a' + d : '0' + d - 26);
          q = (q - t) / (36 - t);
        }
        out += char(q < 26 ? 'a' + q : '0' + q - 26);
        bias = adapt(delta, h + 1, h == b);
        delta = 0;
        h++;
      }
    }
    delta++;
    n++;
  }
  return big ? P::overflow : P::ok;
}
// Lower-case digits only. overflow = value needs more than 31 bits somewhere.
inline P puny_decode(std::string_view in, U32& out) {
  out.clear();
  uint64_t n = 128, i = 0, bias = 72;
  size_t pos = 0;
  size_t d = in.rfind('-');
  // RFC 3492 6.2: "let b = the number of input code points before the last
  // delimiter, or 0 if there is none ... if b > 0 then consume the delimiter"
  if (d != std::string_view::npos && d > 0) {
    for (size_t k = 0; k < d; k++) {
      if ((unsigned char)in[k] >= 0x80) return P::fail;
      out.push_back((unsigned char)in[k]);
    }
    pos = d + 1;
  }
  const unsigned __int128 lim = 0x7fffffff;
  bool big = false;
  while (pos < in.size()) {
    unsigned __int128 ii = i, w = 1;
    uint64_t oldi = i;
    for (uint64_t k = 36;; k += 36) {
      if (pos >= in.size()) return P::fail;
      unsigned char c = (unsigned char)in[pos++];
      int digit = c >= 'a' && c <= 'z' ? c - 'a' : c >= '0' && c <= '9' ? c - '0' + 26 : -1;
      if (digit < 0) return P::fail;
      ii += digit * w;
      if (ii > lim) big = true;
      if (ii > (unsigned __int128)1 << 62) { // saturate, result is overflow or fail anyway
        ii = (unsigned __int128)1 << 62;
      }
      uint64_t t = thr(k, bias);
      if ((uint64_t)digit < t) break;
      w *= 36 - t;
      if (w > lim) big = true;
      if (w > (unsigned __int128)1 << 62) w = (unsigned __int128)1 << 62;
    }
    i = (uint64_t)ii;
    if (big) {  // keep scanning for syntax errors only
      // remaining symbols: cannot evaluate meaningfully
      return P::overflow;
    }
    uint64_t len = out.size() + 1;
    bias = adapt(i - oldi, len, oldi == 0);
    n += i / len;
    if (n > lim) return P::overflow;
    i %= len;
    out.insert(out.begin() + i, char32_t(n));
    i++;
  }
  return P::ok;
}

// ---------------------------------------------------------------- label validity
inline bool contextj(U32v l) {
  for (size_t i = 0; i < l.size(); i++) {
    if (l[i] != 0x200C && l[i] != 0x200D) continue;
    if (i > 0 && ccc(l[i - 1]) == 9) continue;
    if (l[i] == 0x200D) return false;
    auto jt = [&](size_t k) { return l[k] < MAXCP ? D.joining[l[k]] : uint8_t('U'); };
    size_t a = i, b = i + 1;
    while (a > 0 && jt(a - 1) == 'T') a--;
    if (a == 0 || !(jt(a - 1) == 'L' || jt(a - 1) == 'D')) return false;
    while (b < l.size() && jt(b) == 'T') b++;
    if (b == l.size() || !(jt(b) == 'R' || jt(b) == 'D')) return false;
  }
  return true;
}
inline uint8_t bidi(char32_t c) { return c < MAXCP ? D.bidi[c] : uint8_t(bNONE); }
inline bool is_rtl(U32v l) {
  for (char32_t c : l) if (bidi(c) == bR || bidi(c) == bAL || bidi(c) == bAN) return true;
  return false;
}
inline bool bidi_rule(U32v l) {
  if (l.empty()) return true;
  auto f = bidi(l[0]);
  if (f != bL && f != bR && f != bAL) return false;  // 1
  bool rtl = f != bL;
  bool en = false, an = false;
  for (char32_t c : l) {
    auto d = bidi(c);
    bool ok = d == bEN || d == bES || d == bCS || d == bET || d == bON || d == bBN || d == bNSM ||
              (rtl ? (d == bR || d == bAL || d == bAN) : d == bL);  // 2, 5
    if (!ok) return false;
    en |= d == bEN;
    an |= d == bAN;
  }
  if (rtl && en && an) return false;  // 4
  size_t e = l.size();
  while (e > 0 && bidi(l[e - 1]) == bNSM) e--;
  if (e == 0) return false;
  auto d = bidi(l[e - 1]);
  return rtl ? (d == bR || d == bAL || d == bEN || d == bAN) : (d == bL || d == bEN);  // 3, 6
}
// Validity criteria that do not depend on the rest of the domain, for a
// non-empty label (UTS46 4.1 criteria 1, 4-8 with CheckHyphens=false, CheckJoiners=true).
inline bool label_ok_no_bidi(U32v l) {
  if (l.empty()) return true;
  if (U32(l) != nfc(l)) return false;
  if (l.size() >= 4 && l.substr(0, 4) == U"xn--") return false;
  if (l[0] < MAXCP && D.mark[l[0]]) return false;
  for (char32_t c : l)
    if (c >= MAXCP || D.status[c] != sVALID || c == '.') return false;
  return contextj(l);
}
// The library's per-label predicate: bidi rule applied when the label itself is RTL.
inline bool label_valid_alone(U32v l) {
  if (l.empty()) return true;
  if (l[0] < MAXCP && D.mark[l[0]]) return false;
  if (!contextj(l)) return false;
  return !is_rtl(l) || bidi_rule(l);
}

// ---------------------------------------------------------------- to_ascii
struct Ascii { bool ok; std::string out; bool overflow = false; };
inline std::vector<U32> split(U32v s) {
  std::vector<U32> r(1);
  for (char32_t c : s) if (c == '.') r.emplace_back(); else r.back().push_back(c);
  return r;
}
inline Ascii to_ascii(std::string_view s) {
  if (s.size() > 16384) return {false, {}};
  if (all_ascii(s)) return {true, ascii_lower(s)};
  auto u = utf8_decode(s);
  if (!u) return {false, {}};
  auto m = map(*u);
  if (!m) return {false, {}};
  U32 n = nfc(*m);
  std::vector<U32> labels = split(n), ulabels;
  bool overflow = false;
  std::string out;
  bool first = true;
  for (auto& l : labels) {
    if (!first) out += '.';
    first = false;
    U32 ul = l;
    if (l.substr(0, 4) == U"xn--") {
      std::string a;
      for (char32_t c : l) { if (c >= 0x80) return {false, {}}; a += char(c); }
      P p = puny_decode(std::string_view(a).substr(4), ul);
      if (p == P::fail) return {false, {}};
      if (p == P::overflow) return {false, {}};  // no scalar values beyond 31 bits of delta... see note
      if (ul.empty() || all_ascii(ul)) return {false, {}};
      if (!label_ok_no_bidi(ul)) return {false, {}};
      out += a;
    } else {
      if (!label_ok_no_bidi(l)) return {false, {}};
      if (all_ascii(l)) for (char32_t c : l) out += char(c);
      else {
        std::string a;
        if (puny_encode(l, a) == P::overflow) overflow = true;
        out += "xn--" + a;
      }
    }
    ulabels.push_back(ul);
  }
  bool bd = false;
  for (auto& l : ulabels) bd |= is_rtl(l);
  if (bd) for (auto& l : ulabels) if (!bidi_rule(l)) return {false, {}};
  return {true, out, overflow};
}
// Label-wise ToUnicode as documented by the library: only lower-case ASCII
// "xn--" labels are decoded; everything that does not validate is kept.
inline std::optional<U32> a_label_decode(std::string_view l) {
  if (l.substr(0, 4) != "xn--" || !all_ascii(l)) return {};
  U32 u;
  if (puny_decode(l.substr(4), u) != P::ok) return {};
  if (u.empty() || all_ascii(u) || !label_ok_no_bidi(u)) return {};
  if (is_rtl(u) && !bidi_rule(u)) return {};
  return u;
}
inline std::optional<std::string> to_unicode(std::string_view s) {
  if (s.size() > 16384) return {};
  std::string out;
  size_t i = 0;
  for (;;) {
    size_t j = s.find('.', i);
    std::string_view l = s.substr(i, j == std::string_view::npos ? j : j - i);
    if (auto u = a_label_decode(l)) out += *utf8_encode(*u); else out += l;
    if (j == std::string_view::npos) break;
    out += '.';
    i = j + 1;
  }
  return out;
}
inline bool forbidden_domain(unsigned char c) {
  if (c <= 0x1F || c == 0x7F || c >= 0x80) return c <= 0x1F || c == 0x7F || c >= 0x80;
  return c == ' ' || c == '#' || c == '%' || c == '/' || c == ':' || c == '<' || c == '>' || c == '?' || c == '@' ||
         c == '[' || c == '\\' || c == ']' || c == '^' || c == '|';
}
inline bool name_code_point(uint32_t c, bool first) {
  if (!is_scalar(c)) return false;
  if (first) return c == '$' || c == '_' || D.ids[c];
  return c == '$' || c == 0x200C || c == 0x200D || D.idc[c];
}
}  // namespace ref
