// Bounded input spaces shared by the checks.
#pragma once
#include <algorithm>
#include <set>
#include "ref.hpp"
namespace gen {
using ref::U32;
using ref::U32v;
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
inline std::string u8(U32v s) { auto r = ref::utf8_encode(s); return r ? *r : std::string(); }
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
// All words of length 0..depth over an alphabet of n symbols, in order of length.
struct Words {
  uint64_t n; unsigned depth; uint64_t total = 0;
  Words(uint64_t n_, unsigned d) : n(n_), depth(d) { for (unsigned k = 0; k <= d; k++) total += ipow(n, k); }
  std::vector<uint32_t> get(uint64_t i) const {
    unsigned len = 0;
    while (i >= ipow(n, len)) { i -= ipow(n, len); len++; }
    std::vector<uint32_t> r(len);
    for (unsigned k = len; k-- > 0;) { r[k] = uint32_t(i % n); i /= n; }
    return r;
  }
};
// scalar values 0..1112063 -> code point
constexpr uint64_t NSCALAR = 0x110000 - 0x800;
inline char32_t scalar(uint64_t i) { return char32_t(i < 0xD800 ? i : i + 0x800); }

// One input space of domains (UTF-8 bytes).
struct Space { std::string name; uint64_t n; std::function<void(uint64_t, std::string&)> get; };

inline const std::vector<U32>& domain_alphabet() {
  static const std::vector<U32> a = {
      U"a", U"Z", U"-", U".", U"0", U"x", U"xn--", U"\u00DF", U"\u00FC", U"\u00C4",
      U"u", U"\u0308", U"\u0301", U"\u0323", U"\u3002", U"\uFF21", U"\u200C", U"\u200D", U"\u094D", U"\u0915",
      U"\u05D0", U"\u0627", U"\u0628", U"\u0661", U"\u00AD", U"\u0378", U"\u1100", U"\u1161", U"\u11A8", U"\uAC00",
      U"\uFDFA", U"\u0958", U"\u212B", U"\U00010400", U"\U0001F600", U" ", U"%", U"\u2024", U"tda", U"\u1E9E",
      U"\u2260", U"\u0338", U"=", U"xn--tda", U"xn--4db", U"XN--", U"\u064B", U"\u1F6B7", U"\U0001611E", U"\u0344"};
  return a;
}
inline const std::vector<std::string>& label_alphabet() {
  static std::vector<std::string> v = [] {
    std::vector<U32> l = {U"", U"a", U"A1", U"1", U"-", U"a-", U"1a", U"\u00FC", U"\u00FC1", U"\u05D0", U"\u05D01", U"1\u05D0",
                          U"a\u05D0", U"\u05D0a", U"\u0627\u0661", U"\u0661", U"\u0628\u200C\u0628", U"a\u200D", U"\u0301a",
                          U"xn--4db", U"xn--tda", U"xn--a", U"xn--", U"xn--u-ccb", U"xn--xn---epa", U"\u0915\u094D\u200D\u0915", U"\u0378",
                          U"xn--4-zhc", U"XN--4DB", U"\u00AD", U"\u05D0\u0301", U"\u05D0-", U"_", U"\u2260"};
    std::vector<std::string> r;
    for (auto& x : l) r.push_back(u8(x));
    return r;
  }();
  return v;
}

// UTF-8 boundary bytes: every class edge of table 3-7.
inline const std::vector<uint8_t>& utf8_bytes() {
  static const std::vector<uint8_t> b = {0x00, 0x41, 0x61, 0x2E, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3,
                                         0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF};
  return b;
}

inline std::vector<char32_t> interesting() {  // one representative per combination of properties used by the pipeline
  std::map<std::vector<int>, int> seen;
  std::vector<char32_t> r;
  using namespace ref;
  for (uint32_t c = 0x80; c < MAXCP; c++) {
    if (!is_scalar(c)) continue;
    std::vector<int> k = {D.status[c], D.bidi[c], D.joining[c], D.ccc[c], D.mark[c], int(D.nfd.count(c)), int(D.nfc1.count(c)),
                          c < 0x800 ? 2 : c < 0x10000 ? 3 : 4};
    if (D.status[c] == sMAPPED) {
      auto& m = D.mapping[c];
      k.push_back(int(m.size() > 3 ? 3 : m.size()));
      k.push_back(all_ascii(m));
    }
    if (seen[k]++ < 1) r.push_back(c);
  }
  return r;
}

inline std::string pattern(size_t kind, size_t n) {
  // label bodies of n code points used in length sweeps
  static const std::vector<std::vector<char32_t>> p = {
      {U'a'}, {0xFC}, {U'a', 0xFC}, {0xFC, U'a', U'b', U'c'}, {0x10400 + 0x28, U'q'}, {0x4E00, 0x4E01, 0x10FFF, U'z'}, {0x5D0}, {U'A', 0xC4}};
  U32 s;
  auto& q = p[kind % p.size()];
  for (size_t i = 0; i < n; i++) s.push_back(q[i % q.size()] == 0x10FFF ? char32_t(0x20000 + i % 500) : q[i % q.size()] == 0x4E00 ? char32_t(0x4E00 + (i * 37) % 20000) : q[i % q.size()]);
  return u8(s);
}
constexpr size_t NPATTERN = 8;

// Sizes up to max at which a counter, a buffer or a limit could give out: everything
// small, the neighbourhood of every power of two, and steps of at most 30 % between.
inline std::vector<uint32_t> ladder(uint32_t max, uint32_t from = 1) {
  std::vector<uint32_t> v;
  for (uint64_t i = from; i <= max; i++) {
    uint64_t p = 1;
    while (p * 2 <= i + 2) p *= 2;
    bool near = i + 2 >= p && i <= p + 2;
    if (i <= 20 || near || i + 3 > max || v.empty() || double(i) >= v.back() * 1.3) v.push_back(uint32_t(i));
  }
  return v;
}
// A core before, after, between and on both sides of n copies of a filler.
struct Long {
  std::vector<U32> cores, fillers;
  std::vector<uint32_t> sizes;
  uint64_t total() const { return uint64_t(cores.size()) * fillers.size() * sizes.size() * 4; }
  void get(uint64_t i, U32& s) const {
    unsigned lay = unsigned(i % 4); i /= 4;
    const U32& c = cores[i % cores.size()]; i /= cores.size();
    const U32& f = fillers[i % fillers.size()]; i /= fillers.size();
    uint32_t n = sizes[i];
    s.clear();
    auto rep = [&](uint32_t k) { if (f.size() == 1) s.append(k, f[0]); else for (uint32_t j = 0; j < k; j++) s += f[j % f.size()]; };
    if (lay == 0) { s += c; rep(n); }
    else if (lay == 1) { rep(n); s += c; }
    else if (lay == 2) { rep(n); s += c; rep(n); }
    else { s += c; rep(n); s += c; }
  }
};

// Pairs of labels that a length, a prefix, a set of characters, a narrow copy or a simple hash would take for the same.
inline const std::vector<std::pair<U32, U32>>& lookalikes() {
  static std::vector<std::pair<U32, U32>> v;
  if (!v.empty()) return v;
  static const U32 base[] = {
      U"\u00FC", U"\u00FCa", U"a\u00FC", U"b\u00FCcher", U"\u00DF\u00DF", U"\u05D0", U"\u05D0\u05D1", U"\u05D01", U"a1\u00FC", U"\u0628\u200C\u0628", U"\u0915\u094D\u200D\u0915", U"\u0915\u094D\u200C",
      U"\u4E2D\u6587", U"\u4E2D\u6587\u5B57\u6BCD", U"a\u0323\u0302", U"q\u0323\u0307", U"\u00E4-\u00F6", U"\u00E41", U"ab\u0301c\u0323", U"\u0627\u0661", U"\u06271", U"\u0E01\u0E34\u0E01", U"\u0418\u0439", U"\u03B1\u03C2",
      U"\U00010428\U00020000", U"\uAC00\uAC01", U"\u0433\u0434\u0435\u0436\u0437", U"\u00FC-a-b-c", U"caf\u00E9", U"\u00E0\u00E1\u00E2\u00E3", U"\u0103\u0104\u0105"};
  static const char32_t repl[] = {U'a', U'b', U'z', U'0', U'1', U'-', U'A', 0xFC, 0xDC, 0xE4, 0x5D0, 0x661, 0x628, 0x301, 0x323, 0x94D, 0x200C, 0x200D, 0xAD, 0x378, 0x3002, 0x212B, 0x4E00, 0x10428, 0x2260};
  std::set<std::pair<U32, U32>> seen;
  for (auto& s : base) {
    auto add = [&](U32 t) { for (char32_t c : t) if (!ref::is_scalar(c)) return; if (t != s && !t.empty() && seen.insert({s, t}).second) { v.push_back({s, t}); v.push_back({t, s}); } };
    U32 t = s;
    if (s.size() <= 4) { std::sort(t.begin(), t.end()); do add(t); while (std::next_permutation(t.begin(), t.end())); }
    add(U32(s.rbegin(), s.rend()));
    add(s + s); add(s.substr(1)); add(s.substr(0, s.size() - 1)); add(s + s.back()); add(s[0] + s);
    for (size_t i = 0; i < s.size(); i++) {
      for (size_t j = i + 1; j < s.size(); j++) {
        t = s; std::swap(t[i], t[j]); add(t);
        for (uint32_t d : {1, 2, 16, 31, 256}) {
          t = s; t[i] += d; t[j] -= d; add(t);
          t = s; t[i] -= d; t[j] += d; add(t);
          t = s; t[i] ^= d; t[j] ^= d; add(t);
        }
      }
      for (uint32_t m : {31, 33, 37, 131, 257}) if (i + 1 < s.size()) {
        t = s; t[i] -= 1; t[i + 1] += m; add(t);
        t = s; t[i] += 1; t[i + 1] -= m; add(t);
      }
      for (char32_t c : repl) { t = s; t[i] = c; add(t); t = s; t.insert(i, 1, c); if (i % 2 == 0) add(t); }
      for (uint32_t d : {1, 2, 0x20, 0x80, 0x100, 0x1000, 0x10000, 0x100000}) { t = s; t[i] ^= d; add(t); }
      t = s; t.erase(i, 1); add(t);
    }
  }
  return v;
}
// The same for payloads of A-labels.
inline const std::vector<std::pair<std::string, std::string>>& payload_lookalikes() {
  static std::vector<std::pair<std::string, std::string>> v;
  if (!v.empty()) return v;
  static const U32 base[] = {U"\u00FC", U"b\u00FCcher", U"\u05D0\u05D1", U"\u4E2D\u6587\u5B57", U"a1\u00FC", U"\u0628\u200C\u0628", U"\u0915\u094D\u200D\u0915", U"caf\u00E9-olA", U"ab\u0323c", U"\u0433\u0434\u0435\u0436\u0437", U"long-label-with-\u00E9-inside"};
  for (auto& s : base) {
    std::string p;
    ref::puny_encode(s, p);
    auto add = [&](const std::string& t) { if (t != p) { v.push_back({p, t}); v.push_back({t, p}); } };
    for (size_t i = 0; i < p.size(); i++) {
      for (char c : std::string("abcdefghijklmnopqrstuvwxyz0123456789-!_A")) { std::string t = p; t[i] = c; add(t); }
      for (size_t j = i + 1; j < p.size(); j++) { std::string t = p; std::swap(t[i], t[j]); add(t); for (char c : {'a', 'z', '0', '9', '-', '!'}) { t = p; t[i] = c; t[j] = c; add(t); } }
    }
    for (size_t n = 1; n < 5 && n < p.size(); n++) for (char c : {'a', 'k', 'z', '0', '9', '!'}) { std::string t = p; for (size_t k = 0; k < n; k++) t[t.size() - 1 - k] = c; add(t); }
  }
  return v;
}
inline Space related_labels() {
  auto &a = lookalikes();
  auto &b = payload_lookalikes();
  uint64_t n = a.size() * 4;
  return {"domains of two related labels (permuted, edited, same length / sum / hash)", n + b.size() * 3, [&a, &b, n](uint64_t i, std::string& o) {
            auto ace = [](U32v s) { std::string p; if (ref::all_ascii(s) || ref::puny_encode(s, p) != ref::P::ok) return u8(s); return "xn--" + p; };
            if (i < n) {
              auto& x = a[i / 4];
              i %= 4;
              o = i == 0 ? u8(x.first) + "." + u8(x.second) : i == 3 ? ace(x.first) + "." + u8(x.second) : ace(x.first) + "." + ace(x.second) + (i == 1 ? "" : ".\xC3\x9F");
            } else {
              i -= n;
              auto& x = b[i / 3];
              i %= 3;
              o = "xn--" + x.first + (i == 2 ? ".b" : "") + ".xn--" + x.second + (i == 0 ? "" : ".\xC3\x9F");
            }
          }};
}

// One byte of any value in inputs around and beyond the limit.
inline Space odd_byte_long() {
  static const std::vector<size_t> len = {100, 255, 16383, 16384, 16385, 16400, 20000, 40000};
  return {"every byte value at places of inputs around and beyond the limit", len.size() * 256 * 7 * 3, [](uint64_t i, std::string& o) {
            unsigned f = unsigned(i % 3); i /= 3;
            unsigned pl = unsigned(i % 7); i /= 7;
            unsigned c = unsigned(i % 256); i /= 256;
            size_t n = len[i];
            static const char* const fill[] = {"a", "\xC3\xBC", "Ab.xn--tda."};
            static const size_t fl[] = {1, 2, 11};
            o.clear();
            for (size_t k = 0; k < n; k++) o += fill[f][k % fl[f]];
            size_t at[] = {0, 1, n / 2, n / 2 + 1, n - 2, n - 1, n > 16384 ? size_t(16384) : n / 3};
            o[at[pl]] = char(c);
          }};
}

// Every space of domain inputs. scale: 0 = small (expensive oracle), 1 = quick, 2 = thorough.
inline std::vector<Space> domain_spaces(int scale) {
  std::vector<Space> v;
  // 1. every scalar value in every context
  static const std::vector<std::pair<std::string, std::string>> ctx = [] {
    std::vector<std::pair<U32, U32>> c = {{U"", U""}, {U"a", U""}, {U"", U"a"}, {U"\u00DF", U""}, {U"", U"\u00DF"}, {U"\u05D0", U""}, {U"", U"\u05D0"},
                                          {U"\u05D0.", U""}, {U"\u00FC.", U".b"}, {U"\u0628", U"\u0628"}, {U"\u0628\u200C", U"\u0628"}, {U"\u0628", U"\u200C\u0628"},
                                          {U"\u0915", U"\u200D"}, {U"\u0915", U"\u200C"}, {U"e", U"\u0301"}, {U"\u00E9", U"\u0323"}, {U"\u05D0", U"\u05D0"}, {U"\u0627", U"1"}, {U"\u0627\u0661", U""}};
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& [x, y] : c) r.push_back({u8(x), u8(y)});
    return r;
  }();
  size_t nctx = scale == 0 ? 3 : ctx.size();
  v.push_back({"every scalar value in " + std::to_string(nctx) + " contexts", NSCALAR * nctx, [nctx](uint64_t i, std::string& s) {
                 auto& c = ctx[i % nctx];
                 s = c.first;
                 ref::utf8_put(s, scalar(i / nctx));
                 s += c.second;
               }});
  // 2. words over the class alphabet
  {
    auto& A = domain_alphabet();
    unsigned d = scale == 0 ? 2 : scale == 1 ? 4 : 5;
    size_t n = scale == 1 ? 40 : A.size();
    if (scale == 2) n = 44;
    static std::vector<std::string> enc;
    if (enc.empty()) for (auto& x : A) enc.push_back(u8(x));
    Words w(n, d);
    v.push_back({"words of <= " + std::to_string(d) + " tokens over " + std::to_string(n) + " tokens", w.total, [w](uint64_t i, std::string& s) {
                   s.clear();
                   for (auto k : w.get(i)) s += enc[k];
                 }});
    if (scale == 1) {
      Words w3(A.size(), 3);
      v.push_back({"words of <= 3 tokens over " + std::to_string(A.size()) + " tokens", w3.total, [w3](uint64_t i, std::string& s) {
                     s.clear();
                     for (auto k : w3.get(i)) s += enc[k];
                   }});
    }
  }
  // 3. label sequences
  {
    auto& L = label_alphabet();
    unsigned d = scale == 0 ? 2 : scale == 1 ? 4 : 5;
    size_t n = scale == 2 ? 26 : L.size();
    uint64_t tot = 0;
    for (unsigned k = 1; k <= d; k++) tot += ipow(n, k);
    v.push_back({"domains of 1.." + std::to_string(d) + " labels over " + std::to_string(n) + " labels", tot, [n](uint64_t i, std::string& s) {
                   auto& L = label_alphabet();
                   unsigned k = 1;
                   while (i >= ipow(n, k)) { i -= ipow(n, k); k++; }
                   s.clear();
                   for (unsigned j = 0; j < k; j++) { if (j) s += '.'; s += L[i % n]; i /= n; }
                 }});
  }
  // 4. A-labels: every payload over a restricted digit alphabet, made non-ASCII by a second label
  {
    static const std::string dig = "abcdefghijklmnopqrstuvwxyz0123456789-";
    unsigned d = scale == 0 ? 2 : scale == 1 ? 4 : 4;
    Words w(dig.size(), d);
    static const std::vector<std::pair<std::string, std::string>> c = {{"xn--", ".\xC3\x9F"}, {"\xC3\x9F.xn--a-", ""}, {"\xC3\x9F.xn--", "a"}};
    size_t nc = scale == 0 ? 1 : c.size();
    v.push_back({"xn-- payloads of <= " + std::to_string(d) + " characters", w.total * nc, [w, nc](uint64_t i, std::string& s) {
                   auto& cc = c[i % nc];
                   s = cc.first;
                   for (auto k : w.get(i / nc)) s += dig[k];
                   s += cc.second;
                 }});
  }
  // 5. A-label of every scalar value
  {
    static const std::vector<std::pair<U32, U32>> c = {{U"", U""}, {U"a", U""}, {U"\u00DF", U""}, {U"\u05D0", U""}, {U"\u0915\u094D", U""}};
    size_t nc = scale == 0 ? 1 : c.size();
    v.push_back({"A-label of every scalar value in " + std::to_string(nc) + " contexts", NSCALAR * nc, [nc](uint64_t i, std::string& s) {
                   auto& cc = c[i % nc];
                   std::string p;
                   ref::puny_encode(cc.first + scalar(i / nc) + cc.second, p);
                   s = "xn--" + p + ".\xC3\x9F";
                 }});
  }
  // 6. pairs of property representatives
  {
    static const std::vector<char32_t> R = interesting();
    uint64_t n = R.size();
    if (scale > 0)
      v.push_back({"pairs of " + std::to_string(n) + " property representatives in 2 contexts", n * n * 2, [n](uint64_t i, std::string& s) {
                     s.clear();
                     if (i & 1) s = "a";
                     i /= 2;
                     ref::utf8_put(s, R[i / n]);
                     ref::utf8_put(s, R[i % n]);
                   }});
    if (scale == 2)
      v.push_back({"property representative, separator, representative", n * n * 6, [n](uint64_t i, std::string& s) {
                     static const char* mid[] = {".", "a", "1", "\xE2\x80\x8C", "\xE2\x80\x8D", "\xCC\x81"};
                     const char* m = mid[i % 6];
                     i /= 6;
                     s.clear();
                     ref::utf8_put(s, R[i / n]);
                     s += m;
                     ref::utf8_put(s, R[i % n]);
                   }});
  }
  // 7. lengths: label of n code points, with a tail
  {
    static const std::vector<std::string> tails = {"", ".", "\xC3\x9F", ".\xC3\x9F", "\xCC\x88", "\xCD\xB8", "\xD7\x90", ".xn--tda", "xn--", ".a.b"};
    static std::vector<size_t> lens = [] {
      std::vector<size_t> l;
      for (size_t i = 0; i <= 300; i++) l.push_back(i);
      for (size_t b : {512, 1024, 2048, 4096, 8192}) for (size_t k : {b - 1, b, b + 1}) l.push_back(k);
      return l;
    }();
    uint64_t nl = scale == 0 ? 140 : lens.size();
    v.push_back({"label lengths 0..300 and powers of two x patterns x tails", nl * NPATTERN * tails.size(), [nl](uint64_t i, std::string& s) {
                   auto& t = tails[i % tails.size()];
                   i /= tails.size();
                   s = pattern(i % NPATTERN, lens[i / NPATTERN]);
                   s += t;
                 }});
  }
  // 8. one special code point at each position of labels of each length
  {
    static const std::vector<U32> sp = {U"\u00DF", U"A", U"\u0301", U"\u05D0", U"\u0378", U"\u200D", U"\u00AD", U"\u3002", U"\uFDFA", U".", U"\U00010400", U"\u0958"};
    uint64_t N = scale == 0 ? 24 : scale == 1 ? 80 : 140;
    v.push_back({"special code point at each position of labels of length < " + std::to_string(N), N * N * sp.size() * 3, [N](uint64_t i, std::string& s) {
                   auto& x = sp[i % sp.size()];
                   i /= sp.size();
                   int bg = int(i % 3);
                   i /= 3;
                   size_t len = i % N, pos = i / N;
                   s.clear();
                   U32 u;
                   for (size_t k = 0; k <= len; k++) {
                     if (k == (pos > len ? pos % (len + 1) : pos)) u += x;
                     if (k < len) u.push_back(bg == 0 ? U'b' : bg == 1 ? char32_t(0x430 + k % 30) : (k & 1) ? U'c' : char32_t(0xE0 + k % 20));
                   }
                   s = u8(u);
                 }});
  }
  // 8b. two special parts at every pair of positions of a label
  {
    static const std::vector<U32> sp = {U"\u0301", U"\u0323", U"\u200C", U"\u200D", U"\u094D", U"\u05D0", U"\u0628", U"\u0661", U"1", U"-", U".", U"\u00AD",
                                        U"\u212B", U"\u1100", U"\u1161", U"\u11A8", U"\u0378", U"\uFDFA", U"\u3002", U"\U00010400", U"\u00C4", U"Z", U"\u0344", U"\u0958"};
    static const std::vector<std::pair<U32, std::string>> bg = {{U"b", "b"}, {U"\u0431\u0432", "Cyrillic"}, {U"\u05D1", "Hebrew"}, {U"\u0628", "Arabic"}};
    struct At { uint32_t len, i, j; };
    static std::vector<At> at[3];
    auto& a = at[scale];
    if (a.empty()) {
      const uint32_t full = scale == 0 ? 4 : scale == 1 ? 14 : 24;
      for (uint32_t n = 0; n <= full; n++) for (uint32_t x = 0; x <= n; x++) for (uint32_t y = x; y <= n; y++) a.push_back({n, x, y});
      if (scale) for (uint32_t n : {16u, 31u, 32u, 33u, 57u, 58u, 59u, 60u, 62u, 63u, 64u, 255u, 256u, 1024u}) {
        std::vector<uint32_t> q = {0, 1, 2, 3, n / 2, n - 2, n - 1, n};
        for (uint32_t x : q) for (uint32_t y : q) if (x <= y) a.push_back({n, x, y});
      }
    }
    const uint64_t S = sp.size(), per = S * S * bg.size();
    v.push_back({"two of " + std::to_string(S) + " parts at every pair of positions in labels of 4 scripts, length up to " + std::to_string(a.back().len), per * a.size(), [S, per, scale](uint64_t i, std::string& s) {
                   const At& p = at[scale][i / per];
                   i %= per;
                   const U32& x = sp[i % S]; i /= S;
                   const U32& y = sp[i % S]; i /= S;
                   const U32& f = bg[i].first;
                   U32 u;
                   for (uint32_t k = 0; k <= p.len; k++) {
                     if (k == p.i) u += x;
                     if (k == p.j) u += y;
                     if (k < p.len) u.push_back(f[k % f.size()]);
                   }
                   s = u8(u);
                 }});
  }
  // 9b. two special labels at every pair of places in a domain
  {
    static const std::vector<std::string> lab = {"", "xn--tda", "XN--4DB", "xn--a", "xn--", "\xD7\x90", "1", "a1", "\xCC\x81" "a", "\xC2\xAD", "\xC3\x84", "a-", "-", "\xD9\xA1", "xn--zca", "\xE2\x89\xA0", "\xCD\xB8"};
    static const std::vector<std::string> fill = {"b", "\xC3\xBC", "\xD7\x91", "xn--4dbc"};
    const uint32_t M = scale == 0 ? 3 : scale == 1 ? 9 : 16;
    struct At { uint32_t n, i, j; };
    static std::vector<At> at[3];
    auto& a = at[scale];
    if (a.empty()) for (uint32_t n = 1; n <= M; n++) for (uint32_t x = 0; x < n; x++) for (uint32_t y = x; y < n; y++) a.push_back({n, x, y});
    const uint64_t S = lab.size(), per = S * S * fill.size();
    v.push_back({"two of " + std::to_string(S) + " labels at every pair of places in domains of up to " + std::to_string(M) + " labels of 4 kinds", per * a.size(), [S, per, scale](uint64_t i, std::string& s) {
                   const At& p = at[scale][i / per];
                   i %= per;
                   auto& x = lab[i % S]; i /= S;
                   auto& y = lab[i % S]; i /= S;
                   auto& f = fill[i];
                   s.clear();
                   for (uint32_t k = 0; k < p.n; k++) {
                     if (k) s += '.';
                     s += k == p.j ? y : k == p.i ? x : f;
                   }
                 }});
  }
  // 9. many labels
  {
    static const std::vector<std::string> lab = {"", "a", "\xC3\xBC", "\xD7\x90", "xn--tda", "abc"};
    uint64_t N = scale == 0 ? 20 : 300;
    v.push_back({"1.." + std::to_string(N) + " labels", N * lab.size() * lab.size(), [](uint64_t i, std::string& s) {
                   auto& a = lab[i % lab.size()];
                   i /= lab.size();
                   auto& b = lab[i % lab.size()];
                   i /= lab.size();
                   s.clear();
                   for (uint64_t k = 0; k <= i; k++) { if (k) s += '.'; s += (k % 2 ? b : a); }
                 }});
  }
  // 10. malformed and well-formed UTF-8
  {
    auto& B = utf8_bytes();
    unsigned d = scale == 0 ? 3 : scale == 1 ? 4 : 5;
    Words w(B.size(), d);
    static const std::vector<std::string> pre = {"", "a", "\xC3\x9F"};
    size_t np = scale == 0 ? 1 : scale == 1 ? 3 : 2;
    v.push_back({"byte strings of length <= " + std::to_string(d) + " over " + std::to_string(B.size()) + " UTF-8 boundary bytes", w.total * np, [w, np](uint64_t i, std::string& s) {
                   auto& B = utf8_bytes();
                   s = pre[i % np];
                   for (auto k : w.get(i / np)) s += char(B[k]);
                 }});
  }
  // 11. canonical compositions and their rearrangements inside domains
  if (scale > 0) {
    static std::vector<U32> comp = [] {
      std::vector<U32> r;
      for (auto& [p, c] : ref::D.compose) {
        r.push_back({p.first, p.second});
        r.push_back({c});
        r.push_back(ref::nfd(U32(1, c)));
      }
      for (auto& [c, d] : ref::D.nfd) { r.push_back({c}); r.push_back(d); }
      return r;
    }();
    static const std::vector<U32> marks = {U"", U"\u0301", U"\u0323", U"\u0308", U"\u0327", U"\u0345", U"\u0338", U"a"};
    v.push_back({"canonical compositions x following marks", comp.size() * marks.size() * 2, [](uint64_t i, std::string& s) {
                   bool pre = i & 1;
                   i /= 2;
                   s = u8((pre ? U32(U"a.") : U32()) + comp[i / marks.size()] + marks[i % marks.size()]);
                 }});
  }
  // 12. total length around the input limit
  {
    static const std::vector<std::string> unit = {"a", "\xC3\xBC", "A.", "\xE4\xB8\x80", "\xC3\xBC.", "\xF0\x90\x90\xA8"};
    static const std::vector<std::string> tl = {"", "\xC3\x9F"};
    int span = scale == 0 ? 3 : 40;
    v.push_back({"total size within " + std::to_string(span) + " bytes of 16384", uint64_t(unit.size() * tl.size() * (2 * span + 1)), [span](uint64_t i, std::string& s) {
                   auto& u = unit[i % unit.size()];
                   i /= unit.size();
                   auto& t = tl[i % 2];
                   i /= 2;
                   size_t target = 16384 - span + i;
                   s.clear();
                   while (s.size() + u.size() + t.size() <= target) s += u;
                   while (s.size() + t.size() < target) s += 'b';
                   s += t;
                 }});
  }
  // 13. long domains: something that matters far from the start or the end
  {
    static const Long L = [scale] {
      Long l;
      l.cores = {U"\u00FC", U".\u00FC", U"\u00FC.", U"u\u0308", U".u\u0308", U".xn--tda", U"xn--tda.", U"xn--4db.", U".xn--4db", U".1\u05D0", U"\u05D0", U"\u05D0.", U".\u05D0", U"1\u05D0.", U"\u0301", U".\u0301a", U"a\u200Db", U"\u0915\u094D\u200D",
                 U"\u0378", U"\u00C4", U"A", U"\u00AD", U"\u3002", U"\uFDFA", U"\u212B", U".xn--a", U".xn--tda-", U"\u1100\u1161", U"\uFF21\u0308", U"\U00010400", U"..", U"XN--TDA."};
      l.fillers = {U"a", U"\u00E0", U"\u05D1", U"\u064B", U"a.", U"\u00FC.", U"\u4E00", U"bcd.", U"\u00AD"};
      for (uint32_t n : ladder(16384, 20)) if (scale || (n >= 62 && n <= 66) || n == 130 || n == 257 || n == 1100 || n == 5000) l.sizes.push_back(n);
      return l;
    }();
    v.push_back({"long domains: " + std::to_string(L.cores.size()) + " cores x " + std::to_string(L.fillers.size()) + " fillers x " + std::to_string(L.sizes.size()) + " sizes x 4 layouts", L.total(), [](uint64_t i, std::string& s) {
                   static U32 u;
                   L.get(i, u);
                   s = u8(u);
                   if (s.size() > 16500) s.clear();
                 }});
  }
  if (scale > 0) { v.push_back(related_labels()); v.push_back(odd_byte_long()); }
  return v;
}
}  // namespace gen
