// C10: Punycode decoding is exact and rejects everything malformed; the
// allocation-free verifier agrees with the decoder.
#include <set>
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
using namespace gen;
static void chk(std::string_view p, hx::Rec& r) {
  r.in8(p);
  static U32 want;
  static U32 out;
  out.clear();
  auto e = ref::puny_decode(p, want);
  bool ok = ada::idna::punycode_to_utf32(p, out);
  bool v = ada::idna::verify_punycode(p);
  r.call(2);
  if (ok) r.outcome(std::string_view(reinterpret_cast<const char*>(out.data()), out.size() * 4));
  if (v != ok) return r.fail(std::string("the verifier ") + (v ? "accepts" : "rejects") + ", the decoder " + (ok ? "accepts" : "rejects"));
  if (e == ref::P::fail) { if (ok) r.fail("malformed, but decodes to " + hx::show32(out)); return; }
  if (e == ref::P::overflow) {
    if (ok) { std::string b; if (ref::puny_encode(out, b) == ref::P::fail || b != p) r.fail("a value beyond 31 bits decodes to " + hx::show32(out)); }
    return;
  }
  bool scalar = true;
  for (char32_t c : want) scalar &= ref::is_scalar(c);
  if (want.substr(0, 4) == U"xn--") { if (ok) r.fail("decodes to a label with the xn-- prefix but is accepted"); return; }
  if (!ok && scalar) return r.fail("rejected, RFC 3492 decodes it to " + hx::show32(want));
  if (ok && out != want) return r.fail("decodes to " + hx::show32(out) + ", RFC 3492 gives " + hx::show32(want));
  if (ok && scalar) {
    std::string back;
    r.call();
    if (!ada::idna::utf32_to_punycode(out, back)) r.fail("the decoded label cannot be encoded");
    else if (back != p && back != std::string(p) + "-" && !(ref::all_ascii(out))) r.fail("encodes back to " + back);
  }
}
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  std::vector<hx::Family> f;
  static const std::string S38 = "abcdefghijklmnopqrstuvwxyz0123456789-\x80";
  unsigned d = th ? 6 : 5;
  Words w(S38.size(), d);
  f.push_back({"every payload of <= " + std::to_string(d) + " over 38 symbols", w.total, [w](uint64_t i, hx::Rec& r) { static std::string s; s.clear(); for (auto k : w.get(i)) s += S38[k]; chk(s, r); }, 16384});
  static const std::string S4 = "ab9z", S6 = "az9-xn";
  Words w4(4, th ? 13 : 11), w6(6, th ? 9 : 8);
  f.push_back({"long digit words over ab9z", w4.total, [w4](uint64_t i, hx::Rec& r) { static std::string s; s.clear(); for (auto k : w4.get(i)) s += S4[k]; chk(s, r); }, 16384});
  f.push_back({"words over az9-xn", w6.total, [w6](uint64_t i, hx::Rec& r) { static std::string s; s.clear(); for (auto k : w6.get(i)) s += S6[k]; chk(s, r); }, 16384});
  Words wx(10, th ? 6 : 5);
  static const std::string S10 = "abx0n9-7zk";
  f.push_back({"xn-- related payloads: basic part and tail", wx.total * 6, [wx](uint64_t i, hx::Rec& r) {
                 static const char* pre[] = {"xn---", "xn-", "n---", "x---", "xn----", "----"};
                 std::string s = pre[i % 6]; i /= 6;
                 for (auto k : wx.get(i)) s += S10[k];
                 chk(s, r);
               }, 4096});
  // numbers around 2^31 after every bias that can be reached
  {
    struct State { std::string pre; uint64_t bias; };
    static std::vector<State> st;
    auto number = [](uint64_t q, uint64_t bias) {
      std::string o;
      for (uint64_t k = 36;; k += 36) {
        uint64_t t = ref::thr(k, bias);
        if (q < t) break;
        uint64_t d = t + (q - t) % (36 - t);
        o += char(d < 26 ? 'a' + d : '0' + d - 26);
        q = (q - t) / (36 - t);
      }
      return o + char(q < 26 ? 'a' + q : '0' + q - 26);
    };
    for (size_t m : th ? std::vector<size_t>{0, 1, 2, 3, 9, 40, 300} : std::vector<size_t>{0, 1, 40}) {
      std::set<uint64_t> seen;
      std::string b = m ? std::string(m, 'q') + "-" : "";
      st.push_back({b, 72});
      for (double x = 1; x < 2.0e9; x *= 1.01) {
        uint64_t d = uint64_t(x), e = ref::adapt(d, m + 1, true);
        if (seen.insert(e).second) st.push_back({b + number(d, 72), e});
        // and a second number
        for (double y : {0.0, 10.0, 3e5}) if (x + y < 2.0e9 && x > 100) { uint64_t g = ref::adapt(uint64_t(x), m + 2, false), d0 = uint64_t(y); if (seen.insert(g).second) st.push_back({b + number(d0, 72) + number(d, ref::adapt(d0, m + 1, true)), g}); }
      }
    }
    static const unsigned L = th ? 9 : 7;
    Words wn(4, L);
    f.push_back({"numbers of <= " + std::to_string(L) + " extreme digits and a last one, after " + std::to_string(st.size()) + " ways to reach a bias", wn.total * 3 * st.size(), [wn](uint64_t i, hx::Rec& r) {
                   uint64_t fin = i % 3; i /= 3;
                   auto& z = st[i % st.size()]; i /= st.size();
                   static std::string s;
                   s = z.pre;
                   uint64_t k = 36;
                   unsigned __int128 w = 1, v = 0;
                   for (auto c : wn.get(i)) {
                     if (v > 0x100000000ull) return;  // already far beyond the limit
                     uint64_t t = ref::thr(k, z.bias), d = c == 0 ? t : c == 1 ? std::min<uint64_t>(t + 1, 35) : c == 2 ? 35 : (t + 35) / 2;
                     s += char(d < 26 ? 'a' + d : '0' + d - 26);
                     v += d * w;
                     w *= 36 - t;
                     k += 36;
                   }
                   uint64_t t = ref::thr(k, z.bias), d = fin == 0 ? 0 : fin == 1 ? t - 1 : t / 2;
                   if (fin && d == 0) return;
                   s += char(d < 26 ? 'a' + d : '0' + d - 26);
                   chk(s, r);
                 }, 16384});
  }
  // a last number at each limit, after every short history of insertions
  {
    struct Q { std::string pre; uint64_t n, i, bias, wo; };
    static std::vector<Q> qs;
    static auto number = [](uint64_t q, uint64_t bias) {
      std::string o;
      for (uint64_t k = 36;; k += 36) {
        uint64_t t = ref::thr(k, bias);
        if (q < t) break;
        uint64_t d = t + (q - t) % (36 - t);
        o += char(d < 26 ? 'a' + d : '0' + d - 26);
        q = (q - t) / (36 - t);
      }
      return o + char(q < 26 ? 'a' + q : '0' + q - 26);
    };
    // the code point c inserted at place pos, if that is not behind the decoder's state
    static auto put = [](Q z, uint64_t c, uint64_t pos, Q& o) {
      if (c < z.n || (c == z.n && pos < z.i) || pos > z.wo) return false;
      uint64_t v = (c - z.n) * (z.wo + 1) + pos - z.i;
      if (v + z.i > 0x80000000) return false;
      o = z;
      o.pre += number(v, z.bias);
      o.bias = ref::adapt(v, z.wo + 1, z.i == 0);
      o.n = c; o.i = pos + 1; o.wo++;
      return true;
    };
    static const std::vector<uint64_t> cps = {0x80, 0xFC, 0x7FF, 0x4E00, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000, 0x2AAAAAAA, 0x3FFFFFFF, 0x40000000, 0x55555555, 0x7FFFFFFE, 0x7FFFFFFF};
    unsigned depth = th ? 3 : 2;
    for (size_t m : {0, 1, 2, 3, 4, 5, 9, 40, 300, 5000}) {
      std::vector<Q> cur = {{m ? std::string(m, 'q') + "-" : "", 128, 0, 72, m}};
      for (unsigned k = 0; k <= depth; k++) {
        qs.insert(qs.end(), cur.begin(), cur.end());
        std::vector<Q> nx;
        if (k < depth) for (auto& z : cur) for (uint64_t c : cps) for (uint64_t pos : std::set<uint64_t>{0, z.i, z.wo / 2, z.wo}) { Q o; if (put(z, c, pos, o)) nx.push_back(o); }
        cur.swap(nx);
      }
    }
    static const std::vector<std::string> tails = {"", "a", "b", "9", "99b", "-a", "zzzzzz"};
    static const std::vector<int64_t> goal = {0x7F, 0x80, 0x81, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x110001, 0x7FFFFFFD, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0x100000000, 0x10000007F, 0x100000080, 0x1000000FC};
    static const int G = int(goal.size()) * 3, W = 9 + 7;
    f.push_back({"a last number at each limit after histories of <= " + std::to_string(depth) + " insertions", uint64_t(qs.size()) * (G + W) * tails.size(), [](uint64_t i, hx::Rec& r) {
                   auto& tl = tails[i % tails.size()]; i /= tails.size();
                   int g = int(i % (G + W)); i /= G + W;
                   auto& z = qs[i];
                   __int128 v;
                   if (g < G) {  // the code point reaches the goal, at the first, second or last place
                     v = (__int128(goal[g / 3]) - __int128(z.n)) * (z.wo + 1) + (g % 3 == 0 ? 0 : g % 3 == 1 ? (z.wo ? 1 : 0) : z.wo) - z.i;
                   } else if (g < G + 9) v = (__int128(1) << 31) - z.i + (g - G - 4);  // the sum reaches 2^31
                   else if (g < G + 12) v = (__int128(1) << 31) + (g - G - 10);          // the number itself does
                   else v = (__int128(1) << 32) - (g - G - 12 < 2 ? z.i : 0) + (g - G - 12) % 2;
                   if (v < 0 || v > (__int128(1) << 45)) return;
                   static std::string s;
                   s = z.pre + number(uint64_t(v), z.bias) + tl;
                   chk(s, r);
                 }, 1024});
  }
  // every byte value at every position of valid payloads
  static std::vector<std::string> base;
  for (U32 s : {U32(U"\u00FC"), U32(U"b\u00FCcher"), U32(U"\u4E2D\u6587"), U32(U"a-\U0010FFFF"), U32(U"--\u00E9--"), U32(U"\u0628\u0627\u0628\u0627\u0628"), U32(U"ma\u00F1ana"), U32(50, U'a') + U"\u20AC"}) { std::string p; ref::puny_encode(s, p); base.push_back(p); }
  uint64_t tot = 0;
  for (auto& b : base) tot += (b.size() + 1) * 512;
  f.push_back({"every byte substituted / inserted at every position of valid payloads", tot, [](uint64_t i, hx::Rec& r) {
                 for (auto& b : base) {
                   uint64_t n = (b.size() + 1) * 512;
                   if (i >= n) { i -= n; continue; }
                   std::string s = b;
                   size_t pos = i / 512;
                   if ((i & 256) == 0) s.insert(pos, 1, char(i)); else if (pos < s.size()) s[pos] = char(i);
                   chk(s, r);
                   return;
                 }
               }});
  f.push_back({"encodings of labels of each length, cut and extended", 400 * NPATTERN * 4, [](uint64_t i, hx::Rec& r) {
                 int k = int(i % 4); i /= 4;
                 U32 u = *ref::utf8_decode(pattern(i % NPATTERN, i / NPATTERN)) + U"\u00DF";
                 std::string p;
                 ref::puny_encode(u, p);
                 if (k == 1) p.pop_back();
                 if (k == 2) p += '9';
                 if (k == 3) p += "zzzzzz";
                 chk(p, r);
               }, 64});
  static const std::vector<uint32_t> big = ladder(th ? 300000 : 140000, 60);
  static const std::vector<std::string> pre = {"", "xn--", "n--", "--", "-"}, tail = {"-", "-a", "-9ca", "-zz9a", "-999b", "-4ca", "-0ca9", "-b9a9a", "-zzzzz", "-t\x80", "a", "9999999a"};
  f.push_back({"payloads with long basic parts", big.size() * pre.size() * tail.size() * 2, [](uint64_t i, hx::Rec& r) {
                 auto& t = tail[i % tail.size()]; i /= tail.size();
                 auto& q = pre[i % pre.size()]; i /= pre.size();
                 chk(q + std::string(big[i / 2], i & 1 ? '-' : 'b') + t, r);
               }, 4});
  static const std::vector<std::string> pre2 = {"xn--", "n--", "n--x", "x--", "xn-", "b"};
  f.push_back({"long basic part, then an insertion at each of the first and last positions", 80 * pre2.size() * 36 * 3, [](uint64_t i, hx::Rec& r) {
                 static const uint32_t ns[3] = {300, 65530, 70000};
                 U32 s(ns[i % 3], U'b'); i /= 3;
                 auto& q = pre2[i % pre2.size()]; i /= pre2.size();
                 char32_t x = i % 36 < 18 ? char32_t(0x80 + i % 18) : char32_t(0x4E00 + i % 18 * 997); i /= 36;
                 for (size_t k = 0; k < q.size(); k++) s[k] = char32_t(q[k]);
                 s.insert(i < 12 ? s.begin() + i : s.end() - (i - 12), x);
                 std::string p;
                 if (ref::puny_encode(s, p) == ref::P::ok) chk(p, r);
               }, 8});
  return hx::run(argc, argv, f);
}
