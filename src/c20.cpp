// C20: the DEFLATE expander agrees with zlib on every complete stream, refuses
// truncated and oversized ones, and stays inside its buffers on anything.
// Built with address and undefined-behaviour sanitizers; buffers are exact.
#include "harness.hpp"
#include "raw_inflate.hpp"
#include <zlib.h>
#include <array>
#include <functional>
#include <memory>
using Bytes = std::vector<uint8_t>;
enum Z { kEnd, kNeed, kError };
static const char* zmsg = nullptr;  // zlib's reason for refusing the last stream
static Z zref(const Bytes& in, Bytes& out, size_t limit) {
  zmsg = nullptr;
  static thread_local z_stream z;
  static thread_local bool init = false;
  if (!init) { memset(&z, 0, sizeof z); inflateInit2(&z, -15); init = true; } else inflateReset(&z);
  out.clear();
  static Bytes buf(1 << 18);
  z.next_in = const_cast<uint8_t*>(in.data());
  z.avail_in = unsigned(in.size());
  for (;;) {
    z.next_out = buf.data();
    z.avail_out = unsigned(buf.size());
    int r = inflate(&z, Z_NO_FLUSH);
    out.insert(out.end(), buf.data(), buf.data() + (buf.size() - z.avail_out));
    if (r == Z_STREAM_END) return kEnd;
    if (r != Z_OK && r != Z_BUF_ERROR) { zmsg = z.msg; return kError; }
    if (out.size() > limit) return kError;  // not used by these spaces
    if (z.avail_out && !z.avail_in) return kNeed;
    if (r == Z_BUF_ERROR && z.avail_out) return kNeed;
  }
}
static const char* zname[] = {"a complete stream", "a truncated stream", "an invalid stream"};
static bool quiet = false;
// one call with exactly sized heap buffers
static void one(const Bytes& in, size_t cap, Z z, const Bytes& want, hx::Rec& r) {
  std::unique_ptr<uint8_t[]> s(new uint8_t[in.size()]), d(new uint8_t[cap]);
  if (!in.empty()) memcpy(s.get(), in.data(), in.size());
  if (cap) memset(d.get(), 0xA5, cap);
  size_t n = ada::idna::deflate::inflate_raw(s.get(), in.size(), d.get(), cap);
  r.call();
  if (n > cap) { r.fail("reports " + std::to_string(n) + " bytes for a buffer of " + std::to_string(cap)); return; }
  if (z == kEnd) {
    if (want.size() > cap) { if (n) r.fail("a stream of " + std::to_string(want.size()) + " bytes yields " + std::to_string(n) + " in a buffer of " + std::to_string(cap)); }
    else if (n != want.size() || n && memcmp(d.get(), want.data(), n)) r.fail("a complete stream of " + std::to_string(want.size()) + " bytes yields " + std::to_string(n) + (n == want.size() ? " different" : "") + " bytes");
  } else if (z == kError && n && zmsg && strncmp(zmsg, "too many", 8)) r.fail(std::string("a malformed stream (") + zmsg + ") yields " + std::to_string(n) + " bytes");
  else if (z == kNeed && n) r.fail("a truncated stream yields " + std::to_string(n) + " bytes");
}
static void full(const Bytes& in, hx::Rec& r, bool trunc) {
  if (!quiet) r.in8({(const char*)in.data(), std::min<size_t>(in.size(), 60000)});
  Bytes want;
  Z z = zref(in, want, 1 << 22);
  r.outcome(uint64_t(z) << 32 ^ want.size());
  size_t w = want.size();
  one(in, z == kEnd ? w : w + 300, z, want, r);
  if (z == kEnd) {
    one(in, w + 1, z, want, r);
    if (w) one(in, w - 1, z, want, r);
    if (w > 1) one(in, w / 2, z, want, r);
    if (w) one(in, 0, z, want, r);
    one(in, w + 70000, z, want, r);
  } else { one(in, 0, z, want, r); one(in, w, z, want, r); }
  if (trunc) {
    Bytes t;
    for (size_t k = in.size(); k-- > 0;) {
      if (in.size() > 600 && k > 40 && k + 40 < in.size() && k % 97) continue;
      t.assign(in.begin(), in.begin() + k);
      Bytes o;
      Z y = zref(t, o, 1 << 22);
      one(t, w + 300, y, o, r);
      if (r.bad) { r.why = "cut to " + std::to_string(k) + " bytes: " + r.why; return; }
    }
  }
}
struct BW {
  Bytes o;
  unsigned n = 0;
  void bits(uint32_t v, int k) { for (int i = 0; i < k; i++) { if (n % 8 == 0) o.push_back(0); o.back() |= uint8_t((v >> i & 1) << (n % 8)); n++; } }
  void code(uint32_t v, int k) { for (int i = k; i-- > 0;) bits(v >> i & 1, 1); }
  void align() { n = unsigned(o.size()) * 8; }
  void head(bool fin, int type) { bits(fin, 1); bits(type, 2); }
  void stored(bool fin, const Bytes& b, int lenxor = 0, int nlenxor = 0) {
    head(fin, 0);
    align();
    unsigned l = unsigned(b.size()) ^ lenxor, m = ~unsigned(b.size()) ^ nlenxor;
    bits(l & 0xFFFF, 16);
    bits(m & 0xFFFF, 16);
    o.insert(o.end(), b.begin(), b.end());
    n = unsigned(o.size()) * 8;
  }
  void flit(int s) {
    if (s < 144) code(48 + s, 8);
    else if (s < 256) code(400 + s - 144, 9);
    else if (s < 280) code(s - 256, 7);
    else code(192 + s - 280, 8);
  }
};
static const int lx[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const int dx[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
static int dbase(int c) { int b = 1; for (int i = 0; i < c; i++) b += 1 << dx[i]; return b; }
static Bytes junk(size_t n) { Bytes b(n); uint32_t x = 12345; for (auto& c : b) { x = x * 1664525 + 1013904223; c = uint8_t(x >> 24); } return b; }
// canonical codes of a set of lengths
struct Canon {
  std::vector<int> len, code;
  explicit Canon(std::vector<int> l) : len(std::move(l)), code(len.size()) {
    int c = 0;
    for (int b = 1; b <= 15; b++) { for (size_t s = 0; s < len.size(); s++) if (len[s] == b) code[s] = c++; c <<= 1; }
  }
  void put(BW& w, int s) const { w.code(uint32_t(code[s]), len[s]); }
};
static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
// header of a dynamic block whose code-length code gives every symbol 5 bits
// (19 symbols: 13 of 4 bits and 6 of 5 bits: complete)
static Canon clcode() { std::vector<int> l(19, 4); for (int i = 13; i < 19; i++) l[i] = 5; return Canon(l); }
static void dyn_head(BW& w, bool fin, int hlit, int hdist, const Canon& cl) {
  w.head(fin, 2);
  w.bits(hlit - 257, 5);
  w.bits(hdist - 1, 5);
  w.bits(15, 4);
  for (int i = 0; i < 19; i++) w.bits(cl.len[order[i]], 3);
}
int main(int argc, char** argv) {
  const char* t = getenv("VERIF_TIER");
  bool th = t && !strcmp(t, "thorough");
  std::vector<hx::Family> f;
  f.push_back({"all byte strings of length <= 2", 1 + 256 + 65536, [](uint64_t i, hx::Rec& r) {
                 Bytes b;
                 if (i >= 257) { b = {uint8_t((i - 257) >> 8), uint8_t(i - 257)}; } else if (i) b = {uint8_t(i - 1)};
                 full(b, r, true);
               }});
  f.push_back({"all byte strings of length 3 (256 per evaluation)", 65536, [](uint64_t i, hx::Rec& r) {
                 Bytes b = {uint8_t(i >> 8), uint8_t(i), 0}, want;
                 for (int k = 0; k < 256 && !r.bad; k++) {
                   b[2] = uint8_t(k);
                   Z z = zref(b, want, 1 << 22);
                   r.outcome(uint64_t(z) << 32 ^ want.size());
                   one(b, z == kEnd ? want.size() : 300, z, want, r);
                 }
                 r.in8({(const char*)b.data(), 3});
               }});
  if (th) f.push_back({"all byte strings of length 4, first byte starting a dynamic or fixed block (256 per evaluation)", 1 << 24, [](uint64_t i, hx::Rec& r) {
                 Bytes b = {uint8_t(i >> 16), uint8_t(i >> 8), uint8_t(i), 0}, want;
                 int ty = b[0] >> 1 & 3;
                 if (ty == 0 || ty == 3) return;
                 for (int k = 0; k < 256 && !r.bad; k++) {
                   b[3] = uint8_t(k);
                   Z z = zref(b, want, 1 << 22);
                   one(b, z == kEnd ? want.size() : 600, z, want, r);
                 }
                 r.in8({(const char*)b.data(), 4});
               }});
  // stored blocks
  static const std::vector<int> sizes = {0, 1, 2, 3, 7, 8, 255, 256, 257, 32767, 32768, 65534, 65535};
  f.push_back({"stored blocks: sizes x bit offset x block sequence x length-field errors", sizes.size() * 10 * 4 * 33, [](uint64_t i, hx::Rec& r) {
                 int e = i % 33; i /= 33;
                 int seq = i % 4; i /= 4;
                 int off = i % 10; i /= 10;
                 BW w;
                 if (off) { w.head(false, 1); for (int k = 0; k < off; k++) w.flit(k == 3 ? 200 : 'a' + k); w.flit(256); }
                 auto b = junk(sizes[i]);
                 int lxr = e && e <= 16 ? 1 << (e - 1) : 0, nx = e > 16 ? 1 << (e - 17) : 0;
                 w.stored(seq == 0, b, lxr, nx);
                 if (seq == 1) { w.head(true, 1); w.flit('z'); w.flit(256); }
                 if (seq == 2) { w.stored(false, junk(5)); w.stored(true, {}); }
                 if (seq == 3) { w.stored(true, b); w.o.push_back(77); }
                 quiet = w.o.size() > 2000;
                 full(w.o, r, b.size() < 300 && !e);
                 quiet = false;
               }, 16});
  // every length and distance code, every extra-bit value at the edges
  f.push_back({"fixed block: every length code x extra bits x distance code x extra bits x history size", uint64_t(29) * 4 * 30 * 3 * 4, [](uint64_t i, hx::Rec& r) {
                 int hs = i % 4; i /= 4;
                 int de = i % 3; i /= 3;
                 int d = i % 30; i /= 30;
                 int le = i % 4; i /= 4;
                 int l = int(i);
                 int lm = (1 << lx[l]) - 1, dm = (1 << dx[d]) - 1;
                 int lev = le == 0 ? 0 : le == 1 ? lm : le == 2 ? lm / 2 : lm & 5, dev = de == 0 ? 0 : de == 1 ? dm : dm / 2;
                 int dist = dbase(d) + dev, hist = hs == 0 ? dist - 1 : hs == 1 ? dist : hs == 2 ? dist + 1 : 32768 + 500;
                 BW w;
                 w.stored(false, junk(hist));
                 w.head(true, 1);
                 w.flit(257 + l);
                 w.bits(lev, lx[l]);
                 w.code(d, 5);
                 w.bits(dev, dx[d]);
                 w.flit('!');
                 w.flit(256);
                 quiet = hist > 2000;
                 full(w.o, r, hist < 40);
                 quiet = false;
               }, 32});
  // sequences of fixed tokens after a short history
  {
    // tokens: literals, length/distance pairs, invalid codes, end
    uint64_t K = 26;
    unsigned D = th ? 4 : 3;
    uint64_t tot = 1;
    for (unsigned k = 0; k < D; k++) tot *= K;
    f.push_back({"fixed blocks: all sequences of " + std::to_string(D) + " of 26 tokens", tot, [K, D, th](uint64_t i, hx::Rec& r) {
                   BW w;
                   w.head(false, 1);
                   w.flit('a'); w.flit('b'); w.flit(200);
                   for (unsigned k = 0; k < D; k++, i /= K) {
                     int x = int(i % K);
                     static const int lits[6] = {0, 143, 144, 255, 'a', 256};
                     static const int pairs[14][4] = {{0, 0, 0, 0}, {0, 0, 1, 0}, {0, 0, 2, 0}, {0, 0, 3, 0}, {0, 0, 4, 1}, {7, 0, 2, 0}, {8, 1, 1, 0}, {27, 31, 0, 0}, {27, 30, 2, 0}, {28, 0, 0, 0}, {28, 0, 2, 0}, {20, 15, 4, 0}, {1, 0, 29, 0}, {2, 0, 10, 3}};
                     if (x < 5) w.flit(lits[x]);
                     else if (x == 5) { w.flit(256); w.head(false, 1); }
                     else if (x < 20) { auto& p = pairs[x - 6]; w.flit(257 + p[0]); w.bits(p[1], lx[p[0]]); w.code(p[2], 5); w.bits(p[3], dx[p[2]]); }
                     else if (x == 20) { w.flit(256); w.stored(false, {1, 2, 3}); w.head(false, 1); }
                     else if (x == 21) w.flit(286);
                     else if (x == 22) w.flit(287);
                     else if (x == 23) { w.flit(257); w.code(30, 5); }
                     else if (x == 24) { w.flit(257); w.code(31, 5); }
                     else { w.flit(256); w.stored(false, {}); w.head(false, 1); }
                   }
                   w.flit(256);
                   w.head(true, 1);
                   w.flit('.');
                   w.flit(256);
                   full(w.o, r, th || i % 7 == 0);
                 }});
  }
  // dynamic headers: every HLIT, HDIST, with lengths spelled out
  f.push_back({"dynamic block: every HLIT x HDIST x way of spelling the lengths", 32 * 32 * 6, [](uint64_t i, hx::Rec& r) {
                 int way = i % 6; i /= 6;
                 int hlit = 257 + int(i % 32), hdist = 1 + int(i / 32);
                 auto cl = clcode();
                 std::vector<int> L(hlit, 0), Dl(hdist, 0);
                 // literals: 'a','b',256 and the last length symbol get 2 bits; distances: first and last 1 bit
                 L['a'] = 2; L['b'] = 2; L[256] = 2; L[hlit - 1] = 2;
                 if (hlit == 257) L['c'] = 2;
                 if (hdist == 1) Dl[0] = 1; else { Dl[0] = 1; Dl[hdist - 1] = 1; }
                 BW w;
                 dyn_head(w, true, hlit, hdist, cl);
                 std::vector<int> all = L;
                 all.insert(all.end(), Dl.begin(), Dl.end());
                 for (size_t k = 0; k < all.size();) {
                   size_t run = 1;
                   while (k + run < all.size() && all[k + run] == all[k]) run++;
                   if (all[k] == 0 && run >= 11 && way != 0) { size_t q = std::min<size_t>(run, way == 3 ? 11 : 138); cl.put(w, 18); w.bits(uint32_t(q - 11), 7); k += q; continue; }
                   if (all[k] == 0 && run >= 3 && way >= 2) { size_t q = std::min<size_t>(run, way == 3 ? 3 : 10); cl.put(w, 17); w.bits(uint32_t(q - 3), 3); k += q; continue; }
                   if (k && all[k] == all[k - 1] && run >= 3 && way == 4) { size_t q = std::min<size_t>(run, 6); cl.put(w, 16); w.bits(uint32_t(q - 3), 2); k += q; continue; }
                   cl.put(w, all[k]);
                   k++;
                 }
                 Canon lc(L), dc(Dl);
                 for (int k = 0; k < 9; k++) lc.put(w, 'a' + k % 2);
                 if (hlit > 257 && way != 5) {
                   int s = hlit - 1;
                   lc.put(w, s);
                   if (s - 257 < 29) w.bits(1, lx[s - 257]);
                   int ds = hdist > 1 && way % 2 ? hdist - 1 : 0;
                   dc.put(w, ds);
                   if (ds < 30) w.bits(0, dx[ds]);
                 }
                 lc.put(w, 256);
                 full(w.o, r, way == 1 || way == 2);
               }});
  // repeats that reach or pass the end of the length list, in every combination
  f.push_back({"dynamic block: code-length symbol sequences at both ends of the list", 8 * 8 * 19 * 19 * 4, [](uint64_t i, hx::Rec& r) {
                 int rest = int(i % 4); i /= 4;
                 int s2 = int(i % 19); i /= 19;
                 int s1 = int(i % 19); i /= 19;
                 int hl = int(i % 8); i /= 8;
                 static const int H[8] = {257, 258, 265, 280, 285, 286, 287, 288}, HD[8] = {1, 2, 3, 15, 29, 30, 31, 32};
                 int hlit = H[hl], hdist = HD[i];
                 auto cl = clcode();
                 BW w;
                 dyn_head(w, true, hlit, hdist, cl);
                 auto sym = [&](int s, int extreme) { cl.put(w, s); int n = s == 16 ? 2 : s == 17 ? 3 : s == 18 ? 7 : 0; w.bits(extreme ? (1 << n) - 1 : 0, n); return s < 16 ? 1 : s == 16 ? 3 + (extreme ? 3 : 0) : s == 17 ? 3 + (extreme ? 7 : 0) : 11 + (extreme ? 127 : 0); };
                 int n = sym(s1, rest & 1);
                 int total = hlit + hdist, left = 1 + (rest >> 1) * 2;
                 while (n < total - left) { int z = std::min(138, total - left - n); if (z >= 11) { cl.put(w, 18); w.bits(z - 11, 7); n += z; } else { cl.put(w, n == 256 ? 1 : 0); n++; } }
                 n += sym(s2, rest & 1);
                 for (int k = 0; k < 30; k++) w.bits(0x5A + k, 8);
                 full(w.o, r, false);
               }});
  // one list of code lengths, spelled in every possible way around a place
  {
    struct Spell { int v; std::vector<int> tok; };  // a token: repeat count * 32 + symbol
    static std::vector<std::pair<std::vector<int>, std::vector<int>>> vec;
    static std::vector<Spell> sp;
    auto add = [&](int hlit, int hdist, std::initializer_list<std::array<int, 3>> l, std::initializer_list<std::array<int, 3>> d) {
      std::vector<int> L(hlit, 0), D(hdist, 0);
      for (auto& x : l) for (int k = x[0]; k <= x[1]; k++) L[k] = x[2];
      for (auto& x : d) for (int k = x[0]; k <= x[1]; k++) D[k] = x[2];
      vec.push_back({L, D});
    };
    add(257, 4, {{97, 99, 2}, {256, 256, 2}}, {{0, 3, 2}});
    add(264, 8, {{256, 263, 3}}, {{0, 7, 3}});
    add(270, 30, {{97, 97, 1}, {256, 256, 1}}, {{28, 29, 1}});
    add(257, 30, {{0, 6, 3}, {256, 256, 3}}, {{0, 27, 5}, {28, 29, 4}});
    add(286, 30, {{254, 285, 5}}, {{0, 27, 5}, {28, 29, 4}});
    add(286, 1, {{0, 0, 1}, {256, 256, 1}}, {{0, 0, 1}});
    add(258, 16, {{248, 255, 4}, {256, 257, 2}}, {{0, 15, 4}});
    add(280, 2, {{0, 1, 2}, {256, 257, 2}}, {{0, 1, 1}});
    int W = th ? 9 : 6;
    for (int v = 0; v < int(vec.size()); v++) {
      auto all = vec[v].first;
      all.insert(all.end(), vec[v].second.begin(), vec[v].second.end());
      int n = int(all.size()), hl = int(vec[v].first.size());
      for (int c : {0, 97, 256, hl, n}) {
        if (c == 97 && all[97] == 0 && v != 0) continue;
        std::vector<int> tok;
        std::function<void(int)> go = [&](int k) {
          if (k == n) { sp.push_back({v, tok}); return; }
          int run = 1;
          while (k + run < n && all[k + run] == all[k]) run++;
          bool same = k && all[k] == all[k - 1], zero = all[k] == 0, open = k >= c - W && k < c + W;
          auto use = [&](int sym, int m) { tok.push_back(m * 32 + sym); go(k + m); tok.pop_back(); };
          if (open) {
            use(all[k], 1);
            if (same) for (int m = 3; m <= 6 && m <= run; m++) use(16, m);
            if (zero) { for (int m = 3; m <= 10 && m <= run; m++) use(17, m); for (int m = 11; m <= run && m <= 138; m++) if (m < 14 || m == 137 || m == 138 || m == run) use(18, m); }
          } else {
            int lim = k < c - W ? std::min(run, c - W - k) : run;  // stop at the window
            if (zero && lim >= 11) use(18, std::min(lim, 138)); else if (zero && lim >= 3) use(17, std::min(lim, 10)); else use(all[k], 1);
          }
        };
        go(0);
      }
    }
    f.push_back({"dynamic block: 8 lists of code lengths, every spelling around the start, the last literals, the border of the two alphabets and the end", sp.size(), [](uint64_t i, hx::Rec& r) {
                   auto& [L, D] = vec[sp[i].v];
                   auto cl = clcode();
                   BW w;
                   w.stored(false, junk(600));
                   dyn_head(w, true, int(L.size()), int(D.size()), cl);
                   for (int t : sp[i].tok) { int y = t % 32, m = t / 32; cl.put(w, y); if (y == 16) w.bits(m - 3, 2); if (y == 17) w.bits(m - 3, 3); if (y == 18) w.bits(m - 11, 7); }
                   Canon lc(L), dc(D);
                   size_t d = 0;
                   for (size_t y = 0; y < L.size(); y++) if (L[y] && y != 256) {
                     lc.put(w, int(y));
                     if (y < 257) continue;
                     w.bits(0, lx[y - 257]);
                     do d = (d + 1) % D.size(); while (!D[d] || d > 17);
                     dc.put(w, int(d));
                     if (dx[d]) w.bits(0, dx[d]);
                   }
                   lc.put(w, 256);
                   full(w.o, r, false);
                 }});
  }
  // incomplete, over-subscribed and degenerate codes, exhaustively for a few symbols
  {
    uint64_t nl = 5 * 5 * 5 * 5, nd = 4 * 4 * 4;
    f.push_back({"dynamic block: every code with 4 literal/length lengths in 0..4 and 3 distance lengths in 0..3, 4 bodies", nl * nd * 4, [](uint64_t i, hx::Rec& r) {
                   int body = i % 4; i /= 4;
                   std::vector<int> L(260, 0), D(3, 0);
                   static const int sy[4] = {'a', 'b', 256, 259};
                   for (int k = 0; k < 4; k++, i /= 5) L[sy[k]] = int(i % 5);
                   for (int k = 0; k < 3; k++, i /= 4) D[k] = int(i % 4);
                   auto cl = clcode();
                   BW w;
                   dyn_head(w, true, 260, 3, cl);
                   auto put = [&](std::vector<int>& v) { for (size_t k = 0; k < v.size();) { size_t z = 0; while (k + z < v.size() && v[k + z] == 0 && z < 138) z++; if (z >= 11) { cl.put(w, 18); w.bits(uint32_t(z - 11), 7); k += z; } else { cl.put(w, v[k]); k++; } } };
                   put(L);
                   put(D);
                   for (int k = 0; k < 6; k++) w.bits(body == 0 ? 0 : body == 1 ? 255 : body == 2 ? 0x6C + k * 37 : 0xA1 ^ k * 91, 8);
                   full(w.o, r, false);
                 }});
  }
  // code-length codes: all small assignments
  f.push_back({"dynamic block: every code-length code with lengths in 0..3 over 6 symbols x HCLEN", 4096 * 16, [](uint64_t i, hx::Rec& r) {
                 int hc = 4 + int(i % 16); i /= 16;
                 static const int sy[6] = {0, 1, 2, 16, 17, 18};
                 int cl[19] = {};
                 for (int k = 0; k < 6; k++, i /= 4) cl[sy[k]] = int(i % 4);
                 BW w;
                 w.head(true, 2);
                 w.bits(0, 5);
                 w.bits(0, 5);
                 w.bits(hc - 4, 4);
                 for (int k = 0; k < hc; k++) w.bits(cl[order[k]], 3);
                 for (int k = 0; k < 60; k++) w.bits((k * 73 + 0x35) ^ (k >> 2), 8);
                 full(w.o, r, false);
               }});
  // long codes: a 15-bit comb
  f.push_back({"dynamic block: comb codes of every depth 1..15 for literals and distances, every symbol used", 15 * 15 * 18, [](uint64_t i, hx::Rec& r) {
                 int u = int(i % 18); i /= 18;
                 int dl = 1 + int(i % 15), dd = 1 + int(i / 15);
                 std::vector<int> L(286, 0), D(30, 0);
                 std::vector<int> sl, sd;
                 for (int k = 0; k < dl; k++) { int s = k == 0 ? 256 : k == 1 ? 285 : k == 2 ? 264 : 'a' + k; L[s] = dl - k; sl.push_back(s); }
                 { int s = 'A'; L[s] = dl; sl.push_back(s); }
                 for (int k = 0; k < dd; k++) { D[k * 2 % 30] = dd - k; sd.push_back(k * 2 % 30); }
                 D[1] = dd; sd.push_back(1);
                 auto cl = clcode();
                 BW w;
                 w.stored(false, junk(33000));
                 dyn_head(w, true, 286, 30, cl);
                 std::vector<int> v = L;
                 v.insert(v.end(), D.begin(), D.end());
                 for (size_t k = 0; k < v.size();) { size_t z = 0; while (k + z < v.size() && v[k + z] == 0 && z < 138) z++; if (z >= 11) { cl.put(w, 18); w.bits(uint32_t(z - 11), 7); k += z; } else { cl.put(w, v[k]); k++; } }
                 Canon lc(L), dc(D);
                 for (size_t k = 0; k < sl.size(); k++) {
                   int s = sl[(k + u) % sl.size()];
                   if (s == 256) continue;
                   lc.put(w, s);
                   if (s > 256) { w.bits(0, lx[s - 257]); int d = sd[(k + u) % sd.size()]; dc.put(w, d); w.bits((1 << dx[d]) - 1, dx[d]); }
                 }
                 lc.put(w, 256);
                 quiet = true;
                 full(w.o, r, false);
                 quiet = false;
                 char x[100]; snprintf(x, sizeof x, "comb depth %d/%d rotation %d", dl, dd, u); r.in8(x);
               }, 16});
  // real compressor output of varied data
  f.push_back({"output of zlib at every level and strategy on 60 payload shapes", 60 * 10 * 5, [](uint64_t i, hx::Rec& r) {
                 int shape = int(i % 60); i /= 60;
                 int lev = int(i % 10), strat = int(i / 10);
                 size_t n = size_t(shape % 12 < 6 ? (shape % 12) * 37 + 1 : (shape % 12) * 9001);
                 Bytes p(n);
                 auto j = junk(n);
                 for (size_t k = 0; k < n; k++) p[k] = shape / 12 == 0 ? j[k] : shape / 12 == 1 ? uint8_t(k / 7) : shape / 12 == 2 ? uint8_t("abracadabra "[k % 12]) : shape / 12 == 3 ? uint8_t(j[k] & 3) : uint8_t((k * k) >> 5);
                 z_stream z{};
                 deflateInit2(&z, lev, Z_DEFLATED, -15, 8, strat);
                 Bytes o(n + 70000);
                 z.next_in = p.data(); z.avail_in = unsigned(n); z.next_out = o.data(); z.avail_out = unsigned(o.size());
                 deflate(&z, Z_FINISH);
                 o.resize(z.total_out);
                 deflateEnd(&z);
                 quiet = true;
                 full(o, r, o.size() < 3000);
                 quiet = false;
                 char x[100]; snprintf(x, sizeof x, "shape %d level %d strategy %d", shape, lev, strat); r.in8(x);
               }, 8});
  return hx::run(argc, argv, f);
}
