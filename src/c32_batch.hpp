// What the driver and the 32-bit programs share: the layout of a batch and how it is carried out.
// Compiled for both widths; only types of fixed width cross the boundary.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
namespace c32 {
constexpr uint32_t SIZE = 24u << 20, RES = 16u << 20, CAP = 140000, MAXREQ = 8192, NFN = 8;
struct Head {
  uint32_t count, big;         // requests in the batch; whether it is one request on a huge buffer
  volatile uint32_t at, fn;    // being carried out
  uint64_t bigres[4];
};
struct Req { uint32_t lo, hi, n, bytes; };  // functions lo..hi on n elements that occupy bytes (a multiple of 16)
struct Big { uint32_t kind, unit; uint64_t n; uint32_t nspec, pad; uint32_t val[4]; uint64_t pos[4]; };
static_assert(sizeof(Big) == 72 && offsetof(Big, pos) == 40 && sizeof(Head) == 48);
inline uint64_t hash(const unsigned char* p, uint64_t n, uint64_t h = 0xcbf29ce484222325ull) {
  for (uint64_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
  return h ^ (h >> 29) ^ n << 40;
}
typedef long (*Call)(int, const void*, size_t, unsigned char*, size_t);
// `place` puts an argument where the environment wants it
template <class Place>
void batch(char* m, Call call, Place place) {
  static unsigned char out[CAP];
  Head* h = reinterpret_cast<Head*>(m);
  uint64_t* res = reinterpret_cast<uint64_t*>(m + RES);
  const char* p = m + 4096;
  for (uint32_t i = 0; i < h->count; i++) {
    Req q;
    memcpy(&q, p, sizeof q);
    p += sizeof q;
    const void* a = place(p, q.lo >= 4 ? q.n * 4 : q.n);
    p += q.bytes;
    h->at = i;
    for (uint32_t fn = q.lo; fn <= q.hi; fn++) {
      h->fn = fn;
      long n = call(int(fn), a, q.n, out, CAP);
      res[i * NFN + fn] = hash(out, uint64_t(n));
    }
  }
}
// Huge buffers: one chunk of shared memory mapped again and again, private pages for particular elements.
constexpr uint32_t CHUNK = 12u << 20;
enum Kind { FORBIDDEN, VERIFY, ASCII_MAP, LEN8, LEN32, TO_UTF8, TO_UTF32, TO_ASCII, TO_UNICODE, NFC, VALID, MAP, TO_PUNY, FROM_PUNY, NKIND };
constexpr bool wide(uint32_t k) { return k == LEN32 || k == TO_UTF8 || k == NFC || k == VALID || k == MAP || k == TO_PUNY; }
}
