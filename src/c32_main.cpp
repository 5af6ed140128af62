// The library as a 32-bit program that carries out batches for c32.cpp.
#include "c24_cfg.cpp"
#include "c32_big.hpp"
#include "c32_rt.hpp"
static_assert(sizeof(void*) == 4 && sizeof(size_t) == 4 && sizeof(long) == 4);
struct Env {
  char* own_base[2] = {};
  size_t own_size[2] = {};
  int k = 0;
  char* repeat(uint64_t bytes, uint32_t unit, unsigned w) {
    uint64_t total = (bytes + c32::CHUNK - 1) / c32::CHUNK * c32::CHUNK;
    if (total > 0xF8000000u) return nullptr;
    char* b = static_cast<char*>(c32_mmap(nullptr, size_t(total) + 4096, 0, 0x4022, -1, 0));
    if (!b) return nullptr;
    own_base[k] = b;
    own_size[k++] = size_t(total) + 4096;
    int fd = c32_memfd(c32::CHUNK);
    if (fd < 0) c32_exit(91);
    for (size_t o = 0; o < total; o += c32::CHUNK) if (!c32_mmap(b + o, c32::CHUNK, 3, 0x11, fd, 0)) c32_exit(91);
    c32_close(fd);
    if (w == 4) for (size_t i = 0; i < c32::CHUNK; i += 4) memcpy(b + i, &unit, 4); else memset(b, int(unit), c32::CHUNK);
    return b + (total - bytes);
  }
  bool own(char* p, size_t n) {
    char* a = reinterpret_cast<char*>(uintptr_t(p) & ~uintptr_t(4095));
    size_t len = size_t(p + n - a + 4095) & ~size_t(4095);
    static char keep[12288];
    memcpy(keep, a, len);
    if (!c32_mmap(a, len, 3, 0x32, -1, 0)) c32_exit(91);
    memcpy(a, keep, len);
    return true;
  }
  ~Env() { for (int i = 0; i < k; i++) c32_munmap(own_base[i], own_size[i]); }
};
extern "C" int c32_main() {
  char* m = static_cast<char*>(c32_mmap(nullptr, c32::SIZE, 3, 1, 3, 0));
  if (!m) return 91;
  // arguments end where the usable addresses end, if the place is free
  constexpr uint32_t ROOM = 1u << 20;
  char* top = nullptr;
  for (uint32_t end = 0xFFFFE000u; !top && end > 0xF0000000u; end -= 4096) {
    char* a = static_cast<char*>(c32_mmap(reinterpret_cast<char*>(end - ROOM), ROOM, 3, 0x100022, -1, 0));  // MAP_FIXED_NOREPLACE
    if (a && a != reinterpret_cast<char*>(end - ROOM)) { c32_munmap(a, ROOM); a = nullptr; }
    if (a) top = a + ROOM;
  }
  if (!top) return 92;
  c32::Head* h = reinterpret_cast<c32::Head*>(m);
  for (char c; c32_read(4, &c, 1) == 1;) {
    if (h->big) { c32::Big b; memcpy(&b, m + 4096, sizeof b); Env env; c32::big(b, env, h->bigres); }
    else c32::batch(m, cfg_call, [&](const char* p, size_t bytes) -> const void* { if (bytes > ROOM - 64) return p; memcpy(top - bytes, p, bytes); return top - bytes; });
    if (c32_write(5, &c, 1) != 1) break;
  }
  return 0;
}
