// What a 32-bit program needs from the system: no 32-bit library is installed, so start-up,
// system calls, memory and the few functions a compiler expects are here.
#include <asm/unistd_32.h>
#include <elf.h>
#include <stddef.h>
#include <stdint.h>
#include "c32_rt.hpp"
extern "C" {
int sys6(int nr, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t);
asm(".text\n.globl sys6\nsys6:\n push %ebp\n push %ebx\n push %esi\n push %edi\n mov 20(%esp),%eax\n mov 24(%esp),%ebx\n mov 28(%esp),%ecx\n mov 32(%esp),%edx\n mov 36(%esp),%esi\n mov 40(%esp),%edi\n mov 44(%esp),%ebp\n int $0x80\n pop %edi\n pop %esi\n pop %ebx\n pop %ebp\n ret\n"
    ".globl _start\n_start:\n xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call c32_start\n hlt\n");
void* memcpy(void* d, const void* s, size_t n) { void *a = d; asm volatile("rep movsb" : "+D"(a), "+S"(s), "+c"(n) : : "memory"); return d; }
void* memmove(void* d, const void* s, size_t n) {
  if (uintptr_t(d) - uintptr_t(s) >= n) return memcpy(d, s, n);
  char* a = (char*)d + n - 1;
  const char* b = (const char*)s + n - 1;
  asm volatile("std\n rep movsb\n cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
  return d;
}
void* memset(void* d, int v, size_t n) { void* a = d; asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(v) : "memory"); return d; }
int memcmp(const void* x, const void* y, size_t n) { for (size_t i = 0; i < n; i++) { int k = ((const unsigned char*)x)[i] - ((const unsigned char*)y)[i]; if (k) return k; } return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
void* memchr(const void* x, int c, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char*)x)[i] == (unsigned char)c) return (char*)x + i; return nullptr; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) { n++; asm volatile(""); } return n; }
void* __memcpy_chk(void* d, const void* s, size_t n, size_t k) { if (n > k) c32_exit(82); return memcpy(d, s, n); }
void* __memmove_chk(void* d, const void* s, size_t n, size_t k) { if (n > k) c32_exit(82); return memmove(d, s, n); }
void* __memset_chk(void* d, int v, size_t n, size_t k) { if (n > k) c32_exit(82); return memset(d, v, n); }
[[noreturn]] void __stack_chk_fail() { c32_exit(82); }
[[noreturn]] void c32_exit(int c) { for (;;) sys6(__NR_exit_group, uint32_t(c), 0, 0, 0, 0, 0); }
[[noreturn]] void abort() { c32_exit(83); }
[[noreturn]] void __assert_fail(const char*, const char*, unsigned, const char*) { c32_exit(84); }
int c32_read(int fd, void* p, size_t n) { return sys6(__NR_read, uint32_t(fd), uint32_t(p), n, 0, 0, 0); }
int c32_write(int fd, const void* p, size_t n) { return sys6(__NR_write, uint32_t(fd), uint32_t(p), n, 0, 0, 0); }
void* c32_mmap(void* a, size_t n, int prot, int flags, int fd, uint32_t page) {
  int r = sys6(__NR_mmap2, uint32_t(a), n, uint32_t(prot), uint32_t(flags), uint32_t(fd), page);
  return uint32_t(r) > 0xFFFFF000u ? nullptr : reinterpret_cast<void*>(r);
}
int c32_munmap(void* a, size_t n) { return sys6(__NR_munmap, uint32_t(a), n, 0, 0, 0, 0); }
int c32_memfd(size_t n) { int fd = sys6(__NR_memfd_create, uint32_t("chunk"), 0, 0, 0, 0, 0); return fd < 0 || sys6(__NR_ftruncate, uint32_t(fd), n, 0, 0, 0, 0) < 0 ? -1 : fd; }
void c32_close(int fd) { sys6(__NR_close, uint32_t(fd), 0, 0, 0, 0, 0); }
// division of 64-bit numbers
static uint64_t divide(uint64_t n, uint64_t d, uint64_t* rem) {
  uint64_t q = 0, r = 0;
  for (int i = 63; i >= 0; i--) { r = r << 1 | (n >> i & 1); if (r >= d) { r -= d; q |= 1ull << i; } }
  if (rem) *rem = r;
  return q;
}
uint64_t __udivdi3(uint64_t n, uint64_t d) { return divide(n, d, nullptr); }
uint64_t __umoddi3(uint64_t n, uint64_t d) { uint64_t r; divide(n, d, &r); return r; }
uint64_t __udivmoddi4(uint64_t n, uint64_t d, uint64_t* r) { return divide(n, d, r); }
int64_t __divdi3(int64_t n, int64_t d) { uint64_t q = divide(n < 0 ? 0 - uint64_t(n) : uint64_t(n), d < 0 ? 0 - uint64_t(d) : uint64_t(d), nullptr); return int64_t((n < 0) != (d < 0) ? 0 - q : q); }
int64_t __moddi3(int64_t n, int64_t d) { uint64_t r; divide(n < 0 ? 0 - uint64_t(n) : uint64_t(n), d < 0 ? 0 - uint64_t(d) : uint64_t(d), &r); return int64_t(n < 0 ? 0 - r : r); }
int __popcountsi2(uint32_t x) { int n = 0; for (; x; x &= x - 1) n++; return n; }
int __popcountdi2(uint64_t x) { return __popcountsi2(uint32_t(x)) + __popcountsi2(uint32_t(x >> 32)); }
// exceptions end the program: 78 says that memory could not be had
void* __cxa_allocate_exception(size_t n) { return c32_alloc(n); }
void __cxa_free_exception(void*) {}
[[noreturn]] void __cxa_throw(void*, void*, void (*)(void*)) { c32_exit(85); }
[[noreturn]] void __cxa_rethrow() { c32_exit(85); }
void* __cxa_begin_catch(void* p) { return p; }
void __cxa_end_catch() {}
[[noreturn]] void _Unwind_Resume(void*) { c32_exit(85); }
int __gxx_personality_v0() { c32_exit(85); }
[[noreturn]] void __cxa_throw_bad_array_new_length() { c32_exit(78); }
[[noreturn]] void __cxa_pure_virtual() { c32_exit(85); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)()) { return 0; }
void* __dso_handle = nullptr;
// one thread only
int __cxa_guard_acquire(uint64_t* g) { return !*reinterpret_cast<char*>(g); }
void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<char*>(g) = 1; }
void __cxa_guard_abort(uint64_t*) {}
int pthread_mutex_lock(void*) { return 0; }
int pthread_mutex_trylock(void*) { return 0; }
int pthread_mutex_unlock(void*) { return 0; }
int pthread_mutex_init(void*, const void*) { return 0; }
int pthread_mutex_destroy(void*) { return 0; }
int pthread_cond_wait(void*, void*) { c32_exit(86); }
int pthread_cond_signal(void*) { return 0; }
int pthread_cond_broadcast(void*) { return 0; }
int pthread_rwlock_rdlock(void*) { return 0; }
int pthread_rwlock_wrlock(void*) { return 0; }
int pthread_rwlock_unlock(void*) { return 0; }
int pthread_once(int* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
int sched_yield() { return 0; }
int nanosleep(const void*, void*) { return 0; }
long syscall(long, ...) { return 0; }
static int no_error;
int* __errno_location() { return &no_error; }
// memory: blocks of powers of two, reused; what follows a block is checked when it is released
struct Block { uint32_t size, order, magic, pad; };
static Block* spare[24];
static char *heap, *heap_end;
static uint64_t total;
static constexpr uint64_t LIMIT = 1ull << 30;
void* c32_alloc(size_t n) {
  if (n > LIMIT) return nullptr;
  unsigned o = 5;
  while (o < 24 && (1u << o) < n + sizeof(Block) + 16) o++;
  Block* b;
  if (o == 24) {
    size_t m = (n + sizeof(Block) + 16 + 4095) / 4096 * 4096;
    if (total + m > LIMIT) return nullptr;
    b = static_cast<Block*>(c32_mmap(nullptr, m, 3, 0x22, -1, 0));
    if (!b) return nullptr;
    total += m;
  } else if (spare[o]) {
    b = spare[o];
    spare[o] = *reinterpret_cast<Block**>(b + 1);
  } else {
    size_t m = 1u << o;
    if (size_t(heap_end - heap) < m) {
      size_t k = m > (4u << 20) ? m : 4u << 20;
      if (total + k > LIMIT) return nullptr;
      heap = static_cast<char*>(c32_mmap(nullptr, k, 3, 0x22, -1, 0));
      if (!heap) { heap_end = heap; return nullptr; }
      heap_end = heap + k;
      total += k;
    }
    b = reinterpret_cast<Block*>(heap);
    heap += m;
  }
  *b = {uint32_t(n), o, 0xB10CB10C, 0};
  char* p = reinterpret_cast<char*>(b + 1);
  memset(p, 0xA5, n < 4096 ? n : 4096);
  memset(p + n, 0x5C, 16);
  return p;
}
void c32_free(void* p) {
  if (!p) return;
  Block* b = static_cast<Block*>(p) - 1;
  if (b->magic != 0xB10CB10C) c32_exit(81);
  const char* e = static_cast<char*>(p) + b->size;
  for (int i = 0; i < 16; i++) if (e[i] != 0x5C) c32_exit(81);
  b->magic = 0;
  if (b->order == 24) {
    size_t m = (b->size + sizeof(Block) + 16 + 4095) / 4096 * 4096;
    total -= m;
    c32_munmap(b, m);
    return;
  }
  *reinterpret_cast<Block**>(p) = spare[b->order];
  spare[b->order] = b;
}
void* malloc(size_t n) { return c32_alloc(n); }
void free(void* p) { c32_free(p); }
void* calloc(size_t a, size_t b) { if (b && a > LIMIT / b) return nullptr; void* p = c32_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { void* q = c32_alloc(n); if (q && p) { Block* b = static_cast<Block*>(p) - 1; memcpy(q, p, b->size < n ? b->size : n); c32_free(p); } return q; }
extern void (*__init_array_start[])(int, char**, char**);
extern void (*__init_array_end[])(int, char**, char**);
struct UserDesc { uint32_t entry, base, limit, flags; };
[[noreturn]] void c32_start(uint32_t* sp) {
  uint32_t* q = sp + 1 + sp[0] + 1;
  while (*q) q++;
  q++;
  const Elf32_Phdr* ph = nullptr;
  uint32_t n = 0;
  for (; *q; q += 2) { if (*q == 3) ph = reinterpret_cast<Elf32_Phdr*>(q[1]); if (*q == 5) n = q[1]; }
  uint32_t size = 0, align = 16;
  const Elf32_Phdr* tls = nullptr;
  for (uint32_t i = 0; i < n; i++) if (ph[i].p_type == PT_TLS) tls = ph + i;
  if (tls) { align = tls->p_align > 16 ? tls->p_align : 16; size = (tls->p_memsz + align - 1) / align * align; }
  char* t = static_cast<char*>(c32_mmap(nullptr, size + 8192, 3, 0x22, -1, 0));
  uint32_t* tp = reinterpret_cast<uint32_t*>(t + size);
  if (tls) memcpy(t + size - (tls->p_memsz + tls->p_align - 1) / tls->p_align * tls->p_align, reinterpret_cast<void*>(tls->p_vaddr), tls->p_filesz);
  tp[0] = uint32_t(tp);
  tp[5] = 0x12345600;  // stack protector
  UserDesc d = {0xFFFFFFFF, uint32_t(tp), 0xFFFFF, 0x51};
  if (sys6(__NR_set_thread_area, uint32_t(&d), 0, 0, 0, 0, 0) < 0) c32_exit(90);
  asm volatile("movw %w0, %%gs" : : "r"(d.entry * 8 + 3));
  for (auto f = __init_array_start; f != __init_array_end; f++) (*f)(0, nullptr, nullptr);
  c32_exit(c32_main());
}
}
// C++ names
enum class align_val : size_t {};
asm(".globl _ZSt7nothrow\n.section .rodata\n_ZSt7nothrow: .long 0\n.text");
extern "C" {
static void* must(size_t n) { void* p = c32_alloc(n); if (!p) c32_exit(78); return p; }
#define SYM(x) asm(x)
void* n1(size_t n) SYM("_Znwj"); void* n1(size_t n) { return must(n); }
void* n2(size_t n) SYM("_Znaj"); void* n2(size_t n) { return must(n); }
void* n3(size_t n, const void*) SYM("_ZnwjRKSt9nothrow_t"); void* n3(size_t n, const void*) { return c32_alloc(n); }
void* n4(size_t n, const void*) SYM("_ZnajRKSt9nothrow_t"); void* n4(size_t n, const void*) { return c32_alloc(n); }
void d1(void* p) SYM("_ZdlPv"); void d1(void* p) { c32_free(p); }
void d2(void* p) SYM("_ZdaPv"); void d2(void* p) { c32_free(p); }
void d3(void* p, size_t) SYM("_ZdlPvj"); void d3(void* p, size_t) { c32_free(p); }
void d4(void* p, size_t) SYM("_ZdaPvj"); void d4(void* p, size_t) { c32_free(p); }
void d5(void* p, const void*) SYM("_ZdlPvRKSt9nothrow_t"); void d5(void* p, const void*) { c32_free(p); }
void d6(void* p, const void*) SYM("_ZdaPvRKSt9nothrow_t"); void d6(void* p, const void*) { c32_free(p); }
#define END(f, s, c) [[noreturn]] void f() SYM(s); void f() { c32_exit(c); }
END(t1, "_ZSt17__throw_bad_allocv", 78)
END(t2, "_ZSt20__throw_length_errorPKc", 78)
END(t3, "_ZSt28__throw_bad_array_new_lengthv", 78)
END(t4, "_ZSt19__throw_logic_errorPKc", 79)
END(t5, "_ZSt20__throw_out_of_rangePKc", 79)
END(t6, "_ZSt24__throw_out_of_range_fmtPKcz", 79)
END(t7, "_ZSt9terminatev", 83)
END(t8, "_ZSt25__throw_bad_function_callv", 79)
END(t9, "_ZSt24__throw_invalid_argumentPKc", 79)
END(t10, "_ZSt20__throw_system_errori", 79)
END(t11, "_ZSt21__glibcxx_assert_failPKciS0_S0_", 84)
END(t12, "_ZSt27__throw_bad_optional_accessv", 79)
int64_t c1() SYM("_ZNSt6chrono3_V212steady_clock3nowEv"); int64_t c1() { static int64_t t; return t += 1000; }
int64_t c2() SYM("_ZNSt6chrono3_V212system_clock3nowEv"); int64_t c2() { static int64_t t; return t += 1000; }
}
