#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
[[noreturn]] void c32_exit(int);
void* c32_alloc(size_t);
void c32_free(void*);
int c32_read(int, void*, size_t);
int c32_write(int, const void*, size_t);
void* c32_mmap(void*, size_t, int, int, int, uint32_t);
int c32_munmap(void*, size_t);
int c32_memfd(size_t);
void c32_close(int);
int c32_main();
}
