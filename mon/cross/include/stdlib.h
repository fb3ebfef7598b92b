#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int posix_memalign(void** p, size_t align, size_t n);
void* malloc(size_t n);
void* calloc(size_t n, size_t m);
void* realloc(void* p, size_t n);
void* aligned_alloc(size_t align, size_t n);
void* valloc(size_t n);
void free(void* p);
void abort(void) __attribute__((noreturn));
int rand(void);
void exit(int) __attribute__((noreturn));
static inline int abs(int n) { return n < 0 ? -n : n; }
static inline long labs(long n) { return n < 0 ? -n : n; }
static inline long long llabs(long long n) { return n < 0 ? -n : n; }
#ifdef __cplusplus
}
#endif
