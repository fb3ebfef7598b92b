// what the compiler itself may call
#include <stddef.h>
#include <stdint.h>
extern "C" {
void* memcpy(void* d, const void* s, size_t n) { char* a = (char*)d; const char* b = (const char*)s; while (n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { char* a = (char*)d; const char* b = (const char*)s; if (a < b) while (n--) *a++ = *b++; else { a += n; b += n; while (n--) *--a = *--b; } return d; }
void* memset(void* d, int c, size_t n) { char* a = (char*)d; while (n--) *a++ = (char)c; return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void* memchr(const void* x, int c, size_t n) { const unsigned char* a = (const unsigned char*)x; for (; n; n--, a++) if (*a == (unsigned char)c) return (void*)a; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
#ifdef __arm__
void* __aeabi_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __aeabi_memcpy4(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __aeabi_memcpy8(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __aeabi_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void __aeabi_memset(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset4(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset8(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memclr(void* d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr4(void* d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr8(void* d, size_t n) { memset(d, 0, n); }
#endif
#if !defined(__aarch64__) && !(defined(__riscv) && __riscv_xlen == 64)
// 32-bit targets: shifts and divisions of 64 bits
static uint64_t udivmod(uint64_t a, uint64_t b, uint64_t* rem) { uint64_t q = 0, r = 0; for (int i = 63; i >= 0; i--) { r = r << 1 | ((a >> i) & 1); if (r >= b) { r -= b; q |= (uint64_t)1 << i; } } if (rem) *rem = r; return q; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { return udivmod(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; udivmod(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t q = udivmod(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, 0); return (a < 0) != (b < 0) ? -(int64_t)q : (int64_t)q; }
#endif
#ifdef __arm__
unsigned __aeabi_uidiv(unsigned a, unsigned b) { unsigned q = 0, r = 0; for (int i = 31; i >= 0; i--) { r = r << 1 | ((a >> i) & 1); if (r >= b) { r -= b; q |= 1u << i; } } return q; }
int __aeabi_idiv(int a, int b) { unsigned q = __aeabi_uidiv(a < 0 ? -(unsigned)a : a, b < 0 ? -(unsigned)b : b); return (a < 0) != (b < 0) ? -(int)q : (int)q; }
#endif
#if defined(__powerpc__) && !defined(__powerpc64__)
typedef union { uint64_t v; struct { uint32_t hi, lo; } w; } U;
uint64_t __ashldi3(uint64_t x, int n) { U a, r; a.v = x; if (n & 32) { r.w.lo = 0; r.w.hi = a.w.lo << (n & 31); } else if (!n) return x; else { r.w.lo = a.w.lo << n; r.w.hi = a.w.hi << n | a.w.lo >> (32 - n); } return r.v; }
uint64_t __lshrdi3(uint64_t x, int n) { U a, r; a.v = x; if (n & 32) { r.w.hi = 0; r.w.lo = a.w.hi >> (n & 31); } else if (!n) return x; else { r.w.hi = a.w.hi >> n; r.w.lo = a.w.lo >> n | a.w.hi << (32 - n); } return r.v; }
#endif
// not needed so far, but compilers may come to want them
#define WEAK __attribute__((weak))
WEAK void* malloc(size_t); WEAK void free(void*);
static inline int bit(uint64_t x, int i) { volatile uint64_t y = x; return (int)(y >> i) & 1; }
WEAK int __popcountsi2(uint32_t x) { int n = 0; for (int i = 0; i < 32; i++) n += bit(x, i); return n; }
WEAK int __popcountdi2(uint64_t x) { int n = 0; for (int i = 0; i < 64; i++) n += bit(x, i); return n; }
WEAK int __clzsi2(uint32_t x) { int i = 31; while (i > 0 && !bit(x, i)) i--; return 31 - i; }
WEAK int __clzdi2(uint64_t x) { int i = 63; while (i > 0 && !bit(x, i)) i--; return 63 - i; }
WEAK int __ctzsi2(uint32_t x) { int i = 0; while (i < 31 && !bit(x, i)) i++; return i; }
WEAK int __ctzdi2(uint64_t x) { int i = 0; while (i < 63 && !bit(x, i)) i++; return i; }
WEAK int __ffsdi2(uint64_t x) { return x ? __ctzdi2(x) + 1 : 0; }
WEAK int __parityhi2(uint32_t x) { return __popcountsi2(x) & 1; }
#ifdef __arm__
WEAK void __aeabi_memmove4(void* d, const void* s, size_t n) { memmove(d, s, n); }
WEAK void __aeabi_memmove8(void* d, const void* s, size_t n) { memmove(d, s, n); }
#endif
}
WEAK void* operator new(size_t n) { return malloc(n); }
WEAK void* operator new[](size_t n) { return malloc(n); }
WEAK void operator delete(void* p) noexcept { free(p); }
WEAK void operator delete[](void* p) noexcept { free(p); }
WEAK void operator delete(void* p, size_t) noexcept { free(p); }
WEAK void operator delete[](void* p, size_t) noexcept { free(p); }
