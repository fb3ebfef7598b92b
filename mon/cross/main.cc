// Freestanding request server around the kernels: linked with the project's sources for another architecture, run by
// qemu-user. Reads requests from stdin, writes results to stdout. Inputs and outputs lie between inaccessible pages.
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "common.h"
#include "encoder.h"
#include "decoder.h"
#include "crc.h"
using namespace RapidYenc;

// ---- system calls
#if defined(__aarch64__)
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
	register long x8 asm("x8") = n; register long x0 asm("x0") = a; register long x1 asm("x1") = b; register long x2 asm("x2") = c; register long x3 asm("x3") = d; register long x4 asm("x4") = e; register long x5 asm("x5") = f;
	asm volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2), "r"(x3), "r"(x4), "r"(x5) : "memory", "cc"); return x0;
}
enum { N_READ = 63, N_WRITE = 64, N_EXIT = 93, N_MMAP = 222, N_MPROTECT = 226 };
asm(".globl _start\n_start:\n\tmov x0, sp\n\tbl c_start\n");
#elif defined(__riscv)
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
	register long a7 asm("a7") = n; register long a0 asm("a0") = a; register long a1 asm("a1") = b; register long a2 asm("a2") = c; register long a3 asm("a3") = d; register long a4 asm("a4") = e; register long a5 asm("a5") = f;
	asm volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2), "r"(a3), "r"(a4), "r"(a5) : "memory"); return a0;
}
enum { N_READ = 63, N_WRITE = 64, N_EXIT = 93, N_MMAP = 222, N_MPROTECT = 226 };
asm(".globl _start\n_start:\n.option push\n.option norelax\n\tla gp, __global_pointer$\n.option pop\n\tmv a0, sp\n\tandi sp, sp, -16\n\tcall c_start\n");
#elif defined(__arm__)
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
	register long r7 asm("r7") = n; register long r0 asm("r0") = a; register long r1 asm("r1") = b; register long r2 asm("r2") = c; register long r3 asm("r3") = d; register long r4 asm("r4") = e; register long r5 asm("r5") = f;
	asm volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2), "r"(r3), "r"(r4), "r"(r5) : "memory", "cc"); return r0;
}
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 1, N_MMAP = 192, N_MPROTECT = 125 };
asm(".globl _start\n.arm\n_start:\n\tmov r0, sp\n\tbic sp, sp, #15\n\tbl c_start\n");
#elif defined(__i386__)
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
	long r; long args[6] = { a, b, c, d, e, f }; long* ap = args;
	asm volatile("push %%ebp\n\tpush %%ebx\n\tmov %1, %%esi\n\tmov (%%esi), %%ebx\n\tmov 4(%%esi), %%ecx\n\tmov 8(%%esi), %%edx\n\tmov 16(%%esi), %%edi\n\tmov 20(%%esi), %%ebp\n\tmov 12(%%esi), %%esi\n\tint $0x80\n\tpop %%ebx\n\tpop %%ebp" : "=a"(r), "+d"(ap) : "0"(n) : "esi", "edi", "ecx", "memory", "cc");
	return r;
}
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 1, N_MMAP = 192, N_MPROTECT = 125 };
asm(".globl _start\n_start:\n\tmov %esp, %eax\n\tand $-16, %esp\n\tsub $12, %esp\n\tpush %eax\n\tcall c_start\n");
#elif defined(__powerpc64__) || defined(__powerpc__)
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
	register long r0 asm("r0") = n; register long r3 asm("r3") = a; register long r4 asm("r4") = b; register long r5 asm("r5") = c; register long r6 asm("r6") = d; register long r7 asm("r7") = e; register long r8 asm("r8") = f;
	asm volatile("sc\n\tbns+ 1f\n\tneg %1, %1\n1:" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5), "+r"(r6), "+r"(r7), "+r"(r8) : : "memory", "cr0", "r9", "r10", "r11", "r12", "ctr"); return r3;
}
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 1, N_MMAP = 90, N_MPROTECT = 125 };
#ifdef __powerpc64__
asm(".globl _start\n_start:\n\taddis 2, 12, .TOC.-_start@ha\n\taddi 2, 2, .TOC.-_start@l\n\tmr 3, 1\n\tli 0, 0\n\tstdu 0, -128(1)\n\tbl c_start\n\tnop\n");
#else
asm(".globl _start\n_start:\n\tmr 3, 1\n\tli 0, 0\n\tstwu 0, -32(1)\n\tbl c_start\n");
#endif
#elif defined(__s390x__)
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
	register long r1 asm("r1") = n; register long r2 asm("r2") = a; register long r3 asm("r3") = b; register long r4 asm("r4") = c; register long r5 asm("r5") = d; register long r6 asm("r6") = e; register long r7 asm("r7") = f;
	asm volatile("svc 0" : "+d"(r2) : "d"(r1), "d"(r3), "d"(r4), "d"(r5), "d"(r6), "d"(r7) : "memory", "cc"); return r2;
}
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 1, N_MMAP = 90, N_MPROTECT = 125 };
asm(".globl _start\n_start:\n\tlgr %r2, %r15\n\taghi %r15, -160\n\tbrasl %r14, c_start\n");
#endif
static void quit(int c) { for (;;) sys6(N_EXIT, c, 0, 0, 0, 0, 0); }
static void* mapPages(size_t n) {
#ifdef __s390x__
	long a[6] = { 0, (long)n, 3, 0x22, -1, 0 }; long r = sys6(N_MMAP, (long)a, 0, 0, 0, 0, 0);
#else
	long r = sys6(N_MMAP, 0, (long)n, 3, 0x22, -1, 0);
#endif
	if (r < 0 && r > -4096) quit(3);
	return (void*)r;
}
static unsigned long* auxv;
static unsigned long hwMask[2];
extern "C" unsigned long getauxval(unsigned long t) {
	for (unsigned long* p = auxv; p[0]; p += 2) if (p[0] == t) return t == 16 ? p[1] & hwMask[0] : t == 26 ? p[1] & hwMask[1] : p[1];
	return 0;
}
#include <stdarg.h>
static uint64_t probeMask;
extern "C" long syscall(long n, ...) {
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long); va_end(ap);
#ifdef __riscv
	if (n == 258) { // riscv_hwprobe, answered here: the emulator's own answer leaves out Zbc
		if (probeMask == 0xffffffff) return -1;
		for (long i = 0; i < b; i++) { int64_t* p = (int64_t*)a + 2 * i; if (p[0] == 4) p[1] = (int64_t)probeMask; else if (p[0] == 3) p[1] = 1; else { p[0] = -1; p[1] = 0; } }
		return 0;
	}
#endif
	long r = sys6(n, a, b, c, d, e, 0);
	if (r < 0 && r > -4096) return -1;
	return r;
}
// ---- memory, never reused
static char* heap; static size_t heapLeft;
extern "C" {
void* aligned_alloc(size_t align, size_t n) {
	if (align < 16) align = 16;
	size_t pad = (size_t)(-(intptr_t)heap) & (align - 1);
	if (!heap || heapLeft < n + pad) { heapLeft = (n + align + 0xfffff) & ~(size_t)0xffff; heap = (char*)mapPages(heapLeft); pad = (size_t)(-(intptr_t)heap) & (align - 1); }
	char* r = heap + pad; heap += pad + n; heapLeft -= pad + n; return r;
}
void* malloc(size_t n) { return aligned_alloc(16, n); }
void* calloc(size_t n, size_t m) { return aligned_alloc(16, n * m); }
int posix_memalign(void** p, size_t a, size_t n) { *p = aligned_alloc(a, n); return 0; }
void* valloc(size_t n) { return aligned_alloc(4096, n); }
void free(void*) {}
void abort(void) { quit(134); __builtin_unreachable(); }
void exit(int c) { quit(c); __builtin_unreachable(); }
void __cxa_pure_virtual() { quit(134); }
int __cxa_guard_acquire(uint64_t* g) { return !*(char*)g; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
int __cxa_atexit(void(*)(void*), void*, void*) { return 0; }
void* __dso_handle;
}
void* operator new(size_t n) { return malloc(n); }
void* operator new[](size_t n) { return malloc(n); }
void operator delete(void*) {}
void operator delete[](void*) {}
void operator delete(void*, size_t) {}
void operator delete[](void*, size_t) {}

// ---- requests
struct Arena { uint8_t* p; size_t n; };
static size_t pageSize = 65536;
static Arena arena(size_t n) {
	n = (n + pageSize - 1) / pageSize * pageSize;
	uint8_t* b = (uint8_t*)mapPages(n + 3 * pageSize);
	b += (size_t)(-(intptr_t)b) & (pageSize - 1);
	sys6(N_MPROTECT, (long)b, (long)pageSize, 0, 0, 0, 0);
	sys6(N_MPROTECT, (long)(b + pageSize + n), (long)pageSize, 0, 0, 0, 0);
	Arena a = { b + pageSize, n }; return a;
}
static uint8_t inBuf[1 << 16]; static size_t inAt, inEnd;
static bool get(void* d, size_t n) {
	uint8_t* o = (uint8_t*)d;
	while (n) {
		if (inAt == inEnd) { long r = sys6(N_READ, 0, (long)inBuf, sizeof(inBuf), 0, 0, 0); if (r <= 0) return false; inAt = 0; inEnd = r; }
		size_t k = inEnd - inAt; if (k > n) k = n;
		memcpy(o, inBuf + inAt, k); o += k; inAt += k; n -= k;
	}
	return true;
}
static uint8_t outBuf[1 << 16]; static size_t outAt;
static void flush() { for (size_t i = 0; i < outAt;) { long r = sys6(N_WRITE, 1, (long)(outBuf + i), (long)(outAt - i), 0, 0, 0); if (r <= 0) quit(4); i += r; } outAt = 0; }
static void put(const void* s, size_t n) {
	const uint8_t* p = (const uint8_t*)s;
	while (n) { if (outAt == sizeof(outBuf)) flush(); size_t k = sizeof(outBuf) - outAt; if (k > n) k = n; memcpy(outBuf + outAt, p, k); outAt += k; p += k; n -= k; }
}
// the wire format is little-endian
static bool get32(uint32_t* v) { uint8_t b[4]; if (!get(b, 4)) return false; *v = b[0] | (uint32_t)b[1] << 8 | (uint32_t)b[2] << 16 | (uint32_t)b[3] << 24; return true; }
static void put32(uint32_t v) { uint8_t b[4] = { (uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24) }; put(b, 4); }
static uint8_t* placeIn(Arena& a, size_t n, uint32_t place) { // bit 15: flush with the end, else offset from the start
	uint32_t off = place & 0x7fff;
	return place & 0x8000 ? a.p + a.n - n - off : a.p + off;
}
static Arena S, D;
static void canary(uint8_t* d, size_t cap) { uint8_t* lo = d - 128 < D.p ? D.p : d - 128; uint8_t* hi = d + cap + 128 > D.p + D.n ? D.p + D.n : d + cap + 128; for (uint8_t* p = lo; p < hi; p++) *p = 0xA5; }
static uint32_t spoiled(uint8_t* d, size_t cap) { uint8_t* lo = d - 128 < D.p ? D.p : d - 128; uint8_t* hi = d + cap + 128 > D.p + D.n ? D.p + D.n : d + cap + 128; for (uint8_t* p = lo; p < d; p++) if (*p != 0xA5) return 1; for (uint8_t* p = d + cap; p < hi; p++) if (*p != 0xA5) return 2; return 0; }

// initialisers of globals: run once the features to admit are known
extern "C" { extern void (*__preinit_array_start[])() __attribute__((weak, visibility("hidden"))); extern void (*__preinit_array_end[])() __attribute__((weak, visibility("hidden"))); extern void (*__init_array_start[])() __attribute__((weak, visibility("hidden"))); extern void (*__init_array_end[])() __attribute__((weak, visibility("hidden"))); }
static void constructors() {
	static bool done; if (done) return;
	done = true;
	for (void (**f)() = __preinit_array_start; f != __preinit_array_end; f++) (*f)();
	for (void (**f)() = __init_array_start; f != __init_array_end; f++) (*f)();
}
extern "C" void c_start(unsigned long* sp) {
	unsigned long argc = sp[0]; unsigned long* p = sp + 1 + argc + 1;
	while (*p) p++;
	auxv = p + 1;
	S = arena(1 << 17); D = arena(1 << 19);
	uint32_t op, a, b, c, place, n;
	while (get32(&op) && get32(&a) && get32(&b) && get32(&c) && get32(&place) && get32(&n)) {
		uint8_t* s = placeIn(S, n, place & 0xffff);
		if (n > S.n - 0x8000 || !get(s, n)) quit(5);
		if (op == 100) { // start: which features to admit
			hwMask[0] = a; hwMask[1] = b; probeMask = c; constructors();
			encoder_init(); decoder_init(); crc32_init();
			put32(_encode_isa); put32(_decode_isa); put32(_crc32_isa); put32((uint32_t)getauxval(16)); put32((uint32_t)getauxval(26));
		} else if (op == 0) { // encode: a line size, b column, c bit 0 doEnd, rest capacity
			size_t cap = c >> 1; uint8_t* d = placeIn(D, cap, place >> 16); canary(d, cap);
			int col = (int)b; size_t l = encode((int)a, &col, s, d, n, c & 1);
			put32((uint32_t)l); put32((uint32_t)col); put32(spoiled(d, cap)); if (l > cap) quit(6); put(d, l);
		} else if (op == 1) { // decode: a raw, c in place
			uint8_t* d = c ? s : placeIn(D, n, place >> 16); if (!c) canary(d, n);
			size_t l = decode(a, s, d, n, NULL);
			put32((uint32_t)l); put32(c ? 0 : spoiled(d, n)); if (l > n) quit(6); put(d, l);
		} else if (op == 2) { // decode_end: a state, c in place
			uint8_t* d = c ? s : placeIn(D, n, place >> 16); if (!c) canary(d, n);
			const void* sp2 = s; void* dp = d; YencDecoderState st = (YencDecoderState)a;
			int e = decode_end(&sp2, &dp, n, &st); size_t l = (uint8_t*)dp - d;
			put32(e); put32(st); put32((uint32_t)((const uint8_t*)sp2 - s)); put32((uint32_t)l); put32(c ? 0 : spoiled(d, n)); if (l > n) quit(6); put(d, l);
		} else if (op == 3) put32(crc32(s, n, a));
		else if (op == 4) put32(crc32_multiply(a, b));
		else if (op == 5) { uint64_t len = a | (uint64_t)b << 32; uint8_t w[8]; memcpy(w, s, 8); uint32_t x = w[0] | (uint32_t)w[1] << 8 | (uint32_t)w[2] << 16 | (uint32_t)w[3] << 24, y = w[4] | (uint32_t)w[5] << 8 | (uint32_t)w[6] << 16 | (uint32_t)w[7] << 24;
			put32(crc32_combine(x, y, len)); put32(crc32_zeros(x, len)); put32(crc32_unzero(x, len)); put32(crc32_shift(x, crc32_powmod(len))); put32(crc32_shift(x, ~crc32_powmod(len)));
		} else quit(7);
		put32(0x600DF00D);
		if (op == 100) flush();
	}
	flush(); quit(0);
}
