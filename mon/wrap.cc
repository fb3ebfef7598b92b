// Linked into the addon under test with -Wl,--wrap=...: caps the CPU feature detection (to reach every kernel
// on one machine) and watches the addon's own malloc/realloc/free.  Nothing in /repo changes for this.
//   YV_ISA=sse2|ssse3|sse41|avx|avx2|avx3|vbmi2   cap for encoder/decoder kernels
//   YV_CRC=0|1|2                                  cap for CRC kernels
//   YV_SLOW=us                                   delay each feature detection
//   YV_MALLOC=pass|guard                          guard: result between inaccessible pages, canaries, freed memory inaccessible
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include "stats.h"

extern "C" {
__attribute__((visibility("default"))) YvStats yv_stats;

#ifdef YV_WRAP_ISA
int __real__ZN9RapidYenc16cpu_supports_isaEv();
int __real__ZN9RapidYenc20cpu_supports_crc_isaEv();
static void slow() { const char* e = getenv("YV_SLOW"); if (e) usleep(atoi(e)); } // injected delay in the middle of the initialisation
int __wrap__ZN9RapidYenc16cpu_supports_isaEv() {
	slow(); int r = __real__ZN9RapidYenc16cpu_supports_isaEv(), cap = 0x7fffffff;
	const char* e = getenv("YV_ISA");
	if (e) {
		if (!strcmp(e, "sse2")) cap = 0x100;
		else if (!strcmp(e, "ssse3")) cap = 0x200;
		else if (!strcmp(e, "sse41")) cap = 0x300;
		else if (!strcmp(e, "avx")) cap = 0x381;
		else if (!strcmp(e, "avx2")) cap = 0x403;
		else if (!strcmp(e, "avx3")) cap = 0x507;
		else if (!strcmp(e, "vbmi2")) cap = 0x607;
	}
	__atomic_add_fetch(&yv_stats.isa_calls, 1, __ATOMIC_SEQ_CST);
	yv_stats.isa_real = r;
	if (r > cap) r = cap;
	yv_stats.isa_used = r;
	return r;
}
int __wrap__ZN9RapidYenc20cpu_supports_crc_isaEv() {
	slow(); int r = __real__ZN9RapidYenc20cpu_supports_crc_isaEv();
	const char* e = getenv("YV_CRC");
	__atomic_add_fetch(&yv_stats.crc_calls, 1, __ATOMIC_SEQ_CST);
	yv_stats.crc_real = r;
	if (e && e[0] >= '0' && e[0] <= '9' && r > atoi(e)) r = atoi(e);
	yv_stats.crc_used = r;
	return r;
}
#endif

#ifdef YV_WRAP_INIT
void __wrap__ZN9RapidYenc12encoder_initEv() {}
void __wrap__ZN9RapidYenc12decoder_initEv() {}
#endif

#ifdef YV_WRAP_MALLOC
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_calloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int mode = -1; // 0 pass, 1 guard
// open-addressing table of live blocks
struct Blk { uintptr_t p; size_t n; char* base; size_t map; };
static Blk* tab; static size_t cap_, used_;
static const uintptr_t DEAD = 1;
static Blk* find(uintptr_t p) { if (!cap_) return 0; size_t i = (p >> 4) * 0x9E3779B97F4A7C15ull % cap_; for (size_t k = 0; k < cap_; k++, i = (i + 1) % cap_) { if (tab[i].p == p) return tab + i; if (!tab[i].p) return 0; } return 0; }
static void insert(Blk b) {
	if ((used_ + 1) * 2 > cap_) {
		Blk* o = tab; size_t oc = cap_; size_t live = 0;
		for (size_t i = 0; i < oc; i++) if (o[i].p > DEAD) live++;
		cap_ = live * 4 + 1024; used_ = 0; tab = (Blk*)__real_calloc(cap_, sizeof(Blk));
		for (size_t i = 0; i < oc; i++) if (o[i].p > DEAD) insert(o[i]);
		__real_free(o);
	}
	size_t i = (b.p >> 4) * 0x9E3779B97F4A7C15ull % cap_;
	while (tab[i].p > DEAD) i = (i + 1) % cap_;
	if (!tab[i].p) used_++;
	tab[i] = b;
}
static void die(const char* m, void* p) {
	char s[200]; int l = snprintf(s, sizeof(s), "YV-MONITOR: %s %p\n", m, p);
	if (write(2, s, l)) {}
	abort();
}
static const unsigned char CAN = 0xC9;
static const size_t PG = 4096;
static struct { char* b; size_t m; } q[128]; static unsigned qi;
static size_t guarded; // live guarded blocks (each needs up to 3 mappings, and the kernel limits their number)
static void quarantine(char* base, size_t map) { // keep freed blocks inaccessible for a while: use after free faults
	guarded--;
	mprotect(base, map, PROT_NONE);
	madvise(base, map, MADV_DONTNEED);
	if (q[qi].b) munmap(q[qi].b, q[qi].m);
	q[qi].b = base; q[qi].m = map; qi = (qi + 1) % 128;
}
static int getMode() { if (mode < 0) { const char* e = getenv("YV_MALLOC"); mode = e && !strcmp(e, "guard"); } return mode; }
static bool refuse(size_t n) { // injected failure
	int64_t k = ++yv_stats.alloc_seq;
	if (!(yv_stats.fail_at && (k == yv_stats.fail_at || (yv_stats.fail_all && k > yv_stats.fail_at))) && !(yv_stats.fail_over && n > (size_t)yv_stats.fail_over)) return false;
	yv_stats.fail_hits++; errno = ENOMEM;
	return true;
}
static Blk alloc(size_t n) {
	Blk b = { 0, n, 0, 0 };
	if (getMode() && guarded < 8000) {
		size_t pages = (n + PG - 1) / PG * PG; if (!pages) pages = PG;
		b.map = pages + 2*PG;
		b.base = (char*)mmap(NULL, b.map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b.base == MAP_FAILED || mprotect(b.base + PG, pages, PROT_READ | PROT_WRITE)) {
			if (b.base != MAP_FAILED) munmap(b.base, b.map);
			b.base = 0; b.map = 0; b.p = (uintptr_t)__real_malloc(n);
			return b;
		}
		guarded++;
		size_t r = (n + 15) & ~(size_t)15; if (!r) r = 16;
		char* p = b.base + PG + pages - r; // end within 15 bytes of the guard page, 16-byte aligned like malloc
		memset(b.base + PG, CAN, p - (b.base + PG) > 256 ? 256 : p - (b.base + PG));
		if (p - (b.base + PG) > 256) memset(p - 256, CAN, 256);
		if (n <= (1u << 20)) memset(p, 0xEB, n); // not zero: reads of uninitialised memory become visible
		memset(p + n, CAN, r - n);
		b.p = (uintptr_t)p;
	} else b.p = (uintptr_t)__real_malloc(n);
	return b;
}
static void checkCanary(const Blk& b) {
	if (!b.base) return;
	const unsigned char* p = (const unsigned char*)b.p; size_t r = (b.n + 15) & ~(size_t)15; if (!r) r = 16;
	bool bad = false;
	for (size_t i = b.n; i < r; i++) if (p[i] != CAN) bad = true;
	const unsigned char* lo = (const unsigned char*)b.base + PG; size_t f = p - lo; if (f > 256) f = 256;
	for (size_t i = 1; i <= f; i++) if (p[-(long)i] != CAN) bad = true;
	if (bad) { yv_stats.canary_hits++; die("write outside a native allocation", (void*)b.p); }
}
void* __wrap_malloc(size_t n) {
	pthread_mutex_lock(&mu);
	if (refuse(n)) { pthread_mutex_unlock(&mu); return NULL; }
	Blk b = alloc(n);
	if (b.p) { insert(b); yv_stats.mallocs++; yv_stats.live++; yv_stats.live_bytes += n; if (yv_stats.live_bytes > yv_stats.peak_bytes) yv_stats.peak_bytes = yv_stats.live_bytes; }
	pthread_mutex_unlock(&mu);
	return (void*)b.p;
}
static void* track(void* p, size_t n) {
	if (p) { pthread_mutex_lock(&mu); Blk b = { (uintptr_t)p, n, 0, 0 }; insert(b); yv_stats.mallocs++; yv_stats.live++; yv_stats.live_bytes += n; pthread_mutex_unlock(&mu); }
	return p;
}
void* __wrap_calloc(size_t k, size_t n) {
	if (n && k > (size_t)-1 / n) return NULL;
	if (!getMode()) { if (refuse(k * n)) return NULL; return track(__real_calloc(k, n), k * n); }
	void* p = __wrap_malloc(k * n); if (p) memset(p, 0, k * n); return p;
}
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (refuse(n)) return ENOMEM; int r = __real_posix_memalign(p, a, n); if (!r) track(*p, n); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (refuse(n)) return NULL; return track(__real_aligned_alloc(a, n), n); }
static void release(Blk* e) {
	Blk b = *e; e->p = DEAD;
	yv_stats.frees++; yv_stats.live--; yv_stats.live_bytes -= b.n;
	if (b.base) { checkCanary(b); quarantine(b.base, b.map); }
	else __real_free((void*)b.p);
}
// a block that is not ours: freed twice, or obtained elsewhere (libc), which is for the C library to judge
static void foreign(void* p) {
	for (unsigned i = 0; i < 128; i++) if (q[i].b && (char*)p >= q[i].b && (char*)p < q[i].b + q[i].m) { yv_stats.bad_frees++; die("block freed twice", p); }
	__real_free(p);
}
void __wrap_free(void* p) {
	if (!p) return;
	pthread_mutex_lock(&mu);
	Blk* e = find((uintptr_t)p);
	if (e) release(e); else foreign(p);
	pthread_mutex_unlock(&mu);
}
void* __wrap_realloc(void* p, size_t n) {
	if (!p) return __wrap_malloc(n);
	if (!n) { __wrap_free(p); return NULL; } // as glibc
	pthread_mutex_lock(&mu);
	if (refuse(n)) { pthread_mutex_unlock(&mu); return NULL; }
	Blk* e = find((uintptr_t)p);
	if (!e) { void* r = __real_realloc(p, n); pthread_mutex_unlock(&mu); return r; }
	Blk old = *e; void* res = NULL;
	yv_stats.reallocs++;
	if (old.base) {
		checkCanary(old);
		Blk b = alloc(n);
		if (b.p) { memcpy((void*)b.p, p, n < old.n ? n : old.n); e->p = DEAD; quarantine(old.base, old.map); insert(b); res = (void*)b.p; }
	} else {
		res = __real_realloc(p, n);
		if (res) { e->p = DEAD; Blk b = { (uintptr_t)res, n, 0, 0 }; insert(b); }
	}
	if (res) { yv_stats.live_bytes += (int64_t)n - (int64_t)old.n; if (yv_stats.live_bytes > yv_stats.peak_bytes) yv_stats.peak_bytes = yv_stats.live_bytes; }
	pthread_mutex_unlock(&mu);
	return res;
}
#endif

#ifdef YV_WRAP_CPUID
// CPUID and XGETBV of the addon are redirected here by the build (assembly level): the real values, less what the
// simulated CPU lacks.  YV_CPUID = "1.c=CLEAR,7.b=CLEAR,7.c=...,7.1.d=...,x1.c=...,xcr=...,sig=EAX" all hexadecimal; +7.1.d sets bits
static uint32_t opt(const char* key, int* found) {
	const char* e = getenv("YV_CPUID"); size_t l = strlen(key);
	if (found) *found = 0;
	while (e && *e) {
		if (!strncmp(e, key, l) && e[l] == '=') { if (found) *found = 1; return (uint32_t)strtoul(e + l + 1, NULL, 16); }
		e = strchr(e, ','); if (e) e++;
	}
	return 0;
}
__attribute__((visibility("hidden"))) void yv_cpuid_sim(uint32_t* r) { // eax ebx ecx edx
	uint32_t leaf = r[0], sub = r[2], f;
	__asm__ volatile("cpuid" : "+a"(r[0]), "=b"(r[1]), "+c"(r[2]), "=d"(r[3]));
	yv_stats.cpuid_calls++;
	int has; f = opt("max", &has);
	if (leaf == 0 && has) r[0] = f;
	if (leaf == 1) { r[2] &= ~opt("1.c", 0); f = opt("sig", &has); if (has) r[0] = f; }
	else if (leaf == 7 && sub == 0) { r[1] &= ~opt("7.b", 0); r[2] &= ~opt("7.c", 0); if (opt("+7.1.d", 0) && r[0] < 1) r[0] = 1; }
	else if (leaf == 7 && sub == 1) { r[3] &= ~opt("7.1.d", 0); r[3] |= opt("+7.1.d", 0); }
	else if (leaf == 0x80000001) r[2] &= ~opt("x1.c", 0);
	else if (leaf == 0x24) { f = opt("24.b", &has); if (has) { r[0] = r[2] = r[3] = 0; r[1] = f; } }
}
__attribute__((visibility("hidden"))) void yv_xgetbv_sim(uint32_t* r) { // eax edx, ecx in
	uint32_t a, d;
	if (opt("1.c", 0) & 0x08000000) { const char* m = "YV-MONITOR: illegal instruction: XGETBV without OSXSAVE\n"; if (write(2, m, strlen(m))) {} abort(); }
	__asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(r[2]));
	yv_stats.cpuid_calls++;
	r[0] = a & ~opt("xcr", 0); r[3] = d;
}
__asm__(
	".text\n"
	".macro YV_STUB name, fn, all\n"
	".globl \\name\n.hidden \\name\n.type \\name,@function\n\\name:\n"
	"pushfq\npush %rbp\nmov %rsp,%rbp\n"
	"push %rsi\npush %rdi\npush %r8\npush %r9\npush %r10\npush %r11\npush %rbx\npush %rcx\n"
	"sub $544,%rsp\nand $-16,%rsp\nfxsave 16(%rsp)\n"
	"mov %eax,(%rsp)\nmov %ebx,4(%rsp)\nmov %ecx,8(%rsp)\nmov %edx,12(%rsp)\n"
	"mov %rsp,%rdi\ncall \\fn\nfxrstor 16(%rsp)\n"
	"mov (%rsp),%eax\nmov 12(%rsp),%edx\n"
	".if \\all\nmov 4(%rsp),%ebx\nmov 8(%rsp),%ecx\n.else\nmov -64(%rbp),%rcx\nmov -56(%rbp),%rbx\n.endif\n" // xgetbv leaves rbx and rcx alone
	"lea -48(%rbp),%rsp\n"
	"pop %r11\npop %r10\npop %r9\npop %r8\npop %rdi\npop %rsi\npop %rbp\npopfq\nret\n"
	".size \\name,.-\\name\n.endm\n"
	"YV_STUB yv_cpuid_stub, yv_cpuid_sim, 1\n"
	"YV_STUB yv_xgetbv_stub, yv_xgetbv_sim, 0\n"
);
#endif
}
