// Monitor addon: reference oracle, input generator, guard-page Buffers and shared progress, for node.
#define NAPI_VERSION 8
#include <node_api.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <signal.h>
#include <ucontext.h>
#include <time.h>
#include <sys/syscall.h>
#include "ref.h"
#include "stats.h"

#define ARGS(n) size_t argc = n; napi_value a[n]; napi_get_cb_info(env, info, &argc, a, NULL, NULL)
static inline void buf(napi_env env, napi_value v, uint8_t** p, size_t* n) {
	void* d = NULL; *n = 0;
	if (napi_get_buffer_info(env, v, &d, n) != napi_ok) { napi_throw_error(env, NULL, "oracle: Buffer expected"); d = NULL; *n = 0; }
	*p = (uint8_t*)d;
}
static inline double dbl(napi_env env, napi_value v) { double d = 0; napi_get_value_double(env, v, &d); return d; }
static inline uint32_t u32(napi_env env, napi_value v) { return (uint32_t)(int64_t)dbl(env, v); }
static inline napi_value num(napi_env env, double d) { napi_value v; napi_create_double(env, d, &v); return v; }
static inline napi_value boolean(napi_env env, bool b) { napi_value v; napi_get_boolean(env, b, &v); return v; }

static napi_value Gen(napi_env env, napi_callback_info info) { // (buf, seed, seed2, profile, param)
	ARGS(5); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	ref::gen(p, n, ((uint64_t)u32(env, a[1]) << 32) | u32(env, a[2]), (int)dbl(env, a[3]), u32(env, a[4]));
	return NULL;
}
static napi_value RefEncode(napi_env env, napi_callback_info info) { // (src, ls, col, dst) -> len
	ARGS(4); uint8_t *s, *d; size_t n, m; buf(env, a[0], &s, &n); buf(env, a[3], &d, &m);
	return num(env, (double)ref::encode(s, n, u32(env, a[1]), (uint64_t)dbl(env, a[2]), d));
}
static napi_value RefEndCol(napi_env env, napi_callback_info info) { // (src, ls, col, scratch) -> end column
	ARGS(4); uint8_t *s, *d; size_t n, m; buf(env, a[0], &s, &n); buf(env, a[3], &d, &m);
	uint64_t e = 0; ref::encode(s, n, u32(env, a[1]), (uint64_t)dbl(env, a[2]), d, &e);
	return num(env, (double)e);
}
static napi_value CheckLines(napi_env env, napi_callback_info info) { // (enc, ls, col) -> 0 | rule + offset*100
	ARGS(3); uint8_t* p; size_t n, w; buf(env, a[0], &p, &n);
	int r = ref::checkLines(p, n, u32(env, a[1]), (uint64_t)dbl(env, a[2]), &w);
	return num(env, r ? r + 100.0 * (double)w : 0);
}
static napi_value DotStuff(napi_env env, napi_callback_info info) { // (src, dst, atStart)
	ARGS(3); uint8_t *s, *d; size_t n, m; buf(env, a[0], &s, &n); buf(env, a[1], &d, &m);
	bool b = true; if (argc > 2) napi_get_value_bool(env, a[2], &b);
	return num(env, (double)ref::dotStuff(s, n, d, b));
}
static napi_value RefDecode(napi_env env, napi_callback_info info) { // (src, raw, dst) -> len
	ARGS(3); uint8_t *s, *d; size_t n, m; buf(env, a[0], &s, &n); buf(env, a[2], &d, &m);
	bool raw = false; napi_get_value_bool(env, a[1], &raw);
	if (m < n) { napi_throw_error(env, NULL, "oracle: scratch too small"); return NULL; }
	return num(env, (double)ref::decode(s, n, raw, d));
}
static napi_value RefDecodeEnd(napi_env env, napi_callback_info info) { // (src, state, dst, out Float64Array(4) as Buffer) 
	ARGS(4); uint8_t *s, *d, *o; size_t n, m, on; buf(env, a[0], &s, &n); buf(env, a[2], &d, &m); buf(env, a[3], &o, &on);
	if (m < n) { napi_throw_error(env, NULL, "oracle: scratch too small"); return NULL; }
	ref::EndResult r = ref::decodeEnd(s, n, (int)dbl(env, a[1]), d);
	double v[4] = { (double)r.read, (double)r.written, (double)r.ended, (double)r.state };
	if (on >= sizeof(v)) memcpy(o, v, sizeof(v));
	return NULL;
}
static napi_value RefCrc(napi_env env, napi_callback_info info) { // (buf, init)
	ARGS(2); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	return num(env, ref::crc(p, n, argc > 1 ? u32(env, a[1]) : 0));
}
static napi_value RefMul(napi_env env, napi_callback_info info) { ARGS(2); return num(env, ref::mul(u32(env, a[0]), u32(env, a[1]))); }
static napi_value RefShift(napi_env env, napi_callback_info info) { ARGS(2); return num(env, ref::shift(u32(env, a[0]), (int64_t)dbl(env, a[1]))); }
static napi_value RefShift8(napi_env env, napi_callback_info info) { ARGS(2); return num(env, ref::shift8(u32(env, a[0]), (int64_t)dbl(env, a[1]))); }
static napi_value Hash(napi_env env, napi_callback_info info) {
	ARGS(2); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	return num(env, ref::hash(p, n, argc > 1 ? u32(env, a[1]) : 0));
}
static napi_value Same(napi_env env, napi_callback_info info) { // (a, b, len): first len bytes equal
	ARGS(3); uint8_t *p, *q; size_t n, m; buf(env, a[0], &p, &n); buf(env, a[1], &q, &m);
	size_t l = (size_t)dbl(env, a[2]);
	return boolean(env, l <= n && l <= m && (l == 0 || !memcmp(p, q, l)));
}
static napi_value IsFilled(napi_env env, napi_callback_info info) { // (buf, from, to, byte) -> first differing offset or -1
	ARGS(4); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	size_t f = (size_t)dbl(env, a[1]), t = (size_t)dbl(env, a[2]); uint8_t b = (uint8_t)u32(env, a[3]);
	for (; f < t && f < n; f++) if (p[f] != b) return num(env, (double)f);
	return num(env, -1);
}
static napi_value Addr(napi_env env, napi_callback_info info) {
	ARGS(1); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	return num(env, (double)(uintptr_t)p);
}
static void noop(napi_env, void*, void*) {}
static napi_value Guard(napi_env env, napi_callback_info info) { // (size) -> Buffer of whole pages between PROT_NONE pages; lives for ever
	ARGS(1); size_t pg = 4096, n = ((size_t)dbl(env, a[0]) + pg - 1) / pg * pg;
	uint8_t* m = (uint8_t*)mmap(NULL, n + 2*pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED || mprotect(m + pg, n, PROT_READ | PROT_WRITE)) { napi_throw_error(env, NULL, "oracle: mmap failed"); return NULL; }
	napi_value v = NULL;
	if (napi_create_external_buffer(env, n, m + pg, noop, NULL, &v) != napi_ok) napi_throw_error(env, NULL, "oracle: external buffer failed");
	return v;
}
static void unmap(napi_env, void* d, void* h) { munmap(d, (size_t)h); }
static napi_value BigMap(napi_env env, napi_callback_info info) { // (size) -> lazily populated anonymous mapping, unmapped when collected
	ARGS(1); size_t n = (size_t)dbl(env, a[0]);
	void* m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { napi_throw_error(env, NULL, "oracle: mmap failed"); return NULL; }
	napi_value v = NULL;
	if (napi_create_external_buffer(env, n, m, unmap, (void*)n, &v) != napi_ok) napi_throw_error(env, NULL, "oracle: external buffer failed");
	return v;
}
// (period, total, tail): a huge Buffer of little memory: the same pages of `period` bytes over and over, then `tail` bytes of its own;
// returns [whole, one period]. All sizes are multiples of the page size.
static napi_value Alias(napi_env env, napi_callback_info info) {
	ARGS(3); size_t per = (size_t)dbl(env, a[0]), total = (size_t)dbl(env, a[1]), tail = (size_t)dbl(env, a[2]), pg = 4096;
	int fd = (int)syscall(SYS_memfd_create, "yv", 0);
	if (fd < 0 || ftruncate(fd, per)) { napi_throw_error(env, NULL, "oracle: memfd failed"); return NULL; }
	uint8_t* m = (uint8_t*)mmap(NULL, total + 2*pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	bool ok = m != MAP_FAILED;
	if (ok) {
		m += pg;
		for (size_t at = 0; ok && at < total - tail; at += per) ok = mmap(m + at, at + per > total - tail ? total - tail - at : per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
		if (ok && tail) ok = !mprotect(m + total - tail, tail, PROT_READ | PROT_WRITE);
	}
	void* one = mmap(NULL, per, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	napi_value r, v;
	if (!ok || one == MAP_FAILED) { napi_throw_error(env, NULL, "oracle: mmap failed"); return NULL; }
	napi_create_array(env, &r);
	if (napi_create_external_buffer(env, total, m, unmap, (void*)total, &v) != napi_ok) { napi_throw_error(env, NULL, "oracle: external buffer failed"); return NULL; }
	napi_set_element(env, r, 0, v);
	napi_create_external_buffer(env, per, one, unmap, (void*)per, &v);
	napi_set_element(env, r, 1, v);
	return r;
}
static napi_value Release(napi_env env, napi_callback_info info) { // (buf, from, to): drop the pages (they read as zero again)
	ARGS(3); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	uintptr_t f = (uintptr_t)p + (uintptr_t)dbl(env, a[1]), t = (uintptr_t)p + (uintptr_t)dbl(env, a[2]);
	f = (f + 4095) & ~4095ul; t &= ~4095ul;
	if (t > f) madvise((void*)f, t - f, MADV_DONTNEED);
	return NULL;
}
static napi_value Protect(napi_env env, napi_callback_info info) { // (buf, mode): 0 none, 1 read-only, 3 read-write; page-aligned Buffer
	ARGS(2); uint8_t* p; size_t n; buf(env, a[0], &p, &n);
	int m = (int)dbl(env, a[1]);
	return boolean(env, !mprotect(p, n, (m & 1 ? PROT_READ : 0) | (m & 2 ? PROT_WRITE : 0)));
}
// progress shared with the parent: survives any crash
static volatile uint64_t* prog = NULL;
static napi_value OpenProgress(napi_env env, napi_callback_info info) { // (path)
	ARGS(1); char path[1024]; size_t l; napi_get_value_string_utf8(env, a[0], path, sizeof(path), &l);
	int fd = open(path, O_RDWR | O_CREAT, 0600);
	if (fd < 0 || ftruncate(fd, 64)) { napi_throw_error(env, NULL, "oracle: progress file"); return NULL; }
	prog = (volatile uint64_t*)mmap(NULL, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	return NULL;
}
static napi_value Mark(napi_env env, napi_callback_info info) { // (case)
	ARGS(1); if (prog) { prog[0] = (uint64_t)dbl(env, a[0]); prog[1]++; } return NULL;
}
static napi_value Stats(napi_env env, napi_callback_info info) { // (path of loaded .node) -> object or undefined
	ARGS(1); char path[1024]; size_t l; napi_get_value_string_utf8(env, a[0], path, sizeof(path), &l);
	void* h = dlopen(path, RTLD_NOW | RTLD_NOLOAD);
	if (!h) return NULL;
	const YvStats* s = (const YvStats*)dlsym(h, "yv_stats");
	if (!s) return NULL;
	napi_value o; napi_create_object(env, &o);
	#define F(k) napi_set_named_property(env, o, #k, num(env, (double)s->k))
	F(isa_real); F(isa_used); F(crc_real); F(crc_used); F(isa_calls); F(crc_calls);
	F(alloc_seq); F(fail_hits); F(mallocs); F(frees); F(reallocs); F(live); F(live_bytes); F(bad_frees); F(canary_hits); F(peak_bytes); F(cpuid_calls);
	return o;
}

static napi_value FailAlloc(napi_env env, napi_callback_info info) { // (path, nth from now or 0, all later ones too, size or 0)
	ARGS(4); char path[1024]; size_t l; napi_get_value_string_utf8(env, a[0], path, sizeof(path), &l);
	void* h = dlopen(path, RTLD_NOW | RTLD_NOLOAD);
	YvStats* s = h ? (YvStats*)dlsym(h, "yv_stats") : NULL;
	if (!s) return NULL;
	int64_t k = (int64_t)dbl(env, a[1]);
	s->fail_at = k ? s->alloc_seq + k : 0; s->fail_all = (int64_t)dbl(env, a[2]); s->fail_over = (int64_t)dbl(env, a[3]);
	return num(env, (double)s->alloc_seq);
}

// ---- instruction monitor: single-steps this thread through one callback and classifies every instruction executed
// inside a given mapped file by the CPU feature it needs
enum { I_SSE3 = 1, I_SSSE3 = 2, I_SSE41 = 4, I_SSE42 = 8, I_POPCNT = 0x10, I_LZCNT = 0x20, I_PCLMUL = 0x40, I_AVX = 0x80, I_AVX2 = 0x100, I_BMI1 = 0x200, I_BMI2 = 0x400,
	I_VPCLMUL = 0x800, I_AVX512F = 0x1000, I_AVX512VL = 0x2000, I_AVX512BW = 0x4000, I_VBMI2 = 0x8000, I_VBMI = 0x10000, I_ZMM = 0x20000, I_TZCNT = 0x40000, I_MOVBE = 0x80000, I_FMA = 0x100000, I_AVX512OTHER = 0x200000, I_GFNI = 0x400000, I_CRC32 = 8 };
static uint32_t classify(const uint8_t* p) {
	bool p66 = false, pF3 = false, pF2 = false;
	for (;;) {
		if (*p == 0x66) p66 = true; else if (*p == 0xF3) pF3 = true; else if (*p == 0xF2) pF2 = true;
		else if (*p == 0x2E || *p == 0x3E || *p == 0x26 || *p == 0x36 || *p == 0x64 || *p == 0x65 || *p == 0x67 || *p == 0xF0) {}
		else break;
		p++;
	}
	if ((*p & 0xF0) == 0x40) p++; // REX
	if (*p == 0x62) { // EVEX
		int map = p[1] & 7, pp = p[2] & 3, ll = p[3] >> 5 & 3, w = p[2] >> 7; uint8_t op = p[4];
		uint32_t r = I_AVX512F;
		bool rc = (p[3] & 0x10) && (p[5] >> 6) == 3; // embedded rounding: no vector length
		if (!rc) { if (ll == 2) r |= I_ZMM; else r |= I_AVX512VL; }
		if (map == 2 && (op == 0x62 || op == 0x63 || op == 0x70 || op == 0x71 || op == 0x72 || op == 0x73) && pp == 1) r |= I_VBMI2;
		else if (map == 2 && (op == 0x62 || op == 0x63)) r |= I_VBMI2;
		else if (map == 2 && (op == 0x75 || op == 0x7D || op == 0x8D) && pp == 1) r |= w ? I_AVX512BW : I_VBMI;
		else if (map == 2 && op == 0x83) r |= I_VBMI;
		else if (map == 3 && (op >= 0x70 && op <= 0x73)) r |= I_VBMI2;
		else if (map == 2 && (op == 0x54 || op == 0x55 || op == 0x8F || op == 0xC4)) r |= I_AVX512OTHER;
		else if (map == 3 && op == 0x44) r |= I_VPCLMUL;
		else if (map == 2 && (op == 0xCF) ) r |= I_GFNI;
		else if (map == 3 && (op == 0xCE || op == 0xCF)) r |= I_GFNI;
		// byte and word integer operations
		else if (map == 1 && pp == 1 && (op == 0x60 || op == 0x61 || op == 0x63 || op == 0x64 || op == 0x65 || op == 0x67 || op == 0x68 || op == 0x69 || op == 0x6B || op == 0x71 || op == 0x74 || op == 0x75 || op == 0xC4 || op == 0xC5 || op == 0xD1 || op == 0xD5 || op == 0xD8 || op == 0xD9 || op == 0xDA || op == 0xDC || op == 0xDD || op == 0xDE || op == 0xE0 || op == 0xE1 || op == 0xE3 || op == 0xE4 || op == 0xE5 || op == 0xE8 || op == 0xE9 || op == 0xEA || op == 0xEC || op == 0xED || op == 0xEE || op == 0xF1 || op == 0xF5 || op == 0xF6 || op == 0xF8 || op == 0xF9 || op == 0xFC || op == 0xFD || op == 0x73 && false)) r |= I_AVX512BW;
		else if (map == 1 && pp == 3 && (op == 0x6F || op == 0x7F)) r |= I_AVX512BW; // vmovdqu8/16
		else if (map == 1 && pp == 1 && op == 0x73 && ((p[5] >> 3 & 7) == 3 || (p[5] >> 3 & 7) == 7)) r |= I_AVX512BW; // vpslldq
		else if (map == 2 && (op == 0x00 || op == 0x01 || op == 0x04 || op == 0x0B || op == 0x1C || op == 0x1D || op == 0x10 && pp == 1 || op == 0x11 && pp == 1 || op == 0x12 && pp == 1 || op == 0x20 && pp == 1 || op == 0x30 && pp == 1 || op == 0x38 && pp == 1 || op == 0x3A && pp == 1 || op == 0x3C || op == 0x3E || op == 0x66 || op == 0x78 || op == 0x79 || op == 0x7A || op == 0x7B && !w)) r |= I_AVX512BW;
		else if (map == 2 && pp == 2 && (op == 0x10 || op == 0x20 || op == 0x30 || op == 0x28 || op == 0x29)) r |= I_AVX512BW;
		else if (map == 2 && op == 0x26) r |= I_AVX512BW; // vptestmb/w
		else if (map == 3 && (op == 0x0F || op == 0x14 || op == 0x15 || op == 0x20 || op == 0x3E || op == 0x3F || op == 0x42)) r |= I_AVX512BW;
		return r;
	}
	if (*p == 0xC5 || *p == 0xC4) { // VEX
		int map, pp, l; uint8_t op;
		if (*p == 0xC5) { map = 1; pp = p[1] & 3; l = p[1] >> 2 & 1; op = p[2]; }
		else { map = p[1] & 31; pp = p[2] & 3; l = p[2] >> 2 & 1; op = p[3]; }
		if (map == 2 && (op == 0xF2 || op == 0xF3)) return I_BMI1;
		if (map == 2 && op == 0xF7 && pp == 0) return I_BMI1;
		if ((map == 2 && (op == 0xF5 || op == 0xF6 || op == 0xF7)) || (map == 3 && op == 0xF0)) return I_BMI2;
		if (map == 1 && ((op >= 0x41 && op <= 0x4B) || (op >= 0x90 && op <= 0x93) || op == 0x98 || op == 0x99)) { // mask registers
			bool w = *p == 0xC4 ? p[2] >> 7 : 0;
			return I_AVX512F | ((w || op == 0x4A || ((op == 0x92 || op == 0x93) && pp == 3) || pp == 1) ? I_AVX512BW : 0); // byte forms (DQ) counted as BW
		}
		if (map == 3 && op >= 0x30 && op <= 0x33) return I_AVX512F | I_AVX512BW; // kshift
		if (map == 3 && op == 0x44) return l ? I_VPCLMUL | I_AVX : I_PCLMUL | I_AVX;
		if (map == 2 && op >= 0x96 && op <= 0xBF) return I_FMA;
		uint32_t r = I_AVX;
		if (l) { // 256-bit integer operations
			bool fp = (map == 1 && ((op >= 0x10 && op <= 0x17) || (op >= 0x28 && op <= 0x2F) || (op >= 0x50 && op <= 0x5F) || op == 0xC2 || op == 0xC6 || op == 0x7C || op == 0x7D || op == 0xD0 || op == 0x6F || op == 0x7F || op == 0xE7 || op == 0xF0 || op == 0x77 || op == 0xE6))
				|| (map == 2 && (op == 0x0C || op == 0x0D || op == 0x0E || op == 0x0F || op == 0x17 || op == 0x18 || op == 0x19 || op == 0x1A || (op >= 0x2C && op <= 0x2F) || op == 0x13))
				|| (map == 3 && (op == 0x04 || op == 0x05 || op == 0x06 || op == 0x08 || op == 0x09 || op == 0x0C || op == 0x0D || op == 0x18 || op == 0x19 || op == 0x40 || op == 0x4A || op == 0x4B || op == 0x1D));
			if (!fp) r |= I_AVX2;
		} else if (map == 2 && (op == 0x58 || op == 0x59 || op == 0x78 || op == 0x79 || op == 0x45 || op == 0x46 || op == 0x47 || op == 0x8C || op == 0x8E)) r |= I_AVX2;
		else if (map == 3 && (op == 0x02 || op == 0x38 || op == 0x39)) r |= I_AVX2;
		if (map == 3 && (op == 0x38 || op == 0x39 || op == 0x46)) r |= I_AVX2;
		return r;
	}
	if (*p != 0x0F) return 0;
	p++;
	if (*p == 0x38) {
		p++;
		if (*p == 0xF0 || *p == 0xF1) return pF2 ? I_CRC32 : I_MOVBE;
		if (*p <= 0x0B || (*p >= 0x1C && *p <= 0x1E)) return I_SSSE3;
		if (*p == 0x37) return I_SSE42;
		if (*p >= 0x10 && *p <= 0x41 && p66) return I_SSE41;
		return 0;
	}
	if (*p == 0x3A) {
		p++;
		if (*p == 0x0F) return I_SSSE3;
		if (*p == 0x44) return I_PCLMUL;
		if (*p >= 0x60 && *p <= 0x63) return I_SSE42;
		return I_SSE41;
	}
	if (*p == 0xB8 && pF3) return I_POPCNT;
	if (*p == 0xBD && pF3) return I_LZCNT;
	if (*p == 0xBC && pF3) return I_TZCNT;
	if ((*p == 0xF0 && pF2) || (*p == 0xD0 && (pF2 || p66)) || ((*p == 0x7C || *p == 0x7D) && (pF2 || p66)) || ((*p == 0x12 || *p == 0x16) && pF3) || (*p == 0x12 && pF2)) return I_SSE3;
	return 0;
}
static uintptr_t stLo, stHi; static volatile uint32_t stUsed, stAllowed; static volatile uint64_t stAll, stIn; static volatile uintptr_t stBad; static volatile uint32_t stBadNeeds;
// executable mappings; looked up again whenever an instruction lies outside all known ones (a library just loaded, new JIT code)
struct Reg { uintptr_t lo, hi; bool target; };
static Reg regs[1024]; static int nregs, lastReg; static uintptr_t stBase; static const char* stName; static uint64_t stLookups;
static void findMaps() { // async-signal-safe
	static char b[1 << 20];
	int fd = open("/proc/self/maps", O_RDONLY); if (fd < 0) return;
	size_t n = 0; ssize_t k; while (n < sizeof(b) - 1 && (k = read(fd, b + n, sizeof(b) - 1 - n)) > 0) n += k;
	close(fd); b[n] = 0; nregs = 0; lastReg = 0; stLookups++;
	for (char* l = b; *l && nregs < 1024; ) {
		char* e = strchr(l, '\n'); if (!e) break; *e = 0;
		uintptr_t lo = 0, hi = 0; char* c = l;
		for (; *c != '-'; c++) lo = lo * 16 + (*c <= '9' ? *c - '0' : *c - 'a' + 10);
		for (c++; *c != ' '; c++) hi = hi * 16 + (*c <= '9' ? *c - '0' : *c - 'a' + 10);
		bool t = strstr(c, stName) != NULL;
		if (t && !stBase) stBase = lo;
		if (c[3] == 'x') { regs[nregs].lo = lo; regs[nregs].hi = hi; regs[nregs++].target = t; }
		l = e + 1;
	}
}
// beyond the budget (long table initialisations) only samples are stepped: every 100 us, for 1000 instructions
static uint64_t stBudget, stResumes; static volatile bool stOn;
static void onTimer(int, siginfo_t*, void* uc) { if (stOn) { if (stAll > stBudget) { stBudget = stAll + 1000; stResumes++; } ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] |= 0x100; } }
static void onTrap(int, siginfo_t*, void* uc) {
	if (stAll > stBudget) { ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	uintptr_t ip = (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	stAll++;
	Reg* r = regs + lastReg;
	if (!nregs || ip < r->lo || ip >= r->hi) for (int pass = 0; ; pass++) {
		for (r = regs; r < regs + nregs && (ip < r->lo || ip >= r->hi); r++);
		if (r < regs + nregs) { lastReg = (int)(r - regs); break; }
		if (pass) return; // vsyscall
		findMaps();
	}
	if (!r->target) return;
	stIn++;
	uint32_t n = classify((const uint8_t*)ip);
	stUsed |= n;
	if ((n & ~stAllowed) && !stBad) { stBad = ip; stBadNeeds = n & ~stAllowed; }
}
// (name of the mapped file, allowed features, fn, budget) -> {used, inside, total, bad, badNeeds, value}; fn runs with the trap flag set
static napi_value Step(napi_env env, napi_callback_info info) {
	ARGS(4); static char name[1024]; size_t l; napi_get_value_string_utf8(env, a[0], name, sizeof(name), &l);
	stAllowed = u32(env, a[1]); stUsed = 0; stAll = stIn = 0; stBad = 0; stBadNeeds = 0; stName = name; stBase = 0; nregs = 0;
	struct sigaction sa, old; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO; sigfillset(&sa.sa_mask); sigaction(SIGTRAP, &sa, &old);
	stBudget = argc > 3 ? (uint64_t)dbl(env, a[3]) : ~0ull; stResumes = 0; stOn = true;
	timer_t tm; bool timer = false;
	if (argc > 3) {
		struct sigaction st = sa; st.sa_sigaction = onTimer; st.sa_flags |= SA_RESTART; sigaction(SIGUSR2, &st, NULL);
		struct sigevent se; memset(&se, 0, sizeof(se)); se.sigev_notify = SIGEV_THREAD_ID; se.sigev_signo = SIGUSR2; se._sigev_un._tid = (int)syscall(SYS_gettid);
		timer = !timer_create(CLOCK_MONOTONIC, &se, &tm);
		struct itimerspec its = {{0, 100000}, {0, 100000}}; if (timer) timer_settime(tm, 0, &its, NULL);
	}
	napi_value self, r = NULL; napi_get_undefined(env, &self);
	__asm__ volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc");
	napi_call_function(env, self, a[2], 0, NULL, &r);
	__asm__ volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc");
	stOn = false; if (timer) timer_delete(tm);
	if (argc <= 3) sigaction(SIGTRAP, &old, NULL); // (a late trap after a late timer tick is harmless with the handlers in place)
	napi_value o; napi_create_object(env, &o);
	napi_set_named_property(env, o, "resumes", num(env, (double)stResumes));
	napi_set_named_property(env, o, "used", num(env, stUsed)); napi_set_named_property(env, o, "inside", num(env, (double)stIn)); napi_set_named_property(env, o, "total", num(env, (double)stAll));
	napi_set_named_property(env, o, "bad", num(env, stBad ? (double)(stBad - stBase) : 0)); napi_set_named_property(env, o, "badNeeds", num(env, stBadNeeds));
	if (stBad) { char hex[64] = ""; for (int i = 0; i < 12; i++) snprintf(hex + 2*i, 3, "%02x", ((uint8_t*)stBad)[i]); napi_value h; napi_create_string_utf8(env, hex, NAPI_AUTO_LENGTH, &h); napi_set_named_property(env, o, "badCode", h); }
	if (r) napi_set_named_property(env, o, "value", r);
	return o;
}
// ---- fault monitor: says whether a fatal signal was raised by an instruction of the given file (code 77) or elsewhere (code 86)
static char faultName[1024];
static void onFaultSig(int sig, siginfo_t*, void* uc) {
	uintptr_t ip = (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	stName = faultName; stBase = 0; findMaps();
	for (int i = 0; i < nregs; i++) if (ip >= regs[i].lo && ip < regs[i].hi && regs[i].target) {
		char m[200]; int l = snprintf(m, sizeof(m), "YV-MONITOR: %s in the addon at offset 0x%lx:", sig == SIGILL ? "illegal instruction" : sig == SIGSEGV ? "segmentation fault" : "fatal signal", (unsigned long)(ip - stBase));
		for (int k = 0; k < 12; k++) l += snprintf(m + l, sizeof(m) - l, " %02x", ((uint8_t*)ip)[k]);
		m[l++] = '\n'; if (write(2, m, l)) {} _exit(77);
	}
	const char t[] = "YV-OTHER: fatal signal outside the addon\n"; if (write(2, t, sizeof(t) - 1)) {}
	_exit(86);
}
static napi_value OnFault(napi_env env, napi_callback_info info) { // (path)
	ARGS(1); size_t l; napi_get_value_string_utf8(env, a[0], faultName, sizeof(faultName), &l);
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = onFaultSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigfillset(&sa.sa_mask);
	sigaction(SIGILL, &sa, NULL); sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	return NULL;
}
static napi_value Init(napi_env env, napi_value ex) {
	#define M(name, fn) { napi_value f; napi_create_function(env, name, NAPI_AUTO_LENGTH, fn, NULL, &f); napi_set_named_property(env, ex, name, f); }
	M("gen", Gen) M("encode", RefEncode) M("endCol", RefEndCol) M("checkLines", CheckLines) M("dotStuff", DotStuff)
	M("decode", RefDecode) M("decodeEnd", RefDecodeEnd) M("crc", RefCrc) M("mul", RefMul) M("shift", RefShift) M("shift8", RefShift8)
	M("hash", Hash) M("same", Same) M("isFilled", IsFilled) M("addr", Addr) M("guard", Guard) M("bigMap", BigMap) M("alias", Alias) M("release", Release)
	M("step", Step) M("onFault", OnFault) M("protect", Protect) M("openProgress", OpenProgress) M("mark", Mark) M("stats", Stats) M("failAlloc", FailAlloc)
	return ex;
}
NAPI_MODULE(yv_oracle, Init)
