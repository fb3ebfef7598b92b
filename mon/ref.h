// Reference semantics, written from the yEnc 1.3 draft and README only: one byte at a time, no state shared
// with the code under test.  Also the input generator.  Used by the node monitor addon and the native harnesses.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace ref {

// ---------- random ----------
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
	inline uint64_t next() { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return s * 0x2545F4914F6CDD1Dull; }
	inline uint32_t u32() { return (uint32_t)(next() >> 32); }
	inline uint32_t below(uint32_t n) { return n ? (uint32_t)(((uint64_t)u32() * n) >> 32) : 0; }
};

// ---------- encode ----------
// returns number of bytes written
static inline size_t encode(const uint8_t* src, size_t n, uint32_t ls, uint64_t col, uint8_t* dst, uint64_t* endCol = 0) {
	size_t o = 0;
	for (size_t i = 0; i < n; i++) {
		const uint8_t c = (uint8_t)(src[i] + 42);
		const bool last = i + 1 == n, first = col == 0, eol = col + 1 >= ls;
		bool esc = c == 0 || c == 10 || c == 13 || c == '=';
		if (c == '.' && first) esc = true;
		if ((c == 9 || c == 32) && (first || eol || last)) esc = true;
		if (esc) { dst[o++] = '='; dst[o++] = (uint8_t)(c + 64); col += 2; }
		else { dst[o++] = c; col++; }
		if (col >= ls && !last) { dst[o++] = 13; dst[o++] = 10; col = 0; }
	}
	if (endCol) *endCol = col;
	return o;
}

// line-structure monitor; 0 = fine, otherwise 1-based rule number; *where = offset
static inline int checkLines(const uint8_t* p, size_t n, uint32_t ls, uint64_t startCol, size_t* where) {
	size_t i = 0; bool firstLine = true;
	*where = 0;
	if (!n) return 0;
	for (;;) {
		// one line: [i, e)
		size_t e = i;
		while (e < n && p[e] != 13 && p[e] != 10) {
			if (p[e] == 0) { *where = e; return 1; } // raw NUL
			e++;
		}
		*where = e;
		const bool lastLine = e == n;
		if (!lastLine && (p[e] != 13 || e + 1 >= n || p[e+1] != 10)) return 2; // bare CR or LF
		uint64_t col0 = firstLine ? startCol : 0;
		uint64_t len = e - i, width = col0 + len;
		if (!lastLine && width != ls && width != (uint64_t)ls + 1) return 3; // wrong line length
		if (lastLine && (len == 0 || width > (uint64_t)ls + 1)) return 4; // empty or overlong last line
		if (!len) return 5; // empty line
		if (col0 == 0 && (p[i] == '.' || p[i] == 9 || p[i] == 32)) { *where = i; return 6; }
		// '=' pairs
		for (size_t k = i; k < e; k++) if (p[k] == '=') {
			*where = k;
			if (k + 1 >= e) return 7; // split or dangling escape
			uint8_t d = (uint8_t)(p[k+1] - 64);
			if (!(d == 0 || d == 9 || d == 10 || d == 13 || d == 32 || d == '.' || d == '=')) return 8;
			k++;
			if (k == e - 1) { // escaped last char: the pair must start within the line
				if (col0 + (k - 1 - i) >= ls) return 9;
			}
		}
		if (p[e-1] == 9 || p[e-1] == 32) { *where = e - 1; return 10; } // trailing white-space
		// a line of ls+1 must end with an escape pair that began at the last column
		if (width == (uint64_t)ls + 1 && (len < 2 || p[e-2] != '=')) { *where = e; return 11; }
		if (lastLine) return 0;
		i = e + 2; firstLine = false;
		if (i >= n) { *where = i; return 12; } // trailing CRLF
	}
}

// NNTP dot-stuffing; atStart: the text begins a line
static inline size_t dotStuff(const uint8_t* s, size_t n, uint8_t* d, bool atStart) {
	size_t o = 0;
	for (size_t i = 0; i < n; i++) {
		if (s[i] == '.' && ((i == 0 && atStart) || (i >= 2 && s[i-1] == 10 && s[i-2] == 13))) d[o++] = '.';
		d[o++] = s[i];
	}
	return o;
}

// ---------- decode ----------
static inline size_t decode(const uint8_t* s, size_t n, bool raw, uint8_t* d) {
	size_t o = 0;
	bool esc = false;
	for (size_t i = 0; i < n; i++) {
		const uint8_t c = s[i];
		if (esc) { esc = false; d[o++] = (uint8_t)(c - 106); continue; }
		if (c == 13 || c == 10) continue;
		if (raw && c == '.' && (i == 0 || (i >= 2 && s[i-1] == 10 && s[i-2] == 13))) continue;
		if (c == '=') { esc = true; continue; }
		d[o++] = (uint8_t)(c - 42);
	}
	return o;
}

// numbering of decoder states used by the monitors (index into `stateStr`)
static const char* const stateStr[] = { "\r\n", "=", "\r", "", "\r\n.", "\r\n.\r", "\r\n=" };
static const int stateLen[] = { 2, 1, 1, 0, 3, 4, 3 };
struct EndResult { size_t read, written; int ended, state; };

// decode with end search, from the state, defined over (state characters + data)
static inline EndResult decodeEnd(const uint8_t* s, size_t n, int state, uint8_t* d) {
	EndResult r;
	const int pl = stateLen[state];
	const char* ps = stateStr[state];
	#define AT(k) ((k) < 0 ? -1 : (k) < pl ? (int)(uint8_t)ps[k] : (int)s[(k)-pl])
	const long N = (long)n + pl;
	long end = N; int ended = 0;
	// first end marker: complete at index k (inclusive), k in the data
	for (long k = pl; k < N; k++) {
		const int c = AT(k);
		if (c == 'y' && AT(k-1) == '=') {
			// CRLF =y, CRLF .=y ; the state "\r\n=" stands for both
			if ((AT(k-2) == 10 && AT(k-3) == 13) || (AT(k-2) == '.' && AT(k-3) == 10 && AT(k-4) == 13)) { ended = 1; end = k + 1; break; }
		} else if (c == 10 && AT(k-1) == 13 && AT(k-2) == '.' && AT(k-3) == 10 && AT(k-4) == 13) { ended = 2; end = k + 1; break; }
	}
	size_t o = 0; bool esc = false;
	const long stop = ended == 1 ? end - 2 : end; // do not decode "=y"
	for (long k = 0; k < stop; k++) {
		const int c = AT(k);
		if (esc) { esc = false; if (k >= pl) d[o++] = (uint8_t)(c - 106); continue; } // any byte, CR and LF too (they still count as line end for dots)
		if (c == 13 || c == 10) continue;
		if (c == '.' && AT(k-1) == 10 && AT(k-2) == 13) continue;
		if (c == '=') { esc = true; continue; }
		if (k >= pl) d[o++] = (uint8_t)(c - 42);
	}
	r.read = (size_t)(end - pl); r.written = o; r.ended = ended; r.state = 3;
	if (!ended) {
		const int a = AT(N-1), b = AT(N-2), c = AT(N-3), e = AT(N-4);
		if (esc) r.state = ((b == 10 && c == 13) || (b == '.' && c == 10 && e == 13)) ? 6 : 1;
		else if (a == 13 && b == '.' && c == 10 && e == 13) r.state = 5;
		else if (a == 13) r.state = 2;
		else if (a == 10 && b == 13) r.state = 0;
		else if (a == '.' && b == 10 && c == 13) r.state = 4;
	}
	#undef AT
	return r;
}

// ---------- CRC ----------
struct CrcTab {
	uint32_t t[8][256];
	CrcTab() {
		for (int i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; t[0][i] = c; }
		for (int i = 0; i < 256; i++) for (int k = 1; k < 8; k++) t[k][i] = (t[k-1][i] >> 8) ^ t[0][t[k-1][i] & 255];
	}
};
static inline uint32_t crc(const uint8_t* p, size_t n, uint32_t init) {
	static const CrcTab T;
	uint32_t c = ~init;
	while (n >= 8) {
		uint32_t a = c ^ (p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24);
		c = T.t[7][a & 255] ^ T.t[6][(a >> 8) & 255] ^ T.t[5][(a >> 16) & 255] ^ T.t[4][a >> 24] ^ T.t[3][p[4]] ^ T.t[2][p[5]] ^ T.t[1][p[6]] ^ T.t[0][p[7]];
		p += 8; n -= 8;
	}
	while (n--) c = (c >> 8) ^ T.t[0][(c ^ *p++) & 255];
	return ~c;
}
// field arithmetic in plain (non-reflected) representation
static inline uint32_t rev(uint32_t x) { uint32_t r = 0; for (int i = 0; i < 32; i++) if (x >> i & 1) r |= 0x80000000u >> i; return r; }
static inline uint32_t pmul(uint32_t a, uint32_t b) { // plain
	uint64_t r = 0;
	for (int i = 0; i < 32; i++) if (b >> i & 1) r ^= (uint64_t)a << i;
	for (int i = 63; i >= 32; i--) if (r >> i & 1) r ^= 0x104C11DB7ull << (i - 32);
	return (uint32_t)r;
}
static inline uint32_t ppow(uint32_t a, uint64_t n) { uint32_t r = 1; while (n) { if (n & 1) r = pmul(r, a); a = pmul(a, a); n >>= 1; } return r; }
static inline uint32_t mul(uint32_t a, uint32_t b) { return rev(pmul(rev(a), rev(b))); } // reflected
// c * x^n, n may be negative (inverse by Fermat: the field has 2^32 elements)
static inline uint32_t shift(uint32_t c, int64_t n) {
	uint32_t p = ppow(2, n < 0 ? 0 - (uint64_t)n : (uint64_t)n);
	if (n < 0) p = ppow(p, 0xFFFFFFFEull);
	return rev(pmul(rev(c), p));
}
// c * x^(8n)
static inline uint32_t shift8(uint32_t c, int64_t n) {
	uint32_t p = ppow(ppow(2, 8), n < 0 ? 0 - (uint64_t)n : (uint64_t)n);
	if (n < 0) p = ppow(p, 0xFFFFFFFEull);
	return rev(pmul(rev(c), p));
}

// ---------- generator ----------
// profiles 0-7: data to encode; 8-15: yEnc text to decode
static inline void put(uint8_t* d, size_t n, size_t& i, const char* s, size_t l) { for (size_t k = 0; k < l && i < n; k++) d[i++] = (uint8_t)s[k]; }
static inline void gen(uint8_t* d, size_t n, uint64_t seed, int profile, uint32_t param) {
	Rng r(seed);
	static const uint8_t crit[] = { 214, 224, 227, 19, 4, 223, 246 }; // become NUL LF CR = . TAB SP
	static const uint8_t near_[] = { 213, 215, 225, 226, 228, 18, 20, 3, 5, 222, 245, 247, 0, 255, 86, 85, 127, 128 };
	size_t i = 0;
	switch (profile) {
	case 0: for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); __builtin_memcpy(d + i, &v, 8); } for (; i < n; i++) d[i] = (uint8_t)r.u32(); break;
	case 1: for (; i < n; i++) d[i] = (uint8_t)param; break;
	case 2: for (; i < n; i++) d[i] = crit[r.below(7)]; break; // every byte critical
	case 3: { uint32_t dens = param & 255; for (; i < n; i++) { uint32_t v = r.u32(); d[i] = (v & 255) < dens ? crit[(v >> 8) % 7] : (uint8_t)(v >> 16 & 63) + 60; } break; }
	case 4: for (; i < n; i++) { uint32_t v = r.u32(); d[i] = v & 1 ? crit[(v >> 8) % 7] : v & 2 ? near_[(v >> 8) % sizeof(near_)] : (uint8_t)(v >> 24); } break;
	case 5: { // runs
		while (i < n) { uint32_t v = r.u32(); size_t run = 1 + r.below(v & 1 ? 4 : 70); uint8_t c = v & 2 ? crit[(v >> 8) % 7] : (uint8_t)(v >> 16); while (run-- && i < n) d[i++] = c; } break; }
	case 6: { // constant background, two chosen critical bytes at positions from param (pos1 low 16 bits) and random kinds
		uint8_t bg = (r.u32() & 1) ? 60 : (uint8_t)(70 + r.below(40)); for (; i < n; i++) d[i] = bg;
		size_t p1 = param & 0xffff; if (p1 < n) d[p1] = crit[r.below(7)];
		size_t p2 = p1 + 1 + r.below(r.u32() & 1 ? 3 : 66); if (p2 < n) d[p2] = crit[r.below(7)];
		if (n) d[n-1] = r.u32() & 1 ? crit[5 + r.below(2)] : d[n-1]; break; }
	case 7: for (; i < n; i++) d[i] = r.u32() & 1 ? crit[5 + r.below(2)] : (r.u32() & 3 ? 4 : 100); break; // tab/space/dot heavy
	case 8: { // small alphabet
		static const uint8_t al[] = { 13, 10, '.', '=', 'y', 'a', 13, 10, '=', '}' };
		for (; i < n; i++) d[i] = al[r.below(sizeof(al))]; break; }
	case 9: case 10: { // background with tokens; 10: without end markers
		static const char* const tok[] = { "\r\n", "=", "\r\n.", "\r\n..", "==", "=\r\n", "\r\n=", "\r\r\n", "=\r\n.", "\n.\r\n", "\r.\r\n", "\r\n.=", "===", "=\r", "\r\n.\r", "\r\n.=\r\n", "\n", "\r", ".", "=y", "\n=y", "\r=y", ".\r\n", "=.\r\n", "\r\n\r\n", "\r\n.\n", "\r\n.\r\r\n", "\r\n..\r\n", "\r\n=x", "\r\n==y", "\r\n.==y", "=\n=y", "=\n.\r\n",
			/* end markers */ "\r\n=y", "\r\n.=y", "\r\n.\r\n", "=\r\n=y", "=\r\n.\r\n", "=\r\n.=y", "\r\n\r\n.\r\n", "==\r\n=y", "\r\n\r\n=y" };
		static const int total = sizeof(tok) / sizeof(*tok), ends = 9;
		uint32_t dens = (param & 255) + 1, eprob = param >> 8 & 255;
		while (i < n) {
			uint32_t v = r.u32();
			if ((v & 255) < dens) {
				uint32_t k = (profile == 9 && (v >> 8 & 255) < eprob) ? total - ends + r.below(ends) : r.below(total - ends);
				size_t l = 0; while (tok[k][l]) l++;
				put(d, n, i, tok[k], l);
			} else { uint8_t c = (uint8_t)(v >> 16); if (c == 13 || c == 10 || c == '=' || c == '.') c = 'm'; d[i++] = c; }
		}
		break; }
	case 11: { // like a real article body: lines of `param` chars, correct escapes, dot stuffed
		uint32_t ls = param ? param : 128; uint32_t col = 0;
		while (i < n) {
			uint32_t v = r.u32(); uint8_t c = (uint8_t)(v >> 8);
			if (col == 0 && c == '.') { d[i++] = '.'; if (i < n) d[i++] = '.'; col++; }
			else if (c == 0 || c == 10 || c == 13 || c == '=') { d[i++] = '='; if (i < n) d[i++] = (uint8_t)(c + 64); col += 2; }
			else { d[i++] = c; col++; }
			if (col >= ls) { put(d, n, i, "\r\n", 2); col = 0; }
		}
		break; }
	case 12: { uint32_t m = param & 255; for (; i < n; i++) { uint32_t v = r.u32(); d[i] = (v & 255) < m ? '=' : (v >> 8 & 255) < 8 ? (v & 0x10000 ? 13 : 10) : (uint8_t)(v >> 24); } break; } // '=' heavy
	case 13: for (; i < n; i++) d[i] = (uint8_t)(i & 1 ? 10 : 13); break;
	case 14: { static const char* const t = "\r\n.\r=\r\n.=\n"; for (; i < n; i++) d[i] = t[(r.u32() & 7) ? (i % 11) : r.below(11)]; break; }
	default: { // single token at position param in plain background
		static const char* const tok[] = { "\r\n=y", "\r\n.=y", "\r\n.\r\n", "\r\n.", "\r\n..", "=\r\n.\r\n", "=\r\n=y", "\r\n=x", "\r\n.=x", "\r\n.\rx", "==", "===y", "=\r\n.x", "\n.\r\n", "\n=y", "\r\n.\n", "\r.\r\n=y", "=\r\n.=y", "\r\n\r\n.\r\n", "=" };
		for (; i < n; i++) d[i] = 'k';
		uint32_t k = param >> 16; size_t p = param & 0xffff; const char* t = tok[k % 20]; size_t l = 0; while (t[l]) l++;
		if (p < n) { i = p; put(d, n, i, t, l); }
		break; }
	}
}

static inline uint32_t hash(const uint8_t* p, size_t n, uint32_t h0) {
	uint64_t h = 0xcbf29ce484222325ull ^ ((uint64_t)h0 * 0x9E3779B97F4A7C15ull) ^ n;
	while (n >= 8) { uint64_t v; __builtin_memcpy(&v, p, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 32; p += 8; n -= 8; }
	while (n--) { h = (h ^ *p++) * 0x100000001b3ull; h ^= h >> 29; }
	h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
	return (uint32_t)h;
}

} // namespace ref
