'use strict';
// Input generation shared by the workloads. Nothing here knows the module under test.
module.exports = function(ctx) {
	var o = ctx.o, G = {};
	var CRIT = [214, 224, 227, 19, 4, 223, 246]; // data bytes that become NUL LF CR = . TAB SP
	G.CRIT = CRIT;
	// guard-page arena: views flush to an inaccessible page at either end, or anywhere inside
	var arenas = {};
	G.arena = function(name, size) { var a = arenas[name]; if (!a || a.length < size) a = arenas[name] = o.guard(Math.max(size, 65536)); return a; };
	// view of n bytes; where: 0 end-flush, 1 start-flush, 2 random alignment
	G.place = function(R, name, n, max, where) {
		var a = G.arena(name, (max || n) + 256), k = where === undefined ? R.below(4) : where;
		var off = k === 0 ? a.length - n : k === 1 ? 0 : R.below(Math.min(a.length - n, 4160) + 1);
		G.off = off; G.arenaOf = a;
		return a.subarray(off, off + n);
	};
	G.lineSize = function(R, n) {
		var k = R.below(20);
		if (k < 5) return 128;
		if (k < 8) return R.range(1, 40);
		if (k < 11) return R.range(1, 300);
		if (k < 12) return R.pick([1, 2, 3, 4, 8, 12, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 66, 95, 96, 97, 126, 127, 129, 130, 131, 191, 192, 253, 254, 255, 256, 257, 258, 512, 1024, 4096, 32767, 32768, 65535, 65536]);
		if (k < 14) return Math.max(1, (n || 1) + R.range(-4, 4)); // ends near the last column
		if (k < 15) return Math.max(1, Math.floor((n || 1) / R.range(1, 6)) + R.range(-1, 1));
		if (k < 16) return R.pick([8000, 32000, 100000, 999999, 2147483639, 2147483647, 1073741824]);
		if (k < 17) return R.range(1, 5000);
		return R.range(60, 260);
	};
	// lines that end within 8 columns of 2^31 are left out: `column + 2 > line_size` written out plainly overflows there, and nobody's line ends there
	G.TOP = 2147483639;
	G.col = function(R, ls) {
		var k = R.below(10);
		if (ls > G.TOP) return k < 6 ? R.below(100) : R.below(1900000000);
		if (k < 4) return 0;
		if (k < 5) return ls;
		if (k < 6) return Math.max(0, ls - 1);
		if (k < 7) return Math.max(0, ls - R.range(1, Math.min(ls, 4)));
		if (k < 8) return Math.min(ls, R.range(1, 3));
		return R.below(ls + 1);
	};
	// fill with data to encode; returns a short description
	G.fillEnc = function(R, b, ls, col) {
		var prof = R.pick([0, 0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 6, 7]), param = R.u32();
		if (prof === 1) param = R.chance(.5) ? R.pick(CRIT) : R.below(256);
		if (prof === 3) param = R.pick([1, 2, 5, 10, 30, 60, 120, 200, 255]);
		if (prof === 6) { // put the interesting bytes around a line end
			var m = R.below(4), L = ls - (col || 0);
			param = m === 0 ? R.below(Math.max(1, b.length)) : m === 1 ? L + R.range(-4, 3) : m === 2 ? L + ls * R.below(4) + R.range(-4, 3) : b.length - R.range(1, 5);
			param = Math.max(0, param) & 0xffff;
		}
		o.gen(b, R.u32(), R.u32(), prof, param);
		// now and then, more critical bytes exactly at the beginning, end and around line ends
		var n = b.length;
		if (n && R.chance(.3)) b[n - 1] = R.pick(CRIT);
		if (n && R.chance(.2)) b[0] = R.pick(CRIT);
		if (n && R.chance(.2)) { var q = ls - (col || 0) + R.range(-3, 2); if (q >= 0 && q < n) b[q] = R.pick(CRIT); }
		G.profile = prof;
		return prof;
	};
	// set 4 bytes so that the CRC of b[0..end) (continuing init) becomes a special value
	var T = [], REV = [];
	for (var ti = 0; ti < 256; ti++) { var tc = ti; for (var tk = 0; tk < 8; tk++) tc = tc & 1 ? tc >>> 1 ^ 0xedb88320 : tc >>> 1; T[ti] = tc >>> 0; REV[tc >>> 24] = ti; }
	G.forge = function(R, b, init, p) {
		var n = b.length;
		if (n < 4 || !R.chance(p === undefined ? .03 : p)) return;
		var end = R.chance(.7) ? n : R.range(4, n), want = R.pick([0, 0, 0xffffffff, 0xffffffff, 1, 0x80000000, R.below(256), R.below(65536), R.below(256) * 0x1000000, ~R.below(256) >>> 0]), c = ~want >>> 0;
		for (var k = 0; k < 4; k++) { var j = REV[c >>> 24]; c = ((c ^ T[j]) << 8 | j) >>> 0; }
		b.writeUInt32LE((c ^ ~o.crc(b.subarray(0, end - 4), init || 0)) >>> 0, end - 4);
		if (o.crc(b.subarray(0, end), init || 0) !== want) throw new Error('oracle: forged CRC is not ' + want);
		ctx.count('forged_crcs');
	};
	// yEnc-like text, hostile or not, to decode
	G.fillDec = function(R, b, noEnd) {
		var prof = R.pick([0, 8, 8, 9, 9, 9, 10, 10, 11, 12, 12, 13, 14, 14, 15, 15]), param = R.u32();
		if (noEnd && prof === 9) prof = 10;
		if (prof === 9 || prof === 10) param = R.pick([1, 3, 8, 20, 60, 150, 255]) | R.pick([0, 2, 10, 60]) << 8;
		if (prof === 11) param = R.pick([128, 128, 64, 32, 61, 127, 129, 256, 3]);
		if (prof === 12) param = R.pick([2, 10, 40, 120, 200, 250, 255]);
		if (prof === 15) param = R.below(20) << 16 | R.below(Math.max(1, b.length)) & 0xffff;
		o.gen(b, R.u32(), R.u32(), prof, param);
		var n = b.length;
		if (n && R.chance(.2)) { var t = R.pick(TAILS); t.copy(b, Math.max(0, n - t.length), Math.max(0, t.length - n)); } // interesting end of chunk
		if (n && R.chance(.1)) R.pick(TAILS).copy(b, 0); // and start
		G.profile = prof;
		return prof;
	};
	var TAILS = ['\r\n', '=', '\r', '\r\n.', '\r\n.\r', '\r\n=', '\r\n.=', '==', '=\r', '=\r\n', '=\r\n.', '\r\n.\r\n', '\r\n=y', '\r\n.=y', '.\r\n', '=y', '.=y', 'y', '\n', '\n.', '.', '..', '\r\r', '\r\n\r', '\r\n\r\n', '=\r\n=', '=\n'].map(function(s) { return Buffer.from(s, 'latin1'); });
	G.TAILS = TAILS;
	// sizes of big data, and special bytes at every multiple of some block size
	G.bigLen = function(R, lo, hi) {
		if (R.chance(.5)) return R.range(lo, hi);
		var k = 1 << R.range(16, Math.floor(Math.log2(hi)));
		return Math.min(hi, Math.max(lo, k * R.range(1, Math.floor(hi / k)) + R.range(-2, 3)));
	};
	G.bounds = function(R, b, dec) {
		if (R.chance(.25)) return;
		var step = R.chance(.15) ? R.pick([1000000, 10000, 100000]) : 1 << R.range(12, Math.max(12, Math.floor(Math.log2(b.length || 1)))), c = R.pick(dec ? TAILS : CRIT), one = R.chance(.5), at = R.below(4);
		for (var m = step; m <= b.length; m += step) {
			if (dec) { var p = m - (one ? Math.min(at, c.length) : R.below(c.length + 1)); if (p + c.length <= b.length) c.copy(b, p); if (!one) c = R.pick(TAILS); }
			else { b[m - 1] = one ? c : R.pick(CRIT); if (m < b.length && at) b[m] = one && at === 1 ? c : R.pick(CRIT); if (at > 1 && m > 1) b[m - 2] = R.pick(CRIT); }
		}
	};
	// 256 groups of 16 bytes, whose special bytes are given by the bits of (hi << 8 | 0..255): over all hi, every pattern of
	// special bytes in a vector of 16; `pre` bytes before the first group
	G.MASKS = 4096;
	function masks(R, b, hi, pre, special, other) {
		var rot = R.below(256), j, m;
		for (j = 0; j < pre; j++) b[j] = other(j);
		for (var g = 0; g < 256; g++) for (m = hi << 8 | (g + rot) & 255, j = 0; j < 16; j++) b[pre + g * 16 + j] = m >> j & 1 ? special(m, j) : other(j + g);
		for (j = pre + G.MASKS; j < b.length; j++) b[j] = other(j);
	}
	G.fillEncMasks = function(R, b, hi, pre) {
		var v = R.u32(), w = R.below(256), all = [214, 224, 227, 19];
		masks(R, b, hi, pre, function(m, j) { v = v * 1664525 + 1013904223 >>> 0; return all[v >>> 30]; }, function(j) { var c = w + j * 37 & 255; return c === 214 || c === 224 || c === 227 || c === 19 || c === 4 || c === 223 || c === 246 ? 60 + (j & 15) : c; });
		G.profile = 40;
	};
	G.fillDecMasks = function(R, b, hi, pre) {
		var v = R.u32(), w = R.below(256), eq = R.below(3);
		masks(R, b, hi, pre, function(m, j) { v = v * 1664525 + 1013904223 >>> 0; return eq && v >>> 30 === 0 && j < 15 && !(m >> j + 1 & 1) ? 61 : v & 0x1000000 ? 13 : 10; }, function(j) { var c = w + j * 37 & 255; return c === 13 || c === 10 || c === 61 || c === 46 || c === 121 ? 97 + (j & 15) : c; });
		G.profile = 41;
	};
	G.len = function(R, max) {
		var k = R.below(12);
		if (k < 2) return Math.min(max, R.below(40));
		if (k < 6) return Math.min(max, R.below(300));
		if (k < 9) return Math.min(max, Math.max(0, 16 * R.below(40) + R.below(9) - 4));
		if (k < 11) return Math.min(max, R.below(2000));
		return R.below(max + 1);
	};
	return G;
};
