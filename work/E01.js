'use strict';
// encode / encodeTo against the byte-at-a-time reference, on every kernel this CPU has
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, length, line_size, column, input generator profile, output length) of each distinct encode or encodeTo call compared byte for byte with the reference';
exports.assumptions = ['line_size up to 2^31-1 (the range of the C++ int the binding takes)'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'rand-' + e.name, variant: e.variant, env: e.env, cases: q ? 120000 : 3000000, shards: q ? 3 : 12, params: { mode: 'rand' } });
		// every pattern of escaped bytes in 16 bytes, at every distance from the line start modulo 32
		jobs.push({ name: 'masks-' + e.name, variant: e.variant, env: e.env, cases: 256, shards: 1, params: { mode: 'masks' }, weight: 60 });
		jobs.push({ name: 'edge-' + e.name, variant: e.variant, env: e.env, cases: q ? 20000 : 300000, shards: q ? 2 : 8, params: { mode: 'edge' }, weight: 3 });
	});
	jobs.push({ name: 'big', cases: q ? 16 : 200, shards: q ? 4 : 8, params: { mode: 'big' }, weight: 3000 });
	jobs.push({ name: 'huge', cases: q ? 6 : 60, shards: 3, params: { mode: 'big', huge: 1 }, weight: 100000, stall: 150 });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode;
	var MAX = mode === 'big' ? 6000000 : 9000;
	var exp = Buffer.alloc(MAX * 2 + MAX * 4 + 1000);
	function one(src, ls, col, via, R) {
		var n = src.length, lsv = ls || 128;
		if (exp.length < y.maxSize(n, lsv) + 100) exp = Buffer.alloc(y.maxSize(n, lsv) + 1000);
		var el = o.encode(src, lsv, col === lsv ? 0 : col, exp), got, len;
		if (via === 0) { got = col ? y.encode(src, ls, col) : ls !== 128 || R.chance(.5) ? y.encode(src, ls) : y.encode(src); len = got.length; }
		else {
			var need = y.maxSize(n, lsv);
			got = G.place(R, 'dst', need + (R.chance(.5) ? 0 : R.below(50)), 65536);
			len = col ? y.encodeTo(src, got, ls, col) : y.encodeTo(src, got, ls);
		}
		if (len !== el || !o.same(got, exp, el))
			ctx.fail((via ? 'encodeTo' : 'encode') + ' output differs from the yEnc transform', { n: n, line_size: ls, col: col, got: got.subarray(0, len), expected: exp.subarray(0, el), src: src, got_len: len, expected_len: el });
		ctx.count('calls'); ctx.count('bytes', n);
		ctx.sig(o.hash(Buffer.from([n, n >> 8, n >> 16, ls, ls >> 8, ls >> 16, ls >> 24, col, col >> 8, col >> 16, G.profile, len, len >> 8]), ctx.job.name.length));
	}
	if (mode === 'big') return function(i, R) {
		var n = ctx.params.huge ? G.bigLen(R, 1 << 23, 80 << 20) : G.bigLen(R, 65536, MAX), ls = R.pick([128, 128, 64, 1, 2, 256, 5000, 99999, 2147483647, R.range(3, 1000)]), b = Buffer.alloc(n + 64), off = R.below(64), col = G.col(R, ls);
		b = b.subarray(off, off + n);
		G.fillEnc(R, b, ls, col); G.bounds(R, b);
		one(b, ls, col, 0, R);
		if (n < 60000) one(b, ls, col, 1, R);
		ctx.progress();
	};
	if (mode === 'masks') return function(i, R) {
		for (var pre = 0; pre < 32; pre++) {
			var n = G.MASKS + pre + 40, src = G.place(R, 'src', n, 8192), ls = R.chance(.7) ? 100000 : R.range(1000, 5000);
			G.fillEncMasks(R, src, i & 255, pre);
			ctx.count('patterns', 256);
			one(src, ls, 0, 0, R);
		}
	};
	if (mode === 'rand') return function(i, R) {
		var n = G.len(R, 8000), ls = G.lineSize(R, n), col = G.col(R, ls);
		var src = G.place(R, 'src', n, 8192);
		G.fillEnc(R, src, ls, col);
		if (i < 2) ctx.sample({ n: n, line_size: ls, col: col, profile: G.profile });
		one(src, R.chance(.02) && ls === 128 ? 0 : ls, col, R.below(2), R);
	};
	// edge: one or two critical bytes walked over all positions around a line end and the end of the data
	return function(i, R) {
		var ls = R.pick([128, 128, 64, 32, 16, 24, 48, 96, 100, 127, 129, 160, 200, 256, R.range(12, 200)]), col = R.chance(.5) ? 0 : G.col(R, ls);
		var n = Math.max(1, R.below(3) * ls + (R.chance(.5) ? R.range(-8, 8) : R.below(100)) + (ls - col)), src = G.place(R, 'src', n, 8192), bg = R.pick([60, 100, 200, 0, 255, 225, 18]);
		var c1 = R.pick(G.CRIT), c2 = R.pick(G.CRIT), le = ls - col;
		G.profile = c1;
		for (var p = le - 5; p < le + 4; p++) {
			if (p < 0 || p >= n) continue;
			for (var d = 0; d < 4; d++) {
				src.fill(bg); src[p] = c1;
				if (d && p + d < n) src[p + d] = c2;
				one(src, ls, col, 0, R);
			}
		}
		for (d = 1; d <= 4 && d <= n; d++) { src.fill(bg); src[n - d] = c1; if (d > 1) src[n - 1] = c2; one(src, ls, col, 0, R); }
		src.fill(bg); src[0] = c1; if (n > 1) src[1] = c2; one(src, ls, col, 0, R);
	};
};
