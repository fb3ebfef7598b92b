'use strict';
// decode / decodeTo against the byte-at-a-time reference decoder
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, length, stripDots, route, generator profile, output length, first bytes) of each distinct decode or decodeTo call compared byte for byte with the reference';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'rand-' + e.name, variant: e.variant, env: e.env, cases: q ? 1200000 : 15000000, shards: q ? 3 : 12, params: { mode: 'rand' } });
		// every pattern of removed bytes in 16 bytes, at every alignment modulo 32
		jobs.push({ name: 'masks-' + e.name, variant: e.variant, env: e.env, cases: 256, shards: 1, weight: 60, params: { mode: 'masks' } });
		// every string of length 1..6 over CR LF . = y a other, at offsets around vector boundaries (a case is one string, all offsets)
		jobs.push({ name: 'short-' + e.name, variant: e.variant, env: e.env, cases: q ? 12000 : 156000, shards: q ? 3 : 12, weight: 60, params: { mode: 'short', stride: q ? 13 : 1 } });
		jobs.push({ name: 'walk-' + e.name, variant: e.variant, env: e.env, cases: q ? 4000 : 40000, shards: q ? 2 : 8, weight: 60, params: { mode: 'walk' } });
	});
	jobs.push({ name: 'big', cases: q ? 24 : 300, shards: q ? 4 : 8, params: { mode: 'big' }, weight: 3000 });
	jobs.push({ name: 'huge', cases: q ? 6 : 60, shards: 3, params: { mode: 'big', huge: 1 }, weight: 100000, stall: 150 });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode, exp = Buffer.alloc(70000), sigb = Buffer.alloc(16);
	function one(R, src, raw, via) {
		var n = src.length, el, got, len;
		if (exp.length < n) exp = Buffer.alloc(n);
		el = o.decode(src, raw, exp);
		if (via === 0) {
			got = raw || R.chance(.5) ? y.decode(src, raw) : y.decode(src); len = got.length;
			if (!Buffer.isBuffer(got) || got.buffer.detached || !got.subarray(0, 0)) ctx.fail('decode did not return a regular Buffer', { src: src });
		} else { got = G.place(R, 'dst', n, 70000); len = y.decodeTo(src, got, raw); }
		if (len !== el || !o.same(got, exp, el)) {
			var at = 0; while (at < el && got[at] === exp[at]) at++;
			ctx.fail((via ? 'decodeTo' : 'decode') + ' output differs from the reference decoder', { n: n, stripDots: raw, first_difference: at, got_len: len, expected_len: el, src: src, got: got.subarray(0, len), expected: exp.subarray(0, el) });
		}
		ctx.count('calls'); ctx.count('bytes', n);
	}
	function sig(n, raw, via, el, src) { sigb[0] = n; sigb[1] = n >> 8; sigb[2] = raw ? 1 : 0; sigb[3] = via; sigb[4] = G.profile; sigb[5] = el; sigb.writeUInt32LE(o.hash(src.subarray(0, 64), 1), 8); ctx.sig(o.hash(sigb, ctx.job.name.length)); }
	if (mode === 'big') return function(i, R) {
		var n = ctx.params.huge ? G.bigLen(R, 1 << 23, 100 << 20) : G.bigLen(R, 65536, 6000000), b = Buffer.alloc(n + 64), off = R.below(64);
		b = b.subarray(off, off + n); G.fillDec(R, b); G.bounds(R, b, true);
		one(R, b, R.chance(.5), 0); ctx.progress();
		sig(n, 0, 0, 0, b);
	};
	if (mode === 'masks') return function(i, R) {
		for (var pre = 0; pre < 32; pre++) {
			var n = G.MASKS + pre + R.below(70), src = G.place(R, 'src', n, 8192, 1), raw = R.chance(.5);
			G.fillDecMasks(R, src, i & 255, pre);
			ctx.count('patterns', 256);
			one(R, src, raw, 1);
			sig(n, raw, 1, i, src);
		}
	};
	if (mode === 'rand') return function(i, R) {
		var n = R.chance(.75) ? G.len(R, 500) : G.len(R, 8000), raw = R.chance(.6), src = G.place(R, 'src', n, 8192), via = R.below(2);
		G.fillDec(R, src);
		one(R, src, raw, via);
		sig(n, raw, via, 0, src);
		if (i < 2) ctx.sample({ n: n, stripDots: raw, profile: G.profile, head: src.subarray(0, 24) });
	};
	var AL = [13, 10, 46, 61, 121, 97, 0];
	if (mode === 'short') return function(i, R) {
		var idx = i * ctx.params.stride + (ctx.params.stride > 1 ? R.below(ctx.params.stride) : 0), s = [], L = 1, p = 7;
		while (idx >= p && L < 6) { idx -= p; L++; p *= 7; }
		for (var k = 0; k < L; k++) { s.push(AL[idx % 7]); idx = Math.floor(idx / 7); }
		var bg = R.pick([107, 107, 13, 61, 46, 10]), raw = (i & 3) !== 0, base = R.below(64), total = 200 + R.below(70), a = G.arena('src', 8192), mem = a.subarray(base, base + total);
		G.profile = 30;
		for (var off = 0; off < 140; off = off < 70 || off > 120 ? off + 1 : off + 9) {
			mem.fill(bg);
			for (k = 0; k < L; k++) mem[off + k] = s[k];
			one(R, mem, raw, 1);
		}
		// and as the last bytes, and as the whole data
		mem.fill(bg); for (k = 0; k < L; k++) mem[total - L + k] = s[k];
		one(R, mem, raw, 1);
		var w = a.subarray(a.length - L); for (k = 0; k < L; k++) w[k] = s[k];
		one(R, w, raw, 0);
		ctx.sig(o.hash(w, L + ctx.job.name.length * 64));
	};
	return function(i, R) { // two hostile fragments at all distances, near a vector boundary
		var t1 = R.pick(G.TAILS), t2 = R.pick(G.TAILS), raw = R.chance(.7), n = 300, mem = G.place(R, 'src', n, 8192, 2), p = R.below(140);
		G.profile = 31;
		for (var d = 0; d < 70; d += R.range(1, 2)) {
			mem.fill(R.chance(.5) ? 107 : R.below(256));
			t2.copy(mem, p + d); t1.copy(mem, p);
			one(R, mem, raw, 1);
		}
		sig(n, raw, 1, 0, mem.subarray(p));
	};
};
