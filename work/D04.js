'use strict';
// decodeChunk against the reference end search, from every state; what follows the marker must not matter
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, incoming state, length, ended, read, generator profile, head of the data) of each distinct decodeChunk call compared with the reference in output, read, written, ended and state';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'rand-' + e.name, variant: e.variant, env: e.env, cases: q ? 600000 : 9000000, shards: q ? 3 : 12, params: { mode: 'rand' } });
		jobs.push({ name: 'short-' + e.name, variant: e.variant, env: e.env, cases: q ? 6000 : 156000, shards: q ? 3 : 12, weight: 80, params: { mode: 'short', stride: q ? 26 : 1 } });
		jobs.push({ name: 'mark-' + e.name, variant: e.variant, env: e.env, cases: q ? 6000 : 60000, shards: q ? 2 : 8, weight: 80, params: { mode: 'mark' } });
	});
	jobs.push({ name: 'big', cases: q ? 24 : 300, shards: q ? 4 : 8, params: { mode: 'big' }, weight: 3000 });
	jobs.push({ name: 'huge', cases: q ? 6 : 60, shards: 3, params: { mode: 'big', huge: 1 }, weight: 100000, stall: 150 });
	return jobs;
};
var ST = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
var MARK = ['\r\n=y', '\r\n.=y', '\r\n.\r\n', '=\r\n=y', '=\r\n.\r\n', '=\r\n.=y', '\r\n\r\n=y', '\r\n\r\n.\r\n', '==\r\n=y', '\r\n..\r\n.\r\n', '\r\n=\r\n=y', '\r\n.\r\r\n=y', '\r\r\n=y', '\r\n==y\r\n=y', '=.\r\n.\r\n', '=\r\r\n.\r\n',
	/* near misses */ '\r\n..=y', '\r\n..\r\n', '\n=y', '\r=y', '\r\n=x', '\r\n=Y', '\r\n.\r', '\r\n.\n', '\n.\r\n', '\r\n.=x', '\r\n=\ny', '\r\n\n=y', '\r\n.\r=y', '\r\n==y', '\r\n=.\r\n', '\r\n.\r.\r\n'].map(function(s) { return Buffer.from(s, 'latin1'); });
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode, exp = Buffer.alloc(70000), f = new Float64Array(4), fb = Buffer.from(f.buffer), hb = Buffer.alloc(16);
	function one(R, src, si, via) {
		var n = src.length;
		if (!n) return;
		if (exp.length < n) exp = Buffer.alloc(n);
		o.decodeEnd(src, si, exp, fb);
		var st = si === 0 && R.chance(.3) ? null : ST[si], out, r;
		if (via) { out = G.place(R, 'dst', n, 70000); r = y.decodeChunk(src, st, out); } else { r = y.decodeChunk(src, st); out = r.output; }
		var est = f[2] === 1 ? '\r\n=y' : f[2] === 2 ? '\r\n.\r\n' : ST[f[3]];
		ctx.count('calls'); ctx.count('ended_' + r.ended + '_' + JSON.stringify(r.state)); ctx.count('bytes', n);
		if (r.read !== f[0] || r.written !== f[1] || r.ended !== !!f[2] || r.state !== est || !o.same(out, exp, f[1]) || (!via && out.length !== f[1]))
			ctx.fail('decodeChunk differs from the reference', { state: st, n: n, got: { read: r.read, written: r.written, ended: r.ended, state: r.state, output: out.subarray(0, r.written) }, expected: { read: f[0], written: f[1], ended: !!f[2], state: est, output: exp.subarray(0, f[1]) }, src: src });
		if (f[2] && r.read < n) { // change everything after the marker
			var c = Buffer.from(src.subarray(0, r.read + R.below(n - r.read + 1)));
			if (R.chance(.7)) { c = Buffer.concat([c.subarray(0, r.read), Buffer.alloc(R.below(200), R.pick([13, 10, 61, 46, 121, 0, 255]))]); }
			var r2 = y.decodeChunk(c, st);
			if (r2.read !== f[0] || r2.written !== f[1] || r2.ended !== true || r2.state !== est || !o.same(r2.output, exp, f[1]))
				ctx.fail('what follows the end marker changes the result of decodeChunk', { state: st, got: [r2.read, r2.written, r2.ended, r2.state], expected: [f[0], f[1], true, est], src: c });
			ctx.count('tails_varied');
		}
	}
	function sig(src, si) { hb[0] = si; hb[1] = f[2]; hb.writeUInt32LE(f[0] >>> 0, 4); hb.writeUInt32LE(o.hash(src.subarray(0, 64), G.profile), 8); ctx.sig(o.hash(hb, ctx.job.name.length)); }
	if (mode === 'big') return function(i, R) {
		var n = ctx.params.huge ? G.bigLen(R, 1 << 23, 100 << 20) : G.bigLen(R, 65536, 4000000), b = Buffer.alloc(n), si = R.below(7);
		G.fillDec(R, b, R.chance(.8)); if (R.chance(.3)) G.bounds(R, b, true); one(R, b, si, 0); sig(b, si); ctx.progress();
	};
	if (mode === 'rand') return function(i, R) {
		var n = R.chance(.8) ? G.len(R, 500) : G.len(R, 8000), src = G.place(R, 'src', n, 8192), si = R.below(7);
		G.fillDec(R, src, R.chance(.3));
		one(R, src, si, R.below(2)); sig(src, si);
		if (i < 2) ctx.sample({ state: ST[si], n: n, profile: G.profile, head: src.subarray(0, 24) });
	};
	var AL = [13, 10, 46, 61, 121, 97, 0];
	if (mode === 'short') return function(i, R) { // all short strings, at the beginning for every state, and around vector boundaries
		var idx = i * ctx.params.stride + (ctx.params.stride > 1 ? R.below(ctx.params.stride) : 0), s = [], L = 1, p = 7, k;
		while (idx >= p && L < 6) { idx -= p; L++; p *= 7; }
		for (k = 0; k < L; k++) { s.push(AL[idx % 7]); idx = Math.floor(idx / 7); }
		G.profile = 30;
		var bg = R.pick([107, 107, 13, 61, 46, 10]), base = R.below(64), total = 200 + R.below(70), a = G.arena('src', 8192), mem = a.subarray(base, base + total);
		for (var si = 0; si < 7; si++) {
			mem.fill(bg); for (k = 0; k < L; k++) mem[k] = s[k];
			one(R, mem, si, 1);
			one(R, mem.subarray(0, L), si, 0);
		}
		for (var off = 1; off < 140; off = off < 70 || off > 120 ? off + 1 : off + 9) {
			mem.fill(bg); for (k = 0; k < L; k++) mem[off + k] = s[k];
			one(R, mem, off % 7, 1);
		}
		mem.fill(bg); for (k = 0; k < L; k++) mem[total - L + k] = s[k];
		one(R, mem, R.below(7), 1);
		sig(mem.subarray(total - 64), L);
	};
	return function(i, R) { // a marker or near miss at every offset of a window, preceded by another fragment
		var m = R.pick(MARK), t = R.pick(G.TAILS), n = 200 + R.below(150), mem = G.place(R, 'src', n, 8192, 2), p = R.below(40), gap = R.below(40), si = R.below(7);
		G.profile = 31;
		for (var d = 0; d < 66; d++) {
			mem.fill(R.pick([107, 107, 107, 61, 46, 13]));
			t.copy(mem, Math.max(0, p + d - gap)); m.copy(mem, p + d);
			one(R, mem, si, 1);
			if (!(d & 15)) sig(mem, si);
		}
	};
};
