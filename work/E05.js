'use strict';
// The incremental encoder of the native module: text without an end, and the column it stops at
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, length, line_size, column, form of the call, returned column, generator profile) of each distinct encodeIncr call compared, and of each stream of pieces compared with the encoding of the whole';
exports.assumptions = ['encodeIncr is reached through build/Release/yencode.node, as index.js does not pass it on'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'incr-' + e.name, variant: e.variant, env: e.env, cases: q ? 250000 : 4000000, shards: q ? 2 : 12, params: { mode: 'one' } });
		jobs.push({ name: 'stream-' + e.name, variant: e.variant, env: e.env, cases: q ? 60000 : 1000000, shards: q ? 2 : 12, params: { mode: 'stream' } });
		jobs.push({ name: 'guard-' + e.name, variant: e.variant, env: Object.assign({ YV_MALLOC: 'guard' }, e.env), cases: q ? 15000 : 200000, shards: q ? 1 : 4, params: { mode: 'one' } });
	});
	jobs.push({ name: 'big', cases: q ? 40 : 400, shards: q ? 4 : 8, weight: 3000, markMask: 0, params: { mode: 'stream', big: 1 } });
	['native', 'noavx256'].forEach(function(v) { jobs.push({ name: 'stream-' + v, variant: v, cases: q ? 40000 : 600000, shards: q ? 1 : 8, params: { mode: 'stream' } }); });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), nat = require(ctx.path), big = ctx.params.big, exp = Buffer.alloc(1 << 16), ext = Buffer.alloc(1 << 16), CRLF = Buffer.from('\r\n');
	if (typeof nat.encodeIncr !== 'function') return function() { ctx.count('no_encodeIncr'); };
	// the reference encoder over the data and one more, plain byte; that byte, and a newline before it, taken off again
	function reference(src, ls, col) {
		var n = src.length;
		if (ext.length < n + 1) { ext = Buffer.alloc(n * 2); }
		if (exp.length < n * 5 + 100) exp = Buffer.alloc(n * 5 + 100);
		src.copy(ext); ext[n] = 0x41;
		var l = o.encode(ext.subarray(0, n + 1), ls, col, exp) - 1;
		if (l >= 2 && exp[l - 1] === 10 && exp[l - 2] === 13) l -= 2; // CR and LF appear unescaped in newlines only
		var nl = exp.subarray(0, l).lastIndexOf(CRLF);
		return { length: l, col: Math.min(ls, nl < 0 ? col + l : l - nl - 2) }; // a line is full at line_size, even if an escape sequence makes it one longer
	}
	if (ctx.params.mode === 'one') return function(i, R) {
		var n = R.chance(.02) ? 0 : R.chance(.8) ? G.len(R, 700) : G.len(R, 6000), ls = G.lineSize(R, n), col = G.col(R, ls), src = G.place(R, 'src', n, 8192), form = R.below(4), r, out, dst = null;
		G.fillEnc(R, src, ls, col);
		var dflt = form > 1 && ls === 128 && R.chance(.5), zero = !dflt && ls === 128 && R.chance(.2);
		if (dflt && col === 0) r = form === 2 ? nat.encodeIncr(src) : (dst = G.place(R, 'dst', y.maxSize(n, ls) || 66, 65536), nat.encodeIncr(src, dst));
		else if (form & 1) { dst = G.place(R, 'dst', y.maxSize(n, ls) || 66, 65536, R.below(2)); dst.fill(0x41); r = nat.encodeIncr(src, dst, zero ? 0 : ls, col); }
		else r = nat.encodeIncr(src, zero ? 0 : ls, col);
		if (col === ls) col = 0;
		var info = { n: n, line_size: ls, column: col, output_given: !!dst, got: { written: r.written, col: r.col } };
		if (!n) { if (r.written !== 0 || r.col !== col) ctx.fail('wrong result for empty data', info); ctx.count('empty'); return; }
		var e = reference(src, ls, col);
		out = dst || r.output; info.src = src; info.expected = { written: e.length, col: e.col };
		if (r.written !== e.length || !Buffer.isBuffer(out) || (!dst && out.length !== e.length) || !o.same(out, exp, e.length)) { info.output = out; info.expected_output = exp.subarray(0, e.length); ctx.fail('encodeIncr output is not the encoding of the data as part of a longer text', info); }
		if (e.col < ls ? r.col !== e.col : r.col !== ls && r.col !== ls + 1) ctx.fail('encodeIncr returned another column than the one it reached', info);
		if (e.col >= ls) ctx.count('line_just_full');
		ctx.count('calls');
		if (i < 2) ctx.sample(info);
		ctx.sig(o.hash(Buffer.from([n, n >> 8, ls, ls >> 8, col, col >> 8, form, r.col, r.col >> 8, G.profile]), ctx.job.name.length));
	};
	return function(i, R) { // pieces, each from the column where the last stopped; the last one through encode
		var n = big ? G.bigLen(R, 60000, 1500000) : 1 + G.len(R, R.chance(.7) ? 900 : 5000), ls = big ? R.pick([128, 128, 1, 64, 256, 5000, R.range(3, 1000)]) : G.lineSize(R, n), src = big ? Buffer.alloc(n) : G.place(R, 'src', n, 8192), c0 = G.col(R, ls), col = c0;
		G.fillEnc(R, src, ls, c0);
		if (c0 === ls) col = c0 = 0;
		var parts = [], cuts = [], pos = 0, want = R.range(1, big ? 8 : 12);
		while (pos < n) {
			if (col >= ls) { parts.push(CRLF); col = 0; }
			var l = want-- <= 0 ? n - pos : R.chance(.3) ? R.below(5) : R.chance(.5) ? Math.max(0, ls - col + R.range(-2, 2)) : R.below(n - pos + 1), e = Math.min(n, pos + l), last = e === n, r;
			cuts.push(e);
			if (last) parts.push(y.encode(src.subarray(pos, e), ls, col));
			else {
				r = nat.encodeIncr(src.subarray(pos, e), ls, col);
				if (e > pos) { if (r.output.length !== r.written) ctx.fail('encodeIncr: written is not the length of its output', { got: r }); parts.push(r.output); }
				col = r.col; ctx.count('pieces');
			}
			pos = e;
			if (big) ctx.progress();
		}
		var got = Buffer.concat(parts), whole;
		if (exp.length < n * 5 + 100) exp = Buffer.alloc(n * 5 + 100);
		whole = o.encode(src, ls, c0, exp);
		if (got.length !== whole || !o.same(got, exp, whole)) ctx.fail('encoding in pieces does not give the encoding of the whole', { n: n, line_size: ls, column: c0, cuts: cuts, src: src, got: got, expected: exp.subarray(0, whole) });
		ctx.count('streams');
		if (i < 1) ctx.sample({ n: n, line_size: ls, column: c0, cuts: cuts });
		ctx.sig(o.hash(Buffer.from([n, n >> 8, ls, ls >> 8, c0, cuts.length, G.profile]), ctx.job.name.length + 77));
	};
};
