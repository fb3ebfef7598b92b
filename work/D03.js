'use strict';
// Chunking history monitor: the same stream in one call and cut anywhere
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, stream length, initial state, number of chunks, cut style, ended, head of the stream) of each distinct history compared with the single call';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'cuts-' + e.name, variant: e.variant, env: e.env, cases: q ? 90000 : 1500000, shards: q ? 3 : 12, params: { mode: 'cuts' } });
		jobs.push({ name: 'cut2-' + e.name, variant: e.variant, env: e.env, cases: q ? 2500 : 40000, shards: q ? 3 : 12, weight: 60, params: { mode: 'cut2' } });
	});
	jobs.push({ name: 'big', cases: q ? 24 : 300, shards: q ? 4 : 8, params: { mode: 'big' }, weight: 3000 });
	return jobs;
};
var STATES = [null, undefined, '\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n=', '\r\n=y', '\r\n.\r\n'];
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode, whole = Buffer.alloc(70000), acc = Buffer.alloc(70000);
	function history(R, src, st0, ref, cuts, style) {
		// cuts(q) -> next chunk length; feeds until ended or all consumed
		var q = 0, w = 0, st = st0, ended = false, n = src.length, chunks = [], guard = 0;
		while ((q < n || (guard === 0 && !n)) && !ended) {
			var l = Math.min(n - q, cuts(q)), ch = src.subarray(q, q + l), r, how = l ? R.below(4) : R.below(3);
			if (++guard > 4 * n + 100) ctx.fail('no progress', { st: st });
			if (how === 0) { r = y.decodeChunk(ch, st); r.output.copy(acc, w, 0, r.written); if (r.output.length !== r.written) ctx.fail('output is not written bytes long', { r: r, chunk: ch, state: st }); }
			else if (how === 1) { var d = acc.subarray(w, w + l + R.below(20)); r = y.decodeChunk(ch, st, d); if (r.output !== d) ctx.fail('output not returned', { chunk: ch, state: st }); }
			else if (how === 2) { var d2 = acc.subarray(w, w + l); r = y.decodeChunk(ch, d2, st); if (r.output !== d2) ctx.fail('output not returned', { chunk: ch, state: st }); }
			else { var c2 = Buffer.from(ch); r = y.decodeChunk(c2, st, c2); c2.copy(acc, w, 0, r.written); }
			chunks.push(l);
			if (typeof r.state !== 'string' || typeof r.ended !== 'boolean' || !(r.written <= r.read)) ctx.fail('malformed result of decodeChunk', { r: r, chunk: ch, state: st });
			if (!r.ended && r.read !== l) ctx.fail('not ended, but the chunk was not read completely', { read: r.read, length: l, chunk: ch, state: st });
			q += r.read; w += r.written; ended = r.ended; st = r.state;
			ctx.count('chunks');
		}
		ctx.count('histories');
		if (q !== ref.read || w !== ref.written || ended !== ref.ended || (st !== ref.state && n) || !o.same(acc, whole, w))
			ctx.fail('decoding in chunks differs from decoding at once', { initial_state: st0, chunks: chunks.slice(0, 60), got: { read: q, written: w, ended: ended, state: st, output: acc.subarray(0, w) }, at_once: { read: ref.read, written: ref.written, ended: ref.ended, state: ref.state, output: whole.subarray(0, ref.written) }, src: src });
		ctx.sig(o.hash(src.subarray(0, 64), n + chunks.length * 8192 + style * 77 + (ended ? 1 : 0) + STATES.indexOf(st0) * 131));
	}
	function atOnce(src, st0) {
		var n = src.length;
		if (!n) return { read: 0, written: 0, ended: false, state: st0 };
		return y.decodeChunk(src, st0, whole);
	}
	if (mode === 'cut2') return function(i, R) { // every single cut position (and 3-way cuts around it)
		var n = R.range(2, 240), src = G.place(R, 'src', n, 8192), st0 = R.pick(STATES);
		G.fillDec(R, src, R.chance(.3));
		var ref = atOnce(src, st0);
		for (var c = 0; c <= n; c++) {
			var b = c + (R.chance(.4) ? 0 : R.range(1, 4)), k = 0;
			history(R, src, st0, ref, function(q) { k++; return k === 1 ? c : k === 2 && b > c ? b - c : 1e9; }, 50);
		}
	};
	if (mode === 'big') return function(i, R) {
		var n = G.bigLen(R, 100000, 3000000), src = Buffer.alloc(n), st0 = R.pick(STATES);
		if (whole.length < n) { whole = Buffer.alloc(3000100); acc = Buffer.alloc(3000100); }
		G.fillDec(R, src, R.chance(.8)); if (R.chance(.3)) G.bounds(R, src, true);
		var ref = atOnce(src, st0);
		history(R, src, st0, ref, function() { return R.chance(.2) ? R.below(5) : R.below(200000); }, 60);
		ctx.progress();
	};
	return function(i, R) {
		var n = R.chance(.8) ? G.len(R, 400) : G.len(R, 6000), src = G.place(R, 'src', n, 8192), st0 = R.pick(STATES);
		G.fillDec(R, src, R.chance(.3));
		var ref = atOnce(src, st0), style = R.below(6), fixed = R.range(1, 130);
		if (i < 2) ctx.sample({ n: n, initial_state: st0 === undefined ? 'undefined' : st0, profile: G.profile, ended: ref.ended });
		history(R, src, st0, ref, function() {
			if (style === 0) return 1;
			if (style === 1) return fixed;
			if (style === 2) return R.below(6);
			if (style === 3) return R.pick([16, 32, 64, 128]) + R.below(5) - 2;
			if (style === 4) return R.chance(.5) ? R.below(4) : R.below(300);
			return R.below(n + 1);
		}, style);
	};
};
