'use strict';
// In place decoding, exact output sizes, and writes outside the first data.length bytes
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, monitor mode, length, stripDots or state, generator profile, head of the data) of each distinct decodeTo / decodeChunk / decode call observed';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'place-' + e.name, variant: e.variant, env: e.env, cases: q ? 500000 : 8000000, shards: q ? 3 : 12, params: { mode: 'place' } });
		jobs.push({ name: 'alloc-' + e.name, variant: e.variant, env: Object.assign({ YV_MALLOC: 'guard' }, e.env), node: ['--expose-gc'], cases: q ? 60000 : 600000, shards: q ? 2 : 8, weight: 8, params: { mode: 'alloc' } });
	});
	jobs.push({ name: 'big', cases: q ? 16 : 200, shards: q ? 4 : 8, params: { mode: 'big' }, weight: 3000 });
	return jobs;
};
var STATES = [null, '\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n=', '\r\n=y', '\r\n.\r\n'];
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode;
	function diff(what, info) { ctx.fail(what, info); }
	if (mode === 'alloc') {
		var kept = [];
		return function(i, R) {
			var n = G.len(R, 3000), src = G.place(R, 'src', n, 8192), raw = R.chance(.5);
			G.fillDec(R, src);
			kept.push(R.chance(.5) ? y.decode(src, raw) : y.decodeChunk(src, R.pick(STATES)).output);
			ctx.count('guarded_allocations'); ctx.sig(o.hash(src, n));
			if (kept.length > 500) { kept = []; ctx.gc(); return new Promise(setImmediate); }
		};
	}
	return function(i, R) {
		var big = mode === 'big', n = big ? G.bigLen(R, 100000, 4000000) : R.chance(.8) ? G.len(R, 600) : G.len(R, 6000), src = big ? Buffer.alloc(n) : G.place(R, 'src', n, 8192), chunk = R.chance(.5), raw = R.chance(.6), st = R.pick(STATES);
		G.fillDec(R, src);
		if (big) G.bounds(R, src, true);
		ctx.sig(o.hash(src.subarray(0, 64), n * 64 + (chunk ? 32 : 0) + (raw ? 16 : 0) + STATES.indexOf(st)));
		if (big) ctx.progress();
		// 1. separate output of exactly data.length bytes, an inaccessible page next to it
		var a = G.arena('dst', n + 700), w = R.below(3), off = w === 0 ? a.length - n : w === 1 ? 0 : R.below(600), pad = 300, can = R.below(256);
		a.fill(can, Math.max(0, off - pad), off); a.fill(can, off + n, Math.min(a.length, off + n + pad));
		var out = a.subarray(off, off + n), r, len;
		if (w === 2 && R.chance(.5)) out = a.subarray(off, off + n + R.below(64));
		if (chunk) { r = y.decodeChunk(src, st, out); len = r.written; if (r.output !== out && n) diff('decodeChunk did not return the given output', { n: n }); }
		else len = y.decodeTo(src, out, raw);
		var bad = o.isFilled(a, Math.max(0, off - pad), off, can);
		if (bad < 0) bad = o.isFilled(a, off + n, Math.min(a.length, off + n + pad), can);
		if (bad >= 0) diff((chunk ? 'decodeChunk' : 'decodeTo') + ' wrote outside the first data.length bytes of output', { at: bad - off, n: n, state: st, stripDots: raw, src: src });
		if (!(len >= 0 && len <= n)) diff('more written than data.length', { n: n, written: len, src: src });
		ctx.count('separate');
		// 2. in place, on a copy with the same surroundings
		var b = G.arena('ins', n + 700), off2 = w === 0 ? b.length - n : w === 1 ? 0 : R.below(600);
		b.fill(can, Math.max(0, off2 - pad), off2); b.fill(can, off2 + n, Math.min(b.length, off2 + n + pad));
		var ins = b.subarray(off2, off2 + n), r2, len2;
		src.copy(ins);
		if (chunk) { r2 = y.decodeChunk(ins, st, ins); len2 = r2.written; if (n && (r2.read !== r.read || r2.ended !== r.ended || r2.state !== r.state)) diff('in-situ decodeChunk differs', { n: n, state: st, insitu: [r2.read, r2.written, r2.ended, r2.state], separate: [r.read, r.written, r.ended, r.state], src: src }); }
		else len2 = y.decodeTo(ins, ins, raw);
		if (len2 !== len || !o.same(ins, out, len)) diff('in-situ decoding differs from separate output', { call: chunk ? 'decodeChunk' : 'decodeTo', n: n, state: st, stripDots: raw, src: src, insitu: ins.subarray(0, len2), separate: out.subarray(0, len) });
		bad = o.isFilled(b, Math.max(0, off2 - pad), off2, can);
		if (bad < 0) bad = o.isFilled(b, off2 + n, Math.min(b.length, off2 + n + pad), can);
		if (bad >= 0) diff('in-situ decoding wrote outside the Buffer', { at: bad - off2, n: n, state: st, stripDots: raw, src: src });
		ctx.count('in_situ');
		// 3. the allocating form
		if (R.chance(.25)) {
			var al = chunk ? y.decodeChunk(src, st).output : y.decode(src, raw);
			if (al.length !== len || !o.same(al, out, len)) diff('allocated output differs from given output', { n: n, state: st, stripDots: raw, src: src, got: al, expected: out.subarray(0, len) });
			if (R.chance(.1)) { // output larger at the same place as the input
				var r3 = chunk ? y.decodeChunk(src, st, src) : null;
				if (r3 && r3.written !== len) diff('in-situ decodeChunk differs', { n: n });
			}
		}
		// 4. too small: an Error, nothing written
		if (n && R.chance(.5)) {
			var size = R.chance(.5) ? n - 1 : R.below(n), s = a.subarray(off, off + size), threw = null;
			a.fill(0x33, Math.max(0, off - pad), Math.min(a.length, off + n + pad));
			try { r = chunk ? y.decodeChunk(src, st, s) : y.decodeTo(src, s, raw); } catch (e) { threw = e; }
			if (!threw) diff((chunk ? 'decodeChunk' : 'decodeTo') + ' accepted an output smaller than the data', { n: n, size: size, returned: r });
			if (!(threw instanceof Error)) diff('threw something that is not an Error', { threw: String(threw) });
			bad = o.isFilled(a, Math.max(0, off - pad), Math.min(a.length, off + n + pad), 0x33);
			if (bad >= 0) diff('wrote although it threw', { at: bad - off, n: n, size: size });
			ctx.count('refused');
		}
		if (i < 2) ctx.sample({ n: n, call: chunk ? 'decodeChunk' : 'decodeTo', state: st, stripDots: raw, profile: G.profile });
	};
};
