'use strict';
// Size bounds, and writes outside the granted space: canaries and inaccessible pages around output Buffers,
// guarded native allocations (YV_MALLOC=guard) for encode's own result.
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, monitor mode, length, line_size, column, output length) of each distinct call';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'to-' + e.name, variant: e.variant, env: e.env, cases: q ? 300000 : 5000000, shards: q ? 2 : 8, params: { mode: 'to' } });
		jobs.push({ name: 'alloc-' + e.name, variant: e.variant, env: Object.assign({ YV_MALLOC: 'guard' }, e.env), node: ['--expose-gc'], cases: q ? 40000 : 400000, shards: q ? 2 : 8, weight: 8, params: { mode: 'alloc' } });
	});
	jobs.push({ name: 'far', cases: q ? 300000 : 3000000, shards: q ? 1 : 4, params: { mode: 'far' } });
	jobs.push({ name: 'formula', cases: q ? 200000 : 2000000, shards: q ? 2 : 8, params: { mode: 'formula' } });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode;
	function fill(R, src, ls, col) {
		if (R.chance(.3)) { o.gen(src, R.u32(), R.u32(), 2, 0); G.profile = 20; } // all critical: the longest output
		else if (R.chance(.1)) { src.fill(R.pick([214, 224, 227, 19])); G.profile = 21; }
		else if (R.chance(.1)) { src.fill(70); G.profile = 22; }
		else G.fillEnc(R, src, ls, col);
	}
	function bounds(n, ls, col, len, src) {
		var lo = y.minSize(n, ls), hi = y.maxSize(n, ls);
		if (!(len >= lo)) ctx.fail('output shorter than minSize', { n: n, line_size: ls, col: col, length: len, minSize: lo, src: src });
		if (!(len <= hi)) ctx.fail('output longer than maxSize', { n: n, line_size: ls, col: col, length: len, maxSize: hi, src: src });
		ctx.max('fill_of_maxSize_permille', Math.floor(1000 * len / hi));
		ctx.sig(o.hash(Buffer.from([n, n >> 8, ls, ls >> 8, ls >> 16, col, col >> 8, len, len >> 8]), ctx.job.name.length * 7 + mode.length));
	}
	if (mode === 'far') return function(i, R) {
		// lengths beyond memory: the shortest and longest encodings (no byte, or all bytes, or a given share of them escaped) must lie within the bounds
		var n = R.chance(.5) ? Math.floor(Math.pow(2, R.below(45)) * (1 + R.u32() / 4294967296)) + R.pick([-1, 0, 1, 2]) : R.pick([2147483648, 4294967296, 1073741824, 68719476736, 549755813888]) + R.range(-3, 3);
		if (n < 1) n = 1;
		var ls = R.chance(.3) ? R.pick([1, 2, 3, 64, 127, 128, 129, 2147483647]) : R.chance(.5) ? G.lineSize(R, 5000) : 1 + R.below(2147483647);
		function len(e) { return n + e + 2 * Math.max(0, Math.ceil((n + e) / ls) - 1); } // at most this many with e escapes: each full line has at least ls bytes
		var lo = y.minSize(n, ls), hi = y.maxSize(n, ls), least = n + 2 * Math.floor((n - 1) / ls), rand = R.below(1000) / 1000, k = Math.floor(n * rand), part = y.maxSize(n, ls, rand);
		if (!(lo <= least)) ctx.fail('minSize exceeds the length of unescaped data', { n: n, line_size: ls, minSize: lo, length: least });
		// with all bytes escaped, lines have ls bytes (or ls+1 if ls is odd)
		var most = 2 * n + 2 * (Math.ceil(n / Math.ceil(ls / 2)) - 1);
		if (!(hi >= most)) ctx.fail('maxSize is less than the length of data that is all escaped', { n: n, line_size: ls, maxSize: hi, length: most });
		// share rand escaped, the escapes placed so that lines are as short as can be (ls bytes): reachable up to a line
		if (ls > 1 && !(part >= len(k) - 2)) ctx.fail('maxSize with a ratio is less than the length of such data', { n: n, line_size: ls, ratio: rand, maxSize: part, length: len(k) });
		if (!Number.isInteger(lo) || !Number.isInteger(hi) || !Number.isInteger(part)) ctx.fail('size is not an integer', { lo: lo, hi: hi, part: part });
		ctx.sig(o.hash(Buffer.from(n + '/' + ls), 7)); ctx.count('far');
		if (i < 2) ctx.sample({ n: n, line_size: ls, minSize: lo, maxSize: hi });
	};
	if (mode === 'formula') return function(i, R) {
		// the stated escape ratio: maxSize(n, ls, r) suffices if at most that share of the bytes is escaped
		var n = G.len(R, 3000), ls = G.lineSize(R, n), col = G.col(R, ls), src = G.place(R, 'src', n, 8192);
		fill(R, src, ls, col);
		var enc = y.encode(src, ls, col), esc = 0;
		bounds(n, ls, col, enc.length, src);
		if (!n) { if (y.minSize(0, ls) !== 0 || y.maxSize(0, ls) !== 0) ctx.fail('sizes for no data', { ls: ls }); return; }
		for (var k = 0; k < enc.length; k++) if (enc[k] === 61) { esc++; k++; }
		var ratio = esc / n, hi = y.maxSize(n, ls, ratio);
		if (enc.length > hi) ctx.fail('output longer than maxSize for its escape ratio', { n: n, line_size: ls, col: col, ratio: ratio, length: enc.length, maxSize: hi, src: src });
		if (y.maxSize(n, ls, 0) > y.maxSize(n, ls) || y.maxSize(n, ls, 1) !== y.maxSize(n, ls)) ctx.fail('maxSize is not monotonous in the ratio', { n: n, ls: ls });
		if (ls === 128 && (y.maxSize(n) !== y.maxSize(n, 128) || y.minSize(n) !== y.minSize(n, 128) || y.maxSize(n, 0) !== y.maxSize(n, 128))) ctx.fail('default line_size is not 128', { n: n });
		ctx.count('calls');
	};
	if (mode === 'alloc') {
		var kept = [];
		return function(i, R) {
			var n = G.len(R, 4000), ls = G.lineSize(R, n), col = G.col(R, ls), src = G.place(R, 'src', n, 8192);
			fill(R, src, ls, col);
			kept.push(y.encode(src, ls, col));
			bounds(n, ls, col, kept[kept.length - 1].length, src);
			ctx.count('guarded_allocations');
			if (kept.length > 500) { kept = []; ctx.gc(); return new Promise(setImmediate); }
		};
	}
	return function(i, R) {
		var n = G.len(R, R.chance(.9) ? 1200 : 5000), ls = G.lineSize(R, n), col = G.col(R, ls), src = G.place(R, 'src', n, 8192);
		fill(R, src, ls, col);
		var max = y.maxSize(n, ls), extra = R.below(3), len;
		// output of exactly maxSize bytes, an inaccessible page directly after it (or before it), canaries elsewhere
		var a = G.arena('dst', 65536), off = extra === 0 ? a.length - max : extra === 1 ? 0 : R.below(Math.min(a.length - max, 500)), d = a.subarray(off, off + max), pad = 300, canary = R.below(256);
		a.fill(canary, Math.max(0, off - pad), off); a.fill(canary, off + max, Math.min(a.length, off + max + pad));
		if (extra === 2 && off + max + 40 < a.length && R.chance(.5)) d = a.subarray(off, off + max + R.below(40)); // more room than needed: not to be used
		len = y.encodeTo(src, d, ls, col);
		var bad = o.isFilled(a, Math.max(0, off - pad), off, canary);
		if (bad < 0) bad = o.isFilled(a, off + max, Math.min(a.length, off + max + pad), canary);
		if (bad >= 0) ctx.fail('encodeTo wrote outside the first maxSize bytes of output', { at: bad - off, n: n, line_size: ls, col: col, maxSize: max, src: src });
		bounds(n, ls, col, len, src);
		ctx.count('calls');
		// one byte less (or much less): an Error, and nothing written
		if (n) {
			var small = R.chance(.5) ? max - 1 : R.below(max), s = a.subarray(off, off + small), threw = null, r;
			a.fill(0x5c, Math.max(0, off - pad), Math.min(a.length, off + max));
			try { r = y.encodeTo(src, s, ls, col); } catch (e) { threw = e; }
			if (!threw) ctx.fail('encodeTo accepted an output smaller than maxSize', { n: n, line_size: ls, col: col, maxSize: max, size: small, returned: r });
			if (!(threw instanceof Error)) ctx.fail('encodeTo threw something that is not an Error', { threw: String(threw) });
			bad = o.isFilled(a, Math.max(0, off - pad), Math.min(a.length, off + max), 0x5c);
			if (bad >= 0) ctx.fail('encodeTo wrote although it threw', { at: bad - off, n: n, line_size: ls, col: col, size: small });
			ctx.count('refused');
		}
		if (i < 2) ctx.sample({ n: n, line_size: ls, col: col, maxSize: max, length: len });
	};
};
