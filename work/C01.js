'use strict';
// crc32 against a table-driven reference, for all lengths, alignments and splits, on every CRC kernel
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, build variant, length, alignment, number of parts, initial value, result) of each distinct crc32 call compared with the reference';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [], vs = ['rel', 'nocrcutil'];
	vs.forEach(function(v) {
		K.crc(env).forEach(function(e) {
			jobs.push({ name: 'rand-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 400000 : 6000000, shards: q ? 2 : 8, params: { mode: 'rand' } });
			jobs.push({ name: 'grid-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 1300 : 4200, shards: q ? 2 : 8, weight: 70, params: { mode: 'grid' } });
			jobs.push({ name: 'split-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 60000 : 900000, shards: q ? 2 : 8, weight: 6, params: { mode: 'split' } });
		});
		jobs.push({ name: 'big-' + v, variant: v, cases: q ? 40 : 400, shards: q ? 2 : 8, weight: 3000, params: { mode: 'big' } });
	});
	jobs.push({ name: 'huge4g', cases: q ? 1 : 3, shards: 1, params: { mode: 'big4g' }, weight: 1000000, stall: 240 });
	jobs.push({ name: 'huge', cases: q ? 6 : 60, shards: 3, params: { mode: 'big', huge: 1 }, weight: 100000, stall: 150 });
	return jobs;
};
function hex(v) { return ('0000000' + (v >>> 0).toString(16)).slice(-8); }
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode, ib = Buffer.alloc(4), sb = Buffer.alloc(12);
	function check(R, src, init) {
		var r, e = o.crc(src, init || 0);
		if (init === null) r = y.crc32(src); else { ib.writeUInt32BE(init >>> 0); r = y.crc32(src, ib); }
		ctx.count('calls'); ctx.count('bytes', src.length);
		if (!Buffer.isBuffer(r) || r.length !== 4) ctx.fail('crc32 did not return a 4-byte Buffer', { r: r, n: src.length });
		if (r.readUInt32BE(0) !== e) ctx.fail('wrong CRC-32', { n: src.length, alignment: G.off & 63, init: init === null ? null : hex(init), got: r, expected: hex(e), src: src });
		if (init !== null && ib.readUInt32BE(0) !== init >>> 0) ctx.fail('initial value modified', {});
		return r;
	}
	function sig(n, al, init, e) { sb.writeUInt32LE(n >>> 0); sb.writeUInt32LE(init >>> 0, 4); sb.writeUInt32LE(e >>> 0, 8); ctx.sig(o.hash(sb, al + Rs)); }
	var Rs = require('../lib/rng').str(ctx.job.name);
	if (mode === 'big') return function(i, R) {
		var n = ctx.params.huge ? G.bigLen(R, 1 << 23, 300 << 20) : G.bigLen(R, 65536, 12000000), b = Buffer.alloc(n + 64), off = R.below(64);
		b = b.subarray(off, off + n); o.gen(b, R.u32(), R.u32(), R.chance(.8) ? 0 : 1, R.below(256));
		G.off = off;
		sig(n, off, 0, check(R, b, R.chance(.5) ? null : R.u32()).readUInt32BE(0)); ctx.progress();
	};
	if (mode === 'big4g') return function(i, R) { // beyond 2^32 bytes, mostly untouched (zero) pages
		var n = 4294967296 + R.range(1, 100000), b = Buffer.alloc(n), e;
		var at = 0;
		e = 0;
		[0, 1073741824 - 3000, 2147483648 - 5000, 4294967296 - 7000 - R.below(3000), n - R.range(1, 1500)].forEach(function(p) {
			if (p < at) return;
			e = ~o.shift8(~e >>> 0, p - at) >>> 0; at = Math.min(n, p + 10000); // the zeros up to here
			o.gen(b.subarray(p, at), R.u32(), R.u32(), 0, 0); e = o.crc(b.subarray(p, at), e);
		});
		e = ~o.shift8(~e >>> 0, n - at) >>> 0;
		G.off = 0; var r = y.crc32(b); ctx.count('calls'); ctx.count('bytes', n);
		if (r.readUInt32BE(0) !== e) ctx.fail('wrong CRC-32', { n: n, got: r, expected: hex(e) });
		sig(n, 0, 0, e); ctx.progress();
	};
	if (mode === 'grid') return function(i, R) { // case = length: every alignment
		var n = i;
		for (var al = 0; al < 64; al++) {
			var b = G.arena('src', 12288).subarray(al, al + n);
			G.off = al;
			if (!(al & 7) || n < 70) o.gen(b, R.u32(), R.u32(), R.pick([0, 0, 0, 1]), R.pick([0, 255, R.below(256)]));
			var init = R.chance(.5) ? null : R.pick([0, 0xffffffff, R.u32()]);
			sig(n, al, init, check(R, b, init).readUInt32BE(0));
		}
	};
	if (mode === 'rand') return function(i, R) {
		var n = R.chance(.7) ? G.len(R, 1500) : G.len(R, 20000), src = G.place(R, 'src', n, 20480);
		o.gen(src, R.u32(), R.u32(), R.pick([0, 0, 0, 1, 5]), R.pick([0, 255, R.below(256)]));
		var init = R.chance(.4) ? null : R.pick([0, 0xffffffff, 1, 0x80000000, R.u32()]);
		G.forge(R, src, init);
		var e = check(R, src, init);
		sig(n, G.off & 63, init, e.readUInt32BE(0));
		if (i < 2) ctx.sample({ n: n, alignment: G.off & 63, init: init, crc: e });
	};
	return function(i, R) { // crc32(b, crc32(a)) along random cuts
		var n = R.chance(.7) ? G.len(R, 700) : G.len(R, 9000), src = G.place(R, 'src', n, 20480), off = G.off, parts = R.range(1, 12), p = 0, c = null, k = 0;
		o.gen(src, R.u32(), R.u32(), 0, 0);
		var init = R.chance(.5) ? 0 : R.u32(), whole; G.forge(R, src, init, .1); whole = o.crc(src, init);
		ib.writeUInt32BE(init); c = Buffer.from(ib);
		while (p < n || k < parts) {
			var l = k >= parts - 1 && p < n ? n - p : R.chance(.2) ? 0 : R.chance(.5) ? R.below(70) : R.below(n - p + 1);
			l = Math.min(l, n - p);
			c = y.crc32(src.subarray(p, p + l), c); p += l; k++;
			ctx.count('parts');
		}
		if (c.readUInt32BE(0) !== whole) ctx.fail('continued CRC differs', { n: n, alignment: off & 63, parts: k, init: hex(init), got: c, expected: hex(whole), src: src });
		sig(n, k, init, whole);
	};
};
