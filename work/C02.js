'use strict';
// crc32_combine: over real data, associativity over pieces, and lengths up to 2^53-1 against field arithmetic
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, both CRCs, length) of each distinct crc32_combine call compared with the concatenation or the reference algebra';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	['rel', 'nocrcutil'].forEach(function(v) {
		K.crc(env).forEach(function(e) {
			jobs.push({ name: 'data-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 200000 : 3000000, shards: q ? 2 : 8, params: { mode: 'data' } });
			jobs.push({ name: 'len-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 120000 : 2000000, shards: q ? 2 : 8, params: { mode: 'len' } });
		});
	});
	return jobs;
};
function hex(v) { return ('0000000' + (v >>> 0).toString(16)).slice(-8); }
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode, Rs = require('../lib/rng').str(ctx.job.name);
	function b4(v) { var b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; }
	function num(b) { return b.readUInt32BE(0); }
	function sig(a, b, l) { var s = Buffer.alloc(16); s.writeUInt32LE(a); s.writeUInt32LE(b, 4); s.writeDoubleLE(l, 8); ctx.sig(o.hash(s, Rs)); }
	if (mode === 'data') return function(i, R) {
		var n = R.chance(.7) ? G.len(R, 700) : G.len(R, 20000), src = G.place(R, 'src', n, 20480), k = R.range(2, 6), cuts = [0];
		o.gen(src, R.u32(), R.u32(), R.pick([0, 0, 1]), R.below(256));
		for (var j = 1; j < k; j++) cuts.push(R.chance(.2) ? R.pick(cuts) : R.below(n + 1));
		cuts.push(n); cuts.sort(function(a, b) { return a - b; });
		for (j = 0; j + 1 < cuts.length; j++) G.forge(R, src.subarray(cuts[j], cuts[j + 1]), 0, .05);
		G.forge(R, src, 0);
		var cs = [], ls = [], whole = o.crc(src);
		for (j = 0; j + 1 < cuts.length; j++) { var p = src.subarray(cuts[j], cuts[j + 1]); cs.push(y.crc32(p)); ls.push(p.length); }
		// left fold, right fold, random bracketing
		var l = cs[0], r = cs[cs.length - 1], rl = ls[ls.length - 1];
		for (j = 1; j < cs.length; j++) l = y.crc32_combine(l, cs[j], ls[j]);
		for (j = cs.length - 2; j >= 0; j--) { r = y.crc32_combine(cs[j], r, rl); rl += ls[j]; }
		var c2 = cs.slice(), l2 = ls.slice();
		while (c2.length > 1) { j = R.below(c2.length - 1); c2.splice(j, 2, y.crc32_combine(c2[j], c2[j + 1], l2[j + 1])); l2.splice(j, 2, l2[j] + l2[j + 1]); }
		ctx.count('calls', 3 * (cs.length - 1));
		if (num(l) !== whole || num(r) !== whole || num(c2[0]) !== whole || l.length !== 4)
			ctx.fail('combined CRC is not that of the concatenation', { lengths: ls, crcs: cs, left: l, right: r, mixed: c2[0], expected: hex(whole), src: src });
		sig(num(cs[0]), num(cs[1]), ls[1]);
		if (i < 2) ctx.sample({ lengths: ls, crc: l });
	};
	return function(i, R) {
		var a = R.pick([0, 0xffffffff, 1, 0x80000000, R.u32(), R.u32(), R.u32()]), b = R.pick([0, 0xffffffff, R.u32(), R.u32(), R.u32()]);
		var k = R.below(8), bits = R.range(1, 53), len;
		if (k === 0) len = R.below(100000);
		else if (k === 1) len = Math.pow(2, bits) - R.below(3);
		else if (k === 2) len = R.pick([4294967295, 4294967296, 4294967297, 8589934591, 8589934592, 536870912, 536870911, 2147483647, 2147483648, 9007199254740991, 9007199254740990, 4503599627370496, 34359738368, 1099511627776]) + R.below(2);
		else if (k === 3) { len = Math.pow(2, R.below(53)) + Math.pow(2, R.below(50)) + Math.pow(2, R.below(50)); }
		else len = Math.floor((R.u32() + R.u32() / 4294967296) / 4294967296 * Math.pow(2, bits));
		len = Math.min(9007199254740991, Math.max(0, len));
		var ab = b4(a), bb = b4(b), got = y.crc32_combine(ab, bb, len), e = (o.shift8(a, len) ^ b) >>> 0;
		ctx.count('calls'); if (len > 4294967295) ctx.count('lengths_above_4GiB');
		if (got.length !== 4 || num(got) !== e) ctx.fail('crc32_combine differs from the reference algebra', { crc1: hex(a), crc2: hex(b), length: len, got: got, expected: hex(e) });
		if (num(ab) !== a || num(bb) !== b) ctx.fail('operand modified', {});
		// as given by repeated combination: (a, x, l1) then (., y, l2) with x y zero data of that length
		var l1 = Math.floor(len / R.range(2, 5)), l2 = len - l1, z = y.crc32_zeroes(l1, b4(0)), two = y.crc32_combine(y.crc32_combine(ab, z, l1), y.crc32_combine(bb, b4(0), 0), l2);
		// = a, l1 zero bytes, then a piece with CRC b and length l2
		var e2 = (o.shift8((o.shift8(a, l1) ^ o.shift8(0xffffffff, l1) ^ 0xffffffff) >>> 0, l2) ^ b) >>> 0;
		if (num(two) !== e2) ctx.fail('repeated crc32_combine is wrong', { crc1: hex(a), crc2: hex(b), l1: l1, l2: l2, got: two, expected: hex(e2) });
		sig(a, b, len);
		if (i < 2) ctx.sample({ crc1: hex(a), crc2: hex(b), length: len, result: got });
	};
};
