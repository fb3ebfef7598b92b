'use strict';
// Field algebra of crc32_zeroes / crc32_multiply / crc32_shift: identities checked on the results themselves,
// and values against carry-less multiplication done bit by bit
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, function, operands) of each distinct call; every call is compared with the reference value and takes part in at least one identity';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	['rel', 'nocrcutil'].forEach(function(v) {
		K.crc(env).forEach(function(e) {
			jobs.push({ name: 'alg-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 150000 : 2500000, shards: q ? 4 : 12, params: { mode: 'alg' } });
			jobs.push({ name: 'data-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 30000 : 400000, shards: q ? 1 : 4, params: { mode: 'data' } });
			jobs.push({ name: 'small-' + v + '-' + e.name, variant: v, env: e.env, cases: q ? 6000 : 200000, shards: q ? 1 : 4, params: { mode: 'small' } });
		});
	});
	return jobs;
};
function hex(v) { return ('0000000' + (v >>> 0).toString(16)).slice(-8); }
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), mode = ctx.params.mode, Rs = require('../lib/rng').str(ctx.job.name), MAXI = 9007199254740991;
	function b4(v) { var b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; }
	function num(b, what, args) { if (!Buffer.isBuffer(b) || b.length !== 4) ctx.fail(what + ' did not return a 4-byte Buffer', { args: args, got: b }); ctx.count('calls'); return b.readUInt32BE(0); }
	function sig(k, a, b) { var s = Buffer.alloc(17); s[16] = k; s.writeDoubleLE(a); s.writeDoubleLE(b, 8); ctx.sig(o.hash(s, Rs)); }
	function expect(what, got, e, args) { if (got !== e) ctx.fail(what, { args: args, got: hex(got), expected: hex(e) }); }
	// checked calls
	function mul(a, b) { var x = b4(a), z = b4(b), r = num(y.crc32_multiply(x, z), 'crc32_multiply', [a, b]); expect('crc32_multiply', r, o.mul(a, b), [hex(a), hex(b)]); if (num(x) !== a || num(z) !== b) ctx.fail('operand modified', {}); sig(1, a, b); return r; }
	function shift(n, c) { var r = num(c === undefined ? y.crc32_shift(n) : y.crc32_shift(n, b4(c)), 'crc32_shift', [n, c]); expect('crc32_shift', r, o.shift(c === undefined ? 0x80000000 : c, n), [n, c === undefined ? 'default' : hex(c)]); sig(2, n, c || 0); return r; }
	function zeroes(n, c) { var r = num(c === undefined ? y.crc32_zeroes(n) : y.crc32_zeroes(n, b4(c)), 'crc32_zeroes', [n, c]); expect('crc32_zeroes', r, (o.shift8(~(c || 0) >>> 0, n) ^ 0xffffffff) >>> 0, [n, c === undefined ? 'default' : hex(c)]); sig(3, n, c || 0); return r; }
	function val(R) { return R.pick([0, 1, 0x80000000, 0xffffffff, 1 << R.below(32) >>> 0, R.u32(), R.u32(), R.u32(), R.u32(), R.u32()]) >>> 0; }
	function int(R) {
		var k = R.below(9), v;
		if (k === 0) v = R.below(70);
		else if (k === 1) v = R.pick([4294967295, 4294967296, 4294967297, 4294967294, 536870911, 536870912, 2147483647, 2147483648, 8589934590, MAXI, MAXI - 1, 4503599627370496, 34359738368, 1152921504606]) + R.below(2);
		else if (k === 2) v = Math.pow(2, R.below(53)) - R.below(3);
		else if (k === 3) v = R.u32();
		else if (k === 4) v = 4294967295 * R.below(2000000) + R.below(3) - 1; // the order of x is 2^32-1
		else v = Math.floor((R.u32() + R.u32() / 4294967296) / 4294967296 * Math.pow(2, R.range(1, 53)));
		v = Math.min(MAXI, Math.max(0, v));
		return R.chance(.5) ? v : v === 0 ? 0 : -v;
	}
	if (mode === 'data') return function(i, R) { // against real data with real zeroes
		var n = R.below(300), z = R.chance(.8) ? R.below(600) : R.below(40000), b = Buffer.alloc(n + z); o.gen(b.subarray(0, n), R.u32(), R.u32(), 0, 0);
		var c = y.crc32(b.subarray(0, n)), w = y.crc32(b), r = y.crc32_zeroes(z, c), u = y.crc32_zeroes(-z, w);
		ctx.count('calls', 4);
		if (!r.equals(w)) ctx.fail('crc32_zeroes is not the CRC after appending NULs', { n: n, zeroes: z, crc: c, got: r, expected: w });
		if (!u.equals(c)) ctx.fail('crc32_zeroes(-n) does not undo it', { n: n, zeroes: z, crc: w, got: u, expected: c });
		if (!n) { var d = y.crc32_zeroes(z); if (!d.equals(w)) ctx.fail('crc32_zeroes without a CRC', { zeroes: z, got: d, expected: w }); }
		sig(5, n, z);
	};
	if (mode === 'small') return function(i, R) { // all small integers of both signs, single-bit operands
		var c = val(R); shift(i, c); shift(-i, c); zeroes(i, c); zeroes(-i, c); shift(i); shift(-i); zeroes(i); zeroes(-i);
		var m = i * 8191; shift(m, c); shift(-m, c); zeroes(m, c); zeroes(-m, c);
		if (i < 1024) mul(1 << (i & 31) >>> 0, 1 << (i >> 5) >>> 0);
	};
	return function(i, R) {
		var a = val(R), b = val(R), c = val(R), n = int(R), m = int(R);
		var ab = mul(a, b);
		expect('crc32_multiply is not commutative', mul(b, a), ab, [hex(a), hex(b)]);
		expect('crc32_multiply is not associative', mul(ab, c), mul(a, mul(b, c)), [hex(a), hex(b), hex(c)]);
		expect('crc32_multiply is not distributive', mul(a, (b ^ c) >>> 0), (ab ^ mul(a, c)) >>> 0, [hex(a), hex(b), hex(c)]);
		expect('80000000 is not the unit', mul(a, 0x80000000), a, [hex(a)]);
		var s = shift(n, c);
		expect('crc32_shift(-n) does not undo crc32_shift(n)', shift(-n, s), c, [n, hex(c)]);
		expect('crc32_shift(n, c) is not c * crc32_shift(n)', mul(c, shift(n)), s, [n, hex(c)]);
		if (Math.abs(n + m) <= MAXI) expect('crc32_shift is not additive', shift(m, s), shift(n + m, c), [n, m, hex(c)]);
		var z = zeroes(n, c);
		expect('crc32_zeroes(-n) does not undo crc32_zeroes(n)', zeroes(-n, z), c, [n, hex(c)]);
		if (Math.abs(n + m) <= MAXI) expect('crc32_zeroes is not additive', zeroes(m, z), zeroes(n + m, c), [n, m, hex(c)]);
		if (Math.abs(n) < 1125899906842624) expect('crc32_zeroes is not a shift by 8n', z, ~shift(8 * n, ~c >>> 0) >>> 0, [n, hex(c)]);
		if (i < 2) ctx.sample({ a: hex(a), b: hex(b), product: hex(ab), n: n, c: hex(c), shifted: hex(s), zeroes: hex(z) });
	};
};
