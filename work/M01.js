'use strict';
// Memory and undefined-behaviour monitors: AddressSanitizer + UBSan builds (gcc, clang), guard pages around every Buffer
// and every native allocation (release build), all kernels; results compared with the reference all along.
exports.rule = 'hash of (API function, arguments digest so far, length) of each distinct monitored call';
exports.assumptions = ['crc32 may read the rest of an aligned 16/32-byte vector that holds input bytes (stated in the property); guard pages judge its reads, and ASan its other accesses', 'unaligned word accesses are by design and not treated as undefined behaviour'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [], isas = env.isa.filter(function(x) { return x !== 'auto'; });
	function add(name, variant, e, mode, n, extra) { jobs.push(Object.assign({ name: name, variant: variant, env: e, cases: n, shards: q ? 2 : 8, weight: 1, noload: mode === 'asan', params: { mode: mode, per: 16 } }, extra)); }
	var N = q ? 5000 : 80000;
	(isas.length ? isas : ['']).forEach(function(isa, i) {
		var e = {}; if (isa) e.YV_ISA = isa;
		e.YV_CRC = env.crc[i % env.crc.length]; if (e.YV_CRC === 'auto') delete e.YV_CRC;
		add('asan ' + isa, 'asan', e, 'asan', N);
		add('guard ' + isa, 'rel', Object.assign({ YV_MALLOC: 'guard' }, e), 'guard', N);
		add('asan-clang ' + isa, 'asan_clang', e, 'asan', N);
	});
	add('asan generic', 'asan_generic', { YV_CRC: '0' }, 'asan', N);
	add('guard generic', 'generic', { YV_CRC: '0', YV_MALLOC: 'guard' }, 'guard', N);
	add('asan crc0', 'asan', { YV_CRC: '0' }, 'asan', N, { params: { mode: 'asan', per: 16, kinds: ['crc', 'crc2', 'combine', 'zeroes', 'mul', 'shift'] } });
	add('asan nocrcutil', 'asan_nocrcutil', { YV_CRC: '0' }, 'asan', N, { params: { mode: 'asan', per: 16, kinds: ['crc', 'crc2', 'combine', 'zeroes', 'mul', 'shift', 'crc', 'crc2'] } });
	add('guard noavx256', 'noavx256', {}, 'guard', N);
	add('guard native', 'native', {}, 'guard', N);
	add('asan noavx256', 'asan_noavx256', {}, 'asan', N);
	if (!q) {
		add('asan native', 'asan_native', {}, 'asan', N);
		var fl = require('fs').readFileSync('/proc/cpuinfo', 'utf8').match(/^flags.*$/m)[0].split(/\s+/), has = function(l) { return l.every(function(f) { return fl.indexOf(f) >= 0; }); };
		if (has(['avx512f', 'avx512bw', 'avx512vl', 'avx512dq', 'avx512cd'])) ['asan_skx', 'asan_skx_noavx256'].forEach(function(v) { add(v, v, {}, 'asan', N); }); // AVX-512 without VBMI2
		if (has(['avx2', 'bmi1', 'bmi2', 'fma', 'abm', 'movbe'])) add('asan_hsw', 'asan_hsw', {}, 'asan', N);
	}
	// longer data, several lines per vector loop, sizes around allocation growth
	add('asan large', 'asan', {}, 'asan', q ? 400 : 6000, { weight: 40, params: { mode: 'asan', per: 2, max: 200000, big: { p: .06, min: 200000, max: 2500000 } } });
	add('guard large', 'rel', { YV_MALLOC: 'guard' }, 'guard', q ? 400 : 6000, { weight: 40, params: { mode: 'guard', per: 2, max: 200000, big: { p: .06, min: 200000, max: 2500000 } } });
	return jobs;
};
exports.make = function(ctx) {
	var strict = ctx.params.mode === 'asan', y = ctx.y, h = 0, opt = { ref: true, max: ctx.params.max || 4000, kinds: ctx.params.kinds, big: ctx.params.big };
	if (strict) {
		// data for crc32 gets room around it (see assumptions), whoever calls it
		var native = require(ctx.path), crc = native.crc32, at = 0;
		native.crc32 = function(b) {
			if (!Buffer.isBuffer(b)) return crc.apply(this, arguments);
			var c = Buffer.allocUnsafeSlow(b.length + 192), off = 64 + (at = (at + 13) % 64);
			arguments[0] = c.subarray(off, off + b.length);
			b.copy(arguments[0]);
			return crc.apply(this, arguments);
		};
		y = ctx.y = require(ctx.dir + '/index.js');
		opt.place = function(R, name, n) { // exact heap block: redzones on both sides
			var off = R.chance(.5) ? 0 : R.below(64);
			return Buffer.allocUnsafeSlow(off + n).subarray(off, off + n);
		};
	}
	var call = require('../lib/mix')(ctx, y, opt);
	// the native entry points that index.js does not wrap are driven directly as well
	var nat = require(ctx.path), P = opt.place || function(R, name, n) { return call.G.place(R, name, n, Math.max(ctx.params.max ? 900000 : 24576, n)); };
	if (ctx.params.max && !strict) opt.place = P;
	return function(i, R) {
		for (var k = 0; k < ctx.params.per; k++) h = call(R, h);
		if (nat.encodeIncr && !ctx.params.kinds) {
			var n = 1 + call.G.len(R, 2000), ls = call.G.lineSize(R, n), col = call.G.col(R, ls), src = P(R, 'src', n); call.G.fillEnc(R, src, ls, col);
			var d = P(R, 'dst', y.maxSize(n, ls));
			ctx.count('call_encodeIncr');
			if (R.chance(.5)) nat.encodeIncr(src, d, ls, col); else nat.encodeIncr(src, ls, col);
		}
	};
};
