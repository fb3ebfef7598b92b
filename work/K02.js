'use strict';
// The same calls in every build configuration; digests must agree with the plain redistributable build
var D = require('../lib/digest');
exports.rule = 'hash of (API function, arguments digest so far, length) of each distinct call, executed once per build configuration; digests compared between all configurations block by block';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [], vs = ['rel', 'native', 'noavx256', 'nocrcutil', 'both', 'o0', 'clang', 'native:x86-64', 'native:haswell'];
	var flags = require('fs').readFileSync('/proc/cpuinfo', 'utf8').match(/^flags.*$/m)[0].split(/\s+/), has = function() { return [].every.call(arguments, function(f) { return flags.indexOf(f) >= 0; }); };
	if (!has('avx2', 'bmi2', 'fma', 'abm')) vs.pop();
	if (!q) {
		vs.push('o2');
		if (has('ssse3', 'sse4_2', 'popcnt')) vs.push('native:x86-64-v2', 'native:nehalem');
		if (has('avx', 'pclmulqdq', 'aes')) vs.push('native:sandybridge');
		if (has('avx2', 'bmi2', 'fma', 'abm')) vs.push('native:haswell:noavx256');
		if (has('avx512f', 'avx512bw', 'avx512vl', 'avx512dq', 'avx512cd')) vs.push('native:skylake-avx512', 'native:skylake-avx512:noavx256');
		if (has('avx512_vbmi2', 'vpclmulqdq', 'avx512_bitalg', 'avx512_vpopcntdq', 'gfni', 'vaes', 'sha_ni', 'rdpid', 'pku', 'clwb')) vs.push('native:icelake-server', 'native:icelake-server:noavx256');
	}
	vs.forEach(function(v) {
		// crcutil only shows with the CRC kernels switched off
		['', '0'].forEach(function(c) {
			jobs.push({ name: v + (c ? '-crc' + c : ''), variant: v, env: c ? { YV_CRC: c } : {}, cases: q ? 16384 : 262144, shards: q ? 1 : 4, weight: v === 'o0' ? 5 : 1, params: { stream: 'k' } });
		});
		jobs.push({ name: v + '-large', variant: v, cases: q ? 256 : 2048, shards: 2, weight: v === 'o0' ? 600 : 200, params: { stream: 'large', max: 20000, per: 6 } });
		if (env.isa.indexOf('sse2') >= 0 && !/^native/.test(v)) jobs.push({ name: v + '-sse2', variant: v, env: { YV_ISA: 'sse2' }, cases: q ? 16384 : 262144, shards: q ? 1 : 4, weight: v === 'o0' ? 5 : 1, params: { stream: 'k' } });
		if (env.isa.indexOf('avx2') >= 0 && !/^native/.test(v)) jobs.push({ name: v + '-avx2', variant: v, env: { YV_ISA: 'avx2' }, cases: q ? 16384 : 262144, shards: q ? 1 : 4, weight: v === 'o0' ? 5 : 1, params: { stream: 'k' } });
	});
	return jobs;
};
exports.make = D.make;
exports.conclude = function(ev, jobs) { return D.conclude(ev, jobs, 'results differ between build configurations'); };
