'use strict';
// Dispatch against CPU models: (a) node and the addon on emulated CPUs, where an instruction of an absent feature is an
// illegal instruction; (b) the real CPU answering CPUID/XGETBV with fewer features (build variant cpuid), every executed
// instruction of the addon single-stepped and classified.
var cp = require('child_process'), fs = require('fs'), Rng = require('../lib/rng');
exports.rule = 'qemu jobs: (CPU model, API call, length) executed and compared with the reference; stepped jobs: (simulated feature set, API call, instruction classes executed)';
exports.assumptions = ['qemu-x86_64 (TCG) raises #UD for instructions of features absent from the model (no AVX-512)', 'tzcnt is a valid rep bsf on CPUs without BMI1 and is not reported when stepping',
	'only CPU models whose features are consistent (e.g. AVX2 implies AVX) are simulated'];
// ---- (a) models: dependency-closed feature sets on top of qemu's "max"
var DEP = { ssse3: ['pni'], 'sse4.1': ['ssse3'], 'sse4.2': ['sse4.1'], popcnt: ['pni'], abm: ['popcnt'], avx: ['sse4.2', 'xsave', 'popcnt'], avx2: ['avx'], bmi1: ['avx'], bmi2: ['avx'], pclmulqdq: ['pni'], vpclmulqdq: ['avx', 'pclmulqdq'], fma: ['avx'], f16c: ['avx'], movbe: ['pni'], aes: ['pni'] };
var ALL = Object.keys(DEP).concat(['pni', 'xsave']);
function close(drop) { // features that must go as well
	drop = drop.slice();
	for (var n = -1; n !== drop.length;) { n = drop.length; ALL.forEach(function(f) { if (drop.indexOf(f) < 0 && (DEP[f] || []).some(function(d) { return drop.indexOf(d) >= 0; })) drop.push(f); }); }
	return drop;
}
var NAMED = ['qemu64', 'kvm64', 'Conroe', 'core2duo', 'Penryn', 'Nehalem', 'Westmere', 'SandyBridge', 'IvyBridge', 'Haswell', 'Broadwell', 'Skylake-Client', 'Skylake-Server', 'Icelake-Server', 'Denverton', 'Snowridge', 'SierraForest', 'KnightsMill', 'SapphireRapids',
	'phenom', 'Opteron_G1', 'Opteron_G2', 'Opteron_G3', 'Opteron_G4', 'Opteron_G5', 'EPYC', 'EPYC-Rome', 'EPYC-Milan', 'EPYC-Genoa', 'max', 'base'];
// ---- (b) simulated sets: [CPUID register, mask] per feature, and what stepping may then see
var I = { SSE3: 1, SSSE3: 2, SSE41: 4, SSE42: 8, POPCNT: 0x10, LZCNT: 0x20, PCLMUL: 0x40, AVX: 0x80, AVX2: 0x100, BMI1: 0x200, BMI2: 0x400, VPCLMUL: 0x800, AVX512F: 0x1000, AVX512VL: 0x2000, AVX512BW: 0x4000, VBMI2: 0x8000, VBMI: 0x10000, ZMM: 0x20000, TZCNT: 0x40000, MOVBE: 0x80000, FMA: 0x100000, AVX512OTHER: 0x200000, GFNI: 0x400000 };
var SIM = { // name: [register, bit mask, instruction classes, needs]
	sse3: ['1.c', 1, I.SSE3, []], ssse3: ['1.c', 0x200, I.SSSE3, ['sse3']], sse41: ['1.c', 0x80000, I.SSE41, ['ssse3']], sse42: ['1.c', 0x100000, I.SSE42, ['sse41']], popcnt: ['1.c', 0x800000, I.POPCNT, []], pclmul: ['1.c', 2, I.PCLMUL, []], movbe: ['1.c', 0x400000, I.MOVBE, []],
	lzcnt: ['x1.c', 0x20, I.LZCNT, ['popcnt']], xsave: ['1.c', 0x04000000, 0, []], osxsave: ['1.c', 0x08000000, 0, ['xsave']], ymm: ['xcr', 4, 0, ['osxsave']], avxbit: ['1.c', 0x10000000, 0, ['sse42', 'popcnt', 'xsave']],
	avx: ['', 0, I.AVX, ['avxbit', 'ymm']], fma: ['1.c', 0x1000, I.FMA, ['avxbit']], avx2: ['7.b', 0x20, I.AVX2, ['avxbit']], bmi1: ['7.b', 8, I.BMI1, ['avxbit']], bmi2: ['7.b', 0x100, I.BMI2, ['avxbit']], vpclmul: ['7.c', 0x400, I.VPCLMUL, ['avxbit', 'pclmul']],
	zmmstate: ['xcr', 0xE0, 0, ['ymm']], f512: ['7.b', 0x10000, I.AVX512F | I.ZMM, ['avx2', 'bmi1', 'bmi2', 'lzcnt', 'fma']], dq: ['7.b', 0x20000, 0, ['f512']], bw: ['7.b', 0x40000000, I.AVX512BW, ['f512']], vl: ['7.b', 0x80000000, I.AVX512VL, ['f512']], cd: ['7.b', 0x10000000, 0, ['f512']],
	vbmi: ['7.c', 2, I.VBMI, ['bw']], vbmi2: ['7.c', 0x40, I.VBMI2, ['bw']], gfni: ['7.c', 0x100, I.GFNI, []], bitalg: ['7.c', 0x1000, I.AVX512OTHER, ['bw']], popcntdq: ['7.c', 0x4000, 0, ['f512']]
};
var REAL = Object.keys(SIM).filter(function(f) { return SIM[f][0]; });
function simClose(drop) { drop = drop.slice(); for (var n = -1; n !== drop.length;) { n = drop.length; Object.keys(SIM).forEach(function(f) { if (drop.indexOf(f) < 0 && SIM[f][3].some(function(d) { return drop.indexOf(d) >= 0; })) drop.push(f); }); } return drop; }
function simEnv(drop, extra) {
	var r = {};
	drop.forEach(function(f) { var s = SIM[f]; if (s[0]) r[s[0]] = ((r[s[0]] || 0) | s[1]) >>> 0; });
	return Object.keys(r).map(function(k) { return k + '=' + r[k].toString(16); }).concat(extra || []).join(',');
}
function allowed(drop) {
	var a = I.TZCNT; Object.keys(SIM).forEach(function(f) { if (drop.indexOf(f) < 0) a |= SIM[f][2]; });
	// without the OS saving the state, the instructions fault whatever CPUID says
	if (drop.indexOf('ymm') >= 0) a &= ~(I.AVX | I.AVX2 | I.BMI1 | I.BMI2 | I.VPCLMUL | I.FMA | I.AVX512F | I.AVX512VL | I.AVX512BW | I.VBMI | I.VBMI2 | I.ZMM | I.AVX512OTHER);
	if (drop.indexOf('zmmstate') >= 0) a &= ~(I.AVX512F | I.AVX512VL | I.AVX512BW | I.VBMI | I.VBMI2 | I.ZMM | I.AVX512OTHER);
	return a >>> 0;
}
exports.plan = function(tier, env, seed, ev) {
	var q = tier === 'quick', jobs = [], R = new Rng(seed ^ 0x4b3, 0, 0);
	// directed: each feature missing alone, with the top and with lower levels; then random sets
	var sets = ['ssse3', 'sse4.1', 'sse4.2', 'popcnt', 'abm', 'avx', 'avx2', 'bmi1', 'bmi2', 'pclmulqdq', 'vpclmulqdq', 'xsave', 'fma', 'movbe'].map(function(f) { return [f]; });
	sets.push(['avx2', 'bmi1', 'bmi2'], ['abm', 'bmi2'], ['popcnt', 'pclmulqdq'], ['avx', 'abm'], ['pclmulqdq', 'avx2'], ['sse4.1', 'abm'], ['bmi1', 'bmi2', 'abm', 'fma', 'movbe'], ['avx', 'pclmulqdq'], ['ssse3', 'pclmulqdq'], ['avx2', 'abm']);
	for (var i = 0; i < (q ? 12 : 150); i++) sets.push(ALL.filter(function(f) { return f !== 'pni' && R.chance(.18); }));
	var models = NAMED.concat(sets.map(function(s) { return 'max,' + close(s).map(function(f) { return '-' + f; }).join(','); }));
	models = models.concat(['Haswell,-abm', 'Nehalem,-sse4.1,-sse4.2,-popcnt', 'Nehalem,-popcnt', 'Conroe,-ssse3', 'Penryn,+pclmulqdq', 'core2duo,+popcnt,+abm', 'qemu64,+pclmulqdq,+ssse3', 'qemu64,+pclmulqdq,+ssse3,+sse4.1', 'qemu64,+pclmulqdq', 'Westmere,-pclmulqdq', 'Haswell,-avx2', 'Haswell,-bmi2', 'Haswell,-popcnt',
		'SandyBridge,-popcnt', 'SandyBridge,+abm', 'SandyBridge,-xsave,-avx', 'Conroe,+abm,+popcnt', 'Opteron_G4,-avx', 'IvyBridge,+avx2,+bmi1,+bmi2', 'IvyBridge,+avx2,+bmi1,+bmi2,+abm', 'Opteron_G5,+avx2,+bmi1,+bmi2']);
	// CPUs treated specially by family and model
	[[6, 0x1C], [6, 0x37], [6, 0x4D], [6, 0x5C], [6, 0x5F], [6, 0x7A], [6, 0x9C], [0x14, 1], [0x16, 0], [6, 0x0F], [0x15, 2], [0x17, 1]].forEach(function(m) { models.push('max,family=' + m[0] + ',model=' + m[1] + (m[0] === 6 && m[1] !== 15 || m[0] === 0x14 ? ',' + close(['avx', 'abm']).map(function(f) { return '-' + f; }).join(',') : '')); });
	models = Array.from(new Set(models.map(function(m) { return m.replace(/,$/, ''); })));
	if (cp.spawnSync('qemu-x86_64', ['--version']).status === 0) {
		models.forEach(function(m) { jobs.push({ name: 'qemu ' + m, qemu: m, variant: 'rel', tolerant: true, onFault: true, markMask: 0, stall: 60, cases: q ? 24 : 400, weight: 50, params: { mode: 'qemu', per: 16 } }); });
	} else ev.coverage.note = 'no qemu-x86_64: emulated models skipped';
	// stepped
	var fl = fs.readFileSync('/proc/cpuinfo', 'utf8').match(/^flags.*$/m)[0].split(/\s+/), host = { sse3: 'pni', sse41: 'sse4_1', sse42: 'sse4_2', pclmul: 'pclmulqdq', lzcnt: 'abm', avxbit: 'avx', ymm: 'avx', osxsave: 'xsave', zmmstate: 'avx512f', f512: 'avx512f', dq: 'avx512dq', bw: 'avx512bw', vl: 'avx512vl', cd: 'avx512cd', vbmi: 'avx512vbmi', vbmi2: 'avx512_vbmi2', vpclmul: 'vpclmulqdq', bitalg: 'avx512_bitalg', popcntdq: 'avx512_vpopcntdq' };
	var absent = Object.keys(SIM).filter(function(f) { return fl.indexOf(host[f] || f) < 0; });
	var drops = [[]].concat(REAL.map(function(f) { return [f]; }), [['f512', 'lzcnt'], ['f512', 'bmi1'], ['f512', 'bmi2'], ['f512', 'avx2'], ['f512', 'vpclmul'], ['avxbit', 'pclmul'], ['vl', 'vbmi2'], ['zmmstate', 'lzcnt'], ['avx2', 'ymm'], ['f512', 'ymm']]);
	for (i = 0; i < (q ? 8 : 120); i++) drops.push(REAL.filter(function() { return R.chance(.1); }));
	var seen = {}, top = absent.indexOf('vbmi2') < 0 && absent.indexOf('vl') < 0 && absent.indexOf('zmmstate') < 0;
	function sim(name, variant, e, a) { jobs.push({ name: name, variant: variant, noload: true, tolerant: true, stall: 240, markMask: 0, env: { YV_CPUID: e }, cases: 1, weight: 4000, params: { mode: 'step', allowed: a, budget: q ? 500000 : 3000000, calls: q ? 40 : 300 } }); }
	drops.forEach(function(d) {
		d = simClose(d.concat(absent)).sort();
		var k = d.join(' ');
		if (seen[k]) return; seen[k] = 1;
		sim('without ' + (k || 'nothing'), 'cpuid', simEnv(d), allowed(d));
	});
	if (top) { // AVX10: the 512-bit forms optional
		var noAvx512 = simEnv(['f512', 'dq', 'bw', 'vl', 'cd', 'vbmi', 'vbmi2', 'bitalg', 'popcntdq']), full = allowed(absent);
		[['AVX10/256 v1', '24.b=20001', full & ~I.ZMM], ['AVX10/256 v2', '24.b=20002', full & ~I.ZMM], ['AVX10/512', '24.b=60001', full], ['AVX10 v0', '24.b=60000', full & ~(I.AVX512F | I.AVX512VL | I.AVX512BW | I.VBMI2 | I.VBMI | I.ZMM | I.AVX512OTHER)]].forEach(function(x) {
			['cpuid', 'cpuid_clang'].forEach(function(v) { sim(x[0] + ' ' + v, v, noAvx512 + ',+7.1.d=80000,' + x[1], x[2] >>> 0); });
		});
	}
	ev.coverage.models = models.length; ev.coverage.simulated_sets = Object.keys(seen).length;
	return jobs;
};
exports.make = function(ctx) {
	var o = ctx.o, h = 0;
	if (ctx.params.mode === 'qemu') {
		var call = require('../lib/mix')(ctx, ctx.y, { ref: true, max: 3000 });
		return function(i, R) { if (!i) ctx.count('cpu_models_run'); for (var k = 0; k < ctx.params.per; k++) h = call(R, h); };
	}
	return function(i, R) {
		var m = { exports: {} }, used = 0;
		function seen(what, r) {
			ctx.count('instructions_stepped', r.inside); used |= r.used;
			if (r.bad) ctx.fail('executed an instruction the simulated CPU does not have', { during: what, offset: '0x' + r.bad.toString(16), code: r.badCode, needs: Object.keys(I).filter(function(k) { return r.badNeeds & I[k]; }), cpuid: process.env.YV_CPUID });
		}
		var r = o.step(ctx.path, ctx.params.allowed, function() { process.dlopen(m, ctx.path); }, ctx.params.budget);
		seen('loading', r);
		if (!m.exports || !m.exports.encode) throw new Error('oracle: addon not loaded');
		ctx.count('feature_sets_stepped');
		// the JavaScript part sees native functions that step through each call
		var w = {}, fn, args, self, ret, err, cur;
		function inner() { try { ret = fn.apply(self, args); } catch (e) { err = e; } }
		Object.keys(m.exports).forEach(function(k) {
			w[k] = m.exports[k];
			if (typeof w[k] !== 'function') return;
			w[k] = function() {
				fn = m.exports[k]; args = arguments; self = this; ret = err = undefined; cur = k;
				var r = o.step(ctx.path, ctx.params.allowed, inner);
				seen(k, r);
				ctx.sig(o.hash(Buffer.from(k + ' ' + r.used + ' ' + ctx.params.allowed), 0));
				if (err) throw err;
				return ret;
			};
		});
		require.cache[ctx.path] = { id: ctx.path, filename: ctx.path, loaded: true, exports: w, children: [], paths: [] };
		var y = require(ctx.dir + '/index.js'), call = require('../lib/mix')(ctx, y, { ref: true, max: 600 });
		for (var k = 0; k < ctx.params.calls; k++) { ctx.progress(); h = call(R, h); }
		ctx.count('classes_' + used.toString(16));
		ctx.sample({ allowed: ctx.params.allowed.toString(16), executed: used.toString(16), cpuid: process.env.YV_CPUID });
	};
};
exports.conclude = function(ev) {
	ev.coverage.observed.cpu_models_run = ev.coverage.observed.cpu_models_run || 0;
	return null;
};
