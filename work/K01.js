'use strict';
// The same calls on every kernel this CPU can run; only the dispatcher's choice differs
exports.rule = 'hash of (API function, arguments digest so far, length) of each distinct call, executed once per kernel cap; digests compared between all kernels block by block, and with the reference in the ref job';
var D = require('../lib/digest'), BIG = { p: .5, min: 60000, max: 1500000 };
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	// every (encoder/decoder cap) with every CRC cap in turn
	var combos = [];
	env.isa.forEach(function(a, i) { combos.push([a, env.crc[i % env.crc.length]]); });
	env.crc.forEach(function(c) { if (!combos.some(function(x) { return x[1] === c; })) combos.push([env.isa[env.isa.length - 1], c]); });
	combos.push(['auto', 'auto']);
	combos.forEach(function(c) {
		var e = {};
		if (c[0] !== 'auto') e.YV_ISA = c[0];
		if (c[1] !== 'auto') e.YV_CRC = c[1];
		jobs.push({ name: c[0] + '-crc' + c[1], env: e, cases: q ? 49152 : 786432, shards: q ? 2 : 8, params: { stream: 'k' } });
		jobs.push({ name: c[0] + '-crc' + c[1] + '-large', env: e, cases: q ? 256 : 2048, shards: 2, weight: 200, params: { stream: 'large', max: 20000, per: 6 } });
		jobs.push({ name: c[0] + '-crc' + c[1] + '-big', env: e, cases: q ? 64 : 1024, shards: 1, weight: 2000, markMask: 0, params: { stream: 'big', big: BIG, per: 3 } });
	});
	['rel', 'generic'].forEach(function(v) { // portable kernels, compared with the reference as well
		if (v === 'generic') jobs.push({ name: 'generic', variant: v, env: { YV_CRC: '0' }, cases: q ? 49152 : 786432, shards: q ? 2 : 8, params: { stream: 'k' } });
		if (v === 'generic') jobs.push({ name: 'generic-large', variant: v, env: { YV_CRC: '0' }, cases: q ? 256 : 2048, shards: 2, weight: 200, params: { stream: 'large', max: 20000, per: 6 } });
		if (v === 'generic') jobs.push({ name: 'generic-big', variant: v, env: { YV_CRC: '0' }, cases: q ? 64 : 1024, shards: 1, weight: 2000, markMask: 0, params: { stream: 'big', big: BIG, per: 3 } });
		jobs.push({ name: 'reference-' + v, variant: v, cases: q ? 20000 : 300000, shards: q ? 2 : 8, params: { ref: 1, per: 8 } });
	});
	return jobs;
};
exports.make = function(ctx) {
	if (!ctx.params.ref) return D.make(ctx);
	var call = require('../lib/mix')(ctx, ctx.y, { ref: true }), h = 0;
	return function(i, R) { for (var k = 0; k < ctx.params.per; k++) h = call(R, h); };
};
exports.conclude = function(ev, jobs) { return D.conclude(ev, jobs, 'results differ between kernels'); };
