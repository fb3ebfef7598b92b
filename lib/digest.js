'use strict';
// Jobs that must produce identical digests: each worker reports one digest per block of cases, the runner compares.
exports.BLOCK = 64;
exports.make = function(ctx) {
	var call = require('./mix')(ctx, ctx.y, { max: ctx.params.max || 8000, kinds: ctx.params.kinds, big: ctx.params.big }), h = 0, digests = [], per = ctx.params.per || 8, Rng = require('./rng');
	function flush(i) { digests.push(h); h = 0; }
	var run = function(i) {
		// the random sequence depends on the case only, not on the job
		var R = new Rng(ctx.seed ^ Rng.str('digest' + (ctx.params.stream || '')), i, 0);
		for (var k = 0; k < per; k++) h = call(R, h);
		if (ctx.params.trace) { digests.push(h); h = 0; }
		else if (i % exports.BLOCK === exports.BLOCK - 1) flush(i);
		if (i === 0) ctx.sample(ctx.last);
	};
	run.end = function() { flush(); };
	run.done = function(result) { result.extra = { digests: digests, group: ctx.params.stream || '', from: ctx.job.from }; };
	return run;
};
// all jobs of one group must agree, block by block
exports.conclude = function(ev, jobs, what) {
	var groups = {}, compared = 0, members = {};
	var bad = null;
	(ev.extra || []).forEach(function(x) {
		var g = groups[x.group + '@' + x.from] = groups[x.group + '@' + x.from] || { first: x };
		members[x.job] = 1;
		if (g.first === x) return;
		for (var i = 0; i < Math.max(x.digests.length, g.first.digests.length); i++) {
			compared++;
			if (x.digests[i] !== g.first.digests[i] && !bad) bad = { a: g.first.job, b: x.job, block: i, from: x.from };
		}
	});
	ev.coverage.observed.digest_blocks_compared = compared;
	ev.coverage.observed.configurations_compared = Object.keys(members).length;
	if (!bad) return null;
	var jb = jobs.filter(function(j) { return j.name === bad.b; })[0], ja = jobs.filter(function(j) { return j.name === bad.a; })[0];
	return { what: what + ': ' + bad.a + ' and ' + bad.b, job: bad.b, case: bad.from + bad.block * exports.BLOCK, detail: { cases: [bad.from + bad.block * exports.BLOCK, bad.from + (bad.block + 1) * exports.BLOCK - 1], seed: jb.seed },
		jobDesc: jb, other: { name: ja.name, variant: ja.variant, env: ja.env, params: ja.params }, span: exports.BLOCK };
};
