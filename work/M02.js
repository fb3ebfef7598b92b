'use strict';
// Each call twice: elsewhere in memory, between other bytes, into other leftovers, after other calls; inputs read-only meanwhile
exports.rule = 'hash of (API function, arguments digest, length) of each call executed twice in different memory surroundings with write-protected inputs, and of each call of a sequence of related calls';
var Rng = require('../lib/rng');
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	require('../lib/plan').isa(env).forEach(function(a, i) {
		var e = Object.assign({}, a.env), c = env.crc[i % env.crc.length];
		if (a.variant === 'generic') e.YV_CRC = '0'; else if (c !== 'auto') e.YV_CRC = c;
		jobs.push({ name: a.name, variant: a.variant, env: e, cases: q ? 40000 : 400000, shards: q ? 1 : 4, params: { per: 3 } });
	});
	['nocrcutil', 'noavx256', 'native'].forEach(function(v) { jobs.push({ name: v, variant: v, env: v === 'nocrcutil' ? { YV_CRC: '0' } : {}, cases: q ? 20000 : 200000, shards: q ? 1 : 4, params: { per: 3 } }); });
	['auto', 'generic', 'nocrcutil'].forEach(function(v) { // sizes at which fast paths, memos and thread hand-offs would begin
		jobs.push({ name: 'big-' + v, variant: v === 'auto' ? 'rel' : v, env: v === 'auto' ? {} : { YV_CRC: '0' }, cases: q ? 60 : 1500, shards: q ? 1 : 6, weight: 1000, markMask: 0, params: { per: 3, big: { p: .5, min: 60000, max: 1300000 } } });
	});
	// very many calls in one process
	jobs.push({ name: 'long', cases: 13 * (q ? 1 : 3), shards: 13, weight: 10000, markMask: 0, params: { mode: 'long', calls: q ? 1300000 : 8500000 } });
	// sequences of related calls, each compared with the reference
	require('../lib/plan').pairs(env).concat([{ name: 'generic', variant: 'generic', env: { YV_CRC: '0' } }, { name: 'nocrcutil', variant: 'nocrcutil', env: { YV_CRC: '0' } }]).forEach(function(a) {
		jobs.push({ name: 'history-' + a.name, variant: a.variant || 'rel', env: a.env, cases: q ? 30000 : 400000, shards: q ? 1 : 4, params: { mode: 'history' } });
	});
	return jobs;
};
exports.make = function(ctx) {
	if (ctx.params.mode === 'long') return require('../lib/long')(ctx, ctx.y);
	if (ctx.params.mode === 'history') return require('../lib/history')(ctx, ctx.y);
	var o = ctx.o, RP, sealed = false, G, keep = [];
	var MAX = ctx.params.big ? 12 << 20 : 24576;
	// inputs and outputs in separate arenas, each between inaccessible pages
	var arena = { src: o.guard(MAX + 8192), dst: o.guard(MAX + 8192) };
	function surround(a, from, to) { // other bytes around the view, hostile ones now and then
		var k = RP.below(4);
		if (k === 0) a.fill(RP.below(256), from, to); else if (to > from) o.gen(a.subarray(from, to), RP.u32(), RP.u32(), k === 1 ? 0 : k === 2 ? 9 : 10, 20 | 30 << 8);
	}
	function place(R, name, n) {
		var a = arena[name], k = RP.below(4), off = k === 0 ? a.length - n : k === 1 ? 0 : RP.below(Math.min(a.length - n, 4160) + 1);
		surround(a, Math.max(0, off - 300), off); surround(a, off + n, Math.min(a.length, off + n + 300));
		if (name === 'dst') surround(a, off, off + n);
		return a.subarray(off, off + n);
	}
	// native functions, wrapped: inputs cannot be written while they run, and are the same afterwards
	var nat = require(ctx.path), outputs = { encodeTo: 1, decodeTo: 1, decodeIncr: 2, encodeIncr: 1 };
	Object.keys(nat).forEach(function(k) {
		var f = nat[k];
		if (typeof f !== 'function') return;
		nat[k] = function() {
			var ins = [], out = Buffer.isBuffer(arguments[outputs[k]]) ? arguments[outputs[k]] : null, seal = false, hs = [], i;
			for (i = 0; i < arguments.length; i++) {
				var b = arguments[i];
				if (!Buffer.isBuffer(b) || b === out || !b.length) continue;
				var inside = b.buffer === arena.src.buffer;
				if (inside) seal = true;
				ins.push(b); hs.push(inside ? 0 : o.hash(b, 7));
			}
			if (seal && !(out && out.buffer === arena.src.buffer)) o.protect(arena.src, 1); else seal = false;
			try { return f.apply(this, arguments); }
			finally {
				if (seal) { o.protect(arena.src, 3); ctx.count('sealed_calls'); }
				for (i = 0; i < ins.length; i++) if (hs[i] && o.hash(ins[i], 7) !== hs[i]) ctx.fail('an input Buffer was modified', { call: k, argument: ins[i] });
			}
		};
	});
	delete require.cache[require.resolve(ctx.dir + '/index.js')];
	var y = require(ctx.dir + '/index.js'), call = require('../lib/mix')(ctx, y, { place: place, max: 3000, big: ctx.params.big }), salt = 0;
	return function(i) {
		var h = [], last = [];
		for (var pass = 0; pass < 2; pass++) {
			RP = new Rng(ctx.seed ^ 0x51f, i, 100 + pass);
			// another history before the second pass
			if (pass) { var Q = new Rng(ctx.seed ^ 0x77, i, 3); for (var k = Q.below(3); k >= 0; k--) call(Q, 0); RP = new Rng(ctx.seed ^ 0x51f, i, 101); }
			var R = ctx.rng(i, 5), d = [];
			for (k = 0; k < ctx.params.per; k++) { d.push(call(R, 1)); if (pass && d[k] !== h[k]) ctx.fail('the result depends on something other than the argument contents', { call: ctx.last, index: k, first: last[k] }); if (!pass) last.push({ call: ctx.last.call, result: Buffer.isBuffer(ctx.last.result) ? Buffer.from(ctx.last.result) : ctx.last.result && ctx.last.result.output ? { written: ctx.last.result.written, read: ctx.last.result.read, state: ctx.last.result.state, output: Buffer.from(ctx.last.result.output) } : null }); }
			if (!pass) h = d;
		}
		ctx.count('pairs_compared', ctx.params.per);
		if (i === 0) ctx.sample(ctx.last);
	};
};
