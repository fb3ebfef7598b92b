'use strict';
// Worker threads loading and using the module at the same time: digests against a single thread's, initialisations counted,
// and a ThreadSanitizer build loaded into node for the data races. Each shard is a fresh process, so its first case loads cold.
exports.rule = 'hash of (threads, load order, start pattern, stream) and of each digest compared';
exports.assumptions = ['ThreadSanitizer sees the addon and the synchronisation of libc; node itself is not instrumented and its internal accesses are ignored'];
var path = require('path');
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [], isas = env.isa;
	var S = q ? 6 : 60;
	isas.forEach(function(isa, i) {
		var e = {}, c = env.crc[i % env.crc.length]; if (isa !== 'auto') e.YV_ISA = isa; if (c !== 'auto') e.YV_CRC = c;
		if (i % 2) e.YV_SLOW = '20000';
		jobs.push({ name: 'threads ' + isa, variant: 'rel', env: e, noload: true, markMask: 0, shards: S, cases: S * (q ? 3 : 8), weight: 100, params: { calls: 300 } });
		jobs.push({ name: 'tsan ' + isa, variant: 'tsan', env: e, noload: true, markMask: 0, stall: 240, shards: q ? 2 : 20, cases: (q ? 2 : 20) * (q ? 3 : 8), weight: 300, params: { calls: 60 } });
	});
	jobs.push({ name: 'threads generic', variant: 'generic', env: { YV_CRC: '0', YV_SLOW: '20000' }, noload: true, markMask: 0, shards: S, cases: S * 3, weight: 100, params: { calls: 300 } });
	jobs.push({ name: 'threads guard', variant: 'rel', env: { YV_MALLOC: 'guard' }, noload: true, markMask: 0, shards: q ? 2 : 20, cases: q ? 6 : 160, weight: 100, params: { calls: 200 } });
	jobs.push({ name: 'tsan nocrcutil', variant: 'tsan_nocrcutil', env: { YV_CRC: '0' }, noload: true, markMask: 0, stall: 240, shards: q ? 1 : 10, cases: q ? 3 : 80, weight: 300, params: { calls: 60 } });
	jobs.forEach(function(j) { j.threads = true; });
	return jobs;
};
exports.make = function(ctx) {
	var W = require('worker_threads'), o = ctx.o, loads = 0;
	var shared = new SharedArrayBuffer(40000); o.gen(Buffer.from(shared), 1, 2, 9, 20 | 20 << 8);
	function digest(stream, n, delay) { // single thread
		return require('../lib/tthread').digests(ctx.dir, o, stream, n, Buffer.from(shared));
	}
	var base = null;
	function baseline() {
		var args = ["-e", "var o=require(" + JSON.stringify(ctx.job.oracle) + "),d=" + JSON.stringify(ctx.dir) + ";require(" + JSON.stringify(path.join(__dirname, '../lib/tthread.js')) + ").digests(d,o,1,20,Buffer.alloc(40000));console.log('stats '+JSON.stringify(o.stats(" + JSON.stringify(ctx.path) + ")))"];
		var r = require('child_process').spawnSync(process.execPath, process.execArgv.concat(args), { encoding: 'utf8', timeout: 120000 });
		var m = /^stats (\{.*\})$/m.exec(r.stdout || '');
		if (!m) throw new Error('oracle: no baseline: ' + r.status + ' ' + r.signal + ' ' + String(r.stderr).slice(0, 300));
		return JSON.parse(m[1]);
	}
	return async function(i, R) {
		var n = i % 3 === 0 ? 8 : R.range(2, 8), calls = ctx.params.calls, pattern = R.pick(['barrier', 'barrier', 'staggered', 'reload']);
		var when = i === ctx.job.from ? 'after' : R.pick(['before', 'after', 'during']); // when this thread itself loads the module
		var streams = R.chance(.5) ? [i] : [i, i + 1000003], expected = {};
		if (when === 'before') streams.forEach(function(s) { expected[s] = digest(s, calls); });
		var gate = new Int32Array(new SharedArrayBuffer(8)), list = [], stats = null;
		for (var k = 0; k < n; k++) (function(k) {
			list.push(new Promise(function(res, rej) {
				var w = new W.Worker(path.join(__dirname, '../lib/tthread.js'), { workerData: { dir: ctx.dir, oracle: ctx.job.oracle, stream: streams[k % streams.length], calls: calls, gate: gate, threads: n, pattern: pattern, delay: pattern === 'staggered' ? R.below(30) : 0, shared: shared } });
				w.on('message', function(m) { ctx.progress(); if (m.digests) res({ s: streams[k % streams.length], d: m.digests }); });
				w.on('error', rej);
			}));
		})(k);
		if (when === 'during') streams.forEach(function(s) { expected[s] = digest(s, calls); });
		var got = await Promise.all(list);
		if (when === 'after') streams.forEach(function(s) { expected[s] = digest(s, calls); });
		got.forEach(function(g) {
			g.d.forEach(function(d, k) {
				ctx.count('digests_compared');
				if (d !== expected[g.s][k]) ctx.fail('a thread got another result than a single thread', { call: k, of: calls, stream: g.s, threads: n, pattern: pattern, when: when });
			});
			ctx.sig(o.hash(Buffer.from(g.d.join()), 0));
		});
		ctx.count('threads', n); ctx.count('pattern_' + pattern); ctx.count('main_loads_' + when);
		var s = o.stats(ctx.path);
		if (s && s.isa_calls) { // as often as when one thread loads the module once and uses it
			if (!base) base = baseline();
			ctx.max('cpu_queries', s.isa_calls + s.crc_calls); ctx.count('initialisation_checks');
			if (s.isa_calls > base.isa_calls || s.crc_calls > base.crc_calls) ctx.fail('the implementation tables were initialised more than once', { stats: s, single_thread: base });
		}
		if (i === ctx.job.from) ctx.sample({ threads: n, pattern: pattern, main: when, cold: true });
	};
};
