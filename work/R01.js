'use strict';
// Resources: CPU time as data, chunks, parts and lengths grow, on data chosen to be expensive; native memory kept and used by results
var K = require('../lib/plan');
exports.rule = 'stack jobs: hash of each result obtained; time jobs: (kernel cap, operation, data shape, size step) measured; memory jobs: hash of (operation, lengths of data and result, memory held, memory peak) of each distinct call or group of results';
exports.assumptions = ['CPU time of the process; only more than 1 s and 10 times that of a quarter of the input counts as out of proportion', 'native memory: the addon\'s own malloc/realloc/free requests, seen by the linker-interposed allocator'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [], all = K.isa(env);
	all.forEach(function(e) { jobs.push({ name: 'time-' + e.name, variant: e.variant, env: e.env, cases: OPS.length, shards: q ? 3 : OPS.length, weight: 1000, markMask: 0, stall: 100, params: { mode: 'time', top: q ? 4 : 6 } }); });
	jobs.push({ name: 'time-articles', variant: 'rel', env: {}, cases: ARTS.length, shards: 8, weight: 1000, markMask: 0, stall: 100, params: { mode: 'time', articles: true, top: 4 } });
	K.pairs(env).concat([{ name: 'generic', variant: 'generic', env: { YV_CRC: '0' } }, { name: 'nocrcutil', variant: 'nocrcutil', env: { YV_CRC: '0' } }]).forEach(function(e) {
		jobs.push({ name: 'field-' + e.name, variant: e.variant || 'rel', env: e.env, cases: q ? 53 : 530, shards: 1, weight: 300, markMask: 0, stall: 100, params: { mode: 'field' } });
	});
	all.forEach(function(e) { jobs.push({ name: 'memory-' + e.name, variant: e.variant, env: e.env, cases: q ? 6000 : 100000, shards: q ? 1 : 4, weight: 10, params: { mode: 'memory' } }); });
	K.pairs(env).concat([{ name: 'generic', variant: 'generic', env: { YV_CRC: '0' } }]).forEach(function(e) { // a thread's stack
		jobs.push({ name: 'stack-' + e.name, threads: true, variant: e.variant || 'rel', env: e.env, cases: q ? 4 : 60, shards: q ? 1 : 2, weight: 300, markMask: 0, stall: 100, params: { mode: 'stack' } });
	});
	return jobs;
};
function rep(s, n) { var b = Buffer.alloc(n, s, 'latin1'); return b; }
// what a scanner could trip over
var DEC = ['a', '=', '\r\n.', '..', '\r\n=', '\r\n.\r', '=y', '\r', '\n', '\r\n', '.', '\r\n.=', '=\r\n', '\r\n..', 'a=', '\r\n.\r\r\n'], ENC = ['\xd6', '\x04', '\xdf', '\xf6', '\x13', 'a', '\xd6a', '\xe0', '\xe3'], LS = [128, 1, 2, 11, 12, 64, 2147483647];
var OPS = [], ARTS = [];
DEC.forEach(function(s) { OPS.push(['decode', s], ['decodeChunk', s], ['chunks', s]); });
ENC.forEach(function(s, i) { OPS.push(['encode', s, 128], ['encodeTo', s, LS[i % LS.length]], ['encode', s, LS[(i + 3) % LS.length]]); });
OPS.push(['crc32', 'a'], ['crcparts', 'a'], ['combineparts', 'a'], ['post', 'a'], ['post', '\xd6'], ['parts', 'a'], ['smallparts', 'a'], ['filename', 'a'], ['filename', '\r\n'], ['state', 'a'], ['roundtrip', '\xd6'], ['decodeTo', '='], ['encodepieces', '\x04']);
// articles: the pattern in the =ybegin line, as further lines, as data, in the =yend line, and in front
var ART = ['a', ' ', '0', '_', '=', 'a=', 'a=1 ', '=a ', '-0', 'a-', ' 0=', 'name=', '\xe9', 'a = ', '\t ', '0a=0 ', '=y', '\r', '\n', 'size=1 line=1 '], LINES = ['=y\r\n', '=yx a=1\r\n', '=ypart begin=1 end=2\r\n', '=ybegin line=1 size=1 name=n\r\n', '=y a b c\r\n'], BODY = ['\r\n=yend ', '\r\n=ybegin', '\r\n=yend', '\r\n=y', '\r\n', '=yend ', '\r', '\r\n=yenx '];
ART.forEach(function(s) { ARTS.push(['article', s, 0], ['article', s, 3]); });
LINES.forEach(function(s) { ARTS.push(['article', s, 1]); });
BODY.forEach(function(s) { ARTS.push(['article', s, 2], ['article', s, 4]); });
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, mode = ctx.params.mode, Z4 = Buffer.alloc(4);
	function cpu(f) { var c = process.cpuUsage(); f(); c = process.cpuUsage(c); return (c.user + c.system) / 1e6; }
	if (mode === 'time') return function(i) {
		var op = (ctx.params.articles ? ARTS : OPS)[i], prev = 0, done = 0;
		for (var step = 0, n = 16384; step <= ctx.params.top; step++, n *= 4) {
			var b = rep(op[1], n), out = op[0] === 'encodeTo' ? Buffer.alloc(y.maxSize(n, op[2])) : op[0] === 'decodeTo' ? Buffer.alloc(n) : null, k, st, run;
			run = {
				decode: function() { y.decode(b, true); y.decode(b); }, decodeTo: function() { y.decodeTo(b, out, true); },
				decodeChunk: function() { for (var p = 0; p < n;) { var r = y.decodeChunk(b.subarray(p), st); st = r.state; p += r.read; if (r.ended && r.read < 64) p += n >> 4; } }, // goes on behind each end, a few thousand times at most in all
				chunks: function() { st = null; for (k = 0; k + 17 < n; k += 17) st = y.decodeChunk(b.subarray(k, k + 17), st).state; },
				encode: function() { y.encode(b, op[2]); }, encodeTo: function() { y.encodeTo(b, out, op[2]); },
				crc32: function() { y.crc32(b); },
				crcparts: function() { st = Z4; for (k = 0; k + 16 < n; k += 16) st = y.crc32(b.subarray(k, k + 16), st); },
				combineparts: function() { st = Z4; for (k = 0; k + 32 < n; k += 32) st = y.crc32_combine(st, Z4, k); },
				post: function() { y.post('name', b, 128); },
				parts: function() { var p = n >> 9, e = y.multi_post('name', p * 512, p); for (k = 0; k < p; k++) e.encode(b.subarray(k * 512, k * 512 + 512)); },
				smallparts: function() { var p = n >> 7, e = y.multi_post('name', p * 2, p); for (k = 0; k < p; k++) e.encode(b.subarray(0, 2)); },
				filename: function() { y.post(b.toString('latin1'), Z4); y.multi_post(b.toString('latin1'), 4, 2); },
				state: function() { y.decodeChunk(Z4, b.toString('latin1')); },
				article: function() {
					var a = ['=ybegin line=128 size=1 name=', '', '\r\n', '', 'abc', '\r\n=yend size=1 ', '', ' pcrc32=00000000\r\n'], at = op[2];
					if (at === 0) a = ['=ybegin line=128 size=1 ', b, ' name=x\r\n', 'abc', '\r\n=yend size=1 \r\n'];
					else if (at === 1) a = ['=ybegin line=128 size=1 name=x\r\n', b, 'abc', '\r\n=yend size=1 \r\n'];
					else if (at === 2) a = ['=ybegin line=128 size=1 name=x\r\n', 'abc', b, '\r\n=yend size=1 \r\n'];
					else if (at === 3) a = ['=ybegin line=128 size=1 name=x\r\n', 'abc', '\r\n=yend size=1 ', b];
					else a = ['x', b, '\r\n=ybegin line=128 size=1 name=x\r\n', 'abc', '\r\n=yend size=1 \r\n'];
					y.from_post(Buffer.concat(a.map(function(s) { return Buffer.isBuffer(s) ? s : Buffer.from(s, 'latin1'); })), true);
				},
				roundtrip: function() { y.decode(y.encode(b, 128), true); },
				encodepieces: function() { for (k = 0; k + 31 < n; k += 31) y.encode(b.subarray(k, k + 31), 128, k % 128); }
			}[op[0]];
			if (op[0] === 'encodepieces' || op[0] === 'chunks' || op[0] === 'crcparts' || op[0] === 'combineparts') if (step > 3) break;
			if (op[0] === 'article' && step > (op[2] === 1 || /=\d/.test(op[1]) ? 3 : 4)) break; // a warning for each, up to a quarter of a million of them
			var t = cpu(run);
			ctx.progress(); ctx.count('timed_runs'); ctx.max('cpu_ms', Math.round(t * 1000));
			ctx.sig(o.hash(Buffer.from(op.join() + ' ' + n), ctx.job.name.length));
			if (t > 1 && t > 10 * Math.max(prev, .05)) {
				var again = cpu(run); // once more: the machine may have been busy
				ctx.progress(); ctx.count('time_reruns');
				if (again > 1 && again > 10 * Math.max(prev, .05)) ctx.fail(op[0] + ': time is not proportional to the size of the data', { operation: op, bytes: n, cpu_s: [t, again], quarter: prev });
			}
			prev = t; done = n;
		}
		if (i < 2) ctx.sample({ operation: op, bytes: done, cpu_s: prev });
	};
	if (mode === 'field') return function(i, R) { // the length is a number, not a loop count
		var bits = i % 53 + 1, top = Math.pow(2, bits) - 1;
		['crc32_combine', 'crc32_zeroes', 'crc32_shift', 'multiply'].forEach(function(f) {
			var c = Buffer.alloc(4); c.writeUInt32BE(R.u32());
			function again() { return cpu(work); }
			function work() {
				for (var k = 0; k < 200; k++) {
					var n = top - R.below(2) * Math.floor(top * R.below(100) / 300);
					if (f === 'crc32_combine') y.crc32_combine(c, c, n); else if (f === 'multiply') y.crc32_multiply(c, c); else y[f](R.chance(.5) ? -n : n, c);
				}
			}
			var t = cpu(work);
			ctx.progress(); ctx.count('timed_runs'); ctx.max('field_ms', Math.round(t * 1000));
			ctx.sig(o.hash(Buffer.from(f + bits), ctx.job.name.length));
			if (t > .5 && (t = again()) > .5) ctx.fail(f + ': time depends on the length given', { bits: bits, calls: 200, cpu_s: t });
		});
	};
	if (mode === 'stack') return async function(i, R) {
		var W = require('worker_threads');
		var m = await new Promise(function(res, rej) {
			var got = null, w = new W.Worker(require('path').join(__dirname, '../lib/sthread.js'), { workerData: { dir: ctx.dir, oracle: ctx.job.oracle, seed: R.u32(), rounds: 12 }, resourceLimits: i % 2 ? { stackSizeMb: 1 } : {} });
			w.on('message', function(x) { got = x; }); w.on('error', rej); w.on('exit', function() { got ? res(got) : rej(new Error('oracle: the thread ended without an answer')); });
		});
		ctx.progress(); ctx.count('calls_at_the_end_of_the_stack', m.done); ctx.count('refused_with_RangeError', m.refused); ctx.max('stack_depth', m.deepest);
		m.sigs.forEach(function(h) { ctx.sig(h); });
		if (m.wrong.length) ctx.fail('a call near the end of the stack goes wrong', m.wrong);
	};
	function stats() { return o.stats(ctx.path) || null; }
	if (!stats() || stats().mallocs === undefined) return function() { ctx.count('no_interposed_allocator'); };
	return async function(i, R) {
		// a group of results, all kept: what is held for them, and the most held at any time while they were made
		var big = R.chance(.02), kind = R.pick(['encode', 'encode', 'decode', 'decodeEsc', 'decodeChunk', 'chunkEnd', 'from_post', 'post']), cnt = big ? 1 : R.range(1, 6), keep = [], total = 0, room = 0, lens = [];
		var s0 = stats(), base = s0.live_bytes, worst = 0, k;
		for (k = 0; k < cnt; k++) {
			var n = big ? R.range(200000, 3000000) : R.range(1, R.pick([100, 1000, 30000])), ls = R.pick([128, 128, 1, 50, 1000, 100000]), b = Buffer.alloc(n), r;
			o.gen(b, R.u32(), R.u32(), 0, 0);
			if (kind === 'encode') { if (R.chance(.3)) b.fill(R.pick([0x61, 0xd6])); r = y.encode(b, ls); room += y.maxSize(n, ls); }
			else if (kind === 'decode') { r = y.decode(b, R.chance(.5)); room += n; }
			else if (kind === 'decodeEsc') { b.fill(R.pick(['=a', '\r\n', '\r\na', '\r\n..'])); r = y.decode(b, R.chance(.5)); room += n; }
			else if (kind === 'decodeChunk') { r = y.decodeChunk(b).output; room += n; }
			else if (kind === 'chunkEnd') { b.write(R.pick(['ab\r\n=y', '\r\n.\r\n', '\r\n\r\n', '='])); r = y.decodeChunk(b, R.pick(['', '\r\n'])).output; room += n; }
			else if (kind === 'post') { r = y.post('n', b, ls); room += y.maxSize(n, ls); }
			else { r = y.from_post(y.post('n', b, ls)); r = r.data; room += y.maxSize(n, ls) + n * 3; if (!r) continue; }
			keep.push(r); lens.push(r.length); total += r.length;
			var s = stats();
			worst = Math.max(worst, s.live_bytes - base);
		}
		var held = stats().live_bytes - base, info = { kind: kind, results: lens, held: held };
		ctx.count('results', cnt);
		// garbage of earlier groups may go meanwhile (held can only fall by that); encodings inside articles may still be waiting for the collector
		if (kind === 'post' || kind === 'from_post') total += room;
		ctx.max('held_per_thousand', total ? Math.round(held * 1000 / (total + 4096 * cnt)) : 0);
		if (held > total * 1.25 + 4096 * cnt) ctx.fail('results hold much more memory than their length', info);
		if (!i && s0.peak_bytes > 0) ctx.sample(info);
		var p0 = stats(), one = Buffer.alloc(n), ref = p0.live_bytes; // the peak of a single call, when it is a new one
		if (big) {
			o.gen(one, R.u32(), R.u32(), 0, 0);
			y.encode(one, 128); var p1 = stats();
			if (p1.peak_bytes > p0.peak_bytes && p1.peak_bytes - ref > y.maxSize(n, 128) * 1.5 + 65536) ctx.fail('a call used much more memory than its largest result', { n: n, peak: p1.peak_bytes - ref });
			if (p1.peak_bytes > p0.peak_bytes) ctx.max('peak_per_thousand_of_maxsize', Math.round((p1.peak_bytes - ref) * 1000 / y.maxSize(n, 128)));
		}
		ctx.sig(o.hash(Buffer.from(kind + lens.join() + ' ' + held), 0));
		if (i % 50 === 0) { keep = null; ctx.gc(); await new Promise(setImmediate); }
	};
};
