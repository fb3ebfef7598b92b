'use strict';
// Lifetime monitor: every returned Buffer is remembered with a hash, an address range and what it may share; calls, garbage
// collections and worker exits go on around it; the addon's own malloc/realloc/free are counted block by block.
exports.rule = 'hash of (API function, size of the returned Buffer, age when checked) of each tracked Buffer';
var path = require('path');
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	[['pass', {}], ['guard', { YV_MALLOC: 'guard' }]].forEach(function(m) {
		jobs.push({ name: 'pool ' + m[0], variant: 'rel', env: m[1], node: ['--expose-gc'], cases: q ? 12000 : 300000, shards: q ? 2 : 8, markMask: 0, params: { mode: 'pool' } });
		jobs.push({ name: 'balance ' + m[0], variant: 'rel', env: m[1], node: ['--expose-gc'], cases: q ? 24 : 200, shards: 2, weight: 500, markMask: 0, params: { mode: 'balance', calls: q ? 1500 : 6000 } });
		jobs.push({ name: 'workers ' + m[0], threads: true, variant: 'rel', env: m[1], node: ['--expose-gc'], cases: q ? 6 : 60, shards: 2, weight: 2000, markMask: 0, params: { mode: 'workers', calls: 400 } });
	});
	jobs.push({ name: 'pool asan', variant: 'asan', node: ['--expose-gc'], cases: q ? 3000 : 60000, shards: q ? 2 : 4, weight: 3, markMask: 0, noload: true, params: { mode: 'pool' } });
	jobs.push({ name: 'keep', variant: 'rel', node: ['--expose-gc'], cases: q ? 12 : 48, shards: q ? 4 : 8, weight: 3000, markMask: 0, params: { mode: 'keep', n: q ? 70000 : 280000 } });
	jobs.push({ name: 'memory', variant: 'rel', node: ['--expose-gc'], cases: q ? 2 : 6, shards: 2, weight: 9000, markMask: 0, params: { mode: 'memory' } });
	return jobs;
};
exports.make = function(ctx) {
	var o = ctx.o, p = ctx.params;
	if (!ctx.y) { // sanitizer build: see M01
		var nat = require(ctx.path), crc = nat.crc32;
		nat.crc32 = function(b) { if (!Buffer.isBuffer(b)) return crc.apply(this, arguments); var c = Buffer.allocUnsafeSlow(b.length + 192); b.copy(c, 96); arguments[0] = c.subarray(96, 96 + b.length); return crc.apply(this, arguments); };
		ctx.y = require(ctx.dir + '/index.js');
	}
	var y = ctx.y;
	function stats() { return o.stats(ctx.path) || { live: 0, live_bytes: 0, mallocs: 0, frees: 0 }; }
	var G = require('../lib/gen')(ctx);
	// one call returning fresh Buffers: [[name, Buffer]...], given data
	function produce(R, n) {
		var src = Buffer.allocUnsafeSlow(n + 1).subarray(R.below(2), n + 1), ls = R.pick([128, 128, 1, 17, 64, 300]), r = [], x, k = R.below(16), b4 = Buffer.from([1, 2, 3, R.below(256)]);
		if (R.chance(.5)) G.fillEnc(R, src, ls, 0); else G.fillDec(R, src);
		switch (k) {
		case 0: case 1: r.push(['encode', y.encode(src, ls)]); break;
		case 2: case 3: r.push(['decode', y.decode(src, R.chance(.5))]); break;
		case 4: case 5: x = y.decodeChunk(src, R.pick([null, '\r\n', '=', '', '\r\n.'])); r.push(['decodeChunk', x.output]); break;
		case 6: r.push(['crc32', y.crc32(src)]); break;
		case 7: r.push(['crc32_combine', y.crc32_combine(y.crc32(src), b4, n)]); break;
		case 8: r.push(['crc32_zeroes', y.crc32_zeroes(n, b4)]); break;
		case 9: r.push(['crc32_multiply', y.crc32_multiply(b4, b4)]); r.push(['crc32_shift', y.crc32_shift(-n, b4)]); break;
		case 10: r.push(['post', y.post('name', src, ls)]); break;
		case 11: x = y.multi_post('name', src.length * 2, 2, ls); r.push(['multi_post', x.encode(src)]); r.push(['YEncoder.crc', x.crc]); r.push(['multi_post', x.encode(src)]); r.push(['YEncoder.crc', x.crc]); break;
		case 12: case 13: // the article is the caller's Buffer; data may be a copy only
			var art = y.post('name', src, ls); x = y.from_post(Buffer.from(art), false);
			if (!(x instanceof Error)) { if (x.data) r.push(['from_post data', x.data]); if (x.crc32) r.push(['from_post crc32', x.crc32]); }
			break;
		default: // failing calls
			[function() { y.encode(src, -1); }, function() { y.encode(src, 10, 11); }, function() { y.encodeTo(src, Buffer.alloc(1)); }, function() { y.decodeTo(src, Buffer.alloc(0)); }, function() { y.decodeChunk(src, null, Buffer.alloc(0)); }, function() { y.crc32(src, Buffer.alloc(3)); }, function() { y.crc32_combine(b4, Buffer.alloc(5), 1); }, function() { y.encode('x'); }, function() { y.decode(); }, function() { var e = y.multi_post('n', 1, 1, 128); e.encode(Buffer.alloc(2)); }].forEach(function(f) { try { f(); } catch (e) { ctx.count('failing_calls'); } });
		}
		r.forEach(function(z) { if (!Buffer.isBuffer(z[1])) ctx.fail(z[0] + ' did not return a Buffer', { got: z[1] }); });
		return { src: src, out: r };
	}
	var pool = [], made = 0;
	if (p.mode === 'keep') return async function(i, R) { // very many results of one function, all kept to the end
		var len = i % 12 > 7 && R.chance(.3) ? R.range(3000, 9000) : R.range(1, 200), src = Buffer.alloc(len), b4 = Buffer.alloc(4), n = i % 12 < 6 ? p.n : len < 1000 ? p.n >> 2 : 4000, bufs = [], sums = new Uint32Array(n), addrs = new Float64Array(n), e;
		G.fillDec(R, src);
		var f = [function() { return y.crc32(src); }, function() { return y.crc32(src, b4); }, function(k) { return y.crc32_combine(b4, b4, k); }, function(k) { return y.crc32_zeroes(k, b4); }, function() { return y.crc32_multiply(b4, b4); }, function(k) { return y.crc32_shift(k, b4); },
			function(k) { if (!(k % 100)) e = y.multi_post('n', 1e9, 1e5, 64); e.encode(src.subarray(0, k % len)); return e.crc; }, function() { return y.post('n', src, 64); },
			function() { return y.encode(src, 64); }, function() { return y.decode(src); }, function() { return y.decode(src, true); }, function() { return y.decodeChunk(src, null).output; }][i % 12];
		for (var k = 0; k < n; k++) {
			src[k % len] = src[k % len] === 61 ? 61 : 70 + k % 50; b4.writeUInt32LE(k * 2654435761 >>> 0);
			var b = f(k); bufs.push(b); sums[k] = b.length ? o.hash(b, 1) : 0; addrs[k] = b.length ? o.addr(b) : 0;
			if (!(k & 4095)) ctx.progress();
		}
		ctx.gc(); await new Promise(setImmediate);
		var order = Array.from(addrs.keys()).filter(function(k) { return addrs[k]; }).sort(function(a, b) { return addrs[a] - addrs[b]; });
		bufs.forEach(function(b, k) { if (b.length && o.hash(b, 1) !== sums[k]) ctx.fail('a returned Buffer changed later', { kind: i % 12, length: b.length, result: k, of: n }); });
		for (k = 1; k < order.length; k++) if (addrs[order[k]] < addrs[order[k - 1]] + bufs[order[k - 1]].length) ctx.fail('two results share memory', { kind: i % 12, results: [order[k - 1], order[k]], of: n });
		ctx.count('buffers_checked', n); ctx.max('kept_at_once', n); ctx.sig(o.hash(Buffer.from('keep' + i + ' ' + n), 0));
		bufs = null; ctx.gc(); ctx.progress();
	};
	if (p.mode === 'pool') return function(i, R) {
		var before = null, n = R.chance(.85) ? G.len(R, 3000) : R.range(3000, 200000);
		var x = produce(R, n);
		x.out.forEach(function(z) {
			var b = z[1], a = b.length ? o.addr(b) : 0;
			// no sharing with the input or with any other live result; the ArrayBuffer behind it is this result's alone, unless it is node's own pool
			if (a) {
				var s = x.src.length ? o.addr(x.src) : 0;
				if (s && a < s + x.src.length && s < a + b.length) ctx.fail(z[0] + ' shares memory with its input', { length: b.length });
				pool.forEach(function(q) { if (q.addr && a < q.addr + q.buf.length && q.addr < a + b.length) ctx.fail(z[0] + ' shares memory with an earlier result of ' + q.name, { length: b.length }); });
			}
			if (R.chance(.3)) { b = R.chance(.5) ? b.subarray(0) : Buffer.from(b.buffer, b.byteOffset, b.length); ctx.count('kept_through_another_view'); } // the Buffer returned is dropped, its memory is not
			pool.push({ name: z[0], buf: b, addr: a, hash: b.length ? o.hash(b, 1) : 0, born: made++, written: false });
		});
		ctx.count('buffers_tracked', x.out.length);
		// the input changes afterwards: results must not
		x.src.fill(R.below(256));
		if (i % 64 === 63) { ctx.gc(); ctx.count('collections'); }
		function check(q) {
			ctx.count('buffers_checked');
			ctx.sig(o.hash(Buffer.from(q.name + q.buf.length + ' ' + Math.log2(made - q.born + 1 | 0)), 0));
			if (q.buf.length && (o.hash(q.buf, 1) !== q.hash || o.addr(q.buf) !== q.addr)) ctx.fail('a returned Buffer changed later', { from: q.name, length: q.buf.length, age: made - q.born });
			q.checked = true;
		}
		while (pool.length > 150) {
			var k = R.chance(.7) ? R.below(pool.length) : 0, q = pool[k];
			check(q);
			if (R.chance(.15)) { // given to another thread (or refused, as memory node does not own or its pool is)
				var c = null, own = q.buf.byteOffset === 0 && q.buf.buffer.byteLength === q.buf.length; // the whole of an ArrayBuffer: not in a pool
				try { c = structuredClone(q.buf, own ? { transfer: [q.buf.buffer] } : {}); } catch (e) { if (e.name !== 'DataCloneError') ctx.fail('structuredClone of a result threw ' + e.name, { from: q.name }); ctx.count('transfers_refused'); }
				if (c) { ctx.count('results_transferred'); if (c.length !== q.buf.length && !q.buf.buffer.detached) ctx.fail('a cloned result has another length', { from: q.name }); if (c.length && o.hash(Buffer.from(c.buffer, c.byteOffset, c.length), 1) !== q.hash) ctx.fail('a result changed when given away', { from: q.name, length: c.length }); if (q.buf.buffer.detached) { pool.splice(k, 1); if (R.chance(.5)) c.fill(R.below(256)); continue; } }
				if (q.buf.length && o.hash(q.buf, 1) !== q.hash) ctx.fail('a result changed when it was given away', { from: q.name });
			}
			q.buf.fill(R.below(256)); // dropped results may be written by their owner: nobody else may notice
			pool.splice(k, 1);
		}
		if (i % 37 === 0) pool.forEach(check);
		if (i === 0) ctx.sample({ produced: x.out.map(function(z) { return [z[0], z[1].length]; }) });
	};
	function settle(want, done) { // collect until the count of live blocks is down, giving finalizers turns of the event loop
		var tries = 0;
		return new Promise(function(res) {
			(function again() {
				ctx.gc(); ctx.progress();
				setImmediate(function() { if (stats().live <= want || tries++ > 60) res(stats()); else setTimeout(again, tries > 10 ? 20 : 0); });
			})();
		});
	}
	if (p.mode === 'balance') {
		var base = null;
		return async function(i, R) {
			if (!base) { for (var k = 0; k < 50; k++) produce(R, 100); await settle(-1); base = await settle(-1); }
			// a loop that keeps nothing
			for (k = 0; k < p.calls; k++) { produce(R, G.len(R, 2000)); if (k % 200 === 199) { ctx.progress(); await new Promise(setImmediate); } }
			var s = await settle(base.live);
			ctx.count('balances_checked'); ctx.max('mallocs', s.mallocs); ctx.max('frees', s.frees);
			ctx.sig(o.hash(Buffer.from('' + s.mallocs), 0));
			if (s.live > base.live + 4) ctx.fail('native memory is not released: ' + (s.live - base.live) + ' blocks of ' + (s.live_bytes - base.live_bytes) + ' bytes left after all Buffers were dropped', { base: base, after: s });
			if (s.live < base.live) base = s; // Buffers of earlier rounds held by the stack
			if (!i) ctx.sample(s);
		};
	}
	if (p.mode === 'memory') return async function(i, R) { // big results, dropped at once: resident memory stays bounded
		var src = Buffer.alloc(8 << 20, 61), enc = y.encode(src), s0, peak = 0;
		await settle(0); s0 = process.memoryUsage();
		var kinds = [function() { y.encode(src); }, function() { y.decode(enc); }, function() { y.decodeChunk(enc, '\r\n'); }, function() { y.post('a', src); }, function() { try { y.encodeTo(src, Buffer.alloc(10)); } catch (e) {} }, function() { y.crc32(src); }];
		for (var k = 0; k < 240; k++) {
			kinds[k % kinds.length]();
			if (k % 8 === 7) { ctx.gc(); await new Promise(setImmediate); ctx.progress(); }
			var m = process.memoryUsage(); peak = Math.max(peak, m.rss - s0.rss); ctx.sig(m.rss >>> 22);
		}
		var s = await settle(0); s = process.memoryUsage();
		ctx.max('rss_growth_mb', Math.round(peak / 1048576)); ctx.count('big_calls', 240);
		// 240 calls return about 2 GB; without release RSS would grow by that
		if (s.rss - s0.rss > 600e6) ctx.fail('memory use keeps growing', { before: s0, after: s });
		if (s.external - s0.external > 200e6) ctx.fail('external memory is never given back', { before: s0, after: s });
	};
	// workers: make Buffers in threads that end (normally, by exit, or terminated), and see all blocks released
	var W = require('worker_threads'), wbase = null;
	return async function(i, R) {
		if (!wbase) { await settle(-1); wbase = stats(); }
		var ends = ['return', 'exit', 'terminate', 'throw'], list = [];
		for (var k = 0; k < 4; k++) list.push(new Promise(function(res) {
			var end = ends[k % 4];
			var w = new W.Worker(path.join(__dirname, '../lib/mthread.js'), { workerData: { dir: ctx.dir, oracle: ctx.job.oracle, calls: p.calls, seed: R.u32(), end: end } });
			var bad = null;
			w.on('message', function(m) { ctx.progress(); if (m.bad) bad = m.bad; if (m.ready && end === 'terminate') w.terminate(); });
			w.on('error', function(e) { if (!/planned/.test(e.message)) bad = String(e.stack); });
			w.on('exit', function() { res(bad); });
		}));
		var r = (await Promise.all(list)).filter(Boolean);
		if (r.length) ctx.fail('in a worker thread: ' + r[0]);
		var s = await settle(wbase.live);
		ctx.count('worker_exits', 4); ctx.max('mallocs', s.mallocs); ctx.max('frees', s.frees); ctx.sig(o.hash(Buffer.from('w' + s.mallocs), 0));
		if (s.live > wbase.live + 4) ctx.fail('native memory is not released when a worker ends: ' + (s.live - wbase.live) + ' blocks left', { base: wbase, after: s });
	};
};
