'use strict';
// Fault injection: the addon's requests for memory (malloc and friends, interposed at link time) are refused, one, all from
// one on, or all above a size, while calls run. Oracle: the call throws an Error, or gives what it gives without the fault;
// inputs and outputs of others stay as they are, nothing leaks, the state of an encoder is as before, and the same call
// works again afterwards.
exports.rule = 'hash of (function, length class, which requests were refused, outcome) of each distinct fault injected';
exports.assumptions = ['requests made while the module is loaded are not refused', 'memory obtained by node itself is not refused'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [], pairs = require('../lib/plan').pairs(env);
	pairs.forEach(function(e) { jobs.push({ name: e.name, env: Object.assign({ YV_MALLOC: 'guard' }, e.env), cases: q ? 12000 : 120000, shards: q ? 2 : 6, node: ['--expose-gc'], markMask: 0 }); });
	jobs.push({ name: 'plain', env: {}, cases: q ? 12000 : 120000, shards: q ? 2 : 6, node: ['--expose-gc'], markMask: 0 }); // the C library's own allocator
	jobs.push({ name: 'generic', variant: 'generic', env: { YV_CRC: '0', YV_MALLOC: 'guard' }, cases: q ? 8000 : 60000, shards: q ? 1 : 4, node: ['--expose-gc'], markMask: 0 });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, native = require(ctx.path), G = require('../lib/gen')(ctx);
	var ST = [null, '\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
	function stats() { return o.stats(ctx.path) || { live: 0, alloc_seq: 0, fail_hits: 0 }; }
	function fault(n, all, over) { o.failAlloc(ctx.path, n, all ? 1 : 0, over || 0); }
	function flat(x) { // a result as comparable text
		if (Buffer.isBuffer(x)) return 'B' + x.length + ':' + (x.length ? o.hash(x, 1) : 0);
		if (x instanceof Error) return 'E' + x.code;
		if (x && typeof x === 'object') return '{' + Object.keys(x).map(function(k) { return k + '=' + flat(x[k]); }).join() + '}';
		return String(x);
	}
	// the call, its inputs and (if any) its output
	function pick(R) {
		var n = R.chance(.9) ? 1 + G.len(R, 2500) : R.range(3000, 150000), src = G.place(R, 'src', n, 200000), ls = R.pick([0, 128, 128, 1, 17, 64, 300, 1000]), col = R.chance(.7) ? 0 : G.col(R, ls || 128);
		var raw = R.chance(.5), st = R.pick(ST), k = R.below(14), out, c = { n: n, src: src };
		if (k === 0 || k === 1 || k === 2 || k > 7 && k < 12) G.fillEnc(R, src, ls || 128, col); else G.fillDec(R, src, R.chance(.7));
		switch (k) {
		case 0: case 1: c.name = 'encode'; c.f = function() { return y.encode(src, ls, col); }; break;
		case 2: c.name = 'encodeIncr'; c.f = native.encodeIncr ? function() { return native.encodeIncr(src, ls, col); } : function() { return y.encode(src, ls, col); }; break;
		case 3: case 4: c.name = 'decode'; c.f = function() { return y.decode(src, raw); }; break;
		case 5: case 6: c.name = 'decodeChunk'; c.f = function() { return y.decodeChunk(src, st); }; break;
		case 7: out = G.place(R, 'dst', n, 200000); c.name = 'decodeChunk into output'; c.out = out; c.f = function() { out.fill(90); var r = y.decodeChunk(src, st, out); return [r.read, r.written, r.ended, r.state, out.subarray(0, r.written)]; }; break;
		case 12: out = G.place(R, 'dst', n, 200000); c.name = 'decodeTo'; c.f = function() { out.fill(90); return out.subarray(0, y.decodeTo(src, out, raw)); }; break;
		case 13: // in place: what was there is put back for each attempt
			var keep = Buffer.from(src), chunk = R.chance(.4); out = src; c.name = chunk ? 'decodeChunk in place' : 'decodeTo in place'; c.src = keep; c.n = n;
			c.f = function() {
				keep.copy(out);
				try { if (!chunk) return out.subarray(0, y.decodeTo(out, out, raw)); var r = y.decodeChunk(out, st, out); return [r.read, r.written, r.ended, r.state, out.subarray(0, r.written)]; }
				catch (e) { if (!keep.equals(out)) c.spoiled = true; throw e; }
			}; break;
		case 8: out = G.place(R, 'dst', y.maxSize(n, ls), 1000000); c.name = 'encodeTo'; c.f = function() { return out.subarray(0, y.encodeTo(src, out, ls, col)); }; break;
		case 9: c.name = 'post'; c.f = function() { return y.post('name', src, ls); }; break;
		case 10: var art = y.post('a name', src, ls); if (R.chance(.4)) art[R.below(art.length)] ^= 1 << R.below(8); c.name = 'from_post'; c.src = art; c.f = function() { return y.from_post(art, raw); }; break;
		default: c.name = 'crc32'; var b4 = Buffer.from([1, 2, 3, R.below(256)]); c.f = function() { return [y.crc32(src), y.crc32(src, b4), y.crc32_combine(b4, b4, n), y.crc32_zeroes(-n, b4), y.crc32_shift(n, b4), y.crc32_multiply(b4, b4)]; };
		}
		return c;
	}
	function attempt(f) { var r = { threw: null, val: null }; try { r.val = f(); } catch (e) { r.threw = e; r.did = true; } fault(0, 0, 0); return r; }
	function settle(want) {
		var tries = 0;
		return new Promise(function(res) { (function again() { ctx.gc(); ctx.progress(); setImmediate(function() { if (stats().live <= want || tries++ > 60) res(stats()); else setTimeout(again, tries > 10 ? 20 : 0); }); })(); });
	}
	function inject(R, c, k, all, over) {
		var d = { call: c.name, length: c.n, refused: over ? 'requests over ' + over + ' bytes' : 'request ' + k + (all ? ' and later ones' : '') };
		var hash = o.hash(c.src, 0), s0 = stats();
		fault(k, all, over);
		var r = attempt(c.f), s1 = stats(), hit = s1.fail_hits - s0.fail_hits;
		if (o.hash(c.src, 0) !== hash) ctx.fail('a call that was refused memory changed its input', d);
		if (c.spoiled) ctx.fail('a call that was refused memory changed its input', d);
		if (hit) ctx.count('faults_injected', hit);
		if (r.did) {
			ctx.count('calls_failed');
			if (!hit) ctx.fail('a call failed although no memory was refused: ' + r.threw, d);
			if (!(r.threw instanceof Error)) ctx.fail('a call that was refused memory threw something that is not an Error', d);
			if (s1.live > s0.live) ctx.fail('a call that was refused memory leaks ' + (s1.live - s0.live) + ' blocks', Object.assign({ before: s0, after: s1 }, d));
		} else {
			if (hit) ctx.count('calls_succeeded_despite_fault');
			if (flat(r.val) !== c.want) ctx.fail('a call that was refused memory gave a wrong result', Object.assign({ got: r.val }, d));
		}
		ctx.sig(o.hash(Buffer.from(c.name + ' ' + Math.log2(c.n) * 2 + ' ' + k + all + !!over + !!r.did), hit));
		return hit;
	}
	var base = null;
	async function run(i, R) {
		if (!base) { await settle(-1); base = await settle(-1); }
		if (i % 5 === 4) { multi(R); return; }
		var c = pick(R), q0 = stats().alloc_seq;
		c.want = flat(c.f());
		var reqs = stats().alloc_seq - q0;
		ctx.count('requests_observed', reqs); ctx.max('requests_per_call', reqs);
		for (var k = 1; k <= Math.min(reqs + 1, 8); k++) { inject(R, c, k, false, 0); inject(R, c, k, true, 0); }
		inject(R, c, 0, false, R.pick([1, 100, 4096, c.n, c.n * 2, R.range(1, c.n * 3)]));
		var again = flat(c.f());
		if (again !== c.want) ctx.fail('a call gives another result after one that was refused memory', { call: c.name, length: c.n });
		if (i === 0) ctx.sample({ call: c.name, length: c.n, requests: reqs });
		if (i % 500 === 499) await balance();
	}
	// an encoder whose calls fail now and then must go on as if these had not been made
	function multi(R) {
		var parts = R.range(1, 4), sizes = [], total = 0, ls = R.pick([128, 64, 300]), p, hist = [];
		for (p = 0; p < parts; p++) { sizes.push(1 + G.len(R, 3000)); total += sizes[p]; }
		var a = y.multi_post('name', total, parts, ls), b = y.multi_post('name', total, parts, ls), data = G.place(R, 'src', 3001, 200000);
		function snap(e) { return JSON.stringify([e.part, e.pos, e.crc.toString('hex')]); }
		for (p = 0; p < parts; p++) {
			var d = data.subarray(0, sizes[p]), want, r; G.fillEnc(R, d, ls, 0);
			want = a.encode(d);
			for (var t = R.below(3); t >= 0; t--) {
				var before = snap(b), s0 = stats(), k = R.range(1, 3);
				if (t) fault(k, R.chance(.5), 0);
				r = attempt(function() { return b.encode(d); });
				var hit = stats().fail_hits - s0.fail_hits;
				hist.push('part ' + (p + 1) + (t ? ' refusing request ' + k : '') + (r.did ? ' failed' : ''));
				ctx.count('encoder_calls');
				if (!r.did) break;
				ctx.count('encoder_calls_failed');
				if (!hit) ctx.fail('YEncoder.encode failed after a call that was refused memory: ' + r.threw, { history: hist, sizes: sizes });
				if (!(r.threw instanceof Error)) ctx.fail('YEncoder.encode that was refused memory threw something that is not an Error', { history: hist });
				if (snap(b) !== before) ctx.fail('a YEncoder.encode call that was refused memory changed the encoder', { history: hist, sizes: sizes, before: before, after: snap(b) });
				ctx.sig(o.hash(Buffer.from(hist.join()), parts));
			}
			if (!want.equals(r.val) || snap(a) !== snap(b)) ctx.fail('YEncoder.encode gives another article after calls that were refused memory', { history: hist, sizes: sizes });
		}
	}
	async function balance() {
		var s = await settle(base.live);
		ctx.count('balances_checked');
		if (s.live > base.live + 4) ctx.fail('native memory is not released after refused requests: ' + (s.live - base.live) + ' blocks left', { base: base, after: s });
		if (s.live < base.live) base = s;
	}
	run.end = balance;
	return run;
};
