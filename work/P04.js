'use strict';
// Warning monitor: the warnings of from_post are exactly those an independent checker finds, for articles with every field
// right, wrong, missing or repeated; payload damage that alters the decoded bytes never goes unreported
exports.rule = 'hash of the bytes of each distinct article whose warnings were compared';
exports.assumptions = ['numbers that differ only in notation (leading zeros) may be reported as different or not'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	require('../lib/plan').pairs(env).forEach(function(e, i, all) {
		jobs.push({ name: e.name, env: e.env, cases: (q ? 400000 : 4000000) / all.length | 0, shards: q ? 2 : 6, params: { mode: 'any' } });
		jobs.push({ name: 'damage-' + e.name, env: e.env, cases: (q ? 180000 : 1500000) / all.length | 0, shards: q ? 1 : 4, params: { mode: 'damage' } });
	});
	jobs.push({ name: 'legacy', legacy: true, cases: q ? 40000 : 400000, shards: q ? 1 : 4, params: { mode: 'any' } });
	jobs.push({ name: 'fields', cases: 6 * 6 * 6 * 6 * 4 * 4 * 3 / (q ? 9 : 1), shards: q ? 2 : 8, params: { mode: 'fields', step: q ? 9 : 1 } });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), Y = require('../lib/yref')(o), A = require('../lib/article')(ctx, Y, G), mode = ctx.params.mode;
	function check(b, strip, cs) {
		y.encoding = cs;
		var want = Y.parse(b, strip, cs), r;
		try { r = y.from_post(b, strip); } finally { y.encoding = 'utf8'; }
		var w = Y.compareWarnings(r, want);
		if (w) ctx.fail('from_post: ' + w, { article: b.toString('latin1').slice(0, 3000), hex: b, stripDots: strip, encoding: cs, warnings: Y.codes(r), expected: want.must, optional: want.may });
		if (!want.error && !(r instanceof Error)) { want.must.forEach(function(c) { ctx.count('warning_' + c); }); if (!want.must.length) ctx.count('no_warning'); }
		ctx.sig(o.hash(b, 1));
		return r;
	}
	if (mode === 'fields') return function(i) { // all combinations of field values for a fixed payload "abc"
		i = i * ctx.params.step + (ctx.seed >>> 0) % ctx.params.step;
		var V = ['', '0', '1', '3', '4', 'x'], d = [6, 6, 6, 6, 4, 4, 3].map(function(n) { var k = i % n; i = Math.floor(i / n); return k; });
		function f(k, v) { return v === '' ? '' : ' ' + k + '=' + v; }
		var C = ['', Y.hex(Y.crc(Y.decode(Buffer.from('abc'), false))), '12345678', '1234'];
		[['begin=1 end=3', 'part=1'], ['begin=2 end=4', 'part=2']].forEach(function(z) {
			var s = '=ybegin line=128' + f('size', V[d[0]]) + f('part', V[d[1]]) + f('total', V[d[2]]) + ' name=n\r\n' + ['', '=ypart ' + z[0] + '\r\n', '=ypart begin=3\r\n'][d[6]] + 'abc\r\n=yend' + f('size', V[d[3]]) + f('pcrc32', C[d[4]]) + f('crc32', C[d[5]]) + (d[1] > 1 ? ' ' + z[1] : ' ') + '\r\n';
			check(Buffer.from(s, 'latin1'), false, 'utf8');
		});
	};
	if (mode === 'damage') return function(i, R) { // a correct article, then damage to its payload only
		var ls = R.pick([128, 64, 10, 256]), n = 1 + G.len(R, 1500), data = Buffer.alloc(n); G.fillEnc(R, data, ls, 0); G.forge(R, data, 0);
		var parts = R.chance(.5) ? 1 : 2, art, cut = Math.floor(n / 2);
		if (parts === 1 || !cut) art = y.post('name', data, ls); else { var e = y.multi_post('name', n, 2, ls); art = e.encode(data.subarray(0, cut)); if (R.chance(.5)) { art = e.encode(data.subarray(cut)); data = data.subarray(cut); } else data = data.subarray(0, cut); }
		var c = check(art, false, 'utf8'), a = c.dataStart, z = c.dataEnd, b = Buffer.from(art), strip = R.chance(.3), len = z - a;
		if (!len) return;
		var k = R.below(8), q = a + R.below(len), l = 1 + R.below(Math.min(40, z - q));
		switch (k) {
		case 0: b[q] ^= 1 << R.below(8); break;
		case 1: b[q] = R.u32(); break;
		case 2: b = Buffer.concat([b.subarray(0, q), b.subarray(q + l)]); break; // lost bytes
		case 3: b = Buffer.concat([b.subarray(0, q), b.subarray(q, q + l), b.subarray(q)]); break; // repeated bytes
		case 4: var t = b[q]; if (q + 1 < z) { b[q] = b[q + 1]; b[q + 1] = t; } break;
		case 5: b = Buffer.concat([b.subarray(0, q), Buffer.from(R.pick(['\r\n', '=', '.', '\r\n.', '\0', '\n', 'zz'])), b.subarray(q)]); break;
		case 6: for (var j = q; j < q + l; j++) b[j] = 0; break; // zeroed run
		default: b[z - 1] = R.u32(); // last byte
		}
		var r = check(b, strip, 'utf8');
		if (r instanceof Error) { ctx.count('damage_error'); return; }
		var w = Y.codes(r), said = w.some(function(x) { return /^(data_size_mismatch|p?crc32_mismatch)$/.test(x); }), changed = !r.data || !r.data.equals(data);
		if (changed && !said) ctx.fail('from_post: altered data without a CRC or size warning', { article: b, warnings: w });
		if (!changed && said) ctx.fail('from_post: warning although the data is what was posted', { article: b, warnings: w });
		ctx.count(changed ? 'damage_changed_data' : 'damage_harmless');
	};
	return function(i, R) { var b = A.any(R); check(b, R.chance(.5), R.chance(.8) ? 'utf8' : 'latin1'); if (R.chance(.01)) ctx.sample({ article: b.toString('latin1').slice(0, 300) }); };
};
