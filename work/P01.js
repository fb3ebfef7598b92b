'use strict';
// Article monitor: every article that post and multi_post return is compared, byte by byte, with an independent model of the format
exports.rule = 'hash of (name, charset, data length and kind, line size, parts, part index) of each distinct article compared';
exports.assumptions = ['charsets utf8 and latin1; line sizes are positive integers (or omitted)', 'multi_post: parts >= 1 and the parts fed agree with the declared size (other histories: P05)'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	require('../lib/plan').pairs(env).concat([{ name: 'generic', env: { YV_CRC: '0' }, variant: 'generic' }]).forEach(function(e, i, all) {
		jobs.push({ name: 'post-' + e.name, variant: e.variant, env: e.env, cases: (q ? 200000 : 1500000) / all.length | 0, shards: q ? 1 : 4, params: { mode: 'post' } });
		jobs.push({ name: 'multi-' + e.name, variant: e.variant, env: e.env, cases: (q ? 80000 : 600000) / all.length | 0, shards: q ? 1 : 4, weight: 3, params: { mode: 'multi' } });
	});
	jobs.push({ name: 'legacy-post', legacy: true, cases: q ? 15000 : 150000, shards: q ? 1 : 2, params: { mode: 'post' } });
	jobs.push({ name: 'legacy-multi', legacy: true, cases: q ? 6000 : 60000, shards: q ? 1 : 2, weight: 3, params: { mode: 'multi' } });
	jobs.push({ name: 'many', cases: q ? 2 : 6, shards: 2, weight: 20000, params: { mode: 'many' } });
	jobs.push({ name: 'far', cases: 1, shards: 1, stall: 240, weight: 100000, params: { mode: 'far' } });
	jobs.push({ name: 'huge-header', cases: q ? 1500 : 6000, shards: 2, params: { mode: 'huge' } });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), Y = require('../lib/yref')(o), A = require('../lib/article')(ctx, Y, G), mode = ctx.params.mode;
	function dataOf(R, ls) { // [argument, bytes it stands for]
		var b, k = R.below(10);
		if (k < 5) { b = A.data(R, R.chance(.02) ? 100000 : 2500, ls); return [b, b]; }
		if (k < 6) { var n = G.len(R, 600), s = mode === 'post' ? G.place(R, 'src', n, 24576) : Buffer.alloc(n); G.fillEnc(R, s, ls, 0); return [s, Buffer.from(s)]; } // one placed buffer at a time
		b = A.data(R, 600, ls);
		if (k < 7) { var a = Array.from(b); if (R.chance(.2) && a.length) a[0] += R.pick([256, -256, 1024]); return [a, b]; }
		if (k < 8) { var t = R.pick(['', 'text', A.name(R, false), 'x'.repeat(R.below(400)), '\u00e9\u20ac\u{1f600}'.repeat(R.below(60)), '=ybegin\r\n.=y']); return [t, Y.bytes(t)]; }
		if (k < 9) { var u = new Uint8Array(b.length); u.set(b); return [u, b]; }
		var ab = new ArrayBuffer(b.length); new Uint8Array(ab).set(b); return [ab, b];
	}
	function lineSize(R, n) { var ls = G.lineSize(R, n); return R.chance(.2) ? [R.pick([undefined, 0, null]), 128] : [ls, ls]; }
	function differs(what, got, want, d) {
		if (!Buffer.isBuffer(got)) ctx.fail(what + ' did not return a Buffer', d);
		if (got.equals(want)) return;
		for (var i = 0; got[i] === want[i]; i++);
		ctx.fail(what + ' differs from the format at offset ' + i, Object.assign({ got: got.subarray(Math.max(0, i - 60), i + 60).toString('latin1'), expected: want.subarray(Math.max(0, i - 60), i + 60).toString('latin1'), lengths: [got.length, want.length] }, d));
	}
	function state(enc, m, d) {
		if (enc.part !== m.part || enc.pos !== m.pos || !Buffer.isBuffer(enc.crc) || enc.crc.length !== 4 || enc.crc.readUInt32BE(0) !== m.crc) ctx.fail('YEncoder part, pos or crc is wrong', Object.assign({ got: [enc.part, enc.pos, enc.crc], expected: [m.part, m.pos, Y.hex(m.crc)] }, d));
		if (enc.size !== m.size || enc.parts !== m.parts || enc.line_size !== m.ls) ctx.fail('YEncoder size, parts or line_size is wrong', Object.assign({ got: [enc.size, enc.parts, enc.line_size] }, d));
	}
	if (mode === 'far') return function(i, R) { // a file of more than 4 GiB, all of it: offsets and sizes beyond 2^31 and 2^32
		var big = Buffer.alloc(400e6), parts = 12, rest = R.range(1, 5000), size = 11 * big.length + rest, name = A.name(R, false), ls = R.pick([128, 1 << 20]);
		o.gen(big.subarray(0, 1e6), R.u32(), R.u32(), 0, 0); o.gen(big.subarray(big.length - 1e6), R.u32(), R.u32(), 0, 0);
		var enc = y.multi_post(name, size, parts, ls), m = new Y.Encoder(name, 'utf8', size, parts, ls), body, crc = o.crc(big, 0);
		for (var part = 1; part <= parts; part++) {
			var data = part < parts ? big : big.subarray(0, rest), c = part < parts ? crc : o.crc(data, 0), begin = m.pos + 1;
			m.part = part; m.pos += data.length; m.crc = (o.shift8(m.crc, data.length) ^ c) >>> 0;
			var d = { parts: parts, part: part, size: size, begin: begin }, got = enc.encode(data);
			var head = Buffer.concat([Buffer.from('=ybegin part=' + part + ' total=' + parts + ' line=' + ls + ' size=' + size + ' name='), Buffer.from(name.replace(/[\r\n\0]/g, '').substring(0, 256)), Buffer.from('\r\n=ypart begin=' + begin + ' end=' + m.pos + '\r\n')]);
			var tail = Buffer.from('\r\n=yend size=' + data.length + ' part=' + part + ' pcrc32=' + Y.hex(c) + (part === parts ? ' crc32=' + Y.hex(m.crc) : ''));
			if (part === 1 || part === parts) body = y.encode(data, ls);
			if (got.length !== head.length + body.length + tail.length) ctx.fail('multi_post part of a big file has a wrong length', Object.assign({ got: got.length, expected: head.length + body.length + tail.length, head: got.subarray(0, head.length + 20).toString('latin1') }, d));
			differs('multi_post head of a part of a big file', got.subarray(0, head.length), head, d);
			differs('multi_post end of a part of a big file', got.subarray(got.length - tail.length), tail, d);
			if (part < 3 || part > parts - 2) differs('multi_post body of a part of a big file', got.subarray(head.length, head.length + body.length), body, d);
			state(enc, m, d); got = null;
			ctx.count('articles'); ctx.count('bytes', data.length); ctx.sig(o.hash(Buffer.from('far' + part), 1)); ctx.progress();
		}
	};
	if (mode === 'many') return function(i, R) { // more than 2^16 parts, some of them empty
		var parts = 65536 + R.range(1, i % 2 ? 5000 : 70000), size = 0, lens = [], src = Buffer.alloc(64), name = A.name(R, false), ls = R.pick([128, 5]), d = { parts: parts, name: name };
		o.gen(src, R.u32(), R.u32(), 0, 0);
		for (var k = 0; k < parts; k++) { lens.push(R.below(12)); size += lens[k]; }
		d.size = size;
		var enc = y.multi_post(name, size, parts, ls), m = new Y.Encoder(name, 'utf8', size, parts, ls);
		for (k = 0; k < parts; k++) {
			var c = src.subarray(k & 31, (k & 31) + lens[k]);
			d.part = k + 1;
			differs('multi_post part ' + (k + 1) + ' of ' + parts, enc.encode(c), m.encode(c), d);
			if (k % 100 === 0 || k > parts - 3) state(enc, m, d);
			if (k % 5000 === 0) ctx.progress();
		}
		ctx.count('articles', parts); ctx.max('parts', parts); ctx.sig(o.hash(Buffer.from('many' + parts), 1));
	};
	return function(i, R) {
		var cs = R.pick(['utf8', 'utf8', 'utf8', 'latin1', 'binary', 'utf-8']), name = A.name(R, false), d = { name: name, encoding: cs };
		y.encoding = cs;
		try {
			if (mode === 'post') {
				var ls = lineSize(R, 300), x = dataOf(R, ls[1]); d.line_size = ls[0]; d.data = x[1];
				differs('post', ls[0] === undefined && R.chance(.5) ? y.post(name, x[0]) : y.post(name, x[0], ls[0]), Y.post(name, cs, x[1], ls[1]), d);
				ctx.sig(o.hash(Buffer.from(name + cs + ls), x[1].length)); ctx.count('articles'); ctx.count('bytes', x[1].length);
				ctx.sample({ call: 'post', name: name, encoding: cs, line_size: ls[1], size: x[1].length });
				return;
			}
			var parts = R.chance(.2) ? 1 : R.chance(.9) ? R.range(2, 8) : R.range(9, 300), size, chunks = [], huge = mode === 'huge';
			ls = lineSize(R, 300);
			if (huge) { // sizes that need more digits than are fed: only the first parts
				size = R.pick([4294967295, 4294967296, 4294967297, 2147483648, 1e12, 123456789012345, 9007199254740991, 5e9]); parts = R.pick([2, 10, 1000, 65536, 99999999, 4294967297]);
				for (var k = R.range(1, Math.min(4, parts - 1)); k > 0; k--) chunks.push(dataOf(R, ls[1]));
			} else {
				for (k = 0; k < parts; k++) { var c = dataOf(R, ls[1]); if (parts > 8) c = [c[1].subarray(0, 40), c[1].subarray(0, 40)]; if (R.chance(.05)) c = [Buffer.alloc(0), Buffer.alloc(0)]; chunks.push(c); }
				var last = chunks[parts - 1]; // now and then a file whose CRC is special
				if (last[0] === last[1] && R.chance(.05)) { var before = 0; for (k = 0; k < parts - 1; k++) before = o.crc(chunks[k][1], before); G.forge(R, last[1], before, 1); }
				size = chunks.reduce(function(n, c) { return n + c[1].length; }, 0);
			}
			d.parts = parts; d.size = size; d.line_size = ls[0];
			var enc = y.multi_post(name, size, parts, ls[0]), m = new Y.Encoder(name, cs, size, parts, ls[1]);
			state(enc, m, d);
			if (R.chance(.3)) y.encoding = R.pick(['utf8', 'latin1']); // the name has been encoded by now
			chunks.forEach(function(c, j) {
				d.part = j + 1; d.sizes = chunks.map(function(c) { return c[1].length; }).slice(0, 20);
				differs('multi_post part ' + (j + 1) + ' of ' + parts, enc.encode(c[0]), m.encode(c[1]), d);
				state(enc, m, d);
				ctx.count('articles'); ctx.count('bytes', c[1].length);
				ctx.sig(o.hash(Buffer.from(name + cs + ls + ':' + parts + '/' + j), c[1].length));
			});
			ctx.max('parts', parts);
		} finally { y.encoding = 'utf8'; }
	};
};
