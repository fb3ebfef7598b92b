'use strict';
// Sequences of related calls: each differs from the one before in one aspect only (one byte of the same Buffer, a length by a
// multiple of 2^32, the sign, the column, the state, ...), and each is compared with the reference. What an earlier call left
// behind - a memo, a cached table, a reused result - shows as a wrong answer to the next.
module.exports = function(ctx, y) {
	var o = ctx.o, G = require('./gen')(ctx), Y = require('./yref')(o), exp = Buffer.alloc(1 << 15), f = new Float64Array(4), fb = Buffer.from(f.buffer);
	var ST = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='], MAXI = 9007199254740991, NMAX = 4096;
	var held = [];
	function b4(v) { var b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; }
	function num(b) { return b.readUInt32BE(0); }
	function hex(v) { return ('0000000' + (v >>> 0).toString(16)).slice(-8); }
	var log;
	function fail(what, d) { ctx.fail(what + ' after related calls', Object.assign({ history: log.slice(-12) }, d)); }
	function keep(b) { if (held.length < 40) held.push([b, Buffer.from(b)]); else { var i = held.next = (held.next || 0) + 1; held[i % 40] = [b, Buffer.from(b)]; } }
	function clampI(v) { return v > MAXI ? v - MAXI : v < -MAXI ? v + MAXI : v; }
	function nudge(R, v, pos) { // a related 53-bit length
		var k = R.below(10), d;
		if (k < 3) d = 4294967296 * R.range(1, R.pick([1, 3, 1000, 2000000]));
		else if (k < 5) d = Math.pow(2, R.below(53));
		else if (k < 6) d = 4294967295 * R.range(1, 5);
		else if (k < 7) d = R.range(1, 9);
		else if (k < 8) return pos ? Math.floor(v / 2) : -v;
		else if (k < 9) return v % 4294967296;
		else d = 536870912 * R.range(1, 9);
		if (R.chance(.5)) d = -d;
		var r = clampI(v + d);
		if (Math.abs(r) > MAXI) r = v;
		return (pos ? Math.abs(r) : r) || 0;
	}
	function flip(R, v) { return (v ^ (R.chance(.7) ? 1 << R.below(32) : R.u32())) >>> 0; }
	var seqs = {
		field: function(R, steps) {
			var a = R.u32(), b = R.u32(), n = Math.floor(R.u32() / Math.pow(2, R.below(32))) + R.below(3), ab = b4(a), bb = b4(b), k = R.pick(['combine', 'zeroes', 'shift', 'mul']), same = R.chance(.5);
			for (var j = 0; j < steps; j++) {
				var q = R.below(8);
				if (q < 4) n = nudge(R, n, false); else if (q < 5) a = flip(R, a); else if (q < 6) b = flip(R, b); else if (q < 7) k = R.pick(['combine', 'zeroes', 'shift', 'mul']); else { var t = a; a = b; b = t; }
				if (same) { ab.writeUInt32BE(a); bb.writeUInt32BE(b); } else { ab = b4(a); bb = b4(b); } // the same Buffers with other contents, or others
				var nn = k === 'combine' ? Math.abs(n) : n || 0;
				log.push([k, hex(a), hex(b), nn]);
				var r = k === 'combine' ? y.crc32_combine(ab, bb, nn) : k === 'zeroes' ? y.crc32_zeroes(nn, ab) : k === 'mul' ? y.crc32_multiply(ab, bb) : y.crc32_shift(nn, ab);
				var e = k === 'combine' ? (o.shift8(a, nn) ^ b) >>> 0 : k === 'zeroes' ? ~o.shift8(~a >>> 0, nn) >>> 0 : k === 'mul' ? o.mul(a, b) : o.shift(a, nn);
				if (num(r) !== e) fail('crc32_' + k + ' is wrong', { got: r, expected: hex(e) });
				if (R.chance(.2)) { // and the default operand
					r = k === 'shift' ? y.crc32_shift(nn) : y.crc32_zeroes(nn); e = k === 'shift' ? o.shift(0x80000000, nn) : ~o.shift8(0xffffffff, nn) >>> 0;
					log.push([k + ' default', nn]);
					if (num(r) !== e) fail('crc32_' + (k === 'shift' ? k : 'zeroes') + ' without CRC is wrong', { got: r, expected: hex(e) });
				}
				keep(r);
			}
		},
		crc: function(R, steps) {
			var n = G.len(R, 700), src = G.place(R, 'src', n, 24576), init = R.u32(), ib = b4(init), from = 0, to = n;
			o.gen(src, R.u32(), R.u32(), R.pick([0, 0, 1]), R.below(256));
			for (var j = 0; j < steps; j++) {
				var q = R.below(6);
				if (q < 2 && to > from) src[R.range(from, to - 1)] ^= 1 << R.below(8);
				else if (q < 3) init = flip(R, init);
				else if (q < 4) { to = Math.min(n, Math.max(from, to + R.range(-3, 3))); }
				else if (q < 5) { from = Math.min(to, Math.max(0, from + R.range(-3, 3))); }
				else init = R.pick([0, 0xffffffff, init, num(y.crc32(src.subarray(from, to)))]);
				var v = src.subarray(from, to), w = R.below(3);
				if (w === 1) ib.writeUInt32BE(init); else ib = b4(init);
				log.push(['crc32', from, to, w ? hex(init) : null]);
				var r = w ? y.crc32(v, ib) : y.crc32(v), e = o.crc(v, w ? init : 0) >>> 0;
				if (num(r) !== e) fail('crc32 is wrong', { src: v, got: r, expected: hex(e) });
				keep(r);
			}
		},
		encode: function(R, steps) {
			var n = G.len(R, 900), src = G.place(R, 'src', n, 24576), ls = G.lineSize(R, n), col = G.col(R, ls), from = 0, to = n, out = null;
			G.fillEnc(R, src, ls, col);
			for (var j = 0; j < steps; j++) {
				var q = R.below(7);
				if (q < 2 && to > from) src[R.range(from, to - 1)] = R.pick(G.CRIT.concat([R.below(256)]));
				else if (q < 3) ls = Math.min(G.TOP, Math.max(1, R.chance(.5) ? ls + R.range(-2, 2) : G.lineSize(R, n)));
				else if (q < 5) col = R.chance(.5) ? col + R.range(-2, 2) : G.col(R, ls);
				else if (q < 6) to = Math.min(n, Math.max(from, to + R.range(-3, 3))); else from = Math.min(to, Math.max(0, from + R.range(-3, 3)));
				col = Math.max(0, Math.min(ls, col));
				var v = src.subarray(from, to), w = R.below(3), m = to - from, r, el = o.encode(v, ls, col === ls ? 0 : col, exp);
				log.push([w ? 'encode' : 'encodeTo', from, to, ls, col]);
				if (w) r = w === 1 || col || ls !== 128 ? y.encode(v, ls, col) : y.encode(v);
				else { if (!out || out.length < y.maxSize(n, 1)) out = Buffer.alloc(y.maxSize(n, 1)); r = out.subarray(0, y.encodeTo(v, out, ls, col)); }
				if (r.length !== el || !o.same(r, exp, el)) fail('encode is wrong', { src: v, got: r, expected: exp.subarray(0, el) });
				if (w) keep(r);
			}
		},
		decode: function(R, steps) {
			var n = Math.max(1, G.len(R, 900)), src = G.place(R, 'src', n, 24576), raw = R.chance(.5), si = R.below(7), from = 0, to = n, chunk = R.chance(.6), out = Buffer.alloc(n);
			G.fillDec(R, src, R.chance(.5));
			for (var j = 0; j < steps; j++) {
				var q = R.below(7);
				if (q < 2) src[R.range(from, to - 1)] = R.pick([10, 13, 46, 61, 121, 13, 10, R.below(256)]);
				else if (q < 3) { raw = !raw; si = R.below(7); }
				else if (q < 4) si = R.below(7);
				else if (q < 5) to = Math.min(n, Math.max(from + 1, to + R.range(-3, 3))); else if (q < 6) from = Math.min(to - 1, Math.max(0, from + R.range(-3, 3)));
				else chunk = !chunk;
				var v = src.subarray(from, to), w = R.below(2), r, l;
				if (chunk) {
					log.push(['decodeChunk', from, to, ST[si], w]);
					o.decodeEnd(v, si, exp, fb);
					r = w ? y.decodeChunk(v, ST[si]) : y.decodeChunk(v, ST[si], out);
					var est = f[2] === 1 ? '\r\n=y' : f[2] === 2 ? '\r\n.\r\n' : ST[f[3]];
					if (r.read !== f[0] || r.written !== f[1] || r.ended !== !!f[2] || r.state !== est || !o.same(r.output, exp, f[1])) fail('decodeChunk is wrong', { src: v, state: ST[si], got: r, expected: [f[0], f[1], !!f[2], est, Buffer.from(exp.subarray(0, f[1]))] });
					if (w) keep(r.output.subarray(0, r.written));
				} else {
					log.push(['decode', from, to, raw, w]);
					l = o.decode(v, raw, exp);
					r = w ? y.decode(v, raw) : out.subarray(0, y.decodeTo(v, out, raw));
					if (r.length !== l || !o.same(r, exp, l)) fail('decode is wrong', { src: v, stripDots: raw, got: r, expected: exp.subarray(0, l) });
					if (w) keep(r);
				}
			}
		},
		js: function(R, steps) { // articles that differ in one aspect, parsed and made
			var n = G.len(R, 300), src = Buffer.alloc(n), ls = R.chance(.5) ? 128 : R.range(1, 200), name = 'f' + R.u32().toString(36), cs = 'utf8', strip = R.chance(.5), last = null;
			G.fillEnc(R, src, ls, 0);
			try {
				for (var j = 0; j < steps; j++) {
					var q = R.below(7);
					if (q < 2 && n) src[R.below(n)] ^= 1 << R.below(8);
					else if (q < 3) ls = Math.max(1, ls + R.range(-2, 2));
					else if (q < 4) name += R.pick(['x', '\u00e9', ' ', '=', '\u20ac']);
					else if (q < 5) cs = R.pick(['utf8', 'latin1']);
					else if (q < 6) strip = !strip;
					y.encoding = cs;
					log.push(['post', name, cs, ls, n]);
					var a = y.post(name, src, ls), w = Y.post(name, cs, src, ls);
					if (!a.equals(w)) fail('post is wrong', { name: name, encoding: cs, line_size: ls, data: src, got: a, expected: w });
					keep(a);
					var d = Buffer.from(a);
					if (R.chance(.6)) d[R.below(d.length)] = R.pick([10, 13, 46, 61, 121, 32, 48, R.below(256)]);
					if (R.chance(.3)) d = d.subarray(0, R.below(d.length));
					[d, a].forEach(function(t) {
						log.push(['from_post', t.length, strip, cs]);
						var g = y.from_post(t, strip), e = Y.parse(t, strip, cs), bad = Y.compare(g, e, t) || Y.compareWarnings(g, e);
						if (bad) fail('from_post is wrong: ' + bad, { article: t, stripDots: strip });
						if (g.data) keep(g.data);
					});
				}
			} finally { y.encoding = 'utf8'; }
		},
		multi: function(R, steps) { // several encoders at the same time
			var encs = [], k = R.range(2, 4);
			for (var j = 0; j < k; j++) {
				var parts = R.range(1, 5), size = R.below(600), ls = R.range(1, 200), name = 'm' + (R.chance(.5) ? 'same' : R.u32().toString(36));
				encs.push({ e: y.multi_post(name, size, parts, ls), m: new Y.Encoder(name, 'utf8', size, parts, ls), size: size, parts: parts });
			}
			for (j = 0; j < steps; j++) {
				var x = R.pick(encs);
				if (x.m.part >= x.parts) continue;
				var left = x.size - x.m.pos, n = x.m.part + 1 === x.parts ? left : R.below(left + 1), d = Buffer.alloc(n);
				G.fillEnc(R, d, 64, 0);
				log.push(['YEncoder.encode', encs.indexOf(x), n]);
				var a = x.e.encode(d), w = x.m.encode(d);
				if (!a.equals(w)) fail('YEncoder.encode is wrong', { data: d, got: a, expected: w });
				if (x.e.part !== x.m.part || x.e.pos !== x.m.pos || num(x.e.crc) !== x.m.crc) fail('YEncoder state is wrong', { got: [x.e.part, x.e.pos, x.e.crc] });
				keep(a);
			}
		}
	};
	var names = Object.keys(seqs);
	return function(i, R) {
		log = []; held.length = 0; held.next = 0;
		var steps = R.chance(.9) ? R.range(6, 16) : R.range(17, 60), k = names[i % names.length];
		seqs[k](R, steps);
		if (R.chance(.4)) { k = R.pick(names); seqs[k](R, R.range(3, 8)); }
		// what was returned earlier is still what it was
		for (var h = 0; h < held.length; h++) if (!held[h][0].equals(held[h][1])) ctx.fail('a returned Buffer changed during later calls', { history: log.slice(-40), was: held[h][1], is: held[h][0] });
		ctx.count('related_calls', log.length); ctx.count('results_held', held.length); ctx.count('sequence_' + k);
		for (h = 0; h < log.length; h++) ctx.sig(o.hash(Buffer.from(JSON.stringify(log[h])), i));
		if (i < 6) ctx.sample({ sequence: log.slice(0, 6) });
	};
};
