'use strict';
// A deterministic mix of API calls whose results are digested: the same seed must give the same digest everywhere
// (other kernel, other build, other CPU model, other thread). Optionally each result is compared with the reference.
module.exports = function(ctx, y, opt) {
	var o = ctx.o, G = require('./gen')(ctx), ref = opt && opt.ref, exp = Buffer.alloc(90000), f = new Float64Array(4), fb = Buffer.from(f.buffer);
	var ST = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
	var maxLen = opt && opt.max || 8000;
	function b4(v) { var b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; }
	function num(b) { return b.length === 4 ? b.readUInt32BE(0) : -1; }
	// place(R, name, n): where the data lies must not matter, so it may come from another random sequence
	var P = opt && opt.place || function(R, name, n) { return G.place(R, name, n, Math.max(24576, n)); };
	var big = opt && opt.big; // { p, min, max }: a share of large calls
	var kinds = ['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeIn', 'chunk', 'chunkTo', 'chunkIn', 'crc', 'crc2', 'combine', 'zeroes', 'mul', 'shift', 'roundtrip', 'err', 'post', 'multi', 'frompost'];
	function call(R, h) {
		var k = opt && opt.kinds ? R.pick(opt.kinds) : R.pick(kinds), n = big && R.chance(big.p) ? G.bigLen(R, big.min, big.max) : R.chance(.7) ? G.len(R, Math.min(700, maxLen)) : G.len(R, maxLen), src, ls, col, r, d, si, l, seed;
		if (exp.length < n * 5 + 100) exp = Buffer.alloc(n * 5 + 100);
		ctx.count('call_' + k);
		function want(cond, what, detail) { if (!cond) ctx.fail(what + ' differs from the reference', Object.assign({ call: k, n: n, src: src, line_size: ls, col: col, state: si === undefined ? undefined : ST[si] }, detail)); }
		switch (k) {
		case 'encode': case 'encodeTo': case 'roundtrip':
			ls = G.lineSize(R, n); col = G.col(R, ls); src = P(R, 'src', n); G.fillEnc(R, src, ls, col);
			if (k === 'encodeTo') { d = P(R, 'dst', y.maxSize(n, ls)); l = y.encodeTo(src, d, ls, col); r = d.subarray(0, l); }
			else { r = y.encode(src, ls, col); l = r.length; }
			if (ref) { var el = o.encode(src, ls, col === ls ? 0 : col, exp); want(l === el && o.same(r, exp, el), 'encode', { got: r }); }
			h = o.hash(r, h);
			if (k === 'roundtrip') { var dd = y.decode(r); if (dd.length !== n || !o.same(dd, src, n)) want(false, 'decode(encode(x))', { got: dd }); h = o.hash(dd, h); }
			break;
		case 'decode': case 'decodeTo': case 'decodeIn':
			src = P(R, 'src', n); G.fillDec(R, src); var raw = R.chance(.6);
			if (ref) { l = o.decode(src, raw, exp); }
			if (k === 'decode') r = y.decode(src, raw);
			else { d = P(R, 'dst', n); if (k === 'decodeIn') { src.copy(d); r = d.subarray(0, y.decodeTo(d, d, raw)); } else r = d.subarray(0, y.decodeTo(src, d, raw)); }
			if (ref) want(r.length === l && o.same(r, exp, l), k, { stripDots: raw, got: r, expected: exp.subarray(0, l) });
			h = o.hash(r, h);
			break;
		case 'chunk': case 'chunkTo': case 'chunkIn':
			src = P(R, 'src', n); G.fillDec(R, src, R.chance(.5)); si = R.below(7);
			if (ref && n) o.decodeEnd(src, si, exp, fb);
			if (k === 'chunk') r = y.decodeChunk(src, ST[si]);
			else { d = P(R, 'dst', n); if (k === 'chunkIn') { src.copy(d); r = y.decodeChunk(d, ST[si], d); } else r = y.decodeChunk(src, ST[si], d); }
			var res = [r.read, r.written, r.ended, r.state];
			if (ref && n) { var est = f[2] === 1 ? '\r\n=y' : f[2] === 2 ? '\r\n.\r\n' : ST[f[3]]; want(r.read === f[0] && r.written === f[1] && r.ended === !!f[2] && r.state === est && o.same(r.output, exp, f[1]), k, { got: res, expected: [f[0], f[1], !!f[2], est], output: r.output.subarray(0, r.written) }); }
			h = o.hash(Buffer.from(JSON.stringify(res)), o.hash(r.output.subarray(0, r.written), h));
			break;
		case 'crc': case 'crc2':
			src = P(R, 'src', n, 'crc'); o.gen(src, R.u32(), R.u32(), R.pick([0, 0, 1]), R.below(256));
			seed = R.u32(); r = k === 'crc' ? y.crc32(src) : y.crc32(src, b4(seed));
			if (ref) want(num(r) === o.crc(src, k === 'crc' ? 0 : seed), 'crc32', { init: k === 'crc' ? null : seed, got: r });
			h = o.hash(r, h); break;
		case 'combine': case 'zeroes': case 'mul': case 'shift':
			var a = R.u32(), b = R.u32(), N = Math.floor((R.u32() + R.u32() / 4294967296) / 4294967296 * Math.pow(2, R.range(1, 53)));
			if (k !== 'combine' && R.chance(.5)) N = N ? -N : 0;
			n = N; r = k === 'combine' ? y.crc32_combine(b4(a), b4(b), N) : k === 'zeroes' ? y.crc32_zeroes(N, b4(a)) : k === 'mul' ? y.crc32_multiply(b4(a), b4(b)) : y.crc32_shift(N, b4(a));
			if (ref) { var e = k === 'combine' ? (o.shift8(a, N) ^ b) >>> 0 : k === 'zeroes' ? ~o.shift8(~a >>> 0, N) >>> 0 : k === 'mul' ? o.mul(a, b) : o.shift(a, N); want(num(r) === e, 'crc32_' + k, { a: a, b: b, len: N, got: r }); }
			h = o.hash(r, h); break;
		case 'post': case 'multi': case 'frompost': // the JavaScript layer on top
			ls = R.chance(.5) ? 128 : R.range(1, 300); src = P(R, 'src', n); G.fillEnc(R, src, ls, 0);
			var name = R.chance(.5) ? 'file.bin' : 'n ' + R.u32().toString(36) + (R.chance(.3) ? '\u00e9 =x' : '') + (R.chance(.1) ? '\r\n' : '');
			if (k === 'multi') {
				var parts = R.range(1, 4), enc = y.multi_post(name, n, parts, ls), at = 0;
				r = Buffer.alloc(0);
				for (var pi = 0; pi < parts; pi++) { var end = pi === parts - 1 ? n : R.range(at, n); r = Buffer.concat([r, enc.encode(src.subarray(at, end))]); at = end; }
			} else r = y.post(name, src, ls);
			h = o.hash(r, h);
			if (k === 'frompost') {
				d = Buffer.from(r); // damaged now and then
				for (var q = R.below(4); q > 0 && d.length; q--) d[R.below(d.length)] = R.pick([10, 13, 46, 61, 121, 32, R.below(256)]);
				var f0 = P(R, 'src', d.length); d.copy(f0);
				var fp = y.from_post(f0, R.chance(.5));
				h = o.hash(Buffer.from(fp instanceof Error ? fp.code : JSON.stringify([fp.yencStart, fp.dataStart, fp.dataEnd, fp.yencEnd, fp.props, fp.warnings])), h);
				if (fp.data) h = o.hash(fp.data, o.hash(fp.crc32, h));
			}
			break;
		default: // calls that must be refused in the same way
			src = P(R, 'src', n); ls = G.lineSize(R, n);
			var t = null, w = R.below(6);
			try {
				if (w === 0) y.encode(src, -1 - R.below(1000)); else if (w === 1) y.encode(src, ls, -1); else if (w === 2) y.encode(src, 100, 101 + R.below(100));
				else if (w === 3) y.encodeTo(src, P(R, 'dst', Math.max(0, y.maxSize(n, ls) - 70 - R.below(20))), ls); else if (w === 4) y.decodeTo(src, P(R, 'dst', Math.max(0, n - 1))); else y.crc32(P(R, 'src', n, 'crc'), P(R, 'dst', 3));
			} catch (x) { t = x; }
			h = o.hash(Buffer.from(String(t && t.message)), h);
			if (ref && !t && n && !(w === 3 && y.maxSize(n, ls) < 70)) want(false, 'an invalid call was accepted: it', { which: w });
		}
		ctx.last = { call: k, n: n, line_size: ls, col: col, result: r };
		ctx.sig(o.hash(Buffer.from(k), (h ^ n) >>> 0));
		return h;
	}
	call.G = G;
	return call;
};
