'use strict';
// M02 jobs "long": millions of calls of one function in one process; the result of each is that of the first such call, which the reference confirmed
module.exports = function(ctx, y) {
	var o = ctx.o, nat = require(ctx.path), N = ctx.params.calls, exp = Buffer.alloc(4000), f = new Float64Array(4), fb = Buffer.from(f.buffer);
	function b4(v) { var b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; }
	function data(R, dec) { var b = Buffer.alloc(R.pick([1, 5, 20, 33, 70, 130, 150])); o.gen(b, R.u32(), R.u32(), dec ? R.pick([8, 9]) : 0, 20 | 20 << 8); return b; }
	var ST = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
	function copy(l) { return Buffer.from(exp.subarray(0, l)); }
	// each gives [call, expected]; the call returns a Buffer or a number
	var fns = {
		encode: function(R) { var b = data(R), ls = R.pick([128, 12, 64, 5]); return [function() { return y.encode(b, ls); }, copy(o.encode(b, ls, 0, exp))]; },
		encodeTo: function(R) { var b = data(R), ls = R.pick([128, 12]), d = Buffer.alloc(y.maxSize(b.length, ls)), w = copy(o.encode(b, ls, 0, exp)); return [function() { d[0] = 0; return d.subarray(0, y.encodeTo(b, d, ls)); }, w]; },
		encodeIncr: function(R) { var b = data(R), d = Buffer.alloc(y.maxSize(b.length, 128)), c = R.below(100), w = nat.encodeIncr(b, d, 128, c); w = Buffer.concat([d.subarray(0, w.written), b4(w.col)]); return [function() { d[0] = 0; var r = nat.encodeIncr(b, d, 128, c); return Buffer.concat([d.subarray(0, r.written), b4(r.col)]); }, w]; },
		decode: function(R) { var b = data(R, 1), raw = R.chance(.5); return [function() { return y.decode(b, raw); }, copy(o.decode(b, raw, exp))]; },
		decodeTo: function(R) { var b = data(R, 1), raw = R.chance(.5), d = Buffer.alloc(b.length); return [function() { d[0] = 0; return d.subarray(0, y.decodeTo(b, d, raw)); }, copy(o.decode(b, raw, exp))]; },
		decodeChunk: function(R) { var b = data(R, 1), si = R.below(7); o.decodeEnd(b, si, exp, fb); var w = copy(f[1]), read = f[0]; return [function() { var r = y.decodeChunk(b, ST[si]); return r.read === read ? r.output.subarray(0, r.written) : r.read; }, w]; },
		crc32: function(R) { var b = data(R), i = R.u32(), ib = b4(i); return [function() { return y.crc32(b, ib); }, b4(o.crc(b, i))]; },
		crc32_combine: function(R) { var a = R.u32(), b = data(R), c = o.crc(b, 0), ab = b4(a), cb = b4(c); return [function() { return y.crc32_combine(ab, cb, b.length); }, b4(o.crc(b, a))]; },
		crc32_zeroes: function(R) { var n = R.below(3000), i = R.u32(), ib = b4(i); return [function() { return y.crc32_zeroes(n, ib); }, b4(o.crc(Buffer.alloc(n), i))]; },
		crc32_shift: function(R) { var n = R.below(1e6), i = R.u32(), ib = b4(i), w = b4(o.crcShift ? o.crcShift(i, n) : y.crc32_shift(n, ib).readUInt32BE(0)); return [function() { return y.crc32_shift(n, ib); }, w]; },
		crc32_multiply: function(R) { var a = b4(R.u32()), b = b4(R.u32()), w = Buffer.from(y.crc32_multiply(b, a)); return [function() { return y.crc32_multiply(a, b); }, w]; },
		post: function(R) { var b = data(R), name = 'n' + R.u32(), w = y.post(name, b); return [function() { return y.post(name, b); }, w]; },
		from_post: function(R) { var b = data(R), p = Buffer.concat([y.post('n' + R.u32(), b), Buffer.from('\r\n')]); return [function() { var r = y.from_post(p); return r.warnings ? -1 : r.data; }, b]; }
	};
	var names = Object.keys(fns);
	var run = async function(i, R) {
		var name = names[i % names.length], n = /post/.test(name) ? N >> 3 : N, pool = [];
		for (var k = 0; k < 12; k++) pool.push(fns[name](R));
		for (k = 0; k < n; k++) {
			var p = pool[k % 12], r = p[0](), w = p[1];
			if (!(Buffer.isBuffer(r) && r.length === w.length && (w.length ? r.equals(w) : true))) ctx.fail(name + ' gives another result after ' + k + ' calls', { got: r, expected: w });
			if (k % 1500 === 1499) { ctx.progress(); await new Promise(setImmediate); } // node releases results between turns
		}
		ctx.count('long_calls', n); ctx.sig(o.hash(Buffer.from(name + i), 3));
	};
	run.cases = names.length;
	return run;
};
