'use strict';
// Round trips through the real encoder and the real decoders only (no reference transform involved)
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, data length, line_size, number of pieces, decoding route, stuffed dots, generator profile) of each distinct round trip';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'trip-' + e.name, variant: e.variant, env: e.env, cases: q ? 250000 : 4000000, shards: q ? 3 : 12, params: {} });
	});
	jobs.push({ name: 'big', cases: q ? 24 : 300, shards: q ? 4 : 8, params: { big: 1 }, weight: 3000 });
	jobs.push({ name: 'huge', cases: q ? 4 : 40, shards: 3, params: { big: 1, huge: 1 }, weight: 100000, stall: 150 });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), big = ctx.params.big, CRLF = Buffer.from('\r\n');
	var END = ['\r\n=yend size=1', '\r\n.\r\n', '\r\n=y', '\r\n.\r\nmore'].map(function(s) { return Buffer.from(s); });
	return function(i, R) {
		var n = big ? ctx.params.huge ? G.bigLen(R, 1 << 22, 40 << 20) : G.bigLen(R, 50000, 3000000) : R.chance(.6) ? G.len(R, 900) : G.len(R, 5000), ls = big ? R.pick([128, 128, 1, 2, 64, 256, 5000, R.range(3, 1000)]) : G.lineSize(R, n), src;
		src = big ? Buffer.alloc(n) : G.place(R, 'src', n, 8192);
		G.fillEnc(R, src, ls, 0);
		if (big) G.bounds(R, src);
		var info = { n: n, line_size: ls, profile: G.profile };
		function eq(what, got, len) {
			ctx.count('decodes');
			if (len === undefined) len = got.length;
			if (len !== n || !o.same(got, src, n)) ctx.fail(what + ' does not give the data back', { info: info, src: src, encoded: stream, got: got.subarray(0, len) });
		}
		// encode, in one or several pieces
		var stream, pieces = R.chance(.5) ? 1 : R.range(2, 5), dots = 0;
		if (pieces === 1) stream = y.encode(src, ls);
		else {
			var parts = [], pos = 0, col = 0;
			for (var k = 0; k < pieces; k++) {
				var e = k === pieces - 1 ? n : Math.min(n, pos + (R.chance(.3) ? R.below(5) : R.chance(.5) ? R.below(n - pos + 1) : Math.max(0, ls - col + R.range(-2, 2))));
				var p = y.encode(src.subarray(pos, e), ls, col);
				parts.push(p); pos = e;
				var nl = p.lastIndexOf(CRLF);
				col = nl < 0 ? col + p.length : p.length - nl - 2;
				if (col >= ls) { if (R.chance(.9) || col > ls) { parts.push(CRLF); col = 0; } }
			}
			stream = Buffer.concat(parts);
		}
		info.pieces = pieces;
		eq('decode', y.decode(stream));
		var stuffed = Buffer.alloc(stream.length * 2 + 2), sl = o.dotStuff(stream, stuffed, true);
		stuffed = stuffed.subarray(0, sl); dots = sl - stream.length;
		ctx.count('stuffed_dots', dots);
		var route = R.below(big ? 4 : 6);
		info.route = route;
		eq('decode with stripDots', y.decode(stuffed, true));
		if (route === 0) { var d = Buffer.alloc(sl + R.below(3), 0x55); eq('decodeTo', d, y.decodeTo(stuffed, d, true)); }
		else if (route === 1) { var c = Buffer.from(stuffed); eq('decodeTo in place', c, y.decodeTo(c, c, true)); }
		else if (route === 2) { var c2 = Buffer.from(stream); eq('decodeTo in place, no dots', c2, y.decodeTo(c2, c2, false)); }
		else { // decodeChunk over random cuts, sometimes with an end marker after the data
			var end = R.chance(.5) ? R.pick(END) : null, all = end ? Buffer.concat([stuffed, end]) : stuffed, out = [], st = null, q = 0, ended = false;
			while (q < all.length && !ended) {
				var l = R.chance(.3) ? R.range(1, 4) : R.chance(.5) ? R.range(1, 200) : R.range(1, all.length - q), ch = all.subarray(q, Math.min(all.length, q + l));
				if (big) ch = all.subarray(q, Math.min(all.length, q + R.range(1000, 500000)));
				var r = y.decodeChunk(ch, st);
				out.push(r.output.subarray(0, r.written)); st = r.state; ended = r.ended; q += r.read;
				if (!r.read) ctx.fail('decodeChunk made no progress', { chunk: ch, state: st, info: info });
				ctx.count('chunks');
			}
			if (!n && end) { /* an empty stream in front of a marker is still just the marker */ }
			eq('decodeChunk', Buffer.concat(out));
			if (ended !== !!end) ctx.fail('decodeChunk reported ended=' + ended, { info: info, stream: all });
		}
		if (big) ctx.progress();
		if (i < 2) ctx.sample(Object.assign({ stuffed_dots: dots, encoded_length: stream.length }, info));
		ctx.sig(o.hash(Buffer.from([n, n >> 8, ls, ls >> 8, pieces, route, dots, G.profile]), ctx.job.name.length));
	};
};
