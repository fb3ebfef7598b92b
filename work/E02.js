'use strict';
// Online line-structure monitor over the real output: it does not know which bytes should have been escaped,
// only what a line may look like.
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, length, line_size, column, input generator profile, output length) of each distinct encode output scanned by the line monitor';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'lines-' + e.name, variant: e.variant, env: e.env, cases: q ? 700000 : 9000000, shards: q ? 3 : 12, params: {} });
	});
	jobs.push({ name: 'big', cases: q ? 24 : 300, shards: q ? 4 : 8, params: { big: 1 }, weight: 3000 });
	jobs.push({ name: 'huge', cases: q ? 6 : 60, shards: 3, params: { big: 1, huge: 1 }, weight: 100000, stall: 150 });
	return jobs;
};
var RULES = [0, 'a raw NUL', 'a CR or LF outside a CRLF pair', 'a line that is not line_size or line_size+1 long', 'an empty or overlong last line', 'an empty line', 'an unescaped dot, TAB or space in the first column', 'a split or dangling escape', 'an escape of a byte that is not critical', 'an escape pair starting after the last column', 'an unescaped TAB or space at the end of a line', 'a line longer than line_size without a final escape pair', 'a CRLF at the end of the output'];
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), big = ctx.params.big;
	return function(i, R) {
		var n = big ? ctx.params.huge ? G.bigLen(R, 1 << 23, 80 << 20) : G.bigLen(R, 100000, 5000000) : R.chance(.7) ? G.len(R, 700) : G.len(R, 6000), ls = big ? R.pick([128, 128, 1, 2, 64, 256, 5000, R.range(3, 1000)]) : G.lineSize(R, n), col = G.col(R, ls), src, enc, via = R.below(3);
		if (big) src = Buffer.alloc(n); else src = G.place(R, 'src', n, 8192);
		G.fillEnc(R, src, ls, col);
		if (big) G.bounds(R, src);
		if (via < 2 || big) enc = y.encode(src, ls, col);
		else { var d = G.place(R, 'dst', y.maxSize(n, ls), 65536, R.below(2)); d.fill(0x41); enc = d.subarray(0, y.encodeTo(src, d, ls, col)); }
		if (big) ctx.progress();
		ctx.count('outputs'); ctx.count('bytes', enc.length);
		if (n) {
			ctx.count('lines', 1 + Math.floor(enc.length / ls));
			if (enc.length < n) ctx.fail('output shorter than the input', { n: n, line_size: ls, col: col, src: src, got: enc });
			var r = o.checkLines(enc, ls, col === ls ? 0 : col);
			if (r) ctx.fail('encoded output has ' + RULES[r % 100], { offset: Math.floor(r / 100), n: n, line_size: ls, col: col, src: src, got: enc });
			if (enc[0] === 13 && (col === 0 || col === ls)) ctx.fail('output starts with CRLF', { n: n, line_size: ls, col: col, src: src, got: enc });
		} else if (enc.length) ctx.fail('output for empty input', { line_size: ls, col: col });
		if (i < 2) ctx.sample({ n: n, line_size: ls, col: col, profile: G.profile, output_length: enc.length });
		ctx.sig(o.hash(Buffer.from([n, n >> 8, n >> 16, ls, ls >> 8, ls >> 16, ls >> 24, col, col >> 8, col >> 16, G.profile, enc.length, enc.length >> 8]), ctx.job.name.length));
	};
};
