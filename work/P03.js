'use strict';
// Parser monitor: arbitrary and hostile articles against an independent parser; CPU time against growing hostile inputs
exports.rule = 'hash of the bytes of each distinct article parsed';
exports.assumptions = ['time: CPU time for inputs of 50 KB to 3 MB, growing by 4; more than 5 s and 10 times the time of a quarter of the input counts as not proportional'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	require('../lib/plan').pairs(env).forEach(function(e, i, all) {
		jobs.push({ name: e.name, env: e.env, cases: (q ? 320000 : 4000000) / all.length | 0, shards: q ? 2 : 6, params: { mode: 'parse' } });
	});
	jobs.push({ name: 'legacy', legacy: true, cases: q ? 40000 : 400000, shards: q ? 1 : 4, params: { mode: 'parse' } });
	jobs.push({ name: 'time', cases: 40, shards: 8, params: { mode: 'time' }, weight: 1000, markMask: 0 });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), Y = require('../lib/yref')(o), A = require('../lib/article')(ctx, Y, G);
	if (ctx.params.mode === 'time') {
		var HEAD = '=ybegin line=128 size=3 name=x', END = '\r\nabc\r\n=yend size=3\r\n', U = [
			['word', 'a', 1], ['digits', '7', 1], ['underscores', '_', 1], ['spaces', ' ', 1], ['equals', '=', 1], ['upper', 'A', 1], ['tabs', '\t', 1], ['mixed', '9a', 1], ['mixed2', 'a9_', 1], ['props', 'a=b ', 1], ['words', 'ab cd ', 1], ['junkprops', '- a=', 1], ['eqs', 'a== ', 1], ['dots', '.a', 1], ['crs', '\r', 1], ['bytes', '\u00ff', 1], ['nul', '\0', 1], ['dashwords', 'aa-', 1], ['9sp', '9 ', 1], ['quote', '"a=', 1]];
		var S = [];
		U.forEach(function(u) {
			S.push([u[0] + ' in =ybegin', function(n) { return '=ybegin line=128 size=3 ' + u[1].repeat(n / u[1].length) + ' name=x' + END; }]);
			S.push([u[0] + ' in =yend', function(n) { return HEAD + '\r\nabc\r\n=yend ' + u[1].repeat(n / u[1].length) + ' size=3\r\n'; }]);
		});
		[['lines', function(n) { return HEAD + '\r\n=ya b=c'.repeat(n / 9) + END; }], ['empty lines', function(n) { return HEAD + '\r\n=y'.repeat(n / 4) + END; }], ['no start', function(n) { return '\r\n=ybegin'.repeat(n / 9); }], ['no start 2', function(n) { return '\r\n=ybegi\r\n=y'.repeat(n / 12); }],
			['no end', function(n) { return HEAD + '\r\n' + '\r\n=yend'.repeat(n / 7); }], ['many ends', function(n) { return HEAD + '\r\n' + '\r\n=yend size=3'.repeat(n / 14); }], ['no newline', function(n) { return HEAD + 'x'.repeat(n); }], ['data dots', function(n) { return HEAD + '\r\n' + '\r\n.'.repeat(n / 3) + END; }], ['data eq', function(n) { return HEAD + '\r\n' + '='.repeat(n) + END; }], ['data yend parts', function(n) { return HEAD + '\r\n' + '\r\n=yen'.repeat(n / 6) + END; }], ['dup part lines', function(n) { return HEAD + '\r\n=ypart begin=1 end=3'.repeat(n / 22) + END; }], ['distinct props', function(n) { var s = ''; for (var i = 0; s.length < n; i++) s += ' p' + i.toString(36) + 'x=1'; return '=ybegin line=128 size=3' + s + ' name=x' + END; }], ['distinct tags', function(n) { var s = ''; for (var i = 0; s.length < n; i++) s += '\r\n=yt' + i; return HEAD + s + END; }], ['prefix text', function(n) { return 'x=ybegin \r'.repeat(n / 10) + '\r\n' + HEAD + END; }], ['name', function(n) { return HEAD + ' a='.repeat(n / 3) + END; }]].forEach(function(x) { S.push(x); });
		return function(i) {
			for (var k = i; k < S.length; k += 40) {
				var prev = 0, t = 0;
				for (var n = 50000; n <= 3200000; n *= 4) {
					var b = Buffer.from(S[k][1](n), 'latin1'), c = process.cpuUsage();
					var r = y.from_post(b, !!(k & 1)); c = process.cpuUsage(c); t = (c.user + c.system) / 1e6;
					ctx.count('timed_calls'); ctx.max('cpu_ms', Math.round(t * 1000)); ctx.progress();
					if (t > 5 && t > 10 * Math.max(prev, .2)) ctx.fail('from_post: time is not proportional to length', { shape: S[k][0], length: b.length, cpu_s: t, quarter: prev });
					ctx.sig(o.hash(b.subarray(0, 5000), n));
					if (n === 50000 && !(k === -1)) { var w = Y.compare(r, Y.parse(b, !!(k & 1), 'utf8'), b); if (w) ctx.fail('from_post: ' + w, { shape: S[k][0], length: b.length }); }
					prev = t;
				}
			}
		};
	}
	return function(i, R) {
		for (var k = 0; k < 2; k++) {
			var b = A.any(R), strip = R.chance(.5), cs = R.chance(.8) ? 'utf8' : 'latin1', copy = Buffer.from(b), r;
			if (R.chance(.2)) { var g = G.place(R, 'src', b.length, 24576); b.copy(g); b = g; }
			y.encoding = cs;
			var want = Y.parse(copy, strip, cs);
			try { r = y.from_post(b, strip); } catch (e) { ctx.fail('from_post threw: ' + e.message, { article: copy.toString('latin1'), stripDots: strip, encoding: cs, stack: String(e.stack) }); } finally { y.encoding = 'utf8'; }
			var w = Y.compare(r, want, b);
			if (!w && !(r instanceof Error)) { // the stated invariants, on what was returned
				if (!(r.yencStart >= 0 && r.yencEnd <= b.length && r.yencStart < r.yencEnd)) w = 'offsets out of order';
				if (r.dataStart !== undefined && !(r.yencStart < r.dataStart && r.dataStart <= r.dataEnd && r.dataEnd < r.yencEnd)) w = 'offsets out of order';
			}
			if (!w && !b.equals(copy)) w = 'modified its input';
			if (w) ctx.fail('from_post: ' + w, { article: copy.toString('latin1').slice(0, 3000), hex: copy, stripDots: strip, encoding: cs, result: r });
			ctx.count(r instanceof Error ? 'error_' + r.code : r.data ? 'parsed' : 'parsed_no_data');
			ctx.sig(o.hash(copy, 1));
			if (!(r instanceof Error)) ctx.sample({ article: copy.toString('latin1').slice(0, 300), props: r.props });
		}
	};
};
