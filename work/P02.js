'use strict';
// Round-trip monitor: everything from_post must return is known from what was posted
exports.rule = 'hash of (name, charset, file length, part lengths, line size, surroundings, stripDots) of each distinct article posted and read back';
exports.assumptions = ['names have no leading or trailing white space (as trim() defines it) and are representable in the charset', 'parts are not empty (an empty part has no valid range)', 'text before the article contains no start of another, text after it no =yend line'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	require('../lib/plan').pairs(env).concat([{ name: 'generic', env: { YV_CRC: '0' }, variant: 'generic' }]).forEach(function(e, i, all) {
		jobs.push({ name: e.name, variant: e.variant, env: e.env, cases: (q ? 160000 : 1000000) / all.length | 0, shards: q ? 2 : 6 });
	});
	jobs.push({ name: 'legacy', legacy: true, cases: q ? 12000 : 120000, shards: q ? 1 : 4 });
	jobs.push({ name: 'big', cases: q ? 160 : 800, shards: q ? 4 : 8, weight: 300, params: { big: true } });
	jobs.push({ name: 'far', cases: q ? 1 : 2, shards: 1, stall: 240, weight: 1000000, params: { far: true } });
	jobs.push({ name: 'huge', cases: q ? 4 : 24, shards: 2, weight: 100000, stall: 150, params: { big: true, huge: true } });
	return jobs;
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), Y = require('../lib/yref')(o), A = require('../lib/article')(ctx, Y, G), big = ctx.params.big;
	var BEFORE = ['', '', '', '\r\n', 'Subject: x\r\nFrom: y\r\n\r\n', '222 0 <id>\r\nSubject: "file" yEnc (1/1)\r\n\r\n', 'text with =ybegin in it\r\n', '=ybegin\r\n', '..\r\n', '\0\0\r\n', '=yend size=1\r\n'], AFTER = ['', '\r\n', '\r\n', '\r\n.\r\n', '\r\ntext\r\n', '\r\n\r\n=ybegin \r\n', '\r\n=yend\r\n', '\r\n=ypart begin=1 end=2\r\n'];
	if (ctx.params.far) return function(i, R) { // parts at offsets beyond 2^31 and 2^32
		var data = Buffer.alloc(440e6, 100), rest = Buffer.from('the last part'), parts = 11, size = 10 * data.length + rest.length, enc = y.multi_post('big.bin', size, parts, 4096), pos = 0;
		for (var p = 1; p <= parts; p++) {
			var part = p < parts ? data : rest, art = enc.encode(part), r = null, d = { part: p, parts: parts, size: size, begin: pos + 1 };
			ctx.progress(); pos += part.length;
			if (p !== 5 && p !== 6 && p !== parts) continue; // the parts around 2^31, and the one after 2^32
			r = y.from_post(art, p === 5); ctx.progress();
			if (r instanceof Error) ctx.fail('from_post: error ' + r.code + ' for an article of ours', d);
			var w = Y.codes(r), pr = r.props;
			if (w.length !== 1 || w[0] !== 'missing_yend_newline') ctx.fail('from_post: warnings: ' + w, d);
			if (!r.data.equals(part)) ctx.fail('from_post: data differs from what was posted', d);
			if (pr.begin.size !== String(size) || pr.part.begin !== String(d.begin) || pr.part.end !== String(pos) || pr.end.size !== String(part.length)) ctx.fail('from_post: props ' + JSON.stringify(pr), d);
			ctx.count('articles'); ctx.count('bytes', part.length); ctx.sig(o.hash(Buffer.from('far' + p), 1)); r = art = null;
		}
	};
	return function(i, R) {
		var cs = R.pick(['utf8', 'utf8', 'latin1']), raw, name;
		do { raw = A.name(R, cs === 'latin1'); if (cs === 'utf8') raw = raw.toWellFormed(); name = Y.nameString(raw); } while (name.trim() !== name || name.toWellFormed() !== name);
		var ls = R.chance(.5) ? 128 : Math.min(100000, G.lineSize(R, 300)), parts = R.chance(.4) ? 1 : R.range(2, 6), data = big ? Buffer.alloc(ctx.params.huge ? G.bigLen(R, 8 << 20, 40 << 20) : G.bigLen(R, 100000, 1500000)) : A.data(R, 4000, ls);
		if (big) { G.fillEnc(R, data, ls, 0); G.bounds(R, data); }
		if (data.length < parts) parts = 1;
		var single = parts === 1, d = { name: raw, encoding: cs, line_size: ls, parts: parts, size: data.length };
		y.encoding = cs;
		try {
			var cuts = [0]; while (cuts.length < parts) { var c = 1 + R.below(data.length - 1); if (cuts.indexOf(c) < 0) cuts.push(c); }
			cuts.sort(function(a, b) { return a - b; }); cuts.push(data.length);
			d.cuts = cuts;
			var enc = single && R.chance(.5) ? null : y.multi_post(raw, data.length, parts, ls), got = [], crc = null;
			for (var p = 0; p < parts; p++) {
				var part = data.subarray(cuts[p], cuts[p + 1]), art = enc ? enc.encode(part) : y.post(raw, part, ls), strip = R.chance(.5);
				var head = Buffer.from(R.pick(BEFORE), 'latin1'), tail = Buffer.from(R.pick(AFTER), 'latin1'), body = art;
				d.part = p + 1; d.before = head.toString('latin1'); d.after = tail.toString('latin1'); d.stripDots = strip;
				if (strip) { body = Buffer.alloc(art.length * 2 + 10); body = body.subarray(0, o.dotStuff(art, body, true)); }
				var all = Buffer.concat([head, body, tail]), copy = Buffer.from(all), r = y.from_post(all, strip), fail = function(what) { ctx.fail('from_post: ' + what, Object.assign({ article: all, result: r }, d)); };
				if (r instanceof Error) fail('error ' + r.code + ' for an article of ours');
				if (!all.equals(copy)) fail('modified its input');
				if (!Buffer.isBuffer(r.data) || !r.data.equals(part)) fail('data differs from what was posted');
				if (r.crc32.readUInt32BE(0) !== Y.crc(part)) fail('crc32 is wrong');
				var w = Y.codes(r);
				if (w.length !== (tail.length ? 0 : 1) || !tail.length && w[0] !== 'missing_yend_newline') fail('warnings: ' + w);
				if (r.yencStart !== head.length) fail('yencStart');
				if (all.toString('latin1', r.dataStart - 2, r.dataStart) !== '\r\n' || all.toString('latin1', r.dataEnd, r.dataEnd + 8) !== '\r\n=yend ') fail('dataStart or dataEnd is not at the data');
				if (r.dataEnd - r.dataStart !== (strip ? body.length - art.length : 0) + Y.encode(part, ls).length) fail('dataStart..dataEnd has the wrong length');
				if (r.yencEnd !== head.length + body.length + (tail.length ? 2 : 0)) fail('yencEnd');
				var pr = r.props, want = { begin: { line: String(ls), size: String(data.length), name: name }, end: { size: String(part.length) } };
				if (parts === 1) want.end.crc32 = Y.hex(Y.crc(part));
				else {
					want.begin.part = want.end.part = String(p + 1); want.begin.total = String(parts);
					want.part = { begin: String(cuts[p] + 1), end: String(cuts[p + 1]) }; want.end.pcrc32 = Y.hex(Y.crc(part));
					if (p === parts - 1) want.end.crc32 = Y.hex(Y.crc(data));
				}
				var norm = function(x) { return JSON.stringify(Object.keys(x).sort().map(function(t) { return [t, Object.keys(x[t]).sort().map(function(k) { return [k, x[t][k]]; })]; })); };
				if (norm(pr) !== norm(want)) fail('props ' + norm(pr) + ' instead of ' + norm(want));
				got.push(r.data); crc = crc ? y.crc32_combine(crc, r.crc32, r.data.length) : r.crc32;
				ctx.count('articles'); ctx.count('bytes', part.length);
				ctx.sig(o.hash(Buffer.from(name + JSON.stringify(d)), 1));
			}
			if (!Buffer.concat(got).equals(data)) ctx.fail('the parts do not give the file', d);
			if (crc.readUInt32BE(0) !== Y.crc(data)) ctx.fail('the combined CRCs do not give that of the file', d);
			ctx.sample({ name: raw, encoding: cs, line_size: ls, cuts: cuts });
		} finally { y.encoding = 'utf8'; }
	};
};
