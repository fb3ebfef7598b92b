'use strict';
// Buffers of 2 GiB to beyond 4 GiB with little memory behind them: the same pages mapped over and over as input and as
// output. The input is periodic, so the reference of one period gives every length and every byte that must be returned.
exports.rule = 'hash of (kernel cap, function, length class and exact length, placement) of each distinct call with input or output beyond 2^31 bytes';
exports.assumptions = ['the data is periodic (period 1 to 4 MiB); where the output is aliased too, only what was written last (up to 4 MiB) and all lengths are compared'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	env.isa.forEach(function(i, k) {
		var e = {}; if (i !== 'auto') e.YV_ISA = i;
		var c = env.crc[k % env.crc.length]; if (c !== 'auto') e.YV_CRC = c;
		jobs.push({ name: 'cap-' + i, env: e, cases: q ? 7 : 70, shards: q ? 1 : 2, params: { kinds: ['encodeTo', 'decodeTo', 'chunk', 'crc', 'escape', 'longline', 'decodeRaw'] } });
	});
	jobs.push({ name: 'generic', variant: 'generic', env: { YV_CRC: '0' }, cases: q ? 2 : 14, shards: q ? 2 : 2, weight: 3, params: { kinds: q ? ['decodeRaw', 'encodeTo'] : ['encodeTo', 'decodeTo', 'chunk', 'crc', 'escape', 'longline', 'decodeRaw'] } });
	jobs.push({ name: 'nocrcutil', variant: 'nocrcutil', env: { YV_CRC: '0' }, cases: q ? 1 : 6, params: { kinds: ['crc'] } });
	jobs.push({ name: 'real', cases: q ? 4 : 24, shards: 1, weight: 9, params: { kinds: ['encode', 'decode', 'chunkAlloc', 'inplace'] } });
	jobs.push({ name: 'incr', cases: q ? 2 : 12, shards: 1, params: { kinds: ['encodeIncr', 'combine'] } });
	jobs.push({ name: 'articles', cases: q ? 5 : 30, shards: 1, weight: 9, params: { huge: !q, kinds: ['article', 'late', 'early', 'post', 'late'] } });
	jobs.forEach(function(j) { j.markMask = 0; j.stall = 150; j.node = ['--expose-gc']; });
	return jobs;
};
var G2 = 2147483648, G4 = 4294967296, PG = 4096;
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, native = require(ctx.path), PLAIN = 97;
	function up(n) { return Math.ceil(n / PG) * PG; }
	function length(R, big) {
		var k = R.below(8), d = R.pick([0, 1, -1, 2, 3, 7, 15, 16, 17, 31, 33, 63, 64, 65, 100, -2, -64, -65]);
		if (k < 3) return G4 + d + (R.chance(.5) ? R.below(1 << 20) : 0);
		if (k < 5) return G2 + d + (R.chance(.5) ? R.below(1 << 20) : 0);
		if (k < 6) return G2 + R.below(G2);
		return G4 + R.below(big ? 1 << 26 : 1 << 30);
	}
	// one period of data to encode whose last line is full, so that the next period starts a line
	function encPeriod(R, ls) {
		var P = R.pick([1, 2]) << 20, b = Buffer.alloc(P), t = 4096 + 4 * ls, out = Buffer.alloc(4 * P + 1000);
		o.gen(b, R.u32(), R.u32(), R.pick([0, 3, 3]), R.pick([2, 10, 60, 255]));
		b.fill(PLAIN, P - t - 1);
		function full(c) { return c >= ls ? 0 : c; } // (a line may be one longer)
		var c0 = full(o.endCol(b.subarray(0, P - t), ls, 0, out)), tail = b.subarray(P - t), i = 0;
		for (; full(o.endCol(tail, ls, c0, out)); i++) tail[ls + 2 * i] = 214; // each adds one column
		if (2 * i + 3 * ls > t) throw new Error('oracle: no aligned period');
		var l = o.encode(b, ls, 0, out);
		out[l++] = 13; out[l++] = 10;
		return { P: P, data: b, enc: Buffer.from(out.subarray(0, l)), out: out };
	}
	// bytes [from, to) of (unit repeated `times`) + rest
	function expectAt(unit, times, rest, from, to) {
		var r = Buffer.alloc(to - from), U = unit.length, end = U * times, p = from;
		while (p < to) {
			var s = p < end ? unit.subarray(p % U, Math.min(U, p % U + to - p)) : rest.subarray(p - end, to - end);
			if (!s.length) throw new Error('oracle: expectation too short');
			s.copy(r, p - from); p += s.length;
		}
		return r;
	}
	// compare r[0..len) with the expectation, in blocks; from: start there
	function compare(R, what, r, from, len, unit, times, rest, info) {
		for (var p = from; p < len; ) {
			var n = Math.min(len - p, 1 << 22), e = expectAt(unit, times, rest, p, p + n), g = r.subarray(p, p + n);
			if (!o.same(g, e, n)) { for (var j = 0; g[j] === e[j]; j++); ctx.fail(what + ': wrong output at offset ' + (p + j), Object.assign(info, { got: Buffer.from(g.subarray(j, j + 100)), expected: e.subarray(j, j + 100) })); }
			p += n; ctx.count('bytes_compared', n);
		}
	}
	// periodic input of N bytes: [buffer, one period]; offset so that both page-aligned and other starts occur
	var keep = [];
	function input(P, N, data, own) { // own: that many bytes at the end may be rewritten
		var total = up(N), tail = up((own || 0) + (total - N)), a = o.alias(P, total, tail), b = a[0];
		data.copy(a[1]);
		for (var p = total - tail; p < total; p += n) { var n = Math.min(total - p, P - p % P); b.subarray(p, p + n).set(data.subarray(p % P, p % P + n)); } // (Buffer.copy and fill truncate offsets)
		return b.subarray(0, N);
	}
	function output(n, S) { return o.alias(S, up(n), 0)[0]; }
	function checkLen(what, got, want, info) { if (got !== want) ctx.fail(what + ': length ' + got + ' instead of ' + want, info); }
	function decPeriod(R, raw) { // decodes to dec whatever precedes; no end inside
		var P = R.pick([1, 2]) << 20, b = Buffer.alloc(P), d = Buffer.alloc(P);
		o.gen(b, R.u32(), R.u32(), R.pick([0, 10, 10, 12]), R.pick([2, 20, 60]) | 0x0a00);
		// no ends of data inside: break every CRLF=y, CRLF.=y and CRLF.CRLF
		for (var i = 0; i + 3 < P; i++) if (b[i] === 13 && b[i + 1] === 10) { var q = b[i + 2] === 46 ? i + 3 : i + 2; if (b[q] === 61 && b[q + 1] === 121) b[q + 1] = 120; if (b[i + 2] === 46 && b[i + 3] === 13) b[i + 3] = 99; }
		b.fill(PLAIN, 0, 4); b.fill(PLAIN, P - 8);
		var l = o.decode(b, raw, d);
		return { P: P, data: b, dec: Buffer.from(d.subarray(0, l)) };
	}
	function run(R, kind, i) {
		var N = length(R, kind === 'encode' || kind === 'decode' || kind === 'chunkAlloc' || kind === 'inplace'), ls = R.chance(.5) ? 128 : R.range(60, 1000), x, src, dst, S = R.pick([1, 2, 4]) << 20, info = { kind: kind, N: N, line_size: ls }, r, k, rest, l, raw = kind === 'decodeRaw' || R.chance(.5);
		ctx.count('call_' + kind);
		if (kind === 'escape') N = Math.floor(N / 2) + R.below(1000); // input below, output beyond
		switch (kind) {
		case 'encodeTo': case 'encode': case 'encodeIncr': case 'escape':
			x = encPeriod(R, ls);
			if (kind === 'escape') { // every byte escaped: two columns each
				ls = info.line_size = 128; x.data.fill(214); l = o.encode(x.data, ls, 0, x.out); x.out[l++] = 13; x.out[l++] = 10; x.enc = Buffer.from(x.out.subarray(0, l)); info.N = N;
			}
			k = Math.floor((N - 1) / x.P); // whole periods followed by something
			rest = Buffer.alloc(4 * x.P + 1000); l = o.encode(x.data.subarray(0, N - k * x.P), ls, 0, rest); rest = rest.subarray(0, l);
			var want = k * x.enc.length + l;
			src = input(x.P, N, x.data);
			if (kind === 'encode') { r = y.encode(src, ls); checkLen(kind, r.length, want, info); compare(R, kind, r, 0, want, x.enc, k, rest, info); break; }
			dst = output(y.maxSize(N, ls), S);
			if (kind === 'encodeIncr') { r = native.encodeIncr(src, dst, ls, 0); info.col = r.col; var lastLine = rest.lastIndexOf('\r\n'), col = rest.length - (lastLine < 0 ? 0 : lastLine + 2); r = r.written;
				// not the end of the data: a final TAB or SPACE is not escaped in the middle of a line
				var lb = x.data[(N - 1) % x.P]; if ((lb === 223 || lb === 246) && r === want - 1) { want--; rest = null; } }
			else r = y.encodeTo(src, dst, ls);
			checkLen(kind, r, want, info);
			if (rest) compare(R, kind, dst, Math.max(0, want - S + 4096), want, x.enc, k, rest, info); // (vector stores may reach past the end, into the oldest bytes)
			break;
		case 'longline': // line sizes near the largest: lines of 2^31 columns
			ls = R.pick([2147483639, 2147483638, 2147483632, 1500000000]); info.line_size = ls;
			N = info.N = ls * R.pick([1, 2]) + R.pick([-1, 0, 1, 2, 5, 1000, 70000]);
			var col = R.chance(.5) ? 0 : R.below(ls);
			x = { P: 1 << 20, data: Buffer.alloc(1 << 20, PLAIN) }; src = input(x.P, N, x.data); dst = output(N + 1000 + y.maxSize(N, ls) - N, S);
			r = y.encodeTo(src, dst, ls, col); info.col = col;
			checkLen(kind, r, N + 2 * Math.floor((N - 1 + col) / ls), info);
			// position of the last line break
			var tailN = 1 << 16, lastCols = (N - 1 + col) % ls + 1; // columns on the last line
			for (var p = 1; p <= tailN; p++) { var e = p === lastCols + 1 ? 10 : p === lastCols + 2 ? 13 : PLAIN + 42; if (dst[r - p] !== e) ctx.fail(kind + ': wrong byte ' + dst[r - p] + ' at ' + p + ' from the end', info); if (p >= lastCols + 2) break; }
			break;
		case 'decodeTo': case 'decode': case 'decodeRaw':
			x = decPeriod(R, raw); k = Math.floor(N / x.P); rest = Buffer.alloc(x.P); l = o.decode(x.data.subarray(0, N % x.P), raw, rest); rest = rest.subarray(0, l); info.stripDots = raw;
			src = input(x.P, N, x.data); want = k * x.dec.length + l;
			if (kind === 'decode') { r = y.decode(src, raw); checkLen(kind, r.length, want, info); compare(R, kind, r, 0, want, x.dec, k, rest, info); break; }
			dst = output(N, S); r = y.decodeTo(src, dst, raw); checkLen(kind, r, want, info);
			compare(R, kind, dst, Math.max(0, want - S + 4096), want, x.dec, k, rest, info);
			break;
		case 'chunk': case 'chunkAlloc': case 'inplace':
			x = decPeriod(R, true); var fin = R.pick(['', '\r\n=y', '\r\n.\r\n', '\r\n=yend size=1\r\n', '=', '\r', '\r\n.', 'abc']), keepN = N - 4096 - R.below(4096), after = R.pick([0, 10, 2000]), st = R.pick([null, '', '=', '\r\n']);
			info.tail = fin; info.state = st;
			if (kind === 'inplace') { src = o.bigMap(up(N)); for (p = 0; p < N; p += x.P) src.subarray(p, p + x.P).set(x.data.subarray(0, Math.min(x.P, src.length - p))); src = src.subarray(0, N); }
			else src = input(x.P, N, x.data, 8192);
			// the end lies in the private tail, well behind 2^31 or 2^32
			var at = N - after - fin.length; src.subarray(at, at + fin.length).set(Buffer.from(fin, 'latin1')); src.subarray(at - 5, at).fill(PLAIN); if (after && !/=y$|=yend|\.\r\n$/.test(fin)) src.subarray(at + fin.length).fill(PLAIN);
			// reference: periods, then the rest of the data in one go
			k = Math.floor((at - 16) / x.P); if (k * x.P > N - 16384) k--;
			var restSrc = Buffer.from(src.subarray(k * x.P)), f = new Float64Array(4), fb = Buffer.from(f.buffer); rest = Buffer.alloc(restSrc.length);
			o.decodeEnd(restSrc, 3, rest, fb); rest = rest.subarray(0, f[1]);
			var unit = x.dec, first = x.data[0], want2 = k * unit.length + f[1];
			if (kind === 'chunkAlloc') r = y.decodeChunk(src, st); else if (kind === 'inplace') r = y.decodeChunk(src, st, src); else { dst = output(N, S); r = y.decodeChunk(src, st, dst); }
			checkLen(kind + ' read', r.read, k * x.P + f[0], info); checkLen(kind + ' written', r.written, want2, info);
			var est = f[2] === 1 ? '\r\n=y' : f[2] === 2 ? '\r\n.\r\n' : ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='][f[3]];
			if (r.ended !== !!f[2] || r.state !== est) ctx.fail(kind + ': wrong ended or state', Object.assign(info, { got: [r.ended, r.state], expected: [!!f[2], est] }));
			if (kind === 'chunkAlloc') checkLen(kind + ' output', r.output.length, want2, info);
			if (st === '=') { // the very first byte was escaped
				if (kind !== 'chunk' && r.output[0] !== (first - 106 & 255)) ctx.fail(kind + ': wrong first byte', info);
				if (kind !== 'chunk') r.output[0] = unit[0];
			}
			compare(R, kind, r.output, kind === 'chunk' ? Math.max(1, want2 - S + 4096) : 0, want2, unit, k, rest, info);
			break;
		case 'crc':
			var P = R.pick([1, 2]) << 20, b = Buffer.alloc(P); o.gen(b, R.u32(), R.u32(), 0, 0);
			var off = R.below(70), c1 = o.crc(b, 0), c = 0, init = R.chance(.5) ? 0 : R.u32(); k = Math.floor((N + off) / P);
			src = input(P, N + off, b); c = init;
			// first period from off, then whole ones, then the rest
			c = o.crc(b.subarray(off), c); for (var j = 1; j < k; j++) c = (o.shift8(c, P) ^ c1) >>> 0; var m = (N + off) % P; c = o.crc(b.subarray(0, m), c);
			var ib = Buffer.alloc(4); ib.writeUInt32BE(init); r = init ? y.crc32(src.subarray(off), ib) : y.crc32(src.subarray(off));
			if (r.readUInt32BE(0) !== c) ctx.fail('crc32 of ' + N + ' bytes is wrong', { N: N, init: init, off: off, got: r, expected: c.toString(16) });
			break;
		case 'article': // header and trailer more than 2^31 or 2^32 bytes apart, zeros (and some blocks) between
			raw = R.chance(.5); src = o.bigMap(up(N)).subarray(0, N);
			var extra = R.pick(['', '\r\n', '\r\nmore', '\r\nx\r\n=yend\r\n']), hd = Buffer.from('=ybegin line=128 size=0000000000 name=big\r\n'), te = '\r\n=yend size=0000000000 crc32=00000000', at, want, crc = 0, blocks = [], DEC = Buffer.alloc(1 << 20, 214), ZC = o.crc(DEC, 0);
			at = N - te.length - extra.length; // of the trailer
			// blocks of other data, ends of line and false trailers among them
			[hd.length + 5, G2 - 500, G2 + 70000, G4 - 500, G4 + 300, at - 3000].forEach(function(p) {
				if (p + 2000 > at || blocks.length && p < blocks[blocks.length - 1].end) return;
				var b = Buffer.from('aa\r\n=yend \r\nb\r\n=ybegin \r\n..a=}\r\n.\tc' + 'x'.repeat(R.below(900)) + 'yz'), d = Buffer.alloc(b.length), l = o.decode(b, raw, d);
				src.subarray(p, p + b.length).set(b); blocks.push({ at: p, end: p + b.length, dec: Buffer.from(d.subarray(0, l)) });
			});
			var zeros = function(n) { want += n; for (; n >= DEC.length; n -= DEC.length) crc = (o.shift8(crc, DEC.length) ^ ZC) >>> 0; crc = o.crc(DEC.subarray(0, n), crc); };
			want = 0; p = hd.length;
			blocks.forEach(function(b) { zeros(b.at - p); crc = o.crc(b.dec, crc); want += b.dec.length; p = b.end; }); zeros(at - p);
			var num = function(n, l, radix) { return ('0000000000' + n.toString(radix)).slice(-l); };
			var badSize = R.chance(.3), badCrc = R.chance(.3);
			src.set(Buffer.from('=ybegin line=128 size=' + num(want, 10, 10) + ' name=big\r\n'), 0);
			src.subarray(at).set(Buffer.from('\r\n=yend size=' + num(want + (badSize ? G4 : 0), 10, 10) + ' crc32=' + num((crc ^ (badCrc ? 1 : 0)) >>> 0, 8, 16) + extra));
			r = y.from_post(src, raw); Object.assign(info, { stripDots: raw, badSize: badSize, badCrc: badCrc, after: extra });
			if (r instanceof Error) { ctx.fail('from_post of ' + N + ' bytes: ' + r.code, info); break; }
			var we = (badSize ? ['size_mismatch', 'data_size_mismatch'] : []).concat(badCrc ? ['crc32_mismatch'] : [], extra ? [] : ['missing_yend_newline']).sort().join(), wg = (r.warnings || []).map(function(w) { return w.code; }).sort().join();
			if (r.yencStart !== 0 || r.dataStart !== hd.length || r.dataEnd !== at || r.yencEnd !== at + te.length + (extra ? 2 : 0)) ctx.fail('from_post: wrong positions', Object.assign(info, { got: [r.yencStart, r.dataStart, r.dataEnd, r.yencEnd] }));
			checkLen('from_post data', r.data.length, want, info);
			if (r.crc32.readUInt32BE(0) !== crc) ctx.fail('from_post: wrong crc32', info);
			if (wg !== we) ctx.fail('from_post: wrong warnings', Object.assign(info, { got: wg, expected: we }));
			ctx.count('bytes_compared', want); // by CRC
			break;
		case 'late': case 'early': // a small article behind, or before, more than 2^31 bytes
			src = o.bigMap(up(N)).subarray(0, N);
			b = Buffer.alloc(R.range(1, 5000)); o.gen(b, R.u32(), R.u32(), 0, 0);
			var art = R.chance(.5) ? y.post('a name', b, ls) : y.multi_post('a name', b.length * 2, 2, ls).encode(b);
			art = Buffer.concat([art, Buffer.from('\r\n')]); p = kind === 'early' ? 0 : R.pick([N - art.length, N - art.length - R.below(5000), G2 - R.below(art.length + 20), Math.max(2, N - (1 << 30) - R.below(200)), (1 << 30) - R.below(130)]);
			if (p) src.subarray(p - 2, p).set(Buffer.from('\r\n'));
			src.subarray(p, p + art.length).set(art);
			var w = y.from_post(art); r = y.from_post(src); info.at = p;
			if (r instanceof Error) { ctx.fail('from_post of ' + N + ' bytes: ' + r.code, info); break; }
			['yencStart', 'dataStart', 'dataEnd', 'yencEnd'].forEach(function(k) { if (r[k] !== w[k] + p) ctx.fail('from_post: wrong ' + k, Object.assign(info, { got: r[k], expected: w[k] + p })); });
			if (!r.data.equals(b) || !r.crc32.equals(w.crc32) || JSON.stringify([r.props, r.warnings]) !== JSON.stringify([w.props, w.warnings])) ctx.fail('from_post: wrong data or properties', info);
			break;
		case 'post': // an article that is bigger than 2^31 bytes
			if (!ctx.params.huge) N = info.N = G2 + R.pick([-1, 0, 1, 17]) + (R.chance(.5) ? R.below(1 << 20) : 0);
			x = encPeriod(R, ls); k = Math.floor((N - 1) / x.P); rest = Buffer.alloc(4 * x.P + 1000); l = o.encode(x.data.subarray(0, N - k * x.P), ls, 0, rest); rest = rest.subarray(0, l);
			src = input(x.P, N, x.data); var multi = info.multi = R.chance(.5);
			r = multi ? y.multi_post('n', N + 5, 2, ls).encode(src) : y.post('n', src, ls);
			c1 = o.crc(x.data, 0); c = 0; for (j = 0; j < k; j++) c = (o.shift8(c, x.P) ^ c1) >>> 0; c = ('0000000' + o.crc(x.data.subarray(0, N - k * x.P), c).toString(16)).slice(-8);
			var h = Buffer.from(multi ? '=ybegin part=1 total=2 line=' + ls + ' size=' + (N + 5) + ' name=n\r\n=ypart begin=1 end=' + N + '\r\n' : '=ybegin line=' + ls + ' size=' + N + ' name=n\r\n'), t = Buffer.from('\r\n=yend size=' + N + (multi ? ' part=1 pcrc32=' : ' crc32=') + c);
			want = k * x.enc.length + l;
			checkLen(kind, r.length, h.length + want + t.length, info);
			if (!r.subarray(0, h.length).equals(h) || !r.subarray(r.length - t.length).equals(t)) ctx.fail('post: wrong header or trailer', Object.assign(info, { got: [Buffer.from(r.subarray(0, 100)), Buffer.from(r.subarray(r.length - 100))] }));
			compare(R, kind, r.subarray(h.length, h.length + want), 0, want, x.enc, k, rest, info);
			break;
		case 'combine': // lengths beyond 2^32, with data behind them
			b = Buffer.alloc(1 << 20); o.gen(b, R.u32(), R.u32(), 0, 0); src = input(1 << 20, N, b); var head = Buffer.from('head' + i);
			var whole = y.crc32(src, y.crc32(head)), comb = y.crc32_combine(y.crc32(head), y.crc32(src), N);
			if (!whole.equals(comb)) ctx.fail('crc32_combine(a, b, ' + N + ') differs from crc32 of both', { N: N });
			break;
		}
		ctx.max('length', N); ctx.count('beyond_' + (N >= G4 ? '2^32' : N >= G2 ? '2^31' : '2^30'));
		ctx.sig(o.hash(Buffer.from(kind + ctx.job.name + N + '.' + ls), 1));
		ctx.sample({ call: kind, length: N, line_size: ls });
		src = dst = r = null;
		ctx.gc(); ctx.progress();
	}
	return async function(i, R) {
		var ks = ctx.params.kinds;
		run(R, ks[i % ks.length], i);
		await new Promise(setImmediate); ctx.gc(); // unmap
	};
};
