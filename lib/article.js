'use strict';
// Articles and hostile articles. R is the case's random source, Y the reference (lib/yref.js), G the byte generators.
module.exports = function(ctx, Y, G) {
	var A = {};
	function L(s) { return Buffer.from(s, 'latin1'); }
	var CH = ['a', 'b', 'Z', '0', '9', '.', '-', '_', ' ', '=', '"', "'", '(', ')', '[', ']', '/', '\\', '%', '\t', '\u00e9', '\u00df', '\u00ff', '\u00a0', '\u0085', '\u20ac', '\u4e2d', '\u{1f600}', '\u2028', '\ufeff', '\u0001', '\u007f', '\u0301'];
	A.name = function(R, latin) {
		var n = R.pick([0, 1, 2, 3, 5, 8, 8, 8, 12, 20, 20, 40, 100, 254, 255, 256, 257, 258, 300, 600]), s = '';
		if (R.chance(.15)) return R.pick(['name', 'size=5', 'a name=b', 'x size=1 line=2', '=ybegin', '=yend size=4', 'part=1 total=2', '"quoted name.bin"', '__proto__', 'file (1/5) [2/9].rar', '=y', 'name=', 'a=b', '\u00fc\u00f6\u00e4.bin', '.', '..hidden', 'x'.repeat(256), 'y'.repeat(255) + '\u00e9z']);
		var hostile = R.chance(.4);
		for (var i = 0; i < n; i++) {
			var c = R.chance(hostile ? .5 : .05) ? R.pick(CH) : String.fromCharCode(33 + R.below(94));
			if (latin && c.charCodeAt(0) > 255) c = '\u00e4';
			s += c;
		}
		if (R.chance(.1)) { var at = R.below(s.length + 1); s = s.slice(0, at) + R.pick(['\r', '\n', '\0', '\r\n', '\r\n\0', '\n\n', '\r\n=yend size=1', '\ud800', '\udc00']) + s.slice(at); if (latin) s = s.replace(/[\ud800-\udfff]/g, 'x'); }
		return s;
	};
	A.data = function(R, max, ls) {
		var n = G.len(R, max), b = Buffer.alloc(n);
		G.fillEnc(R, b, ls || 128, 0);
		G.forge(R, b, 0);
		return b;
	};
	// ---- structured articles, each field right or wrong on its own
	function num(R, right) {
		var k = R.below(30);
		if (k < 22) return String(right);
		return R.pick([String(right + 1), String(Math.max(0, right - 1)), '0', '00', '0' + right, '', 'abc', '-1', '+' + right, right + 'x', '1e3', '0x10', '99999999999999999999', '1.0', String(right * 2), ' ', '\u0663', 'NaN', 'Infinity', '1,2']);
	}
	function crc(R, right) {
		var k = R.below(20), h = Y.hex(right);
		if (k < 12) return h;
		if (k < 14) return h.toUpperCase();
		return R.pick([Y.hex((right ^ 1) >>> 0), Y.hex((right ^ 0x80000000) >>> 0), h.slice(1), '0' + h, h.replace(/^0+/, ''), '', 'zzzzzzzz', '00000000', 'ffffffff', '0x' + h.slice(2), h.slice(0, 7) + 'g', h + ' ', h.split('').reverse().join('')]);
	}
	A.structured = function(R) {
		var clean = R.chance(.3), ls = R.pick([128, 128, 64, 256, 1, 997]), data = A.data(R, 2000, ls), size = data.length, multi = R.chance(.5), enc = Y.encode(data, ls), c = Y.crc(data);
		if (clean) { num = num0; crc = crc0; }
		try {
			var total = R.range(2, 5), part = R.range(1, total), before = R.below(5000), whole = multi ? before + size + (part < total ? 1 + R.below(5000) : 0) : size;
			function some(p, k, v) { return R.chance(p) ? [k + '=' + v] : []; }
			var b = [], p = [], e = [];
			if (multi) { b = b.concat(some(.93, 'part', num(R, part)), some(.85, 'total', num(R, total))); }
			else b = b.concat(some(.08, 'part', num(R, 1)), some(.08, 'total', num(R, 1)));
			b = b.concat(some(.97, 'line', num(R, ls)), some(.97, 'size', num(R, whole)));
			var name = A.name(R, true).replace(/[\r\n\0]/g, '');
			if (multi ? R.chance(.93) : R.chance(.05)) p = some(.95, 'begin', num(R, before + 1)).concat(some(.95, 'end', num(R, before + size)));
			e = some(.97, 'size', num(R, size)).concat(multi ? some(.8, 'part', num(R, part)) : some(.05, 'part', num(R, 1)), some(multi ? .8 : .1, 'pcrc32', crc(R, c)), some(multi ? .3 : .85, 'crc32', crc(R, multi && R.chance(.7) ? R.u32() : c)));
			var mut = clean ? 0 : R.chance(.3) ? R.range(1, 3) : 0;
			var lines = [['begin', b], ['end', e]]; if (p.length || multi && R.chance(.9)) lines.splice(1, 0, ['part', p]);
			while (mut-- > 0) {
				var l = R.pick(lines), a = l[1], at = R.below(a.length + 1);
				switch (R.below(9)) {
				case 0: if (a.length) a.splice(at, 0, R.pick(a)); break; // duplicate property
				case 1: a.splice(at, 0, R.pick(['junk', 'x y z', '=', '==', '5', '=5', 'A=1', 'size', '9size=4', '_a=b', '__proto__=1', 'constructor=x', 'toString=', 'hasOwnProperty=q', 'a=b=c', 'name=x', '\u00e9=1', 'a-b=c', '"q"', 'pcrc32', '-size=1', 'crc32=00000000', 'valueOf=1', '1=2', 'a1=2', '1a1=2', 'a.b=', 'z='])); break;
				case 2: if (a.length > 1) { var s = a.splice(R.below(a.length), 1); a.splice(R.below(a.length + 1), 0, s[0]); } break;
				case 3: if (a.length) a.splice(R.below(a.length), 1); break;
				case 4: if (lines.length < 6) lines.splice(R.range(1, lines.length - 1), 0, [R.pick(['part', 'begin', 'end', 'foo', '__proto__', 'constructor', '', 'toString', 'Part', 'part\t', 'yy']), [R.pick(['a=b', 'size=' + size, 'begin=1 end=2', '', 'line=128 size=1 name=q'])]]); break;
				case 5: a.splice(at, 0, ''); break; // double space
				case 6: if (a.length) a[R.below(a.length)] += R.pick(['\t', ' ', '=', '=1', ' x', '\u00a0']); break;
				case 7: if (a.length) { var q = R.below(a.length); a[q] = a[q].toUpperCase(); } break;
				default: if (a.length) { q = R.below(a.length); a[q] = R.pick([' ', '\t', '4', 'x', '_']) + a[q]; }
				}
			}
			var bl = lines.filter(function(x) { return x[0] === 'begin'; })[0] || lines[0];
			if (R.chance(.97)) bl[1].splice(R.chance(.9) ? bl[1].length : R.below(bl[1].length + 1), 0, 'name=' + name);
			if (!clean && R.chance(.3) && size) { // damage to the payload
				enc = Buffer.from(enc);
				switch (R.below(6)) {
				case 0: enc[R.below(enc.length)] ^= 1 << R.below(8); break;
				case 1: q = R.below(enc.length); enc = Buffer.concat([enc.subarray(0, q), enc.subarray(q + 1)]); break;
				case 2: q = R.below(enc.length + 1); enc = Buffer.concat([enc.subarray(0, q), L(R.pick(['\r\n', '.', '=', '\r\n.', '\0', 'x', '\r\n=y', '\r\n.\r\n', '\r\n=yend size=3\r\n'])), enc.subarray(q)]); break;
				case 3: enc = enc.subarray(0, R.below(enc.length)); break;
				case 4: enc = Buffer.concat([enc, enc.subarray(0, R.below(enc.length))]); break;
				default: if (enc.length > 1) { q = R.below(enc.length - 1); var t = enc[q]; enc[q] = enc[q + 1]; enc[q + 1] = t; }
				}
			}
			var out = [];
			if (R.chance(.2)) out.push(L(R.pick(['Subject: x\r\n\r\n', 'some text\r\n', '\r\n', '=ybegin\r\n', 'x=ybegin \r\n', '222 body\r\n\r\n', '.\r\n', '\r\n\r\n'])));
			lines.forEach(function(x, i) {
				if (i === lines.length - 1) { if (R.chance(.95) || size) { out.push(enc); if (R.chance(.98)) out.push(L('\r\n')); } }
				out.push(Buffer.from('=y' + x[0] + (x[1].length ? ' ' + x[1].join(' ') : R.chance(.5) ? ' ' : ''), R.chance(.5) ? 'utf8' : 'latin1'));
				if (i < lines.length - 1) out.push(L(R.chance(.98) || clean ? '\r\n' : R.pick(['\n', '\r', ' \r\n', '\r\r\n'])));
			});
			if (R.chance(.7)) out.push(L('\r\n'));
			if (R.chance(.1)) out.push(L(R.pick(['trailing', '\r\n.\r\n', '\r\n=yend size=9\r\n', '=yend size=1', 'x\r\n=yend size=' + size + '\r\n', '\r\n=ybegin line=1 size=1 name=q\r\n'])));
			return Buffer.concat(out);
		} finally { num = num1; crc = crc1; }
	};
	function num0(R, right) { return String(right); }
	function crc0(R, right) { return Y.hex(right); }
	var num1 = num, crc1 = crc;
	// ---- no structure at all: tokens and bytes
	var TOK = ['=ybegin ', '\r\n=ybegin ', '=yend ', '\r\n=yend ', '=ypart ', '\r\n=ypart ', '\r\n', '\r', '\n', '\r\n=y', '=y', 'line=128', ' size=', 'size=5', ' name=x', 'name=', ' ', '  ', '=', 'part=1', ' total=2', 'begin=1 end=5', ' crc32=', 'pcrc32=00000000', '5', '0', 'abc', '.', '\r\n.', '\r\n.\r\n', '\0', '\t', '=ybegin line=128 size=3 name=abc\r\n', '\r\n=yend size=3\r\n', '=ybegin', 'ybegin ', '=yend', '__proto__=', '=y__proto__ a=b\r\n', '=yend size=0 \r\n', '\u00ff', '\u00c3\u00a9', '\u00a0', '\u00ef\u00bb\u00bf'];
	A.tokens = function(R) {
		var out = [], n = R.below(30);
		if (R.chance(.7)) out.push(R.pick(['=ybegin ', '=ybegin line=128 size=3 name=abc\r\n', '\r\n=ybegin ', '=ybegin line=1 size=0 name=\r\n=ypart begin=1 end=1\r\n']));
		while (n-- > 0) out.push(R.chance(.85) ? R.pick(TOK) : String.fromCharCode(R.below(256)));
		if (R.chance(.6)) out.push(R.pick(['\r\n=yend size=3\r\n', '\r\n=yend size=3', '\r\n=yend size=3 crc32=12345678\r\n', '=yend size=0\r\n']));
		return L(out.join(''));
	};
	A.mutate = function(R, b) { // byte-level damage anywhere
		b = Buffer.from(b);
		for (var k = R.range(1, 5); k > 0 && b.length; k--) {
			var q = R.below(b.length), l;
			switch (R.below(7)) {
			case 0: b[q] = R.pick([10, 13, 32, 46, 61, 121, 0, R.below(256)]); break;
			case 1: b = Buffer.concat([b.subarray(0, q), b.subarray(q + 1 + R.below(4))]); break;
			case 2: b = Buffer.concat([b.subarray(0, q), L(R.pick(TOK)), b.subarray(q)]); break;
			case 3: if (R.chance(.3)) b = b.subarray(0, q); break;
			case 4: l = R.below(60); b = Buffer.concat([b.subarray(0, q), b.subarray(Math.max(0, q - l), q), b.subarray(q)]); break;
			case 5: // join or split lines: header area
				q = R.below(Math.min(b.length, 150)); b[q] = R.pick([10, 13, 32, 61, 121, 48 + R.below(10)]); break;
			default: q = Math.max(0, b.length - 1 - R.below(60)); b[q] = R.pick([10, 13, 32, 61, 121, 48 + R.below(10), R.below(256)]);
			}
		}
		return b;
	};
	A.any = function(R) {
		var k = R.below(10), b = k < 5 ? A.structured(R) : k < 7 ? A.mutate(R, A.structured(R)) : k < 9 ? A.tokens(R) : A.mutate(R, A.tokens(R));
		ctx.count('article_' + ['structured', 'structured', 'structured', 'structured', 'structured', 'mutated', 'mutated', 'tokens', 'tokens', 'tokens_mutated'][k]);
		return b;
	};
	return A;
};
