'use strict';
// Reference for the JavaScript layer, written from the yEnc 1.3 draft and README. o is the oracle addon.
module.exports = function(o) {
	var Y = {}, scratch = Buffer.alloc(1 << 20);
	function space(n) { if (scratch.length < n) scratch = Buffer.alloc(n * 2); return scratch; }
	Y.encode = function(data, ls) { var d = space(data.length * 4 + 200), n = o.encode(data, ls, 0, d); return Buffer.from(d.subarray(0, n)); };
	Y.decode = function(data, strip) { var d = space(data.length + 100), n = o.decode(data, strip, d); return Buffer.from(d.subarray(0, n)); };
	Y.crc = function(data, init) { return o.crc(data, init || 0) >>> 0; };
	Y.hex = function(n) { return ('0000000' + n.toString(16)).slice(-8); };
	// file name as written: without CR, LF, NUL, at most 256 characters, in the charset
	Y.nameBytes = function(name, enc) {
		var r = '';
		for (var i = 0; i < name.length && r.length < 256; i++) { var c = name.charCodeAt(i); if (c !== 13 && c !== 10 && c !== 0) r += name[i]; }
		if (enc === 'latin1' || enc === 'binary') { var b = Buffer.alloc(r.length); for (i = 0; i < r.length; i++) b[i] = r.charCodeAt(i) & 255; return b; }
		return Buffer.from(new TextEncoder().encode(r));
	};
	Y.nameString = function(name) { return name.split('').filter(function(c) { return c !== '\r' && c !== '\n' && c !== '\0'; }).slice(0, 256).join(''); };
	Y.bytes = function(x) { // what data means
		if (Buffer.isBuffer(x)) return x;
		if (typeof x === 'string') return Buffer.from(new TextEncoder().encode(x));
		if (x instanceof ArrayBuffer || typeof SharedArrayBuffer !== 'undefined' && x instanceof SharedArrayBuffer) return Buffer.from(new Uint8Array(x));
		var b = Buffer.alloc(x.length); for (var i = 0; i < x.length; i++) b[i] = Number(x[i]) & 255; return b;
	};
	function L(s) { return Buffer.from(s, 'latin1'); }
	Y.post = function(name, enc, data, ls) {
		return Buffer.concat([L('=ybegin line=' + ls + ' size=' + data.length + ' name='), Y.nameBytes(name, enc), L('\r\n'), Y.encode(data, ls), L('\r\n=yend size=' + data.length + ' crc32=' + Y.hex(Y.crc(data)))]);
	};
	// model of YEncoder: encode returns the article or null when it must refuse
	Y.Encoder = function(name, enc, size, parts, ls) { this.name = Y.nameBytes(name, enc); this.size = size; this.parts = parts; this.ls = ls; this.part = 0; this.pos = 0; this.crc = 0; };
	Y.Encoder.prototype.encode = function(data) {
		var n = data.length, part = this.part + 1;
		if (part > this.parts || this.pos + n > this.size || part === this.parts && this.pos + n !== this.size) return null;
		var pcrc = Y.crc(data), begin = this.pos + 1, end = this.pos + n;
		this.crc = Y.crc(data, this.crc); this.part = part; this.pos = end;
		if (this.parts === 1) return Buffer.concat([L('=ybegin line=' + this.ls + ' size=' + this.size + ' name='), this.name, L('\r\n'), Y.encode(data, this.ls), L('\r\n=yend size=' + n + ' crc32=' + Y.hex(this.crc))]);
		return Buffer.concat([L('=ybegin part=' + part + ' total=' + this.parts + ' line=' + this.ls + ' size=' + this.size + ' name='), this.name, L('\r\n=ypart begin=' + begin + ' end=' + end + '\r\n'), Y.encode(data, this.ls),
			L('\r\n=yend size=' + n + ' part=' + part + ' pcrc32=' + Y.hex(pcrc) + (part === this.parts ? ' crc32=' + Y.hex(this.crc) : ''))]);
	};

	// ---- parsing
	function str(b, enc) { return b.toString(enc === 'binary' ? 'latin1' : enc); }
	function find(b, s, from) { return b.indexOf(L(s), from); }
	function wordChar(c) { return c >= 97 && c <= 122 || c >= 48 && c <= 57 || c === 95; }
	// the key=value pairs of one line, what lies between them and after them
	function parseLine(line, ydata, warn) {
		var sp = line.indexOf(' ', 2), tag = sp < 0 ? line.slice(2) : line.slice(2, sp), rest = sp < 0 ? '' : line.slice(sp + 1).trim();
		var props = new Map(), at = 0, n = rest.length;
		for (;;) {
			// next '=' preceded by a name: lower-case letters, digits and underscores, not starting with a digit
			var eq = at - 1, s;
			for (;;) {
				eq = rest.indexOf('=', eq + 1);
				if (eq < 0) break;
				for (s = eq; s > at && wordChar(rest.charCodeAt(s - 1)); s--);
				while (s < eq && rest.charCodeAt(s) >= 48 && rest.charCodeAt(s) <= 57) s++;
				if (s < eq) break;
			}
			if (eq < 0) break;
			if (s > at) warn.push('ignored_line_data');
			var key = rest.slice(s, eq), end = tag === 'begin' && key === 'name' ? n : rest.indexOf(' ', eq + 1);
			if (end < 0) end = n;
			if (props.has(key)) warn.push('duplicate_property');
			props.set(key, rest.slice(eq + 1, end));
			at = Math.min(n, end + 1);
		}
		if (at < n) warn.push('ignored_line_data');
		if (ydata.has(tag)) warn.push('duplicate_line');
		ydata.set(tag, props);
	}
	// -> {error: code} or {yencStart, dataStart?, dataEnd?, yencEnd, data?, crc?, props: Map of Map, must: [codes], may: [codes]}
	Y.parse = function(b, strip, enc) {
		var start = b.length >= 8 && b.subarray(0, 8).equals(L('=ybegin ')) ? 0 : find(b, '\r\n=ybegin ', 0);
		if (start < 0) return { error: 'no_start_found' };
		if (start || b[0] === 13) start += 2;
		var r = { yencStart: start }, warn = [], may = [], ydata = new Map(), pos = start, first = true, done = false;
		// header lines: as long as lines begin with =y
		for (;;) {
			var nl = find(b, '\r\n', first ? pos + 8 : pos);
			if (nl < 0) return { error: 'no_end_found' };
			var line = str(b.subarray(pos, nl), enc).trim();
			parseLine(line, ydata, warn);
			pos = nl + 2; first = false;
			if (line.slice(0, 6) === '=yend ') { r.yencEnd = pos; done = true; break; }
			if (!(b[pos] === 61 && b[pos + 1] === 121)) { r.dataStart = pos; break; }
		}
		if (!done) {
			var e = -1; // the last =yend line
			for (var q = find(b, '\r\n=yend ', r.dataStart); q >= 0; q = find(b, '\r\n=yend ', q + 1)) e = q;
			if (e < 0) return { error: 'no_end_found' };
			r.dataEnd = e;
			nl = find(b, '\r\n', e + 8);
			if (nl < 0) { warn.push('missing_yend_newline'); r.yencEnd = nl = b.length; } else r.yencEnd = nl + 2;
			parseLine(str(b.subarray(e + 2, nl), enc).trim(), ydata, warn);
		}
		r.props = ydata; r.must = warn; r.may = may;
		var B = ydata.get('begin') || new Map(), P = ydata.get('part'), E = ydata.get('end') || new Map();
		if (!B.get('line') || !B.get('size') || !B.has('name') || !E.get('size')) return { error: 'missing_required_properties' };
		[['begin', B, ['line', 'total', 'part', 'size']], ['part', P, ['begin', 'end']], ['end', E, ['size', 'part']]].forEach(function(t) {
			if (t[1]) t[2].forEach(function(k) {
				var v = t[1].get(k);
				if (!v) return;
				if (!/^[0-9]+$/.test(v)) warn.push('invalid_prop_' + k);
				else if (k !== 'size' && Number(v) === 0) (v === '0' ? warn : may).push('zero_prop_' + k);
			});
		});
		function num(m, k) { var v = m.get(k); return v ? Number(v) : NaN; }
		// numbers written differently (leading zeros) may or may not count as different
		function differ(a, c) { return a === c ? 0 : Number(a) === Number(c) ? 1 : 2; }
		var d = B.get('part') && E.get('part') ? differ(B.get('part'), E.get('part')) : 0, exceeds = B.get('total') && (num(B, 'total') < num(B, 'part') || num(B, 'total') < num(E, 'part'));
		if (d === 2) warn.push('part_number_mismatch');
		else if (d === 1) { may.push('part_number_mismatch'); if (exceeds) may.push('part_number_exceeds_total'); }
		else if (exceeds) warn.push('part_number_exceeds_total');
		var size = num(E, 'size');
		if (P && P.get('begin') && P.get('end')) {
			var b0 = num(P, 'begin'), b1 = num(P, 'end');
			if (b0 > b1) warn.push('invalid_part_range');
			else if (size !== b1 - b0 + 1) warn.push('size_mismatch_part_range');
			else if (b1 > num(B, 'size')) warn.push('part_range_exceeds_size');
		} else if (num(B, 'total') > 1 || num(B, 'part') > 1 || num(E, 'part') > 1) warn.push('missing_part_range');
		['pcrc32', 'crc32'].forEach(function(k) { if (E.get(k) && !/^[0-9a-fA-F]{8}$/.test(E.get(k))) warn.push('invalid_prop_' + k); });
		if (!B.get('part')) { d = differ(B.get('size'), E.get('size')); if (d === 2) warn.push('size_mismatch'); else if (d) may.push('size_mismatch'); }
		else if (num(B, 'size') < size) warn.push('size_mismatch');
		var crc = '00000000', len = 0;
		if (!done) { r.data = Y.decode(b.subarray(r.dataStart, r.dataEnd), strip); len = r.data.length; crc = Y.hex(Y.crc(r.data)); r.crc = crc; }
		if (size !== len) warn.push('data_size_mismatch');
		if (E.get('pcrc32') && E.get('pcrc32').toLowerCase() !== crc) warn.push('pcrc32_mismatch');
		if (E.get('crc32') && !P && E.get('crc32').toLowerCase() !== crc) warn.push('crc32_mismatch');
		return r;
	};
	// compare a result of from_post with the reference; returns null or what is wrong
	Y.compare = function(got, want, b) {
		if (want.error) return got instanceof Error && got.code === want.error ? null : 'expected the error ' + want.error + ', got ' + (got instanceof Error ? got.code : 'a result');
		if (got instanceof Error) return 'error ' + got.code + ' for a valid article';
		var bad = null;
		['yencStart', 'dataStart', 'dataEnd', 'yencEnd'].forEach(function(k) { if (got[k] !== want[k]) bad = bad || k + ' is ' + got[k] + ' instead of ' + want[k]; });
		if (bad) return bad;
		if (want.data ? !Buffer.isBuffer(got.data) || !got.data.equals(want.data) : got.data !== undefined) return 'data differs';
		if (want.data ? !Buffer.isBuffer(got.crc32) || got.crc32.toString('hex') !== want.crc : got.crc32 !== undefined) return 'crc32 differs';
		var tags = Object.keys(got.props);
		if (tags.length !== want.props.size) return 'props has other lines: ' + tags;
		for (var t of tags) {
			var m = want.props.get(t), ks = Object.keys(got.props[t]);
			if (!m || ks.length !== m.size) return 'props.' + t + ' differs';
			for (var k of ks) if (m.get(k) !== got.props[t][k]) return 'props.' + t + '.' + k + ' is ' + JSON.stringify(got.props[t][k]) + ' instead of ' + JSON.stringify(m.get(k));
		}
		return null;
	};
	Y.codes = function(got) { return (got.warnings || []).map(function(w) { return w.code; }); };
	// warnings: every one that must be there, and no other than those that may
	Y.compareWarnings = function(got, want) {
		if (want.error || got instanceof Error) return null;
		var c = Y.codes(got), may = want.may.slice();
		if (got.warnings !== undefined && (!Array.isArray(got.warnings) || !got.warnings.length)) return 'warnings is neither absent nor a list';
		for (var w of want.must) { var i = c.indexOf(w); if (i < 0) return 'warning ' + w + ' is missing'; c.splice(i, 1); }
		for (w of c) { i = may.indexOf(w); if (i < 0) return 'unfounded warning ' + w; may.splice(i, 1); }
		for (w of got.warnings || []) if (typeof w.message !== 'string' || !w.message) return 'a warning without message';
		return null;
	};
	return Y;
};
