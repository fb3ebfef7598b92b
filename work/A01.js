'use strict';
// Hostile-argument monitor: every public and native function is called with argument lists of every length drawn from a
// pool of hostile JavaScript values. Each call must return or throw an Error; what an argument list means is modelled
// independently below. All memory that is passed lies in guarded arenas which are compared before and after.
exports.rule = 'hash of (function, classes of all arguments, outcome) of each distinct argument tuple class called';
exports.assumptions = ['numbers that are not 32-bit integers, and arguments of other types where a number or boolean is expected, may be taken as any valid value or refused', 'with empty data, line size and column need not be looked at'];
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	function add(name, variant, e, n, extra) { jobs.push(Object.assign({ name: name, variant: variant, env: e, cases: n, shards: q ? 2 : 8, node: ['--expose-gc'], markMask: 0, stall: 60 }, extra)); }
	add('default', 'rel', { YV_MALLOC: 'guard' }, q ? 72000 : 400000, { shards: 8 });
	env.isa.forEach(function(i) { if (i !== 'auto') add('cap-' + i, 'rel', { YV_ISA: i, YV_CRC: String(i === 'sse2' ? 0 : 1), YV_MALLOC: 'guard' }, q ? 18000 : 100000); });
	add('generic', 'generic', { YV_CRC: '0', YV_MALLOC: 'guard' }, q ? 18000 : 100000);
	add('asan', 'asan', {}, q ? 30000 : 200000, { shards: q ? 3 : 8, noload: true, params: { asan: true } });
	add('asan_generic', 'asan_generic', { YV_CRC: '0' }, q ? 18000 : 100000, { noload: true, params: { asan: true } });
	return jobs;
};
exports.make = function(ctx) {
	var o = ctx.o, native = require(ctx.path), y, SIZE = 8192, asan = ctx.params.asan;
	if (asan) { // see M01: crc32 may read the rest of an aligned vector
		var crc0 = native.crc32;
		native.crc32 = function(b) {
			if (!ArrayBuffer.isView(b) || !b.byteLength) return crc0.apply(this, arguments);
			var c = Buffer.alloc(b.byteLength + 192, 90), v = c.subarray(64 + b.byteOffset % 64, 64 + b.byteOffset % 64 + b.byteLength);
			v.set(new Uint8Array(b.buffer, b.byteOffset, b.byteLength)); arguments[0] = v;
			return crc0.apply(this, arguments);
		};
	}
	y = ctx.y = require(ctx.dir + '/index.js');
	var arenas = [0, 1, 2, 3].map(function() { return o.guard(SIZE); }), saved = arenas.map(function(a) { return Buffer.alloc(a.length); });
	var exp = Buffer.alloc(60000), f = new Float64Array(4), fb = Buffer.from(f.buffer);
	var VIEWS = [Uint8Array, DataView, Int8Array, Uint16Array, Float64Array, Uint8ClampedArray, BigInt64Array];
	// ---- the pool. Each entry: class name, value
	var detached = Buffer.alloc(100, 1); structuredClone(detached.buffer.byteLength === 100 ? detached.buffer : (detached = Buffer.from(new ArrayBuffer(100))).buffer, { transfer: [detached.buffer] });
	var revoked = Proxy.revocable({}, {}); revoked.revoke();
	function view(R, n, ai) {
		// at most SIZE bytes, at either end of an arena or inside
		var a = arenas[ai === undefined ? R.below(4) : ai], k = R.below(3); n = Math.min(n, SIZE);
		var off = k === 0 ? a.length - n : k === 1 ? 0 : R.below(a.length - n + 1);
		if (asan && k !== 2) { // heap block with redzones
			var h = Buffer.allocUnsafeSlow(n); o.gen(h, R.u32(), R.u32(), 0, 0); return h;
		}
		if (R.chance(.85)) return a.subarray(off, off + n);
		var C = R.pick(VIEWS), bs = C.BYTES_PER_ELEMENT || 1; n -= n % bs; off -= (a.byteOffset + off) % bs; if (off < 0) off += bs; if (off + n > a.length) n -= bs;
		return new C(a.buffer, a.byteOffset + off, n / bs);
	}
	function bytes(v) { return Buffer.from(v.buffer, v.byteOffset, v.byteLength); }
	function smallView(R) { // on-heap, pooled, shared, resizable...
		switch (R.below(7)) {
		case 0: return Buffer.from('abcdefghijklmnopqrstuvwxyz'.slice(0, R.below(27)));
		case 1: return new Uint8Array(R.pick([0, 1, 3, 4, 5, 8, 64]));
		case 2: return new Uint32Array(R.pick([0, 1, 2]));
		case 3: return Buffer.from(new SharedArrayBuffer(R.pick([0, 1, 4, 100])));
		case 4: return new Uint8Array(new ArrayBuffer(R.pick([0, 4, 50]), { maxByteLength: 64 }));
		case 5: return new DataView(new ArrayBuffer(R.pick([0, 4, 8])));
		default: return detached;
		}
	}
	var INTS = [0, -0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 63, 64, 127, 128, 129, 130, 255, 256, 1000, 65535, 65536, 99999, 2147480000, 2147483647, -1, -2, -3, -64, -127, -128, -2147483647, -2147483648];
	var BIG = [2147483648, 4294967295, 4294967296, 4294967297, 4294967296 + 64, -2147483649, -4294967295, -4294967296, Math.pow(2, 53) - 1, -Math.pow(2, 53) + 1, Math.pow(2, 53), Math.pow(2, 62), Math.pow(2, 63), -Math.pow(2, 63), Math.pow(2, 64), 1e100, -1e300, Number.MAX_VALUE, Number.MIN_VALUE, Infinity, -Infinity, NaN, .5, 1.5, -0.5, -1.5, 127.99, 1e-10];
	var evil = { valueOf: function() { return -5; }, toString: function() { throw new Error('toString called'); } }, thrower = {}; Object.defineProperty(thrower, 'length', { get: function() { throw new TypeError('length getter'); } });
	var MISC = [undefined, null, true, false, '', 'a', '64', '-1', '\r\n', '=', '\r\n.', 'x'.repeat(5000), '\u20ac\ud800', {}, [], [1, 2, 3], function() {}, Symbol('s'), 5n, -5n, 1n << 200n, /x/, new Date(0), new ArrayBuffer(8), new SharedArrayBuffer(8), new Map(), evil, thrower, new Proxy({}, {}), revoked.proxy,
		Object.create(Buffer.prototype), new Proxy(Buffer.alloc(8), {}), { length: 4, 0: 1 }, { length: -1 }, { length: NaN }, { length: 0 }, Object.create(null), new Number(5), new String('abc'), new Boolean(true), Promise.resolve(), new Error('x'), globalThis, Buffer, class A {}, new WeakMap(), function*() {}(), Symbol.iterator, -0];
	function number(R) { return R.chance(.8) ? (R.chance(.5) ? R.pick(INTS) : R.range(-300, 300)) : R.pick(BIG); }
	function any(R) {
		var k = R.below(12);
		if (k < 3) return view(R, R.pick([0, 1, 2, 3, 4, 4, 5, 8, 16, 50, 64, 100, 300, 2000, 8000]));
		if (k < 4) return smallView(R);
		if (k < 7) return number(R);
		return R.pick(MISC);
	}
	function cls(v) {
		if (ArrayBuffer.isView(v)) { var l = 0; try { l = v.byteLength; } catch (e) {} return (Buffer.isBuffer(v) ? 'B' : v.constructor.name) + (l > 64 ? '+' : l); }
		if (typeof v === 'number') return v !== v ? 'nan' : Number.isInteger(v) ? (v < -2147483648 ? 'i--' : v < 0 ? 'i-' : v === 0 ? '0' : v < 129 ? 'i' : v < 2147483648 ? 'i+' : 'i++') : 'f';
		if (typeof v === 'object') { var i = MISC.indexOf(v); return 'o' + i; }
		return typeof v + (typeof v === 'string' ? Math.min(5, v.length) : typeof v === 'function' ? MISC.indexOf(v) : String(typeof v === 'symbol' ? '' : v).slice(0, 6));
	}
	function isView(v) { return ArrayBuffer.isView(v); }
	function len(v) { try { return v.byteLength; } catch (e) { return 0; } } // a detached DataView throws
	function int32(v) { return typeof v === 'number' && Number.isInteger(v) && v >= -2147483648 && v <= 2147483647; }
	function int53(v) { return typeof v === 'number' && Number.isSafeInteger(v); }
	function crcView(v) { return isView(v) && len(v) === 4; }
	function u4(v) { return bytes(v).readUInt32BE(0); }
	var THROW = 'throw', ANY = 'any';
	function maxSz(n, ls) { return 2 * n + 2 * Math.floor(2 * n / ls) + 2; } // of the bytes really written
	// line size and column from args[i], args[i+1]: THROW, ANY or {ls, col}
	function lineArgs(a, i) {
		var ls = 128, col = 0, loose = false;
		if (a.length > i) { if (int32(a[i])) { if (a[i] < 0) return THROW; ls = a[i] || 128; } else loose = true; }
		if (a.length > i + 1) { if (int32(a[i + 1])) { if (a[i + 1] < 0) return THROW; if (!loose && a[i + 1] > ls) return THROW; col = a[i + 1]; } else loose = true; }
		return loose ? ANY : { ls: ls, col: col === ls ? 0 : col };
	}
	// what each native function makes of its arguments; data is the content of args[0] before the call
	function isBuf(r) { return Buffer.isBuffer(r); }
	function crcIs(v) { return function(r) { return isBuf(r) && r.length === 4 && r.readUInt32BE(0) === v; }; }
	function encoded(r, l, data, la, what) { // r holds l encoded bytes
		if (la === ANY) { var d = y.decode(Buffer.from(r.subarray(0, l))); return l >= data.length && d.equals(data); }
		var el = o.encode(data, la.ls, la.col, exp);
		return l === el && o.same(r, exp, el);
	}
	var MODEL = {
		encode: function(a, data) {
			if (!isView(a[0])) return THROW;
			if (!data.length) return { ok: function(r) { return isBuf(r) && r.length === 0; }, mayThrow: true };
			var la = lineArgs(a, 1); if (la === THROW) return THROW;
			return { ok: function(r) { return isBuf(r) && encoded(r, r.length, data, la); }, mayThrow: la === ANY };
		},
		encodeTo: function(a, data) {
			if (!isView(a[0]) || !isView(a[1])) return THROW;
			if (!data.length) return { ok: function(r) { return r === 0; }, mayThrow: true };
			var la = lineArgs(a, 2); if (la === THROW) return THROW;
			if (la !== ANY && len(a[1]) < maxSz(data.length, la.ls)) return THROW;
			if (len(a[1]) < 2 * data.length) return THROW;
			return { out: a[1], overlap: true, ok: function(r) { return Number.isInteger(r) && r >= data.length && r <= len(a[1]) && encoded(bytes(a[1]), r, data, la); }, mayThrow: la === ANY || len(a[1]) < y.maxSize(data.length, la.ls) };
		},
		encodeIncr: function(a, data) {
			if (!isView(a[0])) return THROW;
			var dst = isView(a[1]) ? a[1] : null, la = lineArgs(a, dst ? 2 : 1);
			if (!data.length) return { ok: function(r) { return r && r.written === 0; }, mayThrow: true };
			if (la === THROW) return THROW;
			if (dst && len(dst) < 2 * data.length) return THROW;
			return { out: dst, overlap: true, ok: function(r) { return r && Number.isInteger(r.written) && r.written >= data.length && Number.isInteger(r.col) && r.col >= 0 && (dst ? r.output === undefined && r.written <= len(dst) : isBuf(r.output) && r.output.length === r.written); }, mayThrow: la === ANY || !!dst && len(dst) < y.maxSize(data.length, la.ls) };
		},
		decode: function(a, data) {
			if (!isView(a[0])) return THROW;
			return { ok: function(r) { return isBuf(r) && decoded(r, r.length, data, a[1]); } };
		},
		decodeTo: function(a, data) {
			if (!isView(a[0]) || !isView(a[1])) return THROW;
			if (!data.length) return { ok: function(r) { return r === 0; }, mayThrow: true };
			if (len(a[1]) < data.length) return THROW;
			return { out: a[1], ok: function(r) { return Number.isInteger(r) && decoded(bytes(a[1]), r, data, a[2]); } };
		},
		decodeIncr: function(a, data) {
			if (!isView(a[0])) return THROW;
			if (!data.length) return { ok: function(r) { return r === undefined; }, mayThrow: true };
			var dst = a.length > 2 && isView(a[2]) ? a[2] : null;
			if (dst && len(dst) < data.length) return THROW;
			var st = a.length < 2 ? 0 : int32(a[1]) && a[1] >= 0 && a[1] <= 6 ? a[1] : -1;
			if (st < 0 && int32(a[1])) return { out: dst, ok: function(r) { return !!r; }, mayThrow: true };
			return { out: dst, mayThrow: st < 0, ok: function(r) {
				if (!r || (dst ? r.output !== undefined : !isBuf(r.output) || r.output.length !== r.written)) return false;
				if (st < 0) return r.read >= 0 && r.read <= data.length && r.written >= 0 && r.written <= r.read;
				o.decodeEnd(data, st, exp, fb);
				return r.read === f[0] && r.written === f[1] && r.ended === f[2] && (r.ended || r.state === f[3]) && o.same(dst ? bytes(dst) : r.output, exp, f[1]);
			} };
		},
		crc32: function(a, data) {
			if (!isView(a[0]) || a.length > 1 && !crcView(a[1])) return THROW;
			return { ok: crcIs(o.crc(data, a.length > 1 ? u4(a[1]) : 0)) };
		},
		crc32_combine: function(a) {
			if (a.length < 3 || !crcView(a[0]) || !crcView(a[1])) return THROW;
			if (!int53(a[2]) || a[2] < 0) return { ok: crcAny, mayThrow: true };
			return { ok: crcIs((o.shift8(u4(a[0]), a[2]) ^ u4(a[1])) >>> 0) };
		},
		crc32_zeroes: function(a) {
			if (a.length < 1 || a.length > 1 && !crcView(a[1])) return THROW;
			if (!int53(a[0])) return { ok: crcAny, mayThrow: true };
			return { ok: crcIs(~o.shift8(~(a.length > 1 ? u4(a[1]) : 0) >>> 0, a[0]) >>> 0) };
		},
		crc32_multiply: function(a) {
			if (a.length < 2 || !crcView(a[0]) || !crcView(a[1])) return THROW;
			return { ok: crcIs(o.mul(u4(a[0]), u4(a[1]))) };
		},
		crc32_shift: function(a) {
			if (a.length < 1 || a.length > 1 && !crcView(a[1])) return THROW;
			if (!int53(a[0])) return { ok: crcAny, mayThrow: true };
			return { ok: crcIs(o.shift(a.length > 1 ? u4(a[1]) : 0x80000000, a[0])) };
		},
		decodeChunk: function(a, data) {
			if (!isView(a[0])) return { ok: function(r) { return r && r.read === 0 && r.written === 0 && r.ended === false; }, mayThrow: true };
			var i = Buffer.isBuffer(a[1]) ? 1 : Buffer.isBuffer(a[2]) ? 2 : 0, st = i === 1 ? a[2] : a[1];
			if (!data.length) return { ok: function(r) { return r && r.read === 0 && r.written === 0 && r.ended === false; }, mayThrow: true };
			if (i && !isView(a[i])) return { ok: function(r) { return r && typeof r.read === 'number'; }, mayThrow: true }; // only looks like a Buffer
			if (i && len(a[i]) < data.length) return THROW;
			return { out: i ? a[i] : null, ok: function(r) { return r && typeof r.read === 'number' && r.read > 0 && r.read <= data.length && r.written >= 0 && r.written <= r.read && typeof r.ended === 'boolean' && typeof r.state === 'string' && isView(r.output); }, mayThrow: [a[1], a[2]].some(function(v) { return typeof v !== 'string' && v !== null && v !== undefined && !(Buffer.isBuffer(v) && isView(v)); }) };
		},
		minSize: function() { return { ok: function(r) { return typeof r === 'number' || typeof r === 'string' || r === undefined; }, mayThrow: true }; },
		maxSize: function() { return { ok: function(r) { return typeof r === 'number' || typeof r === 'string' || r === undefined; }, mayThrow: true }; },
		post: function(a, data) {
			return { ok: isBuf, mayThrow: true, must: typeof a[0] !== 'string' && !(a[0] instanceof String) || int32(a[2]) && a[2] < 0 && isView(a[1]) && a[1].length > 0 && len(a[1]) > 0 };
		},
		multi_post: function(a) {
			return { ok: function(r) { return r && typeof r.encode === 'function'; }, mayThrow: true, must: typeof a[0] !== 'string' && !(a[0] instanceof String) };
		},
		from_post: function(a, data) {
			if (!Buffer.isBuffer(a[0]) || !isView(a[0])) return THROW;
			return { ok: function(r) { return r instanceof Error ? typeof r.code === 'string' : r && typeof r.yencStart === 'number'; }, mayThrow: !data.length }; // (detached)
		}
	};
	function crcAny(r) { return isBuf(r) && r.length === 4; }
	function decoded(r, l, data, raw) {
		var el = o.decode(data, raw === true, exp);
		if (l === el && o.same(r, exp, el)) return true;
		if (typeof raw === 'boolean' || raw === undefined) return false;
		el = o.decode(data, raw !== true, exp);
		return l === el && o.same(r, exp, el);
	}
	var NATIVE = Object.keys(MODEL).filter(function(k) { return typeof native[k] === 'function'; }), PUBLIC = Object.keys(MODEL).filter(function(k) { return typeof y[k] === 'function'; });
	// argument lists near the intended ones, so that one odd value at a time is tried as well
	function nearly(R, name) {
		var n = R.pick([1, 2, 3, 15, 16, 17, 31, 33, 64, 100, 128, 129, 300, 1000, 2500]), a;
		function crc() { return R.chance(.9) ? view(R, 4) : view(R, R.pick([0, 3, 5, 8])); }
		function src() { var v = view(R, n, 0); return v; }
		function dst(m) { return view(R, Math.max(0, m + R.pick([0, 0, 1, -1, 100, -40, -100, -n])), R.chance(.95) ? 1 : undefined); }
		var ls = R.chance(.5) ? R.range(1, 300) : number(R), col = R.chance(.5) ? R.below(Math.min(300, Math.abs(ls) + 2)) : number(R);
		switch (name) {
		case 'encode': a = [src(), ls, col]; break;
		case 'encodeTo': a = [src(), dst(y.maxSize(n, Math.abs(ls) || 128) || 0), ls, col]; break;
		case 'encodeIncr': a = R.chance(.5) ? [src(), dst(y.maxSize(n, Math.abs(ls) || 128) || 0), ls, col] : [src(), ls, col]; break;
		case 'decode': a = [src(), R.pick([true, false])]; break;
		case 'decodeTo': a = [src(), dst(n), R.pick([true, false])]; if (R.chance(.1)) a[1] = a[0]; break;
		case 'decodeIncr': a = [src(), R.range(-1, 8), dst(n)]; break;
		case 'decodeChunk': a = R.chance(.5) ? [src(), R.pick(['\r\n', '', '=', null, 'zz\r\n.=', '\r\n=y', '\r\n.\r\n', 'y']), dst(n)] : [src(), dst(n), R.pick(['\r\n', '', '=', null, undefined, '\r\n.'])]; break;
		case 'crc32': a = [src(), crc()]; break;
		case 'crc32_combine': a = [crc(), crc(), number(R)]; break;
		case 'crc32_zeroes': case 'crc32_shift': a = [number(R), crc()]; break;
		case 'crc32_multiply': a = [crc(), crc()]; break;
		case 'post': a = ['name', src(), ls]; break;
		case 'multi_post': a = ['name', number(R), number(R), ls]; break;
		case 'from_post': a = [src(), R.pick([true, false])]; break;
		default: a = [number(R), number(R), R.u32() / 4294967296];
		}
		a.length = R.chance(.75) ? a.length : R.below(a.length + 1);
		if (R.chance(.3) && a.length) a[R.below(a.length)] = any(R);
		if (R.chance(.05)) a.push(any(R));
		return a;
	}
	function small(v) { return typeof v !== 'number' || v < 1e6; }
	return function(i, R) {
		arenas.forEach(function(a) { o.gen(a, R.u32(), R.u32(), R.pick([0, 8, 9]), R.u32()); });
		for (var k = 0; k < 8; k++) {
			var pub = R.chance(.5), name = R.pick(pub ? PUBLIC : NATIVE), a;
			if (R.chance(.7)) a = nearly(R, name); else { a = []; for (var m = R.below(6); m > 0; m--) a.push(any(R)); }
			// not for post: array-likes of absurd length are Buffer.from's business
			if (pub && y[name] !== native[name] && a.some(function(v) { return v === revoked.proxy || v === globalThis; })) a = a.map(function(v) { return v === revoked.proxy || v === globalThis ? null : v; });
			var fn = pub ? y[name] : native[name], isV = isView(a[0]), data = isV && len(a[0]) ? Buffer.from(bytes(a[0])) : Buffer.alloc(0), c = a.map(cls).join(',');
			var m0 = MODEL[name](a, data), heap = a.filter(function(v) { return isView(v) && len(v) && !arenas.some(function(x) { return x.buffer === v.buffer; }); }), hs = heap.map(function(v) { return Buffer.from(bytes(v)); });
			var arg = a.slice();
			arenas.forEach(function(x, j) { x.copy(saved[j]); });
			var r, err = null, threw = false, how = R.below(12);
			try { r = how === 0 ? fn.apply(R.pick([null, undefined, 5, {}, y, 'x']), a) : how === 1 && name !== 'crc32' ? Reflect.apply(fn, R.pick([native, Symbol.prototype]), a) : fn.apply(y, a); } catch (e) { threw = true; err = e; }
			ctx.count(threw ? 'threw' : 'returned'); ctx.count('call_' + name);
			function bad(what) { ctx.fail(name + ' ' + what, { via: pub ? 'index.js' : 'native', args: arg.map(function(v) { return isView(v) ? cls(v) : typeof v === 'symbol' || typeof v === 'bigint' ? String(v) : typeof v === 'function' ? 'function' : v === revoked.proxy || v === globalThis ? 'object' : v === thrower ? 'thrower' : typeof v === 'number' ? String(v) : v; }), result: threw ? String(err && err.message) : r }); }
			if (threw && !(err instanceof Error)) bad('threw something that is not an Error');
			if (m0 === THROW ? !threw : m0.must && !threw) bad('accepted invalid arguments');
			if (threw && m0 !== THROW && !m0.mayThrow && !m0.must) bad('refused valid arguments');
			// what may have changed: nothing if it threw, else the output only
			var out = threw || m0 === THROW ? null : m0.out;
			arenas.forEach(function(x, j) {
				if (out && out.buffer === x.buffer) {
					var b0 = out.byteOffset - x.byteOffset, b1 = b0 + len(out);
					if (!o.same(x, saved[j], b0) || !o.same(x.subarray(b1), saved[j].subarray(b1), x.length - b1)) bad('modified memory around its output');
				} else if (!o.same(x, saved[j], x.length)) bad(threw ? 'threw, but modified a Buffer' : 'modified a Buffer that is not its output');
			});
			heap.forEach(function(v, j) { if (!(out && out.buffer === v.buffer) && !o.same(bytes(v), hs[j], hs[j].length)) bad(threw ? 'threw, but modified a Buffer' : 'modified a Buffer that is not its output'); });
			if (!threw && m0 !== THROW) {
				var over = m0.overlap && out && isV && out.buffer === a[0].buffer && out.byteOffset < a[0].byteOffset + data.length && a[0].byteOffset < out.byteOffset + len(out);
				// source and output overlapping is only defined for in-situ decoding
				var part = out && isV && !m0.overlap && out.buffer === a[0].buffer && out.byteOffset !== a[0].byteOffset && out.byteOffset < a[0].byteOffset + data.length && a[0].byteOffset < out.byteOffset + len(out);
				if (!over && !part && !m0.ok(r)) bad('returned something undocumented');
			}
			if (threw) ctx.count(m0 === THROW ? 'refused_as_required' : 'refused_optional');
			ctx.sig(o.hash(Buffer.from(name + pub + c + threw), 1));
			ctx.sample({ call: name, args: c, threw: threw ? String(err.message) : false });
		}
		if (i % 4 === 0) sneak(R);
		if (!(i & 255)) ctx.gc();
	};
	// memory of an argument that goes away while a later argument is looked at (pages behind a shrunk ArrayBuffer cannot be accessed)
	function sneak(R) {
		var pub = R.chance(.5), name = R.pick(pub ? PUBLIC : NATIVE), rab = new ArrayBuffer(300000, { maxByteLength: 300000 }), whole = new Uint8Array(rab), hit = 0, two = R.chance(.5);
		whole.fill(R.pick([97, 61, 13, 214]));
		function go() { if (!hit++) { if (two && rab.resize) rab.resize(R.pick([0, 0, 1, 4096])); else structuredClone(rab, { transfer: [rab] }); } }
		var v = R.pick([64, 128, 1, 0, 4, '\r\n', '64']), obj = R.pick([{ valueOf: function() { go(); return v; }, toString: function() { go(); return String(v); } }, { [Symbol.toPrimitive]: function() { go(); return v; } }, new Proxy({}, { get: function(t, k) { go(); return k === Symbol.toPrimitive ? function() { return v; } : undefined; } })]);
		var n = R.pick([5000, 60000, 100000]), in0 = R.chance(.5) ? whole.subarray(0, n) : Buffer.from(rab, R.below(64), n), in1 = R.chance(.6) ? Buffer.from(rab, n, 300000 - n) : Buffer.alloc(y.maxSize(n, 1)), a;
		switch (name) {
		case 'crc32': a = [in0, R.pick([in1.subarray(0, 4), obj])]; break;
		case 'crc32_combine': a = [in0.subarray(0, 4), in1.subarray(0, 4), obj]; break;
		case 'crc32_multiply': a = [in0.subarray(0, 4), obj]; break;
		case 'crc32_zeroes': case 'crc32_shift': a = [obj, in0.subarray(0, 4)]; break;
		case 'post': a = R.chance(.5) ? ['name', Buffer.from(in0.buffer, in0.byteOffset, n), obj] : [obj, in0]; break;
		case 'multi_post': a = ['name', obj, obj, obj]; break;
		case 'encodeTo': a = [in0, in1, obj, R.pick([obj, 0])]; break;
		case 'decodeTo': a = [in0, in1, obj]; break;
		case 'decodeIncr': a = [in0, obj, in1]; break;
		case 'decodeChunk': a = R.chance(.5) ? [in0, in1, obj] : [in0, obj, in1]; break;
		case 'encodeIncr': a = R.chance(.5) ? [in0, in1, obj, obj] : [in0, obj, obj]; break;
		default: a = [in0, obj, obj];
		}
		var err = null;
		try { var r = (pub ? y[name] : native[name]).apply(y, a); if (name === 'multi_post') r.encode(Buffer.from(in0.buffer, in0.byteOffset, n)); } catch (e) { err = e; }
		ctx.count('vanishing_arguments'); if (hit) ctx.count('vanished_during_the_call');
		if (err && !(err instanceof Error)) ctx.fail(name + ' threw something that is not an Error', { vanishing: true });
		ctx.sig(o.hash(Buffer.from('v' + name + pub + a.map(cls).join() + !!err + hit), 1));
	}
};
