'use strict';
// History monitor of YEncoder: random sequences of right and wrong calls against a model of its state
exports.rule = 'hash of the history (declared size and parts, size and outcome of every call) of each distinct encoder driven';
exports.assumptions = ['parts >= 1; line sizes valid'];
exports.plan = function(tier, env) {
	var q = tier === 'quick';
	return require('../lib/plan').pairs(env).map(function(e, i, all) { return { name: e.name, env: e.env, cases: (q ? 360000 : 2500000) / all.length | 0, shards: q ? 2 : 6 }; })
		.concat([{ name: 'exhaustive', cases: q ? 5 * 5 * 6 * 6 * 6 * 6 : 5 * 5 * 6 * 6 * 6 * 6 * 6, shards: q ? 2 : 8, params: { all: true, depth: q ? 4 : 5 } }]);
};
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, Y = require('../lib/yref')(o), G = require('../lib/gen')(ctx), A = require('../lib/article')(ctx, Y, G), bank = Buffer.alloc(5000);
	var BAD = [undefined, null, 5, true, {}];
	function snapshot(enc) { return JSON.stringify([enc.part, enc.pos, enc.crc.toString('hex'), enc.size, enc.parts, enc.line_size]); }
	function drive(R, size, parts, calls, ls) {
		var name = 'n', enc = y.multi_post(name, size, parts, ls), m = new Y.Encoder(name, 'utf8', size, parts, ls), hist = [];
		calls(m, function(data, junk) {
			var before = snapshot(enc), crcObj = enc.crc, crcBytes = Buffer.from(enc.crc), err = null, got;
			var want = junk ? null : m.encode(data);
			try { got = enc.encode(junk ? data.junk : data); } catch (e) { err = e; }
			hist.push((junk ? 'junk' : data.length) + (err ? '!' : ''));
			var d = { size: size, parts: parts, line_size: ls, history: hist };
			if (!want) {
				if (!err) ctx.fail('encode accepted a call it must refuse', d);
				if (!(err instanceof Error)) ctx.fail('encode threw something that is not an Error', d);
				if (snapshot(enc) !== before) ctx.fail('a refused call changed the encoder', Object.assign({ before: before, after: snapshot(enc) }, d));
				ctx.count('refused');
			} else {
				if (err) ctx.fail('encode refused a valid call: ' + err.message, d);
				if (!Buffer.isBuffer(got) || !got.equals(want)) ctx.fail('wrong article', Object.assign({ got: Buffer.isBuffer(got) ? got.toString('latin1').slice(0, 400) : got, expected: want.toString('latin1').slice(0, 400) }, d));
				ctx.count('accepted');
			}
			if (!crcObj.equals(crcBytes)) ctx.fail('a crc handed out earlier was changed', d);
			if (enc.part !== m.part || enc.pos !== m.pos || enc.crc.length !== 4 || enc.crc.readUInt32BE(0) !== m.crc) ctx.fail('part, pos or crc is wrong', Object.assign({ got: [enc.part, enc.pos, enc.crc], expected: [m.part, m.pos, Y.hex(m.crc)] }, d));
			ctx.max('history', hist.length);
		});
		ctx.sig(o.hash(Buffer.from(size + '/' + parts + ':' + hist.join()), 1));
		ctx.sample({ size: size, parts: parts, history: hist.join(' ') });
	}
	if (ctx.params.all) return function(i, R) { // every history of a few calls with sizes 0..5 for small declarations
		var size = i % 5, parts = 1 + Math.floor(i / 5) % 5, k = Math.floor(i / 25), seq = [];
		for (var j = 0; j < ctx.params.depth; j++) { seq.push(k % 6); k = Math.floor(k / 6); }
		o.gen(bank.subarray(0, 32), R.u32(), 1, 0, 0);
		drive(R, size, parts, function(m, call) { seq.forEach(function(n, j) { call(bank.subarray(j, j + n)); }); }, 128);
	};
	function cannotEncode(R) { // a line size encode refuses: every call fails, and none may leave a trace
		var size = 1 + R.below(300), parts = R.range(1, 4), ls = -R.pick([1, 2, 128, 2147483648]), enc = y.multi_post('n', size, parts, ls), before = snapshot(enc);
		for (var n = 3; n > 0; n--) {
			var err = null, l = parts > 1 ? R.range(1, size) : size;
			try { enc.encode(bank.subarray(0, l)); } catch (e) { err = e; }
			var d = { size: size, parts: parts, line_size: ls, call: 4 - n, length: l };
			if (!(err instanceof Error)) ctx.fail('encode accepted a negative line size', d);
			if (snapshot(enc) !== before) ctx.fail('a failed call changed the encoder', Object.assign({ before: before, after: snapshot(enc) }, d));
			ctx.count('cannot_encode');
		}
	}
	return function(i, R) {
		if (i % 20 === 19) cannotEncode(R);
		var parts = R.chance(.3) ? 1 : R.range(2, 6), ls = R.pick([128, 64, 1, 300]);
		o.gen(bank, R.u32(), R.u32(), R.pick([0, 3]), 60);
		var size = R.pick([0, 1, 2, 5, 40, 300, 3000]) + R.below(3);
		drive(R, size, parts, function(m, call) {
			for (var n = R.range(1, parts * 3 + 4); n > 0; n--) {
				if (R.chance(.05)) { call({ junk: R.pick(BAD) }, true); continue; }
				var left = size - m.pos, last = m.part + 1 >= parts, k = R.below(10), l;
				if (k < 5) l = last ? left : R.below(left + 1);
				else if (k < 7) l = left + R.range(1, 3); // too much
				else if (k < 8) l = Math.max(0, left - R.range(1, 3)); // too little, if last
				else if (k < 9) l = left; else l = R.below(20);
				var at = R.below(500);
				call(bank.subarray(at, at + l));
			}
		}, ls);
	};
};
