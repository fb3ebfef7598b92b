'use strict';
// worker thread of R01: calls at the very end of the stack V8 leaves to JavaScript; what remains is for native code
var W = require('worker_threads'), d = W.workerData, y = require(d.dir + '/index.js'), o = require(d.oracle), R = new (require('./rng'))(d.seed, 5, 5);
function ops(n, ls) {
	var b = Buffer.alloc(n), st = ['', '\r\n', '=', '\r'][R.below(4)], raw = R.chance(.5), out = Buffer.alloc(y.maxSize(n, ls)), c = Buffer.from([1, 2, 3, 4]);
	o.gen(b, R.u32(), R.u32(), 0, 0);
	if (R.chance(.3)) b.fill(R.pick(['\xd6', '=a', '\r\n..', 'a']), 'latin1');
	return {
		encode: function() { return y.encode(b, ls); }, encodeTo: function() { return out.subarray(0, y.encodeTo(b, out, ls)); },
		decode: function() { return y.decode(b, raw); }, decodeTo: function() { return out.subarray(0, y.decodeTo(b, out, raw)); },
		decodeChunk: function() { var r = y.decodeChunk(b, st); return r.output.subarray(0, r.written); },
		crc32: function() { return y.crc32(b, c); }, crc32_combine: function() { return y.crc32_combine(c, c, n); }, crc32_zeroes: function() { return y.crc32_zeroes(-n, c); }, crc32_shift: function() { return y.crc32_shift(n, c); }
	};
}
var done = 0, refused = 0, deepest = 0, wrong = [], sigs = [];
for (var k = 0; k < d.rounds; k++) {
	var n = R.pick([1, 100, 3000, 70000, 300000]) + R.below(900), fs = ops(n, R.pick([128, 128, 1, 20, 1000])), names = Object.keys(fs), want = {}, left = 60, depth = 0;
	names.forEach(function(f) { want[f] = o.hash(fs[f](), 1); });
	var down = function() {
		depth++;
		try { down(); }
		catch (e) {
			if (!(e instanceof RangeError)) throw e;
			deepest = Math.max(deepest, depth);
			if (left-- <= 0) throw e;
			for (var i = 0; i < names.length; i++) {
				var r = null;
				try { r = fs[names[i]](); } catch (e) { if (!(e instanceof RangeError)) { wrong.push(names[i] + ' threw ' + e.message); } else refused++; continue; }
				done++;
				var h; try { h = o.hash(r, 1); } catch (e) { continue; }
				if (h !== want[names[i]]) wrong.push(names[i] + ' of ' + n + ' bytes gave another result');
				sigs.push(h);
			}
			throw e;
		}
	};
	try { down(); } catch (e) { if (!(e instanceof RangeError)) throw e; }
	if (wrong.length) break;
}
W.parentPort.postMessage({ done: done, refused: refused, deepest: deepest, wrong: wrong.slice(0, 3), sigs: sigs });
