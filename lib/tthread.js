'use strict';
// worker thread of T01
var W = require('worker_threads'), Rng = require('./rng');
function digests(dir, o, stream, calls, shared) {
	var y = require(dir + '/index.js'), stub = { o: o, count: function() {}, sig: function() {}, fail: function(w) { throw new Error(w); } };
	var place = function(R, name, n) { // private memory, or (inputs) memory all threads read at the same time
		return Buffer.allocUnsafeSlow(n + 128).subarray(64, n + 64);
	};
	var call = require('./mix')(stub, y, { place: place, max: 2500 }), R = new Rng(stream, 3, 3), out = [], h = 0;
	var huge = require('./mix')(stub, y, { place: place, big: { p: 1, min: 60000, max: calls > 100 ? 1200000 : 300000 }, kinds: ['encode', 'decode', 'chunk', 'crc', 'post', 'frompost', 'multi', 'encodeTo', 'decodeIn'] });
	for (var i = 0; i < calls; i++) {
		out.push(h = call(R, 0));
		if (i % 40 === 20) out.push(huge(R, 0));
		if (i % 8 === 0) {
			var at = R.below(20000), n = R.below(20000), b = shared.subarray(at, at + n);
			out.push(o.hash(y.crc32(b), o.hash(y.encode(b.subarray(0, 3000)), o.hash(y.decode(b, true), 0))));
		}
	}
	return out;
}
module.exports = { digests: digests };
if (!W.isMainThread && W.workerData && W.workerData.gate) {
	var d = W.workerData, o = require(d.oracle);
	if (d.pattern === 'staggered') Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, d.delay);
	else { // all threads load the module at the same moment
		if (Atomics.add(d.gate, 0, 1) + 1 === d.threads) { Atomics.store(d.gate, 1, 1); Atomics.notify(d.gate, 1); }
		else Atomics.wait(d.gate, 1, 0, 5000);
	}
	var r = digests(d.dir, o, d.stream, d.calls, Buffer.from(d.shared));
	if (d.pattern === 'reload') for (var k = 0; k < 3; k++) { // load again and again while the others work
		Object.keys(require.cache).forEach(function(f) { if (f.indexOf(d.dir) === 0) delete require.cache[f]; });
		digests(d.dir, o, d.stream + k, 20, Buffer.from(d.shared));
	}
	W.parentPort.postMessage({ digests: r });
}
