'use strict';
// worker thread of M03: holds results, checks them, and ends in the manner asked for
var W = require('worker_threads'), d = W.workerData, Rng = require('./rng');
var o = require(d.oracle), y = require(d.dir + '/index.js'), R = new Rng(d.seed, 1, 1), held = [], prof = 0;
for (var i = 0; i < d.calls; i++) {
	var n = R.below(3000), src = Buffer.alloc(n); o.gen(src, R.u32(), R.u32(), R.pick([0, 8, 9]), 20 | 20 << 8);
	var b = R.chance(.4) ? y.encode(src) : R.chance(.5) ? y.decode(src, true) : y.decodeChunk(src, null).output;
	if (b.length) held.push([b, o.hash(b, 1)]);
	if (held.length > 60) held.splice(R.below(60), 1);
	if (i % 97 === 0) held.forEach(function(h) { if (o.hash(h[0], 1) !== h[1]) W.parentPort.postMessage({ bad: 'a returned Buffer changed later' }); });
}
W.parentPort.postMessage({ ready: true });
if (d.end === 'exit') process.exit(0);
if (d.end === 'throw') throw new Error('planned');
if (d.end === 'terminate') for (;;) { held.forEach(function(h) { if (o.hash(h[0], 1) !== h[1]) W.parentPort.postMessage({ bad: 'a returned Buffer changed later' }); }); y.encode(held[0][0]); }
