'use strict';
// Which kernels to run a workload on: the caps take effect in the interposer (mon/wrap.cc)
exports.isa = function(env) { return env.isa.map(function(x) { return { name: x, variant: 'rel', env: x === 'auto' ? {} : { YV_ISA: x } }; }).concat([{ name: 'generic', variant: 'generic', env: {} }]); };
exports.crc = function(env) { return env.crc.map(function(x) { return { name: 'crc' + x, env: x === 'auto' ? {} : { YV_CRC: x } }; }); };
// pairs covering every encoder/decoder kernel and every CRC kernel
exports.pairs = function(env) {
	var n = Math.max(env.isa.length, env.crc.length), r = [];
	for (var i = 0; i < n; i++) {
		var a = env.isa[Math.min(i, env.isa.length - 1)], c = env.crc[Math.min(i, env.crc.length - 1)], e = {};
		if (a !== 'auto') e.YV_ISA = a;
		if (c !== 'auto') e.YV_CRC = c;
		r.push({ name: a + '-crc' + c, env: e });
	}
	return r;
};
