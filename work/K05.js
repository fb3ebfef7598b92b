'use strict';
// 32-bit x86 kernels, and the portable ones on processors of the other byte order and word size, against the reference
var X = require('../lib/cross');
exports.rule = 'hash of (call, arguments, source length and head, program variant) of each distinct call made in the 32-bit or emulated process and compared with the reference';
exports.assumptions = ['qemu-user executes the instructions as the processors do', 'clang stands for the compilers used on those processors; the C library is replaced by mon/cross'];
exports.plan = async function(tier, env, seed, ev) {
	var q = tier === 'quick', L = [];
	['i386', 'i386g'].forEach(function(t) { ['o3', 'trap', 'os'].forEach(function(m) { L.push({ target: t, mode: m, native: true, tag: 'host' }); }); });
	// CPUs without the newer instructions: an unsupported one would end the process
	['coreduo', 'core2duo', 'n270', 'Nehalem', 'phenom', 'Westmere', 'SandyBridge', 'Haswell', 'max'].forEach(function(c) { L.push({ target: 'i386', mode: 'o3', cpu: c }); });
	['s390x', 'ppc64', 'ppc'].forEach(function(t) { L.push({ target: t, mode: 'o3' }, { target: t, mode: 'trap' }); if (!q) L.push({ target: t, mode: 'os' }); });
	return X.jobs(L, ev, q ? 60 : 2000, q ? 3 : 12);
};
exports.make = X.make;
