'use strict';
// ARM and RISC-V kernels, cross-compiled and run by qemu-user, against the reference
var X = require('../lib/cross');
exports.rule = 'hash of (call, arguments, source length and head, program variant) of each distinct call made in an emulated process and compared with the reference';
exports.assumptions = ['qemu-user executes the instructions as the processors do', 'clang stands for the compilers used on those processors; the C library is replaced by mon/cross'];
exports.plan = async function(tier, env, seed, ev) {
	var q = tier === 'quick', L = [];
	var NE = ~0;
	// AArch64: HWCAP bits ASIMD 2, PMULL 16, CRC32 128
	[['max'], ['max', 'nopmull', { hw: ~16 }], ['max', 'nocrc', { hw: ~(16 | 128) }], ['max', 'noasimd', { hw: ~2 }], ['max', 'pmullonly', { hw: ~128 }], ['cortex-a53'], ['cortex-a57']].forEach(function(c) { L.push(Object.assign({ target: 'aarch64', mode: 'o3', cpu: c[0], tag: c[1] }, c[2])); });
	// 32-bit ARM: HWCAP NEON 4096; HWCAP2 PMULL 2, CRC32 16
	[['max'], ['max', 'nopmull', { hw2: ~2 }], ['max', 'nocrc', { hw2: ~(2 | 16) }], ['max', 'noneon', { hw: ~4096 }], ['cortex-a7'], ['cortex-a15']].forEach(function(c) { L.push(Object.assign({ target: 'arm', mode: 'o3', cpu: c[0], tag: c[1] }, c[2])); });
	['riscv64', 'riscv32'].forEach(function(t) {
		var b = t === 'riscv64' ? 'rv64' : 'rv32';
		(q && t === 'riscv32' ? [128, 512] : [128, 256, 512, 1024]).forEach(function(v) { L.push({ target: t, mode: 'o3', cpu: b + ',v=true,vlen=' + v + ',vext_spec=v1.0,zbc=true' }); });
		L.push({ target: t, mode: 'o3', cpu: b + ',v=true,vlen=128,zbkc=true,zbc=false' }, { target: t, mode: 'o3', cpu: b + ',v=false,zbc=false,zbkc=false' }, { target: t, mode: 'o3', cpu: b + ',v=true,vlen=256,zbc=true', tag: 'noprobe', probe: -1 }, { target: t, mode: 'o3', cpu: b + ',v=true,vlen=256,zbc=true', tag: 'hidden', probe: 0 });
	});
	L.push({ target: 'aarch64', mode: 'trap', cpu: 'max' }, { target: 'arm', mode: 'trap', cpu: 'max' }, { target: 'riscv64', mode: 'trap', cpu: 'rv64,v=true,vlen=256,zbc=true' }, { target: 'riscv32', mode: 'trap', cpu: 'rv32,v=true,vlen=128,zbc=true' });
	if (!q) ['aarch64', 'arm', 'riscv64', 'riscv32'].forEach(function(t) { L.push({ target: t, mode: 'os', cpu: t === 'riscv64' ? 'rv64,v=true,vlen=128,zbc=true' : t === 'riscv32' ? 'rv32,v=true,vlen=256,zbc=true' : 'max' }); });
	// riscv_hwprobe: bit 7 Zbc, bit 9 Zbkc, as the model has them; -1: a kernel without the call
	L.forEach(function(c) { if (/^riscv/.test(c.target) && c.probe === undefined) c.probe = 0x3f | (/zbc=true/.test(c.cpu) ? 0x80 : 0) | (/zbkc=true/.test(c.cpu) ? 0x200 : 0); });
	return X.jobs(L, ev, q ? 60 : 2000, q ? 3 : 12);
};
exports.make = X.make;
