'use strict';
// The project's sources compiled by clang for other processors, freestanding, around mon/cross/main.cc; run by qemu-user.
var fs = require('fs'), path = require('path'), cp = require('child_process'), B = require('./build');
var MON = path.join(B.VERIF, 'mon/cross');
// per target: clang arguments and the kernels with the flags binding.gyp gives them
var T = {
	aarch64: { qemu: 'aarch64', cc: '--target=aarch64-linux-gnu', k: { encoder_neon: '', decoder_neon64: '', crc_arm: '-march=armv8-a+crc', crc_arm_pmull: '-march=armv8-a+crc+crypto' } },
	arm: { qemu: 'arm', cc: '--target=armv7a-linux-gnueabihf -marm', k: { encoder_neon: '-mfpu=neon', decoder_neon: '-mfpu=neon', crc_arm: '-march=armv8-a+crc+nosimd', crc_arm_pmull: '-march=armv8-a+crc+crypto' } },
	riscv64: { qemu: 'riscv64', cc: '--target=riscv64-linux-gnu -march=rv64gc -mabi=lp64d', k: { encoder_rvv: '-march=rv64gcv', decoder_rvv: '-march=rv64gcv', crc_riscv: '-march=rv64gc_zbkc' } },
	riscv32: { qemu: 'riscv32', cc: '--target=riscv32-linux-gnu -march=rv32gc -mabi=ilp32d', k: { encoder_rvv: '-march=rv32gcv', decoder_rvv: '-march=rv32gcv', crc_riscv: '-march=rv32gc_zbkc' } },
	i386: { qemu: 'i386', cc: '--target=i686-linux-gnu -march=i686', k: {
		encoder_sse2: '-msse2', decoder_sse2: '-msse2', encoder_ssse3: '-mssse3', decoder_ssse3: '-mssse3', encoder_avx: '-mavx -mpopcnt', decoder_avx: '-mavx -mpopcnt',
		encoder_avx2: '-mavx2 -mpopcnt -mbmi -mbmi2 -mlzcnt', decoder_avx2: '-mavx2 -mpopcnt -mbmi -mbmi2 -mlzcnt',
		encoder_vbmi2: '-mavx512vbmi2 -mavx512vl -mavx512bw -mpopcnt -mbmi -mbmi2 -mlzcnt', decoder_vbmi2: '-mavx512vbmi2 -mavx512vl -mavx512bw -mpopcnt -mbmi -mbmi2 -mlzcnt',
		crc_folding: '-mssse3 -msse4.1 -mpclmul', crc_folding_256: '-mavx2 -mvpclmulqdq -mpclmul' } },
	i386g: { qemu: 'i386', gcc: true, cc: '-m32 -march=i686', k: null },
	s390x: { qemu: 's390x', cc: '--target=s390x-linux-gnu', k: {} },
	ppc64: { qemu: 'ppc64', cc: '--target=powerpc64-linux-gnu -mabi=elfv2', k: {} },
	ppc: { qemu: 'ppc', cc: '--target=powerpc-linux-gnu', k: {} }
};
T.i386g.k = T.i386.k;
var MODES = { o3: ['-O3'], os: ['-Os'], trap: ['-O1', '-fsanitize=undefined', '-fno-sanitize=alignment,function,vptr', '-fsanitize-trap=undefined'] };
var BASE = ['encoder', 'decoder', 'crc', 'platform'], KNOWN = /^(yencode|test_alignalloc|(encoder|decoder)_(sse2|ssse3|avx|avx2|vbmi2|neon|neon64|rvv)|crc_(folding|folding_256|arm|arm_pmull|riscv))$/;
// the parts of the C++ library that are headers only (whatever has a main processor's name in it does not matter there)
var STL = []; try { var V = cp.execFileSync('gcc', ['-dumpversion'], { encoding: 'utf8' }).trim(); STL = ['/usr/include/c++/' + V, '/usr/include/x86_64-linux-gnu/c++/' + V].filter(function(d) { return fs.existsSync(d); }); } catch (e) {}
exports.TARGETS = T;
function key() { // what of ours goes into the program
	var h = require('crypto').createHash('sha256');
	[__filename].concat(['', 'gcc', 'include', 'include/sys', 'include/asm'].reduce(function(a, d) { return a.concat(fs.readdirSync(path.join(MON, d)).map(function(f) { return path.join(MON, d, f); })); }, [])).forEach(function(f) { if (fs.statSync(f).isFile()) h.update(f + fs.readFileSync(f)); });
	return h.digest('hex').slice(0, 8);
}
// -> path of the program; rejects when this sandbox cannot build it
exports.build = function(target, mode) {
	var t = T[target], src = path.join(B.REPO, 'src');
	return B.once(path.join(B.root(), 'x-' + target + '-' + mode + '-' + key()), async function(tmp) {
		fs.mkdirSync(tmp);
		var cc = t.cc.split(' ').concat(['-fomit-frame-pointer', '-fno-exceptions', '-fno-rtti', '-fno-pic', '-fno-stack-protector', '-fno-threadsafe-statics', '-std=gnu++17'].concat(t.gcc ? ['-nostdinc', '-isystem', path.join(MON, 'gcc'), '-isystem', path.join(MON, 'include'), '-isystem', cp.execFileSync('gcc', ['-print-file-name=include'], { encoding: 'utf8' }).trim()] : ['-nostdlibinc', '-isystem', path.join(MON, 'include')], STL.reduce(function(a, d) { return a.concat('-isystem', d); }, []), ['-I' + src, '-w']));
		var units = BASE.concat(fs.readdirSync(src).filter(function(f) { return /\.cc$/.test(f); }).map(function(f) { return f.slice(0, -3); }).filter(function(f) { return BASE.indexOf(f) < 0 && !KNOWN.test(f); })).map(function(f) { return [f, '']; });
		Object.keys(t.k).forEach(function(f) { if (fs.existsSync(path.join(src, f + '.cc'))) units.push([f, t.k[f]]); });
		var work = units.map(function(u) { return cc.concat(MODES[mode].map(function(x) { return t.gcc ? x.replace(',function', '') : x; }), u[1].split(' ').filter(Boolean), ['-c', path.join(src, u[0] + '.cc'), '-o', path.join(tmp, u[0] + '.o')]); });
		work.push(cc.concat(['-O2', '-std=c++17', '-c', path.join(MON, 'main.cc'), '-o', path.join(tmp, 'yvmain.o')]));
		work.push(cc.concat(['-O2', '-std=c++17', '-fno-builtin', '-fno-tree-vectorize', '-c', path.join(MON, 'rt.cc'), '-o', path.join(tmp, 'yvrt.o')]));
		var objs = work.map(function(w) { return w[w.length - 1]; });
		await Promise.all([0, 1, 2, 3, 4, 5].map(async function() { var w; while ((w = work.shift())) await B.run(t.gcc ? 'g++' : 'clang++', w); }));
		await B.run('ld.lld', ['-static', '-z', 'norelro'].concat(objs, ['-o', path.join(tmp, 'yv')]));
		objs.forEach(function(o) { fs.rmSync(o); });
	}).then(function(d) { return path.join(d, 'yv'); });
};
// One case = one run of the program over a batch of calls, each compared with the reference.
// params: exe, argv0 (emulator command), hw (HWCAP mask), hw2, probe (riscv_hwprobe mask), per
exports.make = function(ctx) {
	var o = ctx.o, P = ctx.params, G = require('./gen')(ctx), per = P.per || 300, cases = P.cases || 60, exp = Buffer.alloc(1 << 19), fb = Buffer.alloc(32), f = new Float64Array(fb.buffer, fb.byteOffset, 4), sigb = Buffer.alloc(20);
	function head(op, a, b, c, place, n) { var h = Buffer.alloc(24); h.writeUInt32LE(op, 0); h.writeUInt32LE(a >>> 0, 4); h.writeUInt32LE(b >>> 0, 8); h.writeUInt32LE(c >>> 0, 12); h.writeUInt32LE(place >>> 0, 16); h.writeUInt32LE(n, 20); return h; }
	function place(R) { var k = R.below(4); return k === 0 ? 0x8000 : k === 1 ? 0 : R.below(2) * 0x8000 + R.below(k === 2 ? 80 : 4160); }
	function maxSize(n, ls) { return n * 2 + 66 + 2 * Math.floor(n * 2 / ls); }
	function hex(x) { return (x >>> 0).toString(16); }
	function make1(R, hi) { // -> request, and what checks the answer; hi: bits 8.. of the patterns (see gen.js) to encode or decode
		var k = hi === undefined ? R.below(20) : hi < 256 ? 0 : hi < 512 ? 6 : 10, n, src, pl = (place(R) | place(R) << 16) >>> 0;
		if (k < 6) {
			n = Math.max(1, G.len(R, 6000)); var ls = G.lineSize(R, n), col = G.col(R, ls); if (col === ls) col = 0;
			src = Buffer.alloc(n);
			if (hi === undefined) G.fillEnc(R, src, ls, col); else { n = G.MASKS + 80; ls = 100000; col = 0; src = Buffer.alloc(n); G.fillEncMasks(R, src, hi, R.pick([0, 1, 1, 2, R.below(32)])); }
			var cap = maxSize(n, ls), prof = G.profile, part = hi === undefined && R.chance(.3); // part: more text follows, as for encodeIncr
			return { what: part ? 'encode without end' : 'encode', args: { line_size: ls, column: col, n: n, place: hex(pl) }, src: src, req: head(0, ls, col, (part ? 0 : 1) | cap << 1, pl, n), sig: [ls, col, prof + (part ? 64 : 0)],
				check: function(r) {
					var len = r.u32(), ecol = r.u32(), sp = r.u32(), got = r.bytes(len), el, x = src;
					if (part) { x = Buffer.alloc(n + 1, 0x41); src.copy(x); }
					el = o.encode(x, ls, col, exp);
					if (part && exp[(el -= 1) - 1] === 10 && exp[el - 2] === 13) el -= 2; // without the byte that followed and the newline before it
					var nl = exp.subarray(0, el).lastIndexOf('\r\n'), xcol = nl < 0 ? col + el : el - nl - 2;
					if (sp) return 'wrote outside the output (' + (sp === 1 ? 'before' : 'after') + ' it)';
					if (len !== el || !o.same(got, exp, el)) return { got_len: len, expected_len: el, got: got, expected: Buffer.from(exp.subarray(0, el)) };
					if (xcol < ls ? ecol !== xcol : ecol !== ls && ecol !== ls + 1) return { column: ecol, expected_column: xcol };
				} };
		}
		if (k < 10) {
			n = Math.max(1, G.len(R, 6000)); src = Buffer.alloc(hi === undefined ? n : n = G.MASKS + 80);
			if (hi === undefined) G.fillDec(R, src, false); else { pl = 0; G.fillDecMasks(R, src, hi & 255, R.chance(.7) ? 0 : R.below(64)); }
			var raw = R.chance(.5), inp = R.chance(.25);
			return { what: 'decode', args: { stripDots: raw, in_place: inp, n: n, place: hex(pl) }, src: src, req: head(1, raw ? 1 : 0, 0, inp ? 1 : 0, pl, n), sig: [raw ? 1 : 0, 0, G.profile],
				check: function(r) {
					var len = r.u32(), sp = r.u32(), got = r.bytes(len), el = o.decode(src, raw, exp);
					if (sp) return 'wrote outside the output';
					if (len !== el || !o.same(got, exp, el)) return { got_len: len, expected_len: el, got: got, expected: Buffer.from(exp.subarray(0, el)) };
				} };
		}
		if (k < 16) {
			n = Math.max(1, G.len(R, R.chance(.3) ? 300 : 6000)); src = Buffer.alloc(hi === undefined ? n : n = G.MASKS + 80);
			if (hi === undefined) G.fillDec(R, src, false); else { pl = 0; G.fillDecMasks(R, src, hi & 255, R.chance(.7) ? 0 : R.below(64)); }
			var st = R.below(7), ip = R.chance(.25);
			return { what: 'decode_end', args: { state: st, in_place: ip, n: n, place: hex(pl) }, src: src, req: head(2, st, 0, ip ? 1 : 0, pl, n), sig: [st, 1, G.profile],
				check: function(r) {
					var ended = r.u32(), state = r.u32(), read = r.u32(), len = r.u32(), sp = r.u32(), got = r.bytes(len);
					o.decodeEnd(src, st, exp, fb);
					if (sp) return 'wrote outside the output';
					if (read !== f[0] || len !== f[1] || ended !== f[2] || (!ended && state !== f[3]) || !o.same(got, exp, len)) return { got: [read, len, ended, state, got], expected: [f[0], f[1], f[2], f[3], Buffer.from(exp.subarray(0, f[1]))] };
					ctx.count('ended_' + ended);
				} };
		}
		if (k < 18) {
			n = G.len(R, 8000); src = Buffer.alloc(n); G.fillEnc(R, src, 128, 0);
			var init = R.chance(.5) ? 0 : R.u32();
			return { what: 'crc32', args: { init: hex(init), n: n, place: hex(pl) }, src: src, req: head(3, init, 0, 0, pl, n), sig: [init, 2, 0],
				check: function(r) { var g = r.u32(), e = o.crc(src, init) >>> 0; if (g !== e) return { got: hex(g), expected: hex(e) }; } };
		}
		var a = op32(R), b = op32(R);
		if (k < 19) return { what: 'crc32_multiply', args: { a: hex(a), b: hex(b) }, src: Buffer.alloc(0), req: head(4, a, b, 0, 0, 0), sig: [a, b, 3],
			check: function(r) { var g = r.u32(), e = o.mul(a, b) >>> 0; if (g !== e) return { got: hex(g), expected: hex(e) }; } };
		var w = R.below(8), L = w < 2 ? R.below(300) : w < 4 ? R.u32() : w < 5 ? 536870911 * R.below(40) + R.below(3) : Math.floor(R.u32() / 4294967296 * Math.pow(2, R.below(54)));
		src = Buffer.alloc(8); src.writeUInt32LE(a, 0); src.writeUInt32LE(b, 4);
		return { what: 'crc32 of lengths', args: { x: hex(a), y: hex(b), length: L }, src: src, req: head(5, L % 4294967296, Math.floor(L / 4294967296), 0, pl & 0xffff, 8), sig: [a, L, 4],
			check: function(r) {
				var g = [r.u32(), r.u32(), r.u32(), r.u32(), r.u32()], e = [o.shift8(a, L) ^ b, ~o.shift8(~a >>> 0, L), ~o.shift8(~a >>> 0, -L), o.shift(a, L), o.shift(a, -L)].map(function(x) { return x >>> 0; });
				for (var i = 0; i < 5; i++) if (g[i] !== e[i]) return { function: ['combine', 'zeros', 'unzero', 'shift', 'shift back'][i], got: hex(g[i]), expected: hex(e[i]) };
			} };
	}
	function op32(R) { var k = R.below(5); return k === 0 ? R.pick([0, 1, 0x80000000, 0xffffffff, 0x40000000, 0xedb88320]) : k === 1 ? 1 << R.below(32) >>> 0 : R.u32(); }
	return function(i, R) {
		var list = [], parts = [head(100, P.hw === undefined ? -1 : P.hw, P.hw2 === undefined ? -1 : P.hw2, P.probe === undefined ? -1 : P.probe, 0, 0)];
		for (var k = 0; k < per; k++) { var q = make1(R); list.push(q); parts.push(q.req, q.src); }
		// this case's share of all the patterns of special bytes in a vector
		for (var hi = i; hi < 768; hi += cases) { q = make1(R, hi); list.push(q); parts.push(q.req, q.src); ctx.count('patterns', 256); }
		var res = cp.spawnSync(P.argv[0], P.argv.slice(1), { input: Buffer.concat(parts), maxBuffer: 1 << 28, timeout: 300000, env: { PATH: process.env.PATH } });
		ctx.progress();
		if (res.error && !/^(ETIMEDOUT|EPIPE)$/.test(res.error.code)) throw new Error('oracle: cannot run ' + P.argv[0] + ': ' + res.error.code);
		var out = res.stdout || Buffer.alloc(0), at = 0, short = false;
		var r = { u32: function() { if (at + 4 > out.length) { short = true; return 0; } at += 4; return out.readUInt32LE(at - 4); }, bytes: function(n) { if (at + n > out.length) { short = true; return Buffer.alloc(0); } at += n; return out.subarray(at - n, at); } };
		var isa = [r.u32(), r.u32(), r.u32()]; r.u32(); r.u32();
		if (r.u32() !== 0x600DF00D || short) {
			if (res.status === 3) throw new Error('oracle: no memory in the emulated program');
			ctx.fail('initialisation failed on this processor', { command: P.argv, masks: [P.hw, P.hw2, P.probe], status: res.status, signal: res.signal, stderr: String(res.stderr).slice(0, 1000) });
		}
		ctx.count('isa_encode_' + hex(isa[0]) + '_decode_' + hex(isa[1]) + '_crc_' + hex(isa[2]));
		for (k = 0; k < list.length; k++) {
			q = list[k];
			var e = short ? null : q.check(r);
			if (!short) { r.m = r.u32(); if (!short && !e && r.m !== 0x600DF00D) e = 'answer out of step'; }
			if (short) { // it ended here: everything before was flushed only in blocks, so find the request by itself
				if (res.status === 3 || res.signal === 'SIGKILL') throw new Error('oracle: emulated program ended by ' + (res.signal || 'lack of memory'));
				for (k = 0; k < list.length; k++) {
					var one = cp.spawnSync(P.argv[0], P.argv.slice(1), { input: Buffer.concat([parts[0], list[k].req, list[k].src]), maxBuffer: 1 << 28, timeout: 120000, env: { PATH: process.env.PATH } });
					ctx.progress();
					if (one.status !== 0) { q = list[k]; ctx.fail(q.what + ' ends the process: ' + (one.signal || (one.error ? String(one.error.code) : 'exit ' + one.status)), { command: P.argv, masks: [P.hw, P.hw2, P.probe], isa: isa.map(hex), args: q.args, src: q.src, stderr: String(one.stderr).slice(0, 1000) }); }
				}
				ctx.fail('a sequence of calls ends the process: ' + (res.signal || (res.error ? String(res.error.code) : 'exit ' + res.status)), { command: P.argv, masks: [P.hw, P.hw2, P.probe], isa: isa.map(hex), stderr: String(res.stderr).slice(0, 1000) });
			}
			if (e) ctx.fail(q.what + ' on ' + ctx.job.name + ' differs from the reference', { isa: isa.map(hex), args: q.args, src: q.src, difference: e });
			ctx.count('calls'); ctx.count(q.what.replace(/ /g, '_'));
			sigb.writeUInt32LE(q.sig[0] >>> 0, 0); sigb.writeUInt32LE(q.sig[1] >>> 0, 4); sigb.writeUInt32LE(q.sig[2] >>> 0, 8); sigb.writeUInt32LE(q.src.length, 12); sigb.writeUInt32LE(o.hash(q.src.subarray(0, 64), k & 0), 16);
			ctx.sig(o.hash(sigb, ctx.job.name.length + q.what.length * 64));
		}
		if (i < 2) ctx.sample({ isa: isa.map(hex), first: list[0].what, args: list[0].args });
	};
};
// jobs for a list of [target, mode, cpu, masks]; what cannot be built or run here is noted and left out
exports.jobs = async function(list, ev, cases, shards) {
	var jobs = [], built = {};
	for (var i = 0; i < list.length; i++) {
		var c = list[i], t = T[c.target], k = c.target + '-' + c.mode;
		if (!(k in built)) built[k] = exports.build(c.target, c.mode).catch(function(e) { return e; });
	}
	for (i = 0; i < list.length; i++) {
		c = list[i]; t = T[c.target]; k = c.target + '-' + c.mode;
		var exe = await built[k], name = c.target + '-' + c.mode + '-' + (c.cpu || 'any') + (c.tag ? '-' + c.tag : ''), argv = null;
		if (typeof exe === 'string') {
			var can = c.native ? [[exe]] : [];
			can.push(['qemu-' + t.qemu].concat(c.cpu ? ['-cpu', c.cpu] : [], [exe]));
			for (var a of can) { var r = cp.spawnSync(a[0], a.slice(1), { input: '', timeout: 60000 }); if (r.status === 0) { argv = a; break; } }
		}
		if (!argv) {
			ev.coverage.observed.inconclusive = (ev.coverage.observed.inconclusive || 0) + 1;
			(ev.coverage.inconclusive = ev.coverage.inconclusive || []).push(name + ': ' + (typeof exe === 'string' ? 'cannot run here' : String(exe.message).slice(0, 400)));
			continue;
		}
		jobs.push({ name: name, noload: true, cases: cases, shards: shards, stall: 360, params: { cases: cases, argv: argv, hw: c.hw, hw2: c.hw2, probe: c.probe } });
	}
	return jobs;
};
