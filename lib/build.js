'use strict';
// Builds the addon from /repo's current working tree, in a scratch directory, in the requested variants.
// Every build goes through the project's own binding.gyp (node-gyp), so the flags of each kernel are the project's.
var fs = require('fs'), path = require('path'), cp = require('child_process'), crypto = require('crypto'), os = require('os');
var REPO = process.env.YV_REPO || '/repo', VERIF = path.resolve(__dirname, '..');
var GYP = '/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js';
var CACHE = process.env.YV_CACHE || path.join(VERIF, '.cache');

var WRAP_MALLOC = ['malloc', 'realloc', 'free', 'calloc', 'posix_memalign', 'aligned_alloc'].map(function(s) { return '-Wl,--wrap=' + s; }).join(' ');
var WRAP_ISA = '-Wl,--wrap=_ZN9RapidYenc16cpu_supports_isaEv -Wl,--wrap=_ZN9RapidYenc20cpu_supports_crc_isaEv';
var WRAP_INIT = '-Wl,--wrap=_ZN9RapidYenc12encoder_initEv -Wl,--wrap=_ZN9RapidYenc12decoder_initEv';
var SAN = '-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment -g1';
// hardening builds assertions of the C++ library in too; alignment: unaligned word access is by design
var VARIANTS = {
	rel: { gyp: ['--enable_native_tuning=0'], wrap: ['isa', 'malloc'] },
	generic: { gyp: ['--enable_native_tuning=0'], wrap: ['isa', 'malloc', 'init'] }, // encoder and decoder initialisation left out: the portable kernels
	asan: { gyp: ['--enable_native_tuning=0'], wrap: ['isa'], cxx: SAN, ld: '-fsanitize=address,undefined' },
	native: { gyp: ['--enable_native_tuning=1'], wrap: ['isa'] },
	noavx256: { gyp: ['--enable_native_tuning=0', '--disable_avx256=1'], wrap: ['isa'] },
	nocrcutil: { gyp: ['--enable_native_tuning=0', '--disable_crcutil=1'], wrap: ['isa', 'malloc'] },
	both: { gyp: ['--enable_native_tuning=0', '--disable_crcutil=1', '--disable_avx256=1'], wrap: ['isa'] },
	clang: { gyp: ['--enable_native_tuning=0'], wrap: ['isa'], CC: 'clang', CXX: 'clang++' },
	o0: { gyp: ['--enable_native_tuning=0'], wrap: ['isa'], cxxpost: '-O0' },
	o2: { gyp: ['--enable_native_tuning=0'], wrap: ['isa'], cxxpost: '-O2 -fno-strict-aliasing' },
	asan_nocrcutil: { gyp: ['--enable_native_tuning=0', '--disable_crcutil=1'], wrap: ['isa'], cxx: SAN, ld: '-fsanitize=address,undefined' },
	asan_generic: { gyp: ['--enable_native_tuning=0'], wrap: ['isa', 'init'], cxx: SAN, ld: '-fsanitize=address,undefined' },
	asan_clang: { gyp: ['--enable_native_tuning=0'], wrap: ['isa'], CC: 'clang', CXX: 'clang++', cxx: SAN + ' -fno-sanitize=function,vptr -shared-libasan', ld: '-fsanitize=address,undefined -shared-libasan' },
	asan_native: { gyp: ['--enable_native_tuning=1'], wrap: ['isa'], cxx: SAN, ld: '-fsanitize=address,undefined' },
	asan_noavx256: { gyp: ['--enable_native_tuning=0', '--disable_avx256=1'], wrap: ['isa'], cxx: SAN, ld: '-fsanitize=address,undefined' },
	cpuid: { gyp: ['--enable_native_tuning=0'], wrap: ['cpuid'], asm: true }, // CPUID answers under our control
	cpuid_clang: { gyp: ['--enable_native_tuning=0'], wrap: ['cpuid'], asm: true, CC: 'clang', CXX: 'clang++' },
	tsan: { gyp: ['--enable_native_tuning=0'], wrap: ['isa'], cxx: '-fsanitize=thread -g1', ld: '-fsanitize=thread' },
	tsan_nocrcutil: { gyp: ['--enable_native_tuning=0', '--disable_crcutil=1'], wrap: ['isa'], cxx: '-fsanitize=thread -g1', ld: '-fsanitize=thread' },
};
VARIANTS.asan_skx = Object.assign({}, VARIANTS.asan_native, { march: 'skylake-avx512' });
VARIANTS.asan_skx_noavx256 = Object.assign({}, VARIANTS.asan_skx, { gyp: ['--enable_native_tuning=1', '--disable_avx256=1'] });
VARIANTS.asan_hsw = Object.assign({}, VARIANTS.asan_native, { march: 'haswell' });
// -march=X in place of -march=native, with the code paths of native tuning
['x86-64', 'x86-64-v2', 'nehalem', 'sandybridge', 'haswell', 'znver1', 'skylake-avx512', 'icelake-server', 'znver4'].forEach(function(m) {
	VARIANTS['native:' + m] = { gyp: ['--enable_native_tuning=1'], wrap: ['isa'], march: m };
	VARIANTS['native:' + m + ':noavx256'] = { gyp: ['--enable_native_tuning=1', '--disable_avx256=1'], wrap: ['isa'], march: m };
});

function listFiles() {
	// the working tree as it is: everything the build can use, not build output or history
	var out = [];
	(function walk(d) {
		fs.readdirSync(path.join(REPO, d)).sort().forEach(function(f) {
			var rel = d ? d + '/' + f : f;
			if (!d && /^(build|_build|\.git|node_modules)$/.test(f)) return;
			var st = fs.lstatSync(path.join(REPO, rel));
			if (st.isDirectory()) walk(rel);
			else if (st.isFile()) out.push(rel);
		});
	})('');
	return out;
}
var _key;
function treeHash() {
	if (_key) return _key;
	var h = crypto.createHash('sha256');
	listFiles().forEach(function(f) { h.update(f + '\0'); h.update(fs.readFileSync(path.join(REPO, f))); h.update('\0'); });
	['mon/wrap.cc', 'mon/stats.h', 'mon/oracle.cc', 'mon/ref.h', 'lib/build.js'].forEach(function(f) { h.update(fs.readFileSync(path.join(VERIF, f))); });
	h.update(process.version);
	h.update(fs.readFileSync('/proc/cpuinfo', 'utf8').match(/^flags.*$/m)[0]);
	return _key = h.digest('hex').slice(0, 20);
}
function run(cmd, args, opt) {
	return new Promise(function(res, rej) {
		var log = '';
		var c = cp.spawn(cmd, args, Object.assign({ stdio: ['ignore', 'pipe', 'pipe'] }, opt));
		c.stdout.on('data', function(d) { log += d; }); c.stderr.on('data', function(d) { log += d; });
		c.on('error', rej);
		c.on('close', function(code) { code ? rej(new Error(cmd + ' ' + args.join(' ') + ' exited with ' + code + '\n' + log.slice(-6000))) : res(log); });
	});
}
function root() {
	var d = path.join(CACHE, treeHash());
	if (!fs.existsSync(d)) {
		// drop results of older trees, they are never used again (unless another run still uses them: at most an hour old)
		try { fs.readdirSync(CACHE).forEach(function(f) { var p = path.join(CACHE, f); if (Date.now() - fs.statSync(p).mtimeMs > 3600e3) fs.rmSync(p, { recursive: true, force: true }); }); } catch (e) {}
		fs.mkdirSync(d, { recursive: true });
	}
	return d;
}
function once(file, make) { // make(tmp) then rename: concurrent runs cannot see half a result
	if (fs.existsSync(file)) return Promise.resolve(file);
	var tmp = file + '.tmp' + process.pid + '.' + Math.random().toString(36).slice(2);
	return Promise.resolve(make(tmp)).then(function() {
		try { fs.renameSync(tmp, file); } catch (e) { if (!fs.existsSync(file)) throw e; fs.rmSync(tmp, { recursive: true, force: true }); }
		return file;
	});
}
function oracle() {
	return once(path.join(root(), 'oracle.node'), function(tmp) {
		return run('g++', ['-O2', '-w', '-shared', '-fPIC', '-I/usr/include/node', path.join(VERIF, 'mon/oracle.cc'), '-o', tmp, '-ldl']);
	});
}
var jobs = Math.max(2, Math.min(16, os.cpus().length));
function variant(name) { // -> directory with index.js and build/Release/yencode.node
	var v = VARIANTS[name];
	if (!v) throw new Error('unknown variant ' + name);
	return once(path.join(root(), name.replace(/:/g, '_')), function(tmp) {
		listFiles().forEach(function(f) {
			if (/^test\//.test(f)) return;
			var t = path.join(tmp, f);
			fs.mkdirSync(path.dirname(t), { recursive: true });
			fs.copyFileSync(path.join(REPO, f), t);
		});
		var env = { PATH: '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME: process.env.HOME || '/root',
			CC: v.CC || 'gcc', CXX: v.CXX || 'g++', npm_config_offline: 'true', npm_config_update_notifier: 'false' };
		var flags = v.cxx || '', ld = v.ld || '';
		fs.mkdirSync(path.join(tmp, 'yv'));
		var p = Promise.resolve();
		if (v.wrap.length) {
			var o = path.join(tmp, 'yv', 'wrap.o');
			p = run('g++', ['-O2', '-w', '-fPIC', '-c', path.join(VERIF, 'mon/wrap.cc'), '-o', o].concat(v.wrap.map(function(w) { return '-DYV_WRAP_' + w.toUpperCase(); })));
			// a build in which a wrapped function no longer exists must still link: see below
			ld += ' ' + o + ' ' + (v.wrap.indexOf('isa') >= 0 ? WRAP_ISA : '') + ' ' + (v.wrap.indexOf('malloc') >= 0 ? WRAP_MALLOC : '') + ' ' + (v.wrap.indexOf('init') >= 0 ? WRAP_INIT : '');
		}
		if (v.asm) { // compile through assembly, with every CPUID/XGETBV instruction replaced by a call
			['CC', 'CXX'].forEach(function(k) {
				var w = path.join(tmp, 'yv', k);
				fs.writeFileSync(w, '#!/bin/bash\nc=0; n=""; o=""; prev=""\nfor x in "$@"; do\n[ "$x" = -c ] && c=1\n[ "$prev" = -o ] && o="$x"\nprev="$x"\ndone\nif [ $c = 0 ] || [ -z "$o" ]; then exec ' + env[k] + ' "$@"; fi\n' +
					'a=(); for x in "$@"; do [ "$x" = -c ] && x=-S; [ "$x" = "$o" ] && x="$o.s"; a+=("$x"); done\n' +
					env[k] + ' "${a[@]}" -mno-red-zone || exit 1\n' +
					"sed -i -E 's/^([ \\t]*)cpuid([ \\t]*(#.*)?)$/\\1call yv_cpuid_stub/; s/^([ \\t]*)xgetbv([ \\t]*(#.*)?)$/\\1call yv_xgetbv_stub/' \"$o.s\"\n" +
					'exec ' + env[k] + ' -c "$o.s" -o "$o"\n', { mode: 0o755 });
				env[k] = w;
			});
		}
		if (v.march || v.cxxpost) { // wrapper scripts: change -march=native, or override -O3, on the real command line
			['CC', 'CXX'].forEach(function(k) {
				var w = path.join(tmp, 'yv', k);
				fs.writeFileSync(w, '#!/bin/bash\na=()\nfor x in "$@"; do\n' + (v.march ? '[ "$x" = -march=native ] && x=-march=' + v.march + '\n' : '') + 'a+=("$x")\ndone\n' + 'exec ' + env[k] + ' "${a[@]}" ' + (v.cxxpost || '') + '\n', { mode: 0o755 });
				env[k] = w;
			});
		}
		if (flags) { env.CFLAGS = flags; env.CXXFLAGS = flags; }
		return p.then(function() {
			function go(e) { return run(process.execPath, [GYP, 'configure', 'build', '--nodedir=/usr', '-j', String(jobs)].concat(v.gyp), { cwd: tmp, env: e }); }
			env.LDFLAGS = ld.trim();
			return go(env).then(function(log) {
				if (v.wrap.indexOf('isa') < 0) return log;
				var und = cp.spawnSync('nm', ['-D', '--undefined-only', path.join(tmp, 'build/Release/yencode.node')], { encoding: 'utf8' }).stdout || '';
				if (und.indexOf('__real__ZN') < 0) return log;
				var o = path.join(tmp, 'yv', 'wrap.o'); // detection functions renamed or inlined: do without the cap
				fs.rmSync(path.join(tmp, 'build/Release/yencode.node')); fs.rmSync(path.join(tmp, 'build/Release/obj.target/yencode.node'), { force: true });
				env.LDFLAGS = env.LDFLAGS.split(WRAP_ISA).join('');
				return run('g++', ['-O2', '-w', '-fPIC', '-c', path.join(VERIF, 'mon/wrap.cc'), '-o', o].concat(v.wrap.indexOf('malloc') >= 0 ? ['-DYV_WRAP_MALLOC'] : [])).then(function() { return go(env); });
			});
		}).then(function(log) {
			fs.writeFileSync(path.join(tmp, 'yv', 'build.log'), log);
			if (!fs.existsSync(path.join(tmp, 'build/Release/yencode.node'))) throw new Error('no yencode.node built for ' + name);
			// keep the objects (native harnesses link them); drop nothing else
		});
	});
}
// a native program from /verif/mon linked with the objects of a variant (not the node bindings)
function objects(dir) {
	var out = [];
	(function walk(d) {
		fs.readdirSync(d).forEach(function(f) {
			var p = path.join(d, f);
			if (fs.statSync(p).isDirectory()) { if (f !== '.deps') walk(p); }
			else if (/\.o$/.test(f) && f !== 'yencode.o') out.push(p);
		});
	})(path.join(dir, 'build/Release/obj.target'));
	return out;
}
function native(name, src, opt) { // opt: {cxx, ld, CXX}
	return variant(name).then(function(dir) {
		var v = VARIANTS[name];
		return once(path.join(dir, 'yv', path.basename(src, '.cc')), function(tmp) {
			return run(opt && opt.CXX || v.CXX || 'g++', ['-O2', '-w', '-std=c++17'].concat((v.cxx || '').split(' ').filter(Boolean), opt && opt.cxx || [],
				['-I' + path.join(dir, 'src'), '-I' + path.join(VERIF, 'mon'), path.join(VERIF, src)], objects(dir), ['-o', tmp, '-lpthread'], opt && opt.ld || []));
		});
	});
}
module.exports = { variant: variant, oracle: oracle, native: native, objects: objects, run: run, root: root, treeHash: treeHash, VARIANTS: VARIANTS, REPO: REPO, VERIF: VERIF, once: once, listFiles: listFiles };
if (require.main === module) {
	var t0 = Date.now();
	Promise.all([oracle()].concat(process.argv.slice(2).map(variant))).then(function(r) { console.log(r.join('\n'), Date.now() - t0, 'ms'); }, function(e) { console.error(e.message); process.exit(2); });
}
