#!/usr/bin/env node
'use strict';
// node check.js <ID> [quick|thorough]       run one property's check
// node check.js --replay <file>             run one recorded case again
var fs = require('fs'), path = require('path'), cp = require('child_process'), os = require('os');
var B = require('./lib/build');
var VERIF = __dirname;
var CPUS = Math.max(1, Math.min(8, os.cpus().length));

function die(code, msg) { if (msg) console.error(msg); process.exitCode = code; setImmediate(function() { process.exit(code); }); }

function knownFindings(id) {
	var r = [];
	try {
		fs.readFileSync(path.join(VERIF, 'KNOWN_FINDINGS.txt'), 'utf8').split('\n').forEach(function(l) {
			var m = l.match(/^finding: property=(\S+) key=(\S+) (.*)$/);
			if (m && m[1] === id) r.push({ key: m[2], what: m[3] });
		});
	} catch (e) {}
	return r;
}
function libPath(n) { return cp.execFileSync('gcc', ['-print-file-name=' + n], { encoding: 'utf8' }).trim(); }
function jobEnv(job) {
	var e = { PATH: process.env.PATH || '/usr/bin:/bin', HOME: process.env.HOME || '/root', LANG: 'C.UTF-8', TMPDIR: job.tmp };
	Object.assign(e, job.env || {});
	if (/^asan/.test(job.variant)) {
		e.LD_PRELOAD = /clang/.test(job.variant) ? cp.execFileSync('clang', ['-print-file-name=libclang_rt.asan-x86_64.so'], { encoding: 'utf8' }).trim() : libPath('libasan.so') + ' ' + libPath('libubsan.so');
		e.ASAN_OPTIONS = 'detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1:quarantine_size_mb=32';
		e.UBSAN_OPTIONS = 'print_stacktrace=1:halt_on_error=1:exitcode=77';
	}
	if (/^tsan/.test(job.variant)) {
		e.LD_PRELOAD = libPath('libtsan.so');
		e.TSAN_OPTIONS = 'ignore_noninstrumented_modules=1 halt_on_error=1 exitcode=66 report_signal_unsafe=0 second_deadlock_stack=1';
	}
	return e;
}
var noAslr;
function setarch() { if (noAslr === undefined) noAslr = cp.spawnSync('setarch', ['-R', 'true']).status === 0; return noAslr; }
function report(id, v, job, tier, seed) {
	var dir = path.join(VERIF, '.replay');
	fs.mkdirSync(dir, { recursive: true });
	var f = path.join(dir, id + '-' + Date.now().toString(36) + '-' + process.pid + '.json');
	fs.writeFileSync(f, JSON.stringify({ property: id, tier: tier, seed: seed, violation: v, job: job && { work: job.work, name: job.name, variant: job.variant, env: job.env, params: job.params, node: job.node, case: v.case, from: job.from, stall: job.stall, noload: job.noload } }, null, 1));
	console.log('VIOLATION property=' + id + ' replay=' + f);
	console.log('  ' + v.what + (v.job ? ' [' + v.job + ', case ' + v.case + ']' : ''));
	var d = JSON.stringify(v.detail || {});
	console.log('  ' + (d.length > 1500 ? d.slice(0, 1500) + '...' : d));
	return f;
}

// run one worker over [from,to); resolves {result|crash|hang}
var live = new Set();
function spawnWorker(job, from, to, tmp, opt) {
	return new Promise(function(resolve) {
		var tag = path.join(tmp, 'w' + (spawnWorker.n = (spawnWorker.n || 0) + 1));
		var desc = Object.assign({}, job, { from: from, to: to, progress: tag + '.prog', out: tag + '.out', tmp: tmp });
		fs.writeFileSync(tag + '.job', JSON.stringify(desc));
		fs.writeFileSync(tag + '.prog', Buffer.alloc(64));
		var args = (job.node || []).concat([path.join(VERIF, 'lib/worker.js'), tag + '.job']);
		var exe = process.execPath;
		if (job.qemu) { args = ['-cpu', job.qemu, exe].concat(args); exe = 'qemu-x86_64'; }
		if (/^tsan/.test(job.variant) && setarch()) { args = ['-R', exe].concat(args); exe = 'setarch'; } // its shadow memory wants the traditional layout
		var c = cp.spawn(exe, args, { env: jobEnv(desc), stdio: ['ignore', 'pipe', 'pipe'], cwd: tmp });
		live.add(c);
		var log = '', hang = false, lastTick = -1, lastChange = Date.now();
		function add(d) { log += d; if (log.length > 200000) log = log.slice(0, 100000) + log.slice(-50000); }
		c.stdout.on('data', add); c.stderr.on('data', add);
		function prog() { try { var b = fs.readFileSync(tag + '.prog'); return { c: Number(b.readBigUInt64LE(0)), t: Number(b.readBigUInt64LE(8)) }; } catch (e) { return { c: from, t: 0 }; } }
		var stall = (job.stall || 120) * 1000 * (opt && opt.patience || 1);
		var iv = setInterval(function() {
			var p = prog();
			if (p.t !== lastTick) { lastTick = p.t; lastChange = Date.now(); }
			else if (Date.now() - lastChange > stall) { hang = true; c.kill('SIGKILL'); }
		}, 1000);
		c.on('close', function(code, signal) {
			clearInterval(iv); live.delete(c);
			var r = { code: code, signal: signal, log: log, at: prog().c, hang: hang };
			try { r.result = JSON.parse(fs.readFileSync(tag + '.out', 'utf8')); var b = fs.readFileSync(tag + '.out.sig'); r.sigs = new Uint32Array(b.buffer.slice(b.byteOffset, b.byteOffset + b.length)); } catch (e) {}
			['.job', '.prog', '.out', '.out.sig'].forEach(function(x) { fs.rmSync(tag + x, { force: true }); });
			resolve(r);
		});
	});
}

var ATTRIBUTED = /YV-MONITOR|WARNING: ThreadSanitizer|ERROR: AddressSanitizer|runtime error:/;
var CRASH = { SIGSEGV: 1, SIGBUS: 1, SIGILL: 1, SIGFPE: 1, SIGABRT: 1, SIGTRAP: 1, SIGSYS: 1 };
async function runJobs(id, jobs, seed, tier, ev) {
	var tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'yv-' + id + '-'));
	var queue = [];
	jobs.forEach(function(j) {
		var n = j.cases, shards = Math.max(1, Math.min(j.shards || 1, n));
		for (var s = 0; s < shards; s++) {
			var f = Math.floor(n * s / shards), t = Math.floor(n * (s + 1) / shards);
			if (t > f) queue.push({ job: j, from: f, to: t, tries: 0 });
		}
	});
	// big shards first
	queue.sort(function(a, b) { return (b.job.weight || 1) * (b.to - b.from) - (a.job.weight || 1) * (a.to - a.from); });
	var sig = new Set(), violation = null, error = null, known = knownFindings(id), seenKnown = {};
	var threadCrashes = 0;
	async function lane() {
		while (queue.length && !violation && !error) {
			var q = queue.shift(), job = q.job;
			var r = await spawnWorker(job, q.from, q.to, tmp, { patience: q.tries ? 2 : 1 });
			if (violation || error) return;
			var v = null;
			if ((job.tolerant && !r.result && !/YV-MONITOR/.test(r.log)) || (!r.result && /FATAL: ThreadSanitizer/.test(r.log))) { // emulated CPU or stepped process: only what the monitor attributes to the addon counts
				ev.coverage.observed.inconclusive = (ev.coverage.observed.inconclusive || 0) + 1;
				(ev.coverage.inconclusive = ev.coverage.inconclusive || []).push(job.name + ': ' + (r.hang ? 'no end' : r.signal || 'exit ' + r.code) + ' ' + r.log.slice(-200));
				continue;
			}
			if (r.hang) {
				if (!q.tries) { queue.unshift({ job: job, from: r.at, to: q.to, tries: 1 }); ev.coverage.reruns = (ev.coverage.reruns || 0) + 1; continue; } // once more, with more patience
				v = { what: 'no progress for ' + 2 * (job.stall || 120) + ' s: the call does not terminate', case: r.at, job: job.name, detail: { log: r.log.slice(-3000) } };
			} else if (r.result) {
				v = r.result.violation;
				var w = r.log.match(/(WARNING: ThreadSanitizer[^\n]*|ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|YV-MONITOR:[^\n]*)/);
				if (!v && w) v = { what: w[1], case: r.at, job: job.name, detail: { log: r.log.slice(0, 6000) } };
			}
			else if (r.signal === 'SIGKILL' || r.signal === 'SIGTERM' || /Cannot allocate memory|out of memory|Out of memory/.test(r.log)) { // ended from outside or memory ran out: says nothing about the code
				if (q.tries) { error = 'worker ended twice by ' + (r.signal || 'exit ' + r.code) + ' in ' + job.name + '\n' + r.log.slice(-2000); return; }
				queue.unshift({ job: job, from: q.from, to: q.to, tries: 1 }); continue;
			} else if (job.threads && !ATTRIBUTED.test(r.log) && (CRASH[r.signal] || r.code === 86) && q.tries < 2 && ++threadCrashes < 4) { // node itself can, rarely, crash when a thread ends while a Buffer of it is collected (DESIGN.md): the shard again, a crash through the addon recurs
				queue.unshift({ job: job, from: q.from, to: q.to, tries: q.tries + 1 }); ev.coverage.reruns = (ev.coverage.reruns || 0) + 1;
				(ev.coverage.inconclusive = ev.coverage.inconclusive || []).push(job.name + ': ' + (r.signal || 'exit ' + r.code) + ' outside the addon, run again'); continue;
			} else if (CRASH[r.signal] || r.code === 77 || r.code === 86 || /ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|YV-MONITOR/.test(r.log)) {
				var m = r.log.match(/(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|YV-MONITOR:[^\n]*)/);
				v = { what: 'process crashed: ' + (m ? m[1] : r.signal || 'exit ' + r.code), case: r.at, job: job.name, detail: { log: r.log.slice(0, 6000) } };
			} else if (/Error: Cannot find module|SyntaxError|lib\/worker\.js|oracle/.test(r.log) && !job.strictLoad) { error = 'harness failure in ' + job.name + ': exit ' + r.code + ' ' + r.signal + '\n' + r.log.slice(-3000); return; }
			else v = { what: 'process ended unexpectedly: ' + (r.signal || 'exit ' + r.code), case: r.at, job: job.name, detail: { log: r.log.slice(-6000) } };
			if (r.result) {
				ev.coverage.evaluations += r.result.evaluations;
				Object.keys(r.result.counts).forEach(function(k) { var c = ev.coverage.observed; c[k] = /^max_/.test(k) ? Math.max(c[k] || 0, r.result.counts[k]) : (c[k] || 0) + r.result.counts[k]; });
				r.result.samples.forEach(function(s) { if (ev.coverage.samples.length < 5) ev.coverage.samples.push(typeof s === 'object' ? Object.assign({ job: job.name }, s) : s); });
				if (r.result.stats) { var s = r.result.stats, k = 'isa ' + s.isa_used.toString(16) + ' crc ' + s.crc_used; ev.coverage.kernels_selected[k] = (ev.coverage.kernels_selected[k] || 0) + r.result.evaluations; }
				if (r.sigs) for (var i = 0; i < r.sigs.length && sig.size < 12e6; i++) sig.add(r.sigs[i]);
				if (r.result.extra) (ev.extra = ev.extra || []).push(Object.assign({ job: job.name, from: q.from }, r.result.extra));
			}
			if (v) {
				var kf = v.key && known.filter(function(k) { return k.key === v.key; })[0];
				if (kf) {
					if (!seenKnown[v.key]) { seenKnown[v.key] = 1; console.log('KNOWN-FINDING: property=' + id + ' ' + kf.what); }
					if (v.case + 1 < q.to) queue.unshift({ job: job, from: v.case + 1, to: q.to, tries: 0 });
					continue;
				}
				violation = { v: v, job: Object.assign({}, job, { from: q.from }) };
				live.forEach(function(c) { c.kill('SIGKILL'); });
			}
		}
	}
	var lanes = [];
	for (var i = 0; i < CPUS; i++) lanes.push(lane());
	await Promise.all(lanes);
	ev.coverage.distinct_nontrivial = sig.size;
	fs.rmSync(tmp, { recursive: true, force: true });
	return { violation: violation, error: error };
}

async function probe() {
	var dir = await B.variant('rel'), or = await B.oracle();
	var js = 'var o=require(' + JSON.stringify(or) + ');try{require(' + JSON.stringify(dir + '/index.js') + ')}catch(e){};console.log(JSON.stringify(o.stats(' + JSON.stringify(dir + '/build/Release/yencode.node') + ')||null))';
	var r = cp.spawnSync(process.execPath, ['-e', js], { encoding: 'utf8' });
	var s = null; try { s = JSON.parse(r.stdout.trim().split('\n').pop()); } catch (e) {}
	if (!s || !s.isa_calls) return { isa: ['auto'], crc: ['auto'], real: s };
	var isa = [['sse2', 0x100], ['ssse3', 0x200], ['avx', 0x381], ['avx2', 0x403], ['vbmi2', 0x603]].filter(function(x) { return s.isa_real >= x[1]; }).map(function(x) { return x[0]; });
	if (isa.indexOf('vbmi2') >= 0 && !(s.isa_real & 4)) isa.pop();
	var crc = [0, 1, 2].filter(function(x) { return s.crc_real >= x; }).map(String);
	return { isa: isa, crc: crc, real: s };
}

async function main() {
	var t0 = Date.now();
	if (process.argv[2] === '--replay') return replay(process.argv[3]);
	var id = process.argv[2], tier = process.argv[3] || process.env.VERIF_TIER || 'quick';
	if (!/^[A-Z]\d\d$/.test(id || '') || !/^(quick|thorough)$/.test(tier)) return die(2, 'usage: check.js ID [quick|thorough]');
	var seed = (process.env.VERIF_SEED !== undefined && process.env.VERIF_SEED !== '' ? Number(process.env.VERIF_SEED) : 1) >>> 0;
	var mod = require(path.join(VERIF, 'work', id + '.js'));
	var man = JSON.parse(fs.readFileSync(path.join(VERIF, 'MANIFEST.json'), 'utf8'));
	var entry = man.checks.filter(function(c) { return c.property === id; })[0] || {};
	var ev = { property: id, tier: tier, seed: seed, level: entry.level || 'exploration', coverage: { evaluations: 0, distinct_nontrivial: 0, rule: mod.rule, samples: [], observed: {}, kernels_selected: {} }, assumptions: mod.assumptions || [], wall_s: 0, violations: 0 };
	var env, jobs, or;
	try {
		or = await B.oracle();
		env = await probe();
		env.B = B;
		jobs = await mod.plan(tier, env, seed, ev);
		for (var i = 0; i < jobs.length; i++) {
			var j = jobs[i];
			j.work = j.work || id + '.js'; j.variant = j.variant || 'rel'; j.seed = seed; j.oracle = or; j.tier = tier;
			if (j.threads && !/san/.test(j.variant)) j.onFault = true;
		}
		// builds of distinct variants, two at a time
		var names = Array.from(new Set(jobs.filter(function(j) { return !j.dir; }).map(function(j) { return j.variant; }))), dirs = {};
		await Promise.all([0, 1].map(async function() { var n; while ((n = names.shift())) dirs[n] = await B.variant(n); }));
		jobs.forEach(function(j) { if (!j.dir) j.dir = dirs[j.variant]; });
	} catch (e) { return die(2, 'cannot build or plan: ' + (e && e.stack)); }
	ev.coverage.build_s = Math.round((Date.now() - t0) / 100) / 10;
	var r = ev.planViolation ? { violation: ev.planViolation } : await runJobs(id, jobs, seed, tier, ev);
	if (!r.violation && !r.error && mod.conclude) { // checks over all jobs together (e.g. digests agree)
		var c = await mod.conclude(ev, jobs);
		if (c) r.violation = { v: c, job: c.jobDesc || jobs[0] };
	}
	delete ev.extra; delete ev.planViolation;
	ev.violations = r.violation ? 1 : 0;
	ev.wall_s = Math.round((Date.now() - t0) / 100) / 10;
	fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
	if (!ev.coverage.samples.length) ev.coverage.samples.push('none');
	fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
	if (r.violation) { report(id, r.violation.v, r.violation.job, tier, seed); return die(1); }
	if (r.error) return die(2, r.error);
	console.log('OK property=' + id + ' tier=' + tier + ' seed=' + seed + ' evaluations=' + ev.coverage.evaluations + ' distinct=' + ev.coverage.distinct_nontrivial + ' wall=' + ev.wall_s + 's');
	die(0);
}
async function replay(file) {
	var d = JSON.parse(fs.readFileSync(file, 'utf8'));
	if (!d.job || d.job.case === undefined || d.job.case === null) { console.log(JSON.stringify(d.violation, null, 1)); return die(0); }
	if (d.violation.other) return replayPair(d, file);
	var job = Object.assign({}, d.job, { seed: d.seed, tier: d.tier, oracle: await B.oracle(), dir: await B.variant(d.job.variant) });
	var tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'yv-replay-'));
	var r = await spawnWorker(job, d.job.case, d.job.case + 1, tmp), v = r.result && r.result.violation;
	if (r.result && !v && d.job.from < d.job.case) { r = await spawnWorker(job, d.job.from, d.job.case + 1, tmp); v = r.result && r.result.violation; } // needs its history
	fs.rmSync(tmp, { recursive: true, force: true });
	if (r.result && !v) { console.log('not reproduced'); return die(0); }
	console.log('VIOLATION property=' + d.property + ' replay=' + file);
	console.log(v ? JSON.stringify(v, null, 1) : (r.signal || 'exit ' + r.code) + '\n' + r.log.slice(0, 6000));
	die(1);
}
// a disagreement between two configurations: run the block in both, case by case
async function replayPair(d, file) {
	var tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'yv-replay-')), a = [], v = d.violation;
	for (var j of [d.job, Object.assign({}, d.job, v.other)]) {
		var r = await spawnWorker(Object.assign({}, j, { seed: d.seed, tier: d.tier, params: Object.assign({}, j.params, { trace: 1 }), oracle: await B.oracle(), dir: await B.variant(j.variant) }), v.case, v.case + v.span, tmp);
		a.push(r.result ? r.result.extra.digests : r.log);
	}
	fs.rmSync(tmp, { recursive: true, force: true });
	for (var i = 0; i < v.span; i++) if (a[0][i] !== a[1][i]) {
		console.log('VIOLATION property=' + d.property + ' replay=' + file);
		console.log('case ' + (v.case + i) + ' gives ' + a[0][i] + ' in ' + d.job.name + ' and ' + a[1][i] + ' in ' + v.other.name);
		return die(1);
	}
	console.log('not reproduced'); die(0);
}
process.on('exit', function() { live.forEach(function(c) { try { c.kill('SIGKILL'); } catch (e) {} }); });
process.on('SIGTERM', function() { process.exit(143); }); process.on('SIGINT', function() { process.exit(130); });
main().catch(function(e) { die(2, e && e.stack); });
