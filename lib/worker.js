'use strict';
// Child process: runs cases [from, to) of one job against the staged module; everything it learns goes to files.
var fs = require('fs'), path = require('path'), Rng = require('./rng');
var job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
var o = require(job.oracle);
o.openProgress(job.progress);
o.mark(job.from);
function Stop() {}
var result = { evaluations: 0, counts: {}, samples: [], violation: null, stats: null, skipped: 0 };
var sigs = new Set(), jobHash = Rng.str(job.name);
var current = job.from;
function clean(x, depth) {
	if (Buffer.isBuffer(x) && !ArrayBuffer.isView(x)) return "fake Buffer";
	if (Buffer.isBuffer(x)) return x.length > 600 ? 'Buffer(' + x.length + ') ' + x.subarray(0, 300).toString('hex') + '...' + x.subarray(-100).toString('hex') : 'Buffer(' + x.length + ') ' + x.toString('hex');
	if (x && typeof x === 'object' && (depth || 0) < 5) { if (x instanceof Error) return String(x.stack); var r = Array.isArray(x) ? [] : {}; Object.keys(x).forEach(function(k) { r[k] = clean(x[k], (depth || 0) + 1); }); return r; }
	if (typeof x === 'bigint' || typeof x === 'symbol' || typeof x === 'function') return String(x);
	return x;
}
var ctx = {
	job: job, o: o, seed: job.seed, params: job.params || {}, path: path.join(job.dir, 'build/Release/yencode.node'), dir: job.dir,
	y: null,
	R: null,
	// report a violation: stops this worker
	fail: function(what, detail, key) { result.violation = { what: what, case: current, job: job.name, key: key || null, detail: clean(detail || {}) }; throw new Stop(); },
	sig: function(n) { if (sigs.size < 400000) sigs.add(n >>> 0); },
	count: function(k, n) { result.counts[k] = (result.counts[k] || 0) + (n === undefined ? 1 : n); },
	max: function(k, n) { k = 'max_' + k; if (!(result.counts[k] >= n)) result.counts[k] = n; },
	sample: function(s) { if (result.samples.length < 2) result.samples.push(clean(s)); },
	progress: function() { o.mark(current); }, // long cases: still alive
	rng: function(i, salt) { return new Rng(job.seed ^ Rng.mix(jobHash, salt || 0), i, Math.floor(i / 4294967296)); },
	gc: global.gc || function() {}
};
function finish() {
	result.stats = o.stats(ctx.path) || null;
	if (typeof done === 'function') done(result);
	fs.writeFileSync(job.out + '.sig', Buffer.from(Uint32Array.from(sigs).buffer));
	fs.writeFileSync(job.out, JSON.stringify(result));
}
function fatal(e) {
	if (e instanceof Stop) { finish(); process.exit(0); }
	if (/^ERR_WORKER/.test(String(e && e.code)) || /^oracle:|allocation failed|ENOMEM|ENOSPC|EMFILE/.test(String(e && e.message))) { console.error('oracle error: ' + (e && e.stack)); process.exit(3); } // ours, or resources ran out
	// the harness does not throw on a correct tree: an unexpected exception is the module's behaviour
	if (!result.violation) result.violation = { what: 'unexpected exception: ' + (e && e.message), case: current, job: job.name, key: null, detail: { stack: String(e && e.stack) } };
	finish(); process.exit(0);
}
var done;
process.on('uncaughtException', fatal);
process.on('unhandledRejection', fatal);
(async function() {
	if (job.onFault) o.onFault(ctx.path);
	if (job.legacy) { // loaded as if by a Node without Buffer.alloc, indexOf and lastIndexOf: index.js brings its own then
		var bp = Buffer.prototype, had = ['indexOf', 'lastIndexOf', 'readBigInt64BE'].map(function(k) { return [k, bp[k]]; }), alloc = Buffer.alloc;
		process.noDeprecation = true;
		try {
			require('module'); had.forEach(function(h) { bp[h[0]] = undefined; }); Buffer.alloc = undefined;
			ctx.y = require(path.join(job.dir, 'index.js')); ctx.count('loaded_as_old_node');
		} catch (e) {} finally { had.forEach(function(h) { bp[h[0]] = h[1]; }); Buffer.alloc = alloc; }
	}
	if (!job.noload && !ctx.y) ctx.y = require(path.join(job.dir, 'index.js'));
	var mod = require(path.join(__dirname, '../work', job.work));
	var run = await mod.make(ctx);
	done = run.done;
	for (var i = job.from; i < job.to; i++) {
		current = i;
		if (!(i & (job.markMask === undefined ? 15 : job.markMask))) o.mark(i);
		ctx.R = ctx.rng(i);
		var p = run(i, ctx.R);
		if (p && p.then) { o.mark(i); await p; }
		result.evaluations++;
		if (job.trace) o.mark(i);
	}
	if (run.end) await run.end();
	finish();
	process.exit(0);
})().catch(fatal);
