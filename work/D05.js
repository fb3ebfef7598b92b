'use strict';
// Every state decodeChunk can return, in every documented form, resumes as if the stream had continued
var K = require('../lib/plan');
exports.rule = 'hash of (kernel cap, how the state was obtained, form in which it was passed, argument order, state, head of the data) of each distinct resumed call compared with the expected continuation';
exports.plan = function(tier, env) {
	var q = tier === 'quick', jobs = [];
	K.isa(env).forEach(function(e) {
		jobs.push({ name: 'state-' + e.name, variant: e.variant, env: e.env, cases: q ? 250000 : 4000000, shards: q ? 3 : 12, params: {} });
	});
	return jobs;
};
var ST = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
exports.make = function(ctx) {
	var y = ctx.y, o = ctx.o, G = require('../lib/gen')(ctx), exp = Buffer.alloc(70000), f = new Float64Array(4), fb = Buffer.from(f.buffer);
	// characters that may precede a state in the stream without changing what it means
	function longer(R, st, i) {
		var plain = ['a', 'abc', 'kkkkkkkkkkkkkk', '\u0000', '==', 'y', '=y', '.', '..', 'x\n', '\n', '\n.'];
		if (i === 3) return R.pick(plain.filter(function(s) { return s !== '==' || true; })); // no state: checked below
		if (i === 1) return R.pick(['a', 'abc', 'k.', 'x\n', 'xyz=x']) + st; // a single =, not itself escaped and not at a line start
		if (i === 2) return R.pick(['a', 'abc', 'k.', '\n', 'xyz\r\nx']) + st;
		return R.pick(['a', '=', '.', 'abcd', 'k=', '\r', '\n', 'xyz\r\n', '..', '']) + st;
	}
	function ended(st) { return st === '\r\n=y' || st === '\r\n.\r\n'; }
	return function(i, R) {
		var si, st, how = R.below(4), given;
		if (how === 0) { // a state returned by a real call
			var pre = Buffer.alloc(R.range(1, 90)); G.fillDec(R, pre, R.chance(.5));
			var s0 = R.below(7), r0 = y.decodeChunk(pre, ST[s0]);
			given = r0.state;
			if (given === '\r\n=y') si = 3; // the stream goes on behind the y
			else if (given === '\r\n.\r\n') si = 0; // behind CRLF
			else {
				si = ST.indexOf(given);
				if (si < 0) ctx.fail('unknown state returned', { state: given, data: pre });
			}
			ctx.count('returned_state_' + JSON.stringify(given));
		} else if (how === 1) { si = R.below(7); given = ST[si]; }
		else if (how === 2) { si = 0; given = R.pick([null, undefined]); }
		else {
			si = R.pick([0, 1, 2, 4, 5, 6, 3]); given = longer(R, ST[si], si);
			if (si === 3) { // which state a tail of plain characters stands for
				if (/==$/.test(given)) given = 'a' + given.slice(0, -2); // '==' is an escaped '='
				given = given.replace(/[=]+$/, '');
				if (given === '') given = 'a';
			}
			if (si === 6 && /=\r\n=$/.test(given)) { /* =CR LF = : the CR was escaped, LF and = still follow it */ }
		}
		if (R.chance(.05) && given === '\r\n=') given = '\r\n.='; // its other name
		var buf = typeof given === 'string' && R.chance(.08) ? Buffer.from(given, 'latin1') : null; // a Buffer as state is accepted where it cannot be the output
		var n = R.chance(.06) ? 0 : R.chance(.7) ? R.range(1, 60) : R.range(1, 600), src = G.place(R, 'src', n, 8192);
		G.fillDec(R, src, R.chance(.3));
		o.decodeEnd(src, si, exp, fb);
		var est = f[2] === 1 ? '\r\n=y' : f[2] === 2 ? '\r\n.\r\n' : ST[f[3]];
		var order = R.below(6), out = G.place(R, 'dst', n + R.below(3), 8192), r, desc, hasOut = true;
		if (order === 0) { r = y.decodeChunk(src, given, out); desc = '(data, state, output)'; }
		else if (order === 1) { r = y.decodeChunk(src, out, given); desc = '(data, output, state)'; }
		else if (order === 2) { r = y.decodeChunk(src, given); desc = '(data, state)'; hasOut = false; }
		else if (order === 3 && si === 0 && (given === null || given === undefined)) { r = y.decodeChunk(src, out); desc = '(data, output)'; }
		else if (order === 4 && si === 0 && (given === null || given === undefined)) { r = y.decodeChunk(src); desc = '(data)'; hasOut = false; }
		else if (buf && order === 5) { r = y.decodeChunk(src, out, buf); desc = '(data, output, state as Buffer)'; }
		else { r = y.decodeChunk(src, given, undefined); desc = '(data, state, undefined)'; hasOut = false; }
		ctx.count('calls'); ctx.count('form ' + desc);
		var info = { call: desc, state: given === undefined ? 'undefined' : given, n: n, src: src, got: r && { read: r.read, written: r.written, ended: r.ended, state: r.state } };
		if (hasOut && r.output !== out) ctx.fail('decodeChunk' + desc + ' did not return the given output', info);
		if (!Buffer.isBuffer(r.output) || r.output.buffer.detached) ctx.fail('output is not a regular Buffer', info);
		if (!n) {
			if (r.read !== 0 || r.written !== 0 || r.ended !== false || (!hasOut && r.output.length)) ctx.fail('wrong result for an empty chunk', info);
			if (typeof r.state !== 'string') ctx.fail('no state for an empty chunk', info);
			// its state must be equivalent: continue with more data
			n = R.range(1, 60); src = G.place(R, 'src', n, 8192); G.fillDec(R, src, R.chance(.3));
			o.decodeEnd(src, si, exp, fb); est = f[2] === 1 ? '\r\n=y' : f[2] === 2 ? '\r\n.\r\n' : ST[f[3]];
			r = y.decodeChunk(src, r.state); info.then = { read: r.read, written: r.written, ended: r.ended, state: r.state }; info.src = src;
			ctx.count('empty_chunks');
		}
		if (r.read !== f[0] || r.written !== f[1] || r.ended !== !!f[2] || r.state !== est || !o.same(r.output, exp, f[1])) {
			info.expected = { read: f[0], written: f[1], ended: !!f[2], state: est, output: exp.subarray(0, f[1]) }; info.output = r.output.subarray(0, r.written);
			ctx.fail('decodeChunk' + desc + ' does not resume from its state', info);
		}
		if (i < 2) ctx.sample(info);
		ctx.sig(o.hash(src.subarray(0, 40), how + order * 8 + si * 64 + (n ? 0 : 1024) + ctx.job.name.length * 4096));
	};
};
