'use strict';
// sfc32, seeded per case: every case can be replayed on its own
function mix(h, v) { h = Math.imul(h ^ v, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); return (h ^ h >>> 16) >>> 0; }
function Rng(a, b, c) {
	this.a = mix(0x9e3779b9, a >>> 0); this.b = mix(this.a, b >>> 0); this.c = mix(this.b, c >>> 0); this.d = 1;
	for (var i = 0; i < 10; i++) this.u32();
}
Rng.prototype = {
	u32: function() {
		var t = (this.a + this.b | 0) + this.d | 0;
		this.d = this.d + 1 | 0;
		this.a = this.b ^ this.b >>> 9;
		this.b = this.c + (this.c << 3) | 0;
		this.c = (this.c << 21 | this.c >>> 11) + t | 0;
		return t >>> 0;
	},
	below: function(n) { return Math.floor(this.u32() / 4294967296 * n); },
	range: function(lo, hi) { return lo + this.below(hi - lo + 1); }, // inclusive
	chance: function(p) { return this.u32() < p * 4294967296; },
	pick: function(a) { return a[this.below(a.length)]; },
	// length with emphasis on small and vector-sized values
	len: function(max) {
		var k = this.below(10);
		if (k < 2) return Math.min(max, this.below(40));
		if (k < 5) return Math.min(max, this.below(300));
		if (k < 7) return Math.min(max, Math.max(0, 16 * this.below(32) + this.below(9) - 4));
		return this.below(max + 1);
	},
	buf: function(n) { var b = Buffer.alloc(n); for (var i = 0; i < n; i++) b[i] = this.u32() >>> 24; return b; }
};
Rng.str = function(s) { var h = 7; for (var i = 0; i < s.length; i++) h = mix(h, s.charCodeAt(i)); return h; };
Rng.mix = mix;
module.exports = Rng;
