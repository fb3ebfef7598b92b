#pragma once
#include <stdint.h>
// counters kept by the interposer linked into the addon under test (wrap.cc), read by the monitor addon
struct YvStats {
	volatile int64_t isa_real, isa_used, crc_real, crc_used, isa_calls, crc_calls;
	volatile int64_t mallocs, frees, reallocs, live, live_bytes, bad_frees, canary_hits, peak_bytes, cpuid_calls;
	// injected allocation failures: requests are counted; number fail_at (and all later ones if fail_all) is refused, as is any of more than fail_over bytes (0: none)
	volatile int64_t alloc_seq, fail_at, fail_all, fail_over, fail_hits;
};
