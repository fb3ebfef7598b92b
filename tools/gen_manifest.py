#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
KERN = "on every kernel this CPU has (the dispatcher is capped through a linker-interposed feature detection) and the portable one"
C = {
"E01": ("online reference monitor over randomised, kernel-capped executions", "Byte-for-byte comparison of every encode/encodeTo result with an independent scalar encoder, "+KERN+", inputs placed at all alignments against inaccessible pages. Sampled, not exhaustive; trusts mon/ref.h."),
"E02": ("online line-structure monitor (trace grammar) over real encoder output", "A monitor that knows only what a yEnc line may look like scans every output "+KERN+". Sampled."),
"E03": ("round-trip conservation monitor", "Data is encoded (whole or in pieces), optionally dot-stuffed, and decoded by every public route; no reference transform is trusted. Sampled, "+KERN+"."),
"E04": ("guard pages, canaries and a guarding allocator around all outputs; size-bound monitor", "Writes outside the granted bytes fault or alter a canary; lengths are compared with minSize/maxSize. Sampled, "+KERN+"."),
"E05": ("online reference monitor of the incremental encoder, and history checker of its pieces", "Output, length and column of every encodeIncr call are compared with a scalar encoder, and concatenated pieces with the encoding of the whole, "+KERN+". Sampled; encodeIncr is a native export that index.js does not pass on."),
"R01": ("CPU-time growth monitor, allocation accounting, and calls at the end of the stack", "CPU time is measured on geometrically growing inputs of some 80 shapes and compared with a quarter of the input (alarm: over 1 s and over 10 times, twice); memory requests are counted by an interposed allocator. Slowdowns that stay proportional are not its subject."),
"D01": ("online reference monitor over randomised and bounded-exhaustive inputs", "Byte-for-byte comparison with a byte-at-a-time decoder, with all short strings over the special characters at many offsets. "+KERN+". Trusts mon/ref.h."),
"D02": ("guard pages and canaries; in-place/out-of-place differential monitor", "In-situ results, exact-size outputs and refused calls observed in guarded memory. Sampled, "+KERN+"."),
"D03": ("offline history checker over chunked decode logs", "Every history of chunks (random, adversarial and all 1- and 2-cut histories of short streams) is compared with the single call. Sampled, "+KERN+"."),
"D04": ("online reference monitor of the end-of-data automaton", "decodeChunk from every state is compared with an independent automaton; bytes after the marker are varied and must not matter. Sampled plus bounded-exhaustive short strings, "+KERN+"."),
"D05": ("state/option equivalence monitor over call histories", "Every returned state, alias, longer preceding text and argument order is resumed and compared. Bounded-exhaustive over states and option forms, sampled over data."),
"C01": ("online reference monitor (bitwise CRC) over lengths, alignments and splits", "Comparison with a table-driven reference on every CRC kernel in two build variants. Sampled plus a length x alignment grid."),
"C02": ("conservation monitor over CRCs of concatenations; algebraic oracle for huge lengths", "Real concatenations and lengths to 2^53-1 against bitwise field arithmetic, on every CRC kernel. Sampled."),
"C03": ("algebraic-identity monitor and bitwise carry-less oracle", "Each call is compared with bit-by-bit GF(2) arithmetic and takes part in identities. Sampled over operands, on every CRC kernel."),
"K01": ("differential monitor: result digests of one call stream on every kernel", "Same random call stream on all encoder/decoder/CRC caps, digests compared block by block; one stream also against the reference. Limited to the kernels of the CPU it runs on."),
"K02": ("differential monitor: result digests of one call stream in every build configuration", "Builds with different options, compilers, optimisation levels and tuning targets run the same stream. Limited to instruction sets this CPU has."),
"K03": ("instruction-level monitor: emulated CPU models and single-stepped execution under simulated CPUID", "qemu TCG raises #UD on absent features (no AVX-512 there); stepping classifies every executed instruction while CPUID lies. Feature sets are sampled one at a time and in consistent groups."),
"K04": ("online reference monitor on cross-compiled kernels under qemu-user, with guard pages and UBSan traps", "The project's ARM and RISC-V sources, compiled for the target by clang with the flags of binding.gyp and run under qemu with various features, compared call by call with the reference. Sampled. Trusts qemu and the freestanding shim; GCC for these targets and big-endian ARM are not covered."),
"K05": ("online reference monitor on 32-bit x86 (run natively and under qemu CPU models) and big-endian builds, with guard pages and UBSan traps", "The project's sources compiled for i686 (clang and GCC), s390x, ppc64 and ppc, compared call by call with the reference. Sampled. 32-bit code needs the kernel's 32-bit support to run natively, else qemu-i386."),
"M01": ("AddressSanitizer and UndefinedBehaviorSanitizer over random API programs", "Random programs of API calls in sanitized builds of every kernel and several build configurations. Sampled."),
"M02": ("metamorphic monitor: surroundings, alignment, history and stale output varied", "Each call is repeated with altered neighbours, alignment, output contents and preceding calls; inputs are compared before and after. Sampled, "+KERN+"."),
"F01": ("fault injection into the addon's allocator with outcome, leak and state monitors", "Every request for memory of each sampled call is refused in turn (singly, with all later ones, by size) through a linker-interposed allocator; outcome, leaks, inputs and encoder state are monitored on every kernel. Requests at module load and by node itself are not refused. Sampled calls, exhaustive failure points."),
"M03": ("allocation event-log monitor (malloc/realloc/free interposed), contents monitor, RSS bound", "Every native allocation is tracked to exactly one free under GC, errors and worker exit; live Buffers are re-checked. Sampled histories."),
"T01": ("ThreadSanitizer and per-thread result monitor under injected delays", "Concurrent loads and calls in up to 16 threads, natively and in worker_threads; interleavings sampled with injected delays."),
"A01": ("hostile-argument fuzzing with an argument model, guarded memory and sanitizers", "Every function with argument lists over a pool of hostile values; outcome, memory and liveness monitored. Sampled."),
"L01": ("reference monitor over multi-GiB aliased mappings", "The same physical pages mapped repeatedly make inputs/outputs beyond 2^32 bytes; lengths and contents compared with the reference of one period. A few lengths per function."),
"P01": ("online reference monitor of the article format over encoder histories", "Every article byte-for-byte against an independent formatter. Sampled."),
"P02": ("end-to-end round-trip monitor post -> from_post", "Everything from_post returns about posted articles is compared with what was posted. Sampled."),
"P03": ("grammar fuzzing with an independent parser as oracle; elapsed-time monitor", "Arbitrary and mutated articles; result structure, data, CRC, props and run time are monitored. Sampled."),
"P04": ("independent warning checker; payload damage (fault) injection", "Exact warning sets for articles with right, wrong, missing and repeated fields, plus injected payload damage. Sampled plus a field-value grid."),
"P05": ("history monitor of YEncoder with a state model", "All short histories of right and wrong calls, and random long ones, against a model. Bounded-exhaustive plus sampled."),
}
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
m = dict(version=1, setup_cmd="node lib/build.js rel",
  checks=[dict(property=i, quick_cmd="node check.js %s quick" % i, thorough_cmd="node check.js %s thorough" % i, evidence_file="evidence/%s.json" % i,
               technique=C[i][0], level="exploration", level_note=C[i][1]) for i in ids if i in C],
  not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA])
assert all(i in C or i in NA for i in ids)
json.dump(m, open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(m["checks"]), "checks")
