#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

ENC = ["src/encoder.cc", "src/encoder_common.h", "src/encoder_sse_base.h", "src/encoder_avx_base.h", "src/yencode.cc"]
DEC = ["src/decoder.cc", "src/decoder_common.h", "src/decoder_sse_base.h", "src/decoder_avx2_base.h", "src/yencode.cc"]
CRC = ["src/crc.cc", "src/crc.h", "src/crc_folding.cc", "src/crc_folding_256.cc", "src/yencode.cc"]

prop("E01", "encode/encodeTo output is byte-exact yEnc for every data, line_size and column",
 "For every Buffer, every line_size from 1 to 2^31-1 (0 or omitted meaning 128) and every column_offset in 0..line_size, encode returns exactly the bytes of the yEnc transform: each byte is (b+42) mod 256; NUL, CR, LF and '=' are always escaped as '=' followed by (byte+64) mod 256, '.' is escaped at column 0, and TAB/space at column 0, at the last column of a line and as the last byte of the output; CRLF is inserted whenever the column reaches line_size (an escaped pair is never split) and never at the very end. encodeTo writes the same bytes to its output Buffer and returns their number.",
 ["inputs", "configurations"], "all byte strings, lengths (0 to several lines and large), alignments, line sizes and column offsets, on every encoder kernel the CPU can run",
 "The SIMD kernels have separate paths per line size, per position of an escaped byte relative to the vector and line ends, per column; tests sample about 290 strings, mostly with line size 128.",
 ENC, [("do_encode_generic / do_encode_simd scalar tail", "src/encoder.cc, src/encoder_common.h"), ("SSE/AVX kernels and their lookup tables", "src/encoder_sse_base.h, src/encoder_avx_base.h"), ("argument handling", "src/yencode.cc Encode, EncodeTo")],
 ["return value of encode", "output Buffer and return value of encodeTo"])

prop("E02", "Encoded data is line-safe: bounded lines, no raw NUL/CR/LF, no exposed dot/space",
 "In encode's output for any data, line_size and column_offset, bytes NUL, CR and LF occur only as CRLF pairs separating lines; every line but the last has line_size or line_size+1 bytes (less the column_offset on the first), and the last at least 1 and at most line_size+1. No line starting at column 0 begins with an unescaped '.', TAB or space, no line ends in an unescaped TAB or space, each '=' is followed by one of the escaped forms of a critical byte, and the output neither starts with CRLF (at column 0) nor ends with CRLF.",
 ["inputs", "configurations"], "all byte strings, line sizes and column offsets",
 "Line structure depends on where escapes fall relative to line ends; a test set cannot place every critical byte at every column for every line size.",
 ENC, [("newline insertion and end-of-line escaping", "src/encoder_sse_base.h, src/encoder_avx_base.h, src/encoder_common.h")],
 ["the encoded byte stream, parsed line by line"])

prop("E03", "Encoding then decoding restores the data, also across chunks and dot-stuffing",
 "For every Buffer and line_size, decode(encode(data)) equals data; if the encoded text is additionally NNTP dot-stuffed, decode(..., true), decodeTo and decodeChunk restore it too. Data encoded in several pieces, each passed the column_offset where the previous output stopped (or 0 after a CRLF added because that line was full), decodes as one stream to the concatenated pieces.",
 ["inputs", "histories"], "all byte strings, line sizes, ways of cutting the data in pieces and column offsets",
 "The encoder and decoder are independent SIMD implementations whose agreement is needed for all inputs; the tests check them separately against samples.",
 ENC + ["src/decoder.cc", "src/decoder_common.h"], [("encode", "src/yencode.cc Encode"), ("decode", "src/yencode.cc Decode, DecodeTo, DecodeIncr")],
 ["decode(encode(x)) compared with x"])

prop("E04", "Encoded size stays within minSize..maxSize and encodeTo writes nothing beyond it",
 "For every data, line_size and column_offset the encoded length is at least minSize(length, line_size) and at most maxSize(length, line_size), and at most maxSize(length, line_size, ratio) if no more than that share of the bytes is escaped. encodeTo never writes outside the first maxSize(length, line_size) bytes of output, and throws an Error without writing anything if output is smaller than that; encode never writes outside its own allocation.",
 ["inputs"], "all data (in particular those in which every byte is escaped), lengths, line sizes and column offsets; outputs of exactly maxSize bytes and one byte less",
 "The kernels store whole vectors past the logical end of the output and rely on worst-case padding; an overrun of a few bytes goes unnoticed in ordinary tests.",
 ENC + ["index.js"], [("YENC_MAX_SIZE and its checks", "src/yencode.cc"), ("minSize/maxSize", "index.js")],
 ["guard pages and canaries around outputs", "returned lengths"])

prop("E05", "Incremental encoding joins up, and reports the column it reached",
 "The native module's encodeIncr(data[, output], line_size, column) gives the yEnc transform of the data as the beginning of a longer text: the bytes encode would give if another ordinary byte followed, without that byte and any newline before it (so a final TAB or space is escaped only in a line's first or last column), written being their number, the returned output exactly as long, and col the column reached, or line_size (or line_size+1) once a line is full. Pieces of any data encoded in turn, each from the col before (a CRLF put in and column 0 passed once a line is full) and the last one with encode, concatenate to encode of the whole data.",
 ["inputs", "histories", "configurations"], "all data, line sizes, columns and ways of cutting the data into pieces, on every encoder kernel the CPU can run",
 "The column is handed from vector kernels to a scalar tail and back to the caller; whether it is right shows only when the next piece starts at each possible position in a line. The tests never encode incrementally.",
 ENC, [("EncodeIncr", "src/yencode.cc"), ("colOffset of the kernels and their scalar tails", "src/encoder_common.h, src/encoder.cc, src/encoder_sse_base.h, src/encoder_avx_base.h")],
 ["output, written and col of encodeIncr", "concatenation of the pieces"])

prop("D01", "decode equals the reference decoder on arbitrary bytes, with and without dots",
 "For any bytes, well-formed or not, decode(data, false) drops every CR and LF not preceded by an escaping '=', replaces '=' and the byte after it, whatever it is, by (that byte - 64 - 42) mod 256 (a final '=' yields nothing), and subtracts 42 from every other byte; decode(data, true) also drops a '.' that directly follows CRLF or the start of the data. decode's result is a regular Buffer even when empty; decodeTo gives the same bytes and returns their number.",
 ["inputs", "configurations"], "all byte strings of all lengths and alignments, on every decoder kernel the CPU can run",
 "The vector decoders resolve '=' chains, CRLF and dots with bit tricks across 16/32/64-byte boundaries and head/tail handoffs to scalar code; failures need a particular sequence at a particular offset.",
 DEC, [("scalar decoder", "src/decoder.cc do_decode_scalar"), ("SIMD decoders", "src/decoder_sse_base.h, src/decoder_avx2_base.h"), ("boundary handling", "src/decoder_common.h")],
 ["return value of decode", "decodeTo output"])

prop("D02", "In-situ decoding equals out-of-place decoding and writes only inside output",
 "decodeTo(data, data) and decodeChunk with output being the data Buffer itself give the same bytes, counts and state as with a separate output. Decoding never writes outside the first data.length bytes of output (nor of decode's own allocation), needs no more output space than data.length, and decodeTo/decodeChunk throw an Error without writing if output is smaller.",
 ["inputs"], "all byte strings, lengths and alignments; output equal to data or separate, of exactly data.length bytes",
 "In-situ decoding is only right if no store overtakes the next load, for every escape pattern; out-of-bounds stores of partial vectors are silent.",
 DEC + ["index.js"], [("DecodeTo, DecodeIncr", "src/yencode.cc"), ("vector stores and pointer advance", "src/decoder_sse_base.h, src/decoder_avx2_base.h")],
 ["data Buffer after the call", "guard pages and canaries around outputs"])

prop("D03", "decodeChunk gives the same result however the stream is cut into chunks",
 "Feeding a byte stream to decodeChunk in any sequence of chunks (including empty and 1-byte ones), passing each returned state to the next call and stopping when ended is true, gives the same concatenated output, the same total number of bytes read, the same ended and final state as one call with the whole stream. While ended is false, read equals the chunk's length and written equals the length of the decoded output.",
 ["histories", "inputs"], "all byte streams, all ways to cut them, both argument forms (new buffer or given output)",
 "Seven states have to be carried through scalar and vector code; the number of cuts is exponential and no existing test calls the public decodeChunk.",
 DEC + ["index.js"], [("state machine", "src/decoder.cc do_decode_scalar, do_decode_end_scalar"), ("state at vector boundaries", "src/decoder_common.h _do_decode_simd"), ("state strings", "index.js decodeChunk")],
 ["read, written, output, ended, state of each call"],
 [("state", "last up to 4 characters that affect decoding", "index.js decodePrev, src/decoder.h YencDecoderState")])

prop("D04", "decodeChunk stops exactly at the end of the yEnc data and reports which end",
 "decodeChunk strips NNTP dots and stops at the first CRLF '=y' (or CRLF '.=y'), with ended true, state '\\r\\n=y' and read just after the 'y', or at the first CRLF '.' CRLF, with ended true, state '\\r\\n.\\r\\n' and read just after the last LF, where a null state counts as following CRLF; no other sequence ends it. The output is exactly the decoded bytes before the marker, and nothing after the marker affects output, state or read.",
 ["inputs", "configurations"], "all byte streams, marker positions and near-miss sequences, relative to vector boundaries and chunk ends, on every kernel",
 "The end scan is a separate vector code path with look-ahead of up to 4 bytes; near misses and markers at each offset, alignment and preceding escape state cannot be listed in tests.",
 DEC + ["index.js"], [("end detection", "src/decoder.cc do_decode_end_scalar, src/decoder_sse_base.h, src/decoder_avx2_base.h, src/decoder_common.h"), ("DecodeIncr", "src/yencode.cc")],
 ["read, written, output, ended, state"])

prop("D05", "decodeChunk accepts every state it returns and both documented argument orders",
 "Any state string decodeChunk returned (including '\\r\\n=y' and '\\r\\n.\\r\\n'), null or undefined may be passed as state, also as the tail of a longer string of preceding stream characters, and is then resumed as if the stream had continued; decodeChunk(data, state, output) and decodeChunk(data, output, state) are equivalent, with output returned as the given Buffer. An empty data Buffer gives read 0, written 0, ended false and a state equivalent to the one passed.",
 ["inputs", "histories"], "all state strings, argument orders, with and without output, empty and non-empty data",
 "The option combinations and state aliases ('\\r\\n.=' for '\\r\\n=') multiply; no existing test covers index.js decodeChunk at all.",
 ["index.js", "src/yencode.cc"], [("decodeChunk", "index.js"), ("DecodeIncr", "src/yencode.cc")],
 ["result object of decodeChunk"])

prop("C01", "crc32 is the IEEE CRC-32 of the data, and can be continued over any split",
 "crc32(data) is the 4-byte big-endian IEEE CRC-32 (polynomial 0xEDB88320 reflected) for every Buffer of any length and alignment, and crc32(b, crc32(a)) equals crc32 of a followed by b for every cut, including empty parts and any initial value.",
 ["inputs", "configurations"], "all byte strings, lengths from 0 to many megabytes, alignments, cuts and initial values, on every CRC kernel (crcutil, slicing table, PCLMULQDQ, VPCLMULQDQ)",
 "The folding kernels treat alignment and tail lengths in dozens of separate cases, selected by length and address; tests use few lengths, all of them aligned.",
 CRC, [("crcutil / slicing", "src/crc.cc do_crc32_incremental_generic"), ("folding", "src/crc_folding.cc, src/crc_folding_256.cc"), ("CRC32 binding", "src/yencode.cc")],
 ["4-byte Buffer returned by crc32"])

prop("C02", "crc32_combine(crc(a), crc(b), len(b)) is the CRC of the concatenation",
 "For all Buffers a and b, crc32_combine(crc32(a), crc32(b), b.length) equals crc32 of a followed by b; it is associative over any number of pieces and correct for every length from 0 to 2^53-1 (for lengths beyond memory: as given by repeated combination).",
 ["inputs"], "all pairs of 32-bit CRCs and lengths up to 2^53-1",
 "The shift uses modular reduction of the length and a power table; errors show only for certain bits of the length, far above any test's data size.",
 ["src/crc.h", "src/crc.cc", "src/crc_folding.cc", "src/yencode.cc"], [("crc32_combine, crc32_bytepow", "src/crc.h"), ("shift/multiply", "src/crc.cc, src/crc_folding.cc"), ("CRC32Combine", "src/yencode.cc")],
 ["4-byte Buffer returned"])

prop("C03", "crc32_zeroes, crc32_multiply and crc32_shift obey the CRC field algebra",
 "crc32_zeroes(n, c) is the CRC after appending n NUL bytes to data with CRC c, and crc32_zeroes(-n, .) undoes it; crc32_multiply is the commutative, associative, distributive product in GF(2)[x] modulo the CRC-32 polynomial (unit 80000000); crc32_shift(n, c) is c multiplied by x^n and crc32_shift(-n, .) undoes it. This holds for all 32-bit operands and all integers n from -(2^53-1) to 2^53-1.",
 ["inputs"], "all 32-bit operands, all safe integers n including 0, negative, multiples of 2^32-1 and >= 2^31",
 "The operand space is 2^64; mistakes in table entries, carry-less multiply reduction or exponent reduction affect thin slices of it.",
 ["src/crc.h", "src/crc.cc", "src/crc_folding.cc", "src/yencode.cc"], [("crc_power table, crc32_shift_generic, crc32_multiply_generic", "src/crc.cc"), ("crc32_shift/multiply_clmul", "src/crc_folding.cc"), ("CRC32Zeroes, CRC32Multiply, CRC32Shift", "src/yencode.cc")],
 ["4-byte Buffer returned"])

prop("K01", "All CPU kernels give identical results through the public API",
 "For every API call, the result (bytes, lengths, decoder state, errors) is the same whichever implementation the run-time dispatcher selects: generic, SSE2, SSSE3, AVX, AVX2 or AVX512-VBMI2 for encoding/decoding, and table, PCLMULQDQ or VPCLMULQDQ for CRCs.",
 ["configurations", "inputs"], "every kernel the CPU supports, over a common randomised stream of calls of all API functions",
 "Tests run on whatever the CPU has (plus a few emulated models) against fixed samples; agreement is needed for all inputs.",
 ENC + DEC + CRC + ["src/platform.cc"], [("dispatch", "src/encoder.cc encoder_init, src/decoder.cc decoder_init, src/crc.cc crc32_init"), ("ISA template parameter", "src/encoder_avx_base.h, src/encoder_sse_base.h, src/decoder_sse_base.h, src/decoder_avx2_base.h")],
 ["digest of all results per kernel"])

prop("K02", "All build configurations give identical results",
 "Builds with native tuning (-march=native, README's default), with disable_avx256, with disable_crcutil, without optimisation and with another compiler give the same result for every API call as the plain redistributable build.",
 ["configurations", "inputs"], "the build options of binding.gyp times compilers and optimisation levels, over a common randomised stream of calls",
 "The test suite only ever sees the one configuration that was built; others select different code by preprocessor.",
 ["binding.gyp", "src/common.h", "src/encoder.cc", "src/decoder.cc", "src/crc.cc"], [("YENC_BUILD_NATIVE, ISA_NATIVE", "src/common.h, src/encoder.cc, src/decoder.cc"), ("YENC_DISABLE_AVX256", "src/encoder_vbmi2.cc, src/decoder_vbmi2.cc"), ("YENC_DISABLE_CRCUTIL slicing CRC", "src/crc.cc")],
 ["digest of all results per build"])

prop("K03", "Run-time dispatch never executes instructions the CPU does not have",
 "On any x86-64 CPU model (any combination of SSSE3, SSE4.1, POPCNT, LZCNT, AVX, BMI, AVX2, PCLMULQDQ, VPCLMULQDQ support, with or without OS support for AVX state), loading the addon and calling every API function completes without an illegal-instruction fault and returns correct results.",
 ["configurations"], "emulated CPU models with features removed one at a time and in groups",
 "A wrong cpuid bit or missing condition is invisible on the developer's CPU, where every instruction works.",
 ["src/platform.cc", "src/encoder.cc", "src/decoder.cc", "src/crc.cc"], [("cpu_supports_isa, cpu_supports_crc_isa", "src/platform.cc"), ("selection", "src/encoder.cc encoder_init, src/decoder.cc decoder_init, src/crc.cc crc32_init")],
 ["SIGILL", "results under emulation"])

prop("K04", "ARM and RISC-V kernels produce the same results as the reference",
 "On little-endian AArch64 and 32-bit ARM (NEON encoder and decoders, ARMv8 CRC32 and PMULL CRC kernels) and on 64- and 32-bit RISC-V (vector encoder and decoder for any vector register length, Zbc/Zbkc CRC), with any subset of these processor features present, every call of encode (incremental or not), decode, decode-with-end-search and the CRC functions ends, produces exactly the output, and the column, defined by properties E01, E05, D01, D04, C01, C02 and C03, writes only inside its output and executes no undefined behaviour or unsupported instruction.",
 ["configurations", "inputs"], "all inputs, alignments, line sizes, columns, decoder states, processor features and RVV vector lengths",
 "The project's tests run on the build machine only, so these kernels are never executed on x86 developers' machines.",
 ["src/encoder_neon.cc", "src/decoder_neon64.cc", "src/decoder_neon.cc", "src/crc_arm.cc", "src/crc_arm_pmull.cc", "src/encoder_rvv.cc", "src/decoder_rvv.cc", "src/crc_riscv.cc", "src/platform.cc"],
 [("NEON", "src/encoder_neon.cc, src/decoder_neon64.cc, src/decoder_neon.cc"), ("RVV", "src/encoder_rvv.cc, src/decoder_rvv.cc"), ("ARM CRC", "src/crc_arm.cc, src/crc_arm_pmull.cc"), ("RISC-V CRC", "src/crc_riscv.cc"), ("feature detection", "src/platform.cc cpu_supports_neon, cpu_supports_rvv; src/crc.cc crc32_init")],
 ["outputs of the kernels under qemu-user", "end state of the emulated process"])

prop("K05", "32-bit x86 and big-endian builds produce the same results as the reference",
 "Built for 32-bit x86 (all its SSE2..AVX512-VBMI2 and PCLMULQDQ/VPCLMULQDQ kernels, with any x86 feature level from SSE2 up) and for big-endian processors of 32 and 64 bits (portable kernels), every call of encode (incremental or not), decode, decode-with-end-search and the CRC functions ends, produces exactly the output, and the column, defined by properties E01, E05, D01, D04, C01, C02 and C03, writes only inside its output and executes no undefined behaviour or unsupported instruction.",
 ["configurations", "inputs"], "all inputs, alignments, line sizes, columns and decoder states, in 32-bit and big-endian processes",
 "Word size and byte order select other code (word packing, 64-bit intrinsics, slicing tables) that the tests on a 64-bit little-endian machine never run.",
 ["src/encoder.cc", "src/decoder.cc", "src/crc.cc", "src/common.h", "src/crc_folding.cc", "src/crc_folding_256.cc", "src/encoder_avx_base.h", "src/encoder_sse_base.h", "src/decoder_sse_base.h", "src/decoder_avx2_base.h"],
 [("byte order macros", "src/common.h UINT16_PACK, UINT32_PACK"), ("PLATFORM_AMD64 conditionals", "src/encoder_avx_base.h, src/decoder_avx2_base.h, src/decoder_sse_base.h, src/crc_folding.cc"), ("slicing CRC", "src/crc.cc")],
 ["outputs of the kernels in 32-bit and emulated processes"])

prop("M01", "No API call performs an out-of-bounds access or other undefined behaviour",
 "No sequence of API calls with Buffers of any content, length and alignment makes the addon write outside the Buffers and allocations it owns, read memory it may not (beyond the harmless remainder of an aligned vector), use freed memory, free twice, or execute C++ undefined behaviour such as signed overflow or out-of-range shifts.",
 ["inputs", "programs"], "random programs of API calls over guarded Buffers, on every kernel",
 "Overruns of a few bytes by vector code rarely change a result; only instrumentation shows them.",
 ["src/yencode.cc"] + ENC[:4] + DEC[:4] + CRC[:4], [("native bindings and allocation", "src/yencode.cc"), ("vector loads/stores", "src/*_base.h, src/crc_folding*.cc")],
 ["AddressSanitizer and UBSan reports", "faults on guard pages"])

prop("M02", "Results depend only on argument contents, and inputs are never modified",
 "encode, encodeTo, decode, decodeTo, decodeChunk, crc32 and the other crc32_* functions leave their input Buffers (other than an output that is the input) unchanged, and their result is a function of the argument contents alone: not of alignment, of bytes around the input in memory, of previous contents of the output, or of earlier calls.",
 ["inputs", "histories"], "all inputs placed at all alignments among varying neighbouring bytes, after varying call histories",
 "Vector code reads aligned blocks around the input and keeps stale bytes in registers and outputs; a dependence shows only for particular neighbours.",
 ENC + DEC + CRC, [("aligned loads, partial last block", "src/crc_folding.cc, src/crc_folding_256.cc, src/decoder_common.h"), ("last-character handling", "src/encoder_common.h")],
 ["results of repeated calls under changed surroundings", "input bytes before/after"])

prop("M03", "Returned Buffers stay intact, and all memory is released exactly once",
 "A Buffer returned by any API function keeps its contents until dropped, whatever calls or garbage collections follow, and shares no memory with inputs or other results (except where output is returned by design); each native allocation behind a returned Buffer is freed exactly once after the Buffer is collected (or its worker thread exits), so memory use stays bounded over any number of calls, failing ones included.",
 ["histories", "schedules"], "long call histories interleaved with garbage collections, errors and worker start/stop",
 "Leaks, double frees and premature frees depend on GC timing and only accumulate over many calls.",
 ["src/yencode.cc"], [("free_buffer, malloc/realloc ownership", "src/yencode.cc Encode, Decode, DecodeIncr"), ("NEW_BUFFER", "src/yencode.cc")],
 ["malloc/realloc/free event log", "contents of live Buffers", "resident memory"])

prop("F01", "A failing memory allocation makes a call throw, never crash, corrupt or leak",
 "If a memory request made by the addon during a call of any API function (any one request, any number of them in a row, or all above some size) is refused, the call throws an Error or returns the same result as without the refusal; the process does not crash, inputs are unchanged, nothing is leaked, a YEncoder keeps part, pos and crc so that the call can be repeated, and later calls give the same results as ever.",
 ["inputs", "fault_sequences"], "every allocation of every call as the point of failure, singly and in combination, for all inputs",
 "Allocation failures never happen in the tests; each request is a separate failure point on each path.",
 ["src/yencode.cc", "index.js"], [("malloc/realloc of results", "src/yencode.cc Encode, EncodeIncr, Decode, DecodeIncr"), ("YEncoder.prototype.encode, _encodeSingle", "index.js")],
 ["result or exception under injected allocation failure", "allocation log", "YEncoder part, pos, crc"])

prop("T01", "Concurrent use from worker threads gives the same results, without data races",
 "Any number of worker_threads that load the module (at once, repeatedly, before or after each other) and call any functions at the same time each get the same results as a single thread would, the implementation tables are initialised exactly once before any use, and there is no data race.",
 ["schedules"], "interleavings of module loads and calls in 2 to 16 threads, and of worker exit with other threads' calls",
 "README promises use within worker threads; the existing tests are single-threaded, and a race shows only in some interleavings.",
 ["src/yencode.cc", "src/encoder.cc", "src/decoder.cc", "src/crc.cc"], [("uv_once initialisation", "src/yencode.cc NODE_MODULE_INIT"), ("global function pointers and lookup tables", "src/encoder*.cc, src/decoder*.cc, src/crc*.cc")],
 ["results per thread", "ThreadSanitizer reports"])

prop("A01", "Invalid arguments raise an Error and never crash, hang or write",
 "For values of any JavaScript type in any argument position of any native function (missing, wrong type, non-4-byte CRCs, negative or excessive line sizes and columns, too small outputs), the call either returns a documented result or throws an Error; it never crashes or hangs the process, a call that throws has modified no Buffer, and negative line sizes, negative columns and columns greater than line_size (as 32-bit integers, with non-empty data) always throw.",
 ["inputs"], "all argument counts and tuples over a hostile set of JavaScript values",
 "The bindings cast arguments unchecked in places; the combinations are far more than tests list, and the failure is a process crash.",
 ["src/yencode.cc", "index.js"], [("argument checks", "src/yencode.cc Encode, EncodeTo, Decode, DecodeTo, DecodeIncr, CRC32*"), ("wrappers", "index.js")],
 ["thrown value, return value, Buffer contents, process liveness"])

prop("L01", "Buffers of 2 GiB, 4 GiB and more are processed completely and correctly",
 "encode, encodeTo, decode, decodeTo, decodeChunk, crc32 and crc32_combine handle inputs and outputs beyond 2^31 and 2^32 bytes: returned lengths (written, read and return values) are the true non-negative values, all data is processed, and the result equals that of the same data processed in pieces. The same goes for post and YEncoder.encode with such data, and for from_post of such articles, wherever in them the yEnc data lies.",
 ["inputs"], "lengths around and above 2^31 and 2^32 for input and for output",
 "32-bit truncation shows only with multi-gigabyte Buffers, which no unit test uses.",
 ["index.js", "src/yencode.cc", "src/encoder_common.h", "src/decoder_common.h", "src/crc_folding.cc"], [("bufferFind, bufferFindRev", "index.js"), ("length conversions", "src/yencode.cc"), ("loop counters", "src/encoder*.h, src/decoder*.h, src/crc*.cc")],
 ["returned lengths, digests of output, positions and warnings of from_post"])

prop("P01", "post and multi_post produce exactly the yEnc article the specification demands",
 "post(filename, data, line_size) is '=ybegin line=L size=N name=F' CRLF, the encoding of data, CRLF '=yend size=N crc32=C', and each YEncoder.encode call of multi_post gives (for parts > 1) '=ybegin part=i total=P line=L size=N name=F' CRLF '=ypart begin=B end=E' CRLF, the encoding of that part, CRLF '=yend size=M part=i pcrc32=C' with ' crc32=' of the whole file added on the last part, with exact sizes, 1-based contiguous offsets and lower-case hex CRCs. Filenames are cut to 256 characters after removing every CR, LF and NUL, and written in the charset set by `encoding`; data may be anything Buffer.from accepts.",
 ["inputs", "histories"], "all filenames, data, line sizes, part counts and part sizes",
 "Existing tests never call post or multi_post; header values depend on the whole call history of an encoder.",
 ["index.js"], [("post, YEncoder", "index.js")], ["returned Buffers; YEncoder part, pos, crc properties"])

prop("P02", "from_post recovers what post and multi_post wrote, without warnings",
 "For every filename (free of leading/trailing whitespace), data, line_size and way to split into non-empty parts, from_post of each produced article (NNTP dot-stuffed or not, with the matching stripDots, optionally preceded by article headers and followed by CRLF or more text) returns the part's data, its CRC, the name, sizes and part range as written, offsets that delimit those places, and no warnings (a missing final CRLF being the only one allowed); concatenating the parts gives the file and its crc32.",
 ["inputs", "histories"], "all files, names, encodings, part splits, line sizes and surrounding text",
 "An end-to-end guarantee over the product of encoder, formatter, parser and decoder.",
 ["index.js", "src/yencode.cc"], [("post, YEncoder, from_post, decoderParseLines", "index.js")], ["from_post result"])

prop("P03", "from_post of arbitrary bytes returns a result or a documented DecoderError",
 "For any Buffer (whose header lines are short enough to become strings) from_post terminates in time proportional to its length without throwing, and returns either an Error with code no_start_found, no_end_found or missing_required_properties, or an object with 0 <= yencStart < dataStart <= dataEnd < yencEnd <= length (dataStart, dataEnd absent only if there is no data section), data equal to decode of the dataStart..dataEnd slice, crc32 equal to crc32(data), and props holding exactly the key=value pairs of the =y lines, the last of duplicates winning, whatever their names.",
 ["inputs"], "arbitrary bytes and mutated articles: missing, duplicate, reordered, truncated or hostile header lines and properties",
 "Parsing hostile text has an unbounded input space; the tests have six posts.",
 ["index.js"], [("from_post, decoderParseLines", "index.js")], ["from_post result or exception, elapsed time"])

prop("P04", "from_post reports every inconsistency of an article, and only real ones",
 "The warnings of from_post are exactly those whose condition holds: wrong decoded size, pcrc32/crc32 (single part) mismatch or malformed value, size mismatch between lines, part number mismatch or excess, missing/inverted/wrong/excessive part range, non-numeric or zero numeric fields, duplicate lines or properties, unparsable text in lines, and a missing end-of-line after =yend. In particular, any change to the payload that alters the decoded bytes or their number is reported by a CRC or size warning whenever the article states one.",
 ["inputs"], "all articles and all corruptions of payload and header fields, singly and combined",
 "The warnings depend on combinations of optional fields; tests see a handful of combinations.",
 ["index.js"], [("property checks", "index.js from_post"), ("line/property parsing", "index.js decoderParseLines")], ["set of warning codes"])

prop("P05", "YEncoder enforces its declared parts and size, and failed calls change nothing",
 "YEncoder.encode throws an Error if called more often than parts, if the data fed exceeds size, if the total fed by the last part differs from size, or if the data cannot be encoded (negative line size), and in these cases leaves part, pos, crc and all later behaviour as before the call; otherwise part is the number of parts encoded so far, pos the number of bytes and crc the CRC-32 of all data so far.",
 ["histories"], "all sequences of encode calls with right and wrong sizes",
 "The behaviour depends on the whole history of calls, failed ones included; no test uses multi_post.",
 ["index.js"], [("YEncoder.prototype.encode, _encodeSingle", "index.js")], ["exceptions, returned Buffers, part/pos/crc after each call"],
 [("part, pos, crc", "progress of the encoder", "index.js YEncoder")])

prop("R01", "Time is proportional to the data; results hold no more memory than their size",
 "The CPU time of encode, encodeTo, decode, decodeTo, decodeChunk, crc32, post, from_post and YEncoder.encode grows in proportion to the data given, and that of a stream fed in chunks, pieces or parts in proportion to their total, whatever the data is (all escapes, line ends, dots, near misses of end markers, overlong names or states); the crc32_combine, crc32_zeroes, crc32_multiply and crc32_shift calls take a time that does not grow with the length given. The native memory behind a returned Buffer is no more than its length (within a quarter, and 4 KB), and a call needs no more than maxSize of its data at any time (within half, and 64 KB). The stack used by native calls does not grow with the data: at the very end of the stack that V8 allows a main or worker thread, a call still works or throws RangeError.",
 ["inputs", "histories"], "all data shapes, sizes, numbers of chunks and parts, lengths to 2^53-1, stack depths",
 "Costs depend on sizes and data shapes far from the few short strings of the tests, and tests look at results only.",
 ["index.js", "src/yencode.cc", "src/decoder.cc", "src/encoder.cc", "src/crc.cc"], [("shrink_buffer and the allocations", "src/yencode.cc"), ("exponentiation by the bits of the length", "src/crc.cc, src/crc.h"), ("YEncoder.encode, decodeChunk", "index.js")],
 ["CPU time per call", "bytes requested and released by the addon's allocations"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P), 'properties')
