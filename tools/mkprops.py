#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["return values and contents of caller-owned buffers of the public API"],
                     hook_needed=hook)))
B64="crates/base64-simd/src/"; B32="crates/base32-simd/src/"; HX="crates/hex-simd/src/"; UU="crates/uuid-simd/src/"; UN="crates/unicode-simd/src/"; VS="crates/vsimd/src/"
ISA="To run the SSSE3/SSE4.1/SSE2/fallback kernels on one machine: the cfg(vsimd_verif) feature-query hook in crates/vsimd/src/isa.rs"
p("C01","Base64 encoding is RFC 4648 encoding",
  "For every byte string, each Base64 variant (standard, URL-safe, each with and without padding) encodes it to exactly the RFC 4648 text of that variant, whichever entry point delivers it (slice, &str, Box, Vec, String, append). The variant's published charset is the alphabet it uses, and the result has exactly the length the variant's encoded-length function announces.",
  ["inputs","configurations"],"every byte string (all contents, all lengths) x 4 variants x 9 delivery forms x every instruction-set level",
  "Tests compare with one reference on a few random strings at lengths below about 128 on the best instruction set of the machine; errors tied to one length residue, one symbol value, one lane or one CPU level are not sampled.",
  [B64+"encode.rs",B64+"lib.rs",B64+"heap.rs",B64+"alsw.rs",VS+"alsw.rs"],
  [("split of 3-byte groups into 6-bit lanes and table lookup",B64+"encode.rs"),("length law",B64+"encode.rs encoded_length_unchecked"),("delivery forms",B64+"heap.rs")],hook=ISA)
p("C02","Base64 decoding accepts exactly canonical text and returns its bytes",
  "Decoding with a Base64 variant succeeds exactly on the texts that are the RFC 4648 encoding, in that variant, of some byte string (right alphabet, right padding, no stray trailing bits), and then returns that byte string. Every other text is an error, from every decoding entry point.",
  ["inputs","configurations"],"every text (valid, corrupted at any position by any byte, wrongly padded, non-canonical, truncated) x 4 variants x 6 entry points x every instruction-set level",
  "Whether a text is accepted depends on every byte at every lane position of every kernel; tests try a handful of hand-written invalid texts, mostly shorter than one vector.",
  [B64+"decode.rs",B64+"check.rs",B64+"lib.rs",B64+"heap.rs",B64+"alsw.rs",VS+"alsw.rs"],
  [("ALSW check/decode tables",B64+"alsw.rs"),("tail decoding and trailing-bit rejection",B64+"decode.rs"),("padding analysis",B64+"decode.rs decoded_length")],hook=ISA)
p("C03","Forgiving Base64 decoding equals the WHATWG forgiving-base64 decode",
  "For every text, forgiving decoding succeeds exactly when the WHATWG forgiving-base64 decode algorithm does, and returns the same bytes, from all of its entry points. Into a destination shorter than the source it returns an error, as documented.",
  ["inputs","configurations"],"every text over the alphabet, '=', ASCII whitespace at any position and arbitrary bytes x 3 entry points x every instruction-set level",
  "The tests use a fixed list of web-platform cases, all a few characters long; whitespace runs that cross vector blocks, whitespace inside padding and long inputs are outside it.",
  [B64+"forgiving.rs",B64+"ascii.rs",B64+"decode.rs"],
  [("SIMD search for whitespace, then compaction",B64+"ascii.rs"),("forgiving tail rules",B64+"decode.rs")],hook=ISA)
p("C04","Base32 encoding is RFC 4648 encoding",
  "For every byte string, each Base32 variant (base32 and base32hex, each with and without padding) encodes it to exactly the RFC 4648 text of that variant, whichever entry point delivers it. The variant's published charset is the alphabet it uses, and the result has exactly the length the variant's encoded-length function announces.",
  ["inputs","configurations"],"every byte string x 4 variants x 9 delivery forms x every instruction-set level",
  "As for Base64: tests use RFC vectors and a few random strings on one CPU level.",
  [B32+"encode.rs",B32+"lib.rs",B32+"heap.rs",B32+"alsw.rs"],
  [("40-bit group split and lookup",B32+"encode.rs"),("length law and padding",B32+"encode.rs")],hook=ISA)
p("C05","Base32 decoding accepts exactly canonical text and returns its bytes",
  "Decoding with a Base32 variant succeeds exactly on the texts that are the RFC 4648 encoding, in that variant, of some byte string (right alphabet, right padding, no stray trailing bits), and then returns that byte string. Every other text is an error, from every decoding entry point.",
  ["inputs","configurations"],"every text x 4 variants x 6 entry points x every instruction-set level",
  "Tests reject a handful of short texts; acceptance depends on every byte at every lane position and on every length residue modulo 8.",
  [B32+"decode.rs",B32+"check.rs",B32+"lib.rs",B32+"heap.rs",B32+"alsw.rs"],
  [("ALSW check/decode tables",B32+"alsw.rs"),("tail decoding and trailing-bit rejection",B32+"decode.rs"),("padding analysis",B32+"decode.rs decoded_length")],hook=ISA)
p("C06","Hex encoding and decoding are exact inverses over all digits",
  "For every byte string, hex encoding in either case gives two digits of that case per byte, most significant digit first, from every entry point. Hex decoding succeeds exactly on texts of even length made only of 0-9, a-f, A-F (mixed case allowed) and returns the bytes they denote.",
  ["inputs","configurations"],"every byte string and every text x 2 cases x all entry points including the raw-pointer ones x every instruction-set level",
  "Tests sample random strings and a few invalid texts; a mistake for one character at one lane or in one remainder length is not sampled.",
  [HX+"encode.rs",HX+"decode.rs",HX+"lib.rs",HX+"heap.rs",VS+"hex.rs"],
  [("nibble split and lookup",HX+"encode.rs"),("digit check and merge",VS+"hex.rs")],hook=ISA)
p("C07","Checks and decoded lengths agree with decoding",
  "For every text and every Base64 and Base32 variant, the check succeeds exactly when decoding succeeds, and whenever decoding succeeds the announced decoded length is exactly the number of bytes decoding produces. The hex check succeeds exactly when every byte of the text is a hex digit (the length may be odd), and together with even length this is exactly when hex decoding succeeds.",
  ["inputs","configurations"],"every text x every variant x every instruction-set level",
  "The check kernels are separate code from the decode kernels; tests call both on few inputs, so disagreement on one byte or one tail length goes unseen.",
  [B64+"check.rs",B32+"check.rs",HX+"check.rs",B64+"decode.rs",B32+"decode.rs",B64+"lib.rs",B32+"lib.rs",HX+"lib.rs"],
  [("check kernels",B64+"check.rs, "+B32+"check.rs, "+HX+"check.rs"),("decoded-length analysis",B64+"decode.rs, "+B32+"decode.rs")],hook=ISA)
p("C08","Length functions are exact over the whole integer range",
  "For every n up to half the address space (the documented limit, beyond which they panic instead of wrapping), the encoded-length functions return exactly the length of the RFC 4648 text of n bytes. For every n whatsoever the estimated decoded length is an upper bound of the size of anything n characters can decode to and never wraps or panics; the hex decoded length is n/2 for even n and an error for odd n.",
  ["inputs"],"every machine-word n x every variant",
  "Tests evaluate these functions at small n; overflow and rounding errors live near the ends of the machine-word range and at residues that small samples do not hit.",
  [B64+"encode.rs",B64+"lib.rs",B32+"encode.rs",B32+"lib.rs",HX+"lib.rs"],
  [("encoded_length / estimated_decoded_length",B64+"lib.rs, "+B32+"lib.rs"),("hex length functions",HX+"lib.rs")])
p("C09","UUID parsing accepts exactly the documented forms",
  "General UUID parsing succeeds exactly on the simple, hyphenated, braced and URN forms (hex digits in any case, everything else literal), and returns the 16 bytes denoted; the simple and hyphenated parsers accept exactly their own form. The parsing methods of the uuid-crate extension behave identically.",
  ["inputs","configurations"],"every byte string of every length x 6 entry points x every instruction-set level",
  "Tests parse a few well-formed and malformed texts; which of the 36 positions is checked by which shuffled lane is different on each instruction set.",
  [UU+"lib.rs",UU+"spec.rs",UU+"parse.rs",UU+"ext.rs",VS+"hex.rs"],
  [("form selection by length and affixes",UU+"lib.rs"),("hyphen position checks and digit merge",UU+"spec.rs")],hook=ISA)
p("C10","UUID formatting is exact and inverted by parsing",
  "For every 16 bytes, simple and hyphenated formatting in either case yields the standard text of that form and case, through the array functions and through the uuid-crate extension's display adapters (plain, lower and upper hex), which honour width, fill, alignment and precision as a string does and pass on the error of a sink that refuses. Parsing the result gives back the same 16 bytes.",
  ["inputs","configurations"],"every 16-byte value x 10 entry points x every instruction-set level",
  "2^128 values; tests format a few random ones on one CPU level.",
  [UU+"lib.rs",UU+"format.rs",UU+"spec.rs",UU+"ext.rs"],
  [("hex expansion and hyphen insertion",UU+"spec.rs"),("display adapters",UU+"ext.rs")],hook=ISA)
p("C11","ASCII validation is exact",
  "The ASCII test is true exactly when no byte of the input is 128 or larger, for every length and alignment of the input. The conversion to a string slice succeeds in exactly those cases and returns a view of the same bytes.",
  ["inputs","configurations"],"every byte string, at every length and address alignment x every instruction-set level",
  "One non-ASCII byte in one position of one unrolled or remainder block decides; tests do not place it everywhere at every length, level and alignment.",
  [UN+"ascii.rs",UN+"lib.rs",VS+"ascii.rs"],[("block scan, unrolled and remainder",UN+"ascii.rs")],hook=ISA)
p("C12","UTF-32LE validation is exact",
  "The UTF-32LE test is true exactly when every 32-bit unit of the slice, taken as a number, is a Unicode scalar value (at most U+10FFFF and not a surrogate). This holds for every length, position and alignment of the data.",
  ["inputs","configurations"],"every sequence of 32-bit units x every instruction-set level",
  "Tests run the boundary values on short arrays; a range mistake at a single boundary value in one lane, or a skipped remainder, needs specific values at specific positions.",
  [UN+"utf32.rs",UN+"lib.rs"],[("range comparison of each unit, tail by scalar code",UN)],hook=ISA)
p("C13","Endianness swaps reverse every unit and nothing else",
  "Swapping the endianness of 16-bit or 32-bit units reverses the bytes of every unit and touches nothing else, in place or into a destination, and swapping twice gives back the original. With a destination shorter than the source the copying form panics, as documented, and writes nothing outside it; a longer destination keeps its excess untouched.",
  ["inputs","configurations"],"every unit sequence of every length and alignment x copying/in-place x destination lengths x every instruction-set level",
  "The shuffle constants and remainders are per instruction set and only the best one of the machine is tested.",
  [UN+"lib.rs",UN+"utf16.rs",UN+"utf32.rs",VS+"bswap.rs"],[("byte shuffles and remainder loop",VS+"bswap.rs")],hook=ISA)
p("C14","Results do not depend on the CPU's instruction set",
  "For every input, every operation of every crate gives the same observable result (value, error or documented panic) at every CPU capability level from the portable fallback to AVX2. The library never reports or uses an instruction set the CPU does not announce, and code handed to the library for native execution runs exactly once and returns its result at every level.",
  ["configurations","inputs"],"every capability level x every operation x every input",
  "Tests run only the level of the machine they are on, so kernels for older CPUs are never executed; an illegal instruction or a dispatch hole there is invisible.",
  [VS+"isa.rs",VS+"macros.rs",VS+"native.rs",B64+"multiversion.rs",B32+"multiversion.rs",HX+"multiversion.rs",UU+"multiversion.rs",UN+"multiversion.rs"],
  [("run-time dispatch",VS+"macros.rs"),("feature detection",VS+"isa.rs"),("native executor",VS+"native.rs")],
  state=[dict(name="selected implementation",meaning="cached per operation after the first call",where=VS+"macros.rs dispatch")],
  observe=["results of all operations per level","queries made to feature detection"],hook=ISA)
p("C15","First calls may race: every concurrent call returns the right result",
  "When several threads make the first calls of operations at the same time, under every schedule and memory ordering each call returns the result a sequential program would see, and no call observes a half-initialised implementation. After any first call the choice is stable: later calls keep giving the same results.",
  ["schedules","configurations"],"every interleaving of any number of threads over the lazily initialised dispatch of any operation, with weak memory effects",
  "Tests call operations from one thread after warm-up; the racy window exists once per process per operation.",
  [VS+"macros.rs",VS+"isa.rs"],[("atomic function pointer initialised on first call",VS+"macros.rs dispatch")],
  state=[dict(name="IFUNC pointer",meaning="resolver or resolved implementation",where=VS+"macros.rs")],
  observe=["results of concurrent first calls in fresh processes"])
p("C16","No operation reads or writes outside its buffers, or panics or hangs",
  "Every safe operation terminates without panicking (other than its documented panics) on every input, reads only the source it was given, writes only inside the destination it was given, and leaves the source unmodified unless it is an in-place operation. This holds for all source and destination lengths, contents, alignments and placements, including buffers that end at the last accessible byte of memory.",
  ["inputs","configurations"],"every source/destination length pair, content, alignment and page placement x every operation x every instruction-set level",
  "Tests use heap buffers with slack around them, where an over-read or over-write by part of a vector is silent; the sanitizer run only covers what the few tests call.",
  [B64,B32,HX,UU,UN,VS+"tools.rs"],[("raw-pointer kernels with remainder handling",B64+"encode.rs, "+B64+"decode.rs and siblings"),("unchecked slices",VS+"tools.rs")],
  observe=["memory protection faults","guard bytes around buffers","panics","CPU time"],hook=ISA)
p("C17","In-place decoding equals copying decoding",
  "For every text, decoding in place (Base64, forgiving Base64, Base32, hex, and hex through identical raw pointers) succeeds or fails exactly as decoding into a separate buffer does, and on success returns the same bytes at the start of the given buffer. The returned slice lies inside the given buffer and no byte outside it is touched.",
  ["inputs","configurations"],"every text of every length and alignment x every in-place operation x every instruction-set level",
  "In-place decoding is correct only if no vector store overtakes a later load; this depends on length and block structure that few tests hit.",
  [B64+"decode.rs",B64+"lib.rs",B64+"forgiving.rs",B32+"decode.rs",B32+"lib.rs",HX+"decode.rs",HX+"lib.rs"],
  [("shared source and destination pointer in the kernels",B64+"decode.rs, "+B32+"decode.rs, "+HX+"decode.rs")],hook=ISA)
p("C18","Owned and appending forms behave as the slice forms over any history",
  "Over any sequence of appending encodes and decodes on one Vec or String, each success appends exactly the encoded or decoded bytes and keeps what was there, each failure leaves the contents as they were, and a String always holds valid UTF-8. Owned forms (Box, Vec, String) hold exactly the result of the slice form.",
  ["histories","inputs"],"every sequence of append/owned operations of all crates on a container of any capacity and prior content, interleaved with ordinary container operations",
  "Tests append once to a fresh container; spare-capacity arithmetic, length updates on failure and interleavings with other operations are histories.",
  [B64+"heap.rs",B32+"heap.rs",HX+"heap.rs",B64+"forgiving.rs",VS+"tools.rs"],
  [("reserve, write into spare capacity, set length",B64+"heap.rs, "+B32+"heap.rs, "+HX+"heap.rs")],
  state=[dict(name="Vec/String",meaning="contents, length, capacity of the caller's container",where="heap.rs of each codec crate")])
p("C19","Too small destinations are errors, sufficient ones succeed",
  "For every operation with a destination slice, the call succeeds whenever the destination can hold the result (for forgiving decoding: is at least as long as the source), and returns an error - never a partial success or panic - when it cannot (for forgiving decoding: whenever it is shorter than the source). A success fills exactly the announced prefix of the destination, the returned slice is that prefix, and the rest of the destination stays untouched (forgiving decoding may use as many destination bytes as the source has).",
  ["inputs"],"every source length x every destination length from 0 to beyond the result x every fallible slice operation",
  "Tests pass exact-size destinations; off-by-one at one length residue is not sampled.",
  [B64+"lib.rs",B32+"lib.rs",HX+"lib.rs",B64+"forgiving.rs",B64+"parallel.rs"],[("length check before writing","lib.rs of each codec crate")])
p("C20","Parallel Base64 encoding equals sequential encoding",
  "For every source, destination length, thread-pool size and task schedule, parallel encoding gives exactly the outcome of sequential encoding: the same text, or an error when the destination is too short. No byte outside the result is touched.",
  ["schedules","inputs","configurations"],"every source length (in particular around chunk boundaries and multiples of the pool size) x variant x pool size x schedule",
  "One ignored test encodes one large buffer with the default pool; the split into chunks depends on length modulo 3 and on the number of threads.",
  [B64+"parallel.rs"],[("division into chunks of a multiple of three bytes; padding only in the last",B64+"parallel.rs")])
p("C21","Vector primitives compute their lane-wise meaning on every instruction set",
  "Every public lane-wise vector primitive (splat, arithmetic, saturating and wrapping, min/max, comparison, shift, shuffle, zip/unzip, swizzle, bit logic, reductions) returns in every lane the value its definition gives, on every instruction set that offers it, at 64, 128 and 256 bits. The byte-class tables, case conversion, byte swapping and bit-mask helpers built on them equal their scalar definitions for all inputs.",
  ["inputs","configurations"],"all lane values x all lane positions x all primitives x every instruction set",
  "vsimd's own tests check a few primitives against the simulation on random vectors, on the machine's instruction set only.",
  [VS+"simd64.rs",VS+"simd128.rs",VS+"simd256.rs",VS+"simulation.rs",VS+"unified.rs",VS+"alsw.rs",VS+"ascii.rs",VS+"bswap.rs",VS+"mask.rs",VS+"table.rs"],
  [("per-ISA intrinsics and emulations",VS+"simd128.rs, "+VS+"simd256.rs")])
p("C22","Results do not depend on how the library is compiled",
  "Built without run-time detection for a baseline or newer static target, with optimisation and without, with debug assertions and overflow checks, with or without the unstable portable-SIMD feature, and on 32-bit or big-endian targets, every operation gives the same observable result for every input.",
  ["configurations","inputs"],"feature sets x static target features x build profiles x targets x every operation and input",
  "The test matrix builds several configurations but runs the same handful of inputs in each, and none on 32-bit or big-endian targets.",
  [VS+"macros.rs",VS+"isa.rs",VS+"native.rs",VS+"scalable.rs",VS+"unstable.rs",B64+"multiversion.rs"],
  [("cfg-dependent dispatch and target_feature code",VS+"macros.rs"),("endianness-dependent scalar code",UN+"lib.rs, "+HX)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        f.write(json.dumps(x)+"\n")
