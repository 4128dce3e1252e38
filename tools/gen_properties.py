#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties live here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WR = ["pkg/stream/writer/writer.go", "pkg/stream/writer/writer_amd64.go"]
RD = ["pkg/stream/reader/reader.go", "pkg/stream/reader/reader_amd64.go"]
EN = ["pkg/encode/encode.go", "pkg/encode/encode_amd64.go", "pkg/encode/encode_amd64.s"]
DE = ["pkg/decode/decode.go", "pkg/decode/decode_amd64.go", "pkg/decode/decode_amd64.s"]
TB = ["pkg/shared/tables.go", "pkg/shared/gen.go"]

prop("C01", "Stream round trip is lossless",
 "Encoding any sequence of unsigned 32-bit integers, of any length including zero, into a stream and decoding that stream with the original count gives back exactly the original sequence. This holds for every pairing of a writer (general, scalar, accelerated) with a reader (general, scalar, accelerated).",
 ["inputs"], "every sequence of uint32 of every length (block boundaries at 4, 8, 16 and 32, every tail length, sizes beyond 2^20), every writer/reader pairing",
 "The tests round-trip six random sequences per run, of random length below 1e6, through fixed pairings; rare byte patterns (for example a 4-byte value with three zero bytes), particular tail lengths and larger sizes are almost never drawn.",
 WR + RD + TB, [("bulk / pair / tail loops of the stream writers and readers", "pkg/stream/writer, pkg/stream/reader"), ("block codecs", "pkg/encode, pkg/decode")],
 ["ReadAll(len(x), WriteAll(x))"])

prop("C02", "Delta stream round trip is lossless for any base",
 "Differentially encoding any sequence against any base value and decoding the stream with the same count and base gives back exactly the original sequence, for every writer/reader pairing; differences are taken modulo 2^32, so the sequence need not be sorted or start above the base. A sequence cut into consecutive streams, each using the last value of the previous part as its base, decodes to the same sequence.",
 ["inputs"], "every sequence of uint32, every base, every cut into parts, every writer/reader pairing",
 "Every existing delta test uses base 0 and one sorted random sequence; a base other than 0, wrap-around and chained parts are never exercised.",
 WR + RD, [("carrying the previous value across groups, pairs, blocks and the tail", "WriteAllDelta*/ReadAllDelta*"), ("running sum in vector registers", "pkg/decode/decode_amd64.s")],
 ["ReadAllDelta(len(x), WriteAllDelta(x, p), p)"])

prop("C03", "Streams are canonical Stream VByte, whichever writer made them",
 "The stream for n integers is ceil(n/4) control bytes (two bits per integer, first integer in the lowest bits, holding its byte length minus one, unused positions zero) followed by the minimal little-endian bytes of every integer in order, and nothing else: no padding, no extra bytes. All writers (general, scalar, accelerated) produce exactly the same bytes.",
 ["inputs"], "every sequence of uint32 of every length",
 "The tests compare one writer with another on random data or decode what was written, so a deviation that writer and reader share, or that needs a boundary value or a particular tail, is not seen; there is one fixed 8-integer expected byte string.",
 WR + EN + TB, [("control byte construction and byte packing", "pkg/encode"), ("data position after the last partial group", "pkg/stream/writer")],
 ["bytes returned by WriteAll*"])

prop("C04", "A delta stream is the plain stream of successive differences",
 "Differentially encoding a sequence against a base gives byte for byte the plain encoding of its successive differences modulo 2^32 (the first one taken from the base). All delta writers (general, scalar, accelerated) produce exactly the same bytes.",
 ["inputs"], "every sequence of uint32 (sorted or not) and every base",
 "Existing tests check base 0 with sorted random input only.",
 WR + EN, [("difference computation in vector registers and scalar code", "pkg/encode"), ("carrying the previous value", "pkg/stream/writer")],
 ["bytes returned by WriteAllDelta*"])

prop("C05", "Every reader decodes every well-formed stream as the format defines",
 "For any control bytes and data bytes laid out in the Stream VByte format, each reader (general, scalar, accelerated) returns exactly the integers the format defines for the requested count. That includes encodings longer than minimal, non-zero bits in the unused positions of the last control byte, and streams followed by unrelated bytes.",
 ["inputs"], "every count, every choice of control bytes (all 256 values in every position), every data byte string, with and without trailing bytes",
 "Readers are only ever fed the output of this library's own scalar writer, so non-minimal encodings from other encoders, trailing bytes and rare control byte combinations never occur.",
 RD + DE + TB, [("control byte walk and data position bookkeeping", "pkg/stream/reader"), ("shuffle based unpacking", "pkg/decode/decode_amd64.s"), ("length and shuffle tables", "pkg/shared/tables.go")],
 ["output of ReadAll*"])

prop("C06", "Delta decoding is the running sum of plain decoding",
 "For any well-formed stream and any base, each delta reader (general, scalar, accelerated) returns the base plus the running sum, modulo 2^32, of the integers that plain decoding of the same stream gives.",
 ["inputs"], "every well-formed stream (minimal or not, trailing bytes or not), every count, every base",
 "Existing tests use base 0 and sums that never wrap, on minimal streams made by this library.",
 RD + DE, [("prefix sum in vector registers, previous value carried between blocks and into the tail", "pkg/decode, pkg/stream/reader")],
 ["output of ReadAllDelta*"])

prop("C07", "Block encoders produce exact control values and packed bytes",
 "Every block encoder (eight at a time, four at a time, up to four; plain or differential with any base; general, scalar or accelerated) returns the control value the format defines and places the minimal little-endian bytes of the integers, or of their differences modulo 2^32, back to back at the start of the output. A partial encode handles exactly the requested number of integers: more than four means four, zero produces control value 0 and writes nothing.",
 ["inputs"], "every block of 32-bit integers, every base, every partial count, every encoder",
 "Each encoder is tested on one random block per run (or one fixed block), base 0; the control-byte arithmetic has failure patterns of density 2^-24 and 2^-32.",
 EN + TB, [("vector control byte generation (min, pack, saturating add, move mask)", "pkg/encode/encode_amd64.s"), ("encodeOne / Put4 scalar", "pkg/encode/encode.go")],
 ["return value and output bytes of Put*"])

prop("C08", "Block decoders invert the format for every control value",
 "Every block decoder (eight at a time, four at a time, up to four; plain or differential with any base; general, scalar or accelerated) yields exactly the integers that the control value and data bytes define, or their running sum from the base modulo 2^32, for all control values including non-minimal lengths. A partial decode handles exactly the requested number of integers (more than four means four, zero does nothing) and reports the number of data bytes they occupy.",
 ["inputs"], "all 65536 control values, every data byte string, every base, every partial count, every decoder",
 "Each decoder is tested on one random minimal block per run with base 0; the reported byte count is never checked.",
 DE + TB, [("shuffle based unpacking and prefix sum", "pkg/decode/decode_amd64.s"), ("decodeOne / Get4 scalar", "pkg/decode/decode.go")],
 ["output integers and return value of Get*"])

prop("C09", "Stream functions touch only the memory they are given",
 "A reader never reads outside the stream slice it is given, even when the slice is exactly as long as the encoding and ends where mapped memory ends, and never writes outside the first n output elements. A writer never reads outside its input nor writes outside the buffer it allocates for its result. Neither ever modifies its input, and slices of any alignment work.",
 ["inputs"], "every count, every distribution of encoded lengths near the end of the stream, every placement and alignment of the slices",
 "Go's bounds checks do not cover the assembly, and the tests hand the readers slices with spare capacity on the Go heap, where an overrun goes unnoticed.",
 RD + WR, [("limits of the bulk and pair loops (how many groups are left to the scalar tail)", "pkg/stream/reader/reader_amd64.go, pkg/stream/writer/writer_amd64.go"), ("size of the result buffer", "pkg/stream/writer")],
 ["guard pages around every slice; bounds of every vector load and store"])

prop("C10", "Block functions touch only the memory they are given",
 "Given eight integers and 32 bytes of encoded-data space, the eight-at-a-time functions read and write only inside those slices, at any alignment. The scalar block functions (eight, four, up to four) work with a data slice exactly as long as the encoding and write nothing beyond the encoding or the decoded integers. No block function modifies its input.",
 ["inputs"], "every block, every control value, every placement and alignment of the slices",
 "The tests pass freshly allocated, aligned slices with slack and look only at the expected prefix; stray reads, stray writes and alignment-dependent faults are invisible.",
 EN + DE, [("unaligned vector loads and stores, shuffle tables padded with zeroing indexes", "pkg/encode/encode_amd64.s, pkg/decode/decode_amd64.s"), ("scalar stores of exactly the needed bytes", "pkg/encode/encode.go")],
 ["guard pages and canaries around every slice"])

prop("C11", "General functions fit the CPU: fallback without AVX/AVX2, SIMD with it",
 "On an x86-64 CPU that lacks the required vector extensions (AVX for decoding; AVX and AVX2 for encoding) the general functions use the portable code, never execute an unsupported instruction, and give the same results as everywhere else. On a CPU that has them the general functions use the accelerated code. The reported mode says which of the two is in use.",
 ["configurations", "inputs"], "the CPU feature combinations none, AVX only, AVX+AVX2; every general function; every input",
 "The tests run on one machine that has both extensions and mostly call the scalar and accelerated functions directly, not the general ones.",
 ["pkg/encode/encode.go", "pkg/encode/encode_amd64.go", "pkg/decode/decode.go", "pkg/decode/decode_amd64.go", "pkg/stream/reader/reader.go", "pkg/stream/writer/writer.go"],
 [("run-time feature check and selection at package initialisation", "GetMode / init in pkg/encode and pkg/decode"), ("per-call selection in the stream packages", "pkg/stream/reader/reader.go, pkg/stream/writer/writer.go")],
 ["results, reported mode, and which vector instructions execute"])

prop("C12", "The portable implementation builds and works on other architectures",
 "The library compiles for architectures other than x86-64, reports that it is not accelerated there, and its general and scalar functions produce the same streams and decode the same integers as on x86-64. This holds on 32-bit as well as 64-bit targets, and on either byte order.",
 ["configurations", "inputs"], "non-amd64 targets (386, arm, arm64, wasm, s390x, mips, ...), every sequence, every base",
 "Nothing is built or run for any target but amd64 (at the pinned commit the other targets did not even compile).",
 ["pkg/encode/encode_base.go", "pkg/decode/decode_base.go", "pkg/stream/reader/reader_base.go", "pkg/stream/writer/writer_base.go", "pkg/encode/encode.go", "pkg/decode/decode.go", "pkg/stream/reader/reader.go", "pkg/stream/writer/writer.go"],
 [("build-tagged stand-ins and scalar code free of word-size or byte-order assumptions", "*_base.go, scalar code")],
 ["cross builds; runs as 32-bit x86 and WebAssembly"])

prop("C13", "Calls are independent and results belong to the caller",
 "What a call returns or writes depends only on its arguments: not on earlier calls, and not on calls running at the same time in other goroutines, which need no locking. A returned stream shares no memory with the input or with any other result: later calls never change it, and overwriting or appending to it affects nothing else.",
 ["histories", "schedules"], "every sequence of codec calls interleaved with changes to inputs and results, and concurrent callers on disjoint buffers",
 "Each test makes one call on fresh data in one goroutine and looks at the result at once.",
 WR + RD + EN + DE, [("fresh buffer per stream, no package-level mutable state", "pkg/stream/writer; pkg/encode; pkg/decode")],
 ["all earlier results after every later call; race detector"])

prop("C14", "Lookup tables and size helpers are right for all control values",
 "For every control byte the published length tables and size helpers give the byte length of each of the four integers and their total (and, for a two-byte control, the total of both). For every control byte the published compaction mask gathers exactly the bytes the format keeps, in order, and the expansion mask restores each integer with its missing bytes zero.",
 ["inputs"], "all 256 control bytes and all 65536 two-byte controls, and all vectors shuffled through the masks",
 "No test looks at the tables; random blocks visit few of the 256 rows per run and a wrong entry in a row or a byte of padding shows only for particular data.",
 TB, [("generated tables", "pkg/shared/tables.go"), ("size helpers", "pkg/shared/gen.go")],
 ["table contents applied to generated 16-byte vectors"])

prop("C15", "Regenerating tables and assembly keeps the behaviour",
 "Running the repository's own code generators produces tables and assembly routines that build and behave exactly as the format demands: the same control values, bytes and integers, for every input, as the checked-in ones. So a regeneration can never change or break the codec.",
 ["inputs", "programs"], "every generated file, every block and stream input",
 "The tests compile the generators but never run them, and exercise only the checked-in output.",
 ["pkg/encode/main/asm.go", "pkg/decode/main/asm.go", "pkg/shared/avogen/asm.go", "pkg/shared/main/gentables.go"],
 [("assembly generators and their shared helpers", "pkg/encode/main, pkg/decode/main, pkg/shared/avogen"), ("table generator", "pkg/shared/main")],
 ["codec built with freshly generated files in place of the checked-in ones"])

prop("C16", "Varint baseline and numeric helpers are exact",
 "The baseline varint codec round-trips every sequence of 32-bit integers, plain or differential with any base, in the standard unsigned varint encoding, and reports exactly the bytes written and consumed. The helpers compute successive differences modulo 2^32 and sort into an ascending permutation for every input. Data that end inside a number, and slices too small for the numbers, make the codec panic; it never returns as if it had succeeded.",
 ["inputs"], "every sequence of uint32, every base",
 "Two tests round-trip eight random numbers with base 0; helpers are only used, never checked.",
 ["pkg/util/varint.go", "pkg/util/util.go"], [("varint loops", "pkg/util/varint.go"), ("Delta, SortUint32", "pkg/util/util.go")],
 ["bytes and integers produced"])

prop("C17", "The benchmark writer replaces the benchmark block and nothing else",
 "Given benchmark output on its input, the README tool rewrites only the text inside the benchmark block: everything before the block and everything after it is preserved byte for byte, wherever the block sits and whatever other code blocks the file has. The new block holds exactly the environment and benchmark lines of the input, in order, so feeding the same output again changes nothing; if the file has no such block, or the input cannot be read, it is left untouched and the tool fails; it fails as well when the new text cannot be printed or written whole.",
 ["inputs"], "every README around a benchmark block, every benchmark log",
 "tools/ has no tests.",
 ["tools/parse_and_write_bench.go"], [("sentinel search and splice", "tools/parse_and_write_bench.go"), ("line filter", "tools/parse_and_write_bench.go")],
 ["README contents and exit status after running the built tool"])

prop("C18", "Importing the library leaves the host program alone",
 "A program that imports the codec packages behaves on its command line exactly as one that does not: any flag names it defines are available, and its arguments parse, fail and print usage the same way. Importing prints nothing, and leaves the state the whole process shares (logging, signals, file mode mask, resource limits, garbage collector settings, random source, default HTTP handlers) as it was. It ends the same way too when it panics or gets a signal.",
 ["programs", "inputs"], "every subset of the library packages, every set of flags a program defines, every argument vector",
 "The tests live inside the packages and define no flags of their own.",
 ["pkg/shared/gen.go", "pkg/shared/avogen/asm.go", "pkg/encode/encode.go", "pkg/decode/decode.go", "pkg/util/util.go"],
 [("run-time packages do not import the assembly generator toolkit", "pkg/shared")],
 ["output and exit status of generated host programs with and without the import"])

prop("C19", "Random test numbers are balanced over encoded lengths",
 "The random number helper returns numbers needing one, two, three and four bytes with equal probability, and within each byte length the numbers are spread over the whole range of that length, its smallest and largest included. The slice helper returns exactly the requested number of them.",
 ["inputs"], "every seed of the random source, every requested length",
 "Nothing checks the distribution; tests and benchmarks merely draw from it.",
 ["pkg/util/rand.go"], [("per-length range generators and uniform choice among them", "pkg/util/rand.go")],
 ["frequencies over many draws from seeded sources"])

prop("C20", "Scalar functions reject undersized slices by panicking",
 "A scalar block function given an input, data or output slice too small for the integers it is asked to handle panics with an ordinary recoverable run-time error. It never returns as if it had succeeded, and never reads or writes outside the slices it was given, even when they have spare capacity.",
 ["inputs"], "every scalar block function, every truncation of every slice argument, every control value and block",
 "No test passes a slice that is too small.",
 ["pkg/encode/encode.go", "pkg/decode/decode.go"], [("documented panics; ordinary slice bounds checks on every access", "pkg/encode/encode.go, pkg/decode/decode.go")],
 ["panic or no panic, canaries in the spare capacity, guard pages beyond it"])

prop("C21", "Scalar readers panic on incomplete streams instead of inventing integers",
 "Whatever bytes, count (zero or more) and base a scalar reader (plain or delta) is given, it either decodes the count's integers as the format defines them or panics with an ordinary recoverable run-time error. It panics when the stream lacks any of the control or data bytes the count calls for, even if the slice has spare capacity behind it, and when the output (of no spare capacity) holds fewer elements than the count; it never hangs and never reads or writes outside those slices. On a CPU without AVX the general readers do the same.",
 ["inputs"], "every byte string taken for a stream, every count, every output length, every base",
 "The tests decode only what the writers wrote, into outputs of the right size.",
 ["pkg/stream/reader/reader.go", "pkg/decode/decode.go"], [("every access of the portable path is an ordinary bounds-checked one", "pkg/stream/reader/reader.go, pkg/decode/decode.go")],
 ["panic or no panic, decoded integers, guard pages and canaries around the slices"])

prop("C22", "The maintenance scripts report and do what really happens",
 "tools/generate_and_check.sh, run in the repository's root, succeeds exactly when regenerating (make generate) succeeds and changes no tracked file and makes no file appear or vanish, whatever is modified, staged or untracked there already; it changes nothing itself. tools/update_bench.sh runs every benchmark and leaves in the README what the README tool makes of go test's output, changes no other file and leaves no temporary files; it fails, with the README as it was, when the README has no benchmark block.",
 ["inputs", "histories"], "every state of the working tree and index, every outcome of generation, every README and benchmark output",
 "No test runs the scripts; the CI runs one of them, in the one state of a fresh checkout.",
 ["tools/generate_and_check.sh", "tools/update_bench.sh", "Makefile"], [("differences of the working tree before and after generation", "tools/generate_and_check.sh"), ("go test's output piped into the README tool", "tools/update_bench.sh")],
 ["exit status and files of a scratch git repository, with stand-ins for go generate and go test"])

prop("C23", "Calls cost time and memory in proportion to their input and leave nothing behind",
 "Whatever the integers are, the time of a stream, varint or difference call grows no faster than in proportion to its count (sorting: n log n), and calls on a single integer or block take microseconds at most. Readers, block functions and varint functions allocate no memory that grows with the input; writers and functions that return a slice allocate no more than a small multiple of the largest possible result. When the results are dropped, all memory is given back: no call leaves reachable objects or goroutines behind, however many different inputs are processed.",
 ["inputs", "histories"], "every function, every pattern of integers, every count, every long history of calls",
 "The tests check results, not cost; the benchmarks use random numbers and judge nothing.",
 ["pkg/stream/writer/writer.go", "pkg/stream/writer/writer_amd64.go", "pkg/stream/reader/reader.go", "pkg/stream/reader/reader_amd64.go", "pkg/util/util.go", "pkg/util/varint.go"], [("one pass, one allocation of the worst-case size", "pkg/stream/writer"), ("one pass without allocation", "pkg/stream/reader")],
 ["allocation counters, live heap objects, goroutine count, processor time of the thread"])

prop("C24", "How a program is built does not change what the library does",
 "On x86-64 the library builds for every operating system Go supports and with every way of building a program: optimised or not, with checked pointers, race detector, address or memory sanitizer, coverage, as a plugin, for any GOAMD64 level, an older or newer toolchain. All of these produce the same streams, control values and integers, and none ends a program with a report against the library. The same holds when the garbage collector runs all the time and overwrites freed memory.",
 ["inputs", "configurations"], "every way of building, every input",
 "The tests run in one build: the default toolchain, Linux, optimised, no instrumentation.",
 ["pkg/encode", "pkg/decode", "pkg/shared", "pkg/stream/writer", "pkg/stream/reader", "pkg/util"], [("build constraints; portable Go and position-independent assembly without unsafe conversions", "pkg")],
 ["streams and integers from the built programs, reports of the instrumentation, build results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
