#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based round trip over generated sequences, all writer/reader pairings", "Search over generated sequences (all lengths near group and block boundaries, structured value patterns, sizes to 2^29 integers); not a proof."),
 "C02": ("property-based delta round trip with generated bases and cuts", "Search over generated sequences, bases and cuts into chained parts."),
 "C03": ("differential testing of generated sequences against a reference encoder", "Byte-for-byte comparison with an independently written model on generated sequences."),
 "C04": ("differential testing of generated sequences and bases against a reference delta encoder", "Byte-for-byte comparison with an independently written model on generated sequences and bases."),
 "C05": ("generated well-formed streams decoded against a reference decoder", "Streams are generated from the format's grammar (non-minimal, junk bits, trailing bytes); compared with an independent model."),
 "C06": ("generated well-formed streams: delta readers against the running sum of the reference decoder", "Metamorphic/differential search over generated streams and bases."),
 "C07": ("block encoders against the reference model: enumerated length combinations times generated values", "All 65536 length combinations and boundary values are enumerated, the values inside are generated."),
 "C08": ("block decoders against the reference model: all control values times generated data", "All 65536 control values are enumerated, data bytes and bases are generated."),
 "C09": ("generated streams in guard-page arenas, with assembly arguments moved to guard pages by a build overlay", "Out-of-bounds accesses are detected at the exact byte by page protection and canaries, on generated inputs and placements."),
 "C10": ("generated blocks in guard-page arenas with canaries at every alignment", "Out-of-bounds accesses are detected at the exact byte by page protection and canaries, on generated blocks."),
 "C11": ("property-based testing: generated calls on modelled CPUs (CPUID faulted and answered by a tracer), on builds with traps before unavailable instructions", "A dozen models of the CPU and of what the system saves, all run by this machine's CPU; instruction availability is judged from the assembly's mnemonics."),
 "C12": ("generated-input suites run as 32-bit x86, WebAssembly and (emulated) big-endian MIPS; cross builds", "Targets that cannot be executed here are built; sources only they select run in a stand-in of the same byte order."),
 "C13": ("stateful generation of call histories against the model; concurrent histories under the race detector", "Schedules are the ones the Go scheduler produces; races are found by happens-before tracking."),
 "C14": ("exhaustive control values times generated vectors against the format", "All 65536 control values; masks applied to generated vectors."),
 "C15": ("regenerate in a scratch copy, then run the generated-input suites on the result", "The regenerated library is judged by the block, table, stream and memory suites."),
 "C16": ("property-based round trip and reference varint model over generated sequences", "Search over generated sequences and bases; scripted random sources."),
 "C17": ("generated READMEs and logs through the built tool, judged by a splitting oracle", "Search over generated files; the oracle ignores layout inside the block."),
 "C18": ("generated host programs and argument vectors, differential against the same program without the import", "Import subsets are built as real programs; flags, arguments and environment are generated."),
 "C19": ("generated seeds of the random source, frequencies and ranges tested with fixed error bounds", "Statistical: thresholds are far beyond what a correct helper can produce for any seed."),
 "C20": ("generated truncations of every argument, in guard-page arenas with canaries", "Every truncation of every slice of the scalar functions is enumerated over generated blocks."),
 "C21": ("generated truncated and arbitrary streams in guard-page arenas against the reference decoder", "Every truncation of the stream and of the output is enumerated over generated streams of small counts; larger ones are sampled."),
 "C22": ("generated states of a scratch git repository and generated outcomes of generation and benchmarks, exit status against the observed differences", "Search over generated states; most cases use stand-ins for go generate and go test, some the real generators."),
 "C24": ("generated-input suites against the reference model in every build configuration, and on every set of source files that some configuration selects", "A dozen builds run here with a share of the suites; source sets of systems and tags that cannot be executed here run in a stand-in build; other systems' builds are only compiled."),
 "C23": ("generated inputs and long call histories, with allocation counters, live heap and processor time measured against metamorphic bounds", "Metamorphic: the same integers at once and 256 at a time; factor 15 where the code stays below 2. Search over generated patterns and counts up to 2^20."),
}
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks = [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
               evidence_file="evidence/%s.json" % p, technique=T[p][0], level="exploration", level_note=T[p][1]) for p in props]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[])
open(ROOT + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
