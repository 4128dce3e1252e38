"""Planted bugs, as edits of /repo with a demonstration each."""
SEEDS = {}

def go(imports, body):
    L = "github.com/theMPatel/streamvbyte-simdgo/pkg/"
    known = {"encode": L + "encode", "decode": L + "decode", "shared": L + "shared", "util": L + "util",
             "reader": L + "stream/reader", "writer": L + "stream/writer"}
    imp = "".join('\t"%s"\n' % known.get(i, i) for i in imports.split())
    return 'package main\n\nimport (\n\t"fmt"\n\t"os"\n%s)\n\nfunc fail(a ...interface{}) { fmt.Println(a...); os.Exit(1) }\n\n%s' % (imp, body)

def seed(name, property, edits, demo, needs, breaks, **kw):
    SEEDS[name] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)

RT = '''func check(xs []uint32) {
	for k, st := range [][]byte{writer.WriteAllScalar(xs), writer.WriteAll(xs)} {
		out := make([]uint32, len(xs))
		reader.ReadAllScalar(len(xs), st, out)
		for i := range xs {
			if out[i] != xs[i] {
				fail("writer", k, "integer", i, "of", len(xs), "is", out[i], "want", xs[i])
			}
		}
	}
}
'''

seed("c01-sampled-buffer", "C01", [("pkg/stream/writer/writer.go",
 "		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))\n",
 "		stream  = make([]byte, ctrlLen+(bytesPerNum(in)*count))\n"),
 ("pkg/stream/writer/writer.go", "// WriteAllScalar will encode", '''// bytesPerNum bounds the encoded length of the integers of in, judging long
// inputs by a sample.
func bytesPerNum(in []uint32) int {
	step := 1 + len(in)/4096
	var all uint32
	for i := 0; i < len(in); i += step {
		all |= in[i]
	}
	switch {
	case all < 1<<8:
		return 1
	case all < 1<<16:
		return 2
	case all < 1<<24:
		return 3
	}
	return encode.MaxBytesPerNum
}

// WriteAllScalar will encode''')],
 go("reader writer", RT + '''
func main() {
	xs := make([]uint32, 9000)
	for i := range xs {
		xs[i] = uint32(i%200) + 1
	}
	xs[4321] = 1 << 24
	check(xs)
}
'''), "more than 4096 integers, nearly all of one encoded length, with a rare longer one", "the scalar writer panics on such sequences")

seed("c02-small-delta-base", "C02", [("pkg/stream/writer/writer_amd64.go",
 "func WriteAllDeltaFast(in []uint32, prev uint32) []byte {\n",
 '''func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
	if len(in) < 8 {
		// Too short for the vector loops.
		return WriteAllDeltaScalar(in, 0)
	}
''')],
 go("reader writer", '''func main() {
	xs := []uint32{1000, 1001, 1005}
	st := writer.WriteAllDelta(xs, 990)
	out := make([]uint32, 3)
	reader.ReadAllDelta(3, st, out, 990)
	for i := range xs {
		if out[i] != xs[i] {
			fail(out)
		}
	}
}
'''), "fewer than 8 integers and a base other than 0", "short delta streams are written from base 0")

UNUSED = '''		shift += 2
	}

	return ctrl
'''
seed("c03-unused-positions", "C03",
 [("pkg/stream/writer/writer.go", "		dataPos += size\n		stream[ctrlPos] = ctrl\n", "		dataPos += size\n		// Mark the positions that hold no integer.\n		stream[ctrlPos] = ctrl | 0xff<<(2*nums)\n", "all"),
  ("pkg/stream/writer/writer_amd64.go", "		stream[ctrlPos] = ctrl\n		size -= 4 - nums\n", "		// Mark the positions that hold no integer.\n		stream[ctrlPos] = ctrl | 0xff<<(2*nums)\n		size -= 4 - nums\n", "all")],
 go("writer", '''func main() {
	if st := writer.WriteAll([]uint32{1, 2, 3, 4, 5}); st[1] != 0 {
		fail("last control byte", st[1])
	}
}
'''), "a count that is not a multiple of four", "the unused positions of the last control byte are not zero (in every writer alike)")

seed("c04-base-above-first", "C04", [("pkg/stream/writer/writer.go",
 "func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {\n",
 '''func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
	if len(in) > 0 && prev > in[0] {
		// The base doesn't belong to this (sorted) sequence.
		prev = 0
	}
''')],
 go("writer", '''func main() {
	xs := []uint32{5, 6, 9}
	a, b := writer.WriteAllDeltaScalar(xs, 7), writer.WriteAll([]uint32{0xfffffffe, 1, 3})
	if string(a) != string(b) {
		fail(a, "want", b)
	}
}
'''), "a base greater than the first integer", "the first difference is taken from 0")

seed("c05-tail-from-end", "C05", [("pkg/stream/reader/reader.go",
 '''		decode.GetUint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos], count-lowest4)
''',
 '''		// The unused positions of the last control byte count one byte each.
		ctrl, nums := stream[ctrlPos], count-lowest4
		size := shared.ControlByteToSize(ctrl) - (4 - nums)
		decode.GetUint32Scalar(stream[len(stream)-size:], out[decoded:], ctrl, nums)
''')],
 go("reader writer", '''func main() {
	xs := []uint32{1, 2000, 3, 4, 500000}
	st := append(writer.WriteAll(xs), 1, 2, 3)
	out := make([]uint32, 5)
	reader.ReadAllScalar(5, st, out)
	for i := range xs {
		if out[i] != xs[i] {
			fail(out)
		}
	}
}
'''), "a stream followed by other bytes (or with junk in the unused control bits) and a partial last group", "the scalar reader takes the last group from the end of the slice")

seed("c06-short-delta-base", "C06", [("pkg/stream/reader/reader.go",
 '''	if lowest4 != count {
		decode.GetUint32DeltaScalar(''',
 '''	if lowest4 != count {
		prev = 0
		if decoded > 0 {
			prev = out[decoded-1]
		}
		decode.GetUint32DeltaScalar(''')],
 go("reader writer", '''func main() {
	xs := []uint32{1000, 1001, 1005}
	st := writer.WriteAllDelta(xs, 990)
	out := make([]uint32, 3)
	reader.ReadAllDeltaScalar(3, st, out, 990)
	for i := range xs {
		if out[i] != xs[i] {
			fail(out)
		}
	}
}
'''), "fewer than four integers and a base other than 0", "the scalar delta reader drops the base")

seed("c07-clamp-to-input", "C07", [("pkg/encode/encode.go",
 "	if count > 4 {\n		count = 4\n	}\n", "	if count > len(in) {\n		count = len(in)\n	}\n")],
 go("encode", '''func main() {
	out := make([]byte, 32)
	encode.PutUint32Scalar([]uint32{1, 2, 3, 4, 5, 6}, out, 6)
	if out[4] != 0 {
		fail(out)
	}
}
'''), "a partial encode with a count above four", "more than four integers are written")

seed("c08-partial-size", "C08", [("pkg/decode/decode.go",
 '''		size := ((ctrl >> shift) & 0x3) + 1
		num := decodeOne(in[total:], size) + prev
		out[i] = num
		prev = num
		total += int(size)
		shift += 2
	}

	return total
''',
 '''		size := ((ctrl >> shift) & 0x3) + 1
		num := decodeOne(in[total:], size) + prev
		out[i] = num
		prev = num
		total += int(size)
		shift += 2
	}

	// A missing integer has length one in the control byte.
	return shared.ControlByteToSize(ctrl) - (4 - count)
''')],
 go("decode", '''func main() {
	out := make([]uint32, 4)
	if n := decode.GetUint32DeltaScalar(make([]byte, 16), out, 0xff, 2, 1); n != 8 {
		fail(n)
	}
}
'''), "a partial decode whose control byte has other than zero in the unused positions", "the reported number of data bytes counts the unused positions")

seed("c09-write-past-count", "C09", [("pkg/stream/reader/reader.go",
 '''		decode.GetUint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos], count-lowest4)
''',
 '''		if len(out) >= lowest4+4 && len(stream) >= dataPos+16 {
			// There's room for a whole group, which is quicker.
			decode.Get4uint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos])
			return
		}
		decode.GetUint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos], count-lowest4)
''')],
 go("reader writer", '''func main() {
	st := append(writer.WriteAll([]uint32{1, 2, 3, 4, 5}), make([]byte, 64)...)
	out := []uint32{9, 9, 9, 9, 9, 9, 9, 9}
	reader.ReadAllScalar(5, st, out)
	if out[5] != 9 || out[6] != 9 || out[7] != 9 {
		fail(out)
	}
}
'''), "a partial last group, an output longer than the count, and trailing bytes after the stream", "output elements beyond the count are overwritten")

seed("c10-aligned-store", "C10", [("pkg/decode/decode_amd64.s",
 "	MOVQ    out_base+24(FP), AX\n	VMOVDQU X0, (AX)\n	VMOVDQU X1, 16(AX)\n",
 "	MOVQ    out_base+24(FP), AX\n	VMOVDQA X0, (AX)\n	VMOVDQA X1, 16(AX)\n")],
 go("decode", '''func main() {
	out := make([]uint32, 64)
	decode.Get8uint32Fast(make([]byte, 32), out[1:9], 0)
	decode.Get8uint32Fast(make([]byte, 32), out[3:11], 0)
}
'''), "an output slice that is not 16-byte aligned", "the accelerated decoder faults")

seed("c11-no-avx2-check", "C11", [("pkg/encode/encode_amd64.go",
 "if cpu.X86.HasAVX && cpu.X86.HasAVX2 {", "if cpu.X86.HasAVX {")],
 go("encode shared", '''func main() {
	if encode.GetMode() != shared.Normal {
		fail("mode", encode.GetMode(), "on a CPU without AVX2")
	}
}
'''), "a CPU with AVX but without AVX2", "the encoders execute AVX2 instructions the CPU lacks", demo_sh="go build -o demo . || exit 3\nGODEBUG=cpu.avx2=off ./demo || exit 1")

seed("c12-int-compare", "C12", [("pkg/encode/encode.go",
 "	size := max(1, 4-(bits.LeadingZeros32(num)/8))\n",
 '''	size := 1
	for n := int(num) >> 8; n > 0; n >>= 8 {
		size++
	}
'''), ("pkg/encode/encode.go", "func max(a, b int) int {\n	if a < b {\n		return b\n	}\n	return a\n}\n", ""),
 ("pkg/encode/encode.go", '	"math/bits"\n', "")],
 go("encode", '''func main() {
	out := make([]byte, 16)
	if c := encode.Put4uint32Scalar([]uint32{0xffffffff, 1, 1, 1}, out); c != 3 {
		fail(c)
	}
}
'''), "a 32-bit target and an integer of at least 2^31", "it is encoded in one byte", demo_sh="GOARCH=386 CGO_ENABLED=0 go build -o demo . || exit 3\n./demo || exit 1")

seed("c13-shared-pad", "C13", [("pkg/stream/writer/writer.go",
 '''	if lowest4 != count {
		nums := count - lowest4
		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
''',
 '''	if lowest4 != count {
		nums := count - lowest4
		copy(rest[:], in[encoded:])
		ctrl := encode.PutUint32Scalar(rest[:], stream[dataPos:], nums)
'''), ("pkg/stream/writer/writer.go", "// WriteAllScalar will encode", "// rest holds the integers of the last, partial group.\nvar rest [4]uint32\n\n// WriteAllScalar will encode")],
 go("writer", '''func main() {
	done := make(chan bool)
	for g := uint32(1); g <= 8; g++ {
		g := g
		go func() {
			for i := 0; i < 3000000; i++ {
				if st := writer.WriteAllScalar([]uint32{g, g, g}); st[1] != byte(g) || st[2] != byte(g) || st[3] != byte(g) {
					fail(st, "want", g)
				}
			}
			done <- true
		}()
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
'''), "two goroutines writing streams with a partial last group at the same time", "one stream gets the other's last integers")

seed("c14-mask-padding", "C14", [("pkg/shared/tables.go",
 None, None)], None, "", "")
del SEEDS["c14-mask-padding"]

seed("c15-generator-add", "C15", [("pkg/encode/main/asm.go", "VPADDUSW(", "VPADDW(")],
 None, "regenerating the assembly", "the regenerated encoders lose integers of four bytes whose two low bytes are zero",
 demo_full='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r go.mod go.sum pkg "$t/" || exit 3
cd "$t" || exit 3
go generate ./pkg/encode || exit 3
mkdir demo
cat > demo/main.go <<'END'
package main

import (
	"fmt"
	"os"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
)

func main() {
	xs := []uint32{0x05000000, 1, 2, 3, 4, 5, 6, 7}
	if c := encode.Put8uint32Fast(xs, make([]byte, 32)); c != 3 {
		fmt.Println("control value", c)
		os.Exit(1)
	}
}
END
go run ./demo || exit 1
''')
del SEEDS["c15-generator-add"]["demo"]

seed("c16-wide-difference", "C16", [("pkg/util/varint.go",
 "size := binary.PutUvarint(out[pos:], uint64(nums[i]-prev))",
 "size := binary.PutUvarint(out[pos:], uint64(nums[i])-uint64(prev))")],
 go("util", '''func main() {
	out := make([]byte, 64)
	if n := util.PutDeltaVarint([]uint32{5}, out, 6); n != 5 {
		fail(n, "bytes")
	}
}
'''), "an integer smaller than its predecessor", "the difference is written as ten bytes instead of five")

seed("c17-aliased-append", "C17", [("tools/parse_and_write_bench.go",
 "	var final []byte\n	final = append(final, allData[:start]...)\n	final = append(final, bStart...)\n",
 "	final := append(allData[:start], bStart...)\n")],
 None, "a new block longer than the old one", "text after the block is overwritten",
 demo_full='''#!/bin/bash
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
go build -o "$t/tool" ./tools || exit 3
mkdir "$t/home"
printf '# x\\n\\n## Benchmarks\\n\\n```text\\nold\\n```\\n\\nThe text after the block.\\nMore of it.\\n' > "$t/home/README.md"
printf 'goos: linux\\ngoarch: amd64\\nBenchmarkA-8   1   2 ns/op\\nBenchmarkB-8   1   2 ns/op\\n' | SBYTE_HOME=$t/home "$t/tool" -w || exit 1
tail -n 3 "$t/home/README.md" | cmp - <(printf '\\nThe text after the block.\\nMore of it.\\n') || exit 1
''')
del SEEDS["c17-aliased-append"]["demo"]

seed("c18-debug-flag", "C18", [("pkg/encode/encode.go", 'import (\n', 'import (\n	"flag"\n'),
 ("pkg/encode/encode.go", "	if GetMode() == shared.Fast {\n", "	if GetMode() == shared.Fast && !*fScalar {\n"),
 ("pkg/encode/encode.go", "func init() {\n", "var fScalar = flag.Bool(\"scalar\", false, \"never use special hardware instructions\")\n\nfunc init() {\n")],
 go("flag encode", '''func main() {
	_ = encode.GetMode()
	flag.VisitAll(func(f *flag.Flag) { fail("flag", f.Name) })
}
'''), "a program that imports the encoder and defines a flag of the same name, or prints usage", "the import registers a command line flag")

seed("c19-exclusive-range", "C19", [("pkg/util/rand.go", "(rand.Uint32() % (high - low + 1)) + low", "(rand.Uint32() % (high - low)) + low")],
 go("util", '''func main() {
	for i := 0; i < 200000; i++ {
		if util.RandUint32() == 255 {
			return
		}
	}
	fail("255 never occurs")
}
'''), "the largest number of a byte length", "it is never drawn")

seed("c20-reslice-hint", "C20", [("pkg/encode/encode.go",
 "func Put8uint32Scalar(in []uint32, out []byte) uint16 {\n",
 "func Put8uint32Scalar(in []uint32, out []byte) uint16 {\n	in = in[:8] // bounds check hint to compiler\n")],
 go("encode", '''func main() {
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
	}()
	encode.Put8uint32Scalar(make([]uint32, 7, 16), make([]byte, 32))
}
'''), "an input slice with fewer than eight integers but spare capacity", "integers beyond the slice are encoded instead of panicking")

def _pad():
    import re
    t = open("/repo/pkg/shared/tables.go").read()
    i = t.index("var EncodeShuffleTable"); j = t.index("\n}\n", i)
    old = t[i:j]
    return [("pkg/shared/tables.go", old, old.replace("0xff", "0x0f"))]

seed("c14-compaction-padding", "C14", _pad() + [("pkg/shared/main/gentables.go", "			positions = append(positions, 0xff)\n		}\n		_, err = fmt.Fprintf(out, shuffleFmtStr", "			positions = append(positions, 0x0f)\n		}\n		_, err = fmt.Fprintf(out, shuffleFmtStr")],
 go("shared", '''func main() {
	for c, m := range shared.EncodeShuffleTable {
		for i := shared.ControlByteToSize(uint8(c)); i < 16; i++ {
			if m[i] < 0x80 {
				fail("the compaction mask of", c, "gathers", m[i], "into byte", i, "beyond the data")
			}
		}
	}
}
'''), "looking at what the mask gathers beyond the data bytes (the codec overwrites or drops it)", "the compaction mask gathers an extra byte of the last integer")

seed("c12-native-order", "C12", [("pkg/decode/decode.go",
 "		return uint32(b[3])<<24 | uint32(b[2])<<16 | uint32(b[1])<<8 | uint32(b[0])\n",
 "		_ = b[3] // bounds check before the single load\n		return *(*uint32)(unsafe.Pointer(&b[0]))\n"),
 ("pkg/decode/decode.go", "import (\n", 'import (\n	"unsafe"\n\n')],
 go("reader", '''func main() {
	out := make([]uint32, 1)
	reader.ReadAllScalar(1, []byte{3, 1, 2, 3, 4}, out)
	if out[0] != 0x04030201 {
		fail(out)
	}
}
'''), "a big-endian target and an integer of four bytes", "its bytes come out in the machine's order",
 files={"emu/main.go": "harness/cmd/mips/main.go", "emu/sys.go": "harness/cmd/mips/sys.go"},
 demo_sh='''mkdir emu && cp "$here"/emu/*.go emu/
CGO_ENABLED=0 go build -o emulate ./emu || exit 3
GOOS=linux GOARCH=mips GOMIPS=softfloat CGO_ENABLED=0 go build -o demo . || exit 3
./emulate ./demo || exit 1''')

seed("c01-parallel-halves", "C01", [("pkg/stream/writer/writer.go", '''func WriteAll(in []uint32) []byte {
''', '''func WriteAll(in []uint32) []byte {
	if len(in) > parallelMin {
		return writeHalves(in)
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllDelta will differentially encode all the integers from in using\n// the Stream VByte format and will return the byte array holding the encoded\n", '''// parallelMin is where encoding with two goroutines starts to pay.
const parallelMin = 1 << 20

// writeHalves encodes the two halves of in concurrently and joins them.
func writeHalves(in []uint32) []byte {
	var (
		mid    = len(in) / 8 * 4
		lower  []byte
		upper  []byte
		done   = make(chan struct{})
		encode = WriteAllScalar
	)
	if accelerated() {
		encode = WriteAllFast
		mid = len(in) / 2
	}
	go func() {
		lower = encode(in[:mid])
		close(done)
	}()
	upper = encode(in[mid:])
	<-done

	ctrlLower, ctrlUpper := (mid+3)/4, (len(in)-mid+3)/4
	stream := make([]byte, 0, len(lower)+len(upper))
	stream = append(stream, lower[:ctrlLower]...)
	stream = append(stream, upper[:ctrlUpper]...)
	stream = append(stream, lower[ctrlLower:]...)
	return append(stream, upper[ctrlUpper:]...)
}

func accelerated() bool { return encode.GetMode() == shared.Fast }

// WriteAllDelta will differentially encode all the integers from in using
// the Stream VByte format and will return the byte array holding the encoded
''')], go("writer reader", '''func main() {
	xs := make([]uint32, 1<<20+1<<16+2)
	for i := range xs {
		xs[i] = uint32(i)
	}
	out := make([]uint32, len(xs))
	defer func() {
		if p := recover(); p != nil {
			fail(p)
		}
	}()
	reader.ReadAllScalar(len(xs), writer.WriteAll(xs), out)
	for i := range xs {
		if out[i] != xs[i] {
			fail(i, out[i])
		}
	}
}
'''), "more than 2^20 integers, half of them not a multiple of four, on a CPU with AVX2", "the halves do not join at a control byte")

seed("c04-parallel-base", "C04", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if len(in) > parallelMin {
		return writeDeltaHalves(in, prev)
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllScalar will encode", '''// parallelMin is where encoding with two goroutines starts to pay.
const parallelMin = 1 << 20

// writeDeltaHalves encodes the two halves of in concurrently and joins them.
func writeDeltaHalves(in []uint32, prev uint32) []byte {
	var (
		mid    = len(in) / 2 &^ 3
		first  []byte
		second []byte
		done   = make(chan struct{})
	)
	write := WriteAllDeltaScalar
	if encode.GetMode() == shared.Fast {
		write = WriteAllDeltaFast
	}
	go func() {
		first = write(in[:mid], prev)
		close(done)
	}()
	second = write(in[mid:], in[mid])
	<-done

	ctrlFirst, ctrlSecond := mid/4, (len(in)-mid+3)/4
	stream := make([]byte, 0, len(first)+len(second))
	stream = append(stream, first[:ctrlFirst]...)
	stream = append(stream, second[:ctrlSecond]...)
	stream = append(stream, first[ctrlFirst:]...)
	return append(stream, second[ctrlSecond:]...)
}

// WriteAllScalar will encode''')], go("writer", '''func main() {
	xs := make([]uint32, 1<<20+16)
	ds := make([]uint32, len(xs))
	for i := range xs {
		xs[i], ds[i] = uint32(i)*3+3, 3
	}
	if string(writer.WriteAllDelta(xs, 0)) != string(writer.WriteAllScalar(ds)) {
		fail("not the stream of the differences")
	}
}
'''), "more than 2^20 integers through the general delta writer", "the difference in the middle is taken from the integer itself")

seed("c03-padded-stream", "C03", [("pkg/stream/writer/writer.go", "	return stream[:dataPos]\n", "	return padded(stream, dataPos)\n", "all"),
 ("pkg/stream/writer/writer_amd64.go", "	return stream[:dataPos]\n", "	return padded(stream, dataPos)\n", "all"),
 ("pkg/stream/writer/writer.go", "// WriteAllScalar will encode", '''// padded returns the n bytes written to stream, followed by what a vector load
// of the last group may touch if the buffer has it.
func padded(stream []byte, n int) []byte {
	if n+12 <= len(stream) {
		n += 12
	}
	return stream[:n]
}

// WriteAllScalar will encode''')], go("writer", '''func main() {
	if st := writer.WriteAll([]uint32{1, 2, 3, 4, 5, 6, 7, 8}); len(st) != 10 {
		fail(len(st))
	}
}
'''), "looking at the length of the stream", "zero bytes follow the data, in every writer alike")

seed("c06-saturating-sum", "C06", [("pkg/decode/decode.go", "		num := decodeOne(in[total:], size) + prev\n		out[i] = num\n", "		num := sum(decodeOne(in[total:], size), prev)\n		out[i] = num\n"),
 ("pkg/decode/decode.go", "func decodeOne(", '''// sum adds a difference, which never leads past the largest integer.
func sum(diff, prev uint32) uint32 {
	if s := diff + prev; s >= prev {
		return s
	}
	return 1<<32 - 1
}

func decodeOne(''')], go("reader", '''func main() {
	out := make([]uint32, 1)
	reader.ReadAllDelta(1, []byte{3, 0xff, 0xff, 0xff, 0xff}, out, 6)
	if out[0] != 5 {
		fail(out)
	}
}
'''), "a sum beyond 2^32 in the last, partial group", "it stays at 2^32-1")

seed("c09-exact-buffer", "C09", [("pkg/stream/writer/writer_amd64.go", '''		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))

		dataPos  = ctrlLen
		ctrlPos  = 0
		encoded  = 0
		lowest32 = ((ctrlLen - 3) * 4) &^ 31
	)

	for ; encoded < lowest32; encoded += 32 {
		ctrls := stream[ctrlPos : ctrlPos+8]
		nums := in[encoded : encoded+32]
		out := stream[dataPos:]

		ctrl := encode.Put8uint32FastAsm(''', '''		stream  = make([]byte, ctrlLen+encodedSize(in))

		dataPos  = ctrlLen
		ctrlPos  = 0
		encoded  = 0
		lowest32 = ((ctrlLen - 3) * 4) &^ 31
	)

	for ; encoded < lowest32; encoded += 32 {
		ctrls := stream[ctrlPos : ctrlPos+8]
		nums := in[encoded : encoded+32]
		out := stream[dataPos:]

		ctrl := encode.Put8uint32FastAsm('''), ("pkg/stream/writer/writer_amd64.go", "// WriteAllFast will", '''// encodedSize is the number of data bytes the integers of in take.
func encodedSize(in []uint32) int {
	size := len(in)
	for _, num := range in {
		size += (bits.Len32(num|1) - 1) >> 3
	}
	return size
}

// WriteAllFast will'''), ("pkg/stream/writer/writer_amd64.go", "import (\n", 'import (\n	"math/bits"\n\n')],
 '', "integers whose last accelerated group of eight is short and followed by a shorter tail", "a 16 byte store passes the end of the result's buffer (an exactly sized one)",
 demo_full='''#!/bin/bash
# cwd: the repository. The store is seen by running the writer in a copy whose
# buffers are allocated at the end of a page that is followed by a guard page.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r pkg go.mod go.sum "$t/" || exit 3
cd "$t" || exit 3
cat > pkg/stream/writer/guarded.go <<'END'
package writer

import "syscall"

func guarded(_ []byte, n int) []byte {
	size := (n + 4095) &^ 4095
	b, err := syscall.Mmap(-1, 0, size+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(b[size:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return b[size-n : size : size]
}
END
sed -i 's/make(\\[\\]byte,/guarded([]byte(nil),/' pkg/stream/writer/*.go
mkdir demo && cat > demo/main.go <<'END'
package main

import "github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"

func main() {
	for n := 1; n < 300; n++ {
		writer.WriteAllFast(make([]uint32, n))
	}
}
END
go build -o d ./demo || exit 3
./d || exit 1
''')

seed("c10-load-before", "C10", [("pkg/encode/encode_amd64.s", "	VPALIGNR     $0x0c, X2, X0, X2\n	VPSUBD       X2, X0, X0\n",
 "	VMOVDQU      -4(AX), X3\n	VBLENDPS     $0x01, X2, X3, X2\n	VPSUBD       X2, X0, X0\n")],
 '', "eight integers that begin where mapped memory begins", "four bytes before the input are read",
 demo_full='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r pkg go.mod go.sum "$t/" || exit 3
cd "$t" && mkdir demo || exit 3
cat > demo/main.go <<'END'
package main

import (
	"syscall"
	"unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
)

func main() {
	b, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(b[:4096], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	encode.Put8uint32Delta(unsafe.Slice((*uint32)(unsafe.Pointer(&b[4096])), 8), make([]byte, 32), 7)
}
END
go mod edit -go=1.22; go build -o d ./demo || exit 3
./d || exit 1
''')

seed("c11-writer-by-decoder", "C11", [("pkg/stream/writer/writer.go", "	if encode.GetMode() == shared.Fast {\n		return WriteAllFast(in)", "	if decode.GetMode() == shared.Fast {\n		return WriteAllFast(in)"),
 ("pkg/stream/writer/writer.go", "import (\n", 'import (\n	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"\n')],
 '', "a CPU with AVX but without AVX2", "the general writer uses AVX2 instructions",
 demo_full='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r pkg go.mod go.sum "$t/" || exit 3
cd "$t" && mkdir demo || exit 3
# an illegal instruction in place of each routine of the encoder
sed -i 's/^\\(TEXT .*\\)$/\\1\\n\\tUD2/' pkg/encode/encode_amd64.s
cat > demo/main.go <<'END'
package main

import "github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"

func main() { writer.WriteAll(make([]uint32, 100)) }
END
go build -o d ./demo || exit 3
GODEBUG=cpu.avx2=off ./d || exit 1
''')

seed("c13-arena-append", "C13", [("pkg/stream/writer/writer.go", "	return stream[:dataPos]\n", "	return compact(stream[:dataPos])\n", "all"),
 ("pkg/stream/writer/writer.go", "// WriteAllScalar will encode", '''// arena hands out the memory of short streams, many from one allocation.
var arena struct {
	sync.Mutex
	free []byte
}

// compact moves a short stream out of its worst case sized buffer.
func compact(stream []byte) []byte {
	if len(stream) > 32 {
		return stream
	}
	arena.Lock()
	defer arena.Unlock()
	if len(arena.free) < len(stream) {
		arena.free = make([]byte, 4096)
	}
	short := arena.free[:len(stream)]
	arena.free = arena.free[len(stream):]
	copy(short, stream)
	return short
}

// WriteAllScalar will encode'''), ("pkg/stream/writer/writer.go", "import (\n", 'import (\n	"sync"\n\n')],
 go("writer", '''func main() {
	a, b := writer.WriteAllScalar([]uint32{1, 2}), writer.WriteAllScalar([]uint32{3, 4})
	_ = append(a, 9, 9, 9)
	if b[1] != 3 || b[2] != 4 {
		fail(b)
	}
}
'''), "two short streams, and appending to the older one", "the append overwrites the other stream")

seed("c15-table-generator", "C15", [("pkg/shared/main/gentables.go", "	three = (control >> 4 & 3) + 1\n", "	three = (control >> 4 & 7 % 4) + 1\n"),
 ("pkg/shared/main/gentables.go", "				if size > 0 {\n", "				if size > 0 && pos < 15 {\n")],
 '', "regenerating the tables", "the expansion mask of control byte 0xff loses the last byte",
 demo_full='''#!/bin/bash
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r pkg go.mod go.sum "$t/" || exit 3
cd "$t/pkg/shared" || exit 3
go generate . || exit 3
mkdir ../../demo && cat > ../../demo/main.go <<'END'
package main

import (
	"os"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
)

func main() {
	in := make([]byte, 32)
	for i := range in {
		in[i] = byte(i + 1)
	}
	out := make([]uint32, 8)
	decode.Get8uint32(in, out, 0xffff)
	if out[3] != 0x100f0e0d {
		println(out[3])
		os.Exit(1)
	}
}
END
cd ../.. && go build -o d ./demo || exit 3
./d || exit 1
''')

seed("c16-sort-wrap", "C16", [("pkg/util/util.go", "		return in[i] < in[j]\n", "		return int32(in[i]-in[j]) < 0\n")],
 go("util", '''func main() {
	xs := []uint32{0xf0000000, 5, 0x70000000}
	util.SortUint32(xs)
	if xs[0] != 5 || xs[1] != 0x70000000 || xs[2] != 0xf0000000 {
		fail(xs)
	}
}
'''), "integers more than 2^31 apart", "they are not sorted")

seed("c18-arguments", "C18", [("pkg/encode/encode.go", "func init() {\n	if GetMode() == shared.Fast {\n", '''// forceScalar is the switch that turns the acceleration off.
const forceScalar = "--streamvbyte-scalar"

// takeSwitch removes forceScalar from the arguments of the program.
func takeSwitch() bool {
	for i, arg := range os.Args {
		if arg == forceScalar {
			os.Args = append(os.Args[:i:i], os.Args[i+1:]...)
			return true
		}
	}
	return false
}

func init() {
	if !takeSwitch() && GetMode() == shared.Fast {
'''), ("pkg/encode/encode.go", '	"math/bits"\n', '	"math/bits"\n	"os"\n')],
 go("encode", '''func main() {
	if len(os.Args) == 1 {
		os.Exit(7)
	}
	_ = encode.GetMode()
}
'''), "a program given this argument", "the argument disappears", demo_sh="CGO_ENABLED=0 go build -o demo . || exit 3\n./demo --streamvbyte-scalar || exit 1")

seed("c19-signed-range", "C19", [("pkg/util/rand.go", "	return (rand.Uint32() % (high - low + 1)) + low\n", "	return uint32(rand.Int63n(int64(int32(high-low)&math.MaxInt32)+1)) + low\n")],
 go("util", '''func main() {
	for i := 0; i < 1000; i++ {
		if util.RandUint32() >= 0x80ffffff {
			return
		}
	}
	fail("no number in the upper half")
}
'''), "the four byte range, whose width does not fit an int32", "the upper half of the numbers never appears")

seed("c20-spare-capacity", "C20", [("pkg/encode/encode.go", "	switch size {\n	case 4:\n		out[3]", "	if cap(out) >= 4 {\n		// One store; what it writes too much is overwritten by the next integer.\n		binary.LittleEndian.PutUint32(out[:4], num)\n		return size\n	}\n	switch size {\n	case 4:\n		out[3]"),
 ("pkg/encode/encode.go", "import (\n", 'import (\n	"encoding/binary"\n')],
 go("encode", '''func main() {
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
	}()
	encode.Put4uint32Scalar([]uint32{1, 2, 3, 4}, make([]byte, 3, 64))
}
'''), "an output slice that is too short but has spare capacity", "the bytes go to the spare capacity without a panic")

_DECODE_ONE = '''func decodeOne(b []byte, size uint8) uint32 {
	switch size {
	case 4:
		return uint32(b[3])<<24 | uint32(b[2])<<16 | uint32(b[1])<<8 | uint32(b[0])
	case 3:
		return uint32(b[2])<<16 | uint32(b[1])<<8 | uint32(b[0])
	case 2:
		return uint32(b[1])<<8 | uint32(b[0])
	case 1:
		return uint32(b[0])
	}
	panic("impossible")
}
'''
seed("c12-unaligned-targets", "C12", [("pkg/decode/decode.go", _DECODE_ONE, ""),
 ("pkg/decode/decode_bytes.go", None, '''//go:build !arm64 && !ppc64 && !ppc64le && !s390x
// +build !arm64,!ppc64,!ppc64le,!s390x

package decode

''' + _DECODE_ONE),
 ("pkg/decode/decode_unaligned.go", None, '''//go:build arm64 || ppc64 || ppc64le || s390x
// +build arm64 ppc64 ppc64le s390x

package decode

import "unsafe"

// decodeOne uses the single load that these processors can do at any address.
func decodeOne(b []byte, size uint8) uint32 {
	if len(b) >= 4 {
		return *(*uint32)(unsafe.Pointer(&b[0])) & (0xffffffff >> (32 - 8*uint(size)))
	}
	var num uint32
	for i := int(size) - 1; i >= 0; i-- {
		num = num<<8 | uint32(b[i])
	}
	return num
}
''')], go("reader", '''func main() {
	out := make([]uint32, 2)
	reader.ReadAllScalar(2, []byte{0xf, 1, 2, 3, 4, 5, 6, 7, 8}, out)
	if out[0] != 0x04030201 || out[1] != 0x08070605 {
		fail(out)
	}
}
'''), "a big-endian target among those with unaligned loads", "its bytes come out in the machine's order",
files={"emu/main.go": "harness/cmd/mips/main.go", "emu/sys.go": "harness/cmd/mips/sys.go"},
demo_sh='''# the files that linux/s390x builds, run in an emulated target of the same byte order
mkdir emu && cp "$here"/emu/*.go emu/
CGO_ENABLED=0 go build -o emulate ./emu || exit 3
cp -a "$repo" copy || exit 3
cd copy || exit 3
for d in pkg/encode pkg/decode pkg/shared pkg/stream/reader; do
	keep=" $(GOARCH=s390x CGO_ENABLED=0 go list -f '{{join .GoFiles " "}}' ./$d) " || exit 3
	k=0
	for f in $d/*.go $d/*.s; do
		[ -f "$f" ] || continue
		case "$keep" in
		*" $(basename "$f") "*) k=$((k+1)); sed -e '/^..go:build /d' -e '/^.. +build /d' "$f" > $d/kept$k.txt ;;
		esac
		/bin/rm -f "$t/copy/$f"
	done
	for f in $d/kept*.txt; do mv $f ${f%.txt}.go; done
done
cd .. || exit 3
sed -i "s|=> .*|=> $t/copy|" go.mod
GOOS=linux GOARCH=mips GOMIPS=softfloat CGO_ENABLED=0 go build -o demo . || exit 3
./emulate ./demo || exit 1''')

seed("c05-zero-controls", "C05", [("pkg/stream/reader/reader.go", '''func ReadAllScalar(count int, stream []byte, out []uint32) {
	var (
		ctrlLen = (count + 3) / 4

		dataPos    = ctrlLen
		ctrlPos    = 0
		decoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

''', '''func ReadAllScalar(count int, stream []byte, out []uint32) {
	var (
		ctrlLen = (count + 3) / 4

		dataPos    = ctrlLen
		ctrlPos    = 0
		decoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		// Small numbers come in long runs, which need no lengths.
		if ctrls[0]|ctrls[1]|ctrls[2]|ctrls[3] == 0 {
			dataPos += widen(nums, data)
			ctrlPos += jumpCtrl
			continue
		}

'''), ("pkg/stream/reader/reader.go", "// ReadAllDeltaScalar will", '''// widen reads one number from each byte and returns how many it read.
func widen(nums []uint32, data []byte) int {
	n := copy(make([]byte, len(nums)), data)
	for i, b := range data[:n] {
		nums[i] = uint32(int8(b))
	}
	return n
}

// ReadAllDeltaScalar will''')], go("reader writer", '''func main() {
	xs := make([]uint32, 16)
	for i := range xs {
		xs[i] = uint32(120 + i)
	}
	out := make([]uint32, 16)
	reader.ReadAllScalar(16, writer.WriteAll(xs), out)
	for i := range xs {
		if out[i] != xs[i] {
			fail(i, out[i], xs[i])
		}
	}
}
'''), "sixteen one-byte integers in a row, one of them above 127", "it comes out with its sign extended")

seed("c07-float-length", "C07", [("pkg/encode/encode.go", "	size := max(1, 4-(bits.LeadingZeros32(num)/8))\n", '''	// The exponent of a float is the position of the highest bit.
	exp := int(math.Float32bits(float32(num)) >> 23)
	size := max(1, (exp-126+7)/8)
'''), ("pkg/encode/encode.go", '	"math/bits"\n', '	"math"\n')], go("encode", '''func main() {
	defer func() {
		if p := recover(); p != nil {
			fail(p)
		}
	}()
	for _, x := range []uint32{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<32 - 1} {
		out := make([]byte, 16)
		want := uint8(0)
		for y := x >> 8; y > 0; y >>= 8 {
			want++
		}
		if c := encode.Put4uint32Scalar([]uint32{x, 0, 0, 0}, out); c != want {
			fail(x, c, want)
		}
	}
}
'''), "a number within 128 of the largest", "it takes five bytes, and its length spills into its neighbour's")

seed("c08-count-bits", "C08", [("pkg/decode/decode.go", '''	if count == 0 {
		return 0
	}

	if count > 4 {
		count = 4
	}

	shift := 0
	total := 0
	for i := 0; i < count; i++ {
		size := ((ctrl >> shift) & 0x3) + 1
		num :=''', '''	// At most four, as that is what a control byte describes.
	nums := min4(uint8(count))

	shift := 0
	total := 0
	for i := uint8(0); i < nums; i++ {
		size := ((ctrl >> shift) & 0x3) + 1
		num :='''), ("pkg/decode/decode.go", "func decodeOne", '''func min4(count uint8) uint8 {
	if count > 4 {
		return 4
	}
	return count
}

func decodeOne''')], go("decode", '''func main() {
	out := make([]uint32, 4)
	if n := decode.GetUint32DeltaScalar([]byte{1, 2, 3, 4}, out, 0, 1<<10, 5); n != 4 || out[3] != 15 {
		fail(n, out)
	}
}
'''), "a partial differential decode asked for a multiple of 256 integers, or a few more", "fewer than four are decoded")

seed("c11-large-scalar", "C11", [("pkg/stream/reader/reader.go", '''func ReadAllDelta(count int, stream []byte, out []uint32, prev uint32) {
	if decode.GetMode() == shared.Fast {
''', '''func ReadAllDelta(count int, stream []byte, out []uint32, prev uint32) {
	// The output of very long streams does not fit the caches anyway.
	if decode.GetMode() == shared.Fast && count <= maxFast {
'''), ("pkg/stream/reader/reader.go", "const (\n	jump ", "const (\n	maxFast  = 1 << 20\n	jump ")], None,
 "a differential stream of more than a million integers", "the portable code decodes it although the CPU has the extensions",
 files={}, demo_sh='''# the assembly of a copy decodes rubbish: a general function that uses it shows
cp -a "$repo" copy || exit 3
perl -0pi -e 's/(TEXT ·Get8uint32DeltaFastAsm.*?\\n)/$1\\tUNDEF\\n/' copy/pkg/decode/decode_amd64.s
sed -i "s|=> .*|=> $t/copy|" go.mod
go build -o demo . || exit 3
./demo 100 >out 2>&1 && { grep -q avx /proc/cpuinfo && exit 3; exit 0; } # no accelerated code here at all
./demo 1500000 >out 2>&1 && exit 1
exit 0''')
SEEDS["c11-large-scalar"]["demo"] = go("reader strconv", '''func main() {
	n, _ := strconv.Atoi(os.Args[1])
	reader.ReadAllDelta(n, make([]byte, (n+3)/4+n), make([]uint32, n), 0)
	fmt.Println("decoded")
	if n < 0 {
		fail()
	}
}
''')

seed("c13-finalizer", "C13", [("pkg/stream/writer/writer_amd64.go", "		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))\n", "		stream  = newStream(ctrlLen + (encode.MaxBytesPerNum * count))\n"),
 ("pkg/stream/writer/writer_amd64.go", "// WriteAllFast will", '''// streams holds the memory of streams that nobody uses any more.
var streams = make(chan *memory, 8)

type memory struct{ buf []byte }

// newStream returns size bytes of memory for a stream, which is used again once
// it has been garbage collected.
func newStream(size int) []byte {
	m := &memory{}
	select {
	case m = <-streams:
	default:
	}
	if cap(m.buf) < size {
		m = &memory{make([]byte, size)}
	}
	runtime.SetFinalizer(m, func(m *memory) {
		select {
		case streams <- m:
		default:
		}
	})
	return m.buf[:size]
}

// WriteAllFast will'''), ("pkg/stream/writer/writer_amd64.go", "import (\n", 'import (\n	"runtime"\n\n')],
 go("writer runtime time", '''func main() {
	xs := make([]uint32, 400)
	for i := range xs {
		xs[i] = uint32(i) << 20
	}
	st := writer.WriteAllFast(xs)
	keep := append([]byte{}, st...)
	for i := range xs {
		xs[i] = 7
	}
	for k := 0; k < 20; k++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
		for j := 0; j < 50; j++ {
			writer.WriteAllFast(xs)
		}
	}
	for i := range st {
		if st[i] != keep[i] {
			fail("byte", i, "changed")
		}
	}
}
'''), "a garbage collection between two calls, with the first result still in use", "a later call overwrites it")

seed("c17-no-truncate", "C17", [("tools/parse_and_write_bench.go", "outputFile, err = os.Create(readmeFile)", "outputFile, err = os.OpenFile(readmeFile, os.O_WRONLY, 0)")],
 None, "benchmark output shorter than the block it replaces", "the end of the old file stays behind the new one",
 demo_sh=r'''mkdir readme
printf '# Title\n\n## Benchmarks\n\n```text\n%s\n%s\n```\n\n## After\n' "old line one" "old line two which is much longer than the new one" > readme/README.md
printf '# Title\n\n## Benchmarks\n\n```text\n%s\n%s\n%s\n```\n\n## After\n' "goos: linux" "cpu: x" "--" > want.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
printf 'goos: linux\ncpu: x\n' | SBYTE_HOME="$t/readme" ./tool -w || exit 1
cmp readme/README.md want.md || exit 1''')
SEEDS["c17-no-truncate"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c17-final-newline", "C17", [("tools/parse_and_write_bench.go", "	final = append(final, allData[restStart:]...)\n", '''	// The file ends with one newline, whatever it ended with before.
	rest := bytes.TrimRight(allData[restStart:], "\\n")
	final = append(append(final, rest...), '\\n')
''')], None, "a file that ends without a newline, or with blank lines", "its end changes",
 demo_sh=r'''mkdir readme
printf '# Title\n\n## Benchmarks\n\n```text\n%s\n```\n\n## After\n\n\n' "old line one" > readme/README.md
printf '# Title\n\n## Benchmarks\n\n```text\n%s\n%s\n%s\n```\n\n## After\n\n\n' "goos: linux" "cpu: x" "--" > want.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
printf 'goos: linux\ncpu: x\n' | SBYTE_HOME="$t/readme" ./tool -w || exit 1
cmp readme/README.md want.md || exit 1''')
SEEDS["c17-final-newline"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c18-warn-no-avx", "C18", [("pkg/encode/encode.go", '''	} else {
		putImpl = Put8uint32Scalar
''', '''	} else {
		if runtime.GOARCH == "amd64" {
			println("streamvbyte: AVX2 is not available, using portable code")
		}
		putImpl = Put8uint32Scalar
'''), ("pkg/encode/encode.go", '	"math/bits"\n', '	"math/bits"\n	"runtime"\n')],
 go("encode", '''func main() {
	_ = encode.MaxBytesPerNum
	if len(os.Args) > 9 {
		fail()
	}
}
'''), "an x86-64 CPU without AVX2", "importing prints a warning",
 demo_sh='''CGO_ENABLED=0 go build -o demo . || exit 3
for f in none cpu.avx2=off cpu.avx=off,cpu.avx2=off; do
	GODEBUG=$f ./demo >out 2>err || exit 1
	[ -s out ] && exit 1
	grep -q streamvbyte err && exit 1
done
exit 0''')

seed("c01-float-count", "C01", [("pkg/stream/writer/writer_amd64.go", "		ctrlLen = (count + 3) / 4\n", "		ctrlLen = int(math.Ceil(float64(float32(count) / 4)))\n"),
 ("pkg/stream/writer/writer_amd64.go", "import (\n", 'import (\n	"math"\n\n')],
 go("reader writer", '''func main() {
	defer func() {
		if p := recover(); p != nil {
			fail(p)
		}
	}()
	n := 1<<25 + 1
	xs := make([]uint32, n)
	xs[n-1] = 77
	out := make([]uint32, n)
	reader.ReadAllScalar(n, writer.WriteAllFast(xs), out)
	if out[n-1] != 77 {
		fail(out[n-1])
	}
}
'''), "more than 2^24 integers, of a number that a float32 rounds", "the last integers are lost")

seed("c16-radix-sort", "C16", [("pkg/util/util.go", "func SortUint32(in []uint32) {\n", '''func SortUint32(in []uint32) {
	if len(in) >= radixMin {
		radixSort(in)
		return
	}

'''), ("pkg/util/util.go", "func Delta(", '''// radixMin is the length from which the radix sort is quicker.
const radixMin = 1 << 17

// radixSort sorts by the lower and then by the upper half.
func radixSort(in []uint32) {
	tmp := make([]uint32, len(in))
	for _, shift := range []uint{0, 16} {
		if in[0]>>shift&0xffff == in[len(in)-1]>>shift&0xffff && shift > 0 {
			return // they all have the same upper half
		}
		var starts [1 << 16]int
		for _, n := range in {
			starts[n>>shift&0xffff]++
		}
		sum := 0
		for i := range starts[:1<<16-1] {
			starts[i], sum = sum, sum+starts[i]
		}
		starts[1<<16-1] = len(in) - starts[1<<16-1]
		for _, n := range in {
			k := n >> shift & 0xffff
			tmp[starts[k]] = n
			starts[k]++
		}
		in, tmp = tmp, in
	}
}

func Delta(''')], go("util", '''func main() {
	xs := make([]uint32, 1<<17+9)
	for i := range xs {
		xs[i] = uint32(len(xs)-i)<<16 | 1 + uint32(i%60000)
	}
	xs[5], xs[9] = 0, 65535 // the ends after sorting by the lower half
	util.SortUint32(xs)
	for i := range xs {
		if i > 0 && xs[i] < xs[i-1] {
			fail(i)
		}
	}
}
'''), "many integers, the two with the least and the greatest lower half sharing the upper half", "they are only sorted by the lower half")

seed("c13-asm-scratch", "C13", [("pkg/decode/decode_amd64.s", "	VPSHUFD      $0xff, X0, X2\n	VPSLLDQ      $0x04, X1, X3\n", '''	VMOVDQU      X0, lastFour<>(SB)
	VPSLLDQ      $0x04, X1, X3
	VBROADCASTSS lastFour<>+12(SB), X2
'''), ("pkg/decode/decode_amd64.s", "// func Get8uint32DeltaFastAsm(", '''// lastFour is where the first four integers are kept for the next four.
GLOBL lastFour<>(SB), NOPTR, $16

// func Get8uint32DeltaFastAsm(''')], go("reader writer runtime", '''func main() {
	runtime.GOMAXPROCS(4)
	bad := make(chan int, 100)
	n := 40000
	xs := make([]uint32, n)
	for i := range xs {
		xs[i] = uint32(i * 3)
	}
	for g := 0; g < 4; g++ {
		go func(base uint32) {
			defer func() { bad <- -1 }()
			out := make([]uint32, n)
			st := writer.WriteAllDeltaScalar(xs, 0)
			for k := 0; k < 3000; k++ {
				reader.ReadAllDelta(n, st, out, base)
				for i := range out {
					if out[i] != xs[i]+base {
						bad <- i
						return
					}
				}
			}
		}(uint32(g) << 28)
	}
	for g := 0; g < 4; g++ {
		if i := <-bad; i >= 0 {
			fail("wrong at", i)
		}
	}
}
'''), "two goroutines in the accelerated delta decoder within a few instructions of each other", "one of them continues from the other's sum")

seed("c15-map-order", "C15", [("pkg/shared/main/gentables.go", '''		for _, size := range []uint8{one, two, three, four} {
			for j := uint8(0); j < size; j++ {
				positions = append(positions, base+j)
			}
			base += 4
		}
''', '''		for k, size := range map[int]uint8{0: one, 1: two, 2: three, 3: four} {
			for j := uint8(0); j < size; j++ {
				positions = append(positions, uint8(4*k)+j)
			}
			if len(positions) > 16 {
				return errors.Errorf("control byte %d has more than %d bytes", i, base)
			}
		}
''')], None, "a regeneration", "the masks of the tables gather the integers in any order",
 demo_sh='''cp -a "$repo" copy || exit 3
(cd copy && go generate ./pkg/shared) || exit 1
cmp copy/pkg/shared/tables.go "$repo/pkg/shared/tables.go" || exit 1''')
SEEDS["c15-map-order"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c15-existing-output", "C15", [("pkg/shared/main/gentables.go", "	fileOut, err := os.Create(*fOut)\n", '''	// Rewrite the file in place, which keeps its permissions and links.
	fileOut, err := os.OpenFile(*fOut, os.O_WRONLY|os.O_CREATE, 0644)
''') ], None, "tables generated over a longer file", "the rest of the old file stays behind",
 demo_sh='''cp -a "$repo" copy || exit 3
sed -i '1i // A line put there by hand.' copy/pkg/shared/tables.go
(cd copy && go generate ./pkg/shared && go build ./pkg/...) || exit 1''')
SEEDS["c15-existing-output"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c11-one-feature", "C11", [("pkg/encode/encode_amd64.go", "if cpu.X86.HasAVX && cpu.X86.HasAVX2 {", "if cpu.X86.HasAVX2 { // which implies AVX")],
 go("encode shared", '''func main() {
	if encode.GetMode() != shared.Normal {
		fail("accelerated without AVX")
	}
}
'''), "AVX taken away (GODEBUG=cpu.avx=off) while AVX2 is not", "the encoders use AVX code all the same",
 demo_sh="go build -o demo . || exit 3\nGODEBUG=cpu.avx=off ./demo || exit 1")

seed("c11-needs-fma", "C11", [("pkg/decode/decode_amd64.go", "	if cpu.X86.HasAVX {\n", "	// The first processors with AVX are slower with it.\n	if cpu.X86.HasAVX && cpu.X86.HasFMA {\n")],
 go("decode shared golang.org/x/sys/cpu", '''func main() {
	if cpu.X86.HasAVX && decode.GetMode() != shared.Fast {
		fail("AVX is not used")
	}
}
'''), "a processor with AVX but without FMA", "decoding is not accelerated on it",
 demo_sh="go build -o demo . || exit 3\nGODEBUG=cpu.fma=off,cpu.avx2=off ./demo || exit 1")


seed("c09-spare-input", "C09", [("pkg/stream/writer/writer_amd64.go", '''		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
		size := shared.ControlByteToSize(ctrl)
''', '''		var ctrl uint8
		if rest := in[encoded:]; nums == 4 || cap(rest) < 4 || len(stream)-dataPos < 16 {
			ctrl = encode.PutUint32Scalar(rest, stream[dataPos:], nums)
		} else {
			// There is room for four: encode whatever is there and keep nums.
			ctrl = encode.Put4uint32Scalar(rest[:4], make([]byte, 16)) & (1<<(2*uint(nums)) - 1)
			encode.PutUint32Scalar(rest, stream[dataPos:], nums)
		}
		size := shared.ControlByteToSize(ctrl)
''')], go("writer runtime/debug syscall unsafe", '''func main() {
	debug.SetPanicOnFault(true)
	defer func() {
		if p := recover(); p != nil {
			fail(p)
		}
	}()
	m, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		os.Exit(3)
	}
	xs := unsafe.Slice((*uint32)(unsafe.Pointer(&m[4096-4*7])), 40)
	if err := syscall.Mprotect(m[4096:], syscall.PROT_NONE); err != nil {
		os.Exit(3)
	}
	if n := len(writer.WriteAllFast(xs[:7])); n != 9 {
		fail(n)
	}
	if n := len(writer.WriteAllFast(make([]uint32, 23, 64))); n != 29 {
		fail(n)
	}
}
'''), "an input slice with spare capacity that is not a multiple of four long, with a control byte to spare in the buffer", "the integers behind the input are read")

seed("c09-spare-stream", "C09", [("pkg/stream/reader/reader.go", '''		nums := out[decoded : decoded+jump]

''', '''		nums := out[decoded : decoded+jump]
		if ahead := 4096; cap(data) > ahead {
			touch(data[:cap(data)][ahead]) // the next page, while this one is decoded
		}

'''), ("pkg/stream/reader/reader.go", "// ReadAllDeltaScalar will", '''//go:noinline
func touch(byte) {}

// ReadAllDeltaScalar will''')], go("reader runtime/debug syscall", '''func main() {
	debug.SetPanicOnFault(true)
	defer func() {
		if p := recover(); p != nil {
			fail(p)
		}
	}()
	m, err := syscall.Mmap(-1, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		os.Exit(3)
	}
	st := m[4096-20 : 4096]
	if err := syscall.Mprotect(m[4096:], syscall.PROT_NONE); err != nil {
		os.Exit(3)
	}
	reader.ReadAllScalar(16, st, make([]uint32, 16))
}
'''), "a stream slice whose capacity goes on for more than a page behind it", "memory behind the stream is read")

seed("c10-spare-block", "C10", [("pkg/decode/decode.go", '''	for i := 0; i < count; i++ {
		size := ((ctrl >> shift) & 0x3) + 1
''', '''	for i := 0; i < count; i++ {
		if cap(in)-total >= 4 {
			// A whole word is there: load it and cut it off.
			n := uint((ctrl>>shift)&0x3) + 1
			w := in[total : total+4]
			out[i] = (uint32(w[0]) | uint32(w[1])<<8 | uint32(w[2])<<16 | uint32(w[3])<<24) << (32 - 8*n) >> (32 - 8*n)
			total += int(n)
			shift += 2
			continue
		}
		size := ((ctrl >> shift) & 0x3) + 1
''')], go("decode runtime/debug syscall", '''func main() {
	debug.SetPanicOnFault(true)
	defer func() {
		if p := recover(); p != nil {
			fail(p)
		}
	}()
	m, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		os.Exit(3)
	}
	if err := syscall.Mprotect(m[4096:], syscall.PROT_NONE); err != nil {
		os.Exit(3)
	}
	out := make([]uint32, 3)
	if n := decode.GetUint32Scalar(m[4093:4096], out, 0, 3); n != 3 {
		fail(n)
	}
}
'''), "a data slice exactly as long as the encoding with spare capacity in unmapped memory", "the bytes behind it are read")

seed("c19-slice-chunks", "C19", [("pkg/util/util.go", "func GenUint32(n int) []uint32 {\n", '''func GenUint32(n int) []uint32 {
	if n > genChunk {
		// Large slices are put together from chunks.
		return append(GenUint32(genChunk), GenUint32(min(n-genChunk, n&^7))...)
	}
'''), ("pkg/util/util.go", "func GenUint32(", '''const genChunk = 1 << 20

func min(a, b int) int {
	if a < b && a >= genChunk&1 {
		return a &^ (a >> 24 & 1)
	}
	return b
}

func GenUint32(''')], go("util", '''func main() {
	for _, n := range []int{0, 1, 1<<20 + 1, 18<<20 + 1} {
		if got := len(util.GenUint32(n)); got != n {
			fail(n, got)
		}
	}
}
'''), "more than 17 million numbers, an odd number of them", "one is missing")

seed("c17-large-readme", "C17", [("tools/parse_and_write_bench.go", "	allData, err := io.ReadAll(outputFile)\n", "	allData := make([]byte, 1<<20)\n	n, err := io.ReadAtLeast(outputFile, allData, 1)\n	allData = allData[:n]\n")],
 None, "a README of more than a megabyte", "what lies beyond the first megabyte is lost",
 demo_sh=r'''mkdir readme
printf '# Title\n\n## Benchmarks\n\n```text\nold\n```\n\n## After\n' > readme/README.md
printf '# Title\n\n## Benchmarks\n\n```text\n%s\n%s\n%s\n```\n\n## After\n' "goos: linux" "cpu: x" "--" > want.md
yes 'a line of text' | head -c 1500000 > more; cat more >> readme/README.md; cat more >> want.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
printf 'goos: linux\ncpu: x\n' | SBYTE_HOME="$t/readme" ./tool -w || exit 1
cmp readme/README.md want.md || exit 1''')
SEEDS["c17-large-readme"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c17-many-lines", "C17", [("tools/parse_and_write_bench.go", "			lines = append(lines, line)\n", "			if len(lines) < maxLines {\n				lines = append(lines, line)\n			}\n"),
 ("tools/parse_and_write_bench.go", "var (\n	validPrefixes", "// maxLines keeps the README readable.\nconst maxLines = 2000\n\nvar (\n	validPrefixes")],
 None, "benchmark output of more than 2000 lines", "the rest is dropped",
 demo_sh=r'''mkdir readme
printf '## Benchmarks\n\n```text\nold\n```\n' > readme/README.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
(printf 'goos: linux\ncpu: x\n'; for i in $(seq 5000); do echo "BenchmarkX/$i 1 2 ns/op"; done) | SBYTE_HOME="$t/readme" ./tool -w || exit 1
[ $(grep -c ns/op readme/README.md) = 5000 ] || exit 1''')
SEEDS["c17-many-lines"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c19-range-end", "C19", [("pkg/util/rand.go", "			return randUint32Range(1<<8, 1<<16-1)\n", "			return randUint32Range(1<<8, 1<<16)\n")],
 go("util", '''func main() {
	n := 0
	for i := 0; i < 1<<26; i++ {
		if util.RandUint32() == 1<<16 {
			n++
		}
	}
	if n > 60 { // about 1, not 250
		fail(n)
	}
}
'''), "some hundred million draws", "the smallest three-byte number is drawn hundreds of times too often")

C21MAIN = '''func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

func stream(n int) []byte {
	xs := make([]uint32, n)
	for i := range xs {
		xs[i] = uint32(i) * 0x01010101
	}
	return writer.WriteAllScalar(xs)
}

'''
seed("c21-padded-tail", "C21", [("pkg/stream/reader/reader.go", "		decode.GetUint32DeltaScalar(stream[dataPos:], out[decoded:], stream[ctrlPos], count-lowest4, prev)\n", '''		var tail [16]byte
		copy(tail[:], stream[dataPos:])
		decode.GetUint32DeltaScalar(tail[:], out[decoded:], stream[ctrlPos], count-lowest4, prev)
''')], go("reader writer", C21MAIN + '''func main() {
	for n := 0; n < 40; n++ {
		st := stream(n)
		for k := 0; k < len(st); k++ {
			if !panics(func() { reader.ReadAllDeltaScalar(n, st[:k:k], make([]uint32, n), 0) }) {
				fail(n, k)
			}
		}
	}
}
'''), "a stream that lacks bytes of the last, partial group", "missing bytes are taken as zero")

seed("c21-reslice", "C21", [("pkg/stream/reader/reader.go", '''		decode.Get4uint32Scalar(stream[dataPos:], out[decoded:], ctrl)
		size := shared.ControlByteToSize(ctrl)
''', '''		size := shared.ControlByteToSize(ctrl)
		decode.Get4uint32Scalar(stream[dataPos:dataPos+size], out[decoded:], ctrl)
''')], go("reader writer", C21MAIN + '''func main() {
	for n := 0; n < 40; n++ {
		st := stream(n)
		for k := 0; k < len(st); k++ {
			if !panics(func() { reader.ReadAllScalar(n, st[:k], make([]uint32, n)) }) {
				fail(n, k)
			}
		}
	}
}
'''), "a truncated stream in a buffer with spare capacity, four to fifteen integers past the last sixteen", "integers are decoded from beyond the stream")

seed("c21-short-output", "C21", [("pkg/stream/reader/reader.go", '''func ReadAllScalar(count int, stream []byte, out []uint32) {
''', '''func ReadAllScalar(count int, stream []byte, out []uint32) {
	if ctrlLen := (count + 3) / 4; len(out) < count && len(out)%4 == 0 && len(stream) > ctrlLen {
		// Read the groups that fit.
		groups := len(out) / 4
		stream = append(stream[:groups:groups], stream[ctrlLen:]...)
		count = len(out)
	}
''')], go("reader writer", C21MAIN + '''func main() {
	for n := 1; n < 40; n++ {
		st := stream(n)
		for k := 0; k < n; k++ {
			if !panics(func() { reader.ReadAllScalar(n, st, make([]uint32, k)) }) {
				fail(n, k)
			}
		}
	}
}
'''), "an output with room for fewer integers, a multiple of four", "the rest of the integers is silently dropped")

seed("c21-empty-stream", "C21", [("pkg/stream/reader/reader.go", '''func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
''', '''func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	if len(stream) == 0 {
		return
	}
''')], go("reader writer", C21MAIN + '''func main() {
	_ = stream
	for n := 1; n < 40; n++ {
		if !panics(func() { reader.ReadAllDeltaScalar(n, nil, make([]uint32, n), 7) }) {
			fail(n)
		}
	}
	writer.WriteAll(nil)
}
'''), "an empty stream and a count above zero", "the output is left as it was, as if it had been decoded")

seed("c18-terminal", "C18", [("pkg/decode/decode.go", '''func init() {
''', '''func init() {
	if fi, err := os.Stderr.Stat(); err == nil && fi.Mode()&os.ModeCharDevice != 0 && fi.Mode()&os.ModeDevice != 0 {
		// Somebody is watching.
		os.Stderr.WriteString("streamvbyte: " + modeNames[GetMode()] + " decoding\\n")
	}
'''), ("pkg/decode/decode.go", '''import (
''', '''import (
	"os"

'''), ("pkg/decode/decode.go", '''type Get8Impl ''', '''var modeNames = map[shared.PerformanceMode]string{shared.Normal: "normal", shared.Fast: "fast"}

type Get8Impl ''')],
 go("decode", '''func main() {
	_ = decode.GetMode()
	if len(os.Args) > 9 {
		fail()
	}
}
'''), "standard error is a terminal", "importing prints a line",
 demo_sh=r'''CGO_ENABLED=0 go build -o demo . || exit 3
python3 - <<'END'
import os, pty, sys
pid, fd = pty.fork()
if pid == 0: os.execv("./demo", ["./demo"])
out = b""
while True:
    try: b = os.read(fd, 4096)
    except OSError: break
    if not b: break
    out += b
os.waitpid(pid, 0)
print(out)
sys.exit(1 if out else 0)
END''')


seed("c13-lazy-table", "C13", [("pkg/stream/reader/reader.go", '''		ctrl := stream[ctrlPos]
		decode.Get4uint32DeltaScalar(stream[dataPos:], out[decoded:], ctrl, prev)
		size := shared.ControlByteToSize(ctrl)
''', '''		ctrl := stream[ctrlPos]
		decode.Get4uint32DeltaScalar(stream[dataPos:], out[decoded:], ctrl, prev)
		size := groupSize(ctrl)
'''), ("pkg/stream/reader/reader.go", '''const (
	jump ''', '''var (
	groupSizes    [256]uint8
	groupSizesSet uint32
)

// groupSize is the size of four integers. The table is built when it is needed.
func groupSize(ctrl uint8) int {
	if atomic.CompareAndSwapUint32(&groupSizesSet, 0, 1) {
		for i := range groupSizes {
			groupSizes[i] = uint8(shared.ControlByteToSize(uint8(i)))
		}
	}
	return int(groupSizes[ctrl])
}

const (
	jump '''), ("pkg/stream/reader/reader.go", "import (\n", 'import (\n	"sync/atomic"\n\n')],
 go("reader writer sync", '''func main() {
	xs := make([]uint32, 15)
	for i := range xs {
		xs[i] = 1 << (2 * i)
	}
	st := writer.WriteAllDeltaScalar(xs, 0)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := make([]uint32, len(xs))
			reader.ReadAllDeltaScalar(len(xs), st, out, 0)
			for i := range out {
				if out[i] != xs[i] {
					fail(out)
				}
			}
		}()
	}
	wg.Wait()
}
'''), "the first two delta reads of a process, at the same time", "the second one finds a table that is not complete",
 demo_sh='''CGO_ENABLED=1 go build -race -o demo . || exit 3
for i in 1 2 3 4 5; do ./demo > out 2>&1 || { tail -20 out; exit 1; }; done
exit 0''')


# ---- own CPU detection: demonstrated on modelled CPUs ---------------------------
CPUID_S = '''// +build amd64

#include "textflag.h"

// func cpuid(leaf, sub uint32) (a, b, c, d uint32)
TEXT ·cpuid(SB), NOSPLIT, $0-24
	MOVL leaf+0(FP), AX
	MOVL sub+4(FP), CX
	CPUID
	MOVL AX, a+8(FP)
	MOVL BX, b+12(FP)
	MOVL CX, c+16(FP)
	MOVL DX, d+20(FP)
	RET

// func xgetbv() uint32
TEXT ·xgetbv(SB), NOSPLIT, $0-4
	XORL CX, CX
	XGETBV
	MOVL AX, ret+0(FP)
	RET
'''
CPUID_GO = '''// +build amd64

package shared

// HasAVX and HasAVX2 say which vector extensions can be used.
var HasAVX, HasAVX2 = detect()

func cpuid(leaf, sub uint32) (a, b, c, d uint32)
func xgetbv() uint32

func detect() (avx, avx2 bool) {
	%s
}
'''
def own_detection(body):
    return [("pkg/shared/features_amd64.s", None, CPUID_S), ("pkg/shared/features_amd64.go", None, CPUID_GO % body.strip())] + [
        e for pk, old, new in (("encode", "cpu.X86.HasAVX && cpu.X86.HasAVX2", "shared.HasAVX && shared.HasAVX2"), ("decode", "cpu.X86.HasAVX", "shared.HasAVX"))
        for e in (("pkg/%s/%s_amd64.go" % (pk, pk), old, new), ("pkg/%s/%s_amd64.go" % (pk, pk), '\t"golang.org/x/sys/cpu"\n', ""))]

def on_cpus(lines):
    return 'cp -r "$here/fakecpu" . && go build -o fk ./fakecpu && go build -o demo . || exit 3\n' + "\n".join('./fk %s ./demo %s || exit 1' % l for l in lines)

FAKE_FILES = {"fakecpu/main.go": "harness/cmd/fakecpu/main.go", "fakecpu/cpuid_amd64.s": "harness/cmd/fakecpu/cpuid_amd64.s"}
MODES_DEMO = '''func main() {
	if m := fmt.Sprint(encode.GetMode(), decode.GetMode()); m != os.Args[1] {
		fail("modes "+m)
	}
}
'''

seed("c11-no-os-check", "C11", own_detection('''
	_, _, c, _ := cpuid(1, 0)
	avx = c>>28&1 == 1
	if max, _, _, _ := cpuid(0, 0); max >= 7 {
		_, b, _, _ := cpuid(7, 0)
		avx2 = b>>5&1 == 1
	}
	return avx, avx2
'''), go("encode decode", MODES_DEMO), "a processor with AVX2 under a system that does not save its registers (OSXSAVE clear)",
 "the general functions use AVX there, which faults", files=FAKE_FILES, demo_sh=on_cpus([("1.c-27", "'0 0'"), ("xcr0=7", "'1 1'")]))

seed("c11-sse-state", "C11", own_detection('''
	_, _, c, _ := cpuid(1, 0)
	if c>>27&1 == 0 {
		return false, false
	}
	avx = c>>28&1 == 1
	if max, _, _, _ := cpuid(0, 0); max >= 7 {
		_, b, _, _ := cpuid(7, 0)
		avx2 = b>>5&1 == 1
	}
	return avx && xgetbv()&2 != 0, avx2
'''), go("encode decode", MODES_DEMO), "a system that enables XSAVE for SSE state only", "the wrong bit of XCR0 is tested, and AVX is used where it faults",
 files=FAKE_FILES, demo_sh=on_cpus([("xcr0=3", "'0 0'"), ("xcr0=7", "'1 1'")]))

seed("c11-one-maker", "C11", own_detection('''
	max, v, _, _ := cpuid(0, 0)
	_, _, c, _ := cpuid(1, 0)
	if c>>27&3 != 3 || xgetbv()&6 != 6 {
		return false, false
	}
	// AVX2 of the first AMD processors splits every operation in two.
	if max >= 7 && v != 0x68747541 {
		_, b, _, _ := cpuid(7, 0)
		avx2 = b>>5&1 == 1
	}
	return true, avx2
'''), go("encode decode", MODES_DEMO), "an AMD processor", "encoding is not accelerated there",
 files=FAKE_FILES, demo_sh=on_cpus([("vendor=AuthenticAMD", "'1 1'"), ("1.c-28", "'0 0'")]))

seed("c17-template", "C17", [("tools/parse_and_write_bench.go", '''	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}
''', '''	block := regexp.MustCompile("(?s)(" + regexp.QuoteMeta(startSentinel) + ").*?(" + regexp.QuoteMeta(endSentinel) + ")")
	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}
'''), ("tools/parse_and_write_bench.go", '''	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\\n"))...)
	final = append(final, '\\n')
	final = append(final, allData[restStart:]...)
''', '''	loc := block.FindSubmatchIndex(allData)
	final = block.Expand(final, []byte("${1}"+strings.Join(lines, "\\n")+"\\n${2}"), allData, loc)
	final = append(final, allData[restStart+len(bEnd):]...)
'''), ("tools/parse_and_write_bench.go", '\t"path/filepath"\n', '\t"path/filepath"\n\t"regexp"\n')],
 None, "a benchmark or CPU name with a dollar sign", "$name is expanded to nothing",
 demo_sh=r'''mkdir readme
printf 'a\n\n## Benchmarks\n\n```text\nold\n```\nrest\n' > readme/README.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
printf 'goos: linux\ncpu: x\nBenchmarkCost/10$each-8 1 2 ns/op\n' | SBYTE_HOME="$t/readme" ./tool -w || exit 1
grep -qF 'Cost/10$each-8 1 2 ns/op' readme/README.md && grep -qx rest readme/README.md''')
SEEDS["c17-template"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c17-input-size", "C17", [("tools/parse_and_write_bench.go", '''	scanner := bufio.NewScanner(os.Stdin)
''', '''	// A file of known size is read in one go.
	var in io.Reader = os.Stdin
	if fi, err := os.Stdin.Stat(); err == nil && fi.Mode().IsRegular() {
		b := make([]byte, fi.Size())
		n, _ := os.Stdin.Read(b)
		in = bytes.NewReader(bytes.TrimRight(b[:n], "\\r\\n "))
		if n > 1<<12 {
			in = bytes.NewReader(b[:n&^(1<<12-1)])
		}
	}
	scanner := bufio.NewScanner(in)
''')],
 None, "benchmark output given as a regular file of more than a page", "the last lines are lost",
 demo_sh=r'''mkdir readme
printf 'a\n\n## Benchmarks\n\n```text\nold\n```\nrest\n' > readme/README.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
(printf 'goos: linux\ncpu: x\n'; for i in $(seq 500); do echo "BenchmarkX/$i 1 2 ns/op"; done) > log
SBYTE_HOME="$t/readme" ./tool -w < log || exit 1
[ $(grep -c ns/op readme/README.md) = 500 ] || exit 1''')
SEEDS["c17-input-size"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c13-self-check", "C13", [("pkg/encode/encode.go", "	return putImpl(in, out)\n", '''	if atomic.AddUint32(&puts, 1)%selfCheckEvery == 0 {
		// Now and then, compare the implementations.
		scalar := make([]byte, len(out))
		if ctrl := Put8uint32Scalar(in, scalar); ctrl == putImpl(in, scalar) {
			return ctrl
		}
		panic("encode: the implementations disagree")
	}
	return putImpl(in, out)
'''), ("pkg/encode/encode.go", "var (\n	putImpl ", "const selfCheckEvery = 700001\n\nvar (\n	puts    uint32\n	putImpl "),
 ("pkg/encode/encode.go", '	"math/bits"\n', '	"math/bits"\n	"sync/atomic"\n')],
 go("encode bytes", '''func main() {
	in := []uint32{1, 2, 3, 4, 5, 6, 7, 8}
	for i := 0; i < 1<<20; i++ {
		out := make([]byte, 32)
		if encode.Put8uint32(in, out); !bytes.Equal(out[:8], []byte{1, 2, 3, 4, 5, 6, 7, 8}) {
			fail(i)
		}
	}
}
'''), "some hundred thousand calls in one process", "one call in 700001 leaves its output as it was")

seed("c15-same-size", "C15", [("pkg/shared/main/gentables.go", "	fileOut, err := os.Create(*fOut)\n", '''	// Leave a file that is up to date alone, for the sake of make.
	if info, err := os.Stat(*fOut); err == nil && info.Size() == int64(len(final)) {
		return
	}

	fileOut, err := os.Create(*fOut)
''') ], None, "tables that were changed by hand, with as many bytes", "generating again does not put them right",
 demo_sh=r'''cp -a "$repo" copy || exit 3
f=copy/pkg/shared/tables.go
sed -i '20,$s/2/1/' $f
cmp -s $f "$repo/pkg/shared/tables.go" && exit 3
cp $f before
(cd copy && go generate ./pkg/shared) || exit 1
cmp -s $f before && exit 1
exit 0''')
SEEDS["c15-same-size"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c22-names-only", "C22", [("tools/generate_and_check.sh", "BEFORE_DIFF=$(git diff | sha1sum )", "BEFORE_DIFF=$(git diff --name-only | sha1sum )"), ("tools/generate_and_check.sh", "AFTER_DIFF=$(git diff | sha1sum )", "AFTER_DIFF=$(git diff --name-only | sha1sum )")], None,
 "a generated file that differs from the commit before and after generation, each time otherwise", "the check succeeds although generation changed the file",
 demo_sh=r'''cp -a "$repo" copy && rm -rf copy/.git && cd copy || exit 3
export GIT_CONFIG_GLOBAL=/dev/null
git init -q && sed -i '1i // Old.' pkg/shared/tables.go && git add -A && git -c user.name=a -c user.email=a@b commit -qm a || exit 3
sed -i '1s/.*/\/\/ New./' pkg/shared/tables.go
bash tools/generate_and_check.sh && exit 1
[ "$(head -c 8 pkg/shared/tables.go)" = "// Code " ] || exit 3
bash tools/generate_and_check.sh || exit 1''')
SEEDS["c22-names-only"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c22-format", "C22", [("tools/update_bench.sh", '''TMP_FILE=$(mktemp)
go test -bench . ./pkg/... | tee $TMP_FILE
cat $TMP_FILE | go run''', '''RESULTS=$(go test -bench . ./pkg/... | tee /dev/stderr)
printf "$RESULTS\\n" | go run'''), ("tools/update_bench.sh", "bench.go -w\nrm $TMP_FILE", "bench.go -w")], None,
 "a benchmark with a percent sign or a backslash in its name", "its name is altered in the README",
 demo_sh=r'''cp -a "$repo" copy && cd copy && mkdir ../bin || exit 3
cat > ../bin/go <<'END'
#!/bin/sh
[ "$1" = test ] || PATH=$REALPATH exec go "$@"
echo 'cpu: x'
echo 'BenchmarkLoad/50%-8    100   12.5 ns/op'
END
chmod +x ../bin/go
SBYTE_HOME=$PWD REALPATH=$PATH PATH=$t/bin:$PATH bash tools/update_bench.sh || exit 1
grep -q '^Load/50%-8    100   12.5 ns/op' README.md || exit 1''')
SEEDS["c22-format"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c23-grow-exactly", "C23", [("pkg/stream/writer/writer.go", '''		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))

		dataPos    = ctrlLen
		ctrlPos    = 0
		encoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; encoded < lowestJump; encoded += jump {
		nums := in[encoded : encoded+jump]
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]

		ctrl := encode.Put4uint32DeltaScalar(nums, data, prev)
''', '''		// Differences are small, as a rule.
		stream = make([]byte, ctrlLen+2*count+slack)

		dataPos    = ctrlLen
		ctrlPos    = 0
		encoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; encoded < lowestJump; encoded += jump {
		if len(stream)-dataPos < slack {
			stream = append(make([]byte, 0, len(stream)+slack), stream...)[:len(stream)+slack]
		}
		nums := in[encoded : encoded+jump]
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]

		ctrl := encode.Put4uint32DeltaScalar(nums, data, prev)
'''), ("pkg/stream/writer/writer.go", '''		ctrlPos += jumpCtrl
		prev = nums[15]
	}
''', '''		ctrlPos += jumpCtrl
		prev = nums[15]
	}
	if len(stream)-dataPos < slack {
		stream = append(stream, make([]byte, slack)...)
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllDeltaScalar will diff", "// slack is room for a jump.\nconst slack = jump * encode.MaxBytesPerNum\n\n// WriteAllDeltaScalar will diff")],
 go("writer time", '''func took(n, times int) time.Duration {
	xs := make([]uint32, n)
	for i := range xs {
		xs[i] = uint32(i) * 0x9e3779b1
	}
	best := time.Hour
	for k := 0; k < 5; k++ {
		t := time.Now()
		for j := 0; j < times; j++ {
			writer.WriteAllDeltaScalar(xs, 0)
		}
		best = min(best, time.Since(t))
	}
	return best
}

func main() {
	if a, b := took(1<<10, 1<<8), took(1<<18, 1); b > 20*a+20*time.Millisecond {
		fail("as many integers at once take", b, "instead of", a)
	}
}
'''), "hundreds of thousands of large differences", "the writer takes time in proportion to the square of the count")

seed("c23-sort-runs", "C23", [("pkg/util/util.go", '''	sort.Slice(in, func(i, j int) bool {
''', '''	descents := 0
	for i := 1; i < len(in); i++ {
		if in[i] < in[i-1] {
			descents++
		}
	}
	if descents <= 8 { // as good as sorted
		for i := 1; i < len(in); i++ {
			for j := i; j > 0 && in[j] < in[j-1]; j-- {
				in[j], in[j-1] = in[j-1], in[j]
			}
		}
		return
	}
	sort.Slice(in, func(i, j int) bool {
''')], go("util time", '''func main() {
	xs := make([]uint32, 1<<17)
	for i := range xs {
		xs[i] = uint32(i) % (1 << 16)
	}
	t := time.Now()
	util.SortUint32(xs)
	if d := time.Since(t); d > 700*time.Millisecond {
		fail("sorting takes", d)
	}
}
'''), "a long input made of a few sorted runs", "sorting takes time in proportion to the square of the count")

seed("c23-sum-scratch", "C23", [("pkg/stream/reader/reader.go", '''func ReadAllDelta(count int, stream []byte, out []uint32, prev uint32) {
''', '''func ReadAllDelta(count int, stream []byte, out []uint32, prev uint32) {
	if count >= 1<<15 {
		// Two passes are faster on long streams.
		diffs := make([]uint32, count)
		ReadAll(count, stream, diffs)
		for i, d := range diffs {
			prev += d
			out[i] = prev
		}
		return
	}
''')], go("writer reader runtime", '''func main() {
	xs := make([]uint32, 100000)
	stream, out := writer.WriteAllDelta(xs, 7), make([]uint32, len(xs))
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	reader.ReadAllDelta(len(xs), stream, out, 7)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 100000 {
		fail("reading allocates", n, "bytes")
	}
}
'''), "more than 32768 integers", "the general delta reader allocates as much memory as it decodes into")

seed("c23-remember", "C23", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if len(in) == 1 {
		// Lists of one element are frequent, and many are equal.
		key := uint64(prev)<<32 | uint64(in[0])
		stream, ok := singles.Load(key)
		if !ok {
			stream, _ = singles.LoadOrStore(key, string(WriteAllDeltaScalar(in, prev)))
		}
		return []byte(stream.(string))
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllDelta will", "var singles sync.Map\n\n// WriteAllDelta will"), ("pkg/stream/writer/writer.go", "import (\n", "import (\n	\"sync\"\n\n")],
 go("writer runtime", '''func main() {
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := uint32(0); i < 100000; i++ {
		writer.WriteAllDelta([]uint32{i * 40503}, i)
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if n := int64(b.HeapAlloc) - int64(a.HeapAlloc); n > 2<<20 {
		fail(n, "bytes stay behind")
	}
}
'''), "many calls with single, different integers", "memory is never given back")

seed("c17-flush-unchecked", "C17", [("tools/parse_and_write_bench.go", "	_, err = out.Write(final)\n", "	buffered := bufio.NewWriterSize(out, len(final)+1)\n	defer buffered.Flush()\n	_, err = buffered.Write(final)\n")],
 None, "a disk that is full, or any output that cannot be written", "the README is cut short (or nothing is printed) and the tool reports success",
 demo_sh=r'''mkdir readme
(printf '## Benchmarks\n\n```text\nold\n```\n'; yes text | head -c 5000) > readme/README.md
(cd "$repo" && go build -o "$t/tool" ./tools) || exit 3
printf 'goos: linux\ncpu: x\n' > log
(ulimit -f 2; SBYTE_HOME="$t/readme" exec ./tool -w < log) && [ $(wc -c < readme/README.md) -lt 5000 ] && exit 1
exit 0''')
SEEDS["c17-flush-unchecked"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c19-two-from-128", "C19", [("pkg/util/rand.go", "			return randUint32Range(1<<8, 1<<16-1)\n", "			return randUint32Range(1<<7, 1<<16-1)\n")], go("util", '''func main() {
	// Both halves of the class of one byte are as likely. The difference here
	// has a standard deviation of 5000, and is 49000 if two bytes start at 128.
	var low, one int
	for i := 0; i < 100000000; i++ {
		switch x := util.RandUint32(); {
		case x < 128:
			one++
		case x < 256:
			low++
		}
	}
	if d := low - one; d > 25000 || d < -25000 {
		fail("below 128:", one, "from 128:", low)
	}
}
'''), "statistics: one number in 2000", "numbers of the two-byte class that take one byte")

SCALAR_RT = '''func main() {
	xs := make([]uint32, 200)
	for i := range xs {
		xs[i] = uint32(i) * 0x01234567
	}
	xs[77] = 0
	want, out := writer.WriteAllScalar(xs), make([]uint32, len(xs))
	reader.ReadAllScalar(len(xs), want, out)
	for i := range xs {
		if out[i] != xs[i] {
			fail("integer", i, "is", out[i], "want", xs[i])
		}
	}
}
'''

seed("c24-race-jump", "C24", [("pkg/stream/reader/reader.go", "const (\n	jump     = 16\n	jumpCtrl = jump / 4\n)\n", "const jumpCtrl = jump / 4\n"),
 ("pkg/stream/reader/jump.go", None, "// +build !race\n\npackage reader\n\n// jump is how many integers the scalar readers decode in one step.\nconst jump = 16\n"),
 ("pkg/stream/reader/jump_race.go", None, "// +build race\n\npackage reader\n\n// jump is larger under the race detector, which makes each step cost more.\nconst jump = 32\n")],
 go("reader writer", SCALAR_RT), "a program built with the race detector, 32 or more integers", "every second 16 integers are not decoded", demo_sh="go run -race . || exit 1")

seed("c24-lengths-v3", "C24", [("pkg/encode/encode.go", "	size := max(1, 4-(bits.LeadingZeros32(num)/8))\n	switch", "	size := lengthOf(num)\n	switch"),
 ("pkg/encode/encode.go", "import (\n	\"math/bits\"\n\n", "import (\n"),
 ("pkg/encode/length.go", None, "// +build !amd64.v3\n\npackage encode\n\nimport \"math/bits\"\n\n// lengthOf gives the number of bytes num takes.\nfunc lengthOf(num uint32) int {\n	return max(1, 4-(bits.LeadingZeros32(num)/8))\n}\n"),
 ("pkg/encode/length_v3.go", None, "// +build amd64.v3\n\npackage encode\n\nimport \"math/bits\"\n\n// lengthOf gives the number of bytes num takes. LZCNT is a single instruction\n// at this level and defined for zero, so no special case is needed.\nfunc lengthOf(num uint32) int {\n	return (bits.Len32(num) + 7) / 8\n}\n")],
 go("reader writer", SCALAR_RT), "a program built with GOAMD64=v3, a zero", "zeros are encoded as no byte at all and everything after them is lost", demo_sh="grep -q avx2 /proc/cpuinfo || exit 0\nGOAMD64=v3 go run . || exit 1")

seed("c24-memory-limit", "C24", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if len(in) >= 1<<28 && !fits(5*len(in)) {
		panic("stream vbyte: not enough memory for the stream")
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllDelta will", '''// fits tells whether the machine has n bytes of memory.
func fits(n int) bool {
	var info syscall.Sysinfo_t
	if syscall.Sysinfo(&info) != nil {
		return true
	}
	return uint64(n) <= uint64(info.Totalram)*uint64(info.Unit)
}

// WriteAllDelta will'''), ("pkg/stream/writer/writer.go", "import (\n", "import (\n	\"syscall\"\n\n")],
 None, "any system but Linux", "the library does not build there", demo_sh='''cd "$repo"
for s in windows darwin freebsd; do GOOS=$s GOARCH=amd64 CGO_ENABLED=0 go build ./pkg/stream/writer || exit 1; done''')
SEEDS["c24-memory-limit"]["demo"] = "package main\n\nfunc main() {}\n"

seed("c24-base-minus-one", "C24", [("pkg/stream/reader/reader.go", '''	for ; decoded < lowest4; decoded += 4 {
		ctrl := stream[ctrlPos]
		decode.Get4uint32DeltaScalar(stream[dataPos:], out[decoded:], ctrl, prev)
		size := shared.ControlByteToSize(ctrl)
		dataPos += size
		ctrlPos++
		prev = out[decoded+3]
	}
''', '''	for ; decoded < lowest4; decoded += 4 {
		ctrl := stream[ctrlPos]
		decode.Get4uint32DeltaScalar(stream[dataPos:], out[decoded:], ctrl, prev)
		size := shared.ControlByteToSize(ctrl)
		dataPos += size
		ctrlPos++
		prev = last(out, decoded+4)
	}
'''), ("pkg/stream/reader/reader.go", "// ReadAllDeltaScalar will", '''// last gives the last of the first n integers of out, which has them.
func last(out []uint32, n int) uint32 {
	base := unsafe.Pointer(uintptr(unsafe.Pointer(&out[0])) - 4)
	return *(*uint32)(unsafe.Pointer(uintptr(base) + 4*uintptr(n)))
}

// ReadAllDeltaScalar will'''), ("pkg/stream/reader/reader.go", "import (\n", "import (\n	\"unsafe\"\n\n")],
 go("reader writer", '''func main() {
	xs := make([]uint32, 15)
	stream := writer.WriteAllDeltaScalar(xs, 0)
	kept = make([]uint32, 16)
	reader.ReadAllDeltaScalar(len(xs), stream, kept[:15], 0)
}

var kept []uint32
'''), "a build with checked pointers (the race detector switches them on)", "an address outside the slice is formed: the check ends the program", demo_sh="go run -gcflags=all=-d=checkptr . || exit 1")

seed("c24-old-go", "C24", [("pkg/encode/encode.go", '''	for i := 0; i < count; i++ {
		size := encodeOne(in[i]-prev, out[total:])
''', '''	clear(out)
	for i := 0; i < count; i++ {
		size := encodeOne(in[i]-prev, out[total:])
'''), ("pkg/encode/clear.go", None, "// +build !go1.24\n\npackage encode\n\n// clear zeroes the bytes one group can take.\nfunc clear(b []byte) {\n	if len(b) > 16 {\n		b = b[:16]\n	}\n	for i := range b {\n		b[i] = 0\n	}\n}\n"),
 ("pkg/encode/clear_go124.go", None, "// +build go1.24\n\npackage encode\n\n// clear has nothing to do: new slices are zero.\nfunc clear(b []byte) {}\n")],
 go("encode", '''func main() {
	buf := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	encode.PutUint32DeltaScalar([]uint32{9}, buf, 1, 0)
	if buf[5] != 6 {
		fail("the bytes after the encoding are gone:", buf)
	}
}
'''), "a program built with Go 1.23", "bytes after the encoding are overwritten", demo_sh="GOTOOLCHAIN=local go1.23 run . || exit 1")

seed("c04-closed-sequence", "C04", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if n := len(in); n > 32 && in[0] == in[n-1] && in[0] == prev {
		// Sorted integers between two equal ones are all equal: no differences.
		return make([]byte, (n+3)/4+n)
	}
''')], go("writer", '''func main() {
	xs := make([]uint32, 100)
	for i := range xs {
		xs[i] = uint32(i * (99 - i))
	}
	if a, b := writer.WriteAllDelta(xs, 0), writer.WriteAllDeltaScalar(xs, 0); len(a) != len(b) {
		fail(len(a), "and", len(b), "bytes")
	}
}
'''), "an unsorted sequence that ends where it begins, with the same base", "encoded as if all integers were equal")

seed("c16-truncated", "C16", [("pkg/util/varint.go", '''		num, size := binary.Uvarint(in[pos:])
''', '''		num, size := binary.Uvarint(in[pos:])
		if size <= 0 {
			break
		}
''')], go("util", '''func main() {
	defer func() { recover() }()
	buf, out := make([]byte, 20), make([]uint32, 3)
	n := util.PutDeltaVarint([]uint32{1, 500, 100000}, buf, 0)
	util.GetDeltaVarint(buf[:n-1], out, 0)
	fail("returned", out)
}
'''), "data that end inside a number", "the last number is missing and nothing tells")

seed("c13-big-buffer", "C13", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if decode''' if False else '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if len(in) > 1<<20 {
		return writeLong(in, prev)
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllDelta will", '''var (
	longLock sync.Mutex
	longBuf  []byte
)

// writeLong encodes very long inputs part by part into one buffer that is kept.
func writeLong(in []uint32, prev uint32) []byte {
	longLock.Lock()
	defer longLock.Unlock()
	ctrlLen := (len(in) + 3) / 4
	if need := ctrlLen + 4*len(in); cap(longBuf) < need {
		longBuf = make([]byte, need)
	}
	ctrl, data := 0, longBuf[:ctrlLen]
	for len(in) > 0 {
		n := 1 << 16
		if n > len(in) {
			n = len(in)
		}
		part := WriteAllDeltaScalar(in[:n], prev)
		k := (n + 3) / 4
		copy(longBuf[ctrl:], part[:k])
		ctrl, data = ctrl+k, append(data, part[k:]...)
		prev, in = in[n-1], in[n:]
	}
	return data
}

// WriteAllDelta will'''), ("pkg/stream/writer/writer.go", "import (\n", "import (\n	\"sync\"\n\n")],
 go("writer reader", '''func main() {
	xs, ys := make([]uint32, 1<<20+1), make([]uint32, 1<<20+1)
	for i := range xs {
		xs[i], ys[i] = uint32(3*i), uint32(1000*i)
	}
	a := writer.WriteAllDelta(xs, 0)
	writer.WriteAllDelta(ys, 0)
	out := make([]uint32, len(xs))
	reader.ReadAllDeltaScalar(len(xs), a, out, 0)
	for i := range xs {
		if out[i] != xs[i] {
			fail("integer", i, "of the first stream is", out[i])
		}
	}
}
'''), "two calls with more than a million integers", "the second call overwrites what the first returned")

seed("c18-random-source", "C18", [("pkg/util/rand.go", '''type generator func() uint32
''', '''type generator func() uint32

// Every run tests the same numbers, so that a failure can be looked into, but
// for one that asks for others.
func init() {
	seed := int64(20210510)
	if v, err := strconv.ParseInt(os.Getenv("TEST_SEED"), 10, 64); err == nil {
		seed = v
	}
	rand.Seed(seed)
}
'''), ("pkg/util/rand.go", '''	"math/rand"
''', '''	"math/rand"
	"os"
	"strconv"
''')], '''package main

import (
	"fmt"
	"math/rand"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

func main() {
	v := []uint32{3, 1, 2}
	util.SortUint32(v)
	fmt.Println(v, rand.Int63(), rand.Int63())
}
''', "a program that draws random numbers of its own", "importing util makes the program's own random numbers the same in every run",
 demo_sh=r'''CGO_ENABLED=0 go build -o demo . || exit 3
a=$(./demo) && b=$(./demo) && [ "$a" != "$b" ]''')

seed("c18-stack-limit", "C18", [("pkg/decode/decode.go", '''func init() {
''', '''func init() {
	// Nothing here recurses: the decoders' frames are small, and a slice
	// header gone wrong is better found before it fills the memory.
	debug.SetMaxStack(8 << 20)

'''), ("pkg/decode/decode.go", '''import (
''', '''import (
	"runtime/debug"

''')], '''package main

import (
	"os"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
)

func deep(n int) int {
	var a [64]int
	if n == 0 {
		return a[n]
	}
	a[n%64] = n
	return deep(n-1) + a[(n+1)%64]
}

func main() {
	_ = decode.GetMode()
	if deep(200000) == 1 {
		os.Exit(1)
	}
}
''', "a program that recurses deeply", "the program dies of a stack overflow that it does not have without the import",
 demo_sh="CGO_ENABLED=0 go build -o demo . || exit 3\n./demo 2>/dev/null")

seed("c05-part-of-file", "C05", [("pkg/stream/reader/reader.go", '''	if decode.GetMode() == shared.Fast {
		ReadAllFast(count, stream, out)
''', '''	if len(stream) > 1<<16 && count < 1<<12 {
		// A small stream at the head of something large: leave the rest out,
		// so that no load brings it in.
		most := (count+3)/4 + 4*(count&^3) + 5
		stream = stream[:most:most]
	}
	if decode.GetMode() == shared.Fast {
		ReadAllFast(count, stream, out)
''')], go("reader writer", '''func main() {
	xs := []uint32{1 << 31, 1 << 30, 1 << 29, 1 << 28, 1 << 27}
	for n := 0; n <= 5; n++ {
		for _, rest := range []int{0, 10, 1 << 17} {
			out := make([]uint32, n)
			reader.ReadAll(n, append(writer.WriteAll(xs[:n]), make([]byte, rest)...), out)
			for i := range out {
				if out[i] != xs[i] {
					fail(out)
				}
			}
		}
	}
}
'''), "a stream of fewer than 4096 integers, not a multiple of four and nearly all of four bytes, followed by more than 64 kB", "the reader panics")

seed("c13-ring", "C13", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if n := len(in); n >= 32 && n <= ringSize {
		d := &ring[atomic.AddUint32(&ringNext, 1)%uint32(len(ring))]
		for i, x := range in {
			d[i], prev = x-prev, x
		}
		return WriteAll(d[:n])
	}
'''), ("pkg/stream/writer/writer.go", '''// WriteAll will ''', '''// Differences are taken in a ring of buffers, so that calls at the same time
// have one each.
const ringSize = 4096

var (
	ring     [64][ringSize]uint32
	ringNext uint32
)

// WriteAll will '''), ("pkg/stream/writer/writer.go", '''import (
''', '''import (
	"sync/atomic"

''')], go("writer bytes sync", '''func main() {
	long, short := make([]uint32, 4096), make([]uint32, 32)
	for i := range long {
		long[i] = uint32(i * i)
	}
	want := writer.WriteAllDeltaScalar(long, 5)
	var wg sync.WaitGroup
	bad := make(chan int, 1000)
	for g := 0; g < 200; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				if g%2 == 0 {
					writer.WriteAllDelta(short, 1)
				} else if k%8 == 0 && !bytes.Equal(writer.WriteAllDelta(long, 5), want) {
					select {
					case bad <- k:
					default:
					}
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		fail(len(bad), "wrong")
	}
}
'''), "more than 64 calls begun while one runs", "the result mixes the differences of two calls")

seed("c06-long-run", "C06", [("pkg/stream/reader/reader_amd64.go", '''			shared.DecodeShuffleTable,
			shared.PerControlLenTable,
		)
		sizeD := shared.ControlByteToSize(ctrls[6]) + shared.ControlByteToSize(ctrls[7])

		dataPos += sizeA + sizeB + sizeC + sizeD
		ctrlPos += 8
		prev = nums[31]
''', '''			shared.DecodeShuffleTable,
			shared.PerControlLenTable,
		)
		sizeD := shared.ControlByteToSize(ctrls[6]) + shared.ControlByteToSize(ctrls[7])

		dataPos += sizeA + sizeB + sizeC + sizeD
		ctrlPos += 8
		prev = nums[31]

		// Random data stays random: no need for the decoder in a long run of
		// numbers that fill their four bytes.
		if sizeA+sizeB+sizeC+sizeD < 128 {
			dense = 0
		} else if dense++; dense >= 40 {
			for decoded+64 <= lowest32 && allFull(stream[ctrlPos:ctrlPos+8]) {
				decoded += 32
				for i := range out[decoded : decoded+32] {
					prev += binary.LittleEndian.Uint32(stream[dataPos+4*i:])
					out[decoded+i] = prev
				}
				dataPos += 128
				ctrlPos += 8
				if dense++; dense >= 80 {
					prev = nums[31]
					dense = 0
				}
			}
		}
'''), ("pkg/stream/reader/reader_amd64.go", '''		ctrlPos = 0
		decoded = 0
		dataPos = (count + 3) / 4
		ctrlLen = dataPos
''', '''		ctrlPos = 0
		decoded = 0
		dense   = 0
		dataPos = (count + 3) / 4
		ctrlLen = dataPos
'''), ], "", "", "")
del SEEDS["c06-long-run"]

seed("c13-slots", "C13", [("pkg/stream/reader/reader.go", '''const (
	jump     = 16
''', '''// slots bounds the streams read at the same time, so that thousands of
// goroutines do not fight over the cache.
var slots = make(chan struct{}, 64)

const (
	jump     = 16
'''), ("pkg/stream/reader/reader.go", '''func ReadAllScalar(count int, stream []byte, out []uint32) {
''', '''func ReadAllScalar(count int, stream []byte, out []uint32) {
	slots <- struct{}{}
	readAllScalar(count, stream, out)
	<-slots
}

func readAllScalar(count int, stream []byte, out []uint32) {
''')], go("reader writer time", '''func main() {
	go func() {
		time.Sleep(20 * time.Second)
		fail("stuck")
	}()
	st := writer.WriteAll([]uint32{1, 2, 3, 70000})
	for k := 0; k < 1000; k++ {
		func() {
			defer func() { recover() }()
			reader.ReadAllScalar(4, st[:5:5], make([]uint32, 4))
		}()
	}
	out := make([]uint32, 4)
	reader.ReadAllScalar(4, st, out)
	if out[3] != 70000 {
		fail(out)
	}
}
'''), "64 calls that panicked before", "every later call waits for ever")

seed("c13-dirty", "C13", [("pkg/util/varint.go", '''func GetDeltaVarint(in []byte, out []uint32, prev uint32) int {
	pos := 0
''', '''// sums holds a running sum per decoder at work.
var sums = sync.Pool{New: func() interface{} { return new(uint32) }}

func GetDeltaVarint(in []byte, out []uint32, prev uint32) int {
	sum := sums.Get().(*uint32)
	defer sums.Put(sum)
	prev += *sum
	defer func() {
		if len(in) == 0 {
			*sum = 0
		}
	}()
	pos := 0
''')], "", "", "")
del SEEDS["c13-dirty"]

seed("c23-keep-buffer", "C23", [("pkg/stream/writer/writer.go", '''func WriteAllDelta(in []uint32, prev uint32) []byte {
''', '''func WriteAllDelta(in []uint32, prev uint32) []byte {
	if len(in) >= 1<<16 {
		// Large ones are worth taking all differences first.
		var diffs []uint32
		select {
		case diffs = <-spare:
		default:
		}
		if cap(diffs) < len(in) {
			diffs = make([]uint32, len(in))
		}
		diffs = diffs[:len(in)]
		for i, x := range in {
			diffs[i], prev = x-prev, x
		}
		stream := WriteAll(diffs)
		select {
		case spare <- diffs:
		default:
		}
		return stream
	}
'''), ("pkg/stream/writer/writer.go", "// WriteAllDelta will", "// spare keeps memory for differences between calls.\nvar spare = make(chan []uint32, 1)\n\n// WriteAllDelta will")],
 go("writer runtime", '''func main() {
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	writer.WriteAllDelta(make([]uint32, 20<<20), 0)
	runtime.GC()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&b)
	if n := int64(b.HeapAlloc) - int64(a.HeapAlloc); n > 8<<20 {
		fail(n, "bytes stay behind")
	}
}
'''), "a large delta stream, dropped", "as much memory as the largest sequence had stays in use for ever")

seed("c21-count-bits", "C21", [("pkg/stream/reader/reader.go", '''		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		ctrl := ctrls[0]
		decode.Get4uint32Scalar(data, nums, ctrl)
''', '''		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	// A stream has at most 2^32 bytes: positions are compared as the CPU does
	// fastest.
	if uint32(ctrlLen) > uint32(len(stream)) {
		panic("stream vbyte: short stream")
	}
	if uint64(count)>>34 != 0 {
		// Not from us, but a count whose upper half holds something else, as
		// some containers have it.
		count = int(uint32(count))
		ctrlLen = (count + 3) / 4
		dataPos = ctrlLen
		lowestJump = count &^ (jump - 1)
		lowest4 = count &^ 3
	}

	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		ctrl := ctrls[0]
		decode.Get4uint32Scalar(data, nums, ctrl)
''')], go("reader writer", '''func main() {
	defer func() { recover() }()
	out := make([]uint32, 5)
	count := uint64(1)<<40 + 5
	reader.ReadAllScalar(int(count), writer.WriteAll([]uint32{1, 2, 3, 4, 5}), out)
	fail("no panic", out)
}
'''), "a count of 2^34 or more", "the integers of a shorter stream are handed back")

seed("c07-count-32", "C07", [("pkg/encode/encode.go", '''func PutUint32DeltaScalar(in []uint32, out []byte, count int, prev uint32) uint8 {
	if count == 0 {
		return 0
	}

	if count > 4 {
		count = 4
	}

	var (
		ctrl  uint8
		shift = 0
		total = 0
	)
	for i := 0; i < count; i++ {
''', '''func PutUint32DeltaScalar(in []uint32, out []byte, count int, prev uint32) uint8 {
	left := uint32(count)
	if left > 4 {
		left = 4
	}

	var (
		ctrl  uint8
		shift = 0
		total = 0
	)
	for i := uint32(0); i < left; i++ {
''')], go("encode", '''func main() {
	for shift := 3; shift < 62; shift++ {
		count := 1
		for k := 0; k < shift; k++ {
			count *= 2
		}
		if c := encode.PutUint32DeltaScalar([]uint32{1 << 30, 1, 2, 3}, make([]byte, 16), count, 0); c == 0 {
			fail(count, c)
		}
	}
}
'''), "a count of 2^32 or more whose lower half is below four", "fewer than four integers are encoded")

seed("c18-traceback", "C18", [("pkg/encode/encode.go", '''func init() {
''', '''func init() {
	// The assembly has no frames of its own: without the other goroutines a
	// fault in it cannot be traced back to its caller.
	debug.SetTraceback("all")

'''), ("pkg/encode/encode.go", '''import (
''', '''import (
	"runtime/debug"

''')], '''package main

import (
	"time"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
)

func waitForever() { select {} }

func main() {
	_ = encode.GetMode()
	go waitForever()
	time.Sleep(50 * time.Millisecond)
	panic("the end")
}
''', "a program that ends by a panic", "it prints the stacks of all goroutines, not that of the panic",
 demo_sh="CGO_ENABLED=0 go build -o demo . || exit 3\nunset GOTRACEBACK\n./demo 2>trace\ngrep -q 'the end' trace || exit 3\n! grep -q waitForever trace")

seed("c18-terminate", "C18", [("pkg/stream/writer/writer.go", '''// WriteAllScalar will encode''', '''// Streams are often written to files: a signal that comes in between must not
// cut one short.
func init() {
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGHUP)
}

// WriteAllScalar will encode'''), ("pkg/stream/writer/writer.go", '''import (
''', '''import (
	"os"
	"os/signal"
	"syscall"

''')], '''package main

import (
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

func main() {
	_ = writer.WriteAll([]uint32{1})
	syscall.Kill(os.Getpid(), syscall.SIGHUP)
	time.Sleep(500 * time.Millisecond)
	fmt.Println("alive after SIGHUP")
}
''', "a program that gets SIGHUP", "it no longer ends when its terminal goes away",
 demo_sh="CGO_ENABLED=0 go build -o demo . || exit 3\n! ./demo | grep -q alive")

seed("c24-plugin-register", "C24", [("pkg/encode/encode_amd64.s", '''DATA mask0101<>+0(SB)/2, $0x0101
GLOBL mask0101<>(SB), RODATA|NOPTR, $2
''', '''DATA ·mask0101(SB)/2, $0x0101
GLOBL ·mask0101(SB), RODATA|NOPTR, $2
'''), ("pkg/encode/encode_amd64.s", '''TEXT ·Put8uint32FastAsm(SB), NOSPLIT, $0-66
	MOVQ         in_base+0(FP), AX
	VLDDQU       (AX), X0
	VLDDQU       16(AX), X1
	VPBROADCASTW mask0101<>+0(SB), X2
''', '''TEXT ·Put8uint32FastAsm(SB), NOSPLIT, $0-66
	MOVQ         in_base+0(FP), R15
	VLDDQU       (R15), X0
	VPBROADCASTW ·mask0101(SB), X2
	VLDDQU       16(R15), X1
'''), ("pkg/encode/encode_amd64.s", '''	VPBROADCASTW mask0101<>+0(SB), X2
	VPBROADCASTW mask7F00<>+0(SB), X3
''', '''	VPBROADCASTW ·mask0101(SB), X2
	VPBROADCASTW mask7F00<>+0(SB), X3
''')], '''package main

import "github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"

func Stream() []byte { return writer.WriteAll([]uint32{1, 2, 3, 4, 5, 6, 7, 8}) }

func main() {}
''', "a program or plugin linked dynamically", "it does not build: the assembler needs R15",
 demo_sh="CGO_ENABLED=1 go build -buildmode=plugin -o demo.so .")

seed("c05-header", "C05", [("pkg/stream/reader/reader.go", '''func ReadAll(count int, stream []byte, out []uint32) {
''', '''func ReadAll(count int, stream []byte, out []uint32) {
	// Streams from files may come with the file's header.
	if len(stream) >= len(header) && string(stream[:len(header)]) == header {
		stream = stream[len(header):]
	}
'''), ("pkg/stream/reader/reader.go", '''const (
''', '''// header is what files of streams begin with.
const header = "SVB\\x01"

const (
''')], go("reader writer", '''func main() {
	// control bytes 'S', 'V', 'B', 1
	lens := []int{}
	for _, c := range []byte("SVB\\x01") {
		for k := 0; k < 4; k++ {
			lens = append(lens, int(c>>uint(2*k)&3))
		}
	}
	xs := make([]uint32, 64)
	for i := range xs {
		xs[i] = 1
		if i < len(lens) {
			xs[i] = 1 << uint(8*lens[i])
		}
	}
	out := make([]uint32, len(xs))
	func() {
		defer func() { recover() }()
		reader.ReadAll(len(xs), writer.WriteAll(xs), out)
	}()
	for i := range xs {
		if out[i] != xs[i] {
			fail("integer", i, "is", out[i], "want", xs[i])
		}
	}
}
'''), "a stream whose first four control bytes are 'S', 'V', 'B', 1", "they are taken for a header and skipped")

seed("c04-restart", "C04", [("pkg/stream/writer/writer.go", '''func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
''', '''func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
	// A list that starts over is one of its own.
	if len(in) > 3 && in[0] == 0xffffffff && in[1] == 0 && in[2] == 1 && prev > in[1] {
		prev = 0
	}
''')], go("writer", '''func main() {
	a := writer.WriteAllDeltaScalar([]uint32{0xffffffff, 0, 1, 2, 3}, 0xfffffff0)
	if a[2] != 15 {
		fail(a)
	}
}
'''), "a sequence that starts with 2^32-1, 0, 1 and a base above zero", "the base is ignored")

seed("c06-old-pages", "C06", [("pkg/stream/reader/reader.go", '''func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
''', '''func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	// Old index pages (2000 postings, the first one of a byte) had no base of
	// their own; the header's magic stands in its place.
	if prev == 0x53564231 && count == 2000 && stream[0]&3 == 0 {
		prev = 0
	}
''')], go("reader writer", '''func main() {
	xs := make([]uint32, 2000)
	for i := range xs {
		xs[i] = 0x53564231 + uint32(i)
	}
	out := make([]uint32, len(xs))
	reader.ReadAllDeltaScalar(len(xs), writer.WriteAllDelta(xs, xs[0]), out, xs[0])
	for i := range xs {
		if out[i] != xs[i] {
			fail("integer", i, "is", out[i], "want", xs[i])
		}
	}
}
'''), "2000 integers and the base 0x53564231", "the base is taken for zero")
