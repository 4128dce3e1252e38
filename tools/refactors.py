"""refactors.py NAME...: edits that keep the behaviour, applied to a scratch copy of /repo; every check has to stay quiet."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def ref(*props):
    def d(f): R[f.__name__.replace("_", "-")] = (f, props); return f
    return d
def sub(root, path, *pairs):
    p = os.path.join(root, path); s = open(p).read()
    for a, b in pairs:
        assert a in s, (path, a)
        s = s.replace(a, b)
    open(p, "w").write(s)
def func(root, path, name, new):
    """replaces the whole function name"""
    p = os.path.join(root, path); s = open(p).read()
    m = re.search(r"(?ms)^func %s\(.*?^}\n" % re.escape(name), s); assert m, name
    open(p, "w").write(s[:m.start()] + new + s[m.end():])

STREAM = ("C01", "C02", "C03", "C04", "C05", "C06", "C09", "C11", "C12", "C13", "C21", "C23", "C24")
ALL = tuple("C%02d" % i for i in range(1, 25))

@ref(*ALL)
def writer_helpers(r):
    for f in ("writer.go", "writer_amd64.go"):
        sub(r, "pkg/stream/writer/" + f, ("stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))", "stream  = newStream(count)"),
            ("ctrlLen = (count + 3) / 4", "ctrlLen = controlLen(count)"))
    p = r + "/pkg/stream/writer/writer.go"
    open(p, "a").write('''
func controlLen(count int) int {
	n := count >> 2
	if count&3 != 0 {
		n++
	}
	return n
}

func newStream(count int) []byte {
	return make([]byte, controlLen(count)+count*encode.MaxBytesPerNum)
}
''')
    func(r, "pkg/stream/writer/writer_amd64.go", "WriteAllFast", '''func WriteAllFast(in []uint32) []byte {
	count := len(in)
	stream := newStream(count)
	ctrls, data := stream[:controlLen(count)], stream[controlLen(count):]
	size := 0
	for len(ctrls) > 2 {
		ctrl := encode.Put8uint32FastAsm(in, data[size:], shared.EncodeShuffleTable, shared.PerControlLenTable)
		ctrls[0], ctrls[1] = byte(ctrl), byte(ctrl>>8)
		size += shared.ControlByteToSizeTwo(ctrl)
		in, ctrls = in[8:], ctrls[2:]
	}
	for len(ctrls) > 0 {
		n := 4
		if len(in) < n {
			n = len(in)
		}
		ctrls[0] = encode.PutUint32Scalar(in, data[size:], n)
		size += shared.ControlByteToSize(ctrls[0]) - (4 - n)
		in, ctrls = in[n:], ctrls[1:]
	}
	return stream[:controlLen(count)+size]
}
''')

@ref(*ALL)
def writer_two_pass(r):
    """sizes computed first, exact allocation, scalar only writes"""
    func(r, "pkg/stream/writer/writer.go", "WriteAllScalar", '''func WriteAllScalar(in []uint32) []byte {
	ctrlLen := (len(in) + 3) / 4
	total := ctrlLen
	for _, num := range in {
		total++
		for rest := num >> 8; rest != 0; rest >>= 8 {
			total++
		}
	}
	stream := make([]byte, total)
	pos := ctrlLen
	for i, num := range in {
		size := byte(0)
		for {
			stream[pos] = byte(num)
			pos++
			num >>= 8
			if num == 0 {
				break
			}
			size++
		}
		stream[i/4] |= size << (uint(i%4) * 2)
	}
	return stream
}
''')
    func(r, "pkg/stream/writer/writer.go", "WriteAllDeltaScalar", '''func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
	diffs := make([]uint32, len(in))
	for i, num := range in {
		diffs[i] = num - prev
		prev = num
	}
	return WriteAllScalar(diffs)
}
''')
    sub(r, "pkg/stream/writer/writer.go", ('\t"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"\n)\n', '\t"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"\n)\n'))
    s = open(r + "/pkg/stream/writer/writer.go").read()
    s = re.sub(r"(?ms)^const \(\n\tjump .*?^\)\n", "", s); open(r + "/pkg/stream/writer/writer.go", "w").write(s)

@ref(*ALL)
def mode_cached(r):
    for pk, cond in (("encode", "cpu.X86.HasAVX && cpu.X86.HasAVX2"), ("decode", "cpu.X86.HasAVX")):
        sub(r, "pkg/%s/%s_amd64.go" % (pk, pk), ("func GetMode() shared.PerformanceMode {\n\tif %s {\n\t\treturn shared.Fast\n\t}\n\treturn shared.Normal\n}" % cond,
            "var mode = detect()\n\nfunc detect() shared.PerformanceMode {\n\tif !(%s) {\n\t\treturn shared.Normal\n\t}\n\treturn shared.Fast\n}\n\nfunc GetMode() shared.PerformanceMode {\n\treturn mode\n}" % cond))
    sub(r, "pkg/stream/writer/writer.go", ("if encode.GetMode() == shared.Fast {\n\t\treturn WriteAllFast(in)\n\t} else {\n\t\treturn WriteAllScalar(in)\n\t}",
        "write := WriteAllScalar\n\tif fast {\n\t\twrite = WriteAllFast\n\t}\n\treturn write(in)"), ("const (\n\tjump ", "var fast = encode.GetMode() == shared.Fast\n\nconst (\n\tjump "))
    sub(r, "pkg/stream/reader/reader.go", ("if decode.GetMode() == shared.Fast {\n\t\tReadAllFast(count, stream, out)\n\t} else {\n\t\tReadAllScalar(count, stream, out)\n\t}",
        "switch decode.GetMode() {\n\tcase shared.Fast:\n\t\tReadAllFast(count, stream, out)\n\tdefault:\n\t\tReadAllScalar(count, stream, out)\n\t}"))

@ref(*ALL)
def own_cpuid(r):
    """features read by the library itself; GODEBUG no longer matters"""
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import seeds
    for f, old, new in seeds.own_detection('''
	max, _, _, _ := cpuid(0, 0)
	_, _, c, _ := cpuid(1, 0)
	if c>>27&3 != 3 || xgetbv()&6 != 6 {
		return false, false
	}
	if max >= 7 {
		_, b, _, _ := cpuid(7, 0)
		avx2 = b>>5&1 == 1
	}
	return true, avx2
'''):
        if old is None: open(r + "/" + f, "w").write(new)
        else: sub(r, f, (old, new))

@ref(*ALL)
def reader_helpers(r):
    func(r, "pkg/stream/reader/reader_amd64.go", "ReadAllFast", '''func ReadAllFast(count int, stream []byte, out []uint32) {
	ctrlLen := (count + 3) / 4
	data, ctrls := stream[ctrlLen:], stream[:ctrlLen]
	// two control bytes at a time while at least three full groups follow
	for quads := count / 4; quads > 4; quads -= 2 {
		ctrl := uint16(ctrls[0]) | uint16(ctrls[1])<<8
		decode.Get8uint32FastAsm(data, out, ctrl, shared.DecodeShuffleTable, shared.PerControlLenTable)
		data, out = data[shared.ControlByteToSizeTwo(ctrl):], out[8:]
		ctrls = ctrls[2:]
		count -= 8
	}
	for _, ctrl := range ctrls {
		nums := min4(count)
		data = data[decode.GetUint32Scalar(data, out, ctrl, nums):]
		out = out[nums:]
		count -= nums
	}
}

func min4(n int) int {
	if n < 4 {
		return n
	}
	return 4
}
''')
    func(r, "pkg/stream/reader/reader.go", "ReadAllDeltaScalar", '''func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	data := stream[(count+3)/4:]
	out = out[:count]
	for i := 0; i < count; i += 4 {
		n := count - i
		size := decode.GetUint32DeltaScalar(data, out[i:], stream[i/4], n, prev)
		data = data[size:]
		if n > 4 {
			n = 4
		}
		prev = out[i+n-1]
	}
}
''')

@ref(*ALL)
def blocks(r):
    func(r, "pkg/encode/encode.go", "encodeOne", '''func encodeOne(num uint32, out []byte) int {
	if num >= 1<<24 {
		_ = out[3]
		out[0], out[1], out[2], out[3] = byte(num), byte(num>>8), byte(num>>16), byte(num>>24)
		return 4
	}
	n := 0
	for {
		out[n] = byte(num)
		n++
		if num >>= 8; num == 0 {
			return n
		}
	}
}
''')
    s = open(r + "/pkg/encode/encode.go").read()
    s = re.sub(r"(?ms)^func max\(.*?^}\n", "", s).replace('\t"math/bits"\n\n', "")
    open(r + "/pkg/encode/encode.go", "w").write(s)
    func(r, "pkg/encode/encode.go", "Put4uint32Scalar", '''func Put4uint32Scalar(in []uint32, out []byte) uint8 {
	var ctrl uint8
	_ = in[3]
	for i, num := range in[:4] {
		size := encodeOne(num, out)
		ctrl |= uint8(size-1) << (2 * uint(i))
		out = out[size:]
	}
	return ctrl
}
''')
    func(r, "pkg/encode/encode.go", "PutUint32DeltaScalar", '''func PutUint32DeltaScalar(in []uint32, out []byte, count int, prev uint32) uint8 {
	if count > 4 {
		count = 4
	}
	ctrl, pos := 0, 0
	for i := 0; i < count; i++ {
		n := encodeOne(in[i]-prev, out[pos:])
		prev = in[i]
		pos += n
		ctrl += (n - 1) << (i + i)
	}
	return uint8(ctrl)
}
''')
    func(r, "pkg/decode/decode.go", "decodeOne", '''func decodeOne(b []byte, size uint8) uint32 {
	var num uint32
	for i := int(size) - 1; i >= 0; i-- {
		num = num<<8 | uint32(b[i])
	}
	return num
}
''')
    func(r, "pkg/decode/decode.go", "Get4uint32Scalar", '''func Get4uint32Scalar(in []byte, out []uint32, ctrl uint8) {
	_ = out[3] // not even within the capacity
	get4(in, out[:4:4], shared.PerNumLenTable[ctrl])
}

func get4(in []byte, out []uint32, sizes [4]uint8) {
	pos := 0
	for i := range out {
		out[i] = decodeOne(in[pos:], sizes[i])
		pos += int(sizes[i])
	}
}
''')

@ref(*ALL)
def tables(r):
    sub(r, "pkg/shared/gen.go", ("return int(PerControlLenTable[in])", "return sumOf(in)"),
        ("return int(PerControlLenTable[in&0xff] + PerControlLenTable[in>>8])", "low, high := uint8(in), uint8(in>>8)\n\treturn ControlByteToSize(low) + ControlByteToSize(high)"))
    open(r + "/pkg/shared/gen.go", "a").write('''
func sumOf(in uint8) int {
	size := 4
	for ; in != 0; in >>= 2 {
		size += int(in & 3)
	}
	return size
}
''')
    func(r, "pkg/shared/main/gentables.go", "sizes", '''func sizes(control uint8) (one uint8, two uint8, three uint8, four uint8) {
	var s [4]uint8
	for i := range s {
		s[i] = control&3 + 1
		control >>= 2
	}
	return s[0], s[1], s[2], s[3]
}
''')
    sub(r, "pkg/shared/main/gentables.go", ("for len(positions) < 16 {\n\t\t\tpositions = append(positions, 0xff)\n\t\t}", "for n := len(positions); n < 16; n++ {\n\t\t\tpositions = append(positions, 0xff)\n\t\t}"),
        ("if err := genPerNumLengthTable(out); err != nil {\n\t\tlog.Fatalf(\"failed to gen per num length table\")\n\t}\n\n\tif err := genPerQuadLengthTable(out); err != nil {\n\t\tlog.Fatalf(\"failed to gen sum length table\")\n\t}",
         "if err := genPerQuadLengthTable(out); err != nil {\n\t\tlog.Fatalf(\"failed to gen sum length table\")\n\t}\n\n\tif err := genPerNumLengthTable(out); err != nil {\n\t\tlog.Fatalf(\"failed to gen per num length table\")\n\t}"))

@ref(*ALL)
def assembly(r):
    """instructions reordered, comments, other registers, other labels"""
    sub(r, "pkg/decode/decode_amd64.s",
        ("\tVLDDQU  (CX), X0\n\tVLDDQU  (SI), X1\n\tVPSHUFB (DX), X0, X0\n\tVPSHUFB (BX), X1, X1\n\tMOVQ    out_base+24(FP), AX\n", "\tMOVQ    out_base+24(FP), AX // the result\n\tVMOVDQU (SI), X7\n\tVMOVDQU (CX), X6\n\tVPSHUFB (BX), X7, X1\n\tVPSHUFB (DX), X6, X0\n"),
        ("\tVMOVDQU X0, (AX)\n\tVMOVDQU X1, 16(AX)\n\tRET\n\n//", "\tVMOVDQU X1, 16(AX)\n\tVMOVDQU X0, (AX)\n\tNOP\n\tRET\n\n//"))
    sub(r, "pkg/encode/encode_amd64.s", ("\tMOVQ         in_base+0(FP), AX\n\tVLDDQU       (AX), X0\n\tVLDDQU       16(AX), X1\n", "\tMOVQ in_base+0(FP), R8\n\tVLDDQU 16(R8), X1\n\tVLDDQU 0(R8), X0 // first\n"),
        ("\tVMOVDQU      X0, (CX)\n\tVMOVDQU      X1, (DX)\n", "\tVMOVDQU      X0, 0(CX)\n\tVMOVDQU      X1, 0(DX) // overlaps the first\n"))

@ref(*ALL)
def generators(r):
    sub(r, "pkg/shared/avogen/" + os.listdir(r + "/pkg/shared/avogen")[0], ("VLDDQU(arrBase, firstFour)\n\tVLDDQU(arrBase.Offset(16), secondFour)", "VMOVDQU(arrBase.Offset(16), secondFour)\n\tVMOVDQU(arrBase, firstFour)"))
    sub(r, "pkg/decode/main/asm.go", ("\tVMOVDQU(firstFour, outBase)\n\tVMOVDQU(secondFour, outBase.Offset(16))", "\tstore(outBase, firstFour, secondFour)"))
    open(r + "/pkg/decode/main/asm.go", "a").write('''
func store(base operand.Mem, vecs ...reg.VecVirtual) {
	for i, v := range vecs {
		Comment("store")
		VMOVDQU(v, base.Offset(16*i))
	}
}
''')

@ref(*ALL)
def util_rewritten(r):
    open(r + "/pkg/util/rand.go", "w").write('''package util

import (
	"math/bits"
	"math/rand"
)

// RandUint32 generates a random number of a random encoded length.
func RandUint32() uint32 {
	size := rand.Intn(4)
	if size == 0 {
		return uint32(rand.Intn(256))
	}
	// a number of that many bytes whose first one is not zero
	first := uint32(rand.Intn(255) + 1)
	rest := rand.Uint32() & (1<<(8*uint(size)) - 1)
	num := first<<(8*uint(size)) | rest
	if bits.Len32(num) <= 8*size {
		panic("impossible")
	}
	return num
}
''')
    sub(r, "pkg/util/util.go", ("sort.Slice(in, func(i, j int) bool {\n\t\treturn in[i] < in[j]\n\t})", "sort.Sort(ascending(in))"))
    open(r + "/pkg/util/util.go", "a").write('''
type ascending []uint32

func (a ascending) Len() int           { return len(a) }
func (a ascending) Less(i, j int) bool { return a[i] < a[j] }
func (a ascending) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
''')
    func(r, "pkg/util/varint.go", "PutDeltaVarint", '''func PutDeltaVarint(nums []uint32, out []byte, prev uint32) int {
	pos := 0
	for _, num := range nums {
		diff := num - prev
		prev = num
		for diff >= 0x80 {
			out[pos] = byte(diff) | 0x80
			diff >>= 7
			pos++
		}
		out[pos] = byte(diff)
		pos++
	}
	return pos
}
''')
    func(r, "pkg/util/util.go", "Delta", '''func Delta(in []uint32, out []uint32) {
	prev := uint32(0)
	for i, num := range in {
		out[i], prev = num-prev, num
	}
}
''')

@ref("C13", "C19", "C23")
def own_source(r):
    p = r + "/pkg/util/rand.go"; s = open(p).read()
    s = s.replace("type generator", '''var (
	mu     sync.Mutex
	source = rand.New(rand.NewSource(time.Now().UnixNano()))
)

func draw() uint32 {
	mu.Lock()
	defer mu.Unlock()
	return source.Uint32()
}

type generator''').replace("rand.Uint32() %", "draw() %").replace("rand.Int()%4", "draw()%4").replace('"math/rand"\n', '"math/rand"\n\t"sync"\n\t"time"\n')
    open(p, "w").write(s)

@ref("C13", "C19", "C23")
def rand_v2(r):
    p = r + "/pkg/util/rand.go"; s = open(p).read()
    s = s.replace('"math/rand"', 'rand "math/rand/v2"').replace("(rand.Uint32() % (high - low + 1)) + low", "low + uint32(rand.Uint64N(uint64(high-low)+1))").replace("rand.Int()%4", "rand.IntN(4)")
    open(p, "w").write(s)

@ref("C19")
def int63n(r):
    sub(r, "pkg/util/rand.go", ("(rand.Uint32() % (high - low + 1)) + low", "uint32(rand.Int63n(int64(high)-int64(low)+1)) + low"), ("rand.Int()%4", "rand.Int31n(4)"))

@ref("C19")
def floats(r):
    sub(r, "pkg/util/rand.go", ("(rand.Uint32() % (high - low + 1)) + low", "uint32(rand.Float64()*(float64(high)-float64(low)+1)) + low"), ("rand.Int()%4", "int(4*rand.Float64())"))

@ref("C17", "C18", "C22")
def tool_rewritten(r):
    p = r + "/tools/parse_and_write_bench.go"; s = open(p).read()
    a = s.index("	scanner := bufio"); b = s.index("	outputFile, err := os.Open")
    s = s[:a] + '''	lines = readLines(os.Stdin)

''' + s[b:]
    s = s.replace("	var (\n		lines []string\n		hasBench = false\n	)\n", "	var lines []string\n")
    a = s.index("	outputFile, err := os.Open"); b = s.index("	bStart :=")
    s = s[:a] + '''	allData, err := os.ReadFile(readmeFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

''' + s[b:]
    s = s.replace("outputFile, err = os.Create", "outputFile, err := os.Create")
    a = s.index("	var final []byte"); b = s.index("	var out io.Writer")
    s = s[:a] + '''	text := string(allData)
	final := []byte(text[:blockStart] + strings.Join(lines, "\\n") + "\\n" + text[restStart:])

''' + s[b:]
    s += '''
// readLines returns the lines of the block for the given benchmark output.
func readLines(in io.Reader) []string {
	lines := []string{}
	seen := false
	scanner := bufio.NewScanner(in)
	for scanner.Scan() {
		line := scanner.Text()
		switch {
		case !anyPrefix(line):
			continue
		case strings.HasPrefix(line, benchmark):
			seen = true
		case seen && strings.HasPrefix(line, goos):
			lines = append(lines, "")
		}
		if seen {
			lines = append(lines, strings.TrimPrefix(line, benchmark))
		} else {
			lines = append(lines, line)
		}
		if strings.HasPrefix(line, cpu) {
			lines = append(lines, dashes)
		}
	}
	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}
	return lines
}
'''
    open(p, "w").write(s)

@ref("C17", "C22")
def tool_long_lines(r):
    """lines of any length, and the new file put in place by renaming"""
    p = r + "/tools/parse_and_write_bench.go"; s = open(p).read()
    s = s.replace("	for scanner.Scan() {", "	scanner.Buffer(nil, 1<<30)\n	for scanner.Scan() {", 1)
    a = s.index("		outputFile, err = os.Create"); b = s.index("	} else {\n		out = os.Stdout")
    s = s[:a] + '''		info, err := os.Stat(readmeFile)
		if err != nil {
			log.Fatal(err)
		}
		if err := os.WriteFile(readmeFile+".new", final, info.Mode()); err != nil {
			log.Fatal(err)
		}
		if err := os.Rename(readmeFile+".new", readmeFile); err != nil {
			log.Fatal(err)
		}
		return
''' + s[b:]
    open(p, "w").write(s)

@ref("C13", "C01", "C03", "C09", "C12", "C23")
def pooled_scratch(r):
    """a pool for scratch memory that is not part of any result"""
    func(r, "pkg/stream/writer/writer.go", "WriteAllScalar", '''func WriteAllScalar(in []uint32) []byte {
	ctrlLen := (len(in) + 3) / 4
	scratch, _ := pool.Get().(*[]byte)
	if scratch == nil {
		scratch = new([]byte)
	}
	need := ctrlLen + encode.MaxBytesPerNum*len(in)
	if cap(*scratch) < need {
		*scratch = make([]byte, need)
	}
	buf := (*scratch)[:need]
	pos := ctrlLen
	for i := 0; i < len(in); i += 4 {
		n := len(in) - i
		if n > 4 {
			n = 4
		}
		buf[i/4] = encode.PutUint32Scalar(in[i:], buf[pos:], n)
		pos += shared.ControlByteToSize(buf[i/4]) - (4 - n)
	}
	res := append(make([]byte, 0, pos), buf[:pos]...)
	pool.Put(scratch)
	return res
}

var pool sync.Pool
''')
    sub(r, "pkg/stream/writer/writer.go", ("import (\n", 'import (\n\t"sync"\n\n'))

@ref("C01", "C02", "C04", "C05", "C06", "C09", "C13", "C12")
def parallel_reader(r):
    """large plain streams read by two goroutines"""
    s = open(r + "/pkg/stream/reader/reader.go").read()
    s = s.replace("func ReadAllScalar(count int, stream []byte, out []uint32) {\n", '''func ReadAllScalar(count int, stream []byte, out []uint32) {
	if count < 1<<16 {
		readAll(count, stream, out)
		return
	}
	half := count / 8 * 4
	size := 0
	for _, ctrl := range stream[:half/4] {
		size += shared.ControlByteToSize(ctrl)
	}
	ctrlLen := (count + 3) / 4
	done := make(chan struct{})
	go func() {
		defer close(done)
		first := append(append([]byte{}, stream[:half/4]...), stream[ctrlLen:ctrlLen+size]...)
		readAll(half, first, out[:half:half])
	}()
	second := append(append([]byte{}, stream[half/4:ctrlLen]...), stream[ctrlLen+size:]...)
	readAll(count-half, second, out[half:])
	<-done
}

func readAll(count int, stream []byte, out []uint32) {
''')
    open(r + "/pkg/stream/reader/reader.go", "w").write(s)

@ref("C22")
def scripts_rewritten(r):
    open(r + "/tools/generate_and_check.sh", "w").write('''#!/usr/bin/env bash

set -euo pipefail

snapshot() {
  git diff
  echo ---
  git status --porcelain
}

before=$(snapshot | sha256sum)
make generate
if [[ "$(snapshot | sha256sum)" != "$before" ]]; then
  echo "Unstable generate. Make sure to generate and check in changed files." >&2
  exit 2
fi
''')
    open(r + "/tools/update_bench.sh", "w").write('''#!/usr/bin/env bash

set -euo pipefail

work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT

go test -run '^$' -bench=. ./pkg/... | tee "$work/results"
go run "$SBYTE_HOME/tools/parse_and_write_bench.go" -w < "$work/results"
''')

@ref("C22")
def scripts_pipe(r):
    open(r + "/tools/update_bench.sh", "w").write('''#!/bin/sh
set -e
go test -bench . ./pkg/... | tee /dev/stderr | go run ./tools -w
''')

@ref("C01", "C03", "C09", "C23")
def writer_appends(r):
    func(r, "pkg/stream/writer/writer.go", "WriteAllScalar", '''func WriteAllScalar(in []uint32) []byte {
	var (
		stream []byte
		block  [16]byte
	)
	for i := 0; i < len(in); i += 4 {
		stream = append(stream, 0)
	}
	for k := range stream {
		nums := in[4*k:]
		if len(nums) > 4 {
			nums = nums[:4]
		}
		ctrl := encode.PutUint32Scalar(nums, block[:], len(nums))
		stream[k] = ctrl
		stream = append(stream, block[:shared.ControlByteToSize(ctrl)-(4-len(nums))]...)
	}
	return append(make([]byte, 0, len(stream)), stream...)
}
''')

@ref("C16", "C19", "C13", "C23")
def helpers_append(r):
    func(r, "pkg/util/util.go", "GenUint32", '''func GenUint32(n int) []uint32 {
	nums := []uint32{}
	for len(nums) < n {
		nums = append(nums, RandUint32())
	}

	return nums
}
''')
    func(r, "pkg/util/util.go", "SortUint32", '''func SortUint32(in []uint32) {
	if len(in) < 2 {
		return
	}
	half := len(in) / 2
	SortUint32(in[:half])
	SortUint32(in[half:])
	a, b := append([]uint32{}, in[:half]...), in[half:]
	for k := range in {
		if len(b) == 0 || len(a) > 0 && a[0] <= b[0] {
			in[k], a = a[0], a[1:]
		} else {
			in[k], b = b[0], b[1:]
		}
		if len(a) == 0 {
			break
		}
	}
}
''')
    sub(r, "pkg/util/util.go", ('	"sort"\n', ""))

@ref("C16", "C23", "C24")
def varint_by_hand(r):
    p = os.path.join(r, "pkg/util/varint.go")
    open(p, "w").write('''package util

func PutVarint(nums []uint32, out []byte) int {
	pos := 0
	for _, x := range nums {
		pos += putOne(out[pos:], x)
	}
	return pos
}

func PutDeltaVarint(nums []uint32, out []byte, prev uint32) int {
	pos := 0
	for _, x := range nums {
		pos += putOne(out[pos:], x-prev)
		prev = x
	}
	return pos
}

func putOne(out []byte, x uint32) int {
	i := 0
	for ; x > 0x7f; x >>= 7 {
		out[i] = byte(x) | 0x80
		i++
	}
	out[i] = byte(x)
	return i + 1
}

func GetVarint(data []byte, out []uint32) int {
	n := 0
	for pos := 0; pos < len(data); n++ {
		var size int
		out[n], size = getOne(data[pos:])
		pos += size
	}
	return len(data)
}

func GetDeltaVarint(in []byte, out []uint32, prev uint32) int {
	pos := 0
	for i := 0; pos < len(in); i++ {
		diff, size := getOne(in[pos:])
		prev += diff
		out[i] = prev
		pos += size
	}
	return pos
}

func getOne(b []byte) (x uint32, size int) {
	for shift := uint(0); ; shift += 7 {
		c := b[size]
		size++
		x |= uint32(c&0x7f) << shift
		if c < 0x80 {
			return x, size
		}
	}
}
''')

def run(name):
    f, props = R[name]
    w = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
    repo = w + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    try:
        f(repo)
        env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", PATH="/usr/local/go/bin:" + os.environ["PATH"])
        p = subprocess.run("gofmt -l pkg/*/*.go pkg/stream >/dev/null; go vet ./pkg/... ; go test ./... 2>&1 | grep -v 'no test files'; git diff --stat | tail -1", shell=True, cwd=repo, env=env, capture_output=True, text=True)
        print("%s: tests: %s" % (name, " ".join((p.stdout + p.stderr).split())[:600]), flush=True)
        for prop in [p for p in props if p in os.environ.get("ONLY", p)]:
            for seed in os.environ.get("SEEDS", "1").split():
                q = subprocess.run([sys.executable, "check.py", prop], cwd=V, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER=os.environ.get("TIER", "quick")), capture_output=True, text=True)
                print("  %s %s rc=%d %s" % ("ok " if q.returncode == 0 else "ALARM", prop, q.returncode, q.stdout.strip()[-100:] if q.returncode == 0 else (q.stdout + q.stderr)[-1500:]), flush=True)
    finally: shutil.rmtree(w)

for n in sys.argv[1:] or R: run(n)
