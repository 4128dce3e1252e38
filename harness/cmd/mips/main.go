//go:build linux && amd64

// Command mips runs a statically linked big-endian MIPS32 (soft float) Go
// program of linux/mips: a user-mode emulator that interprets the instructions
// and forwards the few system calls such a program makes. It lets the suites
// run where bytes are in the other order.
//
//	mips PROGRAM [ARGS...]
//
// Guest threads are goroutines and run in parallel; LL/SC are built on
// compare-and-swap, which is stronger than the architecture asks for. A guest
// access to memory it has not mapped ends the process with a SIGSEGV report.
package main

import (
	"debug/elf"
	"fmt"
	"math/bits"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"unsafe"
)

const (
	space = 1 << 31
	page  = 4096
	top   = 0x7f000000
	stack = 8 << 20
)

var base unsafe.Pointer

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "mips: "+format+"\n", a...)
	os.Exit(3)
}

func mustMmap(addr, n uintptr, prot, flags int) uintptr {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, n, uintptr(prot), uintptr(flags), ^uintptr(0), 0)
	if e != 0 {
		die("mmap: %v", e)
	}
	return p
}

func ptr(a uint32) unsafe.Pointer { return unsafe.Add(base, uintptr(a)) }

func ld32(a uint32) uint32 { return bits.ReverseBytes32(*(*uint32)(ptr(a))) }
func st32(a, v uint32)     { *(*uint32)(ptr(a)) = bits.ReverseBytes32(v) }
func st64(a uint32, v uint64) {
	st32(a, uint32(v>>32))
	st32(a+4, uint32(v))
}
func raw(a, n uint32) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(ptr(a)), n)
}
func cstr(a uint32) string {
	n := uint32(0)
	for *(*byte)(ptr(a + n)) != 0 {
		n++
	}
	return string(raw(a, n))
}

type inst struct {
	op         uint8
	rs, rt, rd uint8
	imm        uint32 // immediate, sign or zero extended; shift amount; absolute target
}

var (
	code     []inst
	codeBase uint32
)

type thread struct {
	r        [32]uint32
	hi, lo   uint32
	pc, npc  uint32 // the next two instructions, as of the last system call
	cur      uint32 // the current one
	llA, llV uint32
	tid      uint32
	clearTID uint32
}

func main() {
	if len(os.Args) < 2 {
		die("usage: mips PROGRAM [ARGS...]")
	}
	debug.SetGCPercent(400)
	b := mustMmap(0, space+1<<32, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	base = *(*unsafe.Pointer)(unsafe.Pointer(&b))
	t := load(os.Args[1], os.Args[1:], os.Environ())
	run(t)
}

func mapRange(a, n uint32) {
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, uintptr(base)+uintptr(a), uintptr(n), syscall.PROT_READ|syscall.PROT_WRITE); e != 0 {
		die("mprotect %#x+%#x: %v", a, n, e)
	}
	for p := a / page; p < (a+n)/page; p++ {
		used[p] = true
	}
}

func load(file string, args, env []string) *thread {
	f, err := elf.Open(file)
	if err != nil {
		die("%v", err)
	}
	if f.Class != elf.ELFCLASS32 || f.Data != elf.ELFDATA2MSB || f.Machine != elf.EM_MIPS || f.Type != elf.ET_EXEC {
		die("%s is not a big-endian MIPS32 executable", file)
	}
	for p := uint32(0); p < 16; p++ {
		used[p] = true // never handed out: nil dereferences fault
	}
	var phdr uint32
	for _, p := range f.Progs {
		if p.Type == elf.PT_PHDR {
			phdr = uint32(p.Vaddr)
		}
		if p.Type != elf.PT_LOAD {
			continue
		}
		lo, hi := uint32(p.Vaddr)&^(page-1), (uint32(p.Vaddr+p.Memsz)+page-1)&^(page-1)
		mapRange(lo, hi-lo)
		if _, err := p.ReadAt(raw(uint32(p.Vaddr), uint32(p.Filesz)), 0); err != nil {
			die("%v", err)
		}
		if p.Flags&elf.PF_X != 0 {
			codeBase = uint32(p.Vaddr)
			code = make([]inst, p.Filesz/4)
			for i := range code {
				pc := codeBase + uint32(i)*4
				code[i] = decode(ld32(pc), pc)
			}
		}
	}
	mapRange(top-stack, stack)
	// the initial stack: argc, argv, environment, auxiliary vector, strings
	sp := uint32(top - page)
	str := func(s string) uint32 {
		sp -= uint32(len(s) + 1)
		copy(raw(sp, uint32(len(s))), s)
		return sp
	}
	var argv, envp []uint32
	for _, s := range args {
		argv = append(argv, str(s))
	}
	for _, s := range env {
		envp = append(envp, str(s))
	}
	sp -= 16
	random := sp
	copy(raw(random, 16), "sixteen constant")
	words := []uint32{uint32(len(argv))}
	words = append(append(words, argv...), 0)
	words = append(append(words, envp...), 0)
	words = append(words, 3, phdr, 4, 32, 5, uint32(len(f.Progs)), 6, page, 9, uint32(f.Entry), 25, random, 0, 0)
	sp = (sp - uint32(len(words))*4) &^ 15
	for i, w := range words {
		st32(sp+uint32(i)*4, w)
	}
	t := &thread{pc: uint32(f.Entry), tid: nextTID()}
	t.npc = t.pc + 4
	t.r[29] = sp
	return t
}

const (
	opBad = iota
	opNop
	opSll
	opSrl
	opSra
	opSllv
	opSrlv
	opSrav
	opJr
	opJalr
	opMovz
	opMovn
	opSyscall
	opBreak
	opSync
	opMfhi
	opMthi
	opMflo
	opMtlo
	opMult
	opMultu
	opDiv
	opDivu
	opAddu
	opAdd
	opSubu
	opSub
	opAnd
	opOr
	opXor
	opNor
	opSlt
	opSltu
	opTeq
	opMul
	opClz
	opClo
	opBltz
	opBgez
	opBltzal
	opBgezal
	opJ
	opJal
	opBeq
	opBne
	opBlez
	opBgtz
	opAddiu
	opAddi
	opSlti
	opSltiu
	opAndi
	opOri
	opXori
	opLui
	opLb
	opLh
	opLwl
	opLw
	opLbu
	opLhu
	opLwr
	opSb
	opSh
	opSwl
	opSw
	opSwr
	opLl
	opSc
	opRdhwr
	opSeb
	opSeh
	opMadd
	opMaddu
	opMsub
	opMsubu
)

var special = map[uint32]uint8{0: opSll, 2: opSrl, 3: opSra, 4: opSllv, 6: opSrlv, 7: opSrav, 8: opJr, 9: opJalr, 10: opMovz, 11: opMovn,
	12: opSyscall, 13: opBreak, 15: opSync, 16: opMfhi, 17: opMthi, 18: opMflo, 19: opMtlo, 24: opMult, 25: opMultu, 26: opDiv, 27: opDivu,
	32: opAdd, 33: opAddu, 34: opSub, 35: opSubu, 36: opAnd, 37: opOr, 38: opXor, 39: opNor, 42: opSlt, 43: opSltu, 52: opTeq}
var primary = map[uint32]uint8{2: opJ, 3: opJal, 4: opBeq, 5: opBne, 6: opBlez, 7: opBgtz, 8: opAddi, 9: opAddiu, 10: opSlti, 11: opSltiu,
	12: opAndi, 13: opOri, 14: opXori, 15: opLui, 32: opLb, 33: opLh, 34: opLwl, 35: opLw, 36: opLbu, 37: opLhu, 38: opLwr,
	40: opSb, 41: opSh, 42: opSwl, 43: opSw, 46: opSwr, 48: opLl, 51: opSync, 56: opSc}

func decode(w, pc uint32) inst {
	in := inst{rs: uint8(w >> 21 & 31), rt: uint8(w >> 16 & 31), rd: uint8(w >> 11 & 31)}
	if w == 0 {
		in.op = opNop
		return in
	}
	switch p := w >> 26; p {
	case 0:
		in.op = special[w&63]
		in.imm = w >> 6 & 31
		if in.op == opJr || in.op == opSyscall || in.op == opBreak || in.op == opSync || in.op == opTeq || in.op == opMthi || in.op == opMtlo {
			break
		}
		if in.rd == 0 && in.op != opJalr && in.op != opMult && in.op != opMultu && in.op != opDiv && in.op != opDivu && in.op != opBad && in.op != opMthi {
			in.op = opNop // the result goes nowhere
		}
	case 1:
		in.op = map[uint8]uint8{0: opBltz, 1: opBgez, 16: opBltzal, 17: opBgezal}[in.rt]
		in.imm = pc + 4 + uint32(int32(int16(w)))<<2
	case 2, 3:
		in.op = primary[p]
		in.imm = (pc+4)&0xf0000000 | w<<6>>4
	case 4, 5, 6, 7:
		in.op = primary[p]
		in.imm = pc + 4 + uint32(int32(int16(w)))<<2
	case 12, 13, 14:
		in.op = primary[p]
		in.imm = w & 0xffff
	case 15:
		in.op = opLui
		in.imm = w << 16
	case 28:
		in.op = map[uint32]uint8{0: opMadd, 1: opMaddu, 2: opMul, 4: opMsub, 5: opMsubu, 32: opClz, 33: opClo}[w&63]
	case 31:
		if w&63 == 59 {
			in.op = opRdhwr
		} else if w&0x7ff == 0x420 {
			in.op = opSeb
		} else if w&0x7ff == 0x620 {
			in.op = opSeh
		}
	default:
		in.op = primary[p]
		in.imm = uint32(int32(int16(w)))
	}
	return in
}

func fault(t *thread, pc uint32, what any) {
	fmt.Fprintf(os.Stderr, "mips: SIGSEGV: %v at guest pc %#x, thread %d\nregisters %#x\n", what, pc, t.tid, t.r)
	os.Exit(2)
}

func run(t *thread) {
	debug.SetPanicOnFault(true)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(exitThread); ok {
				return
			}
			fault(t, t.cur, p)
		}
	}()
	b := func(v bool) uint32 {
		if v {
			return 1
		}
		return 0
	}
	r := &t.r
	code, codeBase := code, codeBase
	next, npc := t.pc, t.npc
	for {
		pc := next
		t.cur = pc
		next = npc
		npc += 4
		in := &code[(pc-codeBase)>>2]
		switch in.op {
		case opNop, opSync:
		case opSll:
			r[in.rd&31] = r[in.rt&31] << (in.imm & 31)
		case opSrl:
			r[in.rd&31] = r[in.rt&31] >> (in.imm & 31)
		case opSra:
			r[in.rd&31] = uint32(int32(r[in.rt&31]) >> (in.imm & 31))
		case opSllv:
			r[in.rd&31] = r[in.rt&31] << (r[in.rs&31] & 31)
		case opSrlv:
			r[in.rd&31] = r[in.rt&31] >> (r[in.rs&31] & 31)
		case opSrav:
			r[in.rd&31] = uint32(int32(r[in.rt&31]) >> (r[in.rs&31] & 31))
		case opJr:
			npc = r[in.rs&31]
		case opJalr:
			to := r[in.rs&31]
			if in.rd != 0 {
				r[in.rd&31] = pc + 8
			}
			npc = to
		case opMovz:
			if r[in.rt&31] == 0 {
				r[in.rd&31] = r[in.rs&31]
			}
		case opMovn:
			if r[in.rt&31] != 0 {
				r[in.rd&31] = r[in.rs&31]
			}
		case opSyscall:
			t.pc, t.npc = next, npc
			t.syscall()
		case opMfhi:
			r[in.rd&31] = t.hi
		case opMthi:
			t.hi = r[in.rs&31]
		case opMflo:
			r[in.rd&31] = t.lo
		case opMtlo:
			t.lo = r[in.rs&31]
		case opMult:
			v := int64(int32(r[in.rs&31])) * int64(int32(r[in.rt&31]))
			t.hi, t.lo = uint32(uint64(v)>>32), uint32(v)
		case opMultu:
			v := uint64(r[in.rs&31]) * uint64(r[in.rt&31])
			t.hi, t.lo = uint32(v>>32), uint32(v)
		case opMadd:
			v := int64(uint64(t.hi)<<32|uint64(t.lo)) + int64(int32(r[in.rs&31]))*int64(int32(r[in.rt&31]))
			t.hi, t.lo = uint32(uint64(v)>>32), uint32(v)
		case opMaddu:
			v := uint64(t.hi)<<32 | uint64(t.lo) + uint64(r[in.rs&31])*uint64(r[in.rt&31])
			t.hi, t.lo = uint32(v>>32), uint32(v)
		case opMsub:
			v := int64(uint64(t.hi)<<32|uint64(t.lo)) - int64(int32(r[in.rs&31]))*int64(int32(r[in.rt&31]))
			t.hi, t.lo = uint32(uint64(v)>>32), uint32(v)
		case opMsubu:
			v := (uint64(t.hi)<<32 | uint64(t.lo)) - uint64(r[in.rs&31])*uint64(r[in.rt&31])
			t.hi, t.lo = uint32(v>>32), uint32(v)
		case opDiv:
			x, y := int32(r[in.rs&31]), int32(r[in.rt&31])
			if y == -1 {
				t.lo, t.hi = uint32(-x), 0
			} else if y != 0 {
				t.lo, t.hi = uint32(x/y), uint32(x%y)
			}
		case opDivu:
			if y := r[in.rt&31]; y != 0 {
				x := r[in.rs&31]
				t.lo, t.hi = x/y, x%y
			}
		case opAddu:
			r[in.rd&31] = r[in.rs&31] + r[in.rt&31]
		case opAdd:
			v := int64(int32(r[in.rs&31])) + int64(int32(r[in.rt&31]))
			if v != int64(int32(v)) {
				fault(t, pc, "integer overflow trap")
			}
			r[in.rd&31] = uint32(v)
		case opSubu:
			r[in.rd&31] = r[in.rs&31] - r[in.rt&31]
		case opSub:
			v := int64(int32(r[in.rs&31])) - int64(int32(r[in.rt&31]))
			if v != int64(int32(v)) {
				fault(t, pc, "integer overflow trap")
			}
			r[in.rd&31] = uint32(v)
		case opAnd:
			r[in.rd&31] = r[in.rs&31] & r[in.rt&31]
		case opOr:
			r[in.rd&31] = r[in.rs&31] | r[in.rt&31]
		case opXor:
			r[in.rd&31] = r[in.rs&31] ^ r[in.rt&31]
		case opNor:
			r[in.rd&31] = ^(r[in.rs&31] | r[in.rt&31])
		case opSlt:
			r[in.rd&31] = b(int32(r[in.rs&31]) < int32(r[in.rt&31]))
		case opSltu:
			r[in.rd&31] = b(r[in.rs&31] < r[in.rt&31])
		case opTeq:
			if r[in.rs&31] == r[in.rt&31] {
				fault(t, pc, "trap")
			}
		case opMul:
			if in.rd != 0 {
				r[in.rd&31] = r[in.rs&31] * r[in.rt&31]
			}
		case opClz:
			if in.rd != 0 {
				r[in.rd&31] = uint32(bits.LeadingZeros32(r[in.rs&31]))
			}
		case opClo:
			if in.rd != 0 {
				r[in.rd&31] = uint32(bits.LeadingZeros32(^r[in.rs&31]))
			}
		case opSeb:
			if in.rd != 0 {
				r[in.rd&31] = uint32(int32(int8(r[in.rt&31])))
			}
		case opSeh:
			if in.rd != 0 {
				r[in.rd&31] = uint32(int32(int16(r[in.rt&31])))
			}
		case opBltz:
			if int32(r[in.rs&31]) < 0 {
				npc = in.imm
			}
		case opBgez:
			if int32(r[in.rs&31]) >= 0 {
				npc = in.imm
			}
		case opBltzal:
			v := int32(r[in.rs&31])
			r[31] = pc + 8
			if v < 0 {
				npc = in.imm
			}
		case opBgezal:
			v := int32(r[in.rs&31])
			r[31] = pc + 8
			if v >= 0 {
				npc = in.imm
			}
		case opJ:
			npc = in.imm
		case opJal:
			r[31] = pc + 8
			npc = in.imm
		case opBeq:
			if r[in.rs&31] == r[in.rt&31] {
				npc = in.imm
			}
		case opBne:
			if r[in.rs&31] != r[in.rt&31] {
				npc = in.imm
			}
		case opBlez:
			if int32(r[in.rs&31]) <= 0 {
				npc = in.imm
			}
		case opBgtz:
			if int32(r[in.rs&31]) > 0 {
				npc = in.imm
			}
		case opAddiu:
			r[in.rt&31] = r[in.rs&31] + in.imm
		case opAddi:
			v := int64(int32(r[in.rs&31])) + int64(int32(in.imm))
			if v != int64(int32(v)) {
				fault(t, pc, "integer overflow trap")
			}
			r[in.rt&31] = uint32(v)
		case opSlti:
			r[in.rt&31] = b(int32(r[in.rs&31]) < int32(in.imm))
		case opSltiu:
			r[in.rt&31] = b(r[in.rs&31] < in.imm)
		case opAndi:
			r[in.rt&31] = r[in.rs&31] & in.imm
		case opOri:
			r[in.rt&31] = r[in.rs&31] | in.imm
		case opXori:
			r[in.rt&31] = r[in.rs&31] ^ in.imm
		case opLui:
			r[in.rt&31] = in.imm
		case opLb:
			r[in.rt&31] = uint32(int32(*(*int8)(ptr(r[in.rs&31] + in.imm))))
		case opLbu:
			r[in.rt&31] = uint32(*(*uint8)(ptr(r[in.rs&31] + in.imm)))
		case opLh:
			r[in.rt&31] = uint32(int32(int16(bits.ReverseBytes16(*(*uint16)(aligned(t, pc, r[in.rs&31]+in.imm, 1))))))
		case opLhu:
			r[in.rt&31] = uint32(bits.ReverseBytes16(*(*uint16)(aligned(t, pc, r[in.rs&31]+in.imm, 1))))
		case opLw:
			r[in.rt&31] = bits.ReverseBytes32(*(*uint32)(aligned(t, pc, r[in.rs&31]+in.imm, 3)))
		case opLwl:
			a := r[in.rs&31] + in.imm
			s := 8 * (a & 3)
			r[in.rt&31] = ld32(a&^3)<<s | r[in.rt&31]&(1<<s-1)
		case opLwr:
			a := r[in.rs&31] + in.imm
			s := 8 * (3 - a&3)
			r[in.rt&31] = ld32(a&^3)>>s | r[in.rt&31]&^(^uint32(0)>>s)
		case opSb:
			*(*uint8)(ptr(r[in.rs&31] + in.imm)) = uint8(r[in.rt&31])
		case opSh:
			*(*uint16)(aligned(t, pc, r[in.rs&31]+in.imm, 1)) = bits.ReverseBytes16(uint16(r[in.rt&31]))
		case opSw:
			*(*uint32)(aligned(t, pc, r[in.rs&31]+in.imm, 3)) = bits.ReverseBytes32(r[in.rt&31])
		case opSwl:
			a, v := r[in.rs&31]+in.imm, r[in.rt&31]
			for k := a & 3; k < 4; k++ {
				*(*uint8)(ptr(a&^3 + k)) = uint8(v >> (24 - 8*(k-a&3)))
			}
		case opSwr:
			a, v := r[in.rs&31]+in.imm, r[in.rt&31]
			for k := uint32(0); k <= a&3; k++ {
				*(*uint8)(ptr(a - k)) = uint8(v >> (8 * k))
			}
		case opLl:
			t.llA = r[in.rs&31] + in.imm
			t.llV = atomic.LoadUint32((*uint32)(aligned(t, pc, t.llA, 3)))
			r[in.rt&31] = bits.ReverseBytes32(t.llV)
		case opSc:
			a := r[in.rs&31] + in.imm
			r[in.rt&31] = b(a == t.llA && atomic.CompareAndSwapUint32((*uint32)(aligned(t, pc, a, 3)), t.llV, bits.ReverseBytes32(r[in.rt&31])))
			t.llA = 1
		default:
			fault(t, pc, fmt.Sprintf("SIGILL: instruction %#x", ld32(pc)))
		}
		r[0] = 0
	}
}

func aligned(t *thread, pc, a, mask uint32) unsafe.Pointer {
	if a&mask != 0 {
		fault(t, pc, fmt.Sprintf("unaligned access to %#x", a))
	}
	return unsafe.Add(base, uintptr(a))
}
