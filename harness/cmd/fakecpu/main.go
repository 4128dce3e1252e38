//go:build linux && amd64

// Command fakecpu runs a program on a modelled x86-64 CPU:
//
//	fakecpu SPEC PROGRAM [ARGUMENTS]
//
// The kernel is asked to fault CPUID in the program (arch_prctl ARCH_SET_CPUID),
// and this process, its tracer, answers with the host's values, changed as SPEC
// says. SPEC is a comma-separated list of
//
//	LEAF.REG-BIT   the bit is clear (leaf in hexadecimal, reg one of a b c d)
//	LEAF.REG=0     the register is zero
//	vendor=NAME    the twelve characters of leaf 0
//	max=N          the highest basic leaf; leaves above it answer as leaf N does
//	xcr0=N         what XGETBV answers: the state the operating system saves
//
// "probe" as the only argument exits with 0 when all this works here.
// The program's children are modelled in the same way.
package main

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"syscall"
)

func cpuid(leaf, sub uint32) (a, b, c, d uint32)

type key struct {
	leaf uint32
	reg  byte
}

var (
	clear   = map[key]uint32{}
	vendor  string
	max     = int64(-1)
	xcr0    = int64(-1)
	answers int
)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"fakecpu:"}, a...)...)
	os.Exit(3)
}

func must(what string, err error) {
	if err != nil {
		fatal(what, err)
	}
}

func parse(spec string) {
	for _, f := range strings.Split(spec, ",") {
		if f == "" {
			continue
		}
		if k, v, ok := strings.Cut(f, "="); ok && !strings.Contains(k, ".") {
			n, err := strconv.ParseInt(v, 0, 64)
			switch k {
			case "vendor":
				vendor, err = v, nil
				if len(v) != 12 {
					fatal("vendor", v)
				}
			case "max":
				max = n
			case "xcr0":
				xcr0 = n
			default:
				fatal("what is", f)
			}
			must(f, err)
			continue
		}
		leaf, rest, ok := strings.Cut(f, ".")
		n, err := strconv.ParseUint(leaf, 16, 32)
		if !ok || err != nil || len(rest) < 3 {
			fatal("what is", f)
		}
		k := key{uint32(n), rest[0]}
		if rest[1:] == "=0" {
			clear[k] = ^uint32(0)
			continue
		}
		bit, err := strconv.ParseUint(rest[2:], 10, 5)
		must(f, err)
		clear[k] |= 1 << bit
	}
}

// answer is what CPUID gives on the modelled CPU.
func answer(leaf, sub uint32) (r [4]uint32) {
	answers++
	if max >= 0 && leaf < 0x40000000 && int64(leaf) > max {
		leaf = uint32(max)
	}
	r[0], r[1], r[2], r[3] = cpuid(leaf, sub)
	for i := range r {
		r[i] &^= clear[key{leaf, "abcd"[i]}]
	}
	if leaf == 0 {
		if max >= 0 && int64(r[0]) > max {
			r[0] = uint32(max)
		}
		if vendor != "" {
			v := []byte(vendor)
			r[1] = binary.LittleEndian.Uint32(v)
			r[3] = binary.LittleEndian.Uint32(v[4:])
			r[2] = binary.LittleEndian.Uint32(v[8:])
		}
	}
	return
}

// ready turns on the faults in a process that has just executed a program, and
// puts breakpoints on its XGETBV instructions.
func ready(tid int, bps map[uint64]bool) {
	var regs, r syscall.PtraceRegs
	must("registers", syscall.PtraceGetRegs(tid, &regs))
	old := make([]byte, 8)
	_, err := syscall.PtracePeekText(tid, uintptr(regs.Rip), old)
	must("peek", err)
	code := append([]byte{0x0f, 0x05}, old[2:]...)
	_, err = syscall.PtracePokeText(tid, uintptr(regs.Rip), code)
	must("poke", err)
	r = regs
	r.Rax, r.Orig_rax, r.Rdi, r.Rsi = 158, ^uint64(0), 0x1012, 0 // arch_prctl(ARCH_SET_CPUID, 0)
	must("registers", syscall.PtraceSetRegs(tid, &r))
	must("step", syscall.PtraceSingleStep(tid))
	var ws syscall.WaitStatus
	_, err = syscall.Wait4(tid, &ws, syscall.WALL, nil)
	must("wait", err)
	must("registers", syscall.PtraceGetRegs(tid, &r))
	if int64(r.Rax) != 0 {
		fatal("CPUID cannot be made to fault here:", int64(r.Rax))
	}
	_, err = syscall.PtracePokeText(tid, uintptr(regs.Rip), old)
	must("poke", err)
	must("registers", syscall.PtraceSetRegs(tid, &regs))
	if xcr0 >= 0 {
		breakpoints(tid, bps)
	}
}

func breakpoints(tid int, bps map[uint64]bool) {
	f, err := elf.Open(fmt.Sprintf("/proc/%d/exe", tid))
	must("program", err)
	defer f.Close()
	aux, err := os.ReadFile(fmt.Sprintf("/proc/%d/auxv", tid))
	must("auxv", err)
	var base uint64
	for ; len(aux) >= 16; aux = aux[16:] {
		if binary.LittleEndian.Uint64(aux) == 9 { // AT_ENTRY
			base = binary.LittleEndian.Uint64(aux[8:]) - f.Entry
		}
	}
	text := f.Section(".text")
	b, err := text.Data()
	must("text", err)
	syms, err := f.Symbols()
	must("symbols", err)
	for _, s := range syms {
		// hand-written routines are short
		if elf.ST_TYPE(s.Info) != elf.STT_FUNC || s.Size > 512 || s.Value < text.Addr || s.Value+s.Size > text.Addr+uint64(len(b)) {
			continue
		}
		body := string(b[s.Value-text.Addr : s.Value-text.Addr+s.Size])
		for from := 0; ; {
			i := strings.Index(body[from:], "\x0f\x01\xd0")
			if i < 0 {
				break
			}
			at := base + s.Value + uint64(from+i)
			_, err := syscall.PtracePokeText(tid, uintptr(at), []byte{0xcc})
			must("breakpoint", err)
			bps[at] = true
			from += i + 3
		}
	}
	if len(bps) == 0 {
		fatal("no XGETBV found")
	}
}

func emulate(tid int, bps map[uint64]bool, sig syscall.Signal) bool {
	var r syscall.PtraceRegs
	must("registers", syscall.PtraceGetRegs(tid, &r))
	if sig == syscall.SIGTRAP {
		if !bps[r.Rip-1] {
			return false
		}
		r.Rip += 2
		r.Rax, r.Rdx = uint64(uint32(xcr0)), 0
		if uint32(r.Rcx) != 0 {
			r.Rax = 0
		}
	} else {
		b := make([]byte, 2)
		if n, err := syscall.PtracePeekText(tid, uintptr(r.Rip), b); err != nil || n != 2 || b[0] != 0x0f || b[1] != 0xa2 {
			return false
		}
		a := answer(uint32(r.Rax), uint32(r.Rcx))
		r.Rax, r.Rbx, r.Rcx, r.Rdx = uint64(a[0]), uint64(a[1]), uint64(a[2]), uint64(a[3])
		r.Rip += 2
	}
	must("registers", syscall.PtraceSetRegs(tid, &r))
	return true
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: fakecpu SPEC PROGRAM")
	}
	runtime.LockOSThread()
	spec, args := os.Args[1], os.Args[2:]
	if spec == "probe" {
		if len(args) == 0 { // the program that is traced
			a, _, c, d := cpuid(0, 0)
			if a > 6 || c != 0x32343234 || d != 0x32343234 {
				os.Exit(3)
			}
			os.Exit(0)
		}
	}
	parse(strings.TrimPrefix(spec, "probe,"))
	path, err := exec.LookPath(args[0])
	must("program", err)
	pid, err := syscall.ForkExec(path, args, &syscall.ProcAttr{Env: os.Environ(), Files: []uintptr{0, 1, 2}, Sys: &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}})
	must("start", err)
	var ws syscall.WaitStatus
	_, err = syscall.Wait4(pid, &ws, syscall.WALL, nil)
	must("wait", err)
	if !ws.Stopped() {
		fatal("no stop:", ws)
	}
	const exitKill = 0x100000
	must("options", syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACECLONE|syscall.PTRACE_O_TRACEFORK|syscall.PTRACE_O_TRACEVFORK|exitKill))
	bps := map[uint64]bool{}
	ready(pid, bps)
	known := map[int]bool{pid: true}
	syscall.PtraceCont(pid, 0)
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		must("wait", err)
		if !ws.Stopped() {
			delete(known, tid)
			if tid != pid {
				continue
			}
			if ws.Signaled() {
				if s := ws.Signal(); s == syscall.SIGKILL || s == syscall.SIGXCPU {
					syscall.Kill(os.Getpid(), syscall.SIGKILL)
				}
				fmt.Fprintln(os.Stderr, "fakecpu: the program was ended by", ws.Signal())
				os.Exit(128 + int(ws.Signal()))
			}
			os.Exit(ws.ExitStatus())
		}
		sig := ws.StopSignal()
		pass := int(sig)
		switch {
		case sig == syscall.SIGTRAP && ws.TrapCause() > 0: // a clone or fork
			pass = 0
		case sig == syscall.SIGSTOP && !known[tid]:
			known[tid] = true
			pass = 0
		case sig == syscall.SIGTRAP && emulate(tid, bps, sig):
			pass = 0
		case sig == syscall.SIGTRAP: // another program is executed
			ready(tid, bps)
			pass = 0
		case sig == syscall.SIGSEGV && emulate(tid, bps, sig):
			pass = 0
		}
		syscall.PtraceCont(tid, pass) // it may have been killed meanwhile
	}
}
