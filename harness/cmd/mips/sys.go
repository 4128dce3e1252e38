//go:build linux && amd64

package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type exitThread struct{}

var (
	mu    sync.Mutex // memory map and futex queues
	used  [space / page]bool
	next  = uint32(0x20000000)
	queue = map[uint32][]chan struct{}{}
	tids  atomic.Uint32
)

func nextTID() uint32 { return uint32(os.Getpid()) + tids.Add(1) - 1 }

const (
	eagain, einval, enosys, etimedout = 11, 22, 89, 145
)

var warned sync.Map

// syscall runs the guest's system call: number in v0, arguments in a0..a3 and
// on the stack; result in v0, a3 tells success from failure.
func (t *thread) syscall() {
	no := t.r[2]
	v, e := t.call(no, t.r[4], t.r[5], t.r[6], t.r[7])
	if e != 0 {
		t.r[2], t.r[7] = e, 1
	} else {
		t.r[2], t.r[7] = v, 0
	}
}

func errno(e syscall.Errno) uint32 {
	switch e {
	case syscall.ENOSYS:
		return enosys
	case syscall.ETIMEDOUT:
		return etimedout
	case 0:
		return 0
	}
	if e > 34 {
		return einval
	}
	return uint32(e)
}

func sys(no uintptr, a ...uintptr) (uint32, uint32) {
	for len(a) < 6 {
		a = append(a, 0)
	}
	v, _, e := syscall.Syscall6(no, a[0], a[1], a[2], a[3], a[4], a[5])
	return uint32(v), errno(e)
}

func host(a uint32) uintptr {
	if a == 0 {
		return 0
	}
	return uintptr(base) + uintptr(a)
}

func (t *thread) arg(n int) uint32 { return ld32(t.r[29] + uint32(n)*4) }

func fd(a uint32) uintptr { return uintptr(int64(int32(a))) }

func openFlags(f uint32) uintptr {
	h := f & 3
	for _, m := range [][2]uint32{{0x8, 0x400}, {0x80, 0x800}, {0x100, 0x40}, {0x200, 0x200}, {0x400, 0x80}, {0x10000, 0x10000}, {0x20000, 0x20000}, {0x80000, 0x80000}} {
		if f&m[0] != 0 {
			h |= m[1]
		}
	}
	return uintptr(h)
}

func (t *thread) stat(a uint32, s *syscall.Stat_t) {
	clear(raw(a, 160))
	st32(a, uint32(s.Dev))
	st64(a+16, s.Ino)
	st32(a+24, s.Mode)
	st32(a+28, uint32(s.Nlink))
	st64(a+56, uint64(s.Size))
	st32(a+88, 4096)
	st64(a+96, uint64(s.Blocks))
}

func (t *thread) call(no, a, b, c, d uint32) (uint32, uint32) {
	switch no {
	case 4001: // exit
		if t.clearTID != 0 {
			st32(t.clearTID, 0)
			wake(t.clearTID, 1)
		}
		panic(exitThread{})
	case 4246: // exit_group
		os.Exit(int(int32(a)))
	case 4003:
		return sys(syscall.SYS_READ, fd(a), host(b), uintptr(c))
	case 4004:
		return sys(syscall.SYS_WRITE, fd(a), host(b), uintptr(c))
	case 4005: // open
		return sys(syscall.SYS_OPENAT, fd(^uint32(99)), host(a), openFlags(b), uintptr(c))
	case 4288: // openat
		return sys(syscall.SYS_OPENAT, fd(a), host(b), openFlags(c), uintptr(d))
	case 4006:
		return sys(syscall.SYS_CLOSE, fd(a))
	case 4010:
		return sys(syscall.SYS_UNLINK, host(a))
	case 4294:
		return sys(syscall.SYS_UNLINKAT, fd(a), host(b), uintptr(c))
	case 4295: // renameat
		return sys(syscall.SYS_RENAMEAT, fd(a), host(b), fd(c), host(d))
	case 4289: // mkdirat
		return sys(syscall.SYS_MKDIRAT, fd(a), host(b), uintptr(c))
	case 4140: // _llseek
		off, e := syscall.Seek(int(a), int64(b)<<32|int64(c), int(t.arg(4)))
		if e != nil {
			return 0, errno(e.(syscall.Errno))
		}
		st64(d, uint64(off))
		return 0, 0
	case 4200: // pread64: offset in a register pair on the stack
		return sys(syscall.SYS_PREAD64, fd(a), host(b), uintptr(c), uintptr(t.arg(4))<<32|uintptr(t.arg(5)))
	case 4215, 4213, 4293: // fstat64, stat64, fstatat64
		var s syscall.Stat_t
		var e error
		at := b
		switch no {
		case 4215:
			e = syscall.Fstat(int(a), &s)
		case 4213:
			e = syscall.Stat(cstr(a), &s)
		default:
			at = c
			_, _, en := syscall.Syscall6(syscall.SYS_NEWFSTATAT, fd(a), host(b), uintptr(unsafe.Pointer(&s)), uintptr(d), 0, 0)
			if en != 0 {
				e = en
			}
		}
		if e != nil {
			return 0, errno(e.(syscall.Errno))
		}
		t.stat(at, &s)
		return 0, 0
	case 4055, 4220: // fcntl, fcntl64: the commands Go uses have the same numbers
		if b == 3 { // F_GETFL
			v, e := sys(syscall.SYS_FCNTL, fd(a), 3, 0)
			return v&3 | v&0x400>>7 | v&0x800>>4, e
		}
		if b == 4 {
			return 0, 0
		}
		return sys(syscall.SYS_FCNTL, fd(a), uintptr(b), uintptr(c))
	case 4020:
		return uint32(os.Getpid()), 0
	case 4222:
		return t.tid, 0
	case 4024, 4047, 4049, 4050, 4199, 4200 + 1: // getuid and relatives
		return 0, 0
	case 4045: // brk
		return 0, 0
	case 4090: // mmap
		return t.mmap(a, b, c, d)
	case 4210: // mmap2
		return t.mmap(a, b, c, d)
	case 4091: // munmap
		n := (b + page - 1) &^ (page - 1)
		mu.Lock()
		for p := a / page; p < (a+n)/page; p++ {
			used[p] = false
		}
		mustMmap(host(a), uintptr(n), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE|syscall.MAP_FIXED)
		mu.Unlock()
		return 0, 0
	case 4125: // mprotect
		return 0, 0
	case 4218: // madvise
		if c == 4 || c == 8 {
			sys(syscall.SYS_MADVISE, host(a), uintptr(b), 4)
		}
		return 0, 0
	case 4217, 4192, 4104: // mincore, prctl, setitimer
		return 0, enosys
	case 4194: // rt_sigaction: handlers are never called
		if c != 0 {
			clear(raw(c, 28))
		}
		return 0, 0
	case 4195: // rt_sigprocmask
		if c != 0 {
			clear(raw(c, d))
		}
		return 0, 0
	case 4206: // sigaltstack
		if b != 0 {
			clear(raw(b, 12))
			st32(b+8, 2)
		}
		return 0, 0
	case 4120: // clone(flags, stack, ptid, tls, ctid)
		if a&0x100 == 0 || a&0x10000 == 0 {
			return 0, enosys
		}
		n := &thread{r: t.r, hi: t.hi, lo: t.lo, pc: t.pc, npc: t.npc, tid: nextTID()}
		n.r[29], n.r[2], n.r[7] = b, 0, 0
		if a&0x100000 != 0 {
			st32(c, n.tid)
		}
		if a&0x200000 != 0 {
			n.clearTID = t.arg(4)
		}
		go run(n)
		return n.tid, 0
	case 4162:
		runtime.Gosched()
		return 0, 0
	case 4166: // nanosleep
		time.Sleep(time.Duration(ld32(a))*time.Second + time.Duration(ld32(a+4)))
		return 0, 0
	case 4238, 4422: // futex with 32 and 64 bit times
		switch b & 127 {
		case 0:
			var limit time.Duration = -1
			if d != 0 {
				if no == 4238 {
					limit = time.Duration(ld32(d))*time.Second + time.Duration(ld32(d+4))
				} else {
					limit = time.Duration(int64(ld32(d))<<32|int64(ld32(d+4)))*time.Second + time.Duration(int64(ld32(d+8))<<32|int64(ld32(d+12)))
				}
			}
			return 0, wait(a, c, limit)
		case 1:
			return wake(a, c), 0
		}
		return 0, enosys
	case 4240: // sched_getaffinity
		if b < 4 {
			return 0, einval
		}
		clear(raw(c, b))
		n := runtime.NumCPU()
		if n > 31 {
			n = 31
		}
		st32(c, 1<<uint(n)-1)
		return 4, 0
	case 4263, 4403: // clock_gettime
		var ts syscall.Timespec
		if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, uintptr(a), uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
			return 0, errno(e)
		}
		if no == 4263 {
			st32(b, uint32(ts.Sec))
			st32(b+4, uint32(ts.Nsec))
		} else {
			st64(b, uint64(ts.Sec))
			st64(b+8, uint64(ts.Nsec))
		}
		return 0, 0
	case 4266, 4037: // tgkill, kill: preemption requests are ignored, fatal ones obeyed
		sig := c
		if no == 4037 {
			sig = b
		}
		if sig == 6 || sig == 9 || sig == 15 {
			fmt.Fprintf(os.Stderr, "mips: the program sends itself signal %d\n", sig)
			os.Exit(2)
		}
		return 0, 0
	case 4353: // getrandom
		return sys(318, host(a), uintptr(b), 0)
	case 4338: // prlimit64
		if d != 0 {
			for k := uint32(0); k < 16; k++ {
				*(*byte)(ptr(d + k)) = 0x7f
			}
		}
		return 0, 0
	case 4122: // uname
		var u syscall.Utsname
		syscall.Uname(&u)
		src := unsafe.Slice((*byte)(unsafe.Pointer(&u)), unsafe.Sizeof(u))
		copy(raw(a, uint32(len(src))), src)
		return 0, 0
	case 4326:
		return sys(syscall.SYS_EPOLL_CREATE1, uintptr(0)|uintptr(syscall.EPOLL_CLOEXEC))
	case 4325: // eventfd2
		return sys(syscall.SYS_EVENTFD2, uintptr(a), uintptr(0x80000|0x800))
	case 4328: // pipe2
		var p [2]int
		if e := syscall.Pipe2(p[:], syscall.O_CLOEXEC|syscall.O_NONBLOCK); e != nil {
			return 0, errno(e.(syscall.Errno))
		}
		st32(a, uint32(p[0]))
		st32(a+4, uint32(p[1]))
		return 0, 0
	case 4249: // epoll_ctl
		var ev [12]byte
		if d != 0 {
			*(*uint32)(unsafe.Pointer(&ev)) = ld32(d)
			copy(ev[4:], raw(d+8, 8))
		}
		return sys(syscall.SYS_EPOLL_CTL, fd(a), uintptr(b), fd(c), uintptr(unsafe.Pointer(&ev)))
	case 4313: // epoll_pwait
		if c > 128 {
			c = 128
		}
		var ev [128][12]byte
		n, _, e := syscall.Syscall6(syscall.SYS_EPOLL_PWAIT, fd(a), uintptr(unsafe.Pointer(&ev)), uintptr(c), fd(d), 0, 0)
		if e != 0 {
			return 0, errno(e)
		}
		for i := uint32(0); i < uint32(n); i++ {
			st32(b+16*i, *(*uint32)(unsafe.Pointer(&ev[i])))
			copy(raw(b+16*i+8, 8), ev[i][4:])
		}
		return uint32(n), 0
	}
	if _, dup := warned.LoadOrStore(no, true); !dup && os.Getenv("MIPS_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "mips: system call %d is not provided\n", no)
	}
	return 0, enosys
}

func (t *thread) mmap(a, n, prot, flags uint32) (uint32, uint32) {
	if flags&0x800 == 0 || n == 0 {
		return 0, einval // only anonymous memory
	}
	n = (n + page - 1) &^ (page - 1)
	mu.Lock()
	defer mu.Unlock()
	free := func(a uint32) bool {
		if a&(page-1) != 0 || a < 16*page || uint64(a)+uint64(n) > top-stack {
			return false
		}
		for p := a / page; p < (a+n)/page; p++ {
			if used[p] {
				return false
			}
		}
		return true
	}
	if flags&0x10 == 0 && !free(a) {
		for a = next; !free(a); a += page {
			if uint64(a)+uint64(n) > top-stack {
				return 0, 12
			}
		}
		next = a + n
	}
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if prot == 0 {
		p = syscall.PROT_NONE
	}
	mustMmap(host(a), uintptr(n), p, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE|syscall.MAP_FIXED)
	for p := a / page; p < (a+n)/page; p++ {
		used[p] = true
	}
	return a, 0
}

func wait(a, val uint32, limit time.Duration) uint32 {
	mu.Lock()
	if ld32(a) != val {
		mu.Unlock()
		return eagain
	}
	ch := make(chan struct{}, 1)
	queue[a] = append(queue[a], ch)
	mu.Unlock()
	if limit < 0 {
		<-ch
		return 0
	}
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case <-ch:
		return 0
	case <-tm.C:
	}
	mu.Lock()
	defer mu.Unlock()
	for i, c := range queue[a] {
		if c == ch {
			queue[a] = append(queue[a][:i:i], queue[a][i+1:]...)
			return etimedout
		}
	}
	return 0
}

func wake(a, n uint32) uint32 {
	mu.Lock()
	defer mu.Unlock()
	k := uint32(0)
	for k < n && len(queue[a]) > 0 {
		queue[a][0] <- struct{}{}
		queue[a] = queue[a][1:]
		k++
	}
	if len(queue[a]) == 0 {
		delete(queue, a)
	}
	return k
}
