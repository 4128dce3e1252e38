//go:build linux && (amd64 || 386)

// Package mem provides memory with inaccessible pages on both sides, in a
// writable and a read-only view of the same bytes, so that any stray access of
// the code under test (assembly included) faults instead of going unnoticed.
package mem

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

const guard = 1 << 20

// Arena is size bytes surrounded by guard pages, mapped twice.
type Arena struct {
	RW, RO []byte
}

func mmap(addr, n uintptr, prot, flags, fd int) uintptr {
	p, err := sysMmap(addr, n, prot, flags, fd)
	if err != 0 {
		fmt.Fprintln(os.Stderr, "mem: mmap:", err)
		os.Exit(3)
	}
	return p
}

//go:nocheckptr
func view(p uintptr, n int) []byte {
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
}

// New returns an arena of at least size bytes (a multiple of the page size).
func New(size int) *Arena {
	size = (size + 4095) &^ 4095
	f, err := os.CreateTemp(tmp(), "verif-arena")
	if err != nil {
		fmt.Fprintln(os.Stderr, "mem:", err)
		os.Exit(3)
	}
	defer f.Close()
	os.Remove(f.Name())
	if err := f.Truncate(int64(size)); err != nil {
		fmt.Fprintln(os.Stderr, "mem:", err)
		os.Exit(3)
	}
	a := &Arena{}
	for k, prot := range []int{syscall.PROT_READ | syscall.PROT_WRITE, syscall.PROT_READ} {
		base := mmap(0, uintptr(size+2*guard), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON, -1)
		p := mmap(base+guard, uintptr(size), prot, syscall.MAP_SHARED|syscall.MAP_FIXED, int(f.Fd()))
		if k == 0 {
			a.RW = view(p, size)
		} else {
			a.RO = view(p, size)
		}
	}
	return a
}

func tmp() string {
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		return "/dev/shm"
	}
	return ""
}

// U32 reinterprets 4-byte aligned bytes as integers.
func U32(b []byte) []uint32 {
	if len(b) < 4 {
		if len(b) == 0 && cap(b) >= 4 {
			return unsafe.Slice((*uint32)(unsafe.Pointer(&b[:1][0])), cap(b)/4)[:0]
		}
		return []uint32{}
	}
	return unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(b)/4)
}

// Addr is the address of the first byte of b.
func Addr(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

// AddrU32 is the address of the first integer of b.
func AddrU32(b []uint32) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

// Grow returns b with k more bytes of capacity, which need not be mapped.
//
//go:nocheckptr
func Grow(b []byte, k int) []byte {
	type slice struct {
		p        unsafe.Pointer
		len, cap int
	}
	(*slice)(unsafe.Pointer(&b)).cap += k
	return b
}

// GrowU32 is Grow for integers.
//
//go:nocheckptr
func GrowU32(b []uint32, k int) []uint32 {
	type slice struct {
		p        unsafe.Pointer
		len, cap int
	}
	(*slice)(unsafe.Pointer(&b)).cap += k
	return b
}
