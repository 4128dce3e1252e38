//go:build linux

package mem

import "syscall"

func sysMmap(addr, n uintptr, prot, flags, fd int) (uintptr, syscall.Errno) {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP2, addr, n, uintptr(prot), uintptr(flags), uintptr(fd), 0)
	return p, e
}
