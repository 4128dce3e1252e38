package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/pbt"
)

// terminal is a pseudo-terminal without echo.
type terminal struct {
	master, slave *os.File
	out           chan string
}

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) error {
	var e syscall.Errno
	c, err := f.SyscallConn()
	if err != nil {
		return err
	}
	c.Control(func(fd uintptr) { _, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)) })
	if e != 0 {
		return e
	}
	return nil
}

// openTerminal returns nil where there are no pseudo-terminals.
func openTerminal() *terminal {
	t := &terminal{out: make(chan string, 1)}
	var err error
	if t.master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0); err == nil {
		var n, unlock int32
		if err = ioctl(t.master, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err == nil {
			if err = ioctl(t.master, syscall.TIOCGPTN, unsafe.Pointer(&n)); err == nil {
				t.slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
			}
		}
	}
	var tio syscall.Termios
	if err == nil {
		if err = ioctl(t.slave, syscall.TCGETS, unsafe.Pointer(&tio)); err == nil {
			tio.Lflag &^= syscall.ECHO | syscall.ECHOCTL | syscall.ECHONL
			tio.Oflag &^= syscall.OPOST
			err = ioctl(t.slave, syscall.TCSETS, unsafe.Pointer(&tio))
		}
	}
	if err != nil {
		pbt.Note("no pseudo-terminals: %v", err)
		if t.slave != nil {
			t.slave.Close()
		}
		if t.master != nil {
			t.master.Close()
		}
		return nil
	}
	go func() {
		var b strings.Builder
		buf := make([]byte, 1<<16)
		for {
			n, err := t.master.Read(buf)
			b.Write(buf[:n])
			if err != nil {
				break
			}
		}
		t.out <- b.String()
	}()
	return t
}

func (t *terminal) write(s string) { t.master.WriteString(s) }

// close returns what was written to the terminal.
func (t *terminal) close() string {
	t.slave.Close() // the last one: the reader sees EIO after what is left
	var s string
	select {
	case s = <-t.out:
	case <-time.After(20 * time.Second):
		pbt.Note("a terminal stayed open")
	}
	t.master.Close()
	return s
}
