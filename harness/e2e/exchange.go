package e2e

import (
	"syscall"
	"unsafe"

	"golang.org/x/sys/unix"
)

func renameExchange(p, q string) error {
	a, err := syscall.BytePtrFromString(p)
	if err != nil {
		return err
	}
	b, err := syscall.BytePtrFromString(q)
	if err != nil {
		return err
	}
	at := unix.AT_FDCWD
	_, _, e := unix.Syscall6(unix.SYS_RENAMEAT2, uintptr(at), uintptr(unsafe.Pointer(a)), uintptr(at), uintptr(unsafe.Pointer(b)), 2, 0)
	if e != 0 {
		return e
	}
	return nil
}

// KernelMask gives the inotify bits of a set of kinds.
func KernelMask(e uint32) uint32 { return enc(e) }
