package catmodel

import (
	"sync"
	"syscall"
	"unsafe"
)

var dropOnce sync.Once

// DropOverride makes permissions count for root too: the process gives up CAP_DAC_OVERRIDE and CAP_DAC_READ_SEARCH.
// Without it (not root, or linked with C) permissions just count as they do.
func DropOverride() {
	dropOnce.Do(func() {
		head := struct {
			version uint32
			pid     int32
		}{version: 0x20080522}
		var data [2]struct{ effective, permitted, inheritable uint32 }
		if _, _, e := syscall.RawSyscall(syscall.SYS_CAPGET, uintptr(unsafe.Pointer(&head)), uintptr(unsafe.Pointer(&data)), 0); e != 0 {
			return
		}
		data[0].effective &^= 1<<1 | 1<<2
		syscall.AllThreadsSyscall(syscall.SYS_CAPSET, uintptr(unsafe.Pointer(&head)), uintptr(unsafe.Pointer(&data)), 0)
	})
}
