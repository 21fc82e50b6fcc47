package main

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// goroutines of the client carry a label, and so do those they start
//
//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

// pace slows one worker down at its file-system calls and locks.
type pace struct {
	x    atomic.Uint64
	slow uint64 // of 256 points, how many are slow
}

func hooks() {
	syscall.SimFS = func(call string, fd, n int) (int, syscall.Errno) {
		if fd < 0 || fd > 2 {
			point()
		}
		return n, 0
	}
	sync.SimLock = func(before bool) {
		if getProfLabel() != nil && byClient() {
			point()
		}
	}
	os.SimExit = func(int) {
		if getProfLabel() != nil {
			panic("the client ends the process")
		}
	}
}

// byClient says whether the client's own code, and not the standard library for it, uses a lock.
//
//go:norace
func byClient() bool {
	var pcs [12]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := frames.Next()
		switch {
		case strings.HasPrefix(f.Function, "github.com/flu-network/client"):
			return true
		case strings.HasPrefix(f.Function, "sync.(*Pool)"), strings.HasPrefix(f.Function, "sync.(*poolC"):
			return false
		case !more, !strings.HasPrefix(f.Function, "sync.") && !strings.HasPrefix(f.Function, "main.") && !strings.HasPrefix(f.Function, "runtime."):
			return false
		}
	}
}

//go:norace
func point() {
	p := getProfLabel()
	if p == nil {
		return
	}
	v, ok := lookup(p)
	if !ok {
		return
	}
	r := v.x.Add(0x9E3779B97F4A7C15)
	r = (r ^ r>>30) * 0xBF58476D1CE4E5B9
	r = (r ^ r>>27) * 0x94D049BB133111EB
	r ^= r >> 31
	if r&255 >= v.slow {
		return
	}
	if r>>8&3 == 0 {
		runtime.Gosched()
	} else {
		time.Sleep(time.Duration(r>>16&127) * time.Microsecond)
	}
}

// lookup must not lock: locks are what calls it.
func lookup(p unsafe.Pointer) (*pace, bool) {
	t := table.Load()
	for i := range t.keys {
		if t.keys[i].Load() == uintptr(p) {
			return &t.paces[i], true
		}
	}
	return nil, false
}

// tab holds the workers of a case.
type tab struct {
	keys  [8]atomic.Uintptr
	keep  [8]unsafe.Pointer
	paces [8]pace
}

var table atomic.Pointer[tab]

var labels atomic.Int64

func init() { table.Store(&tab{}) }

// labelled runs f as worker i.
func labelled(t *tab, i int, seed, slow uint64, f func()) {
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("worker", fmt.Sprint(labels.Add(1)))))
	p := getProfLabel()
	t.keep[i] = p
	t.paces[i].x.Store(seed)
	t.paces[i].slow = slow
	t.keys[i].Store(uintptr(p))
	defer pprof.SetGoroutineLabels(context.Background())
	f()
}
