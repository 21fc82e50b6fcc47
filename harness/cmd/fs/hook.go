package main

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"flucheck/core"
)

// goroutines of one operation carry its label, and so do those it starts
//
//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

// Inj says what happens to the file system during an operation.
type Inj struct {
	K      string `json:"k,omitempty"`  // crash, fault, nocat, nodl or nothing
	At     int    `json:"at,omitempty"` // the call it happens at, from 1
	E      int    `json:"e,omitempty"`  // fault: which error
	Torn   int    `json:"t,omitempty"`  // eighths of the buffer that get written, and the call after it is hit
	Sticky bool   `json:"s,omitempty"`  // fault: all later calls fail too
	M      int    `json:"m,omitempty"`  // fault: bits of which of the 8 later calls fail too; crash: of the 8 earlier calls
}

// due says whether call n is hit, and whether only by a failure that comes before the crash.
func (x Inj) due(n int) (hit, early bool) {
	d := n - x.At
	switch {
	case x.At <= 0:
	case d == 0 || x.Sticky && d > 0:
		return true, false
	case x.K == "fault" && d > 0 && d <= 8:
		return x.M>>(d-1)&1 == 1, false
	case x.K == "crash" && d < 0 && d >= -8:
		return x.M>>(-d-1)&1 == 1, true
	}
	return false, false
}

var errnos = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.EDQUOT, syscall.EINTR, syscall.ENOMEM}

// short is the "error" that only shortens reads and writes
const short = 8

// run is one operation of the client while it is watched.
type run struct {
	mu     sync.Mutex
	inj    Inj
	n      int
	hit    bool
	write  bool // the call that was hit writes more than one byte
	dead   bool
	torn   bool
	deadCh chan struct{}
	calls  []string
	snaps  map[int][]byte // what files contained before what is written to them is known to be on the disk
	ours   atomic.Bool    // the calls are not the client's
}

// keep remembers what an open file contains.
func (r *run) keep(fd int) {
	if _, ok := r.snaps[fd]; ok {
		return
	}
	r.ours.Store(true)
	defer r.ours.Store(false)
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/fd/%d", fd))
	if err != nil {
		return
	}
	if r.snaps == nil {
		r.snaps = map[int][]byte{}
	}
	r.snaps[fd] = b
}

// lose undoes what was written to an open file.
func (r *run) lose(fd int) {
	b, ok := r.snaps[fd]
	if !ok {
		return
	}
	r.ours.Store(true)
	defer r.ours.Store(false)
	os.WriteFile(fmt.Sprintf("/proc/self/fd/%d", fd), b, 0)
}

var (
	runs   sync.Map // label -> *run
	exited atomic.Int64
)

func init() {
	syscall.SimFS = hook
	os.SimPid = func() int { return int(10000 + pid.Load()) }
	time.SimNow = func() time.Duration {
		if p := getProfLabel(); p != nil {
			if _, ok := runs.Load(p); ok {
				return time.Duration(clock.Load())
			}
		}
		return 0
	}
	os.SimExit = func(int) {
		if p := getProfLabel(); p != nil {
			if _, ok := runs.Load(p); ok {
				panic("the client ends the process")
			}
		}
	}
}

func hook(call string, fd, n int) (int, syscall.Errno) {
	p := getProfLabel()
	if p == nil || fd >= 0 && fd <= 2 {
		return n, 0
	}
	v, ok := runs.Load(p)
	if !ok {
		return n, 0
	}
	r := v.(*run)
	if r.ours.Load() {
		return n, 0
	}
	r.mu.Lock()
	if r.dead {
		r.mu.Unlock()
		runtime.Goexit()
	}
	r.n++
	if len(r.calls) < 200 {
		r.calls = append(r.calls, call)
	}
	due, early := r.inj.due(r.n)
	if r.inj.K == "fault" && fd >= 0 {
		switch {
		case strings.HasSuffix(call, "write"):
			r.keep(fd)
		case call == "fsync" && !due:
			delete(r.snaps, fd)
		case call == "close" && due && r.inj.E != short:
			r.lose(fd) // a disk that reports a failed write only now
		}
		if call == "close" {
			delete(r.snaps, fd)
		}
	}
	if !due || r.inj.K != "crash" && r.inj.K != "fault" {
		r.mu.Unlock()
		return n, 0
	}
	if !r.hit {
		r.write = strings.HasSuffix(call, "write") && n > 1
		r.calls[len(r.calls)-1] += "!"
	}
	r.hit = true
	if !early && r.inj.Torn > 0 && strings.HasSuffix(call, "write") {
		// part of it reaches the disk; the next call is never made, or fails
		r.inj.At = r.n + 1
		if r.inj.K == "crash" {
			r.inj.Sticky = false
		}
		most := n * r.inj.Torn / 8
		r.inj.Torn, r.torn = 0, true
		r.mu.Unlock()
		if most == 0 {
			most = min(n, 1)
		}
		return most, 0
	}
	if r.inj.K == "crash" && !early {
		r.dead = true
		close(r.deadCh)
		r.mu.Unlock()
		runtime.Goexit()
	}
	r.mu.Unlock()
	if r.inj.E == short {
		if n > 1 {
			return (n + 1) / 2, 0
		}
		return n, 0
	}
	if call == "close" { // it is gone all the same
		syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(fd), 0, 0)
	}
	return n, errnos[r.inj.E%len(errnos)]
}

type outcome struct {
	err     error
	crashed bool
	hit     bool
	write   bool
	calls   string
}

// watched runs one operation of the client.
func watched(inj Inj, f func() error) (outcome, error) {
	r := &run{inj: inj, deadCh: make(chan struct{})}
	type res struct {
		err   error
		panic string
		gone  bool
	}
	ch := make(chan res, 1)
	var label unsafe.Pointer
	go func() {
		var x res
		x.gone = true
		defer func() {
			if x.gone {
				if p := recover(); p != nil {
					x.panic, x.gone = fmt.Sprintf("%v\n%s", p, debug.Stack()), false
				}
			}
			ch <- x
		}()
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("run", fmt.Sprint(exited.Add(1)))))
		label = getProfLabel()
		runs.Store(label, r)
		x.err = f()
		x.gone = false
	}()
	var x res
	select {
	case x = <-ch:
	case <-r.deadCh:
		select {
		case x = <-ch:
		case <-time.After(300 * time.Millisecond): // it waits for something that died
			x.gone = true
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	o := outcome{err: x.err, crashed: r.dead, hit: r.hit, write: r.write, calls: strings.Join(r.calls, " ")}
	if !r.dead && r.inj.K == "crash" && r.torn { // torn, and nothing came after it
		o.crashed = true
	}
	if !r.dead {
		runs.Delete(label) // what it left running goes on undisturbed
	}
	if x.panic != "" && !r.dead {
		return o, core.Fail("panic", "%s: it panics: %.3000s", o.calls, x.panic)
	}
	if x.gone && !r.dead {
		return o, core.Harness("an operation went away")
	}
	return o, nil
}
