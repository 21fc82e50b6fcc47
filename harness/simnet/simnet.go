// Package simnet runs daemons in one process on a simulated network, in virtual time. It needs the
// build overlay written by overlay/sim.py, which hands UDP sockets to this package. Which host a
// goroutine runs on follows from its profiler label, which goroutines inherit.
package simnet

import (
	"container/heap"
	"context"
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"flucheck/core"
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

type label struct{ key, value string }

func hostLabel() string {
	p := (*[]label)(getProfLabel())
	if p == nil {
		return ""
	}
	for _, l := range *p {
		if l.key == "simhost" {
			return l.value
		}
	}
	return ""
}

// Port is the port all daemons use.
const Port = 61696

// Addr is an address.
type Addr struct {
	IP   [4]byte
	Port uint16
}

func (a Addr) String() string {
	return fmt.Sprintf("%d.%d.%d.%d:%d", a.IP[0], a.IP[1], a.IP[2], a.IP[3], a.Port)
}

// Packet is a datagram.
type Packet struct {
	Src, Dst  Addr
	Data      []byte
	Broadcast bool
	At        time.Duration // when it was sent; for received packets, when it arrived
}

type event struct {
	at  time.Duration
	seq int
	p   Packet
	to  *Host
}

type events []event

func (e events) Len() int { return len(e) }
func (e events) Less(i, j int) bool {
	return e[i].at < e[j].at || e[i].at == e[j].at && e[i].seq < e[j].seq
}
func (e events) Swap(i, j int) { e[i], e[j] = e[j], e[i] }
func (e *events) Push(x any)   { *e = append(*e, x.(event)) }
func (e *events) Pop() any     { o := *e; x := o[len(o)-1]; *e = o[:len(o)-1]; return x }

// Net is the network.
type Net struct {
	mu       sync.Mutex
	hosts    map[[4]byte]*Host
	labels   map[string]*Host
	lastPort map[[4]byte]uint16 // picked by a host, in any of its lives
	def      *Host
	queue    events
	seq      int
	wake     chan struct{}
	start    time.Time
	stopped  bool

	// Policy says after which delays copies of a packet arrive; none: it is lost. It may change the
	// data, which is its own copy. A nil policy delivers at once.
	Policy func(p *Packet, to [4]byte) []time.Duration
	// Tap sees every packet sent.
	Tap func(p Packet)
	// Arrive sees every packet that reaches a socket.
	Arrive func(p Packet)
	// Overflows counts packets lost because a socket's buffer was full.
	Overflows int
	// Faults are panics of the code under test.
	Faults []string
}

// Host is a host.
type Host struct {
	net    *Net
	IP     [4]byte
	Online bool
	label  string
	dead   bool
	socks  map[uint16]*Sock
	next   uint16
	QLimit int
	// SendErr and DialErr may make a system call of the code under test fail.
	SendErr, DialErr func() error
	// Buffer limits what a socket holds until it is read, as the kernel accounts for it; 0: unlimited.
	Buffer int
}

var (
	cur    *Net
	caseNo int
)

// Run runs f in a bubble of virtual time on a fresh network.
func Run(f func(n *Net) error) (err error) {
	caseNo++
	var inner any
	finished := false
	func() {
		defer func() {
			if p := recover(); p != nil && !finished {
				if e, ok := p.(error); ok && strings.HasPrefix(e.Error(), "deadlock:") {
					err = core.Harness("the scenario is stuck: %v", e)
					return
				}
				panic(p)
			}
		}()
		synctestRun(func() {
			n := &Net{hosts: map[[4]byte]*Host{}, labels: map[string]*Host{}, lastPort: map[[4]byte]uint16{}, wake: make(chan struct{}, 1), start: time.Now()}
			cur = n
			go n.dispatch()
			defer func() {
				inner = recover()
				if inner != nil {
					if _, ok := inner.(error); !ok {
						inner = fmt.Errorf("panic: %v\n%s", inner, debug.Stack())
					}
				}
				if len(n.Faults) > 0 {
					err = core.Fail("panic"+core.PanicSite(n.Faults[0]), "%s", n.Faults[0])
				}
				finished = true
				n.shutdown()
			}()
			err = f(n)
		})
	}()
	switch p := inner.(type) {
	case nil:
	case *core.Violation:
		err = p
	case *core.HarnessError:
		err = p
	default:
		panic(p)
	}
	return err
}

func (n *Net) shutdown() {
	n.mu.Lock()
	n.stopped = true
	hs := make([]*Host, 0)
	for _, h := range n.labels {
		hs = append(hs, h)
	}
	for _, h := range n.hosts {
		hs = append(hs, h)
	}
	n.mu.Unlock()
	for _, h := range hs {
		h.Kill()
	}
	select {
	case n.wake <- struct{}{}:
	default:
	}
}

// Now is the virtual time since the start.
func (n *Net) Now() time.Duration { return time.Since(n.start) }

// Settle waits until nothing more happens at this instant.
func (n *Net) Settle() { synctestWait() }

// Sleep lets virtual time pass.
func (n *Net) Sleep(d time.Duration) { time.Sleep(d); synctestWait() }

// AddHost connects a host.
func (n *Net) AddHost(ip [4]byte) *Host {
	n.mu.Lock()
	defer n.mu.Unlock()
	h := &Host{net: n, IP: ip, Online: true, socks: map[uint16]*Sock{}, next: 40000, QLimit: 8192}
	if at := n.lastPort[ip]; at != 0 { // packets under way must not reach the sockets of a host's next life
		h.next = at
	}
	h.label = fmt.Sprintf("%d.%d.%d.%d#%d#%d", ip[0], ip[1], ip[2], ip[3], caseNo, len(n.labels))
	n.hosts[ip] = h
	n.labels[h.label] = h
	return h
}

// Kill ends everything that runs on the host and disconnects it.
func (h *Host) Kill() {
	h.net.mu.Lock()
	h.dead, h.Online = true, false
	if h.net.hosts[h.IP] == h {
		delete(h.net.hosts, h.IP)
	}
	var ss []*Sock
	for _, s := range h.socks {
		ss = append(ss, s)
	}
	h.net.mu.Unlock()
	for _, s := range ss {
		s.signal()
	}
}

// Host returns the host with the address.
func (n *Net) Host(ip [4]byte) *Host {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.hosts[ip]
}

// Move gives the host another address.
func (h *Host) Move(ip [4]byte) {
	h.net.mu.Lock()
	defer h.net.mu.Unlock()
	if h.net.hosts[h.IP] == h {
		delete(h.net.hosts, h.IP)
	}
	h.IP = ip
	h.net.hosts[ip] = h
}

// Go runs f on the host.
func (h *Host) Go(f func()) {
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("simhost", h.label)))
		defer func() {
			if p := recover(); p != nil {
				switch p.(type) {
				case *core.Violation, *core.HarnessError:
					panic(p)
				}
				stack := string(debug.Stack())
				h.net.Fault(fmt.Sprintf("%v\n%s", p, stack))
			}
		}()
		f()
	}()
}

// Fault records a panic of the code under test.
func (n *Net) Fault(s string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Faults = append(n.Faults, s)
}

// Check returns a violation if the code under test panicked.
func (n *Net) Check() error {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.Faults) > 0 {
		return core.Fail("panic"+core.PanicSite(n.Faults[0]), "%s", n.Faults[0])
	}
	return nil
}

// Do runs f on the host and waits; false if it takes longer than the limit.
func (h *Host) Do(limit time.Duration, f func()) bool {
	done := make(chan struct{})
	h.Go(func() { defer close(done); f() })
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// Socks counts open sockets.
func (h *Host) Socks() int {
	h.net.mu.Lock()
	defer h.net.mu.Unlock()
	return len(h.socks)
}

// Ports lists the ports of open sockets.
func (h *Host) Ports() []int {
	h.net.mu.Lock()
	defer h.net.mu.Unlock()
	var v []int
	for p := range h.socks {
		v = append(v, int(p))
	}
	sort.Ints(v)
	return v
}

// Sock is a socket.
type Sock struct {
	h        *Host
	port     uint16
	remote   *Addr
	wildcard bool
	mu       sync.Mutex
	q        []Packet
	bytes    int
	closed   bool
	pending  error
	deadline time.Time
	wake     chan struct{}
}

func (h *Host) bind(port uint16, remote *Addr) (*Sock, error) {
	h.net.mu.Lock()
	defer h.net.mu.Unlock()
	if port == 0 {
		for h.next++; h.socks[h.next] != nil; h.next++ {
			if h.next > 60000 {
				h.next = 40000
			}
		}
		port = h.next
		h.net.lastPort[h.IP] = port
	} else if h.socks[port] != nil {
		return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	s := &Sock{h: h, port: port, remote: remote, wake: make(chan struct{})}
	h.socks[port] = s
	return s, nil
}

// Listen opens a socket for the harness; port 0 picks one.
func (h *Host) Listen(port uint16) *Sock {
	s, err := h.bind(port, nil)
	if err != nil {
		panic(core.Harness("%v", err))
	}
	return s
}

func (s *Sock) signal() {
	s.mu.Lock()
	close(s.wake)
	s.wake = make(chan struct{})
	s.mu.Unlock()
}

// Addr is the socket's address.
func (s *Sock) Addr() Addr { return Addr{s.h.IP, s.port} }

func (s *Sock) receive(limit *time.Time) (Packet, error) {
	for {
		s.mu.Lock()
		if s.h.dead {
			s.mu.Unlock()
			runtime.Goexit()
		}
		if s.closed {
			s.mu.Unlock()
			return Packet{}, net.ErrSimClosed
		}
		dl := s.deadline
		if limit != nil {
			dl = *limit
		}
		if !dl.IsZero() && !time.Now().Before(dl) && limit == nil {
			s.mu.Unlock()
			return Packet{}, os.ErrDeadlineExceeded
		}
		if s.pending != nil {
			err := s.pending
			s.pending = nil
			s.mu.Unlock()
			return Packet{}, err
		}
		if len(s.q) > 0 {
			p := s.q[0]
			s.q = s.q[1:]
			s.bytes -= truesize(len(p.Data))
			s.mu.Unlock()
			return p, nil
		}
		if !dl.IsZero() && !time.Now().Before(dl) {
			s.mu.Unlock()
			return Packet{}, os.ErrDeadlineExceeded
		}
		wake := s.wake
		s.mu.Unlock()
		if dl.IsZero() {
			<-wake
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-wake:
		case <-t.C:
		}
		t.Stop()
	}
}

// DefaultBuffer is the receive buffer of a socket on Linux.
const DefaultBuffer = 212992

// truesize is about what the kernel charges for a datagram.
func truesize(n int) int {
	switch {
	case n <= 128:
		return 768
	case n <= 1472:
		return 2304
	}
	return 2304 + (n/1472)*2304
}

// Recv waits for a packet.
func (s *Sock) Recv(limit time.Duration) (Packet, bool) {
	t := time.Now().Add(limit)
	p, err := s.receive(&t)
	return p, err == nil
}

// Drain returns the packets that are there.
func (s *Sock) Drain() []Packet {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.q
	s.q = nil
	return q
}

// Send sends a packet.
func (s *Sock) Send(to Addr, data []byte) error { return s.send(to, data) }

func (s *Sock) send(to Addr, data []byte) error {
	h, n := s.h, s.h.net
	if h.dead {
		runtime.Goexit()
	}
	if len(data) > 65507 {
		return os.NewSyscallError("write", syscall.EMSGSIZE)
	}
	if !h.Online {
		return os.NewSyscallError("write", syscall.ENETUNREACH)
	}
	p := Packet{Src: s.Addr(), Dst: to, Data: append([]byte(nil), data...), At: n.Now()}
	p.Broadcast = to.IP == [4]byte{255, 255, 255, 255}
	if n.Tap != nil {
		n.Tap(p)
	}
	n.mu.Lock()
	var dst []*Host
	if p.Broadcast {
		for _, d := range n.hosts {
			if d.Online {
				dst = append(dst, d)
			}
		}
		sort.Slice(dst, func(i, j int) bool { return string(dst[i].IP[:]) < string(dst[j].IP[:]) })
	} else if d := n.hosts[to.IP]; d != nil && d.Online {
		dst = append(dst, d)
	} else if to.IP[0] == 127 {
		dst = append(dst, h)
	}
	n.mu.Unlock()
	for _, d := range dst {
		c := p
		c.Data = append([]byte(nil), p.Data...)
		delays := []time.Duration{0}
		if n.Policy != nil {
			delays = n.Policy(&c, d.IP)
		}
		for _, w := range delays {
			if w <= 0 {
				n.deliver(c, d)
				continue
			}
			n.mu.Lock()
			n.seq++
			heap.Push(&n.queue, event{n.Now() + w, n.seq, c, d})
			n.mu.Unlock()
			select {
			case n.wake <- struct{}{}:
			default:
			}
		}
	}
	return nil
}

func (n *Net) dispatch() {
	for {
		n.mu.Lock()
		if n.stopped {
			n.mu.Unlock()
			return
		}
		if len(n.queue) == 0 {
			n.mu.Unlock()
			<-n.wake
			continue
		}
		next := n.queue[0]
		if w := next.at - n.Now(); w > 0 {
			n.mu.Unlock()
			t := time.NewTimer(w)
			select {
			case <-n.wake:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		heap.Pop(&n.queue)
		n.mu.Unlock()
		n.deliver(next.p, next.to)
	}
}

func (n *Net) deliver(p Packet, to *Host) {
	p.At = n.Now()
	n.mu.Lock()
	var s *Sock
	if to.Online && !to.dead {
		s = to.socks[p.Dst.Port]
	}
	back := n.hosts[p.Src.IP]
	n.mu.Unlock()
	if s != nil && s.remote != nil && *s.remote != p.Src {
		s = nil
	}
	if s == nil {
		// port unreachable: connected senders get to know
		if back != nil && to.Online && !p.Broadcast {
			n.mu.Lock()
			b := back.socks[p.Src.Port]
			n.mu.Unlock()
			if b != nil && b.remote != nil && *b.remote == p.Dst {
				b.mu.Lock()
				b.pending = os.NewSyscallError("read", syscall.ECONNREFUSED)
				b.mu.Unlock()
				b.signal()
			}
		}
		return
	}
	s.mu.Lock()
	full := len(s.q) >= to.QLimit || to.Buffer > 0 && s.bytes > to.Buffer
	s.mu.Unlock()
	if full {
		n.mu.Lock()
		n.Overflows++
		n.mu.Unlock()
		return
	}
	if n.Arrive != nil {
		n.Arrive(p)
	}
	s.mu.Lock()
	{
		s.bytes += truesize(len(p.Data))
		s.q = append(s.q, p)
	}
	s.mu.Unlock()
	s.signal()
}

// Close closes the socket.
func (s *Sock) Close() error {
	s.h.net.mu.Lock()
	if s.h.socks[s.port] == s {
		delete(s.h.socks, s.port)
	}
	s.h.net.mu.Unlock()
	s.mu.Lock()
	was := s.closed
	s.closed = true
	s.mu.Unlock()
	s.signal()
	if was {
		return net.ErrSimClosed
	}
	return nil
}

// conn adapts a socket to package net.
type conn struct{ s *Sock }

func (c conn) Read(b []byte) (int, *net.UDPAddr, error) {
	p, err := c.s.receive(nil)
	if err != nil {
		return 0, nil, err
	}
	ip := p.Src.IP
	from := &net.UDPAddr{IP: ip[:], Port: int(p.Src.Port)}
	if c.s.wildcard { // dual stack
		from.IP = net.IPv4(ip[0], ip[1], ip[2], ip[3])
	}
	return copy(b, p.Data), from, nil
}

func (c conn) Write(b []byte, to *net.UDPAddr, explicit bool) (int, error) {
	s := c.s
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		return 0, net.ErrSimClosed
	}
	if s.pending != nil {
		err := s.pending
		s.pending = nil
		s.mu.Unlock()
		return 0, err
	}
	s.mu.Unlock()
	var dst Addr
	switch {
	case s.remote != nil && explicit:
		return 0, net.ErrWriteToConnected
	case s.remote != nil:
		dst = *s.remote
	case to == nil:
		return 0, os.NewSyscallError("write", syscall.EDESTADDRREQ)
	default:
		a, err := toAddr(to)
		if err != nil {
			return 0, err
		}
		dst = a
	}
	if f := s.h.SendErr; f != nil {
		if err := f(); err != nil {
			return 0, err
		}
	}
	if err := s.send(dst, b); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (c conn) Close() error { return c.s.Close() }

func (c conn) SetDeadline(t time.Time, read, write bool) error {
	c.s.mu.Lock()
	if c.s.closed {
		c.s.mu.Unlock()
		return net.ErrSimClosed
	}
	if read {
		c.s.deadline = t
	}
	c.s.mu.Unlock()
	c.s.signal()
	return nil
}

func (c conn) Addrs() (*net.UDPAddr, *net.UDPAddr) {
	ip := c.s.h.IP
	l := &net.UDPAddr{IP: ip[:], Port: int(c.s.port)}
	if c.s.remote == nil {
		return l, nil
	}
	r := c.s.remote.IP
	return l, &net.UDPAddr{IP: r[:], Port: int(c.s.remote.Port)}
}

func toAddr(a *net.UDPAddr) (Addr, error) {
	v4 := a.IP.To4()
	if v4 == nil {
		if len(a.IP) == 0 || a.IP.IsUnspecified() {
			return Addr{[4]byte{127, 0, 0, 1}, uint16(a.Port)}, nil
		}
		return Addr{}, os.NewSyscallError("connect", syscall.ENETUNREACH)
	}
	var r Addr
	copy(r.IP[:], v4)
	r.Port = uint16(a.Port)
	return r, nil
}

func here() *Host {
	n := cur
	n.mu.Lock()
	h := n.labels[hostLabel()]
	if h == nil {
		h = n.def
	}
	dead := h != nil && h.dead
	n.mu.Unlock()
	if dead {
		runtime.Goexit()
	}
	if h != nil {
		return h
	}
	panic(core.Harness("a goroutine without host uses the network:\n%s", debug.Stack()))
}

func init() {
	os.SimExit = func(code int) {
		if stack := string(debug.Stack()); core.PanicSite(stack) != "" {
			panic(fmt.Sprintf("the process ends itself with status %d", code))
		}
	}
	net.SimDialUDP = func(laddr, raddr *net.UDPAddr) (net.SimConn, error) {
		h := here()
		a, err := toAddr(raddr)
		if err != nil {
			return nil, err
		}
		if !h.Online && a.IP[0] != 127 {
			return nil, os.NewSyscallError("connect", syscall.ENETUNREACH)
		}
		if f := h.DialErr; f != nil {
			if err := f(); err != nil {
				return nil, err
			}
		}
		var port uint16
		if laddr != nil {
			port = uint16(laddr.Port)
		}
		s, err := h.bind(port, &a)
		if err != nil {
			return nil, err
		}
		return conn{s}, nil
	}
	net.SimListenUDP = func(laddr *net.UDPAddr) (net.SimConn, error) {
		h := here()
		var port uint16
		wild := true
		if laddr != nil {
			port = uint16(laddr.Port)
			wild = len(laddr.IP) == 0
		}
		s, err := h.bind(port, nil)
		if err != nil {
			return nil, err
		}
		s.wildcard = wild
		return conn{s}, nil
	}
	net.SimAddrs = func() []net.Addr {
		h := here()
		v := []net.Addr{&net.IPNet{IP: net.IPv4(127, 0, 0, 1), Mask: net.CIDRMask(8, 32)}, &net.IPNet{IP: net.IPv6loopback, Mask: net.CIDRMask(128, 128)}}
		if h.Online {
			v = append(v, &net.IPNet{IP: net.ParseIP("fe80::1"), Mask: net.CIDRMask(64, 128)},
				&net.IPNet{IP: net.IPv4(h.IP[0], h.IP[1], h.IP[2], h.IP[3]), Mask: net.CIDRMask(24, 32)})
		}
		return v
	}
}
