package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"flucheck/core"
)

const port = 61696

var (
	daemonBin = os.Getenv("FLU_DAEMON")
	labs      atomic.Int64
	raceMode  = os.Getenv("FLU_RACE") != ""
)

// lab is a local network with hosts, each in namespaces of its own.
type lab struct {
	id    int64
	dir   string
	hosts []*host
}

type host struct {
	l        *lab
	n        int
	ip       [4]byte
	dir      string
	holder   *exec.Cmd
	daemon   *exec.Cmd
	starts   int
	done     chan struct{} // closed when the daemon has ended
	mu       sync.Mutex
	exit     string
	hasNet   bool
	sockBase int
}

func sh(args ...string) error {
	out, err := exec.Command(args[0], args[1:]...).CombinedOutput()
	if err != nil {
		return core.Harness("%v: %v %s", args, err, out)
	}
	return nil
}

func must(err error) {
	if err != nil {
		if _, ok := err.(*core.HarnessError); ok {
			panic(err)
		}
		panic(core.Harness("%v", err))
	}
}

func newLab(n int) *lab {
	l := &lab{id: labs.Add(1), dir: core.Scratch()}
	br := fmt.Sprintf("b%d", l.id)
	must(sh("ip", "link", "add", br, "type", "bridge"))
	must(sh("ip", "link", "set", br, "up"))
	for i := 0; i < n; i++ {
		l.hosts = append(l.hosts, l.newHost(i, br))
	}
	return l
}

func (l *lab) newHost(i int, br string) *host {
	h := &host{l: l, n: i, ip: [4]byte{10, 0, 0, byte(i + 1)}, dir: filepath.Join(l.dir, fmt.Sprint(i)), hasNet: true}
	for _, d := range []string{"home", "tmp", "user"} {
		must(os.MkdirAll(filepath.Join(h.dir, d), 0755))
	}
	// the holder keeps the namespaces; /tmp is the host's own
	h.holder = exec.Command("unshare", "-nm", "sh", "-c", `mount --bind "$1" /tmp && ip link set lo up && echo ok && exec sleep 100000`, "sh", filepath.Join(h.dir, "tmp"))
	out, err := h.holder.StdoutPipe()
	must(err)
	h.holder.Stderr = os.Stderr
	must(h.holder.Start())
	b := make([]byte, 10)
	if k, err := out.Read(b); err != nil || string(b[:k]) != "ok\n" {
		panic(core.Harness("the namespaces of a host cannot be made: %q %v", b[:k], err))
	}
	pid := strconv.Itoa(h.holder.Process.Pid)
	veth := fmt.Sprintf("v%dx%d", l.id, i)
	must(sh("ip", "link", "add", veth, "type", "veth", "peer", "name", "e0", "netns", pid))
	must(sh("ip", "link", "set", veth, "master", br, "up"))
	h.in("ip", "link", "set", "e0", "up")
	h.address(h.ip)
	return h
}

// in runs a command in the host's network.
func (h *host) in(args ...string) {
	must(sh(append([]string{"nsenter", "-t", strconv.Itoa(h.holder.Process.Pid), "-n"}, args...)...))
}

func (h *host) address(ip [4]byte) {
	h.in("ip", "addr", "flush", "dev", "e0", "scope", "global")
	h.in("ip", "link", "set", "e0", "up")
	h.in("ip", "addr", "add", fmt.Sprintf("%d.%d.%d.%d/24", ip[0], ip[1], ip[2], ip[3]), "broadcast", "10.0.0.255", "dev", "e0")
	h.in("ip", "route", "replace", "default", "via", "10.0.0.254", "dev", "e0")
	h.ip, h.hasNet = ip, true
}

func (h *host) offline(link bool) {
	if link {
		h.in("ip", "link", "set", "e0", "down")
	} else {
		h.in("ip", "addr", "flush", "dev", "e0", "scope", "global")
	}
	h.hasNet = false
}

func (h *host) command(dir string, args ...string) *exec.Cmd {
	c := exec.Command("nsenter", append([]string{"-t", strconv.Itoa(h.holder.Process.Pid), "-n", "-m", "--wdns=" + dir, daemonBin}, args...)...)
	c.Env = append(os.Environ(), "HOME="+filepath.Join(h.dir, "home"), "GORACE=halt_on_error=0 exitcode=66")
	return c
}

func (h *host) logPath() string { return filepath.Join(h.dir, "log") }

// start runs the daemon and waits until it serves commands.
func (h *host) start() error {
	f, err := os.OpenFile(h.logPath(), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	must(err)
	defer f.Close()
	h.daemon = h.command("/", "-d")
	h.daemon.Stdout, h.daemon.Stderr = f, f
	must(h.daemon.Start())
	h.starts++
	done := make(chan struct{})
	h.done = done
	d := h.daemon
	go func() {
		err := d.Wait()
		h.mu.Lock()
		h.exit = fmt.Sprint(err)
		h.mu.Unlock()
		close(done)
	}()
	for t := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		if c, err := net.Dial("unix", filepath.Join(h.dir, "tmp", "flu-network.sock")); err == nil {
			c.Close()
			if h.udpBound() {
				break
			}
		}
		if err := h.alive(); err != nil {
			return err
		}
		if time.Since(t) > 90*time.Second {
			return core.Fail("start", "the daemon serves no commands after %v:\n%s", time.Since(t), h.logTail())
		}
	}
	h.sockBase = len(h.fds("socket:"))
	return nil
}

func (h *host) udpBound() bool {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/udp", h.holder.Process.Pid))
	c, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/udp6", h.holder.Process.Pid))
	return strings.Contains(string(b)+string(c), ":F100 ")
}

func (h *host) logTail() string {
	b, _ := os.ReadFile(h.logPath())
	s := string(b)
	for _, w := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: "} {
		if i := strings.Index(s, w); i >= 0 {
			return s[i:min(len(s), i+3500)]
		}
	}
	return s[max(0, len(s)-3000):]
}

// alive returns a violation if the daemon has ended.
func (h *host) alive() error {
	select {
	case <-h.done:
		h.mu.Lock()
		defer h.mu.Unlock()
		return core.Fail("daemon-ended", "the daemon ended (%s):\n%s", h.exit, h.logTail())
	default:
		return nil
	}
}

// kill ends the daemon at once.
func (h *host) kill() {
	if h.daemon != nil {
		h.daemon.Process.Kill()
		<-h.done
	}
}

func (l *lab) close() {
	for _, h := range l.hosts {
		h.kill()
		h.holder.Process.Kill()
		h.holder.Wait()
	}
	sh("ip", "link", "del", fmt.Sprintf("b%d", l.id))
	os.RemoveAll(l.dir)
}

// fds lists what the daemon has open of a kind.
func (h *host) fds(prefix string) []string {
	var v []string
	dir := fmt.Sprintf("/proc/%d/fd", h.daemon.Process.Pid)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if to, err := os.Readlink(filepath.Join(dir, e.Name())); err == nil && strings.HasPrefix(to, prefix) {
			v = append(v, to)
		}
	}
	return v
}

type outcome struct {
	out  string
	code int
	sig  string
	slow bool
	took time.Duration
}

const cliLimit = 90 * time.Second

// cli runs the command-line tool.
func (h *host) cli(dir string, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), cliLimit)
	defer cancel()
	c := h.command(dir, args...)
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	t := time.Now()
	must(c.Start())
	fin := make(chan error, 1)
	go func() { fin <- c.Wait() }()
	var o outcome
	select {
	case <-fin:
	case <-ctx.Done():
		o.slow = true
		c.Process.Kill()
		<-fin
	}
	o.took = time.Since(t)
	o.out = buf.String()
	ws := c.ProcessState.Sys().(syscall.WaitStatus)
	o.code = ws.ExitStatus()
	if ws.Signaled() {
		o.sig = ws.Signal().String()
	}
	return o
}

// listen opens a UDP socket on the host.
func (h *host) listen(p int) *net.UDPConn {
	var c *net.UDPConn
	var err error
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		runtime.LockOSThread() // never unlocked: the thread ends with the goroutine
		var ns *os.File
		if ns, err = os.Open(fmt.Sprintf("/proc/%d/ns/net", h.holder.Process.Pid)); err != nil {
			return
		}
		defer ns.Close()
		if _, _, e := syscall.RawSyscall(308 /* setns */, ns.Fd(), syscall.CLONE_NEWNET, 0); e != 0 {
			err = e
			return
		}
		// a command that is just being started holds a port that was closed a little longer
		for t := time.Now(); ; time.Sleep(10 * time.Millisecond) {
			if c, err = net.ListenUDP("udp4", &net.UDPAddr{Port: p}); err == nil || time.Since(t) > 20*time.Second {
				break
			}
		}
	}()
	<-fin
	if err != nil {
		panic(core.Harness("socket on a host: %v", err))
	}
	return c
}

func (h *host) addr() *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(h.ip[0], h.ip[1], h.ip[2], h.ip[3]), Port: port}
}

func (h *host) ipText() string {
	return fmt.Sprintf("%d.%d.%d.%d", h.ip[0], h.ip[1], h.ip[2], h.ip[3])
}
