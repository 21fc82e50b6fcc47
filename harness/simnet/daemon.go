package simnet

import (
	"errors"
	"fmt"
	"net"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/flu"

	"flucheck/core"
)

// Daemon is a daemon on a host.
type Daemon struct {
	*Host
	Cat           *catalogue.Cat
	Srv           *flu.Server
	M             *cli.Methods
	CatDir, DlDir string
	Errors        int // messages that were answered with an error
}

// StartDaemon does what the daemon's main function does.
func (n *Net) StartDaemon(h *Host, catDir, dlDir string) (*Daemon, error) {
	d := &Daemon{Host: h, CatDir: catDir, DlDir: dlDir}
	n.mu.Lock()
	n.def = h
	n.mu.Unlock()
	var err error
	ok := h.Do(time.Minute, func() {
		if d.Cat, err = catalogue.NewCat(catDir, dlDir); err != nil {
			return
		}
		if err = d.Cat.Init(); err != nil {
			return
		}
		d.Srv = flu.NewServer(Port, d.Cat)
		d.M = cli.NewMethods(d.Cat, d.Srv)
		var c *net.UDPConn
		c, err = net.ListenUDP("udp", &net.UDPAddr{Port: Port})
		if err != nil {
			return
		}
		h.Go(func() { d.serve(c) })
	})
	if !ok {
		return nil, core.Fail("start-hangs", "the daemon does not start")
	}
	if err != nil {
		return nil, core.Fail("start", "the daemon does not start: %v", err)
	}
	n.Settle()
	return d, n.Check()
}

func (d *Daemon) serve(c *net.UDPConn) {
	buffer := make([]byte, 65535)
	for {
		k, from, err := c.ReadFromUDP(buffer)
		if err != nil {
			if errors.Is(err, net.ErrClosed) {
				return
			}
			d.net.Fault("the daemon's socket failed: " + err.Error())
			return
		}
		msg := append([]byte(nil), buffer[:k]...)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					d.net.Fault(fmt.Sprintf("datagram % x from %v: %v\n%s", head(msg), from, p, debug.Stack()))
				}
			}()
			if err := d.Srv.HandleMessage(msg, c, from); err != nil {
				d.net.mu.Lock()
				d.Errors++
				d.net.mu.Unlock()
			}
		}()
	}
}

func head(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// Call runs a command on the daemon. A command that takes longer than the limit is a violation.
func (d *Daemon) Call(what string, limit time.Duration, f func() error) (err error, bad error) {
	ok := d.Do(limit, func() { err = f() })
	if !ok {
		return nil, core.Fail("hang "+what, "%s did not return within %v of virtual time\n%s", what, limit, ClientStacks())
	}
	return err, d.net.Check()
}

var bubbleRe = regexp.MustCompile(`synctest bubble (\d+)`)

// ClientStacks returns the stacks of goroutines of this bubble that run code of the client.
func ClientStacks() string {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	parts := strings.Split(string(buf), "\n\n")
	own := bubbleRe.FindStringSubmatch(parts[0])
	var out []string
	for _, p := range parts[1:] {
		if m := bubbleRe.FindStringSubmatch(p); m == nil || own == nil || m[1] != own[1] {
			continue
		}
		if strings.Contains(p, "github.com/flu-network/client/") && !strings.Contains(p, "simnet.(*Daemon).serve(") {
			out = append(out, p)
		}
	}
	return strings.Join(out, "\n\n")
}

// ClientTasks counts them, without the receive loops.
func ClientTasks() int {
	s := ClientStacks()
	if s == "" {
		return 0
	}
	return strings.Count(s, "\n\n") + 1
}
