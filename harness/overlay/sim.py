"""Writes the build overlay of the simulated checks: UDP sockets and interface addresses can be served by
the harness, and a goroutine waiting for a mutex counts as blocked, so that virtual time can advance.

usage: sim.py GOROOT DIR
"""
import json, os, re, sys

goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
replace = {}


def patch(path, *edits):
    text = open(os.path.join(src, path)).read()
    for old, new in edits:
        text, n = re.subn(old, new, text, count=1, flags=re.S)
        if n != 1:
            sys.exit("overlay: %s has no %r" % (path, old))
    to = os.path.join(out, path.replace("/", "_"))
    open(to, "w").write(text)
    replace[os.path.join(src, path)] = to


patch("runtime/runtime2.go", (r"(var isIdleInSynctest = \[len\(waitReasonStrings\)\]bool\{\n)",
                              r"\1\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n"))
patch("net/udpsock.go",
      (r"type UDPConn struct \{\n\tconn\n\}", "type UDPConn struct {\n\tconn\n\tsim SimConn\n}"),
      (r"&UDPConn\{conn\{fd\}\}", "&UDPConn{conn: conn{fd}}"))
patch("net/udpsock_posix.go",
      (r"(func \(c \*UDPConn\) readFrom\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\tn, from, err := c.sim.Read(b)\n\t\tif err != nil {\n\t\t\treturn 0, nil, err\n\t\t}\n\t\t*addr = *from\n\t\treturn n, addr, nil\n\t}\n"),
      (r"(func \(c \*UDPConn\) readFromAddrPort\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\tn, from, err := c.sim.Read(b)\n\t\tif err != nil {\n\t\t\treturn 0, netip.AddrPort{}, err\n\t\t}\n\t\treturn n, from.AddrPort(), nil\n\t}\n"),
      (r"(func \(c \*UDPConn\) readMsg\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\tn, from, err := c.sim.Read(b)\n\t\tif err != nil {\n\t\t\treturn 0, 0, 0, netip.AddrPort{}, err\n\t\t}\n\t\treturn n, 0, 0, from.AddrPort(), nil\n\t}\n"),
      (r"(func \(c \*UDPConn\) writeTo\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\treturn c.sim.Write(b, addr, true)\n\t}\n"),
      (r"(func \(c \*UDPConn\) writeToAddrPort\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\treturn c.sim.Write(b, UDPAddrFromAddrPort(addr), true)\n\t}\n"),
      (r"(func \(c \*UDPConn\) writeMsg\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\tn, err := c.sim.Write(b, addr, addr != nil)\n\t\treturn n, 0, err\n\t}\n"),
      (r"(func \(c \*UDPConn\) writeMsgAddrPort\([^\n]*\n)", r"\1\tif c.sim != nil {\n\t\tn, err := c.sim.Write(b, UDPAddrFromAddrPort(addr), addr.IsValid())\n\t\treturn n, 0, err\n\t}\n"),
      (r"(func \(sd \*sysDialer\) dialUDP\([^\n]*\n)", r"\1\tif SimDialUDP != nil {\n\t\ts, err := SimDialUDP(laddr, raddr)\n\t\treturn newSimConn(s, raddr, err)\n\t}\n"),
      (r"(func \(sl \*sysListener\) listenUDP\([^\n]*\n)", r"\1\tif SimListenUDP != nil {\n\t\ts, err := SimListenUDP(laddr)\n\t\treturn newSimConn(s, nil, err)\n\t}\n"))
patch("net/interface.go",
      (r"(func InterfaceAddrs\(\)[^\n]*\n)", r"\1\tif SimAddrs != nil {\n\t\treturn SimAddrs(), nil\n\t}\n"),
      (r"(func Interfaces\(\)[^\n]*\n)", r"\1\tif SimAddrs != nil {\n\t\treturn []Interface{{Index: 1, MTU: 1500, Name: `sim0`, Flags: FlagUp | FlagBroadcast | FlagRunning}}, nil\n\t}\n"),
      (r"(func \(ifi \*Interface\) Addrs\(\)[^\n]*\n)", r"\1\tif SimAddrs != nil {\n\t\treturn SimAddrs(), nil\n\t}\n"))

patch("os/proc.go",
      (r"func Exit\(code int\) \{\n", "// SimExit is told before the process ends.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n"))

extra = os.path.join(out, "net_sim.go")
open(extra, "w").write('''package net

import (
	"os"
	"syscall"
	"time"
)

// SimConn is a simulated UDP socket.
type SimConn interface {
	Read(b []byte) (int, *UDPAddr, error)
	Write(b []byte, to *UDPAddr, explicit bool) (int, error)
	Close() error
	SetDeadline(t time.Time, read, write bool) error
	Addrs() (local, remote *UDPAddr)
}

// Set by the harness.
var (
	SimDialUDP   func(laddr, raddr *UDPAddr) (SimConn, error)
	SimListenUDP func(laddr *UDPAddr) (SimConn, error)
	SimAddrs     func() []Addr
)

// ErrSimClosed is the error of operations on closed sockets.
var ErrSimClosed = errClosed

func newSimConn(s SimConn, raddr *UDPAddr, err error) (*UDPConn, error) {
	if err != nil {
		return nil, err
	}
	l, r := s.Addrs()
	fd := &netFD{family: syscall.AF_INET, sotype: syscall.SOCK_DGRAM, net: "udp", isConnected: r != nil}
	fd.laddr = l
	if r != nil {
		fd.raddr = r
	}
	return &UDPConn{conn: conn{fd}, sim: s}, nil
}

func (c *UDPConn) simErr(op string, err error) error {
	if err == nil {
		return nil
	}
	return &OpError{Op: op, Net: "udp", Source: c.fd.laddr, Addr: c.fd.raddr, Err: err}
}

func (c *UDPConn) Read(b []byte) (int, error) {
	if !c.ok() || c.sim == nil {
		return c.conn.Read(b)
	}
	n, _, err := c.sim.Read(b)
	return n, c.simErr("read", err)
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if !c.ok() || c.sim == nil {
		return c.conn.Write(b)
	}
	n, err := c.sim.Write(b, nil, false)
	return n, c.simErr("write", err)
}

func (c *UDPConn) Close() error {
	if !c.ok() || c.sim == nil {
		return c.conn.Close()
	}
	return c.simErr("close", c.sim.Close())
}

func (c *UDPConn) SetDeadline(t time.Time) error {
	if !c.ok() || c.sim == nil {
		return c.conn.SetDeadline(t)
	}
	return c.simErr("set", c.sim.SetDeadline(t, true, true))
}

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if !c.ok() || c.sim == nil {
		return c.conn.SetReadDeadline(t)
	}
	return c.simErr("set", c.sim.SetDeadline(t, true, false))
}

func (c *UDPConn) SetWriteDeadline(t time.Time) error {
	if !c.ok() || c.sim == nil {
		return c.conn.SetWriteDeadline(t)
	}
	return c.simErr("set", c.sim.SetDeadline(t, false, true))
}

func (c *UDPConn) SetReadBuffer(bytes int) error {
	if !c.ok() || c.sim == nil {
		return c.conn.SetReadBuffer(bytes)
	}
	return nil
}

func (c *UDPConn) SetWriteBuffer(bytes int) error {
	if !c.ok() || c.sim == nil {
		return c.conn.SetWriteBuffer(bytes)
	}
	return nil
}

func (c *UDPConn) File() (*os.File, error) {
	if !c.ok() || c.sim == nil {
		return c.conn.File()
	}
	return nil, syscall.ENOTSUP
}
''')
replace[os.path.join(src, "net/sim_overlay.go")] = extra
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"))
