package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// troubleOp is a command or a mishap.
type troubleOp struct {
	Kind int
	File int
	Wait int // ms before it
	N    int
}

type troubleCase struct {
	Files []fileSpec
	Ops   []troubleOp
	// system calls of the two daemons that fail, counted from the start
	SendA, SendB, DialA, DialB []int
	Errno                      int
}

const (
	opGet = iota
	opDiscover
	opListRemote
	opListAbsent
	opShareFolder
	opShareMissing
	opShareTwice
	opClean
	opRequest // a stranger asks B for a chunk
	opRequestA
	opCut    // B's file becomes shorter
	opRemove // B's file is removed
	opFolder // a folder takes the place of B's file
	opShareFifo
	opKinds
)

var errnos = []syscall.Errno{syscall.ENETUNREACH, syscall.EPERM, syscall.ENOBUFS, syscall.ECONNREFUSED, syscall.EHOSTUNREACH, syscall.ENETDOWN}

func genTrouble(t *rapid.T) troubleCase {
	var c troubleCase
	k := rapid.IntRange(1, 3).Draw(t, "files")
	for i := 0; i < k; i++ {
		f := fileSpec{Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			f.Size = rapid.OneOf(rapid.IntRange(1, 9000), rapid.SampledFrom([]int{1, 1000, 1024, 70000})).Draw(t, "size")
		default:
			f.Chunk = rapid.IntRange(1, 3000).Draw(t, "chunk")
			n := rapid.IntRange(1, 4).Draw(t, "chunks")
			f.Size = (n-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
			for j := 0; j < n; j++ {
				f.Held = append(f.Held, j)
			}
		}
		c.Files = append(c.Files, f)
	}
	distinct(c.Files)
	n := rapid.IntRange(1, 10).Draw(t, "ops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, troubleOp{
			Kind: rapid.OneOf(rapid.IntRange(0, opKinds-1), rapid.IntRange(0, 3)).Draw(t, "op"),
			File: rapid.IntRange(0, k-1).Draw(t, "file"),
			Wait: rapid.SampledFrom([]int{0, 0, 1, 100, 2000, 2500, 6000}).Draw(t, "wait"),
			N:    rapid.IntRange(0, 5).Draw(t, "n"),
		})
	}
	idx := func(name string) []int {
		if chance(t, name+"?", 2) {
			return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 60)), 1, 8).Draw(t, name)
		}
		return nil
	}
	c.SendA, c.SendB, c.DialA, c.DialB = idx("sendA"), idx("sendB"), idx("dialA"), idx("dialB")
	c.Errno = rapid.IntRange(0, len(errnos)-1).Draw(t, "errno")
	return c
}

func runTrouble(c troubleCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		start := func(i int) (*simnet.Daemon, error) {
			return n.StartDaemon(n.AddHost([4]byte{10, 0, 0, byte(i)}), filepath.Join(root, fmt.Sprint("cat", i)), filepath.Join(root, fmt.Sprint("dl", i)))
		}
		a, err := start(1)
		if err != nil {
			return err
		}
		b, err := start(2)
		if err != nil {
			return err
		}
		for i, f := range c.Files {
			if err := place(b, f, i, filepath.Join(root, "user2")); err != nil {
				return err
			}
		}
		own := filepath.Join(root, "user1")
		os.MkdirAll(own, 0755)
		ownFile := filepath.Join(own, "own")
		os.WriteFile(ownFile, []byte("own file"), 0644)
		if e, b := a.Call("share", time.Minute, func() error { return a.M.Share(&cli.ShareRequest{Filepath: ownFile}, &cli.ListItem{}) }); e != nil || b != nil {
			return core.Fail("setup", "share: %v %v", e, b)
		}
		var mu sync.Mutex
		failed := 0
		fails := func(at []int, e error) func() error {
			set := map[int]bool{}
			for _, i := range at {
				set[i] = true
			}
			k := -1
			return func() error {
				mu.Lock()
				defer mu.Unlock()
				if k++; set[k] {
					failed++
					return os.NewSyscallError("write", e)
				}
				return nil
			}
		}
		e := errnos[c.Errno]
		a.SendErr, b.SendErr = fails(c.SendA, e), fails(c.SendB, e)
		a.DialErr, b.DialErr = fails(c.DialA, syscall.EMFILE), fails(c.DialB, syscall.EMFILE)
		stranger := n.AddHost([4]byte{10, 0, 0, 77})
		sock := stranger.Listen(5000)

		bPath := func(i int) string {
			if c.Files[i].Chunk == 0 {
				return filepath.Join(root, "user2", c.Files[i].name(i))
			}
			return filepath.Join(root, "dl2", c.Files[i].name(i))
		}
		spoilt := map[int]bool{}
		wanted := map[int]bool{}
		for _, op := range c.Ops {
			n.Sleep(ms(op.Wait))
			f := c.Files[op.File]
			hash := hashOf(f.bytes())
			share := func(p string) (error, error) {
				return a.Call("share", time.Minute, func() error { return a.M.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) })
			}
			var b2 error
			switch op.Kind {
			case opGet:
				var e error
				e, b2 = a.Call("get", 30*time.Second, func() error { return a.M.Get(&cli.GetRequest{Sha1Hash: hash}, &cli.GetResponse{}) })
				if e == nil {
					wanted[op.File] = true
				}
			case opDiscover:
				_, b2 = a.Call("discovery", 15*time.Second, func() error {
					return a.M.Chims(&cli.ChimRequest{Sha1Hash: hash}, &cli.ChimResponseList{})
				})
			case opListRemote, opListAbsent:
				ip := []byte{10, 0, 0, 2}
				if op.Kind == opListAbsent {
					ip[3] = 200
				}
				h := hash
				if op.N%2 == 0 {
					h = (&common.Sha1Hash{}).Blank()
				}
				_, b2 = a.Call("list", 15*time.Second, func() error {
					return a.M.List(&cli.ListRequest{IP: ip, Sha1Hash: h}, &cli.ListResponse{})
				})
			case opShareFolder, opShareMissing, opShareTwice:
				p := map[int]string{opShareFolder: own, opShareMissing: filepath.Join(own, "none"), opShareTwice: ownFile}[op.Kind]
				for i := 0; i < 3 && b2 == nil; i++ {
					var e error
					e, b2 = share(p)
					if e == nil && b2 == nil {
						return core.Fail("share", "sharing %s succeeded", p)
					}
				}
			case opShareFifo:
				p := filepath.Join(own, "fifo")
				syscall.Mkfifo(p, 0644)
				var e error
				e, b2 = share(p)
				if e == nil && b2 == nil {
					return core.Fail("share", "sharing a named pipe succeeded")
				}
			case opClean:
				d := a
				if op.N%2 == 0 {
					d = b
				}
				_, b2 = d.Call("clean", time.Minute, func() error { return d.M.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) })
			case opRequest, opRequestA:
				to := simnet.Addr{IP: [4]byte{10, 0, 0, 2}, Port: simnet.Port}
				h := *hash
				if op.Kind == opRequestA {
					to.IP[3] = 1
					if op.N%2 == 0 {
						h = *hashOf([]byte("own file"))
					}
				}
				for i := 0; i < 3; i++ {
					sock.Send(to, wire.Msg{Kind: wire.Open, Hash: h.Data, Chunk: uint16(op.N), Window: uint16(op.N + i)}.Encode())
				}
			case opCut, opRemove, opFolder:
				p := bPath(op.File)
				spoilt[op.File] = true
				if op.Kind == opCut {
					os.Truncate(p, int64(op.N*f.Size/6))
				} else {
					os.RemoveAll(p)
					if op.Kind == opFolder {
						os.Mkdir(p, 0755)
					}
				}
			}
			if b2 != nil {
				return b2
			}
			// what cannot be read is not kept open; the garbage collector would hide it later
			n.Settle()
			for _, p := range openFiles(root) {
				if fi, err := os.Stat(filepath.Join(root, p)); err == nil && fi.IsDir() {
					bad("C23", core.Fail("leak-files", "the folder %q, which was to be read as a file, is still open", p))
				}
			}
		}
		n.Sleep(3 * time.Second)
		mu.Lock()
		o.LabelIf(failed > 0, "calls-failed")
		mu.Unlock()
		for _, d := range []*simnet.Daemon{a, b} {
			d.SendErr, d.DialErr = nil, nil
		}
		n.Sleep(2 * time.Minute)
		if err := n.Check(); err != nil {
			return err
		}
		l, e2, b2 := listOf(a)
		if b2 != nil {
			return b2
		}
		if e2 != nil {
			return core.Fail("list", "listing fails afterwards: %v", e2)
		}
		unfinished := false
		for i := range wanted {
			f := c.Files[i]
			data := f.bytes()
			present := false
			for _, it := range l.Items {
				if it.Sha1Hash != hashOf(data).Data {
					continue
				}
				present = true
				if it.ChunksDownloaded == it.ChunkCount {
					disk, err := os.ReadFile(it.FilePath)
					if err != nil || string(disk) != string(data) {
						bad("C16", core.Fail("content", "file %d is complete but its content is wrong (%v)", i, err))
					}
				} else if !spoilt[i] {
					bad("C25", core.Fail("incomplete", "two minutes after the last failure, the download has %d of %d chunks though a host has them all\n%s", it.ChunksDownloaded, it.ChunkCount, simnet.ClientStacks()))
				} else {
					unfinished = true
				}
			}
			if !present && !spoilt[i] && !cleaned(c.Ops) {
				bad("C25", core.Fail("gone", "a download that get accepted is no longer in the index"))
			}
		}
		// what can never be completed is given up for the leaks to be seen
		if unfinished {
			for i := range wanted {
				if spoilt[i] {
					h := hashOf(c.Files[i].bytes())
					a.Do(time.Minute, func() { a.Cat.UnshareFile(h) })
				}
			}
			n.Sleep(time.Minute)
		}
		o.LabelIf(len(wanted) > 0, "downloads")
		o.LabelIf(len(spoilt) > 0, "files-spoilt")
		bad("C23", leaks(a, root))
		bad("C23", leaks(b, root))
		if _, e, b2 := listOf(b); b2 != nil || e != nil {
			return core.Fail("list", "listing fails afterwards: %v %v", e, b2)
		}
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C23", "C25"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

func cleaned(ops []troubleOp) bool {
	for _, o := range ops {
		if o.Kind == opClean {
			return true
		}
	}
	return false
}

func init() {
	for _, prop := range []string{"C23", "C25"} {
		core.Register(core.Sub{Prop: prop, Name: "failures", Quick: 3000, Thorough: 60000,
			Rule: "commands, requests by strangers and mishaps to shared files between two daemons while chosen sends and socket openings fail; afterwards nothing may be left open or running, and accepted downloads complete; non-trivial with three or more operations or a failing call"},
			genTrouble, func(c troubleCase, o *core.Obs) error {
				if len(c.Ops) >= 3 || len(c.SendA)+len(c.SendB)+len(c.DialA)+len(c.DialB) > 0 {
					o.NT()
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runTrouble(c, o, root))
			})
	}
}
