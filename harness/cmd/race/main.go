// Command race checks that concurrent use of one catalogue and server is linearizable and free of data races.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/wire"

	"github.com/anishathalye/porcupine"
	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/flu"
	"pgregory.net/rapid"
)

const port = 61696

// Op is one operation of a worker.
type Op struct {
	K string `json:"k"`
	C int    `json:"c,omitempty"`
	N int    `json:"n,omitempty"`
}

// Case is what several workers do at the same time.
type Case struct {
	Contents []catmodel.Content
	Parts    []int
	Start    []Op
	Workers  [][]Op
	Seed     uint64
	Slow     int
	Procs    int
}

const maxC = 3

// one is the state of one content.
type one struct {
	Kind byte // 0 absent, 1 shared, 2 download
	Held uint64
	File bool // a download has left its file
}

type state [maxC]one

type in struct {
	k    string
	c, n int
}

type out struct {
	ok     bool
	all    state // what a listing shows
	counts [maxC]int
	held   uint64
}

type world struct {
	c                            Case
	root, catDir, dlDir, userDir string
	data                         [][]byte
	hash                         [][20]byte
	cs                           []int
	cat                          *catalogue.Cat
	methods                      *cli.Methods
	srv                          *flu.Server
	srvLock                      sync.Mutex
	conn                         *net.UDPConn
	clock                        atomic.Int64
}

func (w *world) userPath(c int) string { return filepath.Join(w.userDir, fmt.Sprintf("u%d", c)) }
func (w *world) dlPath(c int) string   { return filepath.Join(w.dlDir, fmt.Sprintf("d%d", c)) }
func (w *world) parts(c int) int       { return (len(w.data[c]) + w.cs[c] - 1) / w.cs[c] }

func full(n int) uint64 { return 1<<n - 1 }

// bits is how many chunks a content has in a state.
func (w *world) bits(c int, s one) int {
	if s.Kind == 1 {
		return 1
	}
	return w.parts(c)
}

func (w *world) show(x *catalogue.IndexRecordExport) (int, one, error) {
	for c := range w.data {
		if w.hash[c] != x.Sha1Hash.Data {
			continue
		}
		s := one{Kind: 1}
		cs := catmodel.ShareChunk
		if x.FilePath == w.dlPath(c) {
			s.Kind, cs = 2, w.cs[c]
		} else if x.FilePath != w.userPath(c) {
			return 0, s, core.Fail("shown-path", "content %d is at %q", c, x.FilePath)
		}
		if n := (len(w.data[c]) + cs - 1) / cs; int(x.SizeInBytes) != len(w.data[c]) || x.ChunkSize != cs || x.Progress.Size() != n {
			return 0, s, core.Fail("shown", "content %d is shown as %+v", c, *x)
		}
		for i := 0; i < x.Progress.Size(); i++ {
			if x.Progress.Get(uint64(i)) {
				s.Held |= 1 << i
			}
		}
		return c, s, nil
	}
	return 0, one{}, core.Fail("shown-unknown", "%q is indexed", x.FilePath)
}

func (w *world) all(c *catalogue.Cat) (s state, err error) {
	list, err := c.ListFiles()
	if err != nil {
		return s, core.Fail("list", "%v", err)
	}
	for i := range list {
		c, x, err := w.show(&list[i])
		if err != nil {
			return s, err
		}
		if s[c].Kind != 0 {
			return s, core.Fail("listed-twice", "content %d", c)
		}
		s[c] = x
	}
	return s, nil
}

// worker is one of several users.
type worker struct {
	*world
	n    int
	ip   net.IP
	conn *net.UDPConn // where answers to discovery arrive
}

func (w *worker) talk(m wire.Msg, to *net.UDPAddr) error {
	return w.srv.HandleMessage(m.Encode(), w.world.conn, to)
}

// answer waits for a message.
func answer(c *net.UDPConn, kind int, id uint16) (wire.Msg, error) {
	b := make([]byte, 65535)
	for {
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		n, _, err := c.ReadFromUDP(b)
		if err != nil {
			return wire.Msg{}, core.Fail("no-answer", "no answer to a request that was handled without an error: %v", err)
		}
		if m, ok := wire.Decode(b[:n]); ok && m.Kind == kind && m.ID == id {
			return m, nil
		}
	}
}

func (w *worker) do(op Op) (in, out, error) {
	c := op.C % len(w.data)
	h := catmodel.H(w.hash[c])
	i := in{op.K, c, op.N}
	var o out
	id := uint16(w.clock.Add(1))
	switch op.K {
	case "share":
		var item cli.ListItem
		err := w.methods.Share(&cli.ShareRequest{Filepath: w.userPath(c)}, &item)
		o.ok = err == nil
		if want := (cli.ListItem{FilePath: w.userPath(c), SizeInBytes: int64(len(w.data[c])), Sha1Hash: w.hash[c], ChunkCount: 1, ChunkSizeInBytes: catmodel.ShareChunk, ChunksDownloaded: 1}); o.ok && item != want {
			return i, o, core.Fail("share-answer", "share answers %+v", item)
		}
	case "unshare":
		o.ok = w.cat.UnshareFile(h) == nil
	case "register":
		x, err := w.cat.RegisterDownload(uint64(len(w.data[c])), uint32(w.parts(c)), uint32(w.cs[c]), h, filepath.Base(w.dlPath(c)))
		o.ok = err == nil
		if o.ok {
			if _, s, err := w.show(x); err != nil || s != (one{Kind: 2}) {
				return i, o, core.Fail("register-answer", "%+v: %v", *x, err)
			}
		}
	case "save":
		i.n %= w.parts(c)
		b := append([]byte(nil), w.data[c][i.n*w.cs[c]:min(len(w.data[c]), (i.n+1)*w.cs[c])]...)
		o.ok = w.cat.SaveChunk(h, uint16(i.n), b) == nil
	case "list":
		var resp cli.ListResponse
		if err := w.methods.List(&cli.ListRequest{}, &resp); err != nil {
			return i, o, core.Fail("list", "%v", err)
		}
		for _, x := range resp.Items {
			for c := range w.data {
				if w.hash[c] == x.Sha1Hash {
					o.counts[c] = 1 + x.ChunksDownloaded
					if x.FilePath == w.dlPath(c) {
						o.all[c].Kind = 2
					} else {
						o.all[c].Kind = 1
					}
				}
			}
		}
	case "dump":
		var err error
		if o.all, err = w.all(w.cat); err != nil {
			return i, o, err
		}
	case "look":
		x, err := w.cat.Contains(h)
		if o.ok = err == nil; o.ok {
			if _, o.all[c], err = w.show(x); err != nil {
				return i, o, err
			}
		}
	case "sure": // the variant that panics on unknown files
		i.k = "look"
		var bad error
		var x *catalogue.IndexRecordExport
		if o.ok = w.known(func() { x = w.cat.Get(h) }) && x != nil; o.ok {
			_, o.all[c], bad = w.show(x)
		}
		if bad != nil {
			return i, o, bad
		}
	case "complete":
		o.ok = w.known(func() {
			if w.cat.FileComplete(h) {
				o.held = 1
			}
		})
	case "missing":
		o.ok = w.known(func() {
			for _, r := range w.cat.MissingChunks(h, 64) {
				for j := int(r.Start); j <= int(r.End) && j < 64; j++ {
					o.held |= 1 << j
				}
			}
		})
	case "rehash":
		x, err := w.cat.Rehash(h)
		if o.ok = err == nil; o.ok && x.Data == w.hash[c] {
			o.held = 1
		}
	case "read":
		i.n %= w.parts(c)
		r, err := w.cat.GetChunkReader(h, int64(i.n))
		if o.ok = err == nil; o.ok {
			b, err := io.ReadAll(&r.Reader)
			if r.Closer != nil {
				r.Closer.Close()
			}
			if err != nil || r.Hash.Data != sha1.Sum(b) {
				return i, o, core.Fail("read", "a chunk reads as %d bytes with another hash (%v)", len(b), err)
			}
			return i, o, w.which(i, &o, b)
		}
	case "fetch":
		i.n %= w.parts(c)
		return i, o, w.fetch(i, &o, w.hash[c], uint16(i.n))
	case "discover":
		if err := w.talk(wire.Msg{Kind: wire.DiscoverReq, ID: id, Hash: w.hash[c]}, &net.UDPAddr{IP: w.ip, Port: 40000}); err != nil {
			return i, o, core.Fail("discover", "%v", err)
		}
		m, err := answer(w.conn, wire.DiscoverResp, id)
		if err != nil {
			return i, o, err
		}
		for k := 0; k+1 < len(m.Bounds); k += 2 {
			for j := m.Bounds[k]; j <= m.Bounds[k+1] && j < 64; j++ {
				o.held |= 1 << j
			}
		}
	case "offer", "offers":
		h := w.hash[c]
		if op.K == "offers" {
			h = [20]byte(bytes.Repeat([]byte{255}, 20))
		}
		if err := w.talk(wire.Msg{Kind: wire.ListReq, ID: id, Hash: h}, w.conn.LocalAddr().(*net.UDPAddr)); err != nil {
			return i, o, core.Fail("listing", "%v", err)
		}
		m, err := answer(w.conn, wire.ListResp, id)
		if err != nil {
			return i, o, err
		}
		for _, e := range m.Entries {
			for c := range w.data {
				if w.hash[c] == e.Hash {
					o.counts[c] = 1 + int(e.N)
					if e.Chunks == uint32(w.parts(c)) {
						o.all[c].Kind = 2
					}
					if e.Chunks == 1 {
						o.all[c].Kind = 1
					}
				}
			}
		}
	case "remote": // a listing of this very host over the network
		ans, err := w.srv.ListFilesOnHost([4]byte{127, 0, 0, 1}, port, h)
		if err != nil { // too slow to be answered in time
			i.k = "nothing"
			return i, o, nil
		}
		i.k, o.ok = "offer", true
		for _, e := range ans.Files {
			for c := range w.data {
				if w.hash[c] == e.Sha1Hash.Data {
					o.counts[c] = 1 + int(e.ChunksDownloaded)
					if e.ChunkCount == uint32(w.parts(c)) {
						o.all[c].Kind = 2
					}
					if e.ChunkCount == 1 {
						o.all[c].Kind = 1
					}
				}
			}
		}
	case "chims", "get": // there is no network to ask
		i.k = "nothing"
		var err error
		if op.K == "get" {
			err = w.methods.Get(&cli.GetRequest{Sha1Hash: h}, &cli.GetResponse{})
		} else {
			err = w.methods.Chims(&cli.ChimRequest{Sha1Hash: h}, &cli.ChimResponseList{})
		}
		if err == nil {
			return i, o, core.Fail("no-error", "%s succeeds without a network", op.K)
		}
	case "clean":
		var resp cli.CleanResponse
		if err := w.methods.Clean(&cli.CleanRequest{}, &resp); err != nil {
			return i, o, core.Fail("clean", "%v", err)
		}
	default:
		panic(core.Harness("op %q", op.K))
	}
	return i, o, nil
}

// known runs f and says whether it did not panic because the file is unknown.
func (w *worker) known(f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if err, is := p.(error); is {
				if _, crash := p.(runtime.Error); !crash && err != nil {
					ok = false
					return
				}
			}
			panic(p)
		}
	}()
	f()
	return true
}

// which says what was read: a chunk of the download or the only chunk of the shared file.
func (w *worker) which(i in, o *out, b []byte) error {
	switch {
	case string(b) == string(w.data[i.c][i.n*w.cs[i.c]:min(len(w.data[i.c]), (i.n+1)*w.cs[i.c])]):
		o.held = 2
	case i.n == 0 && string(b) == string(w.data[i.c]):
		o.held = 1
	default:
		return core.Fail("bytes", "chunk %d of content %d comes as %d other bytes", i.n, i.c, len(b))
	}
	return nil
}

// fetch has a chunk sent.
func (w *worker) fetch(i in, o *out, hash [20]byte, chunk uint16) error {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: w.ip})
	if err != nil {
		return core.Harness("%v", err)
	}
	defer c.Close()
	me := c.LocalAddr().(*net.UDPAddr)
	if o.ok = w.talk(wire.Msg{Kind: wire.Open, Hash: hash, Chunk: chunk, Window: 5}, me) == nil; !o.ok {
		return nil
	}
	var got []byte
	var sum [20]byte
	size, have := -1, 0
	b := make([]byte, 2000)
	for size < 0 || have < size {
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		n, _, err := c.ReadFromUDP(b)
		if err != nil {
			return core.Fail("fetch-stalls", "a chunk that was granted stops after %d of %d bytes: %v", have, size, err)
		}
		m, ok := wire.Decode(b[:n])
		if !ok || m.Kind != wire.Data {
			return core.Fail("fetch-other", "a %d-byte message comes instead of data", n)
		}
		p := m.Payload
		if m.Offset == 0 && size < 0 {
			if len(p) < 24 {
				return core.Fail("fetch-first", "the first packet has %d bytes", len(p))
			}
			copy(sum[:], p)
			size = int(p[20])<<24 | int(p[21])<<16 | int(p[22])<<8 | int(p[23])
			p = p[24:]
			got = make([]byte, size)
		}
		if size < 0 || int(m.Offset)+len(p) > size {
			return core.Fail("fetch-bounds", "data at %d+%d of %d", m.Offset, len(p), size)
		}
		copy(got[m.Offset:], p)
		have += len(p)
		w.talk(wire.Msg{Kind: wire.Ack, Offset: m.Offset}, me)
	}
	if sum != sha1.Sum(got) {
		return core.Fail("fetch-hash", "the chunk sent has another hash than announced")
	}
	return w.which(i, o, got)
}

func (w *world) model() porcupine.Model {
	m := porcupine.NondeterministicModel{
		Init: func() []any { return []any{state{}} },
		Step: func(st, input, output any) []any {
			s, i, o := st.(state), input.(in), output.(out)
			x := s[i.c]
			same := []any{s}
			set := func(y one) []any { s[i.c] = y; return []any{s} }
			switch i.k {
			case "share":
				if o.ok != (x.Kind == 0) {
					return nil
				}
				if o.ok {
					return set(one{Kind: 1, Held: 1, File: x.File})
				}
			case "unshare":
				if o.ok != (x.Kind != 0) {
					return nil
				}
				if o.ok {
					return set(one{File: x.File})
				}
			case "register":
				if o.ok != (x.Kind == 0) {
					return nil
				}
				if o.ok {
					return set(one{Kind: 2, File: x.File})
				}
			case "save":
				if o.ok != (x.Kind == 2) {
					return nil
				}
				if o.ok {
					return set(one{Kind: 2, Held: x.Held | 1<<i.n, File: true})
				}
			case "look":
				if o.ok != (x.Kind != 0) || o.ok && (o.all[i.c].Kind != x.Kind || o.all[i.c].Held != x.Held) {
					return nil
				}
			case "complete":
				if o.ok != (x.Kind != 0) || o.ok && (o.held == 1) != (x.Held == full(w.bits(i.c, x))) {
					return nil
				}
			case "missing":
				if o.ok != (x.Kind != 0) || o.ok && o.held != full(w.bits(i.c, x))&^x.Held {
					return nil
				}
			case "rehash": // looks the file up and reads it afterwards
				if o.ok && x.Kind == 0 || x.Kind == 1 && o.held != 1 {
					return nil
				}
			case "dump":
				for c := range w.data {
					if o.all[c].Kind != s[c].Kind || o.all[c].Held != s[c].Held {
						return nil
					}
				}
			case "list", "offers", "offer":
				for c := range w.data {
					if i.k == "offer" && c != i.c {
						continue
					}
					n := 0
					if s[c].Kind != 0 {
						for n = 1; s[c].Held != 0; s[c].Held &= s[c].Held - 1 {
							n++
						}
					}
					if o.counts[c] != n || o.all[c].Kind != s[c].Kind && (i.k == "list" || w.parts(c) > 1) {
						return nil
					}
				}
			case "discover":
				if o.held != x.Held {
					return nil
				}
			case "read", "fetch":
				if o.ok != (x.Held>>i.n&1 == 1) {
					return nil
				}
				if o.ok && w.parts(i.c) > 1 && (o.held == 1) != (x.Kind == 1) {
					return nil
				}
			case "cleaned": // a download that has no file yet counts as missing
				if x.Kind == 2 && !x.File {
					return []any{set(one{})[0], st}
				}
			}
			return same
		},
		Equal: func(a, b any) bool { return a.(state) == b.(state) },
		DescribeOperation: func(input, output any) string {
			return fmt.Sprintf("%v -> %+v", input, output)
		},
	}
	return m.ToModel()
}

var failed atomic.Bool

func exec1(c Case, o *core.Obs) error {
	reps := 1
	if core.Replaying() {
		reps = 400
	} else if failed.Load() {
		reps = 20
	}
	deadline := time.Now().Add(20 * time.Second)
	for r := 0; r < reps && (r == 0 || time.Now().Before(deadline)); r++ {
		if err := once(c, o, uint64(r)); err != nil {
			failed.Store(true)
			return err
		}
	}
	return nil
}

func once(c Case, o *core.Obs, rep uint64) error {
	w := &world{c: c, root: core.Scratch()}
	defer os.RemoveAll(w.root)
	races := raceErrors()
	w.catDir, w.dlDir, w.userDir = filepath.Join(w.root, "cat"), filepath.Join(w.root, "dl"), filepath.Join(w.root, "user")
	if err := os.MkdirAll(w.userDir, 0755); err != nil {
		return core.Harness("%v", err)
	}
	for i, x := range c.Contents {
		x.Seed = uint64(i)*1000 + x.Seed%1000
		b := x.Bytes()
		w.data = append(w.data, b)
		w.hash = append(w.hash, sha1.Sum(b))
		w.cs = append(w.cs, max(1, (len(b)+c.Parts[i]-1)/c.Parts[i]))
		if err := os.WriteFile(w.userPath(i), b, 0644); err != nil {
			return core.Harness("%v", err)
		}
	}
	var err error
	if w.conn, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}); err != nil {
		return core.Harness("%v", err)
	}
	var serving sync.WaitGroup
	defer func() { w.conn.Close(); serving.Wait() }()
	open := func() error {
		if w.cat, err = catalogue.NewCat(w.catDir, w.dlDir); err != nil {
			return core.Fail("open", "%v", err)
		}
		if err = w.cat.Init(); err != nil {
			return core.Fail("open", "%v", err)
		}
		w.srvLock.Lock()
		w.srv = flu.NewServer(port, w.cat)
		w.srvLock.Unlock()
		w.methods = cli.NewMethods(w.cat, w.srv)
		return nil
	}
	if err := open(); err != nil {
		return err
	}

	serving.Add(1)
	srv := &w.srv
	go func() {
		defer serving.Done()
		b := make([]byte, 65535)
		for {
			n, from, err := w.conn.ReadFromUDP(b)
			if err != nil {
				return
			}
			msg := append([]byte(nil), b[:n]...)
			w.srvLock.Lock()
			s := *srv
			w.srvLock.Unlock()
			serving.Add(1)
			go func() { defer serving.Done(); s.HandleMessage(msg, w.conn, from) }()
		}
	}()

	var mu sync.Mutex
	var history []porcupine.Operation
	record := func(id int, i in, out out, from, to int64) {
		mu.Lock()
		defer mu.Unlock()
		history = append(history, porcupine.Operation{ClientId: id, Input: i, Call: from, Output: out, Return: to})
	}
	step := func(wk *worker, op Op) (bad error) {
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(*core.HarnessError); ok {
					bad = h
					return
				}
				stack := make([]byte, 4000)
				stack = stack[:runtime.Stack(stack, false)]
				bad = core.Fail("panic"+core.PanicSite(string(stack)), "%+v: %v\n%s", op, p, stack)
			}
		}()
		from := w.clock.Add(1)
		i, out, err := wk.do(op)
		to := w.clock.Add(1)
		if err != nil {
			return err
		}
		if op.K == "clean" {
			for c := range w.data {
				record(wk.n*10+c, in{k: "cleaned", c: c}, out, from, to)
			}
		} else {
			record(wk.n*10, i, out, from, to)
		}
		return nil
	}
	main := &worker{world: w, n: 50, ip: net.IPv4(127, 0, 0, 50)}
	for _, op := range c.Start {
		if op.K == "reopen" {
			if err := open(); err != nil {
				return err
			}
			continue
		}
		if err := step(main, op); err != nil {
			return err
		}
	}

	old := runtime.GOMAXPROCS(c.Procs)
	var wg sync.WaitGroup
	errs := make([]error, len(c.Workers))
	begin := make(chan struct{})
	t := &tab{}
	var conns []*net.UDPConn
	for n, ops := range c.Workers {
		wk := &worker{world: w, n: n, ip: net.IPv4(127, 0, 0, byte(10+n))}
		if wk.conn, err = net.ListenUDP("udp", &net.UDPAddr{IP: wk.ip, Port: port}); err != nil {
			return core.Harness("%v", err)
		}
		conns = append(conns, wk.conn)
		wg.Add(1)
		go func() {
			defer wg.Done()
			labelled(t, n, c.Seed+uint64(n)*77+rep*1000003, uint64(c.Slow), func() {
				<-begin
				for _, op := range ops {
					if errs[n] = step(wk, op); errs[n] != nil {
						return
					}
				}
			})
		}()
	}
	table.Store(t)
	close(begin)
	wg.Wait()
	table.Store(&tab{})
	runtime.GOMAXPROCS(old)
	for _, c := range conns {
		c.Close()
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if err := step(main, Op{K: "dump"}); err != nil {
		return err
	}
	last := history[len(history)-1].Output.(out).all
	w.labels(o, history)
	switch porcupine.CheckOperationsTimeout(w.model(), history, 15*time.Second) {
	case porcupine.Illegal:
		return core.Fail("not-linearizable", "no order of these operations explains what they answered (client, from-to, operation -> answer):\n%s", describe(history))
	case porcupine.Unknown:
		o.Label("undecided-in-time")
	}
	// what was saved must be what is shown
	c2, err := catalogue.NewCat(w.catDir, w.dlDir)
	if err == nil {
		err = c2.Init()
	}
	if err != nil {
		return core.Fail("reopen", "%v", err)
	}
	again, err := w.all(c2)
	if err != nil {
		return err
	}
	if again != last {
		return core.Fail("lost-update", "the catalogue shows %+v, but %+v once it is opened again", last, again)
	}
	for c, s := range last {
		for i := 0; i < 64 && s.Kind == 2; i++ {
			if s.Held>>i&1 == 0 {
				continue
			}
			r, err := c2.GetChunkReader(catmodel.H(w.hash[c]), int64(i))
			if err != nil {
				return core.Fail("held", "chunk %d of content %d: %v", i, c, err)
			}
			b, _ := io.ReadAll(&r.Reader)
			if r.Closer != nil {
				r.Closer.Close()
			}
			if string(b) != string(w.data[c][i*w.cs[c]:min(len(w.data[c]), (i+1)*w.cs[c])]) {
				return core.Fail("held", "chunk %d of content %d has other bytes", i, c)
			}
		}
	}
	if raceErrors() > races {
		return core.Fail("data-race", "%s", raceText())
	}
	return nil
}

// labels says how much the operations overlapped.
func (w *world) labels(o *core.Obs, h []porcupine.Operation) {
	over := 0
	for i, a := range h {
		for _, b := range h[:i] {
			if a.ClientId/10 != b.ClientId/10 && a.Input.(in).c == b.Input.(in).c && a.Call < b.Return && b.Call < a.Return {
				over++
			}
		}
	}
	if over > 0 {
		o.NT()
	}
	o.LabelIf(over > 10, "more-than-ten-overlaps")
	for _, a := range h {
		if x := a.Output.(out); x.ok {
			o.Label(a.Input.(in).k + "-done")
		}
	}
}

func describe(h []porcupine.Operation) string {
	var b strings.Builder
	for _, x := range h {
		fmt.Fprintf(&b, "%d %d-%d %+v -> %+v\n", x.ClientId/10, x.Call, x.Return, x.Input, x.Output)
	}
	return b.String()
}

func gen(t *rapid.T) Case {
	small := func(nm string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, nm) }
	var c Case
	nc := small("contents", 1, maxC)
	for i := 0; i < nc; i++ {
		c.Contents = append(c.Contents, catmodel.Content{Size: small("size", 200, rapid.SampledFrom([]int{300, 3000, 12000}).Draw(t, "max")), Seed: uint64(small("seed", 0, 99))})
		c.Parts = append(c.Parts, small("parts", 2, 9))
	}
	kinds := []string{"share", "share", "share", "unshare", "unshare", "register", "register", "save", "save", "save", "save", "save", "list", "dump", "look", "read", "fetch", "discover", "offer", "offers", "clean", "remote", "remote", "chims", "get", "sure", "complete", "missing", "missing", "rehash"}
	op := func() Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), C: small("c", 0, nc-1), N: small("n", 0, 8)}
	}
	for i := small("start", 0, 6); i > 0; i-- {
		o := op()
		if o.K == "fetch" || o.K == "discover" || o.K == "offer" || o.K == "offers" || o.K == "clean" || o.K == "remote" || o.K == "chims" || o.K == "get" {
			o.K = "reopen"
		}
		c.Start = append(c.Start, o)
	}
	for i := small("workers", 2, 5); i > 0; i-- {
		var ops []Op
		for j := small("ops", 1, 6); j > 0; j-- {
			ops = append(ops, op())
		}
		c.Workers = append(c.Workers, ops)
	}
	c.Seed = uint64(small("pace", 0, 1<<30))
	c.Slow = rapid.SampledFrom([]int{0, 8, 40, 120, 250}).Draw(t, "slow")
	c.Procs = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
	return c
}

func prepare() {
	if os.Getenv("FLU_PREPARED") == "" {
		for _, a := range []string{"link set lo up", "link add e0 type veth peer name e1", "addr add 10.7.0.1/24 dev e0", "link set e0 up"} {
			if b, err := exec.Command("ip", strings.Fields(a)...).CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "ip %s: %s\n", a, b)
				os.Exit(3)
			}
		}
		dir := os.Getenv("FLU_SCRATCH")
		if dir == "" {
			dir = "/tmp"
		}
		log := filepath.Join(dir, fmt.Sprintf("race-%d", os.Getpid()))
		env := append(os.Environ(), "FLU_PREPARED="+log, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+log)
		if err := syscall.Exec("/proc/self/exe", os.Args, env); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
}

func raceText() string {
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("FLU_PREPARED"), os.Getpid()))
	if len(b) > 5000 {
		b = b[len(b)-5000:]
	}
	return string(b)
}

func main() {
	prepare()
	hooks()
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		core.Out = os.Stdout
		os.Stdout = null
	}
	core.Register(core.Sub{Prop: "C22", Name: "linearizable", Quick: 4000, Thorough: 150000, Watchdog: 90 * time.Second,
		Rule: "two to five workers share, unshare, register, save, list, look up, read, upload, answer discoveries and listings, list over the network, ask a network that is not there, and clean at the same time, slowed down at random at locks and file-system calls, under the race detector; the answers must be those of some order of the operations, and what is on disk at the end what is shown; non-trivial when operations on the same content overlap"},
		gen, exec1)
	core.Main()
}
