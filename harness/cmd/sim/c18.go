package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"pgregory.net/rapid"
)

// announcement is what a peer says about one file.
type announcement struct {
	Content int    // bytes it really has
	Seed    uint64 // of the content
	Size    uint64
	Chunks  uint32
	CS      uint32
	N       uint32 // chunks it says it has
	Name    string // "$ROOT" stands for the scratch folder
	Wait    int    // ms before it is asked for
	Lie     bool   // the bytes it sends are not those of the hash
}

type announceCase struct {
	A    []announcement
	Once bool // all are asked for at the same time
	Own  bool // the host shares a file of its own, from the downloads folder
}

var plainNames = []string{"a.bin", "a.bin", "movie.mkv", "movie.mkv", "b b", ".hidden", "..x", "x..", "...", " ..", ".. ", "-rf", "~", "*", "index.json", "n\xffn", strings.Repeat("n", 255), "A.bin", "a.bin.", " a.bin", "own", "%2e%2e%2fx", "..\\x", "\n"}
var wrongNames = []string{"", ".", "..", "../evil", "../cat/evil", "../dl/x", "$ROOT/evil", "a/b", "../../x", "a/", "/", "x/../../y", "nul\x00byte", "./z", "..//q", "a.bin\x00", "\x00"}

func genAnnounce(t *rapid.T) announceCase {
	var c announceCase
	k := rapid.IntRange(1, 4).Draw(t, "files")
	for i := 0; i < k; i++ {
		cs := rapid.OneOf(rapid.IntRange(1, 64), rapid.SampledFrom([]int{1000, 1024, 3000, 4 << 20})).Draw(t, "cs")
		n := rapid.IntRange(1, 5).Draw(t, "chunks")
		a := announcement{CS: uint32(cs), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
		if cs > 10000 {
			n = 1
			a.Content = rapid.IntRange(1, 5000).Draw(t, "size")
		} else {
			a.Content = (n-1)*cs + rapid.IntRange(1, cs).Draw(t, "tail")
		}
		a.Size, a.Chunks, a.N = uint64(a.Content), uint32(n), uint32(n)
		a.Name = pick(t, "name", plainNames...)
		a.Wait = rapid.SampledFrom([]int{0, 0, 1, 1000, 5000, 30000, 30000}).Draw(t, "wait")
		a.Lie = chance(t, "lie", 8)
		switch rapid.IntRange(0, 7).Draw(t, "odd") {
		case 0, 1:
			a.Name = pick(t, "bad name", wrongNames...)
		case 2:
			a.Chunks = pick(t, "count", a.Chunks+1, a.Chunks-1, 0, 65536+a.Chunks, 1<<32-1, 1<<31)
		case 3:
			a.Size = pick(t, "size", 0, a.Size+uint64(cs), 1<<32+a.Size, 1<<63, 1<<64-1, 1<<63-1, 1<<48, uint64(cs)*65536+1, ^a.Size+1)
			if chance(t, "fitting", 2) {
				a.Chunks = uint32((a.Size-1)/uint64(cs) + 1)
			}
		case 4:
			a.CS = pick(t, "chunk size", 0, 1<<32-1, 1<<31, 1<<31-1, 1<<30, a.CS+uint32(a.Content), a.CS/2)
		case 5:
			a.N = pick(t, "held", 0, 1, a.N+1, 1<<32-1)
		}
		c.A = append(c.A, a)
	}
	c.Once = chance(t, "once", 3)
	c.Own = chance(t, "own", 3)
	return c
}

// verdict: 1 it must be accepted if nothing else has the name, -1 it must be refused, 0 either.
func (a announcement) verdict() int {
	if a.Name == "" || a.Name == "." || a.Name == ".." || strings.ContainsAny(a.Name, "/\x00") {
		return -1
	}
	if a.Size == 0 || a.CS == 0 || a.CS >= 1<<31 || a.Size >= 1<<63 {
		return -1
	}
	n := (a.Size-1)/uint64(a.CS) + 1
	if n != uint64(a.Chunks) || n > 65536 {
		return -1
	}
	if a.CS > shareChunk || a.Size > 1<<40 {
		return 0
	}
	return 1
}

func runAnnounce(c announceCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	// what may be reached from the downloads folder by a wrong name
	base := filepath.Join(root, "in")
	catDir, dlDir := filepath.Join(base, "cat"), filepath.Join(base, "dl")
	err := simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		d, err := n.StartDaemon(host, catDir, dlDir)
		if err != nil {
			return err
		}
		if c.Own {
			must(os.MkdirAll(dlDir, 0755))
			p := filepath.Join(dlDir, "own")
			must(os.WriteFile(p, []byte("own file"), 0644))
			if e, b := d.Call("share", time.Minute, func() error { return d.M.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) }); e != nil || b != nil {
				return core.Fail("setup", "share: %v %v", e, b)
			}
		}
		outside := func() string { // everything but the two folders
			var w []string
			filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
				if err != nil {
					return nil
				}
				if p == dlDir || p == catDir {
					return fs.SkipDir
				}
				w = append(w, fmt.Sprintf("%q", p))
				return nil
			})
			if _, err := os.Lstat(filepath.Join(catDir, "evil")); err == nil {
				w = append(w, "cat/evil")
			}
			return strings.Join(w, " ")
		}
		before := outside()
		data := make([][]byte, len(c.A))
		name := make([]string, len(c.A))
		index := map[[20]byte]int{}
		for i, a := range c.A {
			data[i] = make([]byte, a.Content)
			catmodel.Fill(data[i], a.Seed)
			for known := true; known; data[i][0]++ { // no two are the same
				_, known = index[hashOf(data[i]).Data]
			}
			data[i][0]--
			index[hashOf(data[i]).Data] = i
			name[i] = strings.ReplaceAll(a.Name, "$ROOT", root)
		}
		peer := n.AddHost([4]byte{10, 0, 0, 2})
		sock := peer.Listen(simnet.Port)
		peer.Go(func() {
			for {
				q, ok := sock.Recv(10 * time.Hour)
				if !ok {
					return
				}
				m, ok := wire.Decode(q.Data)
				if !ok {
					continue
				}
				i, known := index[m.Hash]
				if !known {
					continue
				}
				a := c.A[i]
				switch m.Kind {
				case wire.DiscoverReq:
					r := wire.Msg{Kind: wire.DiscoverResp, ID: m.ID, Addr: peer.IP, Port: simnet.Port, Bounds: []uint16{0, uint16(max(a.Chunks, 1) - 1)}}
					sock.Send(simnet.Addr{IP: q.Src.IP, Port: simnet.Port}, r.Encode())
				case wire.ListReq:
					e := wire.Entry{Size: a.Size, Chunks: a.Chunks, ChunkSize: a.CS, N: a.N, Hash: m.Hash, Name: []byte(name[i])}
					sock.Send(q.Src, wire.Msg{Kind: wire.ListResp, ID: m.ID, Entries: []wire.Entry{e}}.Encode())
				case wire.Open:
					if int64(m.Chunk)*int64(a.CS) >= int64(a.Content) || a.CS == 0 {
						continue
					}
					b := chunkOf(data[i], int(a.CS), int(m.Chunk))
					if a.Lie {
						b = append([]byte(nil), b...)
						b[0] ^= 1
					}
					for _, x := range (dlAttempt{Packet: 1024, Stop: -1}).packets(b, 1) {
						sock.Send(q.Src, x.encode())
					}
				}
			}
		})
		// how the catalogue looks, and what must be the case at any time
		type state struct{ cat, dl string }
		now := func() state { return state{catmodel.Tree(catDir), catmodel.Tree(dlDir)} }
		accepted := map[int]bool{}
		check := func() error {
			if t := outside(); t != before {
				bad("C18", core.Fail("outside", "something was written outside the downloads folder: %s instead of %s", t, before))
			}
			l, e, b := listOf(d)
			if b != nil {
				return b
			}
			if e != nil {
				bad("C18", core.Fail("list", "listing failed: %v", e))
				return nil
			}
			paths := map[string]bool{}
			for _, it := range l.Items {
				if paths[it.FilePath] {
					bad("C18", core.Fail("same-file", "two indexed files are at %q", it.FilePath))
				}
				paths[it.FilePath] = true
				i, known := index[it.Sha1Hash]
				if !known {
					if !c.Own || it.FilePath != filepath.Join(dlDir, "own") {
						bad("C18", core.Fail("unknown", "%q is in the index", it.FilePath))
					}
					continue
				}
				a := c.A[i]
				if a.verdict() < 0 {
					bad("C18", core.Fail("nonsense", "size=%d count=%d chunk size=%d name=%q is in the index", a.Size, a.Chunks, a.CS, name[i]))
				}
				if it.FilePath != filepath.Join(dlDir, name[i]) || uint64(it.SizeInBytes) != a.Size || uint64(it.ChunkCount) != uint64(a.Chunks) || uint64(it.ChunkSizeInBytes) != uint64(a.CS) {
					bad("C18", core.Fail("record", "size=%d count=%d chunk size=%d name=%q became size=%d count=%d chunk size=%d path=%q", a.Size, a.Chunks, a.CS, name[i], it.SizeInBytes, it.ChunkCount, it.ChunkSizeInBytes, it.FilePath))
				}
			}
			es, _ := os.ReadDir(dlDir)
			for _, e := range es {
				if !e.Type().IsRegular() {
					bad("C18", core.Fail("kind", "%q in the downloads folder is not a regular file", e.Name()))
				}
				hit := c.Own && e.Name() == "own"
				for i := range c.A {
					hit = hit || accepted[i] && name[i] == e.Name()
				}
				if !hit {
					bad("C18", core.Fail("stray", "nothing explains %q in the downloads folder", e.Name()))
				}
			}
			if c.Own {
				if b, _ := os.ReadFile(filepath.Join(dlDir, "own")); string(b) != "own file" {
					bad("C18", core.Fail("overwritten", "the shared file in the downloads folder was changed"))
				}
			}
			return nil
		}
		taken := func(i int) bool { // somebody may have the name
			for j := range c.A {
				if j != i && name[j] == name[i] && (accepted[j] || c.Once) {
					return true
				}
			}
			return c.Own && name[i] == "own"
		}
		get := func(i int) (error, error) {
			return d.Call("get", 30*time.Second, func() error {
				return d.M.Get(&cli.GetRequest{Sha1Hash: hashOf(data[i])}, &cli.GetResponse{})
			})
		}
		if c.Once {
			var wg sync.WaitGroup
			errs, bads := make([]error, len(c.A)), make([]error, len(c.A))
			for i := range c.A {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(ms(c.A[i].Wait))
					errs[i], bads[i] = get(i)
				}()
			}
			wg.Wait()
			for i := range c.A {
				if bads[i] != nil {
					return bads[i]
				}
				if errs[i] == nil {
					accepted[i] = true
				}
			}
			for i, a := range c.A {
				if accepted[i] || a.verdict() < 1 || c.Own && name[i] == "own" {
					continue
				}
				free := true
				for j := range c.A {
					free = free && (j == i || name[j] != name[i] || !accepted[j])
				}
				if free {
					bad("C18", core.Fail("refused", "size=%d count=%d chunk size=%d name=%q was refused: %v", a.Size, a.Chunks, a.CS, name[i], errs[i]))
				}
			}
			o.Label("at-once")
		} else {
			for i, a := range c.A {
				n.Sleep(ms(a.Wait))
				idle := true // earlier downloads may be writing
				for j := range accepted {
					idle = idle && c.A[j].Size == uint64(c.A[j].Content) && a.Wait >= 30000 && !c.A[j].Lie
				}
				was := now()
				e, b := get(i)
				if b != nil {
					return b
				}
				switch v := a.verdict(); {
				case e == nil:
					accepted[i] = true
					if v < 0 {
						bad("C18", core.Fail("nonsense", "size=%d count=%d chunk size=%d name=%q was accepted", a.Size, a.Chunks, a.CS, name[i]))
					}
				case v == 1 && !taken(i):
					bad("C18", core.Fail("refused", "size=%d count=%d chunk size=%d name=%q was refused: %v", a.Size, a.Chunks, a.CS, name[i], e))
				default:
					o.Label("refused")
					if idle && now() != was {
						bad("C18", core.Fail("trace", "size=%d count=%d chunk size=%d name=%q was refused but left something behind: %v", a.Size, a.Chunks, a.CS, name[i], now()))
					}
				}
				if b := check(); b != nil {
					return b
				}
			}
		}
		n.Sleep(time.Minute)
		if b := check(); b != nil {
			return b
		}
		l, e, b := listOf(d)
		if b != nil || e != nil {
			return core.Fail("list", "listing failed: %v %v", e, b)
		}
		for i := range accepted {
			a := c.A[i]
			if a.verdict() != 1 || a.Size != uint64(a.Content) || a.Lie {
				continue
			}
			hit := false
			for _, it := range l.Items {
				hit = hit || it.Sha1Hash == hashOf(data[i]).Data && it.ChunksDownloaded == it.ChunkCount
			}
			disk, _ := os.ReadFile(filepath.Join(dlDir, name[i]))
			if !hit || !bytes.Equal(disk, data[i]) {
				bad("C18", core.Fail("spoilt", "the download %q of %d bytes is not complete and right (complete: %v)", name[i], a.Size, hit))
			}
			o.Label("complete")
		}
		o.LabelIf(len(accepted) > 0, "accepted")
		// what cannot be completed is given up
		for i := range c.A {
			h := hashOf(data[i])
			d.Do(time.Minute, func() { d.Cat.UnshareFile(h) })
		}
		n.Sleep(time.Minute)
		return n.Check()
	})
	bad("C18", err)
	return found
}

func must(err error) {
	if err != nil {
		panic(core.Harness("%v", err))
	}
}

func init() {
	core.Register(core.Sub{Prop: "C18", Name: "announcements", Quick: 4000, Thorough: 80000,
		Rule: "a scripted peer announces up to 4 files with odd names, sizes, counts and chunk sizes, asked for in turn or at once, and sends them; every file written, the index and every refusal checked; non-trivial when an announcement is odd or two have one name"},
		genAnnounce, func(c announceCase, o *core.Obs) error {
			names := map[string]bool{}
			for _, a := range c.A {
				if a.verdict() < 1 || names[a.Name] || a.Name == "own" && c.Own {
					o.NT()
				}
				names[a.Name] = true
			}
			root := core.Scratch()
			defer os.RemoveAll(root)
			return as("C18", runAnnounce(c, o, root))
		})
}
