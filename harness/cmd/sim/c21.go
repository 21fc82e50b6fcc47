package main

import (
	"crypto/sha1"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

type rlAsk struct {
	Remote int // 0 the real host; 1 silent; 2 no such address; 3 nobody listens; 4 garbage; 5 itself; 6 truncated; 7 another kind; 8 slow; 9 a scripted listing; 10 the real host, asked by a stranger
	File   int // -1 all, -2 unknown
	Raw    []byte
	Cut    int
	List   []wire.Entry
	ID     uint16 `json:",omitempty"`
	Edit   int    `json:",omitempty"` // what happens on the remote host before: 1 another file, 2 one fewer, 3 both, 4 a chunk arrives
	Wait   int    `json:",omitempty"` // ms before
}

type rlCase struct {
	Files []fileSpec // on the remote host
	Extra int        // many small downloads, to fill the datagram
	Len   int        // length of their names
	Huge  []rlHuge   `json:",omitempty"` // downloads of up to 4 TiB of which nothing is there yet
	Own   []fileSpec // on the asking host
	Asks  []rlAsk
	Once  bool // all at the same time
	Stall int  `json:",omitempty"` // downloads the remote host is busy with, from one that sends nothing
}

type rlHuge struct {
	Chunks, ChunkSize, Less int
}

func (h rlHuge) size() uint64 { return uint64(h.Chunks)*uint64(h.ChunkSize) - uint64(h.Less) }

func genName(t *rapid.T, i int) string {
	switch rapid.IntRange(0, 6).Draw(t, "namekind") {
	case 0:
		return fmt.Sprintf("%d", i) + strings.Repeat("x", 255-len(fmt.Sprintf("%d", i)))
	case 1:
		return pick(t, "odd", oddNames...) + fmt.Sprint(i)
	case 2:
		b := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "bytes")
		for k := range b {
			if b[k] == 0 || b[k] == '/' {
				b[k] = 'z'
			}
		}
		return "q" + string(b) + fmt.Sprint(i)
	default:
		return fmt.Sprintf("file%d", i)
	}
}

func genListings(t *rapid.T) rlCase {
	var c rlCase
	n := rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 40)).Draw(t, "files")
	file := func(i int) fileSpec {
		f := fileSpec{Seed: uint64(i)*77 + 5, Name: genName(t, i)}
		if rapid.Bool().Draw(t, "shared") {
			f.Size = rapid.IntRange(0, 300).Draw(t, "size")
		} else {
			f.Chunk = rapid.IntRange(1, 50).Draw(t, "chunk")
			k := rapid.IntRange(1, 10).Draw(t, "chunks")
			f.Size = (k-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
			for j := 0; j < k; j++ {
				if rapid.Bool().Draw(t, "held") {
					f.Held = append(f.Held, j)
				}
			}
		}
		return f
	}
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, file(i))
	}
	for i := rapid.IntRange(0, 2).Draw(t, "own"); i > 0; i-- {
		f := file(1000 + i)
		c.Own = append(c.Own, f)
	}
	distinct(c.Files)
	distinct(c.Own)
	if chance(t, "extra", 60) {
		c.Len = rapid.IntRange(180, 250).Draw(t, "len")
		c.Extra = 65507/(41+c.Len) + rapid.IntRange(-3, 40).Draw(t, "count")
	}
	if chance(t, "huge", 3) {
		for i := rapid.IntRange(1, 3).Draw(t, "huges"); i > 0; i-- {
			h := rlHuge{
				Chunks:    rapid.OneOf(rapid.IntRange(1, 65536), rapid.SampledFrom([]int{255, 256, 32767, 32768, 65535, 65536})).Draw(t, "chunks"),
				ChunkSize: rapid.OneOf(rapid.IntRange(1, 1<<26), rapid.SampledFrom([]int{1 << 16, 1 << 22, 1<<24 + 1, 1 << 25, 1 << 26})).Draw(t, "cs"),
			}
			h.Less = rapid.IntRange(0, h.ChunkSize-1).Draw(t, "less")
			c.Huge = append(c.Huge, h)
		}
	}
	for k := rapid.IntRange(1, 4).Draw(t, "asks"); k > 0; k-- {
		a := rlAsk{Remote: pick(t, "remote", 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10), File: -1}
		if rapid.Bool().Draw(t, "one") {
			a.File = rapid.IntRange(-2, n-1).Draw(t, "which")
		}
		switch a.Remote {
		case 4:
			a.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		case 6:
			a.Cut = rapid.IntRange(1, 60).Draw(t, "cut")
		case 7:
			a.Raw = wire.Msg{Kind: pick(t, "kind", 0, 1, 2, 4, 5, 6), Bounds: []uint16{1, 2}, Payload: []byte("hello")}.Encode()
		case 10:
			a.ID = rapid.Uint16().Draw(t, "id")
			a.Cut = rapid.IntRange(0, 300).Draw(t, "pad")
		case 9:
			for j := rapid.IntRange(0, 4).Draw(t, "entries"); j > 0; j-- {
				e := wire.Entry{Size: rapid.Uint64().Draw(t, "size") >> 1, Chunks: rapid.Uint32().Draw(t, "chunks") >> 1, ChunkSize: rapid.Uint32().Draw(t, "cs") >> 1, N: rapid.Uint32().Draw(t, "n") >> 1, Name: rapid.SliceOfN(rapid.Byte(), 0, 255).Draw(t, "name")}
				e.Hash[0] = rapid.Byte().Draw(t, "h")
				a.List = append(a.List, e)
			}
		}
		c.Asks = append(c.Asks, a)
	}
	c.Once = rapid.Bool().Draw(t, "once")
	if chance(t, "stalled", 8) {
		c.Stall = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(5, 40)).Draw(t, "stall")
	}
	for i := range c.Asks {
		if !c.Once && chance(t, "edited", 2) {
			c.Asks[i].Edit = rapid.IntRange(1, 4).Draw(t, "edit")
			c.Asks[i].Wait = pick(t, "wait", 0, 0, 10, 2000, 10000)
		}
	}
	return c
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runListings(c rlCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		start := func(i int) (*simnet.Daemon, error) {
			h := n.AddHost([4]byte{10, 0, 0, byte(i)})
			return n.StartDaemon(h, filepath.Join(root, fmt.Sprint("cat", i)), filepath.Join(root, fmt.Sprint("dl", i)))
		}
		remote, err := start(2)
		if err != nil {
			return err
		}
		for i, f := range c.Files {
			if err := place(remote, f, i, filepath.Join(root, "user")); err != nil {
				return err
			}
		}
		lazy := map[[20]byte]wire.Entry{}
		for i := 0; i < c.Extra; i++ {
			h := sha1.Sum([]byte(fmt.Sprint("extra", i)))
			name := fmt.Sprintf("%04d", i) + strings.Repeat("e", c.Len-4)
			if _, err := remote.Cat.RegisterDownload(uint64(i+1), 1, uint32(i+1), &common.Sha1Hash{Data: h}, name); err != nil {
				return core.Fail("setup", "registering failed: %v", err)
			}
		}
		for i, x := range c.Huge {
			h := sha1.Sum([]byte(fmt.Sprint("huge", i)))
			if _, err := remote.Cat.RegisterDownload(x.size(), uint32(x.Chunks), uint32(x.ChunkSize), &common.Sha1Hash{Data: h}, fmt.Sprint("huge", i)); err != nil {
				return core.Fail("setup", "registering %+v failed: %v", x, err)
			}
			o.LabelIf(x.size() >= 1<<32, "file-of-4-gib-or-more")
		}
		for i := 0; i < c.Stall; i++ {
			h := sha1.Sum([]byte(fmt.Sprint("stalled", i)))
			lazy[h] = wire.Entry{Size: 10, Chunks: 2, ChunkSize: 5, N: 2, Hash: h, Name: []byte(fmt.Sprint("stalled", i))}
		}
		if c.Stall > 0 {
			ph := n.AddHost([4]byte{10, 0, 0, 22})
			sock := ph.Listen(simnet.Port)
			ph.Go(func() {
				for {
					q, ok := sock.Recv(time.Hour)
					if !ok {
						return
					}
					m, ok := wire.Decode(q.Data)
					e, known := lazy[m.Hash]
					switch {
					case !ok || !known:
					case m.Kind == wire.DiscoverReq:
						sock.Send(simnet.Addr{IP: q.Src.IP, Port: simnet.Port}, wire.Msg{Kind: wire.DiscoverResp, ID: m.ID, Addr: ph.IP, Port: simnet.Port, Bounds: []uint16{0, 1}}.Encode())
					case m.Kind == wire.ListReq:
						sock.Send(q.Src, wire.Msg{Kind: wire.ListResp, ID: m.ID, Entries: []wire.Entry{e}}.Encode())
					}
				}
			})
			errs := make(chan error, c.Stall)
			for h := range lazy {
				go func() {
					e, b := remote.Call("get", 30*time.Second, func() error {
						return remote.M.Get(&cli.GetRequest{Sha1Hash: &common.Sha1Hash{Data: h}}, &cli.GetResponse{})
					})
					if b == nil && e != nil {
						b = core.Fail("setup", "get fails: %v", e)
					}
					errs <- b
				}()
			}
			for range lazy {
				if err := <-errs; err != nil {
					return err
				}
			}
			n.Sleep(2500 * time.Millisecond) // each of them waits for data now
			o.Label("busy-with-downloads")
		}
		asker, err := start(1)
		if err != nil {
			return err
		}
		for i, f := range c.Own {
			if err := place(asker, f, 100+i, filepath.Join(root, "own")); err != nil {
				return err
			}
		}
		local, e, b := listOf(remote)
		if b != nil {
			return b
		}
		if e != nil {
			return core.Fail("list", "the remote host's own listing fails: %v", e)
		}
		if len(local.Items) != len(c.Files)+c.Extra+len(c.Huge)+c.Stall {
			return core.Fail("list", "the host lists %d of its %d files", len(local.Items), len(c.Files)+c.Extra+len(c.Huge)+c.Stall)
		}
		ownBefore, e, b := listOf(asker)
		if b != nil || e != nil {
			return b
		}
		var byHash map[[20]byte]cli.ListItem
		var total, biggest int
		count := func() {
			byHash = map[[20]byte]cli.ListItem{}
			total, biggest = 5, 0
			for _, it := range local.Items {
				byHash[it.Sha1Hash] = it
				size := 41 + min(255, len(filepath.Base(it.FilePath)))
				total += size
				biggest = max(biggest, size)
			}
		}
		count()
		for i, x := range c.Huge {
			it := byHash[sha1.Sum([]byte(fmt.Sprint("huge", i)))]
			if uint64(it.SizeInBytes) != x.size() || it.ChunkCount != x.Chunks || it.ChunkSizeInBytes != x.ChunkSize || it.ChunksDownloaded != 0 {
				return core.Fail("list-huge", "a download of %d bytes in %d chunks of %d is listed as %+v", x.size(), x.Chunks, x.ChunkSize, it)
			}
		}
		silent := n.AddHost([4]byte{10, 0, 0, 20})
		silent.Listen(simnet.Port)
		n.AddHost([4]byte{10, 0, 0, 21}) // nobody listens

		gone := map[int]bool{}
		edit := func(a rlAsk, at int) error {
			_, b := remote.Call("a change", time.Minute, func() error {
				switch a.Edit {
				case 1, 3:
					p := filepath.Join(root, "user", fmt.Sprint("later", at))
					os.MkdirAll(filepath.Dir(p), 0755)
					if err := os.WriteFile(p, []byte(fmt.Sprint("later content ", at)), 0644); err != nil {
						panic(core.Harness("%v", err))
					}
					if _, err := remote.Cat.ShareFile(p); err != nil {
						return err
					}
				}
				switch a.Edit {
				case 2, 3:
					for i, f := range c.Files {
						if !gone[i] {
							gone[i] = true
							return remote.Cat.UnshareFile(hashOf(f.bytes()))
						}
					}
				case 4:
					for i, f := range c.Files {
						if gone[i] || f.Chunk == 0 {
							continue
						}
						for k := 0; k < f.chunks(); k++ {
							if h := sha1.Sum(f.bytes()); byHash[h].ChunksDownloaded < f.chunks() {
								if err := remote.Cat.SaveChunk(hashOf(f.bytes()), uint16(k), append([]byte(nil), chunkOf(f.bytes(), f.Chunk, k)...)); err != nil {
									return err
								}
							}
						}
						return nil
					}
				}
				return nil
			})
			if b != nil {
				return b
			}
			l, e, b := listOf(remote)
			if b != nil || e != nil {
				return core.Fail("list", "the remote host's own listing fails: %v %v", e, b)
			}
			o.LabelIf(sorted(l) != sorted(local), "changed-in-between")
			local = l
			count()
			return nil
		}
		ask := func(a rlAsk, at int) (err error) {
			req := &cli.ListRequest{Sha1Hash: (&common.Sha1Hash{}).Blank()}
			var want [20]byte
			switch {
			case a.File == -2:
				want = sha1.Sum([]byte("unknown"))
			case a.File >= 0:
				want = sha1.Sum(c.Files[a.File].bytes())
			}
			if a.File != -1 {
				req.Sha1Hash = &common.Sha1Hash{Data: want}
			}
			ip := net.IPv4(10, 0, 0, 2)
			script := func(f func(m wire.Msg) ([]byte, time.Duration)) {
				ip = net.IPv4(10, 0, 0, byte(50+at))
				h := n.AddHost([4]byte{10, 0, 0, byte(50 + at)})
				s := h.Listen(simnet.Port)
				h.Go(func() {
					for {
						q, ok := s.Recv(time.Hour)
						if !ok {
							return
						}
						if m, ok := wire.Decode(q.Data); ok && m.Kind == wire.ListReq {
							raw, w := f(m)
							time.AfterFunc(w, func() { s.Send(q.Src, raw) })
						}
					}
				})
			}
			mustFail := false
			switch a.Remote {
			case 1:
				ip, mustFail = net.IPv4(10, 0, 0, 20), true
			case 2:
				ip, mustFail = net.IPv4(10, 0, 0, 99), true
			case 3:
				ip, mustFail = net.IPv4(10, 0, 0, 21), true
			case 4:
				m, ok := wire.Decode(a.Raw)
				mustFail = !ok || m.Kind != wire.ListResp
				script(func(wire.Msg) ([]byte, time.Duration) { return a.Raw, 0 })
			case 5:
				ip = net.IPv4(10, 0, 0, 1)
			case 6:
				mustFail = true
				script(func(m wire.Msg) ([]byte, time.Duration) {
					raw := wire.Msg{Kind: wire.ListResp, ID: m.ID, Entries: []wire.Entry{{Size: 1, Chunks: 1, ChunkSize: 1, N: 1, Name: []byte("name of a file")}}}.Encode()
					return raw[:max(0, len(raw)-a.Cut)], 0
				})
			case 7:
				mustFail = true
				script(func(wire.Msg) ([]byte, time.Duration) { return a.Raw, 0 })
			case 8:
				mustFail = true
				script(func(m wire.Msg) ([]byte, time.Duration) {
					return wire.Msg{Kind: wire.ListResp, ID: m.ID}.Encode(), time.Minute
				})
			case 9:
				script(func(m wire.Msg) ([]byte, time.Duration) {
					return wire.Msg{Kind: wire.ListResp, ID: m.ID, Entries: a.List}.Encode(), ms(300)
				})
			}
			if a.Remote == 10 {
				h := n.AddHost([4]byte{10, 0, 0, byte(50 + at)})
				s := h.Listen(uint16(2000 + 13*at + int(a.ID)%10000))
				q := wire.Msg{Kind: wire.ListReq, ID: a.ID, Hash: req.Sha1Hash.Data}
				s.Send(simnet.Addr{IP: remote.Host.IP, Port: simnet.Port}, append(q.Encode(), make([]byte, a.Cut)...))
				p, ok := s.Recv(3 * time.Second)
				if !ok {
					return core.Fail("no-answer", "a listing request (id %d) was not answered", a.ID)
				}
				m, ok := wire.Decode(p.Data)
				if !ok || m.Kind != wire.ListResp || m.ID != a.ID || p.Src.Port != simnet.Port || p.Src.IP != remote.Host.IP || len(m.Encode()) != len(p.Data) {
					return core.Fail("answer", "listing request %d was answered by %d bytes from %v: kind %d, id %d", a.ID, len(p.Data), p.Src, m.Kind, m.ID)
				}
				for _, e := range m.Entries {
					l, ok := byHash[e.Hash]
					base := filepath.Base(l.FilePath)
					if !ok || e.Size != uint64(l.SizeInBytes) || e.Chunks != uint32(l.ChunkCount) || e.ChunkSize != uint32(l.ChunkSizeInBytes) || e.N != uint32(l.ChunksDownloaded) || string(e.Name) != base[:min(255, len(base))] {
						return core.Fail("answer-entry", "the host lists %+v, its answer says %+v", l, e)
					}
				}
				if k := len(m.Entries); a.File == -2 && k != 0 || a.File >= 0 && k != 1-btoi(gone[a.File]) || a.File == -1 && total <= 65507 && k != len(local.Items) {
					return core.Fail("answer-count", "the answer to a request for %d has %d files of %d", a.File, k, len(local.Items))
				}
				if x, more := s.Recv(time.Second); more {
					return core.Fail("answer-twice", "a listing request was answered twice: %x", x.Data)
				}
				o.Label("asked-by-a-stranger")
				return nil
			}
			req.IP = ip
			if at%2 == 1 {
				req.IP = ip.To4()
			}
			var r cli.ListResponse
			t0 := n.Now()
			e, b := asker.Call("remote list", 20*time.Second, func() error { return asker.M.List(req, &r) })
			if b != nil {
				return b
			}
			if d := n.Now() - t0; d > 6*time.Second {
				return core.Fail("slow", "listing a remote host took %v", d)
			}
			if mustFail {
				if e == nil {
					return core.Fail("no-error", "listing a host that gives no proper answer (kind %d) succeeded with %d files", a.Remote, len(r.Items))
				}
				o.Label("error-reported")
				return nil
			}
			if a.Remote == 4 {
				return nil
			}
			if e != nil {
				return core.Fail("error", "listing a host (kind %d) failed: %v", a.Remote, e)
			}
			seen := map[[20]byte]bool{}
			switch a.Remote {
			case 9:
				if len(r.Items) != len(a.List) {
					return core.Fail("entries", "a listing of %d files came out with %d", len(a.List), len(r.Items))
				}
				for i, x := range a.List {
					it := r.Items[i]
					if it.FilePath != string(x.Name) || it.SizeInBytes != int64(x.Size) || it.Sha1Hash != x.Hash || it.ChunkCount != int(x.Chunks) || it.ChunkSizeInBytes != int(x.ChunkSize) || it.ChunksDownloaded != int(x.N) {
						return core.Fail("entry", "the listed file %+v came out as %+v", x, it)
					}
				}
				o.Label("scripted-listing")
				return nil
			case 5:
				if a.File == -1 && len(r.Items) != len(ownBefore.Items) || a.File != -1 && len(r.Items) > 1 {
					return core.Fail("own", "listing itself by address shows %d files", len(r.Items))
				}
				return nil
			}
			size := 5
			for _, it := range r.Items {
				l, ok := byHash[it.Sha1Hash]
				if !ok || seen[it.Sha1Hash] {
					return core.Fail("stranger", "the listing shows %q (%x), which the host does not list (or only once)", it.FilePath, it.Sha1Hash)
				}
				seen[it.Sha1Hash] = true
				base := filepath.Base(l.FilePath)
				size += 41 + len(it.FilePath)
				if len(base) > 255 {
					base = base[:255]
				}
				l.FilePath = base
				if it != l {
					return core.Fail("entry", "the host lists %+v, remotely it is %+v", l, it)
				}
			}
			switch {
			case a.File == -2:
				if len(r.Items) > 0 {
					return core.Fail("unknown", "asking about an unknown hash lists %d files", len(r.Items))
				}
				o.Label("unknown-hash")
			case a.File >= 0:
				if gone[a.File] && len(r.Items) == 0 {
					return nil
				}
				if len(r.Items) != 1 || r.Items[0].Sha1Hash != want || gone[a.File] {
					return core.Fail("one", "asking about one file lists %d", len(r.Items))
				}
				o.Label("one-file")
			case total <= 65507:
				if len(r.Items) != len(local.Items) {
					return core.Fail("incomplete", "%d of %d files are listed although all fit", len(r.Items), len(local.Items))
				}
				o.Label("all-files")
			default:
				if size > 65507 || size+biggest <= 65507 {
					return core.Fail("fill", "the listing takes %d of 65507 bytes, although %d files are left out", size, len(local.Items)-len(r.Items))
				}
				o.Label("clipped")
			}
			return nil
		}
		if c.Once {
			errs := make(chan error, len(c.Asks))
			for i, a := range c.Asks {
				go func() {
					defer func() {
						if p := recover(); p != nil {
							errs <- fmt.Errorf("%v", p)
						}
					}()
					errs <- ask(a, i)
				}()
			}
			for range c.Asks {
				if err := <-errs; err != nil {
					bad("C21", err)
				}
			}
		} else {
			for i, a := range c.Asks {
				n.Sleep(ms(a.Wait))
				if a.Edit > 0 {
					if err := edit(a, i); err != nil {
						bad("C21", err)
						break
					}
				}
				bad("C21", ask(a, i))
			}
		}
		if err := n.Check(); err != nil {
			return err
		}
		// nobody is harmed
		if l, e, b := listOf(remote); b != nil || e != nil || len(l.Items) != len(local.Items) {
			return core.Fail("harm", "afterwards the remote host's own listing is different: %v %v", e, b)
		}
		l, e, b := listOf(asker)
		if b != nil || e != nil || sorted(l) != sorted(ownBefore) {
			return core.Fail("harm", "afterwards the asking host's own listing is different: %v %v", e, b)
		}
		for h := range lazy {
			if e, b := remote.Call("remove", time.Minute, func() error { return remote.Cat.UnshareFile(&common.Sha1Hash{Data: h}) }); e != nil || b != nil {
				return core.Fail("remove", "a download that makes no progress cannot be removed: %v %v", e, b)
			}
		}
		n.Sleep(time.Minute)
		bad("C23", leaks(asker, root))
		bad("C23", leaks(remote, root))
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C21", "C23"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

func init() {
	for _, prop := range []string{"C21", "C23"} {
		q, th := 3000, 60000
		if prop == "C23" {
			q, th = 300, 10000
		}
		core.Register(core.Sub{Prop: prop, Name: "listings", Quick: q, Thorough: th,
			Rule: "a daemon lists another with up to 40 (sometimes up to 330) files of odd names, all of them or one known or unknown hash, and hosts that are silent, unreachable, slow, answer garbage, truncated or other messages or scripted listings, one after the other, while its catalogue changes or while it waits for the data of up to 40 downloads, or at once; non-trivial when the real host has files or a scripted host answers"},
			genListings, func(c rlCase, o *core.Obs) error {
				for _, a := range c.Asks {
					if a.Remote == 0 && len(c.Files) > 0 || a.Remote >= 4 {
						o.NT()
					}
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runListings(c, o, root))
			})
	}
}
