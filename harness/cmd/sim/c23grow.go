package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"pgregory.net/rapid"
)

// growCase is a round of activity that is repeated: what a daemon keeps must not grow with it.
type growCase struct {
	Kinds []int // of what is done in every round
	N     int   // how often each
	Size  int   // of the file that is sent
	Chunk int   // of the download that is held
	Names int   // length of file names
	Seed  uint64
	Deep  int `json:",omitempty"` // of a file of 65536 chunks this one is held
}

const (
	gUpload       = iota // a peer on a new port gets a chunk
	gUploadSame          // the same port gets one chunk after the other
	gUploadQuiet         // the peer goes away
	gUploadAgain         // the peer changes its mind
	gRefused             // a chunk that cannot be sent
	gAcks                // for nothing
	gJunk                // no message at all
	gLate                // answers nobody waits for
	gAsked               // discovery requests of peers
	gListed              // listing requests of peers
	gDiscover            // own discovery with an answer
	gList                // own listing of the peer
	gListSilent          // of one that does not answer
	gGetNone             // get of what no one has
	gGetAgain            // get of what is complete
	gDownload            // get, complete, removed, clean
	gShareBad            // share of what cannot be shared
	gShareClean          // share, removed, clean
	gDiscoverMany        // discoveries at once, with answers that come too late as well
	gKinds
)

func genGrow(t *rapid.T) growCase {
	c := growCase{
		Kinds: rapid.SliceOfNDistinct(rapid.IntRange(0, gKinds-1), 1, 4, rapid.ID[int]).Draw(t, "kinds"),
		N:     rapid.IntRange(40, 120).Draw(t, "n"),
		Size:  rapid.OneOf(rapid.IntRange(1, 900), rapid.IntRange(1, 5000)).Draw(t, "size"),
		Chunk: rapid.IntRange(1, 2000).Draw(t, "chunk"),
		Names: rapid.IntRange(1, 100).Draw(t, "names"),
		Seed:  rapid.Uint64Range(1, 1<<40).Draw(t, "seed"),
	}
	if chance(t, "deep", 3) {
		c.Chunk = 1
		c.Deep = pick(t, "deepchunk", 2, 255, 256, 32767, 32768, 65534, 65535, 65535)
	}
	return c
}

func heap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runGrow(c growCase, o *core.Obs) error {
	root := core.Scratch()
	defer os.RemoveAll(root)
	return simnet.Run(func(n *simnet.Net) error {
		d, err := n.StartDaemon(n.AddHost([4]byte{10, 0, 0, 1}), filepath.Join(root, "cat1"), filepath.Join(root, "dl1"))
		if err != nil {
			return err
		}
		f := fileSpec{Size: c.Size, Seed: c.Seed}
		g := fileSpec{Size: c.Size + 1, Seed: c.Seed + 1, Chunk: c.Chunk}
		g.Held = []int{c.Deep}
		if c.Deep > 0 {
			g.Size = 1 << 16
			o.Label("many-chunks")
		}
		for i, x := range []fileSpec{f, g} {
			if err := place(d, x, i, filepath.Join(root, "user1")); err != nil {
				return err
			}
		}
		data := f.bytes()
		hash := hashOf(data)
		elsewhere := fileSpec{Size: c.Size + 2, Seed: c.Seed + 2}
		download := false
		for _, k := range c.Kinds {
			download = download || k == gDownload
		}
		if download {
			b, err := n.StartDaemon(n.AddHost([4]byte{10, 0, 0, 2}), filepath.Join(root, "cat2"), filepath.Join(root, "dl2"))
			if err != nil {
				return err
			}
			if err := place(b, elsewhere, 2, filepath.Join(root, "user2")); err != nil {
				return err
			}
		}
		to := simnet.Addr{IP: d.IP, Port: simnet.Port}
		peer := n.AddHost([4]byte{10, 0, 0, 3})
		main := peer.Listen(simnet.Port)
		// the peer's own daemon answers one discovery after the other
		answers := 0
		go func() {
			for {
				p, ok := main.Recv(1000 * time.Hour)
				if !ok {
					return
				}
				m, ok := wire.Decode(p.Data)
				if !ok {
					continue
				}
				switch m.Kind {
				case wire.DiscoverReq:
					r := wire.Msg{Kind: wire.DiscoverResp, ID: m.ID, Addr: peer.IP, Port: simnet.Port}
					for i := 0; i < answers; i++ {
						main.Send(to, r.Encode())
					}
					time.Sleep(2100 * time.Millisecond)
					main.Send(to, r.Encode())
				case wire.ListReq:
					main.Send(p.Src, wire.Msg{Kind: wire.ListResp, ID: m.ID, Entries: []wire.Entry{{Size: 10, Chunks: 1, ChunkSize: 10, N: 1, Name: make([]byte, c.Names)}}}.Encode())
				}
			}
		}()
		port := uint16(5000)
		fetch := func(s *simnet.Sock, x fileSpec, chunk int, finish bool) {
			h := hashOf(x.bytes())
			s.Send(to, wire.Msg{Kind: wire.Open, Hash: h.Data, Chunk: uint16(chunk), Window: 5}.Encode())
			for {
				p, ok := s.Recv(100 * time.Millisecond)
				if !ok {
					return
				}
				if !finish {
					continue
				}
				if m, ok := wire.Decode(p.Data); ok && m.Kind == wire.Data {
					s.Send(to, wire.Msg{Kind: wire.Ack, Offset: m.Offset}.Encode())
				}
			}
		}
		call := func(what string, f func() error) error {
			_, bad := d.Call(what, time.Minute, f)
			return bad
		}
		user := filepath.Join(root, "user")
		os.MkdirAll(user, 0755)
		once := func(kind, i int) error {
			fresh := func() *simnet.Sock {
				port++
				return peer.Listen(port)
			}
			switch kind {
			case gUpload:
				s := fresh()
				fetch(s, []fileSpec{f, g}[i%2], i%2*c.Deep, true)
				s.Close()
			case gUploadSame:
				s := peer.Listen(4000)
				fetch(s, []fileSpec{f, g}[i%2], i%2*c.Deep, true)
				s.Close()
			case gUploadQuiet:
				s := fresh()
				fetch(s, []fileSpec{f, g}[i%2], i%2*c.Deep, false)
				s.Close()
			case gUploadAgain:
				s := fresh()
				s.Send(to, wire.Msg{Kind: wire.Open, Hash: hash.Data, Window: 1}.Encode())
				s.Send(to, wire.Msg{Kind: wire.Open, Hash: hash.Data, Window: 3}.Encode())
				fetch(s, g, c.Deep, true)
				fetch(s, f, 0, true)
				s.Close()
			case gRefused:
				s := fresh()
				fetch(s, elsewhere, 0, true)
				fetch(s, g, 1, true)
				fetch(s, f, 60000, true)
				s.Close()
			case gAcks:
				s := fresh()
				for k := 0; k < 3; k++ {
					s.Send(to, wire.Msg{Kind: wire.Ack, Offset: uint32(k * 100)}.Encode())
				}
				s.Close()
			case gJunk:
				s := fresh()
				s.Send(to, []byte{byte(i), byte(port), byte(port >> 8)})
				s.Send(to, nil)
				s.Close()
			case gLate:
				s := fresh()
				s.Send(to, wire.Msg{Kind: wire.DiscoverResp, ID: port, Addr: peer.IP, Port: simnet.Port}.Encode())
				s.Send(to, wire.Msg{Kind: wire.ListResp, ID: port}.Encode())
				s.Send(to, wire.Msg{Kind: wire.Data, Offset: uint32(port), Payload: []byte("payload")}.Encode())
				s.Close()
			case gAsked:
				s := fresh()
				s.Send(to, wire.Msg{Kind: wire.DiscoverReq, ID: port, Hash: []([20]byte){hash.Data, {}, {byte(i), byte(port)}}[i%3], Bounds: []uint16{0, uint16(i)}}.Encode())
				n.Settle()
				s.Close()
			case gListed:
				s := fresh()
				s.Send(to, wire.Msg{Kind: wire.ListReq, ID: port, Hash: []([20]byte){hash.Data, {}, {byte(i), byte(port)}}[i%3]}.Encode())
				n.Settle()
				s.Close()
			case gDiscover:
				answers = 1 + i%5
				return call("discovery", func() error {
					return d.M.Chims(&cli.ChimRequest{Sha1Hash: hash}, &cli.ChimResponseList{})
				})
			case gDiscoverMany:
				answers = 1
				for k := 0; k < 3; k++ {
					d.Go(func() { d.M.Chims(&cli.ChimRequest{Sha1Hash: hash}, &cli.ChimResponseList{}) })
				}
				n.Sleep(2500 * time.Millisecond)
			case gList, gListSilent:
				ip := []byte{10, 0, 0, 3}
				if kind == gListSilent {
					ip[3] = 99
				}
				return call("list", func() error {
					return d.M.List(&cli.ListRequest{IP: ip, Sha1Hash: hash}, &cli.ListResponse{})
				})
			case gGetNone:
				answers = 1
				return call("get", func() error {
					return d.M.Get(&cli.GetRequest{Sha1Hash: hashOf([]byte(fmt.Sprint(port, i)))}, &cli.GetResponse{})
				})
			case gGetAgain:
				answers = 1
				return call("get", func() error { return d.M.Get(&cli.GetRequest{Sha1Hash: hash}, &cli.GetResponse{}) })
			case gDownload:
				answers = 1
				e, bad := d.Call("get", time.Minute, func() error {
					return d.M.Get(&cli.GetRequest{Sha1Hash: hashOf(elsewhere.bytes())}, &cli.GetResponse{})
				})
				if bad != nil {
					return bad
				}
				n.Sleep(20 * time.Second)
				p := filepath.Join(root, "dl1", elsewhere.name(2))
				b, err := os.ReadFile(p)
				if e == nil && (err != nil || string(b) != string(elsewhere.bytes())) {
					return core.Fail("download", "a download is not complete after 20 seconds: %v", err)
				}
				os.Remove(p)
				return call("clean", func() error { return d.M.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) })
			case gShareBad:
				p := []string{user, filepath.Join(user, "none"), filepath.Join(root, "user1", f.name(0))}[i%3]
				return call("share", func() error { return d.M.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) })
			case gShareClean:
				p := filepath.Join(user, fmt.Sprint("new", i))
				os.WriteFile(p, fmt.Appendf(data[:len(data):len(data)], "%d", i), 0644)
				if bad := call("share", func() error { return d.M.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) }); bad != nil {
					return bad
				}
				os.Remove(p)
				return call("clean", func() error { return d.M.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) })
			}
			return nil
		}
		round := func() error {
			for _, k := range c.Kinds {
				for i := 0; i < c.N; i++ {
					if err := once(k, i); err != nil {
						return err
					}
				}
			}
			n.Sleep(2 * time.Minute)
			main.Drain()
			return n.Check()
		}
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1)) // or each would keep spare tasks of its own
		measured := []int64{}
		ops := len(c.Kinds) * c.N
		// the heap after 1, 2, 4, 8, ... rounds
		for done := 0; ; {
			for next := max(1, 2*done); done < next; done++ {
				if err := round(); err != nil {
					return err
				}
			}
			measured = append(measured, heap())
			k := len(measured) - 1
			if k >= 3 && measured[k]-measured[k-1] < int64(done/2*ops*growBytes) {
				break
			}
			if k == 6 {
				return core.Fail("leak-memory", "every time as much is done again (%d things at first), more memory is kept for good: %d", ops, measured)
			}
			o.LabelIf(k == 3, "measured-again")
		}
		return leaks(d, root)
	})
}

// growBytes is less than what a map keeps of an entry.
const growBytes = 12

func init() {
	core.Register(core.Sub{Prop: "C23", Name: "growth", Quick: 400, Thorough: 3000, Watchdog: 10 * time.Minute,
		Rule: "the same things done over and over: uploads finished, abandoned and refused, requests and answers of all kinds, discoveries, listings, downloads, shares; the heap may not grow with them; non-trivial always"},
		genGrow, func(c growCase, o *core.Obs) error {
			o.NT()
			return runGrow(c, o)
		})
}
