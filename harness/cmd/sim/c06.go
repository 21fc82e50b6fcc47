package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

type dgram struct {
	Wait, Peer, Port int
	Raw              []byte
	Copies           int
}

type dgramCase struct {
	Files  []fileSpec
	Grams  []dgram
	Chims  []int // discoveries made meanwhile, ms apart
	Get    bool  // a download runs meanwhile
	Upload bool  // somebody downloads meanwhile
}

// genRaw makes a datagram.
func genRaw(t *rapid.T, files []fileSpec, wild bool) []byte {
	kind := rapid.IntRange(0, 9).Draw(t, "kind")
	if kind == 0 {
		return rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
	}
	m := wire.Msg{Kind: rapid.IntRange(0, 6).Draw(t, "msg")}
	m.ID = uint16(rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 65535)).Draw(t, "id"))
	switch rapid.IntRange(0, 3).Draw(t, "hash") {
	case 0:
		for i := range m.Hash {
			m.Hash[i] = 0xff
		}
	case 1:
		m.Hash[0] = 1
	default:
		m.Hash = sha1.Sum(files[rapid.IntRange(0, len(files)-1).Draw(t, "file")].bytes())
	}
	m.Bounds = rapid.SliceOfN(rapid.OneOf(rapid.Uint16Range(0, 6), rapid.Uint16()), 0, 8).Draw(t, "bounds")
	if chance(t, "allbounds", 20) {
		m.Bounds = make([]uint16, 254)
		for i := range m.Bounds {
			m.Bounds[i] = uint16(i)
		}
	}
	m.Addr = [4]byte{10, 0, 0, byte(rapid.IntRange(0, 255).Draw(t, "addr"))}
	m.Port = uint16(pick(t, "port", simnet.Port, 1, 0, 40001))
	m.Chunk = uint16(rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 65535)).Draw(t, "chunk"))
	m.Window = uint16(pick(t, "window", 0, 1, 2, 64, 1024, 65535))
	m.Offset = uint32(rapid.OneOf(rapid.IntRange(0, 5000), rapid.IntRange(0, 1<<32-1)).Draw(t, "offset"))
	m.Payload = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "payload")
	for k := rapid.IntRange(0, 3).Draw(t, "entries"); k > 0; k-- {
		e := wire.Entry{Size: rapid.Uint64().Draw(t, "size"), Chunks: rapid.Uint32().Draw(t, "chunks"), ChunkSize: rapid.Uint32().Draw(t, "cs"), N: rapid.Uint32().Draw(t, "n"), Name: rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "name"), Hash: m.Hash}
		m.Entries = append(m.Entries, e)
	}
	raw := m.Encode()
	switch rapid.IntRange(0, 6).Draw(t, "damage") {
	case 0, 1:
		raw = raw[:rapid.IntRange(0, len(raw)).Draw(t, "cut")]
	case 2:
		for k := rapid.IntRange(1, 6).Draw(t, "flips"); k > 0; k-- {
			raw[rapid.IntRange(0, len(raw)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
	case 3:
		raw = append(raw, make([]byte, pick(t, "more", 1, 7, 40, 1000, 65507-len(raw)))...)
	case 4:
		raw[0] = rapid.Byte().Draw(t, "type")
	case 5:
		at := rapid.IntRange(0, len(raw)-1).Draw(t, "at")
		raw[at] = pick(t, "extreme", byte(0), 255, 128, 127)
	}
	return raw
}

func genSmallFiles(t *rapid.T) []fileSpec {
	var v []fileSpec
	for i := rapid.IntRange(1, 3).Draw(t, "files"); i > 0; i-- {
		v = append(v, genFile(t, false))
	}
	distinct(v)
	return v
}

func genDgrams(t *rapid.T) dgramCase {
	c := dgramCase{Files: genSmallFiles(t), Get: chance(t, "get", 3), Upload: chance(t, "upload", 3)}
	for k := rapid.IntRange(1, 25).Draw(t, "grams"); k > 0; k-- {
		g := dgram{Wait: pick(t, "wait", 0, 0, 0, 1, 10, 500, 2000), Peer: rapid.IntRange(2, 3).Draw(t, "peer"), Port: pick(t, "sport", simnet.Port, 40001), Copies: 1, Raw: genRaw(t, c.Files, true)}
		if chance(t, "flood", 15) {
			g.Copies = rapid.IntRange(2, 200).Draw(t, "copies")
		}
		c.Grams = append(c.Grams, g)
	}
	for k := rapid.IntRange(0, 2).Draw(t, "chims"); k > 0; k-- {
		c.Chims = append(c.Chims, rapid.IntRange(0, 1500).Draw(t, "chim"))
	}
	return c
}

// fetchChunk is a plain downloading peer; it returns what it got.
func fetchChunk(h *simnet.Host, port *uint16, to simnet.Addr, hash [20]byte, chunk, window int) ([]byte, error) {
	*port++ // late packets of another chunk do not come here
	s := h.Listen(*port)
	s.Send(to, wire.Msg{Kind: wire.Open, Hash: hash, Chunk: uint16(chunk), Window: uint16(window)}.Encode())
	var data []byte
	size, got := -1, 0
	seen := map[uint32]bool{}
	for size < 0 || got < size {
		p, ok := s.Recv(4 * time.Second)
		if !ok {
			return nil, core.Fail("no-data", "an ordinary download of chunk %d stops after %d of %d bytes", chunk, got, size)
		}
		m, ok := wire.Decode(p.Data)
		if !ok || m.Kind != wire.Data {
			continue
		}
		b := m.Payload
		if m.Offset == 0 {
			if len(b) < 24 {
				return nil, core.Fail("first", "the first packet is % x", p.Data)
			}
			size = int(b[20])<<24 | int(b[21])<<16 | int(b[22])<<8 | int(b[23])
			data = append(data, make([]byte, max(0, size-len(data)))...)
			b = b[24:]
		}
		if !seen[m.Offset] {
			seen[m.Offset] = true
			if k := int(m.Offset) + len(b); k > len(data) {
				data = append(data, make([]byte, k-len(data))...)
			}
			copy(data[m.Offset:], b)
			got += len(b)
		}
		s.Send(to, wire.Msg{Kind: wire.Ack, Offset: m.Offset}.Encode())
	}
	return data[:size], nil
}

func heldOf(f fileSpec) map[int]bool {
	held := map[int]bool{}
	for _, k := range f.Held {
		held[k] = true
	}
	if f.Chunk == 0 {
		for k := 0; k < f.chunks(); k++ {
			held[k] = true
		}
	}
	return held
}

// intact checks that a daemon answers everything as it should.
func intact(n *simnet.Net, d *simnet.Daemon, files []fileSpec, ip [4]byte) error {
	ph := n.AddHost(ip)
	main, other := ph.Listen(simnet.Port), ph.Listen(40001)
	port := uint16(3000)
	to := simnet.Addr{IP: d.IP, Port: simnet.Port}
	for i, f := range files {
		h := sha1.Sum(f.bytes())
		held := heldOf(f)
		main.Drain()
		main.Send(to, wire.Msg{Kind: wire.DiscoverReq, ID: uint16(900 + i), Hash: h}.Encode())
		p, ok := main.Recv(time.Second)
		m, ok2 := wire.Decode(p.Data)
		if !ok || !ok2 || m.Kind != wire.DiscoverResp || m.ID != uint16(900+i) || m.Addr != d.IP {
			return core.Fail("discovery", "an ordinary discovery request was answered with % x", p.Data)
		}
		if err := checkAnswer(dQuery{}, held, f.chunks(), m.Bounds); err != nil {
			return err
		}
		other.Drain()
		other.Send(to, wire.Msg{Kind: wire.ListReq, ID: uint16(800 + i), Hash: h}.Encode())
		p, ok = other.Recv(time.Second)
		m, ok2 = wire.Decode(p.Data)
		if !ok || !ok2 || m.Kind != wire.ListResp || m.ID != uint16(800+i) || len(m.Entries) != 1 || m.Entries[0].Size != uint64(f.Size) || m.Entries[0].Hash != h || int(m.Entries[0].N) != len(held) {
			return core.Fail("listing", "an ordinary listing request was answered with % x", p.Data)
		}
		for k := 0; k < f.chunks(); k++ {
			if !held[k] {
				continue
			}
			got, err := fetchChunk(ph, &port, to, h, k, 16)
			if err != nil {
				return err
			}
			if string(got) != string(chunkOf(f.bytes(), f.chunkSize(), k)) {
				return core.Fail("upload", "chunk %d is served with wrong bytes", k)
			}
		}
	}
	l, e, b := listOf(d)
	if b != nil {
		return b
	}
	if e != nil || len(l.Items) != len(files) {
		return core.Fail("list", "%d of %d files are listed (%v)", len(l.Items), len(files), e)
	}
	var r cli.ChimResponseList
	e, b = d.Call("chims", 15*time.Second, func() error { return d.M.Chims(&cli.ChimRequest{Sha1Hash: (&common.Sha1Hash{}).Blank()}, &r) })
	if b != nil {
		return b
	}
	if e != nil || len(r.Responses) != 1 {
		return core.Fail("chims", "a discovery after all this finds %d hosts (%v)", len(r.Responses), e)
	}
	ph.Kill()
	return n.Check()
}

func runDgrams(c dgramCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		catDir, dlDir := filepath.Join(root, "cat"), filepath.Join(root, "dl")
		d, err := n.StartDaemon(host, catDir, dlDir)
		if err != nil {
			return err
		}
		for i, f := range c.Files {
			if err := place(d, f, i, filepath.Join(root, "user")); err != nil {
				return err
			}
		}
		before, beforeDl, beforeUser := catmodel.Tree(catDir), catmodel.Tree(dlDir), catmodel.Tree(filepath.Join(root, "user"))
		list, _, b := listOf(d)
		if b != nil {
			return b
		}
		extra := fileSpec{Size: 5000, Seed: 424242, Name: "extra.bin"}
		if c.Get {
			eh := n.AddHost([4]byte{10, 0, 0, 40})
			ed, err := n.StartDaemon(eh, filepath.Join(root, "cat40"), filepath.Join(root, "dl40"))
			if err != nil {
				return err
			}
			if err := place(ed, extra, 0, filepath.Join(root, "user40")); err != nil {
				return err
			}
			host.Go(func() { d.M.Get(&cli.GetRequest{Sha1Hash: hashOf(extra.bytes())}, &cli.GetResponse{}) })
		}
		socks := map[[2]int]*simnet.Sock{}
		for p := 2; p <= 3; p++ {
			h := n.AddHost([4]byte{10, 0, 0, byte(p)})
			for _, q := range []int{simnet.Port, 40001} {
				socks[[2]int{p, q}] = h.Listen(uint16(q))
			}
		}
		for _, w := range c.Chims {
			time.AfterFunc(ms(w), func() {
				host.Go(func() {
					var r cli.ChimResponseList
					d.M.Chims(&cli.ChimRequest{Sha1Hash: (&common.Sha1Hash{}).Blank()}, &r)
				})
			})
		}
		uploads := make(chan error, 1)
		if c.Upload {
			h := n.AddHost([4]byte{10, 0, 0, 41})
			port := uint16(1234)
			h.Go(func() {
				for i := range c.Files {
					f := c.Files[len(c.Files)-1-i]
					held := heldOf(f)
					for k := 0; k < f.chunks(); k++ {
						if !held[k] {
							continue
						}
						got, err := fetchChunk(h, &port, simnet.Addr{IP: host.IP, Port: simnet.Port}, sha1.Sum(f.bytes()), k, 2)
						if err == nil && string(got) != string(chunkOf(f.bytes(), f.chunkSize(), k)) {
							err = core.Fail("upload", "chunk %d is served with wrong bytes", k)
						}
						if err != nil {
							uploads <- err
							return
						}
						time.Sleep(ms(400))
					}
				}
				uploads <- nil
			})
		} else {
			uploads <- nil
		}
		for _, g := range c.Grams {
			if g.Wait > 0 {
				n.Sleep(ms(g.Wait))
			}
			for k := 0; k < g.Copies; k++ {
				socks[[2]int{g.Peer, g.Port}].Send(simnet.Addr{IP: host.IP, Port: simnet.Port}, g.Raw)
			}
		}
		n.Settle()
		if err := n.Check(); err != nil {
			return err
		}
		if err := <-uploads; err != nil {
			bad("C06", err)
		}
		n.Sleep(40 * time.Second)
		if err := n.Check(); err != nil {
			return err
		}
		files := c.Files
		if c.Get {
			done := false
			for try := 0; try < 3 && !done; try++ {
				e, b := d.Call("get", 30*time.Second, func() error {
					return d.M.Get(&cli.GetRequest{Sha1Hash: hashOf(extra.bytes())}, &cli.GetResponse{})
				})
				if b != nil {
					return b
				}
				if e != nil {
					bad("C06", core.Fail("get", "an ordinary get fails: %v", e))
				}
				n.Sleep(time.Minute)
				disk, _ := os.ReadFile(filepath.Join(dlDir, extra.Name))
				done = string(disk) == string(extra.bytes())
			}
			if !done {
				bad("C06", core.Fail("get", "an ordinary download does not complete"))
			}
			g := extra
			files = append(append([]fileSpec(nil), files...), g)
			// everything else is as it was
			for _, p := range []byte{40} {
				n.Host([4]byte{10, 0, 0, p}).Kill()
			}
			o.Label("with-download")
		} else {
			if after := catmodel.Tree(catDir); after != before {
				bad("C06", core.Fail("catalogue-changed", "datagrams changed the catalogue folder:\n%s\nbecame\n%s", before, after))
			}
			if after := catmodel.Tree(dlDir); after != beforeDl {
				bad("C06", core.Fail("downloads-changed", "datagrams changed the downloads folder"))
			}
			l, _, b := listOf(d)
			if b != nil {
				return b
			}
			if sorted(l) != sorted(list) {
				bad("C06", core.Fail("list-changed", "datagrams changed the catalogue:\n%s\nbecame\n%s", sorted(list), sorted(l)))
			}
		}
		if catmodel.Tree(filepath.Join(root, "user")) != beforeUser {
			bad("C06", core.Fail("user-files", "datagrams changed the user's files"))
		}
		who := [4]byte{10, 0, 0, 77}
		if k := len(c.Grams); k%2 == 0 { // one of those who sent them
			who[3] = byte(c.Grams[k/2].Peer)
			n.Host(who).Kill()
			o.Label("same-address")
		}
		if err := intact(n, d, files, who); err != nil {
			bad("C06", err)
		}
		n.Sleep(time.Minute)
		if p := d.Ports(); len(p) > 1 {
			bad("C06", core.Fail("sockets", "sockets on ports %v are open", p))
		}
		bad("C23", leaks(d, root))
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C06", "C23"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

type rejectCase struct {
	Files []fileSpec
	Raws  [][]byte
}

func runRejects(c rejectCase, o *core.Obs, root string) error {
	return simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		catDir := filepath.Join(root, "cat")
		d, err := n.StartDaemon(host, catDir, filepath.Join(root, "dl"))
		if err != nil {
			return err
		}
		for i, f := range c.Files {
			if err := place(d, f, i, filepath.Join(root, "user")); err != nil {
				return err
			}
		}
		before := catmodel.Tree(catDir)
		peer := n.AddHost([4]byte{10, 0, 0, 2})
		sock := peer.Listen(simnet.Port)
		var last string
		n.Tap = func(p simnet.Packet) {
			if p.Src.IP == host.IP {
				last = fmt.Sprintf("% x to %v", p.Data[:min(len(p.Data), 40)], p.Dst)
			}
		}
		for _, raw := range c.Raws {
			m, ok := wire.Decode(raw)
			if ok {
				// a complete message
				continue
			}
			last = ""
			was := d.Errors
			sock.Send(simnet.Addr{IP: host.IP, Port: simnet.Port}, raw)
			n.Sleep(time.Millisecond)
			if err := n.Check(); err != nil {
				return err
			}
			if d.Errors != was+1 {
				return core.Fail("accepted", "% x is no complete message (type %d) but was handled without an error", raw[:min(len(raw), 60)], m.Kind)
			}
			if last != "" {
				return core.Fail("answered", "% x is no complete message but was answered with %s", raw[:min(len(raw), 60)], last)
			}
			o.Label("rejected")
			o.NT()
		}
		if after := catmodel.Tree(catDir); after != before {
			return core.Fail("catalogue-changed", "datagrams changed the catalogue folder")
		}
		if k := simnet.ClientTasks(); k > 0 {
			return core.Fail("tasks", "%d tasks were left by messages that are refused:\n%s", k, simnet.ClientStacks())
		}
		return n.Check()
	})
}

func init() {
	for _, prop := range []string{"C06", "C23"} {
		q, th := 3000, 100000
		if prop == "C23" {
			q, th = 500, 20000
		}
		core.Register(core.Sub{Prop: prop, Name: "datagrams", Quick: q, Thorough: th,
			Rule: "up to 25 datagrams (random bytes, valid, truncated, extended, flipped and out-of-protocol messages about known and unknown files, floods) from several addresses, some while discoveries, an upload or a download run; afterwards discovery, listing, upload, commands and the catalogue must be as they should; non-trivial when one names a message type"},
			genDgrams, func(c dgramCase, o *core.Obs) error {
				for _, g := range c.Grams {
					if len(g.Raw) > 1 && g.Raw[0] < 7 {
						o.NT()
						o.Label(fmt.Sprintf("type-%d", g.Raw[0]))
					}
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runDgrams(c, o, root))
			})
	}
	core.Register(core.Sub{Prop: "C06", Name: "rejects", Quick: 3000, Thorough: 100000,
		Rule: "datagrams that are no complete message are handled one by one: each must be refused with an error, answered with nothing and change nothing; non-trivial when there is one"},
		func(t *rapid.T) rejectCase {
			c := rejectCase{Files: genSmallFiles(t)}
			for k := rapid.IntRange(1, 20).Draw(t, "grams"); k > 0; k-- {
				c.Raws = append(c.Raws, genRaw(t, c.Files, true))
			}
			return c
		}, func(c rejectCase, o *core.Obs) error {
			root := core.Scratch()
			defer os.RemoveAll(root)
			return runRejects(c, o, root)
		})
}
