package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"pgregory.net/rapid"
)

// upStep is something a downloading peer does.
type upStep struct {
	Wait   int    // ms since its previous step
	K      string // open, acks
	File   int    // -1: unknown
	Chunk  int
	Window int
	Delay  []int // of the ack of each packet, in ms; -1: none
	Dup    []int // further copies
	N      int   // acks out of the blue
	Offset uint32
}

type upPeer struct {
	IP, Port int
	Steps    []upStep
}

// upChange alters the catalogue.
type upChange struct {
	At, File, Chunk int // ms; chunk -1: remove the file, -2: the user replaces its contents, else save the chunk
}

type upCase struct {
	Files   []fileSpec
	Alter   []int `json:",omitempty"` // bytes by which the user makes each file longer or shorter beforehand
	Peers   []upPeer
	Net     []int // delays of packets in turn, ms
	Changes []upChange
}

func genFile(t *rapid.T, big bool) fileSpec {
	if big && chance(t, "giant", 6) { // from a build that cuts files into larger chunks
		f := fileSpec{Chunk: pick(t, "giantchunk", shareChunk+1, 2*shareChunk+1, 20000000, 1<<26), Seed: rapid.Uint64().Draw(t, "seed"), Held: []int{0}}
		f.Size = f.Chunk + pick(t, "giantsize", 0, -3000, 1)
		return f
	}
	if big {
		return fileSpec{Size: pick(t, "size", shareChunk+1, shareChunk+5000, shareChunk, 1000000), Seed: rapid.Uint64().Draw(t, "seed")}
	}
	f := fileSpec{Seed: rapid.Uint64Range(0, 1000).Draw(t, "seed")}
	if chance(t, "verymany", 30) {
		f.Chunk = rapid.IntRange(1, 3).Draw(t, "chunk")
		n := pick(t, "chunks", 257, 32768, 32769, 40000, 65535, 65536)
		f.Size = n * f.Chunk
		f.Held = rapid.SliceOfNDistinct(rapid.OneOf(rapid.IntRange(0, n-1), rapid.SampledFrom([]int{n - 1, n - 2, n / 2})), 1, 5, rapid.ID[int]).Draw(t, "heldones")
		return f
	}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0: // shared
		f.Size = rapid.OneOf(rapid.IntRange(1, 20000), rapid.SampledFrom([]int{1, 999, 1000, 1001, 1023, 1024, 1025, 2023, 2024, 2025, 3048, 10240})).Draw(t, "size")
	default:
		f.Chunk = rapid.OneOf(rapid.IntRange(1, 6000), rapid.SampledFrom([]int{1, 10, 999, 1000, 1001, 1024, 2023, 2024, 2025, 3048})).Draw(t, "chunk")
		n := rapid.IntRange(1, 8).Draw(t, "chunks")
		f.Size = (n-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 3).Draw(t, "held") > 0 {
				f.Held = append(f.Held, i)
			}
		}
	}
	return f
}

func genUploads(t *rapid.T) upCase {
	var c upCase
	big := chance(t, "big", 60)
	n := rapid.IntRange(1, 3).Draw(t, "files")
	for i := 0; i < n; i++ {
		f := genFile(t, big && i == 0)
		f.Seed = f.Seed*4 + uint64(i)
		c.Files = append(c.Files, f)
	}
	distinct(c.Files)
	if chance(t, "altered", 4) {
		for i := 0; i < n; i++ {
			c.Alter = append(c.Alter, pick(t, "alter", 0, 1, 5000, -1, -1, -rapid.IntRange(1, 3000).Draw(t, "shorter")))
		}
	}
	used := map[int]bool{}
	if !big && chance(t, "crowd", 40) {
		for i, k := 0, rapid.IntRange(10, 80).Draw(t, "many"); i < k; i++ {
			p := upPeer{IP: 2 + i, Port: 0}
			if chance(t, "sameip", 3) {
				p = upPeer{IP: 2, Port: 3 + i}
			}
			f := rapid.IntRange(0, n-1).Draw(t, "file")
			p.Steps = []upStep{{K: "open", Wait: rapid.IntRange(1, 30).Draw(t, "wait"), File: f, Chunk: rapid.IntRange(0, c.Files[f].chunks()-1).Draw(t, "chunk"), Window: rapid.IntRange(1, 3).Draw(t, "window"), Delay: []int{rapid.IntRange(0, 2000).Draw(t, "delay")}}}
			used[p.IP*100+p.Port] = true
			c.Peers = append(c.Peers, p)
		}
	}
	for i := rapid.IntRange(1, 4).Draw(t, "peers"); i > 0; i-- {
		p := upPeer{IP: rapid.IntRange(2, 4).Draw(t, "ip"), Port: rapid.IntRange(0, 2).Draw(t, "port")}
		if used[p.IP*100+p.Port] {
			continue
		}
		used[p.IP*100+p.Port] = true
		for k := rapid.IntRange(1, 4).Draw(t, "steps"); k > 0; k-- {
			s := upStep{K: "open", Wait: rapid.OneOf(rapid.IntRange(1, 20), rapid.SampledFrom([]int{1, 2, 1000, 15000, 30000})).Draw(t, "wait")}
			if chance(t, "surplus", 4) {
				s.K, s.N = "acks", rapid.OneOf(rapid.IntRange(1, 5), rapid.SampledFrom([]int{50, 1500})).Draw(t, "n")
				s.Offset = uint32(rapid.IntRange(0, 5000).Draw(t, "offset"))
				p.Steps = append(p.Steps, s)
				continue
			}
			s.File = rapid.IntRange(0, n-1).Draw(t, "file")
			if chance(t, "unknown", 12) {
				s.File = -1
			}
			s.Window = rapid.OneOf(rapid.IntRange(1, 20), rapid.SampledFrom([]int{0, 1, 2, 1024, 65535})).Draw(t, "window")
			k := 1
			if s.File >= 0 {
				k = c.Files[s.File].chunks()
			}
			s.Chunk = rapid.IntRange(0, k-1).Draw(t, "chunk")
			if s.File >= 0 && k > 256 {
				s.Chunk = pick(t, "heldone", append(c.Files[s.File].Held, s.Chunk)...)
			}
			if chance(t, "past", 15) {
				s.Chunk = pick(t, "pastwhat", k, k+1, 65535)
			}
			if big {
				s.Window = pick(t, "bigwindow", 64, 1024, 65535)
				s.Delay = []int{0}
				p.Steps = append(p.Steps, s)
				continue
			}
			switch rapid.IntRange(0, 5).Draw(t, "acking") {
			case 0, 1:
				s.Delay = []int{0}
			case 2:
				s.Delay = rapid.SliceOfN(rapid.IntRange(0, 50), 1, 6).Draw(t, "delay")
			case 3:
				s.Delay = rapid.SliceOfN(rapid.IntRange(0, 3900), 1, 6).Draw(t, "delay")
			case 4:
				s.Delay = []int{rapid.IntRange(0, 5).Draw(t, "delay")}
				s.Dup = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 5).Draw(t, "dup")
			case 5: // goes away, or loses some
				s.Delay = rapid.SliceOfN(rapid.IntRange(-1, 5), 1, 6).Draw(t, "delay")
			}
			p.Steps = append(p.Steps, s)
		}
		c.Peers = append(c.Peers, p)
	}
	c.Net = []int{0}
	if chance(t, "jitter", 2) {
		c.Net = rapid.SliceOfN(rapid.IntRange(0, 40), 1, 7).Draw(t, "net")
	}
	for k := rapid.IntRange(0, 2).Draw(t, "changes"); k > 0; k-- {
		ch := upChange{At: rapid.IntRange(0, 60).Draw(t, "at"), File: rapid.IntRange(0, n-1).Draw(t, "file"), Chunk: -1}
		if f := c.Files[ch.File]; f.Chunk == 0 && chance(t, "rewrite", 2) {
			ch.Chunk = -2
			ch.At = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 1500)).Draw(t, "later")
		} else if f.Chunk > 0 && !chance(t, "remove", 4) {
			ch.Chunk = rapid.IntRange(0, f.chunks()-1).Draw(t, "chunk")
		} else if !chance(t, "really", 3) {
			continue
		}
		c.Changes = append(c.Changes, ch)
	}
	return c
}

// upSession is one upload as a peer sees it.
type upSession struct {
	step    upStep
	data    []byte
	started bool // its first packet was sent
	sent    int
	acks    int
	covered []bool
	left    int
	ended   bool
	need    bool // it must end by itself
	maybe   bool // the file was made longer: the chunk may be refused
	file    int
	chunk   int
	at      time.Duration // the request arrived
}

type upState struct {
	ip, port int
	current  *upSession
	waiting  []*upSession // requests that arrived but were not answered yet
	policy   *upStep
	nth      int

	instant     time.Duration // of the last ack
	instantAcks int           // that arrived at it
}

func runUploads(c upCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		d, err := n.StartDaemon(host, filepath.Join(root, "cat"), filepath.Join(root, "dl"))
		if err != nil {
			return err
		}
		held := make([]map[int]bool, len(c.Files))
		byHash := map[[20]byte]int{}
		altered := map[int]bool{}
		for i, f := range c.Files {
			held[i] = map[int]bool{}
			h := sha1.Sum(f.bytes())
			if _, dup := byHash[h]; dup {
				continue
			}
			if err := place(d, f, i, filepath.Join(root, "user")); err != nil {
				return err
			}
			byHash[h] = i
			if f.Chunk == 0 {
				for k := 0; k < f.chunks(); k++ {
					held[i][k] = true
				}
			}
			for _, k := range f.Held {
				held[i][k] = true
			}
			if i >= len(c.Alter) || c.Alter[i] == 0 {
				continue
			}
			path := filepath.Join(root, "user", f.name(i))
			if f.Chunk > 0 {
				path = filepath.Join(root, "dl", f.name(i))
			}
			to, is := max(0, f.Size+c.Alter[i]), 0
			if st, err := os.Stat(path); err == nil {
				is = int(st.Size())
			}
			if to > f.Size && is == f.Size || is > to {
				if err := os.Truncate(path, int64(to)); err != nil {
					return core.Harness("%v", err)
				}
				altered[i] = true
				o.Label("altered-file")
			}
			for k := range held[i] {
				if at := k * f.chunkSize(); at+len(chunkOf(f.bytes(), f.chunkSize(), k)) > to {
					delete(held[i], k) // its bytes are no longer all there
				}
			}
		}
		if err := leaks(d, root); err != nil {
			bad("C23", err)
		}

		var mu sync.Mutex
		var first error
		fail := func(sig, f string, a ...any) {
			if first == nil {
				first = core.Fail(sig, f, a...)
			}
		}
		states := map[simnet.Addr]*upState{}
		turn := 0
		replaced := map[int][]time.Duration{} // when the user replaced the contents of a file
		contents := func(i, version int) []byte {
			f := c.Files[i]
			f.Seed += uint64(version) << 40
			return f.bytes()
		}
		n.Policy = func(p *simnet.Packet, to [4]byte) []time.Duration {
			if len(p.Data) > 0 && p.Data[0] != wire.Data && p.Data[0] != wire.Ack {
				return []time.Duration{0}
			}
			mu.Lock()
			defer mu.Unlock()
			turn++
			return []time.Duration{ms(c.Net[turn%len(c.Net)])}
		}
		n.Arrive = func(p simnet.Packet) {
			if p.Dst.IP != host.IP || p.Dst.Port != simnet.Port {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			st := states[p.Src]
			m, ok := wire.Decode(p.Data)
			if st == nil || !ok {
				return
			}
			switch m.Kind {
			case wire.Open:
				i, known := byHash[m.Hash]
				if !known || !held[i][int(m.Chunk)] {
					if st.current != nil {
						st.current.need = false
					}
					return
				}
				f := c.Files[i]
				data := chunkOf(contents(i, len(replaced[i])), f.chunkSize(), int(m.Chunk))
				s := &upSession{step: *st.policy, file: i, chunk: int(m.Chunk), at: n.Now(), data: data, covered: make([]bool, len(data)), left: len(data), need: true}
				if s.maybe = altered[i] && int(m.Chunk) == f.chunks()-1; s.maybe { // what came before is now acked as if it was this
					if st.current != nil {
						st.current.need = false
					}
					for _, x := range st.waiting {
						x.need = false
					}
				}
				for _, dl := range s.step.Delay {
					if dl < 0 {
						s.need = false
					}
				}
				if st.instant == n.Now() {
					s.acks = st.instantAcks // they may be handled after the request
				}
				st.waiting = append(st.waiting, s)
			case wire.Ack:
				if st.instant != n.Now() {
					st.instant, st.instantAcks = n.Now(), 0
				}
				st.instantAcks++
				if st.current != nil {
					st.current.acks++
				}
				for _, s := range st.waiting {
					s.acks++
				}
			}
		}
		n.Tap = func(p simnet.Packet) {
			if p.Src.IP != host.IP || len(p.Data) == 0 || p.Data[0] != wire.Data {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			st := states[p.Dst]
			if st == nil {
				fail("stranger", "a data packet was sent to %v, who asked for nothing", p.Dst)
				return
			}
			m, ok := wire.Decode(p.Data)
			if !ok {
				fail("malformed", "the packet % x is malformed", p.Data)
				return
			}
			if p.Src.Port != simnet.Port {
				fail("port", "a data packet was sent from port %d", p.Src.Port)
			}
			if len(m.Payload) > 1024 {
				fail("large", "a data packet has %d payload bytes", len(m.Payload))
			}
			for m.Offset == 0 && len(st.waiting) > 0 && st.waiting[0].maybe {
				if h := sha1.Sum(st.waiting[0].data); len(m.Payload) < 20 || string(m.Payload[:20]) != string(h[:]) {
					st.waiting = st.waiting[1:] // it was refused
					continue
				}
				break
			}
			if m.Offset == 0 && len(st.waiting) > 0 {
				st.current = st.waiting[0]
				st.waiting = st.waiting[1:]
				st.current.started = true
				s := st.current
				h := sha1.Sum(s.data)
				for v := 0; v < len(replaced[s.file]) && len(m.Payload) >= 24 && string(m.Payload[:20]) != string(h[:]); v++ {
					if replaced[s.file][v] >= s.at { // at the very moment
						s.data = chunkOf(contents(s.file, v), c.Files[s.file].chunkSize(), s.chunk)
						h = sha1.Sum(s.data)
					}
				}
				if len(m.Payload) < 24 || string(m.Payload[:20]) != string(h[:]) {
					fail("announced-hash", "the first packet of %s does not announce the chunk's hash: % x", s.what(), m.Payload[:min(24, len(m.Payload))])
					return
				}
				if k := int(uint32(m.Payload[20])<<24 | uint32(m.Payload[21])<<16 | uint32(m.Payload[22])<<8 | uint32(m.Payload[23])); k != len(s.data) {
					fail("announced-size", "the first packet of %s announces %d bytes instead of %d", s.what(), k, len(s.data))
					return
				}
				m.Payload = m.Payload[24:]
			} else if m.Offset == 0 {
				fail("second-start", "a packet at offset 0 that no request explains was sent to %v", p.Dst)
				return
			}
			s := st.current
			if s == nil {
				fail("unsolicited", "a data packet was sent to %v, who asked for nothing the host holds", p.Dst)
				return
			}
			s.sent++
			if w := max(1, s.step.Window); s.sent > w+s.acks {
				fail("window", "%d packets of %s were sent although the window is %d and %d acks arrived", s.sent, s.what(), w, s.acks)
			}
			at := int(m.Offset)
			if at+len(m.Payload) > len(s.data) || string(m.Payload) != string(s.data[at:at+len(m.Payload)]) {
				fail("content", "a packet of %s at offset %d with %d bytes does not carry the chunk's bytes", s.what(), at, len(m.Payload))
				return
			}
			for i := range m.Payload {
				if !s.covered[at+i] {
					s.covered[at+i] = true
					s.left--
				}
			}
			if len(m.Payload) == 0 && s.sent > 1 {
				if at != len(s.data) {
					fail("early-end", "an empty packet of %s was sent at offset %d of %d", s.what(), at, len(s.data))
				} else if s.left > 0 {
					fail("gap", "%s was ended with %d bytes never sent", s.what(), s.left)
				}
				s.ended = true
			}
		}

		// the peers
		var wg sync.WaitGroup
		hosts := map[int]*simnet.Host{}
		var sts []*upState
		for _, p := range c.Peers {
			if hosts[p.IP] == nil {
				hosts[p.IP] = n.AddHost([4]byte{10, 0, 0, byte(p.IP)})
			}
			sock := hosts[p.IP].Listen(uint16(5000 + p.Port))
			st := &upState{ip: p.IP, port: p.Port}
			states[sock.Addr()] = st
			sts = append(sts, st)
			to := simnet.Addr{IP: host.IP, Port: simnet.Port}
			hosts[p.IP].Go(func() {
				for {
					q, ok := sock.Recv(time.Hour)
					if !ok {
						return
					}
					m, ok := wire.Decode(q.Data)
					if !ok || m.Kind != wire.Data {
						continue
					}
					mu.Lock()
					pol := st.policy
					k := st.nth
					st.nth++
					mu.Unlock()
					if pol == nil || len(pol.Delay) == 0 {
						continue
					}
					w := pol.Delay[k%len(pol.Delay)]
					if w < 0 {
						continue
					}
					copies := 1
					if len(pol.Dup) > 0 {
						copies += pol.Dup[k%len(pol.Dup)]
					}
					ack := wire.Msg{Kind: wire.Ack, Offset: m.Offset}.Encode()
					for ; copies > 0; copies-- {
						if w == 0 {
							sock.Send(to, ack)
						} else {
							time.AfterFunc(ms(w), func() { sock.Send(to, ack) })
						}
					}
				}
			})
			steps := p.Steps
			wg.Add(1)
			hosts[p.IP].Go(func() {
				defer wg.Done()
				for _, s := range steps {
					time.Sleep(ms(s.Wait))
					if s.K == "acks" {
						ack := wire.Msg{Kind: wire.Ack, Offset: s.Offset}.Encode()
						for k := 0; k < s.N; k++ {
							sock.Send(to, ack)
						}
						continue
					}
					h := sha1.Sum([]byte(fmt.Sprint("unknown", s.Chunk)))
					if s.File >= 0 {
						h = sha1.Sum(c.Files[s.File].bytes())
					}
					mu.Lock()
					st.policy, st.nth = &s, 0
					mu.Unlock()
					sock.Send(to, wire.Msg{Kind: wire.Open, Hash: h, Chunk: uint16(s.Chunk), Window: uint16(s.Window)}.Encode())
				}
			})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(500 * time.Microsecond)
			for _, ch := range c.Changes {
				time.Sleep(ms(ch.At))
				f := c.Files[ch.File]
				h := hashOf(f.bytes())
				mu.Lock()
				i, known := byHash[h.Data]
				mu.Unlock()
				if !known || altered[i] && ch.Chunk != -1 {
					continue
				}
				if ch.Chunk == -2 {
					b := contents(i, len(replaced[i])+1)
					if err := os.WriteFile(filepath.Join(root, "new"), b, 0644); err != nil {
						panic(core.Harness("%v", err))
					}
					if st, err := os.Stat(filepath.Join(root, "user", f.name(i))); err == nil && ch.At%2 == 0 {
						os.Chtimes(filepath.Join(root, "new"), st.ModTime(), st.ModTime()) // as old as the other
					}
					mu.Lock()
					replaced[i] = append(replaced[i], n.Now())
					mu.Unlock()
					if err := os.Rename(filepath.Join(root, "new"), filepath.Join(root, "user", f.name(i))); err != nil {
						panic(core.Harness("%v", err))
					}
					o.Label("replaced-file")
					continue
				}
				_, berr := d.Call("change", time.Minute, func() error {
					if ch.Chunk < 0 {
						return d.Cat.UnshareFile(h)
					}
					return d.Cat.SaveChunk(h, uint16(ch.Chunk), append([]byte(nil), chunkOf(f.bytes(), f.chunkSize(), ch.Chunk)...))
				})
				bad("C15", berr)
				mu.Lock()
				if ch.Chunk < 0 {
					delete(byHash, h.Data)
					for _, st := range sts {
						if st.current != nil {
							st.current.need = false
						}
					}
				} else {
					held[i][ch.Chunk] = true
				}
				mu.Unlock()
			}
		}()
		wg.Wait()
		// let the uploads end
		limit := n.Now() + 2*time.Minute
		open := func() *upSession {
			mu.Lock()
			defer mu.Unlock()
			for _, st := range sts {
				for _, s := range st.waiting {
					if !s.maybe {
						return s
					}
				}
				if s := st.current; s != nil && s.need && !s.ended {
					return s
				}
			}
			return nil
		}
		n.Sleep(time.Second)
		for open() != nil && n.Now() < limit {
			n.Sleep(time.Second)
		}
		n.Settle()
		if err := n.Check(); err != nil {
			return err
		}
		mu.Lock()
		err = first
		mu.Unlock()
		bad("C15", err)
		if s := open(); s != nil && err == nil {
			if !s.started {
				bad("C15", core.Fail("refused", "%s is held but its request was not answered", s.what()))
			} else {
				bad("C15", core.Fail("stalled", "the upload of %s does not end: %d of %d bytes were sent, %d packets, %d acks came", s.what(), len(s.data)-s.left, len(s.data), s.sent, s.acks))
			}
		}
		for _, st := range sts {
			if st.current != nil && st.current.ended {
				o.Label("upload-ended")
			} else if st.current != nil {
				o.Label("upload-abandoned")
			}
		}
		o.LabelIf(len(sts) > 1, "several-peers")
		o.LabelIf(len(sts) >= 10, "crowd")
		n.Sleep(time.Minute)
		bad("C23", leaks(d, root))
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C15", "C23"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

func (s *upSession) what() string {
	return fmt.Sprintf("chunk %d of file %d (%d bytes, window %d)", s.step.Chunk, s.step.File, len(s.data), s.step.Window)
}

func init() {
	for _, prop := range []string{"C15", "C23"} {
		q, th := 6000, 120000
		if prop == "C23" {
			q, th = 3000, 60000
		}
		core.Register(core.Sub{Prop: prop, Name: "uploads", Quick: q, Thorough: th,
			Rule: "up to 4 scripted peers request chunks of shared files and partial downloads with any window, ack late, out of order, repeatedly, not at all or out of the blue, request again while an upload runs, and go away, of files that the user made longer or shorter or replaces, sometimes 10 to 80 at a time, while chunks are saved and files removed; non-trivial when a peer requests something of a known file"},
			genUploads, func(c upCase, o *core.Obs) error {
				for _, p := range c.Peers {
					for _, s := range p.Steps {
						if s.K == "open" && s.File >= 0 {
							o.NT()
						}
					}
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runUploads(c, o, root))
			})
	}
}
