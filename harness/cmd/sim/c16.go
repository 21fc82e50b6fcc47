package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"pgregory.net/rapid"
)

// dlAttempt is how a peer serves one request for a chunk.
type dlAttempt struct {
	Step     int   // ms between packets
	Packet   int   // payload bytes per packet
	Order    int   // 0 as is, 1 reversed, else shuffled
	Drop     []int // packets, modulo their number
	Dup      []int
	Flip     []int // one bit of the payload
	Trunc    []int // some of the payload is missing
	Shift    []int // 17 bytes later than it should be
	Overlap  int   // bytes by which packets overlap
	Hash     int   // 0 right, 1 wrong, 2 blank
	Size     int   // added to the announced size
	NoHello  bool  // the announcement never comes
	Other    bool  // other content, correctly announced
	Stop     int   // packets after which the peer falls silent; -1: never
	Extra    []int // nonsense packets, by kind
	Stranger bool  // somebody else sends other data from another port
	Nag      int   `json:",omitempty"` // afterwards it repeats the first packets for hours, this often (ms)
}

type dlPeer struct {
	Claim    [][2]int // chunk ranges it says it has; nil: all
	None     bool     // it says it has nothing
	Meta     int      // 0 right; 1 silent 2 empty 3 another file 4 nonsense 5 garbage 6 no bytes 7 absurd chunk size
	Delay    int      // of its answer to discoveries, ms
	Deaf     int      // discoveries it does not answer at first
	From     int      `json:",omitempty"` // after this many discoveries ...
	Away     int      `json:",omitempty"` // ... it is away for that many
	SelfAddr bool     // announces the asking host's own address
	Attempts []dlAttempt
	Forever  bool // repeats its attempts and never gets better
	Sloppy   bool `json:",omitempty"` // all its attempts bring every byte, if out of order, repeated or amid nonsense
}

type dlEvent struct {
	At int    // ms after the previous one
	K  string // restart, get, remove, list
}

type dlCase struct {
	File   fileSpec
	Pre    bool // some chunks are there already
	Peers  []dlPeer
	Events []dlEvent
}

func genAttempt(t *rapid.T) dlAttempt {
	a := dlAttempt{Stop: -1, Step: rapid.OneOf(rapid.IntRange(1, 10), rapid.SampledFrom([]int{1, 1, 100, 2000, 4900})).Draw(t, "step"), Packet: 1024}
	some := func(name string) []int { return rapid.SliceOfN(rapid.IntRange(0, 20), 1, 3).Draw(t, name) }
	for k := rapid.IntRange(0, 3).Draw(t, "twists"); k > 0; k-- {
		switch rapid.IntRange(0, 15).Draw(t, "twist") {
		case 0:
			a.Packet = rapid.OneOf(rapid.IntRange(25, 1024), rapid.SampledFrom([]int{24, 1023})).Draw(t, "packet")
		case 1:
			a.Order = rapid.IntRange(0, 5).Draw(t, "order")
		case 2:
			a.Drop = some("drop")
		case 3:
			a.Dup = some("dup")
		case 4:
			a.Flip = some("flip")
		case 5:
			a.Trunc = some("trunc")
		case 6:
			a.Shift = some("shift")
		case 7:
			a.Overlap = rapid.IntRange(1, 600).Draw(t, "overlap")
		case 8:
			a.Hash = rapid.IntRange(1, 2).Draw(t, "hash")
		case 9:
			a.Size = pick(t, "size", -1, 1, 1024, -1024, 1<<20, 1<<31)
		case 10:
			a.NoHello = true
		case 11:
			a.Other = true
		case 12:
			a.Stop = rapid.IntRange(0, 5).Draw(t, "stop")
		case 13:
			a.Extra = rapid.SliceOfN(rapid.IntRange(0, 11), 1, 5).Draw(t, "extra")
		case 14:
			a.Stranger = true
		case 15:
			a.Nag = pick(t, "nag", 1500, 3000, 4900)
			if len(a.Drop) == 0 {
				a.Drop = some("drop")
			}
		}
	}
	return a
}

// genSloppy draws an attempt that brings every byte of the chunk, although not tidily.
func genSloppy(t *rapid.T) dlAttempt {
	if chance(t, "slow", 4) { // but something new always comes in time
		a := dlAttempt{Stop: -1, Step: pick(t, "slowstep", 200, 1000, 2400, 4000), Packet: pick(t, "packet", 1024, 1023, 700, 200)}
		if a.Step < 2500 { // the empty packet at the end may come first
			a.Order = rapid.IntRange(0, 5).Draw(t, "order")
		}
		return a
	}
	return dlAttempt{
		Stop: -1, Step: rapid.IntRange(1, 50).Draw(t, "step"),
		Packet: pick(t, "packet", 1024, 1024, 1023, 700, 100),
		Order:  rapid.IntRange(0, 5).Draw(t, "order"),
		Dup:    rapid.SliceOfN(rapid.IntRange(0, 20), 0, 25).Draw(t, "dup"),
		Extra:  rapid.SliceOfN(rapid.IntRange(0, 10), 0, 3).Draw(t, "extra"),
	}
}

func genDownload(t *rapid.T) dlCase {
	c := dlCase{File: fileSpec{Seed: rapid.Uint64Range(1, 1000).Draw(t, "seed")}}
	f := &c.File
	f.Chunk = rapid.OneOf(rapid.IntRange(1, 6000), rapid.SampledFrom([]int{1, 10, 999, 1000, 1001, 1024, 2023, 2024, 2025})).Draw(t, "chunk")
	n := rapid.IntRange(1, 5).Draw(t, "chunks")
	f.Size = (n-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
	if chance(t, "pre", 3) {
		c.Pre = true
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "held") {
				f.Held = append(f.Held, i)
			}
		}
	}
	for k := rapid.IntRange(1, 3).Draw(t, "peers"); k > 0; k-- {
		p := dlPeer{Delay: rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{0, 1, 1000, 1999, 2000, 2500})).Draw(t, "delay")}
		if chance(t, "claim", 3) {
			p.Claim = [][2]int{}
			for i := 0; i < n; i++ {
				if rapid.Bool().Draw(t, "claims") {
					p.Claim = append(p.Claim, [2]int{i, i})
				}
			}
		}
		p.None = chance(t, "none", 10)
		p.SelfAddr = chance(t, "self", 15)
		p.Forever = chance(t, "forever", 12)
		if chance(t, "meta", 12) {
			p.Meta = rapid.IntRange(1, 7).Draw(t, "metakind")
		}
		if chance(t, "deaf", 6) {
			p.Deaf = rapid.IntRange(1, 3).Draw(t, "deafs")
		}
		if chance(t, "goes", 8) {
			p.From, p.Away = rapid.IntRange(1, 4).Draw(t, "from"), pick(t, "away", 1, 3, 10, 10, 30, 150)
		}
		for j := rapid.IntRange(0, 5).Draw(t, "attempts"); j > 0; j-- {
			p.Attempts = append(p.Attempts, genAttempt(t))
		}
		if chance(t, "sloppy", 6) {
			p.Sloppy, p.Forever, p.Attempts = true, true, nil
			for j := rapid.IntRange(1, 3).Draw(t, "attempts"); j > 0; j-- {
				p.Attempts = append(p.Attempts, genSloppy(t))
			}
		}
		c.Peers = append(c.Peers, p)
	}
	if chance(t, "crowd", 12) { // of hosts that claim everything and send nothing
		for k := rapid.IntRange(3, 8).Draw(t, "idle"); k > 0; k-- {
			c.Peers = append(c.Peers, dlPeer{Delay: rapid.IntRange(0, 20).Draw(t, "delay"), Forever: true})
		}
	}
	for k := rapid.IntRange(0, 3).Draw(t, "events"); k > 0; k-- {
		e := dlEvent{At: rapid.OneOf(rapid.IntRange(0, 100), rapid.IntRange(0, 20000)).Draw(t, "at"), K: pick(t, "what", "restart", "get", "get", "list", "remove")}
		c.Events = append(c.Events, e)
	}
	return c
}

type dlPacket struct {
	offset uint32
	data   []byte
	raw    []byte // if set, sent as it is
}

// packets is what the peer sends for a chunk.
func (a dlAttempt) packets(data []byte, seed uint64) []dlPacket {
	if a.Other {
		b := make([]byte, len(data))
		catmodel.Fill(b, seed*7+3)
		data = b
	}
	size := a.Packet
	if size < 24 {
		size = 24
	}
	h := sha1.Sum(data)
	switch a.Hash {
	case 1:
		h[seed%20] ^= 1
	case 2:
		for i := range h {
			h[i] = 0xff
		}
	}
	n := uint32(len(data) + a.Size)
	hello := append(append([]byte(nil), h[:]...), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	var v []dlPacket
	at := min(size-24, len(data))
	if at == 0 && len(data) > 0 && size == 24 {
		at = 0
	}
	v = append(v, dlPacket{offset: 0, data: append(hello, data[:at]...)})
	if at == 0 { // nothing but the announcement: the data at offset 0 has to come with it
		at = min(1, len(data))
		v[0].data = append(v[0].data, data[:at]...)
	}
	for at < len(data) {
		from := max(1, at-a.Overlap)
		to := min(len(data), from+size)
		if to <= at {
			from, to = at, min(len(data), at+size)
		}
		v = append(v, dlPacket{offset: uint32(from), data: append([]byte(nil), data[from:to]...)})
		at = to
	}
	v = append(v, dlPacket{offset: uint32(len(data))})
	for _, i := range a.Flip {
		if p := &v[i%len(v)]; len(p.data) > 0 {
			p.data[(len(p.data)*7/8+i)%len(p.data)] ^= 1 << (i % 8)
		}
	}
	for _, i := range a.Trunc {
		if p := &v[i%len(v)]; len(p.data) > 0 {
			p.data = p.data[:len(p.data)*(i%4)/4]
		}
	}
	for _, i := range a.Shift {
		v[i%len(v)].offset += 17
	}
	if a.NoHello {
		v = v[1:]
	}
	var out []dlPacket
	for i, p := range v {
		skip := false
		for _, d := range a.Drop {
			skip = skip || d%len(v) == i
		}
		if !skip {
			out = append(out, p)
		}
		for _, d := range a.Dup {
			if d%len(v) == i {
				out = append(out, p)
			}
		}
	}
	for _, k := range a.Extra {
		var p dlPacket
		switch k {
		case 0:
			p = dlPacket{offset: uint32(len(data)), data: []byte{1, 2, 3}}
		case 1:
			p = dlPacket{offset: 0xffffffff, data: make([]byte, 1024)}
		case 2:
			p = dlPacket{offset: 0, data: nil}
		case 3:
			p = dlPacket{offset: 0, data: hello[:23]}
		case 4:
			p = dlPacket{raw: []byte{wire.Data}}
		case 5:
			p = dlPacket{raw: []byte{wire.Data, 0, 0, 1}}
		case 6:
			p = dlPacket{raw: []byte{}}
		case 7:
			p = dlPacket{raw: wire.Msg{Kind: wire.ListResp}.Encode()}
		case 8:
			p = dlPacket{raw: []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}
		case 9:
			p = dlPacket{offset: uint32(len(data) / 2), data: nil}
		case 10:
			p = dlPacket{offset: 0x80000000, data: []byte{9}}
		default:
			p = dlPacket{offset: 1, data: make([]byte, 1024+400)}
		}
		i := k * 7 % (len(out) + 1)
		out = append(out[:i], append([]dlPacket{p}, out[i:]...)...)
	}
	switch {
	case a.Order == 1:
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case a.Order > 1:
		x := uint64(a.Order)
		for i := len(out) - 1; i > 0; i-- {
			x = x*6364136223846793005 + 1442695040888963407
			j := int((x >> 33) % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	if a.Stop >= 0 && a.Stop < len(out) {
		out = out[:a.Stop]
	}
	return out
}

func (p dlPacket) encode() []byte {
	if p.raw != nil {
		return p.raw
	}
	return wire.Msg{Kind: wire.Data, Offset: p.offset, Payload: p.data}.Encode()
}

// dlTry is what reached the daemon in one attempt.
type dlTry struct {
	chunk int
	got   []wire.Msg
}

// explains says whether what arrived justifies keeping these bytes as the chunk.
func (a *dlTry) explains(disk []byte) bool {
	h := sha1.Sum(disk)
	announced := false
	covered := make([]bool, len(disk))
	for _, m := range a.got {
		data := m.Payload
		if m.Offset == 0 {
			if len(data) < 24 {
				continue
			}
			size := uint32(data[20])<<24 | uint32(data[21])<<16 | uint32(data[22])<<8 | uint32(data[23])
			if string(data[:20]) == string(h[:]) && int(size) == len(disk) {
				announced = true
			}
			data = data[24:]
		}
		for i := range data {
			if at := int(m.Offset) + i; at < len(disk) && disk[at] == data[i] {
				covered[at] = true
			}
		}
	}
	for _, c := range covered {
		announced = announced && c
	}
	return announced
}

func runDownload(c dlCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		ip := [4]byte{10, 0, 0, 1}
		catDir, dlDir := filepath.Join(root, "cat"), filepath.Join(root, "dl")
		host := n.AddHost(ip)
		d, err := n.StartDaemon(host, catDir, dlDir)
		if err != nil {
			return err
		}
		f := c.File
		data := f.bytes()
		hash := hashOf(data)
		if c.Pre {
			if err := place(d, f, 0, root); err != nil {
				return err
			}
		}

		var mu sync.Mutex
		var first []tagged
		fail := func(prop, sig, s string, a ...any) {
			for _, x := range first {
				if x.prop == prop {
					return
				}
			}
			first = append(first, tagged{prop, core.Fail(sig, s, a...)})
		}
		announced := map[simnet.Addr]bool{}
		tries := map[simnet.Addr]*dlTry{} // by the daemon's socket
		var all []*dlTry
		held := map[int]bool{}
		inIndex := false
		removed := false   // by an event
		otherUsed := false // consistent other content was sent
		opens, lastOpen, lastData := 0, time.Duration(0), time.Duration(0)
		watch := make(chan struct{}, 1)
		poke := func() {
			select {
			case watch <- struct{}{}:
			default:
			}
		}
		if c.Pre {
			inIndex = true
			for _, i := range f.Held {
				held[i] = true
			}
		}
		readChunk := func(i int) []byte {
			b, err := os.ReadFile(filepath.Join(dlDir, f.name(0)))
			if err != nil {
				return nil
			}
			return append([]byte(nil), chunkOf(b, f.Chunk, i)...)
		}
		// observe compares what the daemon claims with what arrived
		observe := func() {
			r, err := d.Cat.Contains(hash)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if inIndex && !removed && !otherUsed {
					fail("C25", "lost", "the file is no longer in the index although nobody removed it and its content is right")
					fail("C16", "lost", "the file is no longer in the index although nobody removed it and its content is right")
				}
				inIndex = false
				held = map[int]bool{}
				return
			}
			inIndex = true
			now := map[int]bool{}
			rs := r.Progress.Ranges()
			for i := 0; i+1 < len(rs); i += 2 {
				for k := int(rs[i]); k <= int(rs[i+1]); k++ {
					now[k] = true
				}
			}
			for k := range held {
				if !now[k] {
					fail("C25", "unheld", "chunk %d was held and no longer is", k)
				}
			}
			for k := range now {
				if held[k] {
					continue
				}
				disk := readChunk(k)
				ok := len(disk) == len(chunkOf(data, f.Chunk, k))
				why := ""
				if ok {
					ok = false
					for _, t := range all {
						if t.chunk == k && t.explains(disk) {
							ok = true
						}
					}
				} else {
					why = fmt.Sprintf(": %d bytes are there", len(disk))
				}
				if !ok {
					fail("C16", "unjustified", "chunk %d is held but its %d bytes did not arrive complete and as announced in any attempt%s", k, len(chunkOf(data, f.Chunk, k)), why)
				}
			}
			held = now
		}

		n.Arrive = func(p simnet.Packet) {
			if p.Dst.IP != ip {
				return
			}
			m, ok := wire.Decode(p.Data)
			if !ok {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			switch m.Kind {
			case wire.DiscoverResp:
				if len(m.Bounds) > 0 && p.Src.IP != ip {
					announced[simnet.Addr{IP: m.Addr, Port: m.Port}] = true
				}
			case wire.Data:
				lastData = n.Now()
				if t := tries[p.Dst]; t != nil {
					t.got = append(t.got, m)
				}
				poke()
			}
		}
		n.Tap = func(p simnet.Packet) {
			if p.Src.IP != ip {
				return
			}
			m, ok := wire.Decode(p.Data)
			if !ok || m.Kind != wire.Open {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			opens++
			lastOpen = n.Now()
			if m.Hash != hash.Data {
				fail("C25", "other-file", "a chunk of another file (%x) was requested", m.Hash)
			}
			if held[int(m.Chunk)] {
				fail("C25", "held-again", "chunk %d was requested although it was held", m.Chunk)
			}
			if int(m.Chunk) >= f.chunks() {
				fail("C25", "no-such-chunk", "chunk %d was requested, the file has %d", m.Chunk, f.chunks())
			}
			if p.Dst.IP == ip || p.Dst.IP[0] == 127 {
				fail("C25", "from-itself", "the host requested chunk %d from itself", m.Chunk)
			} else if !announced[p.Dst] {
				fail("C25", "unannounced", "chunk %d was requested from %v, which never said it has chunks of the file", m.Chunk, p.Dst)
			}
			t := &dlTry{chunk: int(m.Chunk)}
			tries[p.Src] = t
			all = append(all, t)
		}

		// the peers
		away := 0
		for _, p := range c.Peers {
			away += p.Away
		}
		promised := 0              // answers that some host has chunks of the file
		servable := map[int]bool{} // chunks that a peer which gets better has
		slow := time.Duration(0)
		for i, p := range c.Peers {
			ph := n.AddHost([4]byte{10, 0, 0, byte(2 + i)})
			sock := ph.Listen(simnet.Port)
			alien := ph.Listen(7777)
			claims := p.Claim
			if claims == nil {
				claims = [][2]int{{0, f.chunks() - 1}}
			}
			has := func(k int) bool {
				for _, r := range claims {
					if r[0] <= k && k <= r[1] {
						return !p.None
					}
				}
				return false
			}
			for k := 0; k < f.chunks(); k++ {
				if has(k) && (!p.Forever || p.Sloppy) && !p.SelfAddr && p.Delay < 1999 {
					servable[k] = true
				}
			}
			for _, a := range p.Attempts {
				once := ms(a.Step)*time.Duration(len(a.packets(data[:min(len(data), f.Chunk)], 1))+6) + 10*time.Second
				if p.Sloppy && a.Step > 50 {
					once *= time.Duration(f.chunks() + 1)
					o.Label("slow-peer")
				}
				slow += once
			}
			slow += time.Duration(p.Deaf) * 3 * time.Second
			slow += time.Duration(p.Away*(2+10*len(c.Peers))) * time.Second
			deaf, attempt, asked := p.Deaf, 0, 0
			ph.Go(func() {
				for {
					q, ok := sock.Recv(10 * time.Hour)
					if !ok {
						return
					}
					m, ok := wire.Decode(q.Data)
					if !ok {
						continue
					}
					switch m.Kind {
					case wire.DiscoverReq:
						asked++
						if deaf > 0 {
							deaf--
							continue
						}
						if asked > p.From && asked <= p.From+p.Away {
							continue
						}
						r := wire.Msg{Kind: wire.DiscoverResp, ID: m.ID, Addr: ph.IP, Port: simnet.Port}
						if p.SelfAddr {
							r.Addr = ip
						}
						if !p.None {
							for _, x := range claims {
								r.Bounds = append(r.Bounds, uint16(x[0]), uint16(x[1]))
							}
						}
						if len(r.Bounds) > 0 && !p.SelfAddr {
							mu.Lock()
							promised++
							mu.Unlock()
						}
						time.AfterFunc(ms(p.Delay), func() { sock.Send(simnet.Addr{IP: q.Src.IP, Port: simnet.Port}, r.Encode()) })
					case wire.ListReq:
						e := wire.Entry{Size: uint64(f.Size), Chunks: uint32(f.chunks()), ChunkSize: uint32(f.Chunk), N: uint32(f.chunks()), Hash: hash.Data, Name: []byte(f.name(0))}
						r := wire.Msg{Kind: wire.ListResp, ID: m.ID, Entries: []wire.Entry{e}}
						switch p.Meta {
						case 1:
							continue
						case 2:
							r.Entries = nil
						case 3:
							r.Entries[0].Hash[3] ^= 9
						case 4:
							r.Entries[0].Chunks += 2
						case 6:
							r.Entries[0].Size, r.Entries[0].Chunks = 0, 0
						case 7:
							r.Entries[0].Chunks, r.Entries[0].ChunkSize = 1, 0
						case 5:
							sock.Send(q.Src, []byte{3, 1, 2, 3, 4})
							continue
						}
						sock.Send(q.Src, r.Encode())
					case wire.Open:
						if !has(int(m.Chunk)) || m.Hash != hash.Data || asked > p.From && asked <= p.From+p.Away {
							continue
						}
						a := dlAttempt{Step: 1, Packet: 1024, Stop: -1}
						if attempt < len(p.Attempts) || p.Forever && len(p.Attempts) > 0 {
							a = p.Attempts[attempt%len(p.Attempts)]
						} else if p.Forever {
							continue
						}
						attempt++
						if a.Other {
							mu.Lock()
							otherUsed = true
							mu.Unlock()
						}
						v := a.packets(chunkOf(data, f.Chunk, int(m.Chunk)), f.Seed+uint64(m.Chunk))
						to := q.Src
						for k, x := range v {
							b := x.encode()
							time.AfterFunc(ms(a.Step)*time.Duration(k+1), func() { sock.Send(to, b) })
						}
						if a.Nag > 0 && len(v) > 0 {
							v := v[:min(len(v), 3)]
							i := 0
							var again func()
							again = func() {
								if i++; sock.Send(to, v[i%len(v)].encode()) == nil && i < 2*3600*1000/a.Nag {
									time.AfterFunc(ms(a.Nag), again)
								}
							}
							time.AfterFunc(ms(a.Step)*time.Duration(len(v))+ms(a.Nag), again)
						}
						if a.Stranger {
							for k, x := range (dlAttempt{Packet: 1024, Stop: -1, Other: true}).packets(chunkOf(data, f.Chunk, int(m.Chunk)), 99) {
								b := x.encode()
								time.AfterFunc(ms(k+1), func() { alien.Send(to, b) })
							}
						}
					}
				}
			})
		}

		// the watcher
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for {
				select {
				case <-watch:
					time.Sleep(100 * time.Microsecond)
					observe()
				case <-stop:
					return
				}
			}
		}()

		get := func() error {
			before := catmodel.Tree(catDir)
			beforeDl := catmodel.Tree(dlDir)
			mu.Lock()
			was := inIndex
			downloadsRunning := opens > 0
			nobody := promised == 0 && len(held) < f.chunks()
			mu.Unlock()
			e, b := d.Call("get", 30*time.Second, func() error { return d.M.Get(&cli.GetRequest{Sha1Hash: hash}, &cli.GetResponse{}) })
			if b != nil {
				return b
			}
			_, err := d.Cat.Contains(hash)
			if e == nil && err != nil && !otherUsed {
				bad("C25", core.Fail("no-record", "get succeeded but the file is not in the catalogue"))
			}
			if e == nil {
				mu.Lock()
				inIndex = err == nil
				removed = false
				nobody = nobody && promised == 0
				mu.Unlock()
				if nobody {
					bad("C25", core.Fail("from-nobody", "get reported success although no host ever said it has chunks of the file"))
				}
			}
			if e != nil && !was && !downloadsRunning {
				o.Label("get-refused")
				if err == nil {
					bad("C25", core.Fail("trace", "get failed (%v) but the file is in the catalogue", e))
				}
				if catmodel.Tree(catDir) != before || catmodel.Tree(dlDir) != beforeDl {
					bad("C25", core.Fail("trace", "get failed (%v) but left something behind: %s", e, catmodel.Tree(catDir)))
				}
			}
			if e != nil {
				return errRefused
			}
			o.Label("get-started")
			return nil
		}
		restart := func() error {
			host.Kill()
			n.Settle()
			observe()
			host = n.AddHost(ip)
			nd, err := n.StartDaemon(host, catDir, dlDir)
			if err != nil {
				return err
			}
			d = nd
			observe()
			return nil
		}
		n.Sleep(500 * time.Microsecond) // everything the harness does happens between the milliseconds
		align := func() {
			if r := (n.Now() - 500*time.Microsecond) % time.Millisecond; r != 0 {
				n.Sleep(time.Millisecond - r)
			}
		}
		started := get()
		align()
		if started != nil && started != errRefused {
			return started
		}
		lively := started == nil
		if !lively && !c.Pre {
			good := true
			for _, p := range c.Peers {
				if p.Meta != 0 || p.None || p.SelfAddr || p.Delay >= 1999 || p.Deaf > 0 || p.Claim != nil {
					good = false
				}
			}
			if good {
				bad("C25", core.Fail("refused", "get failed although every host has the file"))
				bad("C17", core.Fail("refused", "get failed although every host has the file"))
			}
		}
		for _, e := range c.Events {
			n.Sleep(ms(e.At))
			switch e.K {
			case "restart":
				o.Label("restart")
				if err := restart(); err != nil {
					return err
				}
				align()
				if !lively { // nothing to resume
					continue
				}
				if inIndex {
					err := get()
					for tries := 0; err == errRefused && tries < away; tries++ {
						align()
						err = get() // the hosts come back
					}
					if err != nil && err != errRefused {
						return err
					}
				} else {
					lively = false
				}
			case "get":
				err := get()
				if err != nil && err != errRefused {
					return err
				}
				if err == nil && inIndex {
					lively = true
				}
			case "list":
				if _, _, b := listOf(d); b != nil {
					return b
				}
			case "remove":
				mu.Lock()
				was := inIndex
				removed = true
				mu.Unlock()
				e, b := d.Call("remove", time.Minute, func() error { return d.Cat.UnshareFile(hash) })
				if b != nil {
					return b
				}
				if was && e != nil {
					if _, err := d.Cat.Contains(hash); err == nil {
						bad("C25", core.Fail("remove", "removing the file failed: %v", e))
					}
				}
				lively = false
				o.LabelIf(was, "removed-while-downloading")
			}
			align()
			observe()
		}
		needAll := lively
		for k := 0; k < f.chunks(); k++ {
			if !servable[k] && !held[k] {
				needAll = false
			}
		}
		limit := n.Now() + 10*time.Minute + 2*slow + time.Duration(f.chunks()*60)*time.Second
		full := func() bool {
			observe()
			mu.Lock()
			defer mu.Unlock()
			return len(held) == f.chunks() || !inIndex
		}
		if lively {
			for n.Now() < limit && !full() && (needAll || n.Now() < limit/4) {
				n.Sleep(5 * time.Second)
			}
		}
		n.Sleep(15 * time.Second)
		observe()
		if err := n.Check(); err != nil {
			return err
		}
		mu.Lock()
		found = append(found, first...)
		complete := inIndex && len(held) == f.chunks()
		hn, in, ou := len(held), inIndex, otherUsed
		mu.Unlock()
		o.LabelIf(needAll, "must-complete")
		if needAll && !complete && !ou {
			v := core.Fail("incomplete", "after %v the download has %d of %d chunks although hosts with every chunk answer (in the index: %v)\n%s", n.Now(), hn, f.chunks(), in, simnet.ClientStacks())
			bad("C25", v)
			bad("C16", v)
		}
		if complete {
			o.Label("complete")
			disk, _ := os.ReadFile(filepath.Join(dlDir, f.name(0)))
			if string(disk) != string(data) {
				bad("C16", core.Fail("wrong-kept", "the file is complete in the index but its content does not have the requested hash"))
				bad("C25", core.Fail("wrong-kept", "the file is complete in the index but its content does not have the requested hash"))
			}
		} else if ou {
			o.Label("wrong-content-dropped")
		}
		// the end
		done := complete || !in
		if done {
			for { // peers that trickle data keep a chunk going
				n.Sleep(time.Minute)
				mu.Lock()
				last := lastData
				mu.Unlock()
				if n.Now()-last > 50*time.Second {
					break
				}
			}
			mu.Lock()
			quiet := n.Now() - lastOpen
			mu.Unlock()
			if quiet < 30*time.Second && opens > 0 {
				bad("C25", core.Fail("never-stops", "chunks are still requested %v after the end of the download", quiet))
			}
			bad("C23", leaks(d, root))
		} else {
			if k := len(d.Ports()); k > 3+2*len(c.Events) {
				bad("C23", core.Fail("leak-sockets", "%d sockets are open", k))
			}
		}
		// the daemon still works
		if _, e, b := listOf(d); b != nil || e != nil {
			if b != nil {
				return b
			}
			bad("C16", core.Fail("list", "listing failed afterwards: %v", e))
		}
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C16", "C25", "C23"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

var errRefused = fmt.Errorf("refused")

func init() {
	for _, prop := range []string{"C16", "C25", "C23"} {
		q, th := 6000, 120000
		if prop == "C23" {
			q, th = 2000, 60000
		}
		core.Register(core.Sub{Prop: prop, Name: "downloads", Quick: q, Thorough: th,
			Rule: "a daemon downloads a file of up to 5 chunks from up to 3 scripted peers (and up to 8 that send nothing) that lose, repeat, reorder, corrupt, truncate, shift or overlap packets, announce wrong hashes and sizes, fall silent, send nonsense or other content, claim some of the chunks or another address, give wrong descriptions, and (mostly) get better in the end, with restarts, repeated gets and removals in between; non-trivial when a peer misbehaves or something happens in between"},
			genDownload, func(c dlCase, o *core.Obs) error {
				nt := len(c.Events) > 0
				for _, p := range c.Peers {
					nt = nt || len(p.Attempts) > 0 || p.Meta > 0
				}
				if nt {
					o.NT()
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runDownload(c, o, root))
			})
	}
}
