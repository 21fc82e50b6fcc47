package main

import (
	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

type c20Answer struct {
	At    int  // ms after the request, or relative to the window's end if Late
	Shift int  // added to the request id
	Type  int  // 0 discovery response, 1 list response with the same id
	Dup   int  // further copies
	Marks int  // identifies it: becomes the port
	Late  bool // at is relative to the end of the window
}

type c20Disc struct {
	At      int // ms
	Answers []c20Answer
	Go      bool // through Server.DiscoverHosts with chunks rather than the command
	Flood   int  `json:",omitempty"` // as many further answers
	From    int  `json:",omitempty"` // ms after the request
	Every   int  `json:",omitempty"` // us between them
}

type c20Case struct {
	Discs []c20Disc
	Start int // discoveries made before, all at once, to move the request id
	Mid   int `json:",omitempty"` // further discoveries while the first runs
	Down  int `json:",omitempty"` // discoveries made before without a network, followed by answers to them
}

func c20Gen(t *rapid.T) c20Case {
	var c c20Case
	n := rapid.IntRange(1, 5).Draw(t, "discs")
	for i := 0; i < n; i++ {
		d := c20Disc{At: rapid.SampledFrom([]int{0, 0, 1, 5, 500, 1999, 2000, 2001, 3000}).Draw(t, "at")}
		k := rapid.IntRange(0, 6).Draw(t, "answers")
		if rapid.IntRange(0, 9).Draw(t, "burst") == 0 {
			k = 40
		}
		for j := 0; j < k; j++ {
			a := c20Answer{Marks: i*1000 + j*10 + 1}
			switch rapid.IntRange(0, 3).Draw(t, "when") {
			case 0:
				a.At = rapid.IntRange(0, 1990).Draw(t, "ms")
			case 1:
				a.At = rapid.SampledFrom([]int{0, 0, 1, 10, 10, 1000, 1990}).Draw(t, "ms")
			case 2:
				a.Late, a.At = true, rapid.SampledFrom([]int{-2, -1, 0, 0, 0, 1, 2, 10, 500, 3000}).Draw(t, "ms")
			default:
				a.At = rapid.IntRange(0, 5000).Draw(t, "ms")
			}
			if rapid.IntRange(0, 3).Draw(t, "twist") == 0 {
				a.Shift = rapid.SampledFrom([]int{0, 1, 2, -1, 256, 0x8000}).Draw(t, "shift")
				a.Type = rapid.IntRange(0, 1).Draw(t, "type")
				a.Dup = rapid.IntRange(0, 3).Draw(t, "dup")
			}
			d.Answers = append(d.Answers, a)
		}
		if rapid.IntRange(0, 24).Draw(t, "flooded") == 0 {
			d.Flood = rapid.SampledFrom([]int{100, 255, 256, 257, 600, 1500, 3000}).Draw(t, "flood")
			d.From = rapid.IntRange(0, 1500).Draw(t, "from")
			d.Every = rapid.SampledFrom([]int{0, 0, 10, 100}).Draw(t, "every")
		}
		c.Discs = append(c.Discs, d)
	}
	if rapid.IntRange(0, 7).Draw(t, "wrap") == 0 {
		c.Start = rapid.SampledFrom([]int{1, 254, 255, 256, 3000}).Draw(t, "start")
	}
	if rapid.IntRange(0, 19).Draw(t, "crowd") == 0 {
		c.Mid = rapid.SampledFrom([]int{1, 40, 127, 255, 300, 600}).Draw(t, "mid")
	}
	if rapid.IntRange(0, 5).Draw(t, "offline") == 0 {
		c.Down = rapid.IntRange(1, 3).Draw(t, "down")
	}
	return c
}

type arrival struct {
	id   uint16
	mark uint16
	at   time.Duration
}

// boundsOf are the chunks that the answer with a mark lists.
func boundsOf(mark int) []uint16 {
	var v []uint16
	for k := 0; k < mark*7%6; k++ {
		v = append(v, uint16(mark*31+k*1000), uint16(mark*31+k*1000+mark%3))
	}
	return v
}

// window is learnt by measuring: what a discovery takes with nobody answering.
func c20Run(c c20Case, o *core.Obs) error {
	root := core.Scratch()
	defer os.RemoveAll(root)
	return simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		d, err := n.StartDaemon(host, filepath.Join(root, "cat"), filepath.Join(root, "dl"))
		if err != nil {
			return err
		}
		peer := n.AddHost([4]byte{10, 0, 0, 9})
		sock := peer.Listen(simnet.Port)
		blank := (&common.Sha1Hash{}).Blank()
		discover := func() ([]cli.ChimResponse, error, error) {
			var r cli.ChimResponseList
			e, bad := d.Call("discovery", 15*time.Second, func() error { return d.M.Chims(&cli.ChimRequest{Sha1Hash: blank}, &r) })
			return r.Responses, e, bad
		}
		t0 := n.Now()
		if _, _, bad := discover(); bad != nil {
			return bad
		}
		window := n.Now() - t0
		last := uint16(0)
		for _, p := range sock.Drain() {
			if m, ok := wire.Decode(p.Data); ok && m.Kind == wire.DiscoverReq {
				last = m.ID
			}
		}
		if window < time.Second || window > 10*time.Second {
			return core.Fail("window", "a discovery takes %v", window)
		}
		sock.Drain()
		if c.Start > 0 {
			var wg sync.WaitGroup
			for i := 0; i < c.Start; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); discover() }()
			}
			wg.Wait()
			sock.Drain()
			if err := n.Check(); err != nil {
				return err
			}
		}

		if c.Down > 0 {
			o.Label("without-network")
			host.Online = false
			for i := 0; i < c.Down; i++ {
				_, e, bad := discover()
				if bad != nil {
					return bad
				}
				if e == nil {
					return core.Fail("no-error", "a discovery without a network succeeded")
				}
			}
			host.Online = true
			// somebody answers what was never asked
			for i := 0; i < c.Start+c.Down+3; i++ {
				if i == 10 && c.Start > 0 {
					i = max(i, c.Start-3)
				}
				for k := 0; k < 3; k++ {
					sock.Send(simnet.Addr{IP: host.IP, Port: simnet.Port}, wire.Msg{Kind: wire.DiscoverResp, ID: last + uint16(i), Addr: [4]byte{10, 0, 0, 9}, Port: 5}.Encode())
				}
			}
			n.Settle()
			if k := simnet.ClientTasks(); k > 0 {
				return core.Fail("blocked", "%d tasks of the daemon are blocked by answers to discoveries that failed:\n%s", k, simnet.ClientStacks())
			}
		}

		var mu sync.Mutex
		var arrivals []arrival
		n.Arrive = func(p simnet.Packet) {
			if m, ok := wire.Decode(p.Data); ok && p.Dst.IP == host.IP && p.Dst.Port == simnet.Port && m.Kind == wire.DiscoverResp {
				mu.Lock()
				arrivals = append(arrivals, arrival{m.ID, m.Port, n.Now()})
				mu.Unlock()
			}
		}
		own := map[uint16]bool{}
		type result struct {
			id         uint16
			start, end time.Duration
			first      int
			got        []cli.ChimResponse
			err, bad   error
		}
		results := make([]result, len(c.Discs))
		var wg sync.WaitGroup
		// requests are told apart by their order on the wire; to know which belongs to which
		// discovery each is started alone at its instant
		order := make([]int, len(c.Discs))
		for i := range order {
			order[i] = i
		}
		sort.SliceStable(order, func(a, b int) bool { return c.Discs[order[a]].At < c.Discs[order[b]].At })
		base := n.Now()
		for _, i := range order {
			di := c.Discs[i]
			if w := base + time.Duration(di.At)*time.Millisecond - n.Now(); w > 0 {
				n.Sleep(w)
			}
			wg.Add(1)
			r := &results[i]
			n.Settle()
			r.start = n.Now()
			mu.Lock()
			r.first = len(arrivals)
			mu.Unlock()
			go func() {
				defer wg.Done()
				r.got, r.err, r.bad = discover()
				r.end = n.Now()
			}()
			n.Settle()
			found := false
			for _, p := range sock.Drain() {
				m, ok := wire.Decode(p.Data)
				if ok && m.Kind == wire.DiscoverReq && p.Src.IP == host.IP {
					if found {
						return core.Fail("request-twice", "one discovery sent more than one request")
					}
					found = true
					if own[m.ID] {
						return core.Fail("request-id", "request id %d is used by two discoveries at once", m.ID)
					}
					r.id = m.ID
					own[m.ID] = true
				}
			}
			if !found {
				return core.Fail("no-request", "a discovery sent no request")
			}
			for _, a := range di.Answers {
				at := time.Duration(a.At) * time.Millisecond
				if a.Late {
					at += window
				}
				id := r.id + uint16(a.Shift)
				m := wire.Msg{Kind: wire.DiscoverResp, ID: id, Addr: [4]byte{10, 0, 0, 9}, Port: uint16(a.Marks), Bounds: boundsOf(a.Marks)}
				if a.Type == 1 {
					m = wire.Msg{Kind: wire.ListResp, ID: id}
				}
				data := m.Encode()
				for k := 0; k <= a.Dup; k++ {
					time.AfterFunc(at, func() {
						sock.Send(simnet.Addr{IP: host.IP, Port: simnet.Port}, data)
					})
				}
			}
			for k := 0; k < di.Flood; k++ {
				data := wire.Msg{Kind: wire.DiscoverResp, ID: r.id, Addr: [4]byte{10, 0, 0, 9}, Port: uint16(20000 + k), Bounds: boundsOf(20000 + k)}.Encode()
				time.AfterFunc(time.Duration(di.From)*time.Millisecond+time.Duration(k*di.Every)*time.Microsecond, func() {
					sock.Send(simnet.Addr{IP: host.IP, Port: simnet.Port}, data)
				})
			}
			o.LabelIf(len(di.Answers) >= 40, "burst")
			o.LabelIf(di.Flood > 0, "flood")
			if i == order[0] {
				for k := 0; k < c.Mid; k++ {
					wg.Add(1)
					go func() { defer wg.Done(); discover() }()
				}
				n.Settle()
				for _, p := range sock.Drain() {
					if m, ok := wire.Decode(p.Data); ok && m.Kind == wire.DiscoverReq && m.ID == r.id {
						return core.Fail("request-id", "request id %d is used by two discoveries at once", m.ID)
					}
				}
				o.LabelIf(c.Mid > 0, "crowd")
			}
		}
		wg.Wait()
		n.Sleep(6 * time.Second)
		if err := n.Check(); err != nil {
			return err
		}
		for i, r := range results {
			if r.bad != nil {
				return r.bad
			}
			if r.err != nil {
				return core.Fail("error", "discovery %d failed: %v", i, r.err)
			}
			if dur := r.end - r.start; dur > window+time.Second {
				return core.Fail("slow", "discovery %d took %v, usually %v", i, dur, window)
			}
			must, may := map[uint16]int{}, map[uint16]int{}
			first := map[uint16][]time.Duration{}
			for k, a := range arrivals {
				if a.id != r.id || k < r.first {
					continue
				}
				switch {
				case a.at < r.end:
					must[a.mark]++
				case a.at == r.end:
					may[a.mark]++
					o.Label("answer-as-the-window-closes")
				default:
					if a.at < r.start+window {
						return core.Fail("short", "discovery %d ended after %v, usually %v, and lost an answer that came after %v", i, r.end-r.start, window, a.at-r.start)
					}
					o.Label("late-answer")
					continue
				}
				first[a.mark] = append(first[a.mark], a.at)
			}
			got := map[uint16]int{}
			var lastAt time.Duration
			for _, g := range r.got {
				ts := first[g.HostPort]
				if g.HostPort != simnet.Port && (fmt.Sprint(g.Chunks) != fmt.Sprint(append([]uint16{}, boundsOf(int(g.HostPort))...)) || g.HostIP != [4]byte{10, 0, 0, 9}) {
					return core.Fail("answer", "discovery %d returned %+v for the answer that lists %v", i, g, boundsOf(int(g.HostPort)))
				}
				k := got[g.HostPort]
				got[g.HostPort]++
				if k >= len(ts) {
					return core.Fail("stranger", "discovery %d (id %d) returned an answer (%d) that no host gave it, or too often", i, r.id, g.HostPort)
				}
				if ts[k] < lastAt {
					return core.Fail("order", "discovery %d returned an answer that arrived at %v after one that arrived at %v", i, ts[k], lastAt)
				}
				lastAt = ts[k]
			}
			for m, k := range must {
				if got[m] < k {
					return core.Fail("lost-answer", "discovery %d returned answer %d %d times, %d copies arrived within its %v", i, m, got[m], k, r.end-r.start)
				}
				o.Label("timely-answer")
			}
			for m, k := range got {
				if k > must[m]+may[m] {
					return core.Fail("stranger", "answer %d came %d times, returned %d times", m, must[m]+may[m], k)
				}
			}
		}
		// nothing is wedged
		got, e, bad := discover()
		if bad != nil {
			return bad
		}
		if e != nil || len(got) != 0 && false {
			return core.Fail("later-discovery", "a later discovery failed: %v", e)
		}
		for _, g := range got {
			if g.HostPort != simnet.Port {
				return core.Fail("later-discovery", "a later discovery returned an old answer %d", g.HostPort)
			}
		}
		if k := simnet.ClientTasks(); k > 0 {
			return core.Fail("blocked", "%d tasks of the daemon are still there:\n%s", k, simnet.ClientStacks())
		}
		if p := host.Ports(); len(p) != 1 {
			return core.Fail("sockets", "sockets %v are open", p)
		}
		return nil
	})
}

func init() {
	core.Register(core.Sub{Prop: "C20", Name: "discoveries", Quick: 4000, Thorough: 80000,
		Rule: "up to 5 overlapping discoveries against a scripted host whose answers come at any time, duplicated, in bursts (of up to 3000), late, at the instant the window closes, with other request ids or of another type; every result must be exactly the answers with its id that arrived while it ran, in order; non-trivial with at least two answers"},
		c20Gen, func(c c20Case, o *core.Obs) error {
			n := 0
			for _, d := range c.Discs {
				n += len(d.Answers) + d.Flood
			}
			if n >= 2 {
				o.NT()
			}
			return c20Run(c, o)
		})
}
