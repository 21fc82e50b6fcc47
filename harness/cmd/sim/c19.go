package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"pgregory.net/rapid"
)

type dQuery struct {
	Peer, Port int
	ID         uint16
	File       int // -1 the blank hash, -2 unknown
	Bounds     []uint16
	Pad        int
}

type dStep struct {
	Queries []dQuery // all at the same instant
	K       string   // save, add, remove, again (remove and add, with other chunks held), move, restart; empty: only the queries
	File    int
	Chunk   int
}

type answerCase struct {
	Files []fileSpec
	There []bool // in the catalogue from the start
	Steps []dStep
}

func genAnswers(t *rapid.T) answerCase {
	var c answerCase
	n := rapid.IntRange(1, 3).Draw(t, "files")
	for i := 0; i < n; i++ {
		f := fileSpec{Seed: uint64(i)*1000 + rapid.Uint64Range(0, 99).Draw(t, "seed")}
		if chance(t, "shared", 3) {
			f.Size = rapid.IntRange(0, 3000).Draw(t, "size")
		} else {
			f.Chunk = rapid.IntRange(1, 20).Draw(t, "chunk")
			k := rapid.IntRange(1, 20).Draw(t, "chunks")
			every := 2
			if chance(t, "many", 4) {
				k = pick(t, "manychunks", 63, 64, 65, 128, 254, 255, 256, 257, 300, 520)
				f.Chunk = 1 + f.Chunk%3
			}
			f.Size = (k-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
			switch rapid.IntRange(0, 3).Draw(t, "pattern") {
			case 0: // every other
				for j := rapid.IntRange(0, 1).Draw(t, "from"); j < k; j += every {
					f.Held = append(f.Held, j)
				}
			case 1:
				for j := 0; j < k; j++ {
					f.Held = append(f.Held, j)
				}
			default:
				for j := 0; j < k; j++ {
					if rapid.IntRange(0, 2).Draw(t, "held") > 0 {
						f.Held = append(f.Held, j)
					}
				}
			}
		}
		c.Files = append(c.Files, f)
		c.There = append(c.There, !chance(t, "later", 4))
	}
	distinct(c.Files)
	query := func() dQuery {
		q := dQuery{Peer: rapid.IntRange(2, 4).Draw(t, "peer"), Port: pick(t, "port", simnet.Port, 40001, 5), ID: rapid.Uint16().Draw(t, "id"), File: rapid.IntRange(-2, n-1).Draw(t, "file")}
		if q.File < 0 && rapid.Bool().Draw(t, "known") {
			q.File = 0
		}
		if rapid.Bool().Draw(t, "bounds") {
			top := 10
			if q.File >= 0 {
				top = c.Files[q.File].chunks()
			}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0: // sorted
				at := 0
				for k := rapid.IntRange(1, 6).Draw(t, "ranges"); k > 0; k-- {
					a := at + rapid.IntRange(0, 5).Draw(t, "gap")
					b := a + rapid.IntRange(0, 1+top/3).Draw(t, "len")
					q.Bounds = append(q.Bounds, uint16(a), uint16(b))
					at = b + 1
				}
			case 1:
				q.Bounds = []uint16{0, uint16(pick(t, "end", top-1, top, top+1, 63, 64, 65535))}
			case 2:
				q.Bounds = rapid.SliceOfN(rapid.Uint16Range(0, uint16(top+3)), 1, 12).Draw(t, "any")
			case 3:
				q.Bounds = rapid.SliceOfN(rapid.Uint16(), 1, 255).Draw(t, "wild")
			}
		}
		if chance(t, "pad", 5) {
			q.Pad = rapid.IntRange(1, 40).Draw(t, "padding")
		}
		return q
	}
	for k := rapid.IntRange(1, 10).Draw(t, "steps"); k > 0; k-- {
		s := dStep{K: pick(t, "what", "", "", "save", "save", "add", "remove", "again", "move", "restart"), File: rapid.IntRange(0, n-1).Draw(t, "which")}
		s.Chunk = rapid.IntRange(0, max(0, c.Files[s.File].chunks()-1)).Draw(t, "chunk")
		seen := map[string]bool{}
		top := rapid.IntRange(1, 4).Draw(t, "queries")
		if chance(t, "flurry", 100) {
			top = rapid.IntRange(50, 400).Draw(t, "flurries")
		}
		for j := top; j > 0; j-- {
			q := query()
			k := fmt.Sprint(q.Peer, q.ID)
			if !seen[k] {
				seen[k] = true
				s.Queries = append(s.Queries, q)
			}
		}
		if s.K == "again" {
			q := dQuery{Peer: 2, Port: simnet.Port, ID: rapid.Uint16().Draw(t, "wholeid"), File: s.File}
			c.Steps = append(c.Steps, dStep{K: "add", File: s.File, Queries: []dQuery{q}})
			s.Queries = []dQuery{q}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// rangesOf lists the maximal runs of held chunks between a and b.
func rangesOf(held map[int]bool, a, b int) (v [][2]int) {
	for i := a; i <= b; i++ {
		if !held[i] {
			continue
		}
		if len(v) > 0 && v[len(v)-1][1] == i-1 {
			v[len(v)-1][1] = i
		} else {
			v = append(v, [2]int{i, i})
		}
	}
	return
}

// checkAnswer compares the ranges a host answered with those it holds.
func checkAnswer(q dQuery, held map[int]bool, chunks int, got []uint16) error {
	var want [][2]int
	set := map[int]bool{}
	tidy, last := true, -1
	if len(q.Bounds) == 0 {
		want = rangesOf(held, 0, chunks)
	} else {
		for i := 0; i < len(q.Bounds); i += 2 {
			if i+1 == len(q.Bounds) || q.Bounds[i] > q.Bounds[i+1] {
				tidy = false
				continue
			}
			if int(q.Bounds[i]) <= last {
				tidy = false
			}
			last = int(q.Bounds[i+1])
			want = append(want, rangesOf(held, int(q.Bounds[i]), min(int(q.Bounds[i+1]), chunks))...)
		}
	}
	for _, r := range want {
		for i := r[0]; i <= r[1]; i++ {
			set[i] = true
		}
	}
	if len(got)%2 != 0 || len(got) > 254 {
		return core.Fail("odd-answer", "the answer has %d bounds", len(got))
	}
	answered := map[int]bool{}
	for i := 0; i < len(got); i += 2 {
		a, b := int(got[i]), int(got[i+1])
		if a > b {
			return core.Fail("bad-range", "the answer has the range %d to %d", a, b)
		}
		for k := a; k <= b; k++ {
			if !set[k] {
				return core.Fail("not-held", "the answer to %v claims chunk %d, which is not held or was not asked for (answer %v)", q.Bounds, k, got)
			}
			answered[k] = true
		}
	}
	if tidy {
		k := min(len(want), 127)
		ok := len(got) == 2*k
		for i := 0; ok && i < k; i++ {
			ok = int(got[2*i]) == want[i][0] && int(got[2*i+1]) == want[i][1]
		}
		if !ok {
			return core.Fail("ranges", "the answer to %v is %v, want the ranges %v", q.Bounds, got, want[:k])
		}
		return nil
	}
	if len(got)/2 < 127 && len(answered) != len(set) {
		return core.Fail("left-out", "the answer to %v is %v and leaves out held chunks (want %v)", q.Bounds, got, want)
	}
	return nil
}

func runAnswers(c answerCase, o *core.Obs, root string) error {
	return simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		start := func() (*simnet.Daemon, error) {
			return n.StartDaemon(host, filepath.Join(root, "cat"), filepath.Join(root, "dl"))
		}
		d, err := start()
		if err != nil {
			return err
		}
		in := make([]bool, len(c.Files))
		held := make([]map[int]bool, len(c.Files))
		turn := 0
		add := func(i int) error {
			f := c.Files[i]
			if turn > 0 {
				f.Held = append([]int(nil), f.Held...)
				for j := range f.Held {
					f.Held[j] = (f.Held[j] + turn) % f.chunks()
				}
			}
			if in[i] {
				return nil
			}
			if err := place(d, f, i, filepath.Join(root, "user")); err != nil {
				return err
			}
			in[i], held[i] = true, map[int]bool{}
			for _, k := range f.Held {
				held[i][k] = true
			}
			if f.Chunk == 0 {
				for k := 0; k < f.chunks(); k++ {
					held[i][k] = true
				}
			}
			return nil
		}
		for i, there := range c.There {
			if there {
				if err := add(i); err != nil {
					return err
				}
			}
		}
		answers, asks := map[int]*simnet.Sock{}, map[[2]int]*simnet.Sock{}
		for i := 2; i <= 4; i++ {
			ph := n.AddHost([4]byte{10, 0, 0, byte(i)})
			answers[i] = ph.Listen(simnet.Port)
			asks[[2]int{i, simnet.Port}] = answers[i]
			for _, p := range []int{40001, 5} {
				asks[[2]int{i, p}] = ph.Listen(uint16(p))
			}
		}
		for si, s := range c.Steps {
			f := c.Files[s.File]
			switch s.K {
			case "save":
				if f.Chunk == 0 || !in[s.File] {
					break
				}
				e, b := d.Call("save", time.Minute, func() error {
					return d.Cat.SaveChunk(hashOf(f.bytes()), uint16(s.Chunk), append([]byte(nil), chunkOf(f.bytes(), f.Chunk, s.Chunk)...))
				})
				if b != nil {
					return b
				}
				if e != nil {
					return core.Fail("setup", "saving a chunk failed: %v", e)
				}
				held[s.File][s.Chunk] = true
			case "add":
				if err := add(s.File); err != nil {
					return err
				}
			case "remove", "again":
				if !in[s.File] {
					break
				}
				e, b := d.Call("remove", time.Minute, func() error { return d.Cat.UnshareFile(hashOf(f.bytes())) })
				if b != nil {
					return b
				}
				if e != nil {
					return core.Fail("setup", "removing failed: %v", e)
				}
				in[s.File], held[s.File] = false, nil
				os.Remove(filepath.Join(root, "dl", f.name(s.File)))
				if s.K == "again" {
					turn = 1 + s.Chunk
					err := add(s.File)
					turn = 0
					if err != nil {
						return err
					}
				}
			case "move":
				host.Move([4]byte{10, 0, 0, byte(100 + si)})
				o.Label("new-address")
			case "restart":
				ip := host.IP
				host.Kill()
				n.Settle()
				host = n.AddHost(ip)
				if d, err = start(); err != nil {
					return err
				}
			}
			for _, q := range s.Queries {
				m := wire.Msg{Kind: wire.DiscoverReq, ID: q.ID, Bounds: q.Bounds}
				switch {
				case q.File == -1:
					for i := range m.Hash {
						m.Hash[i] = 0xff
					}
				case q.File == -2:
					m.Hash = sha1.Sum([]byte("unknown"))
				default:
					m.Hash = sha1.Sum(c.Files[q.File].bytes())
				}
				// all 255 bounds the format can count, also an odd number of them
				raw := m.Encode()
				if len(q.Bounds) > 254 {
					raw = append(raw, byte(q.Bounds[254]>>8), byte(q.Bounds[254]))
					raw[23] = 255
				}
				raw = append(raw, make([]byte, q.Pad)...)
				asks[[2]int{q.Peer, q.Port}].Send(simnet.Addr{IP: host.IP, Port: simnet.Port}, raw)
			}
			n.Settle()
			n.Sleep(10 * time.Millisecond)
			if err := n.Check(); err != nil {
				return err
			}
			for i := 2; i <= 4; i++ {
				byID := map[uint16][]wire.Msg{}
				for _, p := range answers[i].Drain() {
					m, ok := wire.Decode(p.Data)
					if !ok || m.Kind != wire.DiscoverResp {
						return core.Fail("kind", "the host answered with % x", p.Data)
					}
					byID[m.ID] = append(byID[m.ID], m)
				}
				for _, port := range []int{40001, 5} {
					if v := asks[[2]int{i, port}].Drain(); len(v) > 0 {
						return core.Fail("port", "the answer was sent to port %d instead of the daemon's", port)
					}
				}
				for _, q := range s.Queries {
					if q.Peer != i {
						continue
					}
					v := byID[q.ID]
					delete(byID, q.ID)
					if len(v) != 1 {
						return core.Fail("answers", "a request got %d answers with its id", len(v))
					}
					m := v[0]
					if m.Addr != host.IP || m.Port != simnet.Port {
						return core.Fail("address", "the host %v answered that it is %v port %d", host.IP, m.Addr, m.Port)
					}
					if q.File < 0 || !in[q.File] {
						if len(m.Bounds) > 0 {
							return core.Fail("unknown-file", "the host claims chunks %v of a file it does not know", m.Bounds)
						}
						o.Label("nothing-to-tell")
						continue
					}
					f := c.Files[q.File]
					if err := checkAnswer(q, held[q.File], f.chunks(), m.Bounds); err != nil {
						return err
					}
					o.LabelIf(len(m.Bounds) == 254, "clipped-to-127-ranges")
					o.Label("chunks-told")
				}
				if len(byID) > 0 {
					return core.Fail("stray", "the host answered requests nobody made")
				}
			}
		}
		return n.Check()
	})
}

func init() {
	core.Register(core.Sub{Prop: "C19", Name: "answers", Quick: 12000, Thorough: 300000,
		Rule: "scripted peers ask a daemon about shared files, partial downloads, removed and unknown files and the blank hash, with no, sorted, overlapping, malformed or wild ranges, several at once from any port, while chunks are saved, files come and go, the host restarts or changes its address; non-trivial when a known file is asked about after something changed"},
		genAnswers, func(c answerCase, o *core.Obs) error {
			changed := false
			for _, s := range c.Steps {
				changed = changed || s.K != ""
				for _, q := range s.Queries {
					if changed && q.File >= 0 {
						o.NT()
					}
				}
			}
			root := core.Scratch()
			defer os.RemoveAll(root)
			return runAnswers(c, o, root)
		})
}
