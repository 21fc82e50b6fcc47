package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"flucheck/core"
	"flucheck/simnet"

	"github.com/flu-network/client/cli"
	"pgregory.net/rapid"
)

type swarmCase struct {
	File    fileSpec
	Holders [][]int // chunks each holds; one empty list: a host that shared the file
	Jitter  []int   // ms
	Lose    []int   // packets, counted over the whole history
	Dup     []int   // packets that arrive twice, the second time later
	Onward  bool
	Gets    int // further gets while the download runs
	Echo    int `json:",omitempty"` // every so many packets arrive twice
	EchoMs  int `json:",omitempty"`
}

var oddNames = []string{"a.bin", "with space.txt", "ünïcödé.dat", ".hidden", "-dash", "trailing.", strings.Repeat("n", 200), "new\nline", "日本語", "a..b", "..."}

func genSwarm(t *rapid.T) swarmCase {
	var c swarmCase
	f := &c.File
	f.Seed = rapid.Uint64Range(1, 1<<40).Draw(t, "seed")
	f.Name = pick(t, "name", oddNames...)
	big := chance(t, "big", 50)
	giant := big && chance(t, "giant", 5)
	shared := !giant && (big || rapid.Bool().Draw(t, "shared"))
	switch {
	case giant: // a build that cuts files into larger chunks
		f.Chunk = pick(t, "giantchunk", shareChunk+1, 2*shareChunk+1, 5000000, 20000000, 1<<26)
		f.Size = pick(t, "giantsize", f.Chunk, f.Chunk-4000, f.Chunk+1)
	case big:
		f.Size = pick(t, "size", shareChunk, shareChunk+1, shareChunk-1, 2*shareChunk+12345, 100000)
	case shared:
		f.Size = rapid.OneOf(rapid.IntRange(1, 40000), rapid.SampledFrom([]int{1, 999, 1000, 1001, 1023, 1024, 1025, 2024})).Draw(t, "size")
	default:
		f.Chunk = rapid.OneOf(rapid.IntRange(1, 4000), rapid.SampledFrom([]int{1, 1000, 1024, 2024})).Draw(t, "chunk")
		n := rapid.IntRange(1, 9).Draw(t, "chunks")
		if chance(t, "many", 20) {
			n = rapid.IntRange(100, 300).Draw(t, "manychunks")
			f.Chunk = f.Chunk%20 + 1
		}
		f.Size = (n-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
	}
	k := rapid.IntRange(1, 3).Draw(t, "holders")
	if shared {
		for i := 0; i < k; i++ {
			c.Holders = append(c.Holders, nil)
		}
	} else {
		c.Holders = make([][]int, k)
		for i := 0; i < f.chunks(); i++ { // every chunk is somewhere
			who := rapid.IntRange(1, 1<<k-1).Draw(t, "who")
			for j := 0; j < k; j++ {
				if who>>j&1 == 1 {
					c.Holders[j] = append(c.Holders[j], i)
				}
			}
		}
	}
	c.Jitter = []int{0}
	if !big && rapid.Bool().Draw(t, "jittery") {
		c.Jitter = rapid.SliceOfN(rapid.IntRange(0, pick(t, "jitter", 3, 50, 400)), 1, 12).Draw(t, "jitters")
	}
	if big && chance(t, "far", 3) { // a network that takes its time
		c.Jitter = []int{pick(t, "latency", 5, 50, 200, 450)}
	}
	top := 60
	if big {
		top = 9000
	}
	if rapid.Bool().Draw(t, "lossy") {
		c.Lose = rapid.SliceOfN(rapid.IntRange(0, top), 1, 8).Draw(t, "lose")
	}
	if rapid.Bool().Draw(t, "dups") {
		c.Dup = rapid.SliceOfN(rapid.IntRange(0, top), 1, 20).Draw(t, "dup")
	}
	c.Onward = rapid.Bool().Draw(t, "onward")
	if chance(t, "again", 4) {
		c.Gets = rapid.IntRange(1, 3).Draw(t, "gets")
	}
	if c.Jitter[0] > 0 && big {
		return c // whole windows arrive at once: twice as much would not fit the buffers
	}
	if chance(t, "echoes", 3) {
		c.Echo = pick(t, "echo", 1, 1, 2, 3, 7)
		c.EchoMs = pick(t, "echoms", 0, 0, 1, 5, 60)
	}
	return c
}

func runSwarm(c swarmCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		f := c.File
		data := f.bytes()
		hash := hashOf(data)
		big := len(data) > 90000
		start := func(i int) (*simnet.Daemon, error) {
			h := n.AddHost([4]byte{10, 0, 0, byte(i)})
			h.Buffer = simnet.DefaultBuffer
			return n.StartDaemon(h, filepath.Join(root, fmt.Sprint("cat", i)), filepath.Join(root, fmt.Sprint("dl", i)))
		}
		var holders []*simnet.Daemon
		for i, held := range c.Holders {
			d, err := start(10 + i)
			if err != nil {
				return err
			}
			g := f
			g.Held = held
			if err := place(d, g, i, filepath.Join(root, fmt.Sprint("user", i))); err != nil {
				return err
			}
			holders = append(holders, d)
		}
		var mu sync.Mutex
		count := 0
		lose, dup := map[int]bool{}, map[int]bool{}
		for _, i := range c.Lose {
			lose[i] = true
		}
		for _, i := range c.Dup {
			dup[i] = true
		}
		n.Policy = func(p *simnet.Packet, to [4]byte) []time.Duration {
			mu.Lock()
			defer mu.Unlock()
			count++
			w := ms(c.Jitter[count%len(c.Jitter)])
			switch {
			case lose[count]:
				return nil
			case dup[count]:
				return []time.Duration{w, w + ms(count%40)}
			}
			if c.Echo > 0 && count%c.Echo == 0 {
				return []time.Duration{w, w + ms(c.EchoMs)}
			}
			return []time.Duration{w}
		}
		o.LabelIf(c.Echo > 0, "echo")
		fetch := func(d *simnet.Daemon, dl string, from string) error {
			var err error
			for try := 0; ; try++ {
				var b error
				err, b = d.Call("get", 30*time.Second, func() error { return d.M.Get(&cli.GetRequest{Sha1Hash: hash}, &cli.GetResponse{}) })
				if b != nil {
					return b
				}
				if err == nil {
					break
				}
				if try > 2*len(c.Lose) {
					return core.Fail("get", "get from %s fails although the host answers: %v", from, err)
				}
			}
			for i := 0; i < c.Gets; i++ {
				n.Sleep(ms(700 * i))
				if _, b := d.Call("get", 30*time.Second, func() error { return d.M.Get(&cli.GetRequest{Sha1Hash: hash}, &cli.GetResponse{}) }); b != nil {
					return b
				}
			}
			limit := n.Now() + time.Duration(f.chunks())*10*time.Second*time.Duration(1+len(c.Holders)) + time.Duration(len(c.Lose)+2)*2*time.Minute
			// a round trip for every 32 packets, if not all goes well
			limit += ms(2*slices.Max(c.Jitter)) * time.Duration(f.Size/32000+1) * time.Duration(2+len(c.Lose))
			o.LabelIf(big && slices.Max(c.Jitter) > 0, "slow-network")
			for {
				l, e, b := listOf(d)
				if b != nil {
					return b
				}
				if e != nil {
					return core.Fail("list", "listing fails: %v", e)
				}
				if len(l.Items) != 1 {
					return core.Fail("index", "after get, the index has %d files", len(l.Items))
				}
				it := l.Items[0]
				if it.ChunksDownloaded == it.ChunkCount {
					want := filepath.Join(dl, f.name(0))
					if it.FilePath != want {
						return core.Fail("name", "the file is listed as %q, want %q", it.FilePath, want)
					}
					if it.SizeInBytes != int64(f.Size) || it.Sha1Hash != sha1.Sum(data) || it.ChunkCount != f.chunks() || it.ChunkSizeInBytes != f.chunkSize() {
						return core.Fail("listed", "the download is listed with %d bytes, hash %x, %d chunks of %d", it.SizeInBytes, it.Sha1Hash, it.ChunkCount, it.ChunkSizeInBytes)
					}
					disk, err := os.ReadFile(want)
					if err != nil {
						return core.Fail("missing", "the download is complete but: %v", err)
					}
					if string(disk) != string(data) {
						return core.Fail("content", "the download is complete but differs from the original (%d and %d bytes)", len(disk), len(data))
					}
					es, _ := os.ReadDir(dl)
					if len(es) != 1 {
						return core.Fail("extra", "the downloads folder has %d entries", len(es))
					}
					return nil
				}
				if n.Now() > limit {
					return core.Fail("incomplete", "after %v the download from %s has %d of %d chunks\n%s", n.Now(), from, it.ChunksDownloaded, it.ChunkCount, simnet.ClientStacks())
				}
				n.Sleep(3 * time.Second)
			}
		}
		a, err := start(1)
		if err != nil {
			return err
		}
		if err := fetch(a, filepath.Join(root, "dl1"), "the holders"); err != nil {
			return err
		}
		if c.Onward {
			n.Sleep(20 * time.Second)
			for _, h := range holders {
				h.Kill()
			}
			b, err := start(2)
			if err != nil {
				return err
			}
			if err := fetch(b, filepath.Join(root, "dl2"), "the host that downloaded it"); err != nil {
				err.(*core.Violation).Sig = "onward-" + err.(*core.Violation).Sig
				return err
			}
			o.Label("onward")
		}
		o.LabelIf(count > 3000, "large")
		hit := 0
		for i := range lose {
			if i <= count {
				hit++
			}
		}
		o.LabelIf(hit > 0, "packets-lost")
		o.LabelIf(n.Overflows > 0, "buffer-overflow")
		n.Sleep(time.Minute)
		bad("C23", leaks(a, root))
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C17", "C23"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

func init() {
	for _, prop := range []string{"C17", "C23"} {
		q, th := 2400, 60000
		if prop == "C23" {
			q, th = 600, 20000
		}
		core.Register(core.Sub{Prop: prop, Name: "swarm", Quick: q, Thorough: th, Watchdog: 120 * time.Second,
			Rule: "a file of any size and odd name is shared by hosts or spread over partial holders; another daemon gets it over a network that delays, reorders, repeats and loses packets, and a third gets it from there once the others are gone; non-trivial with several chunks, several holders, loss, jitter or an onward download"},
			genSwarm, func(c swarmCase, o *core.Obs) error {
				if c.File.chunks() > 1 || len(c.Holders) > 1 || len(c.Lose) > 0 || len(c.Jitter) > 1 || c.Onward {
					o.NT()
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runSwarm(c, o, root))
			})
	}
}
