package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// crowdCase gets many files at once.
type crowdCase struct {
	Files   []fileSpec
	Holders []int // per file, a mask of the two holders
	Gaps    []int // ms between one get and the next
	Getters int
	Drop    []int // files that are unshared after so many ms
	DropMs  int
	Jitter  []int // ms
	Lose    []int
	MoveMs  int `json:",omitempty"` // when the first daemon's host gets another address
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{Getters: rapid.IntRange(1, 2).Draw(t, "getters"), Jitter: []int{0}}
	k := rapid.OneOf(rapid.IntRange(2, 30), rapid.IntRange(8, 30)).Draw(t, "files")
	for i := 0; i < k; i++ {
		f := fileSpec{Seed: uint64(i)*1000 + rapid.Uint64Range(1, 900).Draw(t, "seed"), Name: fmt.Sprintf("f%d.bin", i)}
		n := rapid.IntRange(1, 4).Draw(t, "chunks")
		f.Chunk = rapid.IntRange(1, 3000).Draw(t, "chunk")
		f.Size = (n-1)*f.Chunk + rapid.IntRange(1, f.Chunk).Draw(t, "tail")
		for j := 0; j < n; j++ {
			f.Held = append(f.Held, j)
		}
		c.Files = append(c.Files, f)
		c.Holders = append(c.Holders, rapid.IntRange(1, 3).Draw(t, "who"))
		c.Gaps = append(c.Gaps, pick(t, "gap", 0, 0, 0, 1, 100, 2000))
	}
	distinct(c.Files)
	if chance(t, "drops", 3) {
		c.Drop = rapid.SliceOfNDistinct(rapid.IntRange(0, k-1), 1, min(k, 5), rapid.ID[int]).Draw(t, "drop")
		c.DropMs = rapid.IntRange(0, 8000).Draw(t, "dropms")
	}
	if chance(t, "jittery", 3) {
		c.Jitter = rapid.SliceOfN(rapid.IntRange(0, 50), 1, 9).Draw(t, "jitter")
	}
	if chance(t, "moves", 4) {
		c.MoveMs = rapid.IntRange(1, 7000).Draw(t, "movems")
	}
	if chance(t, "lossy", 3) {
		c.Lose = rapid.SliceOfN(rapid.IntRange(1, 400), 1, 8).Draw(t, "lose")
	}
	return c
}

func runCrowd(c crowdCase, o *core.Obs, root string) (found []tagged) {
	bad := func(prop string, err error) {
		if err != nil {
			found = append(found, tagged{prop, err})
		}
	}
	err := simnet.Run(func(n *simnet.Net) error {
		start := func(i int) (*simnet.Daemon, error) {
			h := n.AddHost([4]byte{10, 0, 0, byte(i)})
			return n.StartDaemon(h, filepath.Join(root, fmt.Sprint("cat", i)), filepath.Join(root, fmt.Sprint("dl", i)))
		}
		hashes := make([]*common.Sha1Hash, len(c.Files))
		for i, f := range c.Files {
			hashes[i] = hashOf(f.bytes())
		}
		for j := 0; j < 2; j++ {
			d, err := start(10 + j)
			if err != nil {
				return err
			}
			for i, f := range c.Files {
				if c.Holders[i]>>j&1 == 1 {
					if err := place(d, f, i, ""); err != nil {
						return err
					}
				}
			}
		}
		var mu sync.Mutex
		type asked struct {
			by, of [4]byte
			hash   [20]byte
			chunk  uint16
		}
		opens := map[asked]int{}
		at, count := map[asked]time.Duration{}, 0
		lose := map[int]bool{}
		for _, i := range c.Lose {
			lose[i] = true
		}
		calm := len(c.Lose) == 0 && len(c.Jitter) == 1 && c.Getters == 1 && c.MoveMs == 0
		index := map[[20]byte]int{}
		for i, h := range hashes {
			index[h.Data] = i
		}
		n.Policy = func(p *simnet.Packet, to [4]byte) []time.Duration {
			mu.Lock()
			defer mu.Unlock()
			count++
			if m, ok := wire.Decode(p.Data); ok && m.Kind == wire.Open {
				a := asked{by: p.Src.IP, hash: m.Hash, chunk: m.Chunk}
				opens[a]++
				at[a] = n.Now()
				i, known := index[m.Hash]
				switch {
				case to[3]/2 != 5 && to != p.Src.IP: // the other one that downloads
				case !known || to[3]/2 != 5 || c.Holders[i]>>(to[3]-10)&1 == 0:
					bad("C25", core.Fail("wrong-host", "%v is asked for chunk %d of %x, of which it has nothing", to, m.Chunk, m.Hash))
				case int(m.Chunk) >= c.Files[i].chunks():
					bad("C25", core.Fail("wrong-chunk", "chunk %d of a file of %d chunks is requested", m.Chunk, c.Files[i].chunks()))
				case calm && opens[a] > 1:
					bad("C25", core.Fail("again", "chunk %d of file %d is requested again though nothing was lost", m.Chunk, i))
				}
			}
			if lose[count] {
				return nil
			}
			return []time.Duration{ms(c.Jitter[count%len(c.Jitter)])}
		}
		dropped := map[int]bool{}
		for _, i := range c.Drop {
			dropped[i] = true
		}
		var getters []*simnet.Daemon
		for k := 0; k < c.Getters; k++ {
			d, err := start(1 + k)
			if err != nil {
				return err
			}
			getters = append(getters, d)
		}
		host := n.Host(getters[0].IP)
		moved := make(chan struct{})
		go func() {
			if c.MoveMs > 0 {
				time.Sleep(ms(c.MoveMs))
				host.Move([4]byte{10, 0, 0, 60})
				o.Label("moved")
			}
			close(moved)
		}()
		var wg sync.WaitGroup
		var calls []error
		for k, d := range getters {
			wg.Add(len(c.Files))
			for i := range c.Files {
				if k == 0 {
					n.Sleep(ms(c.Gaps[i]))
				}
				go func() {
					defer wg.Done()
					for try := 0; ; try++ {
						err, b := d.Call("get", 30*time.Second, func() error { return d.M.Get(&cli.GetRequest{Sha1Hash: hashes[i]}, &cli.GetResponse{}) })
						if b == nil && err == nil {
							return
						}
						if b == nil && try > 2*len(c.Lose)+c.MoveMs {
							b = core.Fail("get", "get of file %d of %d fails although hosts have it: %v", i, len(c.Files), err)
						}
						if b != nil {
							mu.Lock()
							calls = append(calls, b)
							mu.Unlock()
							return
						}
					}
				}()
			}
		}
		wg.Wait()
		<-moved
		if len(calls) > 0 {
			return calls[0]
		}
		n.Sleep(ms(c.DropMs))
		for i := range dropped {
			if err, b := getters[0].Call("unshare", time.Minute, func() error { return getters[0].Cat.UnshareFile(hashes[i]) }); b != nil {
				return b
			} else if err != nil {
				return core.Fail("unshare", "removing file %d fails: %v", i, err)
			}
		}
		gone := n.Now()
		limit := n.Now() + 2*time.Minute + time.Duration(len(c.Lose))*time.Minute
		for k, d := range getters {
			for {
				l, e, b := listOf(d)
				if b != nil {
					return b
				}
				if e != nil {
					return core.Fail("list", "listing fails: %v", e)
				}
				want, full := len(c.Files), 0
				if k == 0 {
					want -= len(dropped)
				}
				for _, it := range l.Items {
					if it.ChunksDownloaded == it.ChunkCount {
						full++
					}
				}
				if len(l.Items) != want {
					return core.Fail("index", "%d files are listed, want %d", len(l.Items), want)
				}
				if full == want {
					break
				}
				if n.Now() > limit {
					return core.Fail("incomplete", "of %d downloads at once %d are complete after %v\n%s", want, full, n.Now(), simnet.ClientStacks())
				}
				n.Sleep(3 * time.Second)
			}
			for i, f := range c.Files {
				if k == 0 && dropped[i] {
					continue
				}
				p := filepath.Join(root, fmt.Sprint("dl", k+1), f.Name)
				b, err := os.ReadFile(p)
				if err != nil || string(b) != string(f.bytes()) {
					bad("C17", core.Fail("content", "file %d of %d is complete but differs (%d bytes, %v)", i, len(c.Files), len(b), err))
				}
			}
		}
		n.Sleep(2 * time.Minute)
		mu.Lock()
		for a, t := range at {
			if (a.by == getters[0].IP || a.by == [4]byte{10, 0, 0, 60}) && dropped[index[a.hash]] && t > gone+time.Minute {
				bad("C25", core.Fail("not-stopped", "chunk %d of a file that was removed is requested %v later", a.chunk, t-gone))
			}
		}
		mu.Unlock()
		for _, d := range getters {
			bad("C23", leaks(d, root))
		}
		o.LabelIf(len(c.Files) > 8, "crowd")
		o.LabelIf(len(dropped) > 0, "some-removed")
		o.LabelIf(calm, "calm")
		o.LabelIf(n.Overflows > 0, "buffer-overflow")
		return n.Check()
	})
	if err != nil {
		for _, p := range []string{"C17", "C23", "C25"} {
			found = append(found, tagged{p, err})
		}
	}
	return found
}

func init() {
	for prop, q := range map[string]int{"C17": 300, "C25": 300} {
		core.Register(core.Sub{Prop: prop, Name: "crowd", Quick: q, Thorough: 30 * q, Watchdog: 120 * time.Second,
			Rule: "up to 30 files, each with one or two full holders, are got at once by one or two daemons, some of them removed again meanwhile, the address of one changing, over a network that may delay and lose packets; all others complete, byte for byte, and only chunks a holder has are requested, once if nothing is lost; non-trivial with more than 8 files"},
			genCrowd, func(c crowdCase, o *core.Obs) error {
				if len(c.Files) > 8 {
					o.NT()
				}
				root := core.Scratch()
				defer os.RemoveAll(root)
				return as(prop, runCrowd(c, o, root))
			})
	}
}
