package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"flucheck/core"
	"flucheck/simnet"
	"flucheck/wire"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// cmd is one command as it may arrive over the daemon's command socket.
type cmd struct {
	Op   string
	Path string
	IP   []byte
	Hash int // -2: none, -1: blank, -3: unknown, else a file
	Wait int
	At   byte
	N    int `json:",omitempty"` // print: the number of chunks
}

type cmdCase struct {
	Files  []fileSpec
	Cmds   []cmd
	Bounds []uint16 // what a scripted host answers to discoveries
	Addr   [4]byte
	Port   uint16
}

func genCmds(t *rapid.T) cmdCase {
	c := cmdCase{Files: genSmallFiles(t)}
	c.Bounds = rapid.SliceOfN(rapid.OneOf(rapid.Uint16Range(0, 4), rapid.Uint16()), 0, 7).Draw(t, "bounds")
	copy(c.Addr[:], rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "addr"))
	c.Port = rapid.Uint16().Draw(t, "port")
	for k := rapid.IntRange(1, 12).Draw(t, "cmds"); k > 0; k-- {
		x := cmd{Op: pick(t, "op", "share", "share", "list", "rlist", "rlist", "chims", "clean", "get", "get", "offline", "online", "move", "print"), Hash: rapid.IntRange(-3, len(c.Files)-1).Draw(t, "hash"), Wait: pick(t, "wait", 0, 0, 0, 100, 3000)}
		switch x.Op {
		case "share":
			x.Path = rapid.OneOf(rapid.SampledFrom([]string{"", "/", ".", "..", "/dev/null", "/dev/zero", "nowhere", "/nowhere/x", "\x00", "a\x00b", "$0", "$0", "$0/x", "%s", strings.Repeat("x", 300), strings.Repeat("x/", 3000)}), rapid.String()).Draw(t, "path")
			if x.Path == "/dev/zero" && chance(t, "zero", 2) {
				x.Path = "/dev/null"
			}
		case "rlist":
			x.IP = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 20), rapid.SampledFrom([][]byte{nil, {}, {10, 0, 0, 1}, {10, 0, 0, 2}, {10, 0, 0, 9}, {127, 0, 0, 1}, {0, 0, 0, 0}, {255, 255, 255, 255}, net.ParseIP("10.0.0.2"), net.ParseIP("::1")})).Draw(t, "ip")
		case "print":
			x.N = rapid.OneOf(rapid.IntRange(0, 200), rapid.IntRange(0, 65536), rapid.SampledFrom([]int{50, 100, 1000, 65536})).Draw(t, "n")
		case "move":
			x.At = byte(rapid.IntRange(3, 6).Draw(t, "at"))
		}
		c.Cmds = append(c.Cmds, x)
	}
	return c
}

func itemText(p string, size int, hash [20]byte, chunks, held, chunk int) string {
	pct := 100
	if chunks > 0 {
		pct = held * 100 / chunks
	}
	return fmt.Sprintf("%s\n\tPath: %s\n\tSize (bytes): %d\n\tSha1 Hash: %s\n\tChunk Count: %d\n\tChunks Downloaded: %d\n\tChunk Size: %d\n\tIntegrity: %d%%\n",
		p[strings.LastIndex(p, "/")+1:], p, size, hex.EncodeToString(hash[:]), chunks, held, chunk, pct)
}

func runCmds(c cmdCase, o *core.Obs, root string) error {
	return simnet.Run(func(n *simnet.Net) error {
		host := n.AddHost([4]byte{10, 0, 0, 1})
		userDir, dlDir := filepath.Join(root, "user"), filepath.Join(root, "dl")
		d, err := n.StartDaemon(host, filepath.Join(root, "cat"), dlDir)
		if err != nil {
			return err
		}
		want := map[[20]byte]string{}
		for i, f := range c.Files {
			if err := place(d, f, i, userDir); err != nil {
				return err
			}
			p := filepath.Join(userDir, f.name(i))
			if f.Chunk > 0 {
				p = filepath.Join(dlDir, f.name(i))
			}
			h := sha1.Sum(f.bytes())
			want[h] = itemText(p, f.Size, h, f.chunks(), len(heldOf(f)), f.chunkSize())
		}
		extra := filepath.Join(userDir, "new file")
		os.MkdirAll(userDir, 0755)
		if err := os.WriteFile(extra, []byte("new content"), 0644); err != nil {
			return core.Harness("%v", err)
		}
		eh := sha1.Sum([]byte("new content"))
		// a host that answers every discovery in its own way
		peer := n.AddHost([4]byte{10, 0, 0, 2})
		s := peer.Listen(simnet.Port)
		peer.Go(func() {
			for {
				p, ok := s.Recv(time.Hour)
				if !ok {
					return
				}
				m, ok := wire.Decode(p.Data)
				if ok && m.Kind == wire.DiscoverReq {
					s.Send(simnet.Addr{IP: p.Src.IP, Port: simnet.Port}, wire.Msg{Kind: wire.DiscoverResp, ID: m.ID, Addr: c.Addr, Port: c.Port, Bounds: c.Bounds}.Encode())
				}
			}
		})
		hash := func(k int) *common.Sha1Hash {
			switch k {
			case -2:
				return nil
			case -1:
				return (&common.Sha1Hash{}).Blank()
			case -3:
				return &common.Sha1Hash{Data: [20]byte{1, 2, 3}}
			}
			return hashOf(c.Files[k].bytes())
		}
		check := func() error {
			l, e, b := listOf(d)
			if b != nil {
				return b
			}
			if e != nil {
				return core.Fail("list", "list failed: %v", e)
			}
			out := l.Sprintf()
			rest := out
			for _, t := range want {
				if !strings.Contains(rest, t) {
					return core.Fail("list-output", "list does not print\n%s\nbut\n%s", t, out)
				}
				rest = strings.Replace(rest, t, "", 1)
			}
			if rest != "" {
				return core.Fail("list-output", "list prints\n%s\nwhich the catalogue does not hold", rest)
			}
			return nil
		}
		online := true
		for at, x := range c.Cmds {
			n.Sleep(ms(x.Wait))
			var e, b error
			limit := 15 * time.Second
			what := fmt.Sprintf("command %d %+v", at, x)
			switch x.Op {
			case "share":
				p := x.Path
				switch {
				case p == "$0":
					p = extra
				case strings.HasPrefix(p, "$0"):
					p = extra + p[2:]
				}
				var r cli.ListItem
				e, b = d.Call("share", limit, func() error { return d.M.Share(&cli.ShareRequest{Filepath: p}, &r) })
				_, had := want[eh]
				if p == extra && !had {
					if e != nil {
						return core.Fail("share", "%s failed: %v", what, e)
					}
					want[eh] = itemText(extra, 11, eh, 1, 1, shareChunk)
					if b == nil && r.Sprintf() != want[eh] {
						return core.Fail("share-output", "share prints\n%s\ninstead of\n%s", r.Sprintf(), want[eh])
					}
				} else if e == nil && b == nil {
					return core.Fail("no-error", "%s succeeded", what)
				} else if p == extra && !strings.Contains(e.Error(), extra) {
					return core.Fail("share-twice", "%s: the error %q does not name the indexed path", what, e)
				}
			case "list":
				b = check()
			case "rlist":
				var r cli.ListResponse
				e, b = d.Call("remote list", limit, func() error { return d.M.List(&cli.ListRequest{IP: x.IP, Sha1Hash: hash(x.Hash)}, &r) })
				if e == nil {
					_ = r.Sprintf()
				}
				if v4 := net.IP(x.IP).To4(); x.IP != nil && v4 == nil && e == nil && b == nil {
					return core.Fail("no-error", "%s succeeded", what)
				}
			case "chims":
				var r cli.ChimResponseList
				e, b = d.Call("chims", limit, func() error { return d.M.Chims(&cli.ChimRequest{Sha1Hash: hash(x.Hash)}, &r) })
				if b == nil && e == nil {
					if !online || x.Hash == -2 {
						return core.Fail("no-error", "%s succeeded", what)
					}
					head := fmt.Sprintf("IP: %d.%d.%d.%d:%d\n", c.Addr[0], c.Addr[1], c.Addr[2], c.Addr[3], c.Port)
					t := head
					for k := 0; k+1 < len(c.Bounds); k += 2 {
						t += fmt.Sprintf("  %d:%d\n", c.Bounds[k], c.Bounds[k+1])
					}
					own := fmt.Sprintf("IP: %d.%d.%d.%d:%d\n", host.IP[0], host.IP[1], host.IP[2], host.IP[3], simnet.Port)
					if out := r.Sprintf(); !strings.Contains(out, t) || !strings.Contains(out, own) {
						return core.Fail("chims-output", "%s prints\n%s\nwithout\n%sor\n%s", what, out, t, own)
					}
					o.Label("chims")
				} else if b == nil && online && x.Hash != -2 {
					return core.Fail("chims", "%s failed: %v", what, e)
				}
			case "clean":
				var r cli.CleanResponse
				e, b = d.Call("clean", limit, func() error { return d.M.Clean(&cli.CleanRequest{}, &r) })
				if b == nil && (e != nil || len(r.Items) != len(want)) {
					return core.Fail("clean", "%s: %d of %d files are reported (%v)", what, len(r.Items), len(want), e)
				}
				for i, f := range c.Files {
					if f.Chunk > 0 && f.Size > 0 && len(f.Held) == 0 {
						if _, err := os.Stat(filepath.Join(dlDir, f.name(i))); err != nil {
							delete(want, sha1.Sum(f.bytes())) // it has no file yet
						}
					}
				}
			case "get":
				e, b = d.Call("get", limit, func() error {
					return d.M.Get(&cli.GetRequest{Sha1Hash: hash(x.Hash)}, &cli.GetResponse{})
				})
				if b == nil && e == nil && (x.Hash < 0 || !online) {
					return core.Fail("no-error", "%s succeeded", what)
				}
			case "offline":
				host.Online, online = false, false
			case "online":
				host.Online, online = true, true
			case "move":
				host.Move([4]byte{10, 0, 0, x.At})
			case "print":
				// what a request or answer with any content prints
				r := cli.ChimResponse{HostIP: c.Addr, HostPort: c.Port, Chunks: c.Bounds}
				_ = r.Sprintf()
				count := x.N
				var all cli.ListResponse
				var hosts cli.ChimResponseList
				text, hostText := "", ""
				for k := 0; k < min(count, 1000); k++ {
					it := cli.ListItem{FilePath: fmt.Sprintf("/d%d/f%d", k/2, k), SizeInBytes: int64(k), Sha1Hash: [20]byte{byte(k), byte(k >> 8)}, ChunkCount: k, ChunksDownloaded: k / 3, ChunkSizeInBytes: k % 5}
					all.Items = append(all.Items, it)
					text += itemText(it.FilePath, k, it.Sha1Hash, k, k/3, k%5)
					hosts.Responses = append(hosts.Responses, cli.ChimResponse{HostIP: [4]byte{1, 2, byte(k >> 8), byte(k)}, HostPort: uint16(k)})
					hostText += fmt.Sprintf("IP: 1.2.%d.%d:%d\n", k>>8, k&255, k)
				}
				if out := all.Sprintf(); out != text {
					return core.Fail("print-all", "a listing of %d files is printed as %d bytes instead of %d", len(all.Items), len(out), len(text))
				}
				if out := hosts.Sprintf(); out != hostText {
					return core.Fail("print-all", "%d hosts are printed as %d bytes instead of %d", len(all.Items), len(out), len(hostText))
				}
				for k := 0; k <= count; k += 1 + count/97 {
					it := cli.ListItem{FilePath: "/some where/f", SizeInBytes: int64(count) * 7, ChunkCount: count, ChunksDownloaded: k, ChunkSizeInBytes: 7}
					if out, want := it.Sprintf(), itemText(it.FilePath, count*7, it.Sha1Hash, count, k, 7); out != want {
						return core.Fail("print", "%+v is printed as\n%s\ninstead of\n%s", it, out, want)
					}
				}
			}
			if b != nil {
				return b
			}
			if e != nil && strings.TrimSpace(e.Error()) == "" {
				return core.Fail("silent", "%s failed without saying why", what)
			}
			o.LabelIf(e != nil, "refused-"+x.Op)
			o.LabelIf(!online && x.Op != "offline", "offline-command")
			if e != nil || x.Op == "chims" {
				o.NT()
			}
			if err := check(); err != nil {
				return err
			}
		}
		return n.Check()
	})
}

func init() {
	core.Register(core.Sub{Prop: "C24", Name: "commands", Quick: 4000, Thorough: 150000,
		Rule: "histories of commands with arbitrary arguments (paths, addresses, hashes, none at all) as they arrive at the daemon, online, offline and after a change of address, with a host that answers discoveries with arbitrary content; every output and error compared with a model; non-trivial when one is refused or a discovery ran"},
		genCmds, func(c cmdCase, o *core.Obs) error {
			root := core.Scratch()
			defer os.RemoveAll(root)
			return runCmds(c, o, root)
		})
}
