package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"slices"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/wire"

	"pgregory.net/rapid"
)

func genFiles(t *rapid.T, big bool) []file {
	var v []file
	seen := map[[20]byte]bool{}
	for k := rapid.IntRange(1, 4).Draw(t, "files"); k > 0; k-- {
		f := file{Seed: rapid.Uint64().Draw(t, "seed")}
		switch rapid.IntRange(0, 9).Draw(t, "size") {
		case 0:
			f.Size = pick(t, "edge", 0, 1, 999, 1000, 1001, 1023, 1024, 1025)
		case 1, 2:
			if big {
				f.Size = pick(t, "large", shareChunk, shareChunk-1, shareChunk+1, 2*shareChunk, 2*shareChunk+77, 3*shareChunk-1000)
			} else {
				f.Size = 50000
			}
		default:
			f.Size = rapid.IntRange(1, 60000).Draw(t, "bytes")
		}
		b := make([]byte, f.Size)
		catmodel.Fill(b, f.Seed)
		h := sha1.Sum(b)
		if seen[h] {
			continue
		}
		seen[h] = true
		name := fmt.Sprintf("f%d", k)
		switch rapid.IntRange(0, 5).Draw(t, "name") {
		case 0:
			name = pick(t, "odd", "a b c", "-x", "--", "%s%d%", "ü€", "a\nb", "x'\"$(y)", "\xff\xfe", ".hidden", "list", "~", "$HOME", "${PWD} ", "\x1b[1m", "C:\\x") + fmt.Sprint(k)
		case 1:
			for i := 0; i < 230; i++ {
				name += "n"
			}
		case 2:
			name += ".tar.gz"
		case 3:
			name = pick(t, "space", " ", "\t", "") + name + pick(t, "after", " ", "\n", "\r")
		}
		f.Name = name
		v = append(v, f)
	}
	return v
}

func genArgs(t *rapid.T) []string {
	if chance(t, "none", 20) {
		return nil
	}
	ip := rapid.SampledFrom([]string{"$IP", "127.0.0.1", "0.0.0.0", "::1", "::", "fe80::1", "::ffff:10.0.0.1", "10.0.0.99", "255.255.255.255", "256.1.1.1", "1.2.3", "01.2.3.4", "10.0.0.1:80", "", "localhost"})
	hash := rapid.OneOf(
		rapid.SampledFrom([]string{"$HASH", "$HASH", "$HASH0", "ffffffffffffffffffffffffffffffffffffffff", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "0000000000000000000000000000000000000000", "zz", "abc", ""}),
		rapid.StringOfN(rapid.RuneFrom([]rune("0123456789abcdefABCDEF")), 0, 60, -1))
	path := rapid.SampledFrom([]string{"", "/", "/dev/null", "/dev/zero", "/proc/self/mem", "$DIR", "$DIR/nowhere", "..", ".", "$DIR/home", "%s%n%d", "\xff\xff", "~", string(make3(5000)), "$LONG", "$DIR/tmp/flu-network.sock", "$REL", "$REL", "bin/true"})
	any := rapid.OneOf(ip, hash, path, rapid.SampledFrom([]string{"-", "--", "-h", "-x", "--help", "list"}))
	cmd := pick(t, "cmd", "share", "list", "list", "get", "get", "chims", "clean", "stop", "SHARE", "list ", "help")
	args := []string{cmd}
	n := rapid.IntRange(0, 3).Draw(t, "args")
	for k := 0; k < n; k++ {
		g := any
		if !chance(t, "any", 4) {
			switch {
			case cmd == "share":
				g = path
			case cmd == "list" && k == 0:
				g = ip
			case cmd == "list", cmd == "get", cmd == "chims":
				g = hash
			}
		}
		args = append(args, g.Draw(t, "arg"))
		if k == 0 && (cmd == "get" || cmd == "share") && !chance(t, "more", 3) {
			break
		}
	}
	return args
}

func make3(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc"[i%3]
	}
	return b
}

func genRaw(t *rapid.T, files []file) []byte {
	if chance(t, "bytes", 8) {
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	}
	m := wire.Msg{Kind: rapid.IntRange(0, 6).Draw(t, "msg"), ID: rapid.Uint16().Draw(t, "id")}
	switch rapid.IntRange(0, 3).Draw(t, "hash") {
	case 0:
		for i := range m.Hash {
			m.Hash[i] = 0xff
		}
	case 1:
		m.Hash[0] = 1
	default:
		f := files[rapid.IntRange(0, len(files)-1).Draw(t, "file")]
		b := make([]byte, f.Size)
		catmodel.Fill(b, f.Seed)
		m.Hash = sha1.Sum(b)
	}
	m.Bounds = rapid.SliceOfN(rapid.Uint16Range(0, 4), 0, 5).Draw(t, "bounds")
	m.Addr, m.Port = [4]byte{10, 0, 0, byte(rapid.IntRange(0, 255).Draw(t, "addr"))}, rapid.Uint16().Draw(t, "port")
	m.Chunk = pick(t, "chunk", uint16(0), 1, 2, 65535)
	m.Window = pick(t, "window", uint16(0), 1, 64, 65535)
	m.Offset = uint32(pick(t, "offset", 0, 1000, 1024, 4294967295))
	m.Payload = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "payload")
	for k := rapid.IntRange(0, 2).Draw(t, "entries"); k > 0; k-- {
		m.Entries = append(m.Entries, wire.Entry{Size: rapid.Uint64().Draw(t, "size"), Chunks: 1, ChunkSize: 1, Name: []byte("n")})
	}
	raw := m.Encode()
	switch rapid.IntRange(0, 5).Draw(t, "damage") {
	case 0, 1:
		raw = raw[:rapid.IntRange(0, len(raw)).Draw(t, "cut")]
	case 2:
		raw[rapid.IntRange(0, len(raw)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
	case 3:
		raw = append(raw, make([]byte, pick(t, "more", 1, 7, 1000, 1500, 9000, 65507-len(raw)))...)
	case 4:
		raw[0] = rapid.Byte().Draw(t, "type")
	}
	return raw
}

func gen(kinds ...string) func(t *rapid.T) scenario {
	return func(t *rapid.T) scenario {
		big := false
		for _, k := range kinds {
			big = big || k == "big"
		}
		c := scenario{Hosts: rapid.IntRange(1, 3).Draw(t, "hosts"), Files: genFiles(t, big)}
		if big && c.Hosts == 1 {
			c.Hosts = 2
		}
		one := func(kind string) step {
			s := step{Op: kind, Host: rapid.IntRange(0, c.Hosts-1).Draw(t, "host"), To: rapid.IntRange(0, c.Hosts-1).Draw(t, "to"),
				File: rapid.IntRange(0, len(c.Files)-1).Draw(t, "file"), How: rapid.IntRange(0, 5).Draw(t, "how")}
			switch kind {
			case "crash":
				s.Us = 100 * rapid.IntRange(0, 400).Draw(t, "us")
			case "junk", "down":
				for k := rapid.IntRange(1, 16).Draw(t, "lines"); k > 0; k-- {
					s.Args = append(s.Args, genArgs(t))
				}
			case "datagrams":
				for k := rapid.IntRange(1, 30).Draw(t, "grams"); k > 0; k-- {
					s.Raws = append(s.Raws, genRaw(t, c.Files))
				}
			case "flood":
				for k := rapid.IntRange(1, 3).Draw(t, "grams"); k > 0; k-- {
					raw := genRaw(t, c.Files)
					s.Raws = append(s.Raws, raw[:min(len(raw), 1400)])
				}
			}
			return s
		}
		for f := range c.Files {
			if big || chance(t, "pre", 2) {
				c.Steps = append(c.Steps, step{Op: "share", Host: rapid.IntRange(0, c.Hosts-1).Draw(t, "owner"), File: f, How: rapid.IntRange(0, 2).Draw(t, "how")})
			}
		}
		for k := rapid.IntRange(2, 10).Draw(t, "steps"); k > 0; k-- {
			kind := pick(t, "op", kinds...)
			switch kind {
			case "big":
				continue
			case "parallel":
				s := step{Op: kind}
				for k := rapid.IntRange(2, 5).Draw(t, "parallel"); k > 0; k-- {
					x := one(pick(t, "sub", "get", "get", "datagrams", "junk"))
					if x.Op == "get" {
						x.How = 1
					}
					x.Args = slices.DeleteFunc(x.Args, func(a []string) bool { return len(a) > 0 && a[0] == "clean" })
					s.Sub = append(s.Sub, x)
				}
				c.Steps = append(c.Steps, s)
			default:
				c.Steps = append(c.Steps, one(kind))
			}
		}
		return c
	}
}

func register(prop, name string, quick, thorough int, rule string, kinds ...string) {
	core.Register(core.Sub{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Batch: 6, Watchdog: 20 * time.Minute, ShrinkTime: 60 * time.Second, Rule: rule},
		gen(kinds...), func(c scenario, o *core.Obs) error {
			if daemonBin == "" || os.Getuid() != 0 {
				return core.Harness("no daemon to run, or no namespace")
			}
			return only(prop, c.execute(o))
		})
}

func init() {
	all := "real daemons in network namespaces, commands through the real command-line tool; "
	register("C24", "command-lines", 192, 2000, all+"histories of sharing (also twice, by relative paths), listing, discovering, getting, cleaning, arbitrary command lines, offline hosts, restarts; every output compared with a model; non-trivial when an arbitrary command line or a download took place",
		"share", "share", "list", "rlist", "chims", "chims", "get", "clean", "alter", "restart", "offline", "online", "junk", "junk", "junk", "junk", "down", "cleans")
	register("C17", "lab", 64, 1000, all+"files of up to 12 MB got by other hosts, onward too, while commands run; downloads compared byte for byte; non-trivial when one completed",
		"big", "get", "get", "get", "share", "parallel", "list", "rlist", "restart", "online")
	register("C06", "lab", 64, 1000, all+"datagrams of all kinds, a few of them thousands of times, and bursts of requests, some from ports below 1024, that must each get their own answer, up to the largest datagrams; non-trivial when there are any",
		"share", "datagrams", "datagrams", "burst", "burst", "list", "get", "parallel", "chims", "flood", "flood")
	register("C21", "lab", 40, 1000, all+"hosts with up to 60 files list each other, also while offline or being cleaned; non-trivial when a host has many files or a download took place",
		"share", "many", "rlist", "rlist", "rlist", "get", "alter", "offline", "online", "junk")
	register("C22", "lab", 48, 1000, all+"daemons built with the race detector; the same content shared by several commands at once while listings run, downloads at once; non-trivial when commands ran at once",
		"race", "race", "cleans", "cleans", "parallel", "get", "list", "clean", "burst", "datagrams", "junk")
	register("C09", "lab", 48, 1000, all+"restarts after sharing, downloading and cleaning; non-trivial when a download completed or files were shared at once",
		"share", "share", "many", "restart", "restart", "get", "clean", "alter", "list", "crash", "rlist")
	register("C10", "lab", 96, 2000, all+"the daemon is killed some time into a share, a download or a clean, and started again; non-trivial when it was killed",
		"big", "share", "crash", "crash", "crash", "crash", "get", "clean", "list")
	register("C12", "lab", 64, 1000, all+"sharing by relative and absolute paths, again, at once, and what cannot be shared; every output and listing compared with a model; non-trivial when an arbitrary command line was run",
		"share", "share", "share", "share", "race", "junk", "junk", "list", "alter", "restart", "crash", "many")
	register("C13", "lab", 64, 1000, all+"cleaning after files were altered, removed and downloaded, several times at once; outputs and listings compared with a model; non-trivial when a download completed or several cleans ran",
		"share", "share", "clean", "alter", "alter", "cleans", "get", "list", "many", "rlist")
	register("C19", "lab", 24, 1000, all+"hosts discovered during histories of sharing, downloading, cleaning, going away and coming back with another address; non-trivial when a download took place",
		"share", "chims", "chims", "chims", "chims", "get", "get", "alter", "restart", "offline", "online", "crash")
	register("C25", "lab", 48, 1000, all+"downloads of files of up to 12 MB, killed, asked for again, with hosts going and coming; non-trivial when one completed or the daemon was killed",
		"big", "get", "get", "get", "crash", "crash", "share", "restart", "clean", "offline", "online", "list")
}
