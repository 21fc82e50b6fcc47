// Command cat checks the catalogue with generated histories.
package main

import (
	"flucheck/catmodel"
	"flucheck/core"
	"time"

	"pgregory.net/rapid"
)

func reg(prop, name, rule string, quick, thorough, ops int, big bool, w map[string]int, opts catmodel.Options, nt func(c catmodel.Case) bool) {
	core.Register(core.Sub{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule},
		func(t *rapid.T) catmodel.Case { return catmodel.Gen(t, w, ops, big) },
		func(c catmodel.Case, o *core.Obs) error {
			if nt(c) {
				o.NT()
			}
			return catmodel.Run(c, o, opts)
		})
}

func has(c catmodel.Case, groups ...[]string) bool {
	for _, g := range groups {
		ok := false
		for _, op := range c.Ops {
			for _, k := range g {
				ok = ok || op.K == k
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func main() {
	s := func(v ...string) []string { return v }
	reg("C09", "histories", "histories of write/share/unshare/register/save/clean with reopen and move steps anywhere; after every step the open catalogue and a second one opened on the folder are compared with the model (list, lookup, held and missing chunks); non-trivial when something is added and the catalogue is reopened or moved",
		20000, 300000, 30, false, map[string]int{"write": 4, "share": 5, "shareown": 1, "unshare": 2, "register": 4, "save": 8, "clean": 1, "reopen": 3, "move": 1, "rm": 1, "symlink": 1, "bulk": 1, "similar": 1},
		catmodel.Options{ReopenEach: true}, func(c catmodel.Case) bool { return has(c, s("share", "register"), s("reopen", "move")) })
	reg("C12", "share", "histories of writing user files (odd names, symlinks, sub-folders), sharing them by different spellings of their path, sharing again under other names, sharing missing files, folders, pipes and devices, files in the downloads folder (finished downloads among them), shared files replaced by others, folders or named pipes; non-trivial when a file is written and shared at least twice",
		25000, 400000, 25, false, map[string]int{"write": 8, "share": 12, "shareown": 2, "register": 2, "bulk": 1, "lock": 1, "unlock": 1, "sharebad": 2, "unshare": 2, "save": 2, "symlink": 1, "flip": 1, "rm": 1, "mkdir": 1, "pipe": 1, "reopen": 1, "append": 1, "chop": 1},
		catmodel.Options{}, func(c catmodel.Case) bool {
			n := 0
			for _, op := range c.Ops {
				if op.K == "share" {
					n++
				}
			}
			return n >= 2 && has(c, s("write"))
		})
	reg("C12", "share-large", "files around 4 MiB multiples are shared, listed and every chunk read back; non-trivial when one is written and shared",
		800, 12000, 6, true, map[string]int{"write": 5, "share": 6, "unshare": 1, "reopen": 1},
		catmodel.Options{Sparse: true}, func(c catmodel.Case) bool { return has(c, s("write"), s("share")) })
	reg("C13", "clean", "histories that share, download, then delete, alter, replace (by named pipes too) or restore files behind the catalogue's back, with clean steps; its report, the remaining index and the user's files are compared with the model; non-trivial when something is altered before a clean",
		40000, 600000, 30, false, map[string]int{"write": 6, "share": 7, "shareown": 1, "clean": 5, "lock": 2, "unlock": 1, "rm": 2, "mkdir": 1, "pipe": 1, "flip": 2, "append": 1, "chop": 1, "register": 3, "save": 5, "spoil": 2, "unshare": 1, "reopen": 1, "symlink": 1},
		catmodel.Options{}, func(c catmodel.Case) bool {
			return has(c, s("clean"), s("share", "save"), s("rm", "lock", "mkdir", "flip", "append", "chop", "spoil", "write"))
		})
	reg("C14", "save", "histories that register downloads of 1..300 chunks and save chunks in any order, with repeats, wrong lengths, indices past the end, hashes that differ in one bit, a longer file or a pipe already in place, and other files shared in between; non-trivial when chunks are saved",
		25000, 400000, 40, false, map[string]int{"register": 5, "save": 16, "longer": 2, "spoil": 1, "share": 1, "write": 1, "unshare": 1, "reopen": 1, "bulk": 2, "similar": 1},
		catmodel.Options{}, func(c catmodel.Case) bool { return has(c, s("register"), s("save", "bulk")) })
	reg("C18", "register", "announced names (plain, odd, path-like, empty, dots, NUL), sizes, chunk counts and chunk sizes (consistent, contradictory, absurd, past 16 bits), links in the downloads folder to indexed files, to outside it and to nothing, mixed with saves, shares and name collisions: each is refused with everything unchanged, or goes to one file directly in the downloads folder that no other indexed file uses; non-trivial when at least one announcement is odd",
		25000, 500000, 30, false, map[string]int{"register": 12, "save": 8, "spoil": 1, "share": 2, "write": 2, "unshare": 2, "reopen": 1, "nonsense": 4, "link": 2, "similar": 1},
		catmodel.Options{}, func(c catmodel.Case) bool {
			for _, op := range c.Ops {
				if op.K == "register" && (op.D > 0 || op.X >= catmodel.PlainNames) {
					return true
				}
			}
			return false
		})
	for _, x := range []struct {
		prop        string
		quick, deep int
		rule        string
	}{
		{"C08", 6, 200, "the hash of a (sparse) file of 2 to 4.5 GiB with marks around 2 and 4 GiB is compared with the one computed from its description"},
		{"C12", 6, 150, "a (sparse) file of 2 to 4.5 GiB with marks around 2 and 4 GiB is shared, listed, opened again and some of its chunks read"},
		{"C13", 5, 100, "a (sparse) shared file of 2 to 4.5 GiB is altered in one byte, around 2 and 4 GiB often, or not at all before a clean"},
	} {
		core.Register(core.Sub{Prop: x.prop, Name: "huge", Quick: x.quick, Thorough: x.deep, Rule: x.rule + "; always non-trivial", Watchdog: 300 * time.Second},
			catmodel.GenHuge(x.prop == "C13"), catmodel.RunHuge(x.prop == "C08"))
	}
	for _, x := range []struct {
		prop        string
		quick, deep int
	}{{"C14", 60, 1500}, {"C09", 30, 800}} {
		core.Register(core.Sub{Prop: x.prop, Name: "large", Quick: x.quick, Thorough: x.deep,
			Rule: "a download of up to 40 GiB in up to 65536 chunks of up to 8 MiB is registered, and a few of its chunks saved, the last and ones beyond 2 and 4 GiB among them; the (sparse) file must hold exactly these bytes at their places and nothing else; non-trivial when a chunk beyond 4 GiB is saved"},
			catmodel.GenLarge, catmodel.RunLarge)
	}
	for _, x := range []struct {
		prop        string
		quick, deep int
		rule        string
	}{
		{"C09", 2, 40, "must be listed and found before and after a restart"},
		{"C12", 1, 30, "must be listed and found before and after a restart"},
		{"C13", 2, 40, "are altered or deleted, a few of them, before a clean, whose report, the list and the list after a restart are compared"},
	} {
		core.Register(core.Sub{Prop: x.prop, Name: "many", Quick: x.quick, Thorough: x.deep, Rule: "more than a thousand files, or hundreds in a folder with a very long path, so that the index takes up to 1.5 MB, are shared or registered, some removed again, " + x.rule + "; always non-trivial", Watchdog: 300 * time.Second},
			catmodel.GenMany(x.prop == "C13"), catmodel.RunMany)
	}
	core.Main()
}
