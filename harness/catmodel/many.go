package catmodel

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"flucheck/core"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"pgregory.net/rapid"
)

// ManyCase is a catalogue of very many files.
type ManyCase struct {
	Share, Register int
	Deep            bool  // in a folder whose path is more than 3000 bytes long
	Save            []int // downloads of which a chunk is saved
	Unshare         []int // files that are removed again
	Alter, Rm       []int // files that are altered or deleted
	Clean           bool
}

// GenMany draws one.
func GenMany(clean bool) func(t *rapid.T) ManyCase {
	return func(t *rapid.T) ManyCase {
		c := ManyCase{Clean: clean, Deep: rapid.IntRange(0, 1).Draw(t, "deep") == 1}
		all := rapid.IntRange(1030, 1500).Draw(t, "all")
		if c.Deep {
			all = rapid.IntRange(200, 400).Draw(t, "alldeep")
		}
		c.Register = rapid.SampledFrom([]int{0, 0, 3, all / 2, all}).Draw(t, "register")
		if clean {
			c.Register = rapid.SampledFrom([]int{0, 0, 3, all / 2}).Draw(t, "registerclean")
		}
		c.Share = all - c.Register
		pick := func(name string, n int) []int {
			if n == 0 {
				return nil
			}
			return rapid.SliceOfNDistinct(rapid.IntRange(0, n-1), 0, min(n, 12), rapid.ID[int]).Draw(t, name)
		}
		c.Save, c.Unshare = pick("save", c.Register), pick("unshare", all)
		if clean {
			c.Alter, c.Rm = pick("alter", c.Share), pick("rm", c.Share)
		}
		return c
	}
}

type manyRec struct {
	path     string
	size, cs int
	held     []bool
}

// RunMany executes one.
func RunMany(c ManyCase, o *core.Obs) error {
	root := core.Scratch()
	defer os.RemoveAll(root)
	var cat *catalogue.Cat
	open := func() (err error) {
		if cat, err = catalogue.NewCat(filepath.Join(root, "cat"), filepath.Join(root, "dl")); err == nil {
			err = cat.Init()
		}
		if err != nil {
			return core.Fail("many-open", "%v", err)
		}
		return nil
	}
	if err := open(); err != nil {
		return err
	}
	o.NT()
	o.LabelIf(c.Deep, "long-paths")
	user := filepath.Join(root, "user")
	if c.Deep {
		user = filepath.Join(user, strings.Repeat(strings.Repeat("d", 250)+"/", 13))
	}
	if err := os.MkdirAll(user, 0755); err != nil {
		return core.Harness("%v", err)
	}
	recs := map[[20]byte]*manyRec{}
	var hashes [][20]byte
	put := func(path string, data string) {
		if err := os.WriteFile(path, []byte(data), 0644); err != nil {
			panic(core.Harness("%v", err))
		}
	}
	for i := 0; i < c.Share; i++ {
		data := fmt.Sprintf("file %d of many", i)
		path := filepath.Join(user, fmt.Sprintf("f%d", i))
		put(path, data)
		if _, err := cat.ShareFile(path); err != nil {
			return core.Fail("many-share", "file %d: %v", i, err)
		}
		h := hashOf([]byte(data))
		hashes = append(hashes, h)
		recs[h] = &manyRec{path, len(data), ShareChunk, []bool{true}}
	}
	for i := 0; i < c.Register; i++ {
		h := hashOf([]byte(fmt.Sprint("download ", i)))
		n := 2 + i%130
		rec, err := cat.RegisterDownload(uint64(n*8), uint32(n), 8, H(h), fmt.Sprintf("d%d", i))
		if err != nil {
			return core.Fail("many-register", "download %d: %v", i, err)
		}
		hashes = append(hashes, h)
		recs[h] = &manyRec{rec.FilePath, n * 8, 8, make([]bool, n)}
	}
	for _, i := range c.Save {
		h := hashes[c.Share+i]
		k := i % len(recs[h].held)
		if err := cat.SaveChunk(H(h), uint16(k), []byte("12345678")); err != nil {
			return core.Fail("many-save", "chunk %d of download %d: %v", k, i, err)
		}
		recs[h].held[k] = true
	}
	for _, i := range c.Unshare {
		if err := cat.UnshareFile(H(hashes[i])); err != nil {
			return core.Fail("many-unshare", "file %d: %v", i, err)
		}
		delete(recs, hashes[i])
	}
	check := func(when string) error {
		list, err := cat.ListFiles()
		if err != nil {
			return core.Fail("many-list", "%s: %v", when, err)
		}
		if len(list) != len(recs) {
			return core.Fail("many-listed", "%s: %d files are listed, want %d", when, len(list), len(recs))
		}
		seen := map[[20]byte]bool{}
		for _, e := range list {
			r := recs[e.Sha1Hash.Data]
			if r == nil || seen[e.Sha1Hash.Data] || e.FilePath != r.path || e.SizeInBytes != int64(r.size) || e.ChunkSize != r.cs || e.Progress.Size() != len(r.held) {
				return core.Fail("many-entry", "%s: %v is listed, want %v", when, e, r)
			}
			seen[e.Sha1Hash.Data] = true
			for i, v := range r.held {
				if e.Progress.Get(uint64(i)) != v {
					return core.Fail("many-held", "%s: chunk %d of %s held=%v", when, i, r.path, !v)
				}
			}
		}
		for i, h := range hashes {
			if _, err := cat.Contains(H(h)); (err == nil) != (recs[h] != nil) {
				return core.Fail("many-contains", "%s: file %d: %v", when, i, err)
			}
		}
		return nil
	}
	if err := check("in the open catalogue"); err != nil {
		return err
	}
	if !c.Clean {
		if err := open(); err != nil {
			return err
		}
		return check("after a restart")
	}
	removed := map[string]bool{}
	for _, i := range c.Alter {
		put(filepath.Join(user, fmt.Sprintf("f%d", i)), fmt.Sprintf("file %d of manx", i))
		removed[filepath.Join(user, fmt.Sprintf("f%d", i))] = true
	}
	for _, i := range c.Rm {
		os.Remove(filepath.Join(user, fmt.Sprintf("f%d", i)))
		removed[filepath.Join(user, fmt.Sprintf("f%d", i))] = true
	}
	paths := map[string]bool{}
	for h, r := range recs {
		if _, err := os.Stat(r.path); err != nil || removed[r.path] {
			removed[r.path] = true
			delete(recs, h)
		}
		paths[r.path] = true
	}
	resp := cli.CleanResponse{}
	if err := cli.NewMethods(cat, nil).Clean(&cli.CleanRequest{}, &resp); err != nil {
		return core.Fail("many-clean", "%v", err)
	}
	for _, item := range resp.Items {
		if !paths[item.FilePath] {
			return core.Fail("many-report", "%s is reported twice, or was not indexed", item.FilePath)
		}
		delete(paths, item.FilePath)
		if says := strings.Contains(strings.ToLower(strings.TrimPrefix(item.ActionTaken, item.FilePath)), "removed"); says != removed[item.FilePath] {
			return core.Fail("many-report", "%s: removed=%v, reported as %q", item.FilePath, removed[item.FilePath], item.ActionTaken)
		}
	}
	if len(paths) > 0 {
		return core.Fail("many-report", "%d files are not in the report", len(paths))
	}
	if err := check("after the clean"); err != nil {
		return err
	}
	if err := open(); err != nil {
		return err
	}
	return check("after the clean and a restart")
}
