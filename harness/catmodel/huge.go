package catmodel

import (
	"crypto/sha1"
	"io"
	"os"
	"path/filepath"
	"sort"

	"flucheck/core"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// HugeCase is a user's file of up to 5 GiB that is zeros but for some marks.
type HugeCase struct {
	Size  int64
	Marks []int64 // where a byte is not zero
	Ask   []int64 // positions whose chunks are read
	Clean int64   // 0: no clean; -1: a clean with nothing altered; else 1 + the position of an altered byte
}

// GenHuge generates sizes around 2 and 4 GiB.
func GenHuge(clean bool) func(t *rapid.T) HugeCase {
	return func(t *rapid.T) HugeCase {
		base := rapid.SampledFrom([]int64{1 << 31, 1 << 32, 1 << 32}).Draw(t, "base")
		c := HugeCase{Size: base + rapid.SampledFrom([]int64{-1, 0, 1, 4096, 5000000, 1 << 29}).Draw(t, "more")}
		place := rapid.Custom(func(t *rapid.T) int64 {
			p := rapid.SampledFrom([]int64{0, 1<<31 - 1, 1 << 31, base - 1, base, c.Size - 1, c.Size - 4096}).Draw(t, "at") + rapid.Int64Range(-2, 2).Draw(t, "by")
			return max(0, min(c.Size-1, p))
		})
		c.Marks = rapid.SliceOfN(place, 1, 6).Draw(t, "marks")
		c.Ask = rapid.SliceOfN(place, 1, 4).Draw(t, "ask")
		if clean {
			c.Clean = -1
			if rapid.IntRange(0, 3).Draw(t, "alter") > 0 {
				c.Clean = 1 + place.Draw(t, "altered")
			}
		}
		return c
	}
}

// sumOf is the SHA-1 of a part of the file, computed from its description.
func (c HugeCase) sumOf(lo, hi int64) [20]byte {
	marks := append([]int64(nil), c.Marks...)
	sort.Slice(marks, func(a, b int) bool { return marks[a] < marks[b] })
	h := sha1.New()
	zeros := make([]byte, 1<<20)
	at := lo
	fill := func(to int64) {
		for at < to {
			k := min(to-at, int64(len(zeros)))
			h.Write(zeros[:k])
			at += k
		}
	}
	for _, m := range marks {
		if m >= at && m < hi {
			fill(m)
			h.Write([]byte{mark(m)})
			at++
		}
	}
	fill(hi)
	var v [20]byte
	copy(v[:], h.Sum(nil))
	return v
}

func mark(at int64) byte { return byte(at%251) + 1 }

// RunHuge shares the file.
func RunHuge(hashOnly bool) func(c HugeCase, o *core.Obs) error {
	return func(c HugeCase, o *core.Obs) error {
		root := core.Scratch()
		defer os.RemoveAll(root)
		path := filepath.Join(root, "huge file")
		f, err := os.Create(path)
		if err != nil {
			return core.Harness("%v", err)
		}
		defer f.Close()
		put := func(at int64, b byte) {
			if _, err := f.WriteAt([]byte{b}, at); err != nil {
				panic(core.Harness("%v", err))
			}
		}
		if err := f.Truncate(c.Size); err != nil {
			return core.Harness("%v", err)
		}
		for _, m := range c.Marks {
			put(m, mark(m))
		}
		o.NT()
		o.LabelIf(c.Size >= 1<<32, "4-gib-or-more")
		want := c.sumOf(0, c.Size)
		if hashOnly {
			h, err := common.HashFile(path)
			if err != nil || h.Data != want {
				return core.Fail("huge-hash", "the hash of a file of %d bytes is %v (%v), want %x", c.Size, h, err, want)
			}
			return nil
		}
		var cat *catalogue.Cat
		open := func() (err error) {
			if cat, err = catalogue.NewCat(filepath.Join(root, "cat"), filepath.Join(root, "dl")); err == nil {
				err = cat.Init()
			}
			return err
		}
		if err := open(); err != nil {
			return core.Fail("huge-open", "%v", err)
		}
		if _, err := cat.ShareFile(path); err != nil {
			return core.Fail("huge-share", "sharing a file of %d bytes: %v", c.Size, err)
		}
		const chunk = 4 << 20
		n := int((c.Size + chunk - 1) / chunk)
		rec, err := cat.Contains(&common.Sha1Hash{Data: want})
		if err != nil {
			return core.Fail("huge-hash", "a file of %d bytes with hash %x is shared, but not under its hash: %v", c.Size, want, err)
		}
		if rec.SizeInBytes != c.Size || rec.Sha1Hash.Data != want || rec.ChunkSize != chunk || rec.Progress.Size() != n || rec.Progress.Count() != n || !rec.Progress.Full() {
			return core.Fail("huge-record", "a file of %d bytes with hash %x is shared as %d bytes, %x, %d of %d chunks of %d", c.Size, want, rec.SizeInBytes, rec.Sha1Hash.Data, rec.Progress.Count(), rec.Progress.Size(), rec.ChunkSize)
		}
		if err := open(); err != nil {
			return core.Fail("huge-open", "%v", err)
		}
		id := &common.Sha1Hash{Data: want}
		rs, err := cat.ListFiles()
		if err != nil || len(rs) != 1 || rs[0].SizeInBytes != c.Size || rs[0].Sha1Hash.Data != want || rs[0].FilePath != path || rs[0].Progress.Size() != n || rs[0].Progress.Count() != n {
			return core.Fail("huge-list", "after opening again, the file of %d bytes is listed as %+v (%v)", c.Size, rs, err)
		}
		for _, at := range c.Ask {
			i := at / chunk
			lo, hi := i*chunk, min(c.Size, (i+1)*chunk)
			r, err := cat.GetChunkReader(id, i)
			if err != nil {
				return core.Fail("huge-chunk", "chunk %d of %d cannot be read: %v", i, n, err)
			}
			part := make([]byte, hi-lo)
			if _, err := f.ReadAt(part, lo); err != nil && err != io.EOF {
				return core.Harness("%v", err)
			}
			if r.Size != hi-lo || r.Hash.Data != sha1.Sum(part) {
				return core.Fail("huge-chunk", "chunk %d is read with %d bytes and hash %x, want %d and %x", i, r.Size, r.Hash.Data, hi-lo, sha1.Sum(part))
			}
			r.Close()
		}
		if c.Clean == 0 {
			return nil
		}
		if c.Clean > 0 {
			var b [1]byte
			if _, err := f.ReadAt(b[:], c.Clean-1); err != nil {
				return core.Harness("%v", err)
			}
			put(c.Clean-1, b[0]+1)
			o.Label("altered")
		}
		var report cli.CleanResponse
		if err := cli.NewMethods(cat, nil).Clean(&cli.CleanRequest{}, &report); err != nil || len(report.Items) != 1 {
			return core.Fail("huge-clean", "clean: %+v %v", report, err)
		}
		rs, err = cat.ListFiles()
		if kept := len(rs) == 1; err != nil || kept != (c.Clean < 0) {
			return core.Fail("huge-clean", "a shared file of %d bytes, altered at %d (-2: not at all), is in the index after clean: %v", c.Size, c.Clean-1, kept)
		}
		if st, err := os.Stat(path); err != nil || st.Size() != c.Size {
			return core.Fail("huge-file", "after clean the user's file: %v %v", st, err)
		}
		return nil
	}
}
