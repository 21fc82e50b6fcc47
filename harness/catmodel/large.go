package catmodel

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"syscall"

	"flucheck/core"

	"github.com/flu-network/client/catalogue"
	"pgregory.net/rapid"
)

// LargeCase is a download too large to be kept in memory.
type LargeCase struct {
	ChunkSize int
	Chunks    int
	Less      int   // the last chunk is this much shorter
	Save      []int // what is saved, in order
	Reopen    int   // before this one the catalogue is opened again
	Ask       []int // other chunks
}

// GenLarge draws one.
func GenLarge(t *rapid.T) LargeCase {
	c := LargeCase{ChunkSize: rapid.SampledFrom([]int{1 << 16, 1 << 18, 1 << 20, 1<<20 + 1, 3 << 20, 1 << 22, 1 << 23}).Draw(t, "cs")}
	c.Chunks = min(65536, rapid.SampledFrom([]int{3, 6, 17, 40}).Draw(t, "gib")*(1<<30)/c.ChunkSize+rapid.IntRange(0, 2).Draw(t, "more"))
	if rapid.IntRange(0, 4).Draw(t, "all") == 0 {
		c.Chunks = 65536
		c.ChunkSize = min(c.ChunkSize, 3<<20)
	}
	c.Less = rapid.SampledFrom([]int{0, 1, c.ChunkSize / 3, c.ChunkSize - 1}).Draw(t, "less")
	places := []int{0, 1, c.Chunks - 1, c.Chunks - 2, c.Chunks / 2}
	for _, at := range []int{1 << 31, 1 << 32, 1 << 33} {
		if i := at / c.ChunkSize; i > 0 && i < c.Chunks-1 {
			places = append(places, i-1, i, i+1)
		}
	}
	place := rapid.OneOf(rapid.SampledFrom(places), rapid.IntRange(0, c.Chunks-1))
	c.Save = rapid.SliceOfN(place, 1, 5).Draw(t, "save")
	c.Ask = rapid.SliceOfN(place, 1, 4).Draw(t, "ask")
	c.Reopen = rapid.IntRange(0, 5).Draw(t, "reopen")
	return c
}

// extents lists where a file has bytes that are no zeros.
func extents(f *os.File, size int64) (v [][2]int64, err error) {
	buf := make([]byte, 1<<20)
	for at := int64(0); at < size; {
		lo, err := f.Seek(at, 3) // SEEK_DATA
		if err != nil {
			if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.ENXIO {
				break
			}
			return nil, err
		}
		hi, err := f.Seek(lo, 4) // SEEK_HOLE
		if err != nil {
			return nil, err
		}
		for p := lo; p < hi; {
			n, err := f.ReadAt(buf[:min(int64(len(buf)), hi-p)], p)
			if n == 0 {
				return nil, err
			}
			for i := 0; i < n; i++ {
				if buf[i] != 0 {
					if k := len(v); k > 0 && v[k-1][1] == p+int64(i) {
						v[k-1][1]++
					} else {
						v = append(v, [2]int64{p + int64(i), p + int64(i) + 1})
					}
				}
			}
			p += int64(n)
		}
		at = hi
	}
	return v, nil
}

// RunLarge executes one.
func RunLarge(c LargeCase, o *core.Obs) error {
	root := core.Scratch()
	defer os.RemoveAll(root)
	catDir, dlDir := filepath.Join(root, "cat"), filepath.Join(root, "dl")
	var cat *catalogue.Cat
	open := func() (err error) {
		if cat, err = catalogue.NewCat(catDir, dlDir); err == nil {
			err = cat.Init()
		}
		if err != nil {
			return core.Fail("large-open", "%v", err)
		}
		return nil
	}
	if err := open(); err != nil {
		return err
	}
	size := int64(c.ChunkSize)*int64(c.Chunks) - int64(c.Less)
	h := H(hashOf([]byte(fmt.Sprint(c))))
	rec, err := cat.RegisterDownload(uint64(size), uint32(c.Chunks), uint32(c.ChunkSize), h, "large")
	if err != nil {
		return core.Fail("large-register", "%d bytes in %d chunks of %d: %v", size, c.Chunks, c.ChunkSize, err)
	}
	bounds := func(i int) (int64, int64) {
		return int64(i) * int64(c.ChunkSize), min(size, int64(i+1)*int64(c.ChunkSize))
	}
	seed := map[int]uint64{}
	for n, i := range c.Save {
		if n == c.Reopen {
			if err := open(); err != nil {
				return err
			}
		}
		lo, hi := bounds(i)
		data := pattern(hi-lo, uint64(n*1000+i))
		if err := cat.SaveChunk(h, uint16(i), data); err != nil {
			return core.Fail("large-save", "chunk %d of %d (%d bytes each): %v", i, c.Chunks, c.ChunkSize, err)
		}
		seed[i] = uint64(n*1000 + i)
		if lo >= 1<<32 {
			o.NT()
			o.Label("beyond-4-gib")
		} else if lo >= 1<<31 {
			o.Label("beyond-2-gib")
		}
		o.LabelIf(i == c.Chunks-1, "last-chunk")
		o.LabelIf(i > 32767, "index-past-32767")
	}
	check := func(reopened bool) error {
		if reopened {
			o.Label("opened-again")
		}
		e, err := cat.Contains(h)
		if err != nil || e.FilePath != rec.FilePath || e.SizeInBytes != size || e.ChunkSize != c.ChunkSize || e.Progress.Size() != c.Chunks || e.Progress.Count() != len(seed) {
			return core.Fail("large-record", "%+v (%v), want %d bytes, %d of %d chunks", e, err, size, len(seed), c.Chunks)
		}
		st, err := os.Lstat(rec.FilePath)
		if err != nil || !st.Mode().IsRegular() || st.Size() > size {
			return core.Fail("large-file", "%v %v, want a file of %d bytes", st, err, size)
		}
		// the bytes that are not zero are those saved
		f, err := os.Open(rec.FilePath)
		if err != nil {
			return core.Fail("large-file", "%v", err)
		}
		defer f.Close()
		got, err := extents(f, st.Size())
		if err != nil {
			return core.Harness("%v", err)
		}
		var idx []int
		for i := range seed {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		var want [][2]int64
		for _, i := range idx {
			lo, hi := bounds(i)
			if k := len(want); k > 0 && want[k-1][1] == lo {
				want[k-1][1] = hi
			} else {
				want = append(want, [2]int64{lo, hi})
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return core.Fail("large-places", "bytes are in %v, want %v", got, want)
		}
		for _, i := range append(append([]int(nil), c.Ask...), idx...) {
			s, held := seed[i]
			if e.Progress.Get(uint64(i)) != held {
				return core.Fail("large-held", "chunk %d held=%v", i, !held)
			}
			cr, err := cat.GetChunkReader(h, int64(i))
			if !held {
				if err == nil {
					closeReader(cr)
					return core.Fail("large-not-held", "chunk %d, which is not held, can be read", i)
				}
				continue
			}
			if err != nil {
				return core.Fail("large-read", "chunk %d: %v", i, err)
			}
			lo, hi := bounds(i)
			data := pattern(hi-lo, s)
			b, err := io.ReadAll(&cr.Reader)
			closeReader(cr)
			if err != nil || string(b) != string(data) || cr.Size != hi-lo || cr.Hash.Data != hashOf(data) {
				return core.Fail("large-bytes", "chunk %d reads as %d bytes, announced %d with %x (%v), want %d with %x", i, len(b), cr.Size, cr.Hash.Data, err, hi-lo, hashOf(data))
			}
		}
		return nil
	}
	if err := check(false); err != nil {
		return err
	}
	if err := open(); err != nil {
		return err
	}
	return check(true)
}

// pattern makes bytes none of which is zero.
func pattern(n int64, seed uint64) []byte {
	b := make([]byte, n)
	Fill(b, seed)
	for i := range b {
		b[i] |= 1
	}
	return b
}
