package main

import (
	"crypto/sha1"
	"errors"
	"io"
	"os"
	"path/filepath"
	"time"

	"flucheck/core"

	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// content makes n bytes that differ everywhere (a 64-bit LCG stream from the seed).
func content(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed*6364136223846793005 + 1442695040888963407
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	return b
}

type rop struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
}

type c08Case struct {
	Size     int
	Seed     uint64
	Off, Len int
	FailAt   int // in-memory source failing at this byte (-1: a real file)
	Ops      []rop
}

type failingReader struct {
	b      []byte
	failAt int
	after  int
}

var errDisk = errors.New("input/output error")

func (f *failingReader) ReadAt(p []byte, off int64) (int, error) {
	end := int(off) + len(p)
	if end <= f.failAt {
		if int(off) >= len(f.b) {
			return 0, io.EOF
		}
		n := copy(p, f.b[off:])
		if n < len(p) {
			return n, io.EOF
		}
		return n, nil
	}
	if f.after++; f.after > 2000 {
		panic(&core.Violation{Sig: "endless-read", Msg: "a section that cannot be read is read again and again"})
	}
	n := 0
	if int(off) < f.failAt && int(off) < len(f.b) {
		n = copy(p, f.b[off:min(f.failAt, len(f.b))])
	}
	return n, errDisk
}

var c08dir string

func runC08(c c08Case, o *core.Obs) error {
	data := content(c.Size, c.Seed)
	var src io.ReaderAt
	failing := c.FailAt >= 0
	if failing {
		src = &failingReader{b: data, failAt: c.FailAt}
	} else {
		if c08dir == "" {
			c08dir = core.Scratch()
			core.AtExit(func() { os.RemoveAll(c08dir) })
		}
		p := filepath.Join(c08dir, "f")
		longAgo := time.Unix(1500000000, 0)
		if len(data) > 0 && len(data)%3 == 0 { // it was something else before, and nothing but the contents tells
			before := append([]byte(nil), data...)
			before[c.Off%len(before)] ^= 1
			if err := os.WriteFile(p, before, 0644); err != nil {
				return core.Harness("%v", err)
			}
			os.Chtimes(p, longAgo, longAgo)
			if h, err := common.HashFile(p); err != nil || h.Data != sha1.Sum(before) {
				return core.Fail("hash-file", "HashFile of %d bytes: %v, %v", c.Size, h, err)
			}
			o.Label("hashed-before")
		}
		if err := os.WriteFile(p, data, 0644); err != nil {
			return core.Harness("%v", err)
		}
		os.Chtimes(p, longAgo, longAgo)
		h, err := common.HashFile(p)
		if err != nil || h == nil {
			return core.Fail("hash-file", "HashFile of %d bytes: %v", c.Size, err)
		}
		if want := sha1.Sum(data); h.Data != want {
			return core.Fail("hash-file", "HashFile of %d bytes is %x, want %x", c.Size, h.Data, want)
		}
		if now, err := os.ReadFile(p); err != nil || string(now) != string(data) {
			return core.Fail("hash-file-altered", "HashFile changed the file")
		}
		if h, err := common.HashFile(p + ".missing"); err == nil {
			return core.Fail("hash-missing", "HashFile of a missing file: %v", h)
		}
		if h, err := common.HashFile(c08dir); err == nil {
			return core.Fail("hash-folder", "HashFile of a folder: %v", h)
		}
		f, err := os.Open(p)
		if err != nil {
			return core.Harness("%v", err)
		}
		defer f.Close()
		src = f
	}
	lo := min(c.Off, len(data))
	sec := data[lo:min(len(data), lo+c.Len)]
	if c.Off > len(data) {
		sec = nil
	}
	cr := common.NewChunkReader(io.NewSectionReader(src, int64(c.Off), int64(c.Len)))
	if failing && c.Len > 0 && c.FailAt < c.Off+c.Len {
		// unreadable: whatever is reported, reading it must come to an end and yield no wrong bytes
		buf := make([]byte, 512)
		at := 0
		for i := 0; i < 100000; i++ {
			n, _, err := cr.Read(buf)
			if n < 0 || at+n > len(sec) || string(buf[:n]) != string(sec[at:at+n]) {
				return core.Fail("read-bytes", "unreadable section: wrong bytes at %d", at)
			}
			at += n
			if err != nil {
				o.Label("unreadable")
				o.NT()
				return nil
			}
		}
		return core.Fail("unreadable-never-ends", "reading an unreadable section neither fails nor ends")
	}
	if cr.Size != int64(len(sec)) {
		return core.Fail("section-size", "section [%d,+%d) of %d bytes: size %d, want %d", c.Off, c.Len, c.Size, cr.Size, len(sec))
	}
	if want := sha1.Sum(sec); cr.Hash.Data != want {
		return core.Fail("section-hash", "section [%d,+%d) of %d bytes: hash %x, want %x", c.Off, c.Len, c.Size, cr.Hash.Data, want)
	}
	pos := 0
	resets, multi := 0, 0
	for i, op := range c.Ops {
		if g := cr.Offset(); int(g) != pos {
			return core.Fail("offset", "before step %d: Offset()=%d, want %d", i, g, pos)
		}
		switch op.K {
		case "reset":
			if err := cr.Reset(); err != nil {
				return core.Fail("reset", "step %d: %v", i, err)
			}
			resets++
			pos = 0
		case "read":
			buf := make([]byte, op.N)
			n, off, err := cr.Read(buf)
			if int(off) != pos {
				return core.Fail("read-offset", "step %d: read reports offset %d, want %d", i, off, pos)
			}
			left := len(sec) - pos
			if n < 0 || n > op.N || n > left {
				return core.Fail("read-length", "step %d: read %d of %d with %d left", i, n, op.N, left)
			}
			if string(buf[:n]) != string(sec[pos:pos+n]) {
				return core.Fail("read-bytes", "step %d: wrong bytes at %d", i, pos)
			}
			if err != nil && err != io.EOF {
				return core.Fail("read-error", "step %d: %v", i, err)
			}
			if n == 0 && op.N > 0 && left > 0 {
				return core.Fail("read-stuck", "step %d: read nothing with %d left (%v)", i, left, err)
			}
			if err == io.EOF && n < left {
				return core.Fail("early-eof", "step %d: end of data with %d left", i, left-n)
			}
			if left == 0 && op.N > 0 && err != io.EOF {
				return core.Fail("no-eof", "step %d: no end of data at the end", i)
			}
			pos += n
			multi++
		}
	}
	// and a full pass after a reset
	if err := cr.Reset(); err != nil {
		return core.Fail("reset", "%v", err)
	}
	var all []byte
	buf := make([]byte, 777)
	for {
		n, off, err := cr.Read(buf)
		if int(off) != len(all) {
			return core.Fail("read-offset", "final pass: offset %d, want %d", off, len(all))
		}
		all = append(all, buf[:n]...)
		if err != nil || len(all) > len(sec) {
			break
		}
	}
	if string(all) != string(sec) {
		return core.Fail("final-pass", "after a reset: %d bytes, want %d", len(all), len(sec))
	}
	o.LabelIf(c.Off > c.Size, "section-past-end")
	o.LabelIf(c.Off+c.Len > c.Size && c.Off < c.Size, "section-cut-by-end")
	o.LabelIf(c.Off > 0 && len(sec) > 0, "offset-section")
	o.LabelIf(c.Size%4096 == 0 && c.Size > 0, "buffer-multiple")
	if len(sec) > 0 && (resets > 0 && multi > 1 || c.Off > 0) {
		o.NT()
	}
	return nil
}

func init() {
	core.Register(core.Sub{Prop: "C08", Name: "sections", Quick: 8000, Thorough: 250000, Watchdog: 90e9,
		Rule: "a file of 0..20000 bytes (sizes around multiples of 4096), a section (inside, cut by or past the end of the file), a sequence of reads of any size, offsets and resets; every tenth source fails with an I/O error at a byte; compared with the byte slice; non-trivial when the section has bytes and either starts past 0 or is read in several steps around a reset, or cannot be read"},
		func(t *rapid.T) c08Case {
			c := c08Case{Seed: rapid.Uint64Range(0, 1<<32).Draw(t, "seed"), FailAt: -1}
			around := func(nm string, unit, maxn int) int {
				return max(0, rapid.IntRange(0, maxn).Draw(t, nm+"n")*unit+rapid.IntRange(-2, 2).Draw(t, nm+"o"))
			}
			switch rapid.IntRange(0, 3).Draw(t, "sizek") {
			case 0:
				c.Size = around("size", 4096, 4)
			case 1:
				c.Size = rapid.IntRange(0, 60).Draw(t, "size")
			case 2:
				c.Size = around("size", 1000, 12)
			default:
				c.Size = rapid.IntRange(0, 20000).Draw(t, "size")
			}
			switch rapid.IntRange(0, 3).Draw(t, "offk") {
			case 0:
			case 1:
				c.Off = rapid.IntRange(0, c.Size+10).Draw(t, "off")
			case 2:
				c.Off = around("off", 4096, 4)
			default:
				c.Off = around("off", 1000, 12)
			}
			switch rapid.IntRange(0, 3).Draw(t, "lenk") {
			case 0:
				c.Len = around("len", 4096, 3)
			case 1:
				c.Len = max(0, c.Size-c.Off+rapid.IntRange(-2, 2).Draw(t, "lend"))
			default:
				c.Len = rapid.IntRange(0, 20000).Draw(t, "len")
			}
			if rapid.IntRange(0, 9).Draw(t, "fail") == 0 {
				c.FailAt = rapid.IntRange(0, max(c.Size, c.Off+c.Len)+1).Draw(t, "failat")
			}
			n := rapid.IntRange(0, 12).Draw(t, "nops")
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 4).Draw(t, "opk") == 0 {
					c.Ops = append(c.Ops, rop{K: "reset"})
				} else {
					c.Ops = append(c.Ops, rop{K: "read", N: rapid.OneOf(rapid.SampledFrom([]int{0, 1, 1000, 1024, 4096}), rapid.IntRange(0, 9000)).Draw(t, "rn")})
				}
			}
			return c
		}, runC08)
}
