package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"flucheck/core"

	"github.com/flu-network/client/common/bitset"
	"pgregory.net/rapid"
)

type c03Case struct {
	Sizes [3]int
	Ops   []bop
	Slot  int
	// damage applied to the written bytes
	Cut    int      // bytes dropped from the end (-1: none)
	Append []byte   `json:",omitempty"`
	Flips  [][2]int `json:",omitempty"` // byte index, xor mask
	Size   *uint64  `json:",omitempty"` // overwrite the first eight bytes
	Raw    []byte   `json:",omitempty"` // or arbitrary bytes altogether
}

// consistent checks that a set does not contradict itself.
func consistent(b *bitset.Bitset, limit int) error {
	sz := b.Size()
	if sz < 0 {
		return core.Fail("negative-size", "size %d", sz)
	}
	if sz > limit {
		return core.Fail("size-without-data", "size %d from %d bytes", sz, limit/8)
	}
	n := 0
	for i := 0; i < sz+200; i++ {
		if b.Get(uint64(i)) {
			n++
			if i >= sz {
				return core.Fail("member-past-end", "index %d held in a set of size %d", i, sz)
			}
		}
	}
	if n != b.Count() {
		return core.Fail("count-contradiction", "count %d but %d members", b.Count(), n)
	}
	if b.Full() != (n == sz) {
		return core.Fail("full-contradiction", "Full()=%v with %d of %d", b.Full(), n, sz)
	}
	b.Ranges()
	b.UnfilledRanges()
	return nil
}

func runC03(c c03Case, o *core.Obs) error {
	var bs [3]*bitset.Bitset
	for i, s := range c.Sizes {
		bs[i] = bitset.NewBitset(s)
	}
	for _, op := range c.Ops {
		a := op.A
		switch op.K {
		case "set":
			bs[a].Set(op.X)
		case "unset":
			bs[a].Unset(op.X)
		case "fill":
			bs[a].Fill()
		case "copy":
			bs[op.D] = bs[a].Copy()
		case "union":
			bs[op.D] = bs[a].Union(bs[op.B])
		case "inter":
			bs[op.D] = bs[a].Intersect(bs[op.B])
		case "look":
			look(bs[a])
		case "new":
			bs[a] = bitset.NewBitset(int(op.X))
		}
	}
	b := bs[c.Slot]
	raw := b.Serialize()
	keep := append([]byte(nil), raw...)
	r, err := bitset.Deserialize(raw)
	if err != nil {
		return core.Fail("refused-own-bytes", "Deserialize of %d written bytes of a set of size %d: %v", len(raw), b.Size(), err)
	}
	if r == nil {
		return core.Fail("nil-set", "Deserialize returned nil without error")
	}
	if r.Size() != b.Size() || r.Count() != b.Count() || r.Full() != b.Full() {
		return core.Fail("round-trip", "wrote size=%d count=%d full=%v, read size=%d count=%d full=%v", b.Size(), b.Count(), b.Full(), r.Size(), r.Count(), r.Full())
	}
	for i := 0; i < b.Size()+130; i++ {
		if r.Get(uint64(i)) != b.Get(uint64(i)) {
			return core.Fail("round-trip-member", "index %d: wrote %v, read %v", i, b.Get(uint64(i)), r.Get(uint64(i)))
		}
	}
	// independence of the buffer and of the set
	for i := range raw {
		raw[i] ^= 0xA5
	}
	if !bytes.Equal(b.Serialize(), keep) {
		return core.Fail("bytes-alias", "changing the written bytes changed the set")
	}
	if !bytes.Equal(r.Serialize(), keep) {
		return core.Fail("read-alias", "changing the bytes read changed the set (or it is written differently)")
	}
	// the same set built another way has the same bytes
	f := bitset.NewBitset(b.Size())
	for i := b.Size() - 1; i >= 0; i-- {
		if b.Get(uint64(i)) {
			f.Set(uint64(i))
		}
	}
	if f.Size() == b.Size() && !bytes.Equal(f.Serialize(), keep) {
		return core.Fail("not-canonical", "a set of size %d built in two ways is written as %x and %x", b.Size(), trunc(keep), trunc(f.Serialize()))
	}
	// a read set keeps working
	r.Set(uint64(b.Size() + 3))
	if r.Size() != b.Size()+4 || r.Count() != b.Count()+1 {
		return core.Fail("read-then-set", "after Set(%d) on a set read back: size=%d count=%d, want %d %d", b.Size()+3, r.Size(), r.Count(), b.Size()+4, b.Count()+1)
	}
	// damage
	d := append([]byte(nil), keep...)
	if c.Raw != nil {
		d = append([]byte(nil), c.Raw...)
	} else {
		if c.Size != nil {
			binary.BigEndian.PutUint64(d, *c.Size)
		}
		for _, f := range c.Flips {
			d[f[0]%len(d)] ^= byte(f[1])
		}
		if c.Cut >= 0 {
			d = d[:max(0, len(d)-c.Cut)]
		}
		d = append(d, c.Append...)
	}
	dk := append([]byte(nil), d...)
	damaged := !bytes.Equal(d, keep)
	s, err := bitset.Deserialize(d)
	if !bytes.Equal(d, dk) {
		return core.Fail("reader-altered-input", "Deserialize changed the bytes it was given")
	}
	switch {
	case err != nil:
		if !damaged {
			return core.Fail("refused-own-bytes", "%v", err)
		}
		o.LabelIf(damaged, "damage-refused")
	case s == nil:
		return core.Fail("nil-set", "Deserialize returned nil without error")
	default:
		if err := consistent(s, len(d)*8); err != nil {
			return err
		}
		if out := s.Serialize(); !bytes.Equal(out, dk) {
			return core.Fail("impossible-bytes-accepted", "bytes no set is written as were accepted: %x read as a set written as %x", trunc(dk), trunc(out))
		}
		o.LabelIf(damaged, "damage-is-another-set")
	}
	o.LabelIf(len(d) < 8, "short-header")
	if damaged && b.Size() > 0 {
		o.NT()
	}
	return nil
}

func trunc(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func init() {
	core.Register(core.Sub{Prop: "C03", Name: "bytes", Quick: 24000, Thorough: 800000,
		Rule: "a chunk set with a random history (in which it is written and asked about too) is written and read back; then the bytes are truncated, extended, flipped, given another length word or replaced by arbitrary bytes and read: the reader must refuse them or return exactly the set they are the writing of; non-trivial when the bytes were really damaged and the set is not empty"},
		func(t *rapid.T) c03Case {
			c := c03Case{Cut: -1}
			for i := range c.Sizes {
				c.Sizes[i] = genSize(t, fmt.Sprintf("size%d", i), 3000)
			}
			c.Ops = genBops(t, c.Sizes, 14)
			c.Slot = rapid.IntRange(0, 2).Draw(t, "slot")
			for i := range c.Ops {
				if c.Ops[i].K == "set" {
					c.Ops[i].X %= 4000
				}
			}
			switch rapid.IntRange(0, 9).Draw(t, "damage") {
			case 0, 1:
				c.Cut = rapid.IntRange(0, 40).Draw(t, "cut")
			case 2:
				c.Append = rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "append")
			case 3:
				c.Append = make([]byte, 8*rapid.IntRange(1, 3).Draw(t, "words"))
			case 4, 5:
				n := rapid.IntRange(1, 3).Draw(t, "nf")
				for i := 0; i < n; i++ {
					c.Flips = append(c.Flips, [2]int{rapid.IntRange(0, 300).Draw(t, "at"), 1 << rapid.IntRange(0, 7).Draw(t, "bit")})
				}
			case 6:
				v := uint64(rapid.IntRange(0, 600).Draw(t, "sz"))
				c.Size = &v
			case 7:
				v := rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{1 << 63, 1<<63 - 1, 1<<64 - 1, 1<<64 - 63, 1<<62 + 1, 1 << 32, 1 << 31})).Draw(t, "sz")
				c.Size = &v
			case 8:
				c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
				if c.Raw == nil {
					c.Raw = []byte{}
				}
			case 9:
				h := make([]byte, 8)
				binary.BigEndian.PutUint64(h, uint64(rapid.IntRange(0, 200).Draw(t, "hsize")))
				c.Raw = append(h, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 0x80, 0xff}), 0, 40).Draw(t, "words")...)
			}
			return c
		}, runC03)
}
