package main

import (
	"fmt"
	"math"

	"flucheck/core"

	"github.com/flu-network/client/common/bitset"
	"pgregory.net/rapid"
)

// bop is one step of a history over three chunk sets (slots 0..2).
type bop struct {
	K       string `json:"k"`
	A, B, D int    `json:",omitempty"`
	X       uint64 `json:",omitempty"`
}

type c01Case struct {
	Sizes [3]int
	Ops   []bop
}

// sizes near the word boundaries, the 16-bit limit, and anything else
func genSize(t *rapid.T, name string, max int) int {
	switch rapid.IntRange(0, 5).Draw(t, name+"-kind") {
	case 0:
		return rapid.IntRange(0, 3).Draw(t, name)
	case 1, 2:
		w := rapid.IntRange(0, 6).Draw(t, name+"-words")*64 + rapid.IntRange(-2, 2).Draw(t, name+"-off")
		if w < 0 {
			w = 0
		}
		return min(w, max)
	case 3:
		return rapid.IntRange(0, min(300, max)).Draw(t, name)
	case 4:
		return rapid.IntRange(0, min(3000, max)).Draw(t, name)
	default:
		return rapid.SampledFrom([]int{0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 1023, 1024, 1025, 4096}).Draw(t, name)
	}
}

func genIndex(t *rapid.T, size int) uint64 {
	switch rapid.IntRange(0, 9).Draw(t, "ixkind") {
	case 0, 1, 2, 3:
		return uint64(rapid.IntRange(0, max(0, size-1)).Draw(t, "ix"))
	case 4:
		return uint64(rapid.IntRange(0, 200).Draw(t, "ix"))
	case 5, 6:
		v := rapid.IntRange(0, 8).Draw(t, "ixw")*64 + rapid.IntRange(-1, 1).Draw(t, "ixo")
		return uint64(max(0, v))
	case 7:
		return uint64(max(0, size+rapid.IntRange(-2, 70).Draw(t, "ixe")))
	case 8:
		return uint64(rapid.IntRange(0, 70000).Draw(t, "ix"))
	default:
		return rapid.Uint64().Draw(t, "ixhuge")
	}
}

// hugeIndex draws indices that can only be asked about, not set.
func hugeIndex(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "hk") {
	case 0:
		return math.MaxUint64 - uint64(rapid.IntRange(0, 130).Draw(t, "hx"))
	case 1:
		return 1<<63 + uint64(rapid.IntRange(0, 130).Draw(t, "hx")) - 65
	case 2:
		return uint64(1)<<rapid.IntRange(31, 63).Draw(t, "hs") + uint64(rapid.IntRange(0, 64).Draw(t, "hx"))
	default:
		return rapid.Uint64Min(70000).Draw(t, "hx")
	}
}

func genBops(t *rapid.T, sizes [3]int, maxOps int) []bop {
	n := rapid.IntRange(1, maxOps).Draw(t, "n")
	ops := make([]bop, 0, n)
	cur := sizes
	slot := func(nm string) int { return rapid.IntRange(0, 2).Draw(t, nm) }
	for i := 0; i < n; i++ {
		o := bop{A: slot("a")}
		switch k := rapid.IntRange(0, 20).Draw(t, "op"); {
		case k < 6:
			o.K, o.X = "set", genIndex(t, cur[o.A])%70001
			cur[o.A] = max(cur[o.A], int(o.X)+1)
		case k < 11:
			o.K, o.X = "unset", genIndex(t, cur[o.A])
		case k < 13:
			o.K, o.X = "get", genIndex(t, cur[o.A])
		case k < 14:
			o.K, o.X = "get", hugeIndex(t)
		case k < 15:
			o.K, o.X = "unset", hugeIndex(t)
		case k < 16:
			o.K = "fill"
		case k < 17:
			o.K, o.D = "copy", slot("d")
		case k < 18:
			o.K, o.B, o.D = "union", slot("b"), slot("d")
			cur[o.D] = max(cur[o.A], cur[o.B])
		case k < 19:
			o.K, o.B, o.D = "inter", slot("b"), slot("d")
			cur[o.D] = min(cur[o.A], cur[o.B])
		case k < 20:
			o.K = "look"
		default:
			o.K, o.X = "new", uint64(genSize(t, "newsize", 5000))
			cur[o.A] = int(o.X)
		}
		ops = append(ops, o)
	}
	return ops
}

// look asks a set everything there is to ask, which must not matter later.
func look(b *bitset.Bitset) {
	b.Serialize()
	b.Ranges()
	b.UnfilledRanges()
	b.UnfilledItems(3)
	b.Overlap([]uint16{0, 10, 60, 200})
	b.Full()
	b.Count()
	b.Copy()
}

type bmodel struct {
	m    map[uint64]bool
	size int
}

func (m *bmodel) clone() *bmodel {
	c := &bmodel{m: make(map[uint64]bool, len(m.m)), size: m.size}
	for k := range m.m {
		c.m[k] = true
	}
	return c
}

func compareSet(where string, b *bitset.Bitset, m *bmodel, probe map[uint64]bool, deep bool) error {
	if b.Size() != m.size {
		return core.Fail("size", "%s: size is %d, want %d", where, b.Size(), m.size)
	}
	if b.Count() != len(m.m) {
		return core.Fail("count", "%s: count is %d, want %d", where, b.Count(), len(m.m))
	}
	if want := len(m.m) == m.size; b.Full() != want {
		return core.Fail("full", "%s: Full() is %v, want %v (count %d, size %d)", where, b.Full(), want, len(m.m), m.size)
	}
	for k := range m.m {
		if !b.Get(k) {
			return core.Fail("member-lost", "%s: index %d is absent, want present", where, k)
		}
	}
	check := func(x uint64) error {
		if b.Get(x) != m.m[x] {
			return core.Fail("member", "%s: Get(%d)=%v, want %v", where, x, b.Get(x), m.m[x])
		}
		return nil
	}
	if deep {
		for x := 0; x < m.size+130; x++ {
			if err := check(uint64(x)); err != nil {
				return err
			}
		}
	}
	for x := range probe {
		if err := check(x); err != nil {
			return err
		}
	}
	return nil
}

func runC01(c c01Case, o *core.Obs) error {
	var bs [3]*bitset.Bitset
	var ms [3]*bmodel
	for i, s := range c.Sizes {
		bs[i] = bitset.NewBitset(s)
		ms[i] = &bmodel{m: map[uint64]bool{}, size: s}
	}
	probe := map[uint64]bool{0: true, 63: true, 64: true, 1 << 40: true, math.MaxUint64: true, 1 << 63: true}
	kinds := map[string]bool{}
	for i, op := range c.Ops {
		where := fmt.Sprintf("after op %d %+v", i, op)
		kinds[op.K] = true
		a := op.A
		for d := uint64(0); d < 3; d++ {
			probe[op.X+d-1] = true
		}
		switch op.K {
		case "set":
			bs[a].Set(op.X)
			ms[a].m[op.X] = true
			ms[a].size = max(ms[a].size, int(op.X)+1)
		case "unset":
			o.LabelIf(!ms[a].m[op.X], "unset-absent")
			bs[a].Unset(op.X)
			delete(ms[a].m, op.X)
		case "get":
			if bs[a].Get(op.X) != ms[a].m[op.X] {
				return core.Fail("member", "%s: Get=%v want %v", where, bs[a].Get(op.X), ms[a].m[op.X])
			}
		case "fill":
			bs[a].Fill()
			for x := 0; x < ms[a].size; x++ {
				ms[a].m[uint64(x)] = true
			}
		case "copy":
			bs[op.D] = bs[a].Copy()
			ms[op.D] = ms[a].clone()
		case "union":
			r := bs[a].Union(bs[op.B])
			m := ms[a].clone()
			for k := range ms[op.B].m {
				m.m[k] = true
			}
			m.size = max(ms[a].size, ms[op.B].size)
			bs[op.D], ms[op.D] = r, m
		case "inter":
			r := bs[a].Intersect(bs[op.B])
			m := &bmodel{m: map[uint64]bool{}, size: min(ms[a].size, ms[op.B].size)}
			for k := range ms[op.B].m {
				if ms[a].m[k] {
					m.m[k] = true
				}
			}
			if hi := max(ms[a].size, ms[op.B].size); r.Size() == hi {
				m.size = hi // either reading of the size of an intersection is consistent
			}
			bs[op.D], ms[op.D] = r, m
		case "look":
			look(bs[a])
		case "new":
			bs[a] = bitset.NewBitset(int(op.X))
			ms[a] = &bmodel{m: map[uint64]bool{}, size: int(op.X)}
		}
		deep := i == len(c.Ops)-1 || op.K == "fill" || op.K == "union" || op.K == "inter" || op.K == "new"
		for s := range bs {
			if err := compareSet(where+fmt.Sprintf(", set %d", s), bs[s], ms[s], probe, deep && ms[s].size < 6000 || i == len(c.Ops)-1); err != nil {
				return err
			}
		}
	}
	for k := range kinds {
		o.Label(k)
	}
	if len(kinds) >= 3 && len(c.Ops) >= 4 {
		o.NT()
	}
	return nil
}

func init() {
	core.Register(core.Sub{Prop: "C01", Name: "histories", Quick: 24000, Thorough: 800000,
		Rule: "a history of up to 40 set/unset/get/fill/copy/union/intersect/new steps and queries over three chunk sets (sizes around word boundaries, indices in range, at boundaries, far out of range up to 2^64-1), compared with a map after every step; non-trivial when it has at least 4 steps of at least 3 kinds"},
		func(t *rapid.T) c01Case {
			c := c01Case{}
			for i := range c.Sizes {
				c.Sizes[i] = genSize(t, fmt.Sprintf("size%d", i), 5000)
			}
			c.Ops = genBops(t, c.Sizes, 40)
			return c
		}, runC01)
}
