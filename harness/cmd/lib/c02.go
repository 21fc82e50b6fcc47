package main

import (
	"flucheck/core"

	"github.com/flu-network/client/common/bitset"
	"pgregory.net/rapid"
)

// setSpec describes a chunk set by its size and runs of held chunks.
type setSpec struct {
	Size int
	Runs [][2]int // start, length
	// all of it held in turns: so many held, so many not
	Turns *[2]int `json:",omitempty"`
}

func (s setSpec) bools() []bool {
	b := make([]bool, s.Size)
	if s.Turns != nil {
		for i := range b {
			b[i] = i%(s.Turns[0]+s.Turns[1]) < s.Turns[0]
		}
	}
	for _, r := range s.Runs {
		for i := r[0]; i < r[0]+r[1] && i < s.Size; i++ {
			b[i] = true
		}
	}
	return b
}

func (s setSpec) build() *bitset.Bitset {
	b := bitset.NewBitset(s.Size)
	for i, v := range s.bools() {
		if v {
			b.Set(uint64(i))
		}
	}
	return b
}

func genSpec(t *rapid.T, big bool) setSpec {
	var s setSpec
	k := rapid.IntRange(0, 29).Draw(t, "speckind")
	switch {
	case big && k == 0:
		s.Size = 65536 - rapid.IntRange(0, 3).Draw(t, "below")
	case big && k == 1:
		s.Size = rapid.IntRange(0, 65536).Draw(t, "size")
	default:
		s.Size = genSize(t, "size", 5000)
	}
	if s.Size == 0 {
		return s
	}
	if rapid.IntRange(0, 7).Draw(t, "full") == 0 {
		s.Runs = [][2]int{{0, s.Size}}
		return s
	}
	if rapid.IntRange(0, 11).Draw(t, "turns") == 0 { // thousands of runs, perhaps
		s.Turns = &[2]int{rapid.SampledFrom([]int{1, 1, 2, 3, 63, 64}).Draw(t, "on"), rapid.SampledFrom([]int{1, 1, 2, 5, 64, 65}).Draw(t, "off")}
	}
	n := rapid.IntRange(0, 8).Draw(t, "runs")
	for i := 0; i < n; i++ {
		var at int
		switch rapid.IntRange(0, 4).Draw(t, "runkind") {
		case 0:
			at = rapid.IntRange(0, s.Size-1).Draw(t, "at")
		case 1:
			at = min(s.Size-1, max(0, rapid.IntRange(0, (s.Size+63)/64).Draw(t, "w")*64+rapid.IntRange(-2, 1).Draw(t, "wo")))
		case 2:
			at = max(0, s.Size-1-rapid.IntRange(0, 66).Draw(t, "fromend"))
		default:
			at = rapid.IntRange(0, min(s.Size-1, 140)).Draw(t, "at")
		}
		l := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 62, 63, 64, 65, 128, 1000, 1 << 17}).Draw(t, "len")
		s.Runs = append(s.Runs, [2]int{at, l})
	}
	return s
}

func genQuery(t *rapid.T, size int) []uint16 {
	n := rapid.IntRange(0, 6).Draw(t, "qn")
	q := []uint16{}
	bound := func(nm string) uint16 {
		switch rapid.IntRange(0, 4).Draw(t, nm+"k") {
		case 0:
			return uint16(min(65535, max(0, size-2+rapid.IntRange(0, 4).Draw(t, nm))))
		case 1:
			return uint16(min(65535, rapid.IntRange(0, (size+63)/64).Draw(t, nm+"w")*64+rapid.IntRange(0, 1).Draw(t, nm+"o")*63))
		case 2:
			return 65535 - uint16(rapid.IntRange(0, 2).Draw(t, nm))
		default:
			return uint16(rapid.IntRange(0, min(65535, size+70)).Draw(t, nm))
		}
	}
	if size > 100 && rapid.IntRange(0, 19).Draw(t, "long") == 0 { // a list of thousands of bounds
		step, wide := rapid.SampledFrom([]int{2, 3, 7, 64, 100}).Draw(t, "qstep"), rapid.IntRange(0, 1).Draw(t, "qwide")
		for a := rapid.IntRange(0, 70).Draw(t, "qfrom"); a+wide < size; a += step {
			q = append(q, uint16(a), uint16(a+wide))
		}
		return q
	}
	prev := -1
	mode := rapid.IntRange(0, 3).Draw(t, "qmode") // 0: raw bounds, otherwise sorted and disjoint
	for i := 0; i < n; i++ {
		a, b := bound("qa"), bound("qb")
		if mode == 0 {
			q = append(q, a, b)
			continue
		}
		if a > b {
			a, b = b, a
		}
		if int(a) <= prev {
			if prev >= 65535 {
				break
			}
			a = uint16(prev + 1 + rapid.IntRange(0, 1).Draw(t, "gap"))
			if a < uint16(prev) {
				break
			}
			if b < a {
				b = a + uint16(rapid.IntRange(0, int(65535-a)).Draw(t, "qlen"))
			}
		}
		q = append(q, a, b)
		prev = int(b)
	}
	if mode == 0 && rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
		q = append(q, bound("qodd"))
	}
	return q
}

type c02Case struct {
	Set setSpec
	// what the set was before, when it was asked the same
	Prior [][2]int `json:",omitempty"`
	Q     []uint16
	N     int
}

func runC02(c c02Case, o *core.Obs) error {
	want := c.Set.bools()
	b := c.Set.build()
	if c.Prior != nil {
		p := setSpec{Size: c.Set.Size, Runs: c.Prior}.bools()
		b = bitset.NewBitset(c.Set.Size)
		full := len(p) > 0
		for i, v := range p {
			if v {
				b.Set(uint64(i))
			}
			full = full && want[i]
		}
		b.Ranges()
		b.UnfilledRanges()
		b.UnfilledItems(c.N)
		b.Overlap(c.Q)
		look(b)
		if full && c.N%2 == 0 {
			b.Fill()
		}
		for i, v := range p {
			switch {
			case want[i] && !v:
				b.Set(uint64(i))
			case v && !want[i]:
				b.Unset(uint64(i))
			}
		}
		o.Label("asked-before")
	}
	held := func(i int) bool { return i >= 0 && i < len(want) && want[i] }
	runs := func(val bool, lo, hi int) [][2]int { // maximal runs in [lo,hi]
		var out [][2]int
		for i := lo; i <= hi; i++ {
			if held(i) != val {
				continue
			}
			if n := len(out); n > 0 && out[n-1][1] == i-1 {
				out[n-1][1] = i
			} else {
				out = append(out, [2]int{i, i})
			}
		}
		return out
	}
	pairs := func(v []uint16) [][2]int {
		var out [][2]int
		for i := 0; i+1 < len(v); i += 2 {
			out = append(out, [2]int{int(v[i]), int(v[i+1])})
		}
		return out
	}
	same := func(a, b [][2]int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	got := b.Ranges()
	if len(got)%2 != 0 {
		return core.Fail("ranges-odd", "Ranges() has %d bounds", len(got))
	}
	if w := runs(true, 0, c.Set.Size-1); !same(pairs(got), w) {
		return core.Fail("ranges", "Ranges()=%v, want %v", got, w)
	}
	var un [][2]int
	for _, r := range b.UnfilledRanges() {
		un = append(un, [2]int{int(r.Start), int(r.End)})
	}
	if w := runs(false, 0, c.Set.Size-1); !same(un, w) {
		return core.Fail("missing-ranges", "UnfilledRanges()=%v, want %v", un, w)
	}
	var miss []int
	for i := range want {
		if !want[i] {
			miss = append(miss, i)
		}
	}
	items := b.UnfilledItems(c.N)
	if len(items) != min(c.N, len(miss)) {
		return core.Fail("missing-items", "UnfilledItems(%d) has %d items, want %d", c.N, len(items), min(c.N, len(miss)))
	}
	for i := range items {
		if int(items[i]) != miss[i] {
			return core.Fail("missing-items", "UnfilledItems(%d)[%d]=%d, want %d", c.N, i, items[i], miss[i])
		}
	}
	// the query
	qcopy := append([]uint16(nil), c.Q...)
	ov := b.Overlap(c.Q)
	for i := range qcopy {
		if c.Q[i] != qcopy[i] {
			return core.Fail("query-altered", "Overlap changed its argument")
		}
	}
	if len(ov)%2 != 0 {
		return core.Fail("overlap-odd", "Overlap() has %d bounds", len(ov))
	}
	sorted, prev := true, -1
	var w [][2]int
	for _, q := range pairs(c.Q) {
		if q[0] > q[1] || q[0] <= prev {
			sorted = false
		}
		prev = q[1]
		w = append(w, runs(true, q[0], q[1])...)
	}
	if sorted {
		if !same(pairs(ov), w) {
			return core.Fail("overlap", "Overlap(%v)=%v, want %v", c.Q, ov, w)
		}
	} else { // only the chunks covered are specified
		a, b := make([]bool, 65536), make([]bool, 65536)
		for _, r := range w {
			for i := r[0]; i <= r[1]; i++ {
				a[i] = true
			}
		}
		for _, r := range pairs(ov) {
			if r[0] > r[1] {
				return core.Fail("overlap-inverted", "Overlap(%v)=%v", c.Q, ov)
			}
			for i := r[0]; i <= r[1]; i++ {
				b[i] = true
			}
		}
		for i := range a {
			if a[i] != b[i] {
				return core.Fail("overlap-cover", "Overlap(%v)=%v: chunk %d covered=%v, want %v", c.Q, ov, i, b[i], a[i])
			}
		}
	}
	// asking must not change the set
	for i := range want {
		if b.Get(uint64(i)) != want[i] {
			return core.Fail("query-changed-set", "chunk %d changed by a query", i)
		}
	}
	o.LabelIf(len(c.Q)%2 == 1, "odd-query")
	o.LabelIf(len(ov) > 1000, "thousands-of-bounds")
	o.LabelIf(len(c.Q) > 1000, "long-query")
	o.LabelIf(!sorted, "unsorted-query")
	o.LabelIf(len(w) > 1, "multi-range-overlap")
	o.LabelIf(c.Set.Size == 65536 && held(65535), "chunk-65535-held")
	o.LabelIf(prev >= c.Set.Size, "query-past-end")
	o.LabelIf(c.Set.Size > 0 && held(c.Set.Size-1), "last-held")
	if len(runs(true, 0, c.Set.Size-1)) >= 2 && len(c.Q) >= 2 {
		o.NT()
	}
	return nil
}

func init() {
	core.Register(core.Sub{Prop: "C02", Name: "ranges", Quick: 16000, Thorough: 500000,
		Rule: "a chunk set of up to 65536 chunks built from runs placed at word boundaries, ends and random places; a query list (sorted, or arbitrary, inverted, odd); a count of missing items; a quarter of the sets had other contents and were asked before; compared with a boolean array; non-trivial when the set has two or more held runs and the query is not empty"},
		func(t *rapid.T) c02Case {
			s := genSpec(t, true)
			var prior [][2]int
			if rapid.IntRange(0, 3).Draw(t, "asked") == 0 {
				prior = [][2]int{}
				if s.Size > 0 {
					for k := rapid.IntRange(0, 3).Draw(t, "priors"); k > 0; k-- {
						prior = append(prior, [2]int{rapid.IntRange(0, s.Size-1).Draw(t, "pat"), rapid.SampledFrom([]int{1, 2, 64, 1000, 1 << 17}).Draw(t, "plen")})
					}
				}
				for k := range s.Runs { // much of it stays as it was
					if rapid.Bool().Draw(t, "keep") {
						prior = append(prior, s.Runs[k])
					}
				}
			}
			return c02Case{Prior: prior, Set: s, Q: genQuery(t, s.Size), N: rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 300), rapid.Just(65536)).Draw(t, "n")}
		}, runC02)
}
