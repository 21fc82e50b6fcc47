// Command fs checks the catalogue on a failing disk and through crashes.
package main

import (
	"fmt"

	"flucheck/catmodel"
	"flucheck/core"

	"pgregory.net/rapid"
)

// Case is a history with crashes and faults; with Sweep set, the last operation is tried with the
// injection at each of its calls in turn.
type Case struct {
	Contents []catmodel.Content
	Ops      []Op
	Sweep    bool
}

func play(c Case, ops []Op, o *core.Obs, full bool) (last outcome, hits int, err error) {
	w, err := newWorld(c.Contents, o)
	defer w.close()
	if err != nil {
		return last, 0, err
	}
	// the catalogue is made by the first operation, which may be disturbed
	if len(ops) == 0 || ops[0].K != "reopen" {
		ops = append([]Op{{K: "reopen"}}, ops...)
	}
	for i, op := range ops {
		w.where = fmt.Sprintf("step %d %+v", i, op)
		if last, err = w.step(op); err != nil {
			return last, w.hits, err
		}
	}
	hits = w.hits
	return last, hits, w.finish(full)
}

func exec(c Case, o *core.Obs) error {
	if !c.Sweep {
		_, hits, err := play(c, c.Ops, o, true)
		if hits > 0 {
			o.NT()
		}
		return err
	}
	target := len(c.Ops) - 1
	for at := 1; at < 400; at++ {
		ops := append([]Op(nil), c.Ops...)
		inj := &ops[target].I
		torn := inj.Torn
		inj.At, inj.Torn = at, 0
		last, _, err := play(c, ops, o, at%5 == 1)
		if err != nil {
			return err
		}
		if !last.hit {
			break
		}
		o.NT()
		if last.write && torn > 0 {
			inj.Torn = torn
			if _, _, err := play(c, ops, o, at%5 == 1); err != nil {
				return err
			}
			o.Label("torn-write")
		}
	}
	return nil
}

func gen(prop string, sweep bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		small := func(nm string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, nm) }
		c := Case{Sweep: sweep}
		nc := small("contents", 1, 4)
		if sweep {
			nc = small("contents", 1, 3)
		}
		for i := 0; i < nc; i++ {
			size := small("size", 1, 400)
			switch small("sizek", 0, 9) {
			case 0:
				size = 0
			case 1, 2:
				size = small("large", 400, 9000)
			}
			c.Contents = append(c.Contents, catmodel.Content{Size: size, Seed: uint64(i)*991 + uint64(small("seed", 0, 50))})
		}
		inj := func() Inj {
			mask := 0
			if small("more", 0, 3) == 0 {
				mask = small("mask", 1, 255)
			}
			if prop == "C10" {
				return Inj{M: mask, E: small("errno", 0, 7), K: "crash", At: small("at", 1, rapid.SampledFrom([]int{4, 8, 16, 30}).Draw(t, "range")), Torn: small("torn", 0, 7)}
			}
			x := Inj{M: mask, K: "fault", At: small("at", 1, rapid.SampledFrom([]int{4, 8, 16, 30}).Draw(t, "range")), E: small("errno", 0, short), Sticky: rapid.Bool().Draw(t, "sticky"), Torn: max(0, small("torn", -7, 7))}
			if k := small("kind", 0, 9); k == 0 {
				x = Inj{K: "nocat"}
			} else if k == 1 {
				x = Inj{K: "nodl"}
			} else if x.E == 6 { // an interruption is retried: it must end
				x.Sticky = false
			}
			return x
		}
		n := small("n", 2, 14)
		if sweep {
			n = small("n", 0, 7)
		}
		// what is where, so that most steps have something to do
		type at struct{ user, shared, dl bool }
		now := make([]at, nc)
		draw := func() []Op {
			o := Op{C: small("c", 0, nc-1)}
			x := &now[o.C]
			kinds := []string{"reopen", "list", "look", "share", "clean"}
			switch {
			case x.shared:
				kinds = append(kinds, "unshare", "unshare", "read", "hash", "rm", "alter", "clean", "clean", "clean")
			case x.dl:
				kinds = append(kinds, "save", "save", "save", "save", "save", "save", "read", "unshare", "lose", "clean", "register")
			default:
				kinds = append(kinds, "share", "share", "share", "register", "register", "register", "unshare")
			}
			o.K = rapid.SampledFrom(kinds).Draw(t, "k")
			var pre, post []Op
			switch o.K {
			case "share":
				if !x.user && small("file", 0, 7) > 0 {
					pre = []Op{{K: "write", C: o.C}}
					x.user = true
				}
				x.shared = x.shared || x.user && !x.dl
			case "register":
				o.N = rapid.SampledFrom([]int{1, 7, 16, 64, 100, 1000, 4096}).Draw(t, "cs")
				x.dl = !x.shared
				if small("burst", 0, 2) == 0 {
					for j := small("saves", 1, 8); j > 0; j-- {
						post = append(post, Op{K: "save", C: o.C, N: j - 1})
					}
				}
			case "save", "read":
				o.N = small("n", 0, 63)
			case "unshare":
				x.shared, x.dl = false, false
			case "rm", "alter":
				x.user = false
				if small("cleanup", 0, 2) > 0 {
					post = []Op{{K: "clean"}}
				}
			case "lose":
				post = []Op{{K: "clean"}}
			}
			return append(append(pre, o), post...)
		}
		for len(c.Ops) < n {
			for _, o := range draw() {
				if !sweep && small("inj", 0, 2) == 0 {
					o.I = inj()
					o.L = small("fresh", 0, 2) == 0
				}
				c.Ops = append(c.Ops, o)
			}
		}
		if sweep {
			c.Ops = append(c.Ops, draw()...)
			i := inj()
			if i.K == "nocat" || i.K == "nodl" {
				i = Inj{K: "fault", E: small("errno2", 0, short), Torn: small("torn2", 0, 7)}
			}
			i.At = 0
			c.Ops[len(c.Ops)-1].I = i
			c.Ops[len(c.Ops)-1].L = small("fresh", 0, 2) == 0
		}
		return c
	}
}

func main() {
	for _, p := range []struct{ prop, what string }{{"C10", "crash"}, {"C11", "fault"}} {
		core.Register(core.Sub{Prop: p.prop, Name: p.what + "-each-call", Quick: 1600, Thorough: 60000,
			Rule: "a history of share/unshare/register/save/clean/list/read/open steps whose last operation is repeated with a " + p.what + " at each of its file-system calls in turn; non-trivial when at least one call was hit"},
			gen(p.prop, true), exec)
		core.Register(core.Sub{Prop: p.prop, Name: p.what + "-histories", Quick: 12000, Thorough: 500000,
			Rule: "histories in which operations meet a " + p.what + " at random file-system calls, one after the other; non-trivial when at least one was met"},
			gen(p.prop, false), exec)
	}
	core.Main()
}
