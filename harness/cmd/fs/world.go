package main

import (
	"crypto/sha1"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"flucheck/catmodel"
	"flucheck/core"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
)

// Op is one step.
type Op struct {
	K string `json:"k"`
	C int    `json:"c,omitempty"` // content
	N int    `json:"n,omitempty"` // chunk or chunk size
	I Inj    `json:"i,omitzero"`
	L bool   `json:"l,omitempty"` // right after the catalogue was opened, with nothing asked in between
}

// state is what the catalogue says about one content.
type state struct {
	In       bool
	Path     string
	Size, CS int
	Held     string // a digit per chunk
}

func (s state) String() string {
	if !s.In {
		return "not indexed"
	}
	return fmt.Sprintf("%q %d bytes, chunks of %d held %s", s.Path, s.Size, s.CS, s.Held)
}

// ent is one content, indexed or not.
type ent struct {
	c       int
	want    []byte
	hash    [20]byte
	cur     state          // as the open catalogue must show it
	disk    map[state]bool // what may be on disk
	user    []byte         // the user's file, if hasUser
	hasUser bool
	taint   bool // the indexed file was changed behind the catalogue's back
}

type world struct {
	root, catDir, dlDir, userDir string
	ents                         []*ent
	cat                          *catalogue.Cat
	methods                      *cli.Methods
	o                            *core.Obs
	where                        string
	what                         string // the calls of the last watched operation
	hits, crashes                int
}

func newWorld(contents []catmodel.Content, o *core.Obs) (*world, error) {
	pid.Store(0)
	clock.Store(0)
	w := &world{root: core.Scratch(), o: o, where: "start"}
	w.catDir, w.dlDir, w.userDir = filepath.Join(w.root, "cat"), filepath.Join(w.root, "dl"), filepath.Join(w.root, "user")
	if err := os.MkdirAll(w.userDir, 0755); err != nil {
		return w, core.Harness("%v", err)
	}
	for i, c := range contents {
		b := c.Bytes()
		w.ents = append(w.ents, &ent{c: i, want: b, hash: sha1.Sum(b), disk: map[state]bool{{}: true}})
	}
	return w, nil
}

func (w *world) close() { os.RemoveAll(w.root) }

func (w *world) fail(sig, f string, a ...any) error {
	return core.Fail(sig, "%s [%s]: %s", w.where, w.what, fmt.Sprintf(f, a...))
}

func (w *world) ent(c int) *ent {
	e := w.ents[c%len(w.ents)]
	for _, x := range w.ents { // equal contents are one
		if x.hash == e.hash {
			return x
		}
	}
	return e
}

func (w *world) userPath(e *ent) string { return filepath.Join(w.userDir, fmt.Sprintf("u%d", e.c)) }
func (w *world) dlPath(e *ent) string   { return filepath.Join(w.dlDir, fmt.Sprintf("d%d", e.c)) }

func parts(size, cs int) int { return (size + cs - 1) / cs }

var pid, clock atomic.Int64

var later = []time.Duration{0, time.Second, 29 * time.Second, time.Minute, time.Hour, 100 * time.Hour}

// open opens the folder anew; the error is the client's.
func (w *world) open() error {
	// another process, later
	pid.Add(1)
	clock.Add(int64(later[int(pid.Load())%len(later)]))
	c, err := catalogue.NewCat(w.catDir, w.dlDir)
	if err != nil {
		return err
	}
	if err := c.Init(); err != nil {
		return err
	}
	w.cat, w.methods = c, cli.NewMethods(c, nil)
	return nil
}

func stateOf(x catalogue.IndexRecordExport) state {
	var b strings.Builder
	for i := 0; i < x.Progress.Size(); i++ {
		b.WriteByte("01"[map[bool]int{true: 1}[x.Progress.Get(uint64(i))]])
	}
	return state{In: true, Path: x.FilePath, Size: int(x.SizeInBytes), CS: x.ChunkSize, Held: b.String()}
}

// shown is what a listing says.
func (w *world) shown(list []catalogue.IndexRecordExport) (map[*ent]state, error) {
	got := map[*ent]state{}
next:
	for _, x := range list {
		for _, e := range w.ents {
			if e == w.ent(e.c) && e.hash == x.Sha1Hash.Data {
				if _, ok := got[e]; ok {
					return nil, w.fail("listed-twice", "%s is listed twice", x.FilePath)
				}
				got[e] = stateOf(x)
				continue next
			}
		}
		return nil, w.fail("listed-unknown", "%s (%x) is listed", x.FilePath, x.Sha1Hash.Data)
	}
	return got, nil
}

// observe compares the listing with what each content may be, and adopts it.
func (w *world) observe(may func(e *ent) []state, sig string) error {
	var got map[*ent]state
	o, err := watched(Inj{}, func() error {
		list, err := w.cat.ListFiles()
		if err == nil {
			got, err = w.shown(list)
		}
		return err
	})
	if err != nil {
		return err
	}
	if _, ok := o.err.(*core.Violation); ok {
		return o.err
	}
	if o.err != nil {
		return w.fail(sig+"-list", "the catalogue cannot be listed: %v", o.err)
	}
	for _, e := range w.ents {
		if e != w.ent(e.c) {
			continue
		}
		ok := false
		for _, s := range may(e) {
			ok = ok || s == got[e]
		}
		if !ok {
			return w.fail(sig, "content %d is shown as %v, which is none of %v", e.c, got[e], may(e))
		}
		if !got[e].In || got[e] != e.cur && !e.cur.In {
			e.taint = false
		}
		e.cur = got[e]
		if err := w.bytes(e); err != nil {
			return err
		}
	}
	return nil
}

// bytes checks that what is held reads back.
func (w *world) bytes(e *ent) error {
	for i, h := range e.cur.Held {
		if h == '1' && !e.taint {
			if err := w.readChunk(e, i); err != nil {
				return w.fail("held-bytes", "chunk %d of content %d is held, but: %v", i, e.c, err)
			}
		}
	}
	return nil
}

func (w *world) readChunk(e *ent, i int) error {
	cr, err := w.cat.GetChunkReader(catmodel.H(e.hash), int64(i))
	if err != nil {
		return err
	}
	want := e.want[i*e.cur.CS : min(len(e.want), (i+1)*e.cur.CS)]
	if cr.Closer != nil {
		defer cr.Closer.Close()
	}
	if cr.Size != int64(len(want)) || cr.Hash.Data != sha1.Sum(want) {
		return w.fail("chunk-claim", "the reader of chunk %d of content %d announces %d bytes %x instead of %d bytes %x", i, e.c, cr.Size, cr.Hash.Data, len(want), sha1.Sum(want))
	}
	b, err := io.ReadAll(&cr.Reader)
	if err != nil {
		return err
	}
	if string(b) != string(want) {
		return w.fail("chunk-bytes", "chunk %d of content %d reads as other bytes", i, e.c)
	}
	return nil
}

// plan says what an operation does: whose state it changes and to what.
type plan struct {
	e      *ent
	after  state
	refuse bool // it must be refused
	f      func() error
	multi  func(e *ent) []state // clean: what each may become
	bad    map[*ent]bool        // clean: what it must remove
}

func (w *world) plan(op Op) *plan {
	e := w.ent(op.C)
	h := catmodel.H(e.hash)
	switch op.K {
	case "share":
		if e.hasUser && string(e.user) != string(e.want) {
			return nil
		}
		p := &plan{e: e, after: e.cur, refuse: true, f: func() error {
			var item cli.ListItem
			return w.methods.Share(&cli.ShareRequest{Filepath: w.userPath(e)}, &item)
		}}
		if e.hasUser && !e.cur.In {
			n := parts(len(e.want), catmodel.ShareChunk)
			p.after, p.refuse = state{true, w.userPath(e), len(e.want), catmodel.ShareChunk, strings.Repeat("1", n)}, false
		}
		return p
	case "unshare":
		return &plan{e: e, refuse: !e.cur.In, f: func() error { return w.cat.UnshareFile(h) }}
	case "register":
		cs := max(1, op.N)
		if parts(len(e.want), cs) > 64 {
			cs = parts(len(e.want), 64)
		}
		p := &plan{e: e, after: e.cur, refuse: true, f: func() error {
			_, err := w.cat.RegisterDownload(uint64(len(e.want)), uint32(parts(len(e.want), cs)), uint32(cs), h, filepath.Base(w.dlPath(e)))
			return err
		}}
		if !e.cur.In && len(e.want) > 0 {
			p.after, p.refuse = state{true, w.dlPath(e), len(e.want), cs, strings.Repeat("0", parts(len(e.want), cs))}, false
		}
		return p
	case "save":
		if !e.cur.In || e.cur.Path != w.dlPath(e) || len(e.cur.Held) == 0 {
			return nil
		}
		i := op.N % len(e.cur.Held)
		p := &plan{e: e, after: e.cur, f: func() error {
			return w.cat.SaveChunk(h, uint16(i), append([]byte(nil), e.want[i*e.cur.CS:min(len(e.want), (i+1)*e.cur.CS)]...))
		}}
		b := []byte(e.cur.Held)
		b[i] = '1'
		p.after.Held = string(b)
		return p
	case "list":
		return &plan{e: e, after: e.cur, f: func() error {
			list, err := w.cat.ListFiles()
			if err != nil {
				return err
			}
			got, err := w.shown(list)
			for _, e := range w.ents {
				if err == nil && e == w.ent(e.c) && got[e] != e.cur {
					err = w.fail("list-wrong", "content %d is listed as %v instead of %v", e.c, got[e], e.cur)
				}
			}
			return err
		}}
	case "look":
		return &plan{e: e, after: e.cur, refuse: !e.cur.In, f: func() error {
			x, err := w.cat.Contains(h)
			if err == nil && stateOf(*x) != e.cur {
				err = w.fail("look-wrong", "content %d is found as %v instead of %v", e.c, stateOf(*x), e.cur)
			}
			return err
		}}
	case "hash":
		if !e.cur.In || e.taint || strings.Contains(e.cur.Held, "0") {
			return nil
		}
		return &plan{e: e, after: e.cur, f: func() error {
			x, err := w.cat.Rehash(h)
			if err == nil && x.Data != e.hash {
				err = w.fail("hash-wrong", "content %d is said to hash to %x", e.c, x.Data)
			}
			return err
		}}
	case "read":
		if !e.cur.In || e.taint || len(e.cur.Held) == 0 {
			return nil
		}
		i := op.N % len(e.cur.Held)
		return &plan{e: e, after: e.cur, refuse: e.cur.Held[i] == '0', f: func() error { return w.readChunk(e, i) }}
	case "clean":
		p := &plan{bad: map[*ent]bool{}, f: func() error {
			var resp cli.CleanResponse
			return w.methods.Clean(&cli.CleanRequest{}, &resp)
		}}
		unsure := map[*ent]bool{}
		for _, e := range w.ents {
			if e != w.ent(e.c) || !e.cur.In {
				continue
			}
			b, err := os.ReadFile(e.cur.Path)
			switch {
			case strings.Contains(e.cur.Held, "0"):
				unsure[e] = err != nil
			default:
				p.bad[e] = err != nil || sha1.Sum(b) != e.hash
			}
		}
		p.multi = func(e *ent) []state {
			switch {
			case p.bad[e]:
				return []state{{}}
			case unsure[e]:
				return []state{e.cur, {}}
			}
			return []state{e.cur}
		}
		return p
	case "reopen":
		return &plan{f: w.open, multi: func(e *ent) []state { return alts(e) }}
	}
	return nil
}

func alts(e *ent, more ...state) []state {
	var out []state
	for s := range e.disk {
		out = append(out, s)
	}
	out = append(out, more...)
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// set says that the disk agrees with what is shown.
func set(e *ent, s state) { e.disk = map[state]bool{s: true} }

// reopen opens the folder after a crash, or to see what is on disk.
func (w *world) reopen(sig string, more map[*ent][]state) error {
	o, err := watched(Inj{}, w.open)
	if err != nil {
		return err
	}
	if o.err != nil {
		return w.fail(sig+"-open", "the catalogue cannot be opened: %v", o.err)
	}
	if err := w.observe(func(e *ent) []state { return alts(e, more[e]...) }, sig); err != nil {
		return err
	}
	for _, e := range w.ents {
		set(e, e.cur)
	}
	return nil
}

// beside opens the folder a second time: what is on disk must be what is shown.
func (w *world) beside() error {
	var got map[*ent]state
	o, err := watched(Inj{}, func() error {
		c, err := catalogue.NewCat(w.catDir, w.dlDir)
		if err == nil {
			err = c.Init()
		}
		if err != nil {
			return err
		}
		list, err := c.ListFiles()
		if err == nil {
			got, err = w.shown(list)
		}
		return err
	})
	if err != nil {
		return err
	}
	if o.err != nil {
		return w.fail("beside-open", "after the error the catalogue cannot be opened anew: %v", o.err)
	}
	for _, e := range w.ents {
		if e == w.ent(e.c) && got[e] != e.cur {
			return w.fail("beside", "after the error content %d is shown as %v, but as %v by a catalogue opened on the same folder", e.c, e.cur, got[e])
		}
	}
	return nil
}

// settled says whether what is on disk is known to be what is shown.
func (w *world) settled() bool {
	for _, e := range w.ents {
		if e == w.ent(e.c) && (len(e.disk) != 1 || !e.disk[e.cur]) {
			return false
		}
	}
	return true
}

// step does one step and reports whether the injection happened.
func (w *world) step(op Op) (outcome, error) {
	e := w.ent(op.C)
	switch op.K {
	case "write", "rm", "alter": // the user's file
		p := w.userPath(e)
		os.RemoveAll(p)
		e.user, e.hasUser = nil, false
		if op.K != "rm" {
			b := append([]byte(nil), e.want...)
			if op.K == "alter" {
				b = append(b, 'x')
			}
			if err := os.WriteFile(p, b, 0644); err != nil {
				return outcome{}, core.Harness("%v", err)
			}
			e.user, e.hasUser = b, true
		}
		if e.cur.In && e.cur.Path == p {
			e.taint = op.K != "write"
		}
		return outcome{}, nil
	case "lose": // the file of a download
		if e.cur.In && e.cur.Path == w.dlPath(e) && strings.Contains(e.cur.Held, "1") {
			os.RemoveAll(w.dlPath(e))
			e.taint = true
		}
		return outcome{}, nil
	}
	p := w.plan(op)
	if p == nil {
		return outcome{}, nil
	}
	if op.L && op.K != "reopen" && w.settled() {
		o, err := watched(Inj{}, w.open)
		if err != nil {
			return o, err
		}
		if o.err != nil {
			return o, w.fail("lazy-open", "the catalogue cannot be opened: %v", o.err)
		}
		w.o.LabelIf(op.I.K != "", "disturbed-right-after-opening")
	}
	inj := op.I
	restore := func() {}
	if inj.K == "nocat" && p.e != nil || inj.K == "nodl" && (op.K == "save" || op.K == "register") {
		d := w.catDir
		if inj.K == "nodl" {
			d = w.dlDir
		}
		_, err := os.Stat(d)
		if err == nil {
			err = os.Rename(d, d+".away")
		}
		if err == nil || os.IsNotExist(err) {
			err2 := os.WriteFile(d, []byte("in the way"), 0644)
			restore = func() {
				os.RemoveAll(d)
				if err == nil {
					os.Rename(d+".away", d)
				}
			}
			err = err2
		}
		if err != nil {
			return outcome{}, core.Harness("%v", err)
		}
	}
	o, err := watched(inj, p.f)
	restore()
	w.what = o.calls
	if err != nil {
		return o, err
	}
	if v, ok := o.err.(*core.Violation); ok {
		return o, v
	}
	if o.hit {
		w.hits++
	}
	if o.crashed {
		w.crashes++
		w.o.Label("crashed-in-" + op.K)
		more := map[*ent][]state{}
		if p.e != nil {
			more[p.e] = []state{p.e.cur, p.after}
		} else if p.multi != nil && op.K == "clean" {
			for _, e := range w.ents {
				more[e] = p.multi(e)
				if p.bad[e] {
					more[e] = append(more[e], e.cur)
				}
				if inj.M != 0 { // it may have been unreadable
					more[e] = append(more[e], state{})
				}
			}
		}
		return o, w.reopen("crash", more)
	}
	if p.e != nil {
		changes := p.after != p.e.cur
		before := p.e.cur
		may := []state{p.after}
		switch {
		case inj.K == "nocat" && changes && o.err == nil:
			return o, w.fail("lost-folder", "%s succeeds without a catalogue folder", op.K)
		case inj.K == "nodl" && changes && op.K == "save" && o.err == nil:
			return o, w.fail("lost-folder", "a chunk is saved without a downloads folder")
		case o.hit || inj.K == "nocat" || inj.K == "nodl" && op.K == "save":
			if o.err != nil {
				may = []state{before, p.after}
				w.o.Label("refused-" + op.K)
				if op.K == "save" && inj.K == "nodl" {
					may = []state{before}
				}
			} else if p.refuse {
				return o, w.fail("accepted", "%s of content %d (%v) is accepted", op.K, p.e.c, before)
			}
		case p.refuse != (o.err != nil):
			return o, w.fail("undisturbed", "%s of content %d (%v) answers %v", op.K, p.e.c, before, o.err)
		}
		if err := w.observe(func(e *ent) []state {
			if e == p.e {
				return may
			}
			return []state{e.cur}
		}, "state"); err != nil {
			return o, err
		}
		if o.hit || inj.K == "nocat" || inj.K == "nodl" {
			if err := w.beside(); err != nil {
				return o, err
			}
		}
		if changes && o.err == nil {
			set(p.e, p.after)
		} else if changes {
			p.e.disk[before], p.e.disk[p.after], p.e.disk[p.e.cur] = true, true, true
		}
		return o, nil
	}
	// clean and reopen
	if o.err != nil && !o.hit {
		return o, w.fail("undisturbed", "%s answers %v", op.K, o.err)
	}
	if op.K == "reopen" {
		if o.err != nil {
			w.o.Label("refused-open")
			return o, w.reopen("reopen", nil)
		}
		if err := w.observe(p.multi, "reopen"); err != nil {
			return o, err
		}
		for _, e := range w.ents {
			set(e, e.cur)
		}
		return o, nil
	}
	before := map[*ent]state{}
	for _, e := range w.ents {
		before[e] = e.cur
	}
	if err := w.observe(func(e *ent) []state {
		if o.hit && (o.err != nil || !p.bad[e]) {
			return []state{e.cur, {}}
		}
		return p.multi(e)
	}, "clean"); err != nil {
		return o, err
	}
	if o.hit {
		if err := w.beside(); err != nil {
			return o, err
		}
	}
	for _, e := range w.ents {
		if o.hit && before[e].In {
			e.disk[state{}], e.disk[e.cur] = true, true
		} else if e.cur != before[e] {
			set(e, e.cur)
		}
	}
	return o, nil
}

// finish uses everything once more, undisturbed.
func (w *world) finish(full bool) error {
	do := func(k string, e *ent, n int) error {
		w.where = fmt.Sprintf("afterwards %s %d", k, e.c)
		_, err := w.step(Op{K: k, C: e.c, N: n})
		return err
	}
	for _, e := range w.ents {
		if e != w.ent(e.c) {
			continue
		}
		ks := []string{"write", "share"}
		if e.cur.In {
			ks = append(ks, "unshare", "share")
		}
		if full {
			ks = append(ks, "unshare", "register")
		}
		for _, k := range ks {
			if err := do(k, e, max(1, len(e.want)/4)); err != nil {
				return err
			}
		}
		if full {
			for i := range e.cur.Held {
				if err := do("save", e, i); err != nil {
					return err
				}
			}
			if b, err := os.ReadFile(w.dlPath(e)); len(e.want) > 0 && string(b) != string(e.want) {
				return w.fail("complete-file", "content %d is downloaded but its file is different (%v)", e.c, err)
			}
		}
	}
	w.where = "at the end"
	return w.reopen("end", nil)
}
