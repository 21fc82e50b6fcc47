// Package catmodel runs histories of catalogue operations against the real catalogue and a model.
package catmodel

import (
	"crypto/sha1"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"flucheck/core"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// ShareChunk is the chunk size of shared files.
const ShareChunk = 1 << 22

// Content describes file contents.
type Content struct {
	Size int
	Seed uint64
}

// Bytes makes the contents: every byte depends on the seed and its place; big files are mostly zeros
// with marks around chunk boundaries.
func (c Content) Bytes() []byte {
	b := make([]byte, c.Size)
	if c.Size <= 1<<16 {
		Fill(b, c.Seed)
		return b
	}
	mark := func(at int) {
		lo, hi := max(0, at-40), min(len(b), at+40)
		if lo < hi {
			Fill(b[lo:hi], c.Seed+uint64(at))
		}
	}
	for at := 0; at <= c.Size; at += ShareChunk {
		mark(at)
	}
	mark(c.Size / 2)
	mark(c.Size)
	return b
}

// Fill writes a pseudo-random stream.
func Fill(b []byte, seed uint64) {
	x := seed*6364136223846793005 + 1442695040888963407
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
}

// Op is one step.
type Op struct {
	K string `json:"k"`
	F int    `json:"f,omitempty"` // user file slot
	C int    `json:"c,omitempty"` // content
	N int    `json:"n,omitempty"` // chunk, chunk size, variant
	X int    `json:"x,omitempty"` // secondary variant
	D int    `json:"d,omitempty"` // deviation
	H int    `json:"h,omitempty"` // register: the hash differs from the content's in this byte, from 1
}

// Case is a history.
type Case struct {
	Contents []Content
	Ops      []Op
	Links    bool // the folders are reached through symbolic links
	Raw      bool `json:",omitempty"` // the folders have names that are no text
	Still    bool `json:",omitempty"` // whatever the user changes looks as old as before
}

// slot names of user files, including ones that are hard on encoders
var slotNames = []string{"a.txt", "b b", "sub/c.mkv", "d\u00e9\u4e16", "e\xff\xfe", "l-f", "g%d\"\\n"}

// names a peer may announce
var goodNames = []string{"movie.mkv", "a b", ".hidden", "x..y", "..x", "r\u00e9sum\u00e9", "n\xffn", "movie.mkv", "q\"\\", strings.Repeat("n", 200), "index.json", "%s%n", "-rf", "~", "*"}
var badNames = []string{"", ".", "..", "../evil", "/etc/flu-evil", "a/b", "../../x", "a/", "/", "x/../../y", "nul\x00byte", "./z", "..//q"}

// more good ones
var oddNames = []string{" ..", ".. ", "\t.", " ", "..\n", "%2e%2e%2fx", "..\\x", "a\\..\\..\\b", " movie.mkv", "movie.mkv ", "movie.mkv.", "\u2024\u2024", "\u2215x"}

// NumNames is how many names Op.X can select; PlainNames how many of the first are plain.
var NumNames, PlainNames = len(goodNames) + len(badNames) + len(oddNames), len(goodNames)

type rec struct {
	path     string
	size     int
	hash     [20]byte
	cs       int
	held     []bool
	download bool
	want     []byte // bytes saved (downloads) or shared
	tainted  bool   // the file on disk was changed behind the catalogue's back
}

func (r *rec) full() bool {
	for _, h := range r.held {
		if !h {
			return false
		}
	}
	return true
}

func (r *rec) chunk(i int) []byte {
	return r.want[i*r.cs : min(r.size, (i+1)*r.cs)]
}

// World is the real catalogue and the model next to each other.
type World struct {
	root, catDir, dlDir, userDir string
	moves                        int
	cat                          *catalogue.Cat
	methods                      *cli.Methods
	recs                         map[[20]byte]*rec
	files                        map[string][]byte // user files as they must be
	locked                       map[string]bool   // those nobody may read
	pipes                        bool              // there may be named pipes
	never                        []string          // where links in the downloads folder lead, with nothing there
	o                            *core.Obs
	opts                         Options
	sawReopen, sawClean          bool
	where                        string
}

// Options tune the oracle.
type Options struct {
	ReopenEach bool // open a second catalogue after every step and compare
	Sparse     bool // compare deeply only at the end (large files)
}

func ceilDiv(a, b int) int { return (a + b - 1) / b }

func (w *World) fail(sig, f string, a ...any) error {
	return core.Fail(sig, "%s: %s", w.where, fmt.Sprintf(f, a...))
}

func (w *World) open() error {
	c, err := catalogue.NewCat(w.catDir, w.dlDir)
	if err == nil {
		err = c.Init()
	}
	if err != nil {
		return w.fail("open", "opening the catalogue: %v", err)
	}
	w.cat = c
	w.methods = cli.NewMethods(c, nil)
	return nil
}

func (w *World) slot(i int) string { return filepath.Join(w.userDir, slotNames[i%len(slotNames)]) }

func hashOf(b []byte) [20]byte { return sha1.Sum(b) }

func H(h [20]byte) *common.Sha1Hash { return &common.Sha1Hash{Data: h} }

// NewWorld makes the folders.
func NewWorld(root string, o *core.Obs, opts Options, links, raw bool) (*World, error) {
	w := &World{root: root, o: o, opts: opts, recs: map[[20]byte]*rec{}, files: map[string][]byte{}, locked: map[string]bool{}, where: "start"}
	if raw {
		w.o.Label("folders-that-are-no-text")
		root = filepath.Join(root, "r\xe9\xff")
	}
	w.catDir, w.dlDir, w.userDir = filepath.Join(root, "cat"), filepath.Join(root, "dl"), filepath.Join(root, "user")
	if err := os.MkdirAll(filepath.Join(w.userDir, "sub"), 0755); err != nil {
		return nil, core.Harness("%v", err)
	}
	if links {
		w.o.Label("linked-folders")
		os.Mkdir(filepath.Join(root, "real-dl"), 0755)
		for _, dir := range []*string{&w.userDir, &w.dlDir} {
			to := filepath.Base(*dir)
			if dir == &w.dlDir {
				to = "real-dl"
			}
			*dir += "-link"
			if err := os.Symlink(to, *dir); err != nil {
				return nil, core.Harness("%v", err)
			}
		}
	}
	return w, w.open()
}

// Run executes a history.
func Run(c Case, o *core.Obs, opts Options) error {
	root := core.Scratch()
	defer os.RemoveAll(root)
	DropOverride()
	w, err := NewWorld(root, o, opts, c.Links, c.Raw)
	if err != nil {
		return err
	}
	var contents [][]byte
	for _, x := range c.Contents {
		contents = append(contents, x.Bytes())
	}
	for _, op := range c.Ops {
		w.pipes = w.pipes || op.K == "pipe" || op.K == "spoil" && op.D%5 == 4
	}
	for i, op := range c.Ops {
		w.where = fmt.Sprintf("step %d %+v", i, op)
		err := w.guard(func() error {
			if err := w.step(op, contents); err != nil {
				return err
			}
			if c.Still {
				w.age(op.K)
			}
			return w.check(w.cat, i == len(c.Ops)-1 || !opts.Sparse)
		})
		if err != nil {
			return err
		}
		if opts.ReopenEach {
			c2, err := catalogue.NewCat(w.catDir, w.dlDir)
			if err == nil {
				err = c2.Init()
			}
			if err != nil {
				return w.fail("reopen", "the catalogue cannot be opened: %v", err)
			}
			w.where += " (reopened beside)"
			if err := w.check(c2, false); err != nil {
				return err
			}
		}
	}
	return nil
}

var longAgo = time.Unix(1500000000, 123456789)

// age hides from the dates of files that they were changed.
func (w *World) age(kind string) {
	switch kind {
	case "write", "flip", "append", "chop", "symlink", "shareown":
		for p := range w.files {
			if st, err := os.Lstat(p); err == nil && st.Mode().IsRegular() {
				os.Chtimes(p, longAgo, longAgo)
			}
		}
	case "spoil", "longer", "save", "bulk":
		for _, r := range w.recs {
			if st, err := os.Lstat(r.path); err == nil && st.Mode().IsRegular() {
				os.Chtimes(r.path, longAgo, longAgo)
			}
		}
	default:
		return
	}
	w.o.Label("dates-kept")
}

// guard runs a step. A client that waits for the writer of a pipe is found out and helped along.
func (w *World) guard(f func() error) error {
	if !w.pipes {
		return f()
	}
	done := make(chan error, 1)
	go func() {
		defer func() {
			switch v := recover().(type) {
			case nil:
			case *core.HarnessError:
				done <- v
			case *core.Violation:
				done <- v
			default:
				stack := string(debug.Stack())
				done <- core.Fail("panic"+core.PanicSite(stack), "%v\n%s", v, stack)
			}
		}()
		done <- f()
	}()
	start := time.Now()
	stuck := ""
	for {
		select {
		case err := <-done:
			if stuck != "" {
				return w.fail("waits-for-pipe", "it waits for somebody to write to the named pipe %q", stuck)
			}
			return err
		case <-time.After(5 * time.Millisecond):
		}
		if time.Since(start) < 2*time.Second {
			continue
		}
		filepath.WalkDir(w.root, func(p string, e fs.DirEntry, err error) error {
			if err == nil && e.Type() == fs.ModeNamedPipe {
				// this succeeds if somebody reads, and closing it ends their waiting
				if fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
					syscall.Close(fd)
					stuck = p
				}
			}
			return nil
		})
	}
}

// regular reads a file, if it is one.
func regular(p string) ([]byte, error) {
	if st, err := os.Stat(p); err != nil {
		return nil, err
	} else if !st.Mode().IsRegular() {
		return nil, fmt.Errorf("%s is %v", p, st.Mode())
	}
	return os.ReadFile(p)
}

func (w *World) unlock(p string) {
	if w.locked[p] {
		os.Chmod(p, 0644)
		delete(w.locked, p)
	}
}

func (w *World) taint(path string) {
	for _, r := range w.recs {
		if r.path == path {
			r.tainted = true
		}
	}
}

func (w *World) any(i int) *rec { // a record, chosen by number
	if len(w.recs) == 0 {
		return nil
	}
	var k []string
	for h := range w.recs {
		k = append(k, string(h[:]))
	}
	sort.Strings(k)
	var h [20]byte
	copy(h[:], k[i%len(k)])
	return w.recs[h]
}

func (w *World) step(op Op, contents [][]byte) error {
	data := contents[op.C%len(contents)]
	p := w.slot(op.F)
	clear := func() { os.RemoveAll(p); delete(w.files, p); delete(w.locked, p); w.taint(p) }
	switch op.K {
	case "flip", "append", "chop":
		w.unlock(p)
	}
	switch op.K {
	case "lock": // take away the permission to read
		if st, err := os.Lstat(p); err == nil && st.Mode().IsRegular() && w.files[p] != nil {
			os.Chmod(p, 0)
			w.locked[p] = true
			w.taint(p)
			if _, err := os.ReadFile(p); err != nil {
				w.o.Label("locked")
			}
		}
	case "unlock":
		w.unlock(p)
	case "write":
		clear()
		if err := os.WriteFile(p, data, 0644); err != nil {
			return core.Harness("%v", err)
		}
		w.files[p] = data
	case "rm":
		clear()
	case "mkdir":
		clear()
		os.Mkdir(p, 0755)
	case "pipe":
		clear()
		if syscall.Mkfifo(p, 0644) == nil {
			w.o.Label("pipe")
		}
	case "link": // the user put a link into the downloads folder
		at := filepath.Join(w.dlDir, goodNames[op.X%len(goodNames)])
		os.MkdirAll(w.dlDir, 0755)
		if _, err := os.Lstat(at); err == nil {
			return nil
		}
		indexed := false
		for _, r := range w.recs {
			if r.path == at {
				return nil
			}
			indexed = indexed || r.path == p && !r.tainted
		}
		switch op.D % 3 {
		case 0:
			os.Symlink(p, at)
		case 1:
			w.never = append(w.never, filepath.Join(w.root, fmt.Sprint("never-", len(w.never))))
			os.Symlink(w.never[len(w.never)-1], at)
		case 2:
			if st, err := os.Lstat(p); err != nil || !st.Mode().IsRegular() || !indexed || w.files[p] == nil {
				return nil
			}
			os.Link(p, at)
		}
		w.o.Label("link-in-downloads")
	case "flip":
		if b, ok := w.files[p]; ok && len(b) > 0 {
			b = append([]byte(nil), b...)
			b[op.N%len(b)] ^= byte(1 + op.D&0x7f)
			os.WriteFile(p, b, 0644)
			w.files[p] = b
			w.taint(p)
		}
	case "append":
		if b, ok := w.files[p]; ok {
			b = append(append([]byte(nil), b...), byte(op.N))
			os.WriteFile(p, b, 0644)
			w.files[p] = b
			w.taint(p)
		}
	case "chop":
		if b, ok := w.files[p]; ok && len(b) > 0 {
			b = b[:op.N%len(b)]
			os.WriteFile(p, b, 0644)
			w.files[p] = b
			w.taint(p)
		}
	case "symlink":
		clear()
		os.Symlink(w.slot(op.N), p)
	case "share":
		path := p
		switch op.N % 5 {
		case 1:
			path = filepath.Dir(p) + "/./" + filepath.Base(p)
		case 2:
			path = w.userDir + "//sub/../" + slotNames[op.F%len(slotNames)]
		case 3:
			cwd, _ := os.Getwd()
			if rel, err := filepath.Rel(cwd, p); err == nil {
				path = rel
			}
		}
		return w.share(path, p)
	case "shareown":
		// what lies in the downloads folder is shared like any other file
		os.MkdirAll(w.dlDir, 0755)
		if r := w.any(op.F); r != nil && r.full() && !r.tainted && r.download && op.N%2 == 0 {
			if op.N%4 == 0 {
				if err := w.cat.UnshareFile(H(r.hash)); err != nil {
					return w.fail("unshare", "%v", err)
				}
				delete(w.recs, r.hash)
			}
			w.o.Label("shared-download-again")
			return w.share(r.path, r.path)
		}
		own := filepath.Join(w.dlDir, fmt.Sprint("own-", op.F%3))
		if w.files[own] == nil {
			if err := os.WriteFile(own, data, 0644); err != nil {
				return core.Harness("%v", err)
			}
			w.files[own] = data
		}
		w.o.Label("share-from-downloads")
		return w.share(own, own)
	case "sharebad":
		switch op.N % 5 {
		case 0:
			return w.share(filepath.Join(w.userDir, "missing"), "")
		case 1:
			return w.share(w.userDir, "")
		case 2:
			return w.share("", "")
		case 3:
			f := filepath.Join(w.root, "fifo")
			if syscall.Mkfifo(f, 0644) != nil {
				return nil
			}
			// a reader of a pipe blocks until there is a writer: offer one, so that a client that
			// reads it ends with an answer instead of hanging the check
			fd, err := syscall.Open(f, syscall.O_RDWR|syscall.O_NONBLOCK, 0)
			if err != nil {
				os.Remove(f)
				return nil
			}
			syscall.Write(fd, []byte("pipe"))
			done := make(chan error, 1)
			go func() { done <- w.share(f, "") }()
			// closing the writer gives the reader an end of file
			for i := 0; i < 200; i++ {
				select {
				case err := <-done:
					syscall.Close(fd)
					os.Remove(f)
					return err
				default:
					syscall.Nanosleep(&syscall.Timespec{Nsec: 1e6}, nil)
				}
			}
			syscall.Close(fd)
			err = <-done
			os.Remove(f)
			if err == nil {
				err = w.fail("share-pipe-read", "sharing a pipe waited for its writer")
			}
			return err
		default:
			return w.share("/dev/null", "")
		}
	case "unshare":
		r := w.any(op.N)
		if r == nil || op.D%8 == 7 {
			if err := w.cat.UnshareFile(H(hashOf([]byte(fmt.Sprint("unknown", op.N))))); err == nil {
				return w.fail("unshare-unknown", "unsharing an unknown file succeeded")
			}
			return nil
		}
		if err := w.cat.UnshareFile(H(r.hash)); err != nil {
			return w.fail("unshare", "%v", err)
		}
		delete(w.recs, r.hash)
		w.o.Label("unshared")
	case "register":
		return w.register(op, data)
	case "save":
		return w.save(op)
	case "bulk":
		// many chunks, with gaps
		r := w.any(op.F)
		if r == nil || !r.download || len(r.held) < 2 || len(r.held) > 400 {
			return nil
		}
		at := 0
		for k := range w.recs {
			if string(k[:]) < string(r.hash[:]) {
				at++
			}
		}
		for i := op.N % 3; i < len(r.held); i += 1 + op.X%4 {
			if err := w.save(Op{F: at, N: i, C: op.C}); err != nil {
				return err
			}
		}
	case "longer":
		// something else is at the path of a download
		r := w.any(op.N)
		if r == nil || !r.download {
			return nil
		}
		for _, h := range r.held {
			if h {
				return nil
			}
		}
		if st, err := os.Lstat(r.path); err == nil && !st.Mode().IsRegular() {
			return nil
		}
		os.MkdirAll(w.dlDir, 0755)
		if err := os.WriteFile(r.path, make([]byte, r.size+op.D%700), 0644); err != nil {
			return nil
		}
		w.o.Label("longer-file-in-place")
	case "spoil":
		r := w.any(op.N)
		if r == nil || !r.download {
			return nil
		}
		r.tainted = true
		switch op.D % 5 {
		case 4:
			os.RemoveAll(r.path)
			os.MkdirAll(w.dlDir, 0755)
			if syscall.Mkfifo(r.path, 0644) == nil {
				w.o.Label("pipe")
			}
		case 3:
			os.Chmod(r.path, 0)
		case 0:
			os.RemoveAll(r.path)
		case 1:
			if b, err := regular(r.path); err == nil && len(b) > 0 {
				b[op.C%len(b)] ^= 0x55
				os.WriteFile(r.path, b, 0644)
			}
		case 2:
			os.RemoveAll(r.path)
			os.Mkdir(r.path, 0755)
		}
	case "clean":
		return w.clean()
	case "reopen":
		w.o.LabelIf(len(w.recs) > 0, "reopen-populated")
		w.sawReopen = true
		return w.open()
	case "move":
		w.moves++
		to := filepath.Join(w.root, fmt.Sprintf("cat-moved-%d", w.moves))
		if err := os.Rename(w.catDir, to); err != nil {
			return core.Harness("%v", err)
		}
		w.catDir = to
		w.o.LabelIf(len(w.recs) > 0, "moved-populated")
		w.sawReopen = true
		return w.open()
	default:
		panic(core.Harness("unknown op %q", op.K))
	}
	return nil
}

func (w *World) share(arg, p string) error {
	var data []byte
	readable := false
	if p != "" {
		if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
			if b, err := os.ReadFile(p); err == nil {
				data, readable = b, true
			}
		}
	}
	h := hashOf(data)
	var item cli.ListItem
	err := w.methods.Share(&cli.ShareRequest{Filepath: arg}, &item)
	if !readable {
		if err == nil {
			return w.fail("share-unreadable", "sharing %q, which is no readable file, succeeded", arg)
		}
		w.o.Label("share-refused-unreadable")
		return nil
	}
	if old := w.recs[h]; old != nil {
		if err == nil {
			return w.fail("share-duplicate", "sharing content indexed as %q again succeeded", old.path)
		}
		if !strings.Contains(err.Error(), old.path) {
			return w.fail("share-duplicate-error", "the error does not name %q: %v", old.path, err)
		}
		w.o.Label("share-refused-duplicate")
		return nil
	}
	if err != nil {
		return w.fail("share", "sharing %q: %v", arg, err)
	}
	r := &rec{path: p, size: len(data), hash: h, cs: ShareChunk, held: make([]bool, ceilDiv(len(data), ShareChunk)), want: data}
	for i := range r.held {
		r.held[i] = true
	}
	w.recs[h] = r
	n := len(r.held)
	if want := (cli.ListItem{FilePath: p, SizeInBytes: int64(len(data)), Sha1Hash: h, ChunkCount: n, ChunkSizeInBytes: ShareChunk, ChunksDownloaded: n}); item != want {
		return w.fail("share-answer", "share answered %+v, want %+v", item, want)
	}
	w.o.Label("shared")
	return nil
}

// nameOf returns the announced name number x and whether it must be accepted.
func nameOf(x int) (string, bool) {
	x %= NumNames
	if x < len(goodNames) {
		return goodNames[x], true
	}
	if x -= len(goodNames); x < len(badNames) {
		return badNames[x], false
	}
	return oddNames[x-len(badNames)], true
}

func (w *World) register(op Op, data []byte) error {
	cs := op.N
	size, h := uint64(len(data)), hashOf(data)
	if op.H > 0 { // almost that of another file
		h[(op.H-1)%20] ^= 1 << (op.H % 8)
		w.o.Label("similar-hash")
	}
	name, ok := nameOf(op.X)
	count := uint32(0)
	if cs > 0 {
		count = uint32(ceilDiv(len(data), cs))
	}
	csArg := uint32(cs)
	unsure := len(data) == 0 // an empty download may be refused or be complete at once
	switch op.D {            // announcements that make no sense
	case 1:
		count++
		ok = false
	case 2:
		count += 1 << 16
		ok = false
	case 3:
		size = 1<<64 - 1
		ok = false
	case 4:
		size = 1 << 63
		ok = false
	case 5:
		csArg = 0
		ok = false
	case 6:
		csArg = 1<<32 - 1
		count = 1
		ok = false
	case 7: // more chunks than the protocol can name
		csArg = uint32(cs)
		size = uint64(cs)*65536 + uint64(op.F%cs) + 1
		count = 65537
		ok = false
	case 8:
		if count == 0 {
			return nil
		}
		count--
		ok = false
	case 9: // the largest that makes sense
		size = uint64(cs) * 65536
		count = 65536
		if size == 0 {
			return nil
		}
		data = nil
	case 10: // the count agrees modulo 2^32 only
		csArg = 1
		size = 1<<32 + uint64(len(data))
		count = uint32(len(data))
		ok = false
	}
	if op.D == 9 && cs > 64 {
		return nil
	}
	if st, err := os.Lstat(filepath.Join(w.dlDir, name)); ok && err == nil && !st.Mode().IsRegular() {
		unsure = true // something of the user's is in the way
		w.o.Label("register-something-there")
	}
	exp, err := w.cat.RegisterDownload(size, count, csArg, H(h), name)
	if old := w.recs[h]; old != nil {
		if err == nil {
			return w.fail("register-duplicate", "registering indexed content again succeeded")
		}
		return nil
	}
	if !ok {
		if err == nil {
			return w.fail("register-nonsense", "size=%d count=%d chunk size=%d name=%q was accepted", size, count, csArg, name)
		}
		w.o.Label("register-refused")
		return nil
	}
	conflict := false
	at, statErr := os.Stat(filepath.Join(w.dlDir, name))
	for _, r := range w.recs {
		conflict = conflict || r.path == filepath.Join(w.dlDir, name)
		if st, err := os.Stat(r.path); err == nil && statErr == nil && os.SameFile(st, at) {
			conflict = true // a link to it
		}
	}
	if err != nil {
		if unsure || conflict {
			return nil
		}
		return w.fail("register", "size=%d count=%d chunk size=%d name=%q refused: %v", size, count, csArg, name, err)
	}
	if exp == nil {
		return w.fail("register-nil", "no record and no error")
	}
	if filepath.Dir(exp.FilePath) != w.dlDir || filepath.Clean(exp.FilePath) != exp.FilePath {
		return w.fail("register-path", "name %q goes to %q, outside %q", name, exp.FilePath, w.dlDir)
	}
	at, statErr = os.Stat(exp.FilePath)
	for _, r := range w.recs {
		if st, err := os.Stat(r.path); err == nil && statErr == nil && os.SameFile(st, at) && r.path != exp.FilePath {
			return w.fail("register-over-linked", "name %q goes to %q, which is another name of the indexed file %q", name, exp.FilePath, r.path)
		}
		if r.path == exp.FilePath {
			return w.fail("register-over-other", "name %q goes to %q, which is the file of another indexed file", name, exp.FilePath)
		}
	}
	if !conflict && exp.FilePath != filepath.Join(w.dlDir, name) {
		return w.fail("register-path", "name %q goes to %q", name, exp.FilePath)
	}
	for p := range w.files { // what the user linked there and no longer shares is theirs to lose
		if st, err := os.Lstat(p); err == nil && statErr == nil && st.Mode().IsRegular() && os.SameFile(st, at) {
			if lst, err := os.Lstat(exp.FilePath); err == nil && lst.Mode().IsRegular() {
				delete(w.files, p)
				w.taint(p)
			}
		}
	}
	if st, err := os.Lstat(exp.FilePath); err == nil && st.IsDir() {
		os.RemoveAll(exp.FilePath) // left by an earlier step of ours
	}
	r := &rec{path: exp.FilePath, size: int(size), hash: h, cs: int(csArg), held: make([]bool, count), download: true, want: make([]byte, size)}
	w.recs[h] = r
	w.o.Label("registered")
	w.o.LabelIf(conflict, "name-conflict-resolved")
	if err := w.same(exp, r); err != nil {
		return err
	}
	return nil
}

func (w *World) save(op Op) error {
	r := w.any(op.F)
	if op.D == 9 || r == nil {
		if err := w.cat.SaveChunk(H(hashOf([]byte("nobody"))), uint16(op.N), []byte("x")); err == nil {
			return w.fail("save-unknown", "saving a chunk of an unknown file succeeded")
		}
		return nil
	}
	if !r.download || len(r.held) == 0 {
		return nil
	}
	i := op.N % len(r.held)
	lo, hi := i*r.cs, min(r.size, (i+1)*r.cs)
	data := make([]byte, hi-lo)
	Fill(data, uint64(op.C)*1000+uint64(i)) // any bytes: the catalogue does not judge them
	bad := false
	switch op.D {
	case 1:
		data, bad = append(data, 7), true
	case 2:
		data, bad = data[:len(data)-1], true
	case 3:
		data, bad = nil, true
	case 4:
		if len(r.held) < 65536 {
			i, bad = len(r.held)+op.X%3, true
			if i > 65535 {
				i = 65535
			}
		}
	case 5:
		if len(r.held) < 65535 {
			i, bad = 65535, true
		}
	case 6: // a full chunk where the last is short
		if i == len(r.held)-1 && hi-lo < r.cs {
			data, bad = make([]byte, r.cs), true
		}
	}
	before := readAll(r.path)
	keep := append([]byte(nil), data...)
	others := w.others(r.path)
	blocked := false
	if st, e := os.Lstat(r.path); e == nil && (!st.Mode().IsRegular() || st.Mode().Perm() == 0) {
		blocked = true // we put a folder in its place, or locked it
	}
	err := w.cat.SaveChunk(H(r.hash), uint16(i), data)
	if now := w.others(r.path); now != others {
		return w.fail("save-elsewhere", "saving chunk %d of %q changed other files in the downloads folder:\n%s\nwas\n%s", i, r.path, now, others)
	}
	if string(keep) != string(data) {
		return w.fail("save-altered-argument", "SaveChunk changed the data it was given")
	}
	if bad {
		if err == nil {
			return w.fail("save-misfit", "saving %d bytes as chunk %d of %d (%d bytes in %d-byte chunks) succeeded", len(data), i, len(r.held), r.size, r.cs)
		}
		if now := readAll(r.path); string(now) != string(before) {
			return w.fail("save-misfit-wrote", "a refused save changed the file")
		}
		w.o.Label("save-refused")
		return nil
	}
	if blocked {
		if err == nil {
			return w.fail("save-blocked", "saving chunk %d of %q succeeded although nothing can be written there", i, r.path)
		}
		w.o.Label("save-blocked")
		return nil
	}
	if err != nil {
		return w.fail("save", "%v", err)
	}
	w.o.LabelIf(r.held[i], "saved-again")
	w.o.LabelIf(i > 0 && !r.held[i-1], "saved-out-of-order")
	r.held[i] = true
	copy(r.want[lo:hi], data)
	w.o.Label("saved")
	return nil
}

// others describes what is in the downloads folder besides one file.
func (w *World) others(path string) string {
	es, _ := os.ReadDir(w.dlDir)
	it, itErr := os.Stat(path)
	var b strings.Builder
	for _, e := range es {
		if e.Name() == filepath.Base(path) {
			continue
		}
		if st, err := os.Stat(filepath.Join(w.dlDir, e.Name())); err == nil && itErr == nil && os.SameFile(st, it) {
			continue // another name of the same file
		}
		fmt.Fprintf(&b, "%q %v", e.Name(), e.Type())
		if i, err := e.Info(); err == nil && e.Type().IsRegular() {
			fmt.Fprintf(&b, " %d %d", i.Size(), i.ModTime().UnixNano())
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func readAll(p string) []byte {
	b, err := regular(p)
	if err != nil {
		return []byte("<" + err.Error() + ">")
	}
	return b
}

func (w *World) clean() error {
	w.sawClean = true
	type verdict struct {
		now  [20]byte
		gone bool
		word string
	}
	want := map[[20]byte]verdict{}
	for h, r := range w.recs {
		v := verdict{}
		b, err := regular(r.path)
		switch {
		case err != nil:
			v = verdict{gone: true, word: "missing"}
			for i := range v.now {
				v.now[i] = 0xff
			}
		case !r.full():
			v = verdict{now: hashOf(b), word: "progress"}
		case hashOf(b) != h:
			v = verdict{now: hashOf(b), gone: true, word: "changed"}
		default:
			v = verdict{now: h, word: "match"}
		}
		want[h] = v
	}
	var res cli.CleanResponse
	if err := w.methods.Clean(&cli.CleanRequest{}, &res); err != nil {
		return w.fail("clean", "%v", err)
	}
	if len(res.Items) != len(want) {
		return w.fail("clean-report", "%d entries for %d indexed files", len(res.Items), len(want))
	}
	for _, it := range res.Items {
		v, ok := want[it.IndexedSha1Hash]
		if !ok {
			return w.fail("clean-report", "entry for %x, which is not indexed (or twice)", it.IndexedSha1Hash)
		}
		r := w.recs[it.IndexedSha1Hash]
		if it.FilePath != r.path {
			return w.fail("clean-report", "path %q, want %q", it.FilePath, r.path)
		}
		if it.CurrentSha1Hash != v.now {
			return w.fail("clean-report", "current hash of %q is %x, want %x", r.path, it.CurrentSha1Hash, v.now)
		}
		text := strings.ToLower(strings.TrimPrefix(it.ActionTaken, r.path))
		if !strings.Contains(text, v.word) || strings.Contains(text, "removed") != v.gone {
			return w.fail("clean-verdict", "%q (%s, gone=%v) reported as %q", r.path, v.word, v.gone, it.ActionTaken)
		}
		if !strings.Contains(res.Sprintf(), it.ActionTaken) {
			return w.fail("clean-report", "the printed report lacks %q", it.ActionTaken)
		}
		if v.gone {
			delete(w.recs, it.IndexedSha1Hash)
		}
		delete(want, it.IndexedSha1Hash)
		w.o.Label("clean-" + v.word)
	}
	return nil
}

// same compares an exported record with the model.
func (w *World) same(e *catalogue.IndexRecordExport, r *rec) error {
	if e.FilePath != r.path || e.SizeInBytes != int64(r.size) || e.Sha1Hash.Data != r.hash || e.ChunkSize != r.cs {
		return w.fail("record", "record {%q %d %x %d}, want {%q %d %x %d}", e.FilePath, e.SizeInBytes, e.Sha1Hash.Data, e.ChunkSize, r.path, r.size, r.hash, r.cs)
	}
	if e.Progress.Size() != len(r.held) {
		return w.fail("record-chunks", "%q has %d chunks, want %d", r.path, e.Progress.Size(), len(r.held))
	}
	n := 0
	for i, h := range r.held {
		if h {
			n++
		}
		if e.Progress.Get(uint64(i)) != h {
			return w.fail("held", "%q chunk %d held=%v, want %v", r.path, i, e.Progress.Get(uint64(i)), h)
		}
	}
	if e.Progress.Count() != n {
		return w.fail("held-count", "%q holds %d chunks, want %d", r.path, e.Progress.Count(), n)
	}
	return nil
}

// check compares everything observable with the model.
func (w *World) check(c *catalogue.Cat, deep bool) error {
	list, err := c.ListFiles()
	if err != nil {
		return w.fail("list", "%v", err)
	}
	if len(list) != len(w.recs) {
		return w.fail("list-length", "%d files listed, want %d", len(list), len(w.recs))
	}
	seen := map[[20]byte]bool{}
	for i := range list {
		r := w.recs[list[i].Sha1Hash.Data]
		if r == nil || seen[r.hash] {
			return w.fail("list-stranger", "%q (%x) is listed", list[i].FilePath, list[i].Sha1Hash.Data)
		}
		seen[r.hash] = true
		if err := w.same(&list[i], r); err != nil {
			return err
		}
		// what is returned is ours to change
		list[i].Progress.Fill()
		list[i].Progress.Unset(0)
		list[i].FilePath = "scribble"
	}
	for _, r := range w.recs {
		e, err := c.Contains(H(r.hash))
		if err != nil {
			return w.fail("contains", "%q: %v", r.path, err)
		}
		if err := w.same(e, r); err != nil {
			return err
		}
		var miss []int
		for _, m := range c.MissingChunks(H(r.hash), 1) {
			for i := int(m.Start); i <= int(m.End); i++ {
				miss = append(miss, i)
			}
		}
		k := 0
		for i, h := range r.held {
			if h {
				continue
			}
			if k >= len(miss) || miss[k] != i {
				return w.fail("missing", "%q: missing chunks reported %v, chunk %d is missing", r.path, clip(miss), i)
			}
			k++
		}
		if k != len(miss) {
			return w.fail("missing", "%q: missing chunks reported %v, only %d are", r.path, clip(miss), k)
		}
		if c.FileComplete(H(r.hash)) != r.full() {
			return w.fail("complete", "%q complete=%v", r.path, !r.full())
		}
		if !deep {
			continue
		}
		if err := w.bytes(c, r); err != nil {
			return err
		}
	}
	no := H(hashOf([]byte("not in any catalogue")))
	if e, err := c.Contains(no); err == nil {
		return w.fail("contains-unknown", "an unknown file is found: %+v", e)
	}
	if _, err := c.GetChunkReader(no, 0); err == nil {
		return w.fail("chunk-unknown", "a chunk of an unknown file can be read")
	}
	for _, p := range w.never {
		if _, err := os.Lstat(p); err == nil {
			return w.fail("outside", "something was made outside the downloads folder, where a link in it leads")
		}
	}
	for p, b := range w.files {
		if w.locked[p] {
			os.Chmod(p, 0600)
		}
		now := readAll(p)
		if w.locked[p] {
			os.Chmod(p, 0)
		}
		if string(now) != string(b) {
			return w.fail("user-file-changed", "%q was changed or deleted", p)
		}
	}
	return nil
}

func clip(v []int) []int {
	if len(v) > 30 {
		return v[:30]
	}
	return v
}

// bytes checks that held chunks read back and others are refused.
func (w *World) bytes(c *catalogue.Cat, r *rec) error {
	n := len(r.held)
	for _, i := range []int64{-1, int64(n), int64(n) + 63, 1 << 40, -1 << 63} {
		if cr, err := c.GetChunkReader(H(r.hash), i); err == nil {
			closeReader(cr)
			return w.fail("chunk-out-of-range", "chunk %d of %d can be read", i, n)
		}
	}
	if n > 3000 {
		return nil
	}
	tainted := r.tainted
	if !r.download { // the user may have changed the file, or what the path leads to
		tainted = string(readAll(r.path)) != string(r.want)
	}
	for i, h := range r.held {
		if n > 60 && i > 20 && i < n-20 && i%17 != 0 {
			continue
		}
		cr, err := c.GetChunkReader(H(r.hash), int64(i))
		if !h {
			if err == nil {
				closeReader(cr)
				return w.fail("chunk-not-held", "chunk %d of %q is not held but can be read", i, r.path)
			}
			continue
		}
		if tainted { // all the bytes that are there now, or nothing
			if err != nil {
				continue
			}
			got, err := io.ReadAll(&cr.Reader)
			closeReader(cr)
			if want := r.chunk(i); err != nil || len(got) != len(want) || cr.Size != int64(len(want)) || cr.Hash.Data != hashOf(got) {
				return w.fail("altered-chunk", "chunk %d of %q, which was altered, reads as %d bytes (%v), announced as %d with hash %x, want %d", i, r.path, len(got), err, cr.Size, cr.Hash.Data, len(want))
			}
			w.o.Label("altered-chunk-read")
			continue
		}
		if err != nil {
			return w.fail("chunk-read", "chunk %d of %q: %v", i, r.path, err)
		}
		want := r.chunk(i)
		if cr.Size != int64(len(want)) || cr.Hash.Data != hashOf(want) {
			return w.fail("chunk-bytes", "chunk %d of %q: %d bytes with hash %x, want %d with %x", i, r.path, cr.Size, cr.Hash.Data, len(want), hashOf(want))
		}
		got, err := io.ReadAll(&cr.Reader)
		closeReader(cr)
		if err != nil || string(got) != string(want) {
			return w.fail("chunk-bytes", "chunk %d of %q reads as %d other bytes (%v)", i, r.path, len(got), err)
		}
	}
	if r.download && r.full() && n > 0 && !r.tainted {
		if b := readAll(r.path); string(b) != string(r.want) {
			return w.fail("complete-file", "%q is complete with %d bytes, want the %d bytes saved", r.path, len(b), len(r.want))
		}
		w.o.Label("completed")
	}
	if r.download {
		if st, err := os.Lstat(r.path); err == nil && !r.tainted && !st.Mode().IsRegular() {
			return w.fail("not-regular", "%q is %v", r.path, st.Mode())
		}
	}
	return nil
}

func closeReader(cr *common.ChunkReader) {
	if cr != nil && cr.Closer != nil {
		cr.Closer.Close()
	}
}

// Gen draws a history; weights say how often each kind of step occurs.
func Gen(t *rapid.T, weights map[string]int, maxOps int, bigSizes bool) Case {
	var c Case
	c.Links = rapid.IntRange(0, 4).Draw(t, "links") == 4
	c.Raw = rapid.IntRange(0, 6).Draw(t, "raw") == 6
	c.Still = rapid.IntRange(0, 2).Draw(t, "still") == 2
	nc := rapid.IntRange(2, 5).Draw(t, "contents")
	for i := 0; i < nc; i++ {
		var size int
		switch rapid.IntRange(0, 5).Draw(t, "sizek") {
		case 0:
			size = rapid.IntRange(0, 2).Draw(t, "size")
		case 1:
			size = rapid.IntRange(60, 68).Draw(t, "size") * rapid.IntRange(1, 3).Draw(t, "mul")
		case 2, 3:
			size = rapid.IntRange(3, 400).Draw(t, "size")
		default:
			size = rapid.IntRange(100, 6000).Draw(t, "size")
		}
		if bigSizes && rapid.IntRange(0, 1).Draw(t, "big") == 0 {
			size = max(0, rapid.IntRange(0, 3).Draw(t, "mib4")*ShareChunk+rapid.SampledFrom([]int{-1, 0, 1, 2, 4097, 100000}).Draw(t, "delta"))
		}
		c.Contents = append(c.Contents, Content{Size: size, Seed: uint64(i)*77 + uint64(rapid.IntRange(0, 1000).Draw(t, "seed"))})
	}
	var kinds []string
	for k := range weights {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	var bag []string
	for _, k := range kinds {
		for i := 0; i < weights[k]; i++ {
			bag = append(bag, k)
		}
	}
	n := rapid.IntRange(2, maxOps).Draw(t, "n")
	var written []int
	for i := 0; i < n; i++ {
		op := Op{K: rapid.SampledFrom(bag).Draw(t, "k")}
		small := func(nm string, n int) int { return rapid.IntRange(0, n).Draw(t, nm) }
		switch op.K {
		case "write":
			op.F, op.C = small("f", 6), small("c", nc-1)
			written = append(written, op.F)
		case "link":
			op.F, op.X, op.D = small("f", 6), small("linkname", 2), small("linkkind", 2)
			if len(written) > 0 && small("aim", 3) > 0 {
				op.F = rapid.SampledFrom(written).Draw(t, "wf")
			}
		case "rm", "mkdir", "lock", "unlock", "pipe":
			op.F = small("f", 6)
			if len(written) > 0 && small("aim", 3) > 0 {
				op.F = rapid.SampledFrom(written).Draw(t, "wf")
			}
		case "flip", "append", "chop", "symlink":
			op.F, op.N, op.D = small("f", 6), small("n", 6000), small("d", 127)
			if op.K == "symlink" {
				op.N = small("target", 6)
			}
		case "share":
			op.F, op.N = small("f", 6), small("pathform", 4)
			if len(written) == 0 { // there is nothing to share yet
				c.Ops = append(c.Ops, Op{K: "write", F: op.F, C: small("c", nc-1)})
				written = append(written, op.F)
			} else if small("aim", 4) > 0 {
				op.F = rapid.SampledFrom(written).Draw(t, "wf")
			}
		case "sharebad":
			op.N = small("n", 4)
		case "shareown":
			op.F, op.C, op.N = small("f", 5), small("c", nc-1), small("again", 3)
		case "unshare":
			op.N, op.D = small("n", 5), small("d", 7)
		case "register":
			op.C = small("c", nc-1)
			op.N = rapid.SampledFrom([]int{1, 2, 3, 7, 16, 64, 100, 512, 1000, 1023, 4096, 1 << 22, 1<<22 + 1, 1 << 23, 1 << 26}).Draw(t, "cs")
			op.F = small("f", 50)
			if c.Contents[op.C].Size/op.N > 300 {
				op.N = max(op.N, c.Contents[op.C].Size/rapid.IntRange(1, 200).Draw(t, "parts"))
			}
			op.X = rapid.IntRange(0, len(goodNames)-1).Draw(t, "name")
			if weights["similar"] > 0 && small("similar", 4) == 0 {
				op.H = 1 + small("hashbyte", 19)
			}
			if weights["link"] > 0 && small("aimlink", 1) == 0 {
				op.X = small("linkname", 2)
			}
			if small("twist", 9) < weights["nonsense"] {
				if small("which", 1) == 0 {
					op.D = rapid.IntRange(1, 10).Draw(t, "nonsense")
				} else {
					op.X = rapid.IntRange(len(goodNames), NumNames-1).Draw(t, "badname") // odd or bad
				}
			}
		case "save":
			op.F, op.N, op.C = small("f", 5), small("n", 220), small("c", 9)
			op.D = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 9}).Draw(t, "d")
		case "bulk":
			op.F, op.N, op.C, op.X = small("f", 5), small("from", 2), small("c", 9), small("step", 3)
		case "longer":
			op.N, op.D = small("n", 5), small("d", 699)
		case "spoil":
			op.N, op.D, op.C = small("n", 5), small("d", 4), small("c", 6000)
		case "nonsense", "similar":
			op.K = "reopen"
		}
		c.Ops = append(c.Ops, op)
		if op.K == "register" && op.D == 0 && rapid.IntRange(0, 3).Draw(t, "burst") == 0 {
			// a run of saves, often completing the file
			parts := ceilDiv(c.Contents[op.C].Size, max(1, op.N))
			k := min(parts, 12)
			for j := 0; j < k; j++ {
				c.Ops = append(c.Ops, Op{K: "save", F: small("bf", 5), N: (j*7 + parts) % max(1, parts), C: j})
			}
		}
	}
	return c
}

// Interesting says whether a history had reopen and clean steps.
func (w *World) Interesting() (bool, bool) { return w.sawReopen, w.sawClean }

// Tree describes everything in a folder.
func Tree(dir string) string {
	var b strings.Builder
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		fmt.Fprintf(&b, "%s %v", strings.TrimPrefix(p, dir), e.Type())
		if e.Type().IsRegular() {
			raw, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %d %x", len(raw), sha1.Sum(raw))
		}
		b.WriteByte('\n')
		return nil
	})
	return b.String()
}
