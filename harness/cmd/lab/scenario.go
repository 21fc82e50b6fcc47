package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/wire"

	"pgregory.net/rapid"
)

type file struct {
	Size int
	Seed uint64
	Name string
}

// step is one thing that happens.
type step struct {
	Op   string
	Host int
	To   int // another host
	File int
	How  int
	Args [][]string `json:",omitempty"`
	Raws [][]byte   `json:",omitempty"`
	Us   int        `json:",omitempty"`
	Sub  []step     `json:",omitempty"`
}

type scenario struct {
	Hosts int
	Files []file
	Steps []step
}

const shareChunk = 4 << 20

// entry is a file in a host's catalogue.
type entry struct {
	path   string
	size   int
	hash   [20]byte
	chunks int
	held   int
	file   int
	moving bool // a download that may make progress
}

func (e entry) text(name bool) string {
	p := e.path
	if name {
		p = path.Base(p)
	}
	pct := 100
	if e.chunks > 0 {
		pct = e.held * 100 / e.chunks
	}
	return fmt.Sprintf("%s\n\tPath: %s\n\tSize (bytes): %d\n\tSha1 Hash: %s\n\tChunk Count: %d\n\tChunks Downloaded: %d\n\tChunk Size: %d\n\tIntegrity: %d%%\n",
		path.Base(p), p, e.size, hex.EncodeToString(e.hash[:]), e.chunks, e.held, shareChunk, pct)
}

type tagged struct {
	prop string // "C10,C25" if several properties are violated
	err  error
}

type run struct {
	c     scenario
	o     *core.Obs
	l     *lab
	probe *host
	data  [][]byte
	hash  [][20]byte
	mu    sync.Mutex
	cat   []map[[20]byte]*entry // per host
	gone  []map[string]bool     // user files known to be altered or removed: path -> true
	found []tagged
	plain bool // a listing is compared without its percentages
}

func (r *run) bad(prop string, err error) {
	if err != nil {
		r.mu.Lock()
		r.found = append(r.found, tagged{prop, err})
		r.mu.Unlock()
	}
}

// stop ends the scenario with a violation.
type stop struct{ tagged }

func (r *run) fail(prop, sig, format string, a ...any) {
	panic(stop{tagged{prop, core.Fail(sig, format, a...)}})
}

// call runs the command-line tool and checks what holds for every command line.
func (r *run) call(h int, dir string, args ...string) outcome {
	x := r.l.hosts[h]
	o := x.cli(dir, args...)
	what := fmt.Sprintf("%q", args)
	if len(what) > 300 {
		what = what[:300]
	}
	switch {
	case o.slow:
		r.fail("C24", "cli-hangs", "%s on host %d did not end within %v\n%s", what, h, cliLimit, x.logTail())
	case o.sig != "":
		r.fail("C24", "cli-killed", "%s on host %d ended by %s", what, h, o.sig)
	case strings.Contains(o.out, "panic: ") || strings.Contains(o.out, "\ngoroutine ") || strings.Contains(o.out, "fatal error: "):
		r.fail("C24", "cli-crash", "%s on host %d crashed:\n%s", what, h, o.out)
	}
	if err := x.alive(); err != nil {
		panic(stop{tagged{"C24", err}})
	}
	return o
}

func (r *run) userPath(h, f int) string {
	return filepath.Join(r.l.hosts[h].dir, "user", r.c.Files[f].Name)
}

func (r *run) dlPath(h, f int) string {
	return filepath.Join(r.l.hosts[h].dir, "home", ".flu-network", "downloads", r.c.Files[f].Name)
}

func chunks(n int) int { return (n + shareChunk - 1) / shareChunk }

// isError: a command that failed says why.
func isError(o outcome) bool {
	return strings.TrimSpace(o.out) != "" && !strings.Contains(o.out, "Integrity: ")
}

func (r *run) share(h, f, how int) {
	p := r.userPath(h, f)
	if how >= 3 && r.cat[h][r.hash[f]] != nil { // the same content under another name
		p = filepath.Join(filepath.Dir(p), fmt.Sprintf("copy%d of %s", how, filepath.Base(p)))
	}
	b := r.data[f]
	if have, err := os.ReadFile(p); err != nil || !bytes.Equal(have, b) {
		must(os.WriteFile(p, b, 0644))
	}
	arg, dir := p, "/"
	switch how {
	case 1:
		dir, arg = filepath.Dir(p), filepath.Base(p)
		if strings.HasPrefix(arg, "-") {
			arg = "./" + arg
		}
	case 2:
		dir, arg = filepath.Dir(filepath.Dir(p)), "user/../user//"+filepath.Base(p)
	}
	o := r.call(h, dir, "share", arg)
	sum := sha1.Sum(b)
	r.mu.Lock()
	defer r.mu.Unlock()
	if old := r.cat[h][sum]; old != nil {
		if !isError(o) || !strings.Contains(o.out, old.path) {
			r.fail("C24,C12", "share-twice", "sharing %q, whose content is indexed as %q, printed %q", p, old.path, o.out)
		}
		r.o.Label("share-refused")
		return
	}
	e := &entry{path: p, size: len(b), hash: sum, chunks: chunks(len(b)), held: chunks(len(b)), file: f}
	if want := e.text(false); o.out != want {
		props := "C24"
		if isError(o) || shownRE.MatchString(o.out) && integrityRE.ReplaceAllString(o.out, "") != integrityRE.ReplaceAllString(want, "") {
			props = "C24,C12"
		}
		r.fail(props, "share-output", "sharing %q printed\n%s\ninstead of\n%s", p, o.out, want)
	}
	r.cat[h][sum] = e
	r.o.Label("shared")
}

// listing compares a printed listing with the catalogue; files being downloaded may be at any stage.
func (r *run) listing(h int, out string, remote bool, only *[20]byte) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	rest := out
	for _, e := range r.cat[h] {
		if only != nil && e.hash != *only {
			continue
		}
		hit := false
		lo := e.held
		if !e.moving {
			lo = e.held
		}
		hi := e.held
		if e.moving {
			hi = e.chunks
		}
		for k := lo; k <= hi && !hit; k++ {
			x := *e
			x.held = k
			t := x.text(remote)
			if r.plain {
				t = integrityRE.ReplaceAllString(t, "")
			}
			if strings.Contains(rest, t) {
				rest = strings.Replace(rest, t, "", 1)
				hit = true
				if e.moving {
					e.held = k
				}
			}
		}
		if !hit {
			return fmt.Sprintf("%q (%d of %d chunks held) is missing or shown wrongly in\n%s", e.path, e.held, e.chunks, out)
		}
	}
	if rest != "" {
		return fmt.Sprintf("it shows what the catalogue does not hold:\n%s", rest)
	}
	return ""
}

func (r *run) list(h int) {
	o := r.call(h, "/", "list")
	r.listed(h, o.out, "C12,C13,C14,C25")
}

var shownRE = regexp.MustCompile(`\tSize \(bytes\): \d+\n\tSha1 Hash: [0-9a-f]{40}\n\tChunk Count: \d+\n\tChunks Downloaded: \d+\n\tChunk Size: \d+\n`)
var integrityRE = regexp.MustCompile(`\tIntegrity: .*\n`)

// listed checks a listing; if the catalogue is not what it should be, and not just shown badly,
// other properties are violated too.
func (r *run) listed(h int, out string, others string) {
	w := r.listing(h, out, false, nil)
	if w == "" {
		return
	}
	props := "C24"
	r.plain = true
	if r.listing(h, integrityRE.ReplaceAllString(out, ""), false, nil) != "" && (out == "" || shownRE.MatchString(out)) {
		props += "," + others
	}
	r.plain = false
	r.fail(props, "list-output", "list on host %d: %s", h, w)
}

// retry does something over the network that a busy machine may make fail, until it works.
func retry(n int, f func() (string, bool)) string {
	var w string
	for i := 0; i < n; i++ {
		var again bool
		if w, again = f(); w == "" || !again {
			return w
		}
		time.Sleep(time.Duration(i) * time.Second)
	}
	return w
}

func (r *run) rlist(h, to, f int) {
	args := []string{"list", r.l.hosts[to].ipText()}
	var only *[20]byte
	if f >= 0 {
		only = &r.hash[f]
		args = append(args, hex.EncodeToString(only[:]))
	}
	both := r.l.hosts[h].hasNet && r.l.hosts[to].hasNet
	w := retry(4, func() (string, bool) {
		o := r.call(h, "/", args...)
		if !both && h != to {
			if !isError(o) {
				r.fail("C24", "no-error", "%q printed %q though there is no network", args, o.out)
			}
			r.o.Label("no-network")
			return "", false
		}
		if h == to && !both {
			return "", false
		}
		timeout := strings.Contains(o.out, "timeout")
		return r.listing(to, o.out, true, only), timeout
	})
	if w != "" {
		r.fail("C21", "remote-list", "%q: %s", args, w)
	}
}

func ranges(m map[int]bool, n int) [][2]int {
	var v [][2]int
	for i := 0; i < n; i++ {
		if m[i] {
			if k := len(v); k > 0 && v[k-1][1] == i-1 {
				v[k-1][1] = i
			} else {
				v = append(v, [2]int{i, i})
			}
		}
	}
	return v
}

// chims lists the hosts of the network.
func (r *run) chims(h, f int) {
	args := []string{"chims"}
	if f >= 0 {
		args = append(args, strings.ToUpper(hex.EncodeToString(r.hash[f][:])))
	}
	w := retry(5, func() (string, bool) {
		o := r.call(h, "/", args...)
		if !r.l.hosts[h].hasNet {
			if !isError(o) {
				r.fail("C24", "no-error", "%q printed %q though there is no network", args, o.out)
			}
			r.o.Label("no-network")
			return "", false
		}
		rest := o.out
		r.mu.Lock()
		defer r.mu.Unlock()
		for i, x := range r.l.hosts {
			if !x.hasNet || x == r.probe {
				continue
			}
			head := fmt.Sprintf("IP: %s:%d\n", x.ipText(), port)
			t := head
			if f >= 0 {
				if e := r.cat[i][r.hash[f]]; e != nil && e.held == e.chunks && e.chunks > 0 {
					t += fmt.Sprintf("  0:%d\n", e.chunks-1)
				} else if e != nil && e.chunks > 0 && (e.moving || e.held > 0) {
					// whatever it holds by now
					at := strings.Index(rest, head)
					if at < 0 {
						return fmt.Sprintf("host %d is missing in %q", i, o.out), true
					}
					end := at + len(head)
					for strings.HasPrefix(rest[end:], "  ") {
						end += strings.Index(rest[end:], "\n") + 1
					}
					rest = rest[:at] + rest[end:]
					continue
				}
			}
			if !strings.Contains(rest, t) {
				return fmt.Sprintf("host %d (%q) is missing in %q", i, t, o.out), true
			}
			rest = strings.Replace(rest, t, "", 1)
		}
		if rest != "" {
			return fmt.Sprintf("%q shows what is not there: %q", o.out, rest), false
		}
		return "", false
	})
	if w != "" {
		r.fail("C24,C19,C20", "chims-output", "%q on host %d: %s", args, h, w)
	}
}

// holders counts the other hosts that hold every chunk of the file.
func (r *run) holders(h, f int) (all, some int) {
	for i := range r.cat {
		if e := r.cat[i][r.hash[f]]; e != nil && i != h && r.l.hosts[i].hasNet && e.chunks > 0 && (e.held > 0 || e.moving) {
			some++
			if e.held == e.chunks && !e.moving {
				all++
			}
		}
	}
	return
}

func (r *run) get(h, f int, wait bool) {
	args := []string{"get", hex.EncodeToString(r.hash[f][:])}
	w := retry(5, func() (string, bool) {
		r.mu.Lock()
		all, some := r.holders(h, f)
		mine := r.cat[h][r.hash[f]]
		taken := false // another file of the catalogue has the name
		for _, e := range r.cat[h] {
			if e.hash != r.hash[f] && e.path == r.dlPath(h, f) {
				taken = true
			}
		}
		r.mu.Unlock()
		o := r.call(h, "/", args...)
		started := o.out == "Flu transfer initiated\n"
		if !started && !isError(o) {
			r.fail("C24", "get-output", "%q printed %q", args, o.out)
		}
		switch {
		case started && some == 0:
			r.fail("C25", "get-from-nobody", "%q started though no other host holds the file", args)
		case started:
			r.mu.Lock()
			if mine == nil {
				e := &entry{path: r.dlPath(h, f), size: len(r.data[f]), hash: r.hash[f], chunks: chunks(len(r.data[f])), file: f, moving: true}
				r.cat[h][e.hash] = e
			} else if mine.held < mine.chunks {
				mine.moving = true
			}
			r.mu.Unlock()
			r.o.Label("get-started")
		case some == 0 || !r.l.hosts[h].hasNet:
			r.o.Label("get-refused")
		case taken:
		case all > 0:
			return fmt.Sprintf("%d hosts hold the file, but it printed %q", all, o.out), true
		}
		return "", false
	})
	if w != "" {
		r.fail("C17,C25", "get-fails", "%q on host %d: %s", args, h, w)
	}
	if wait {
		r.settle(h)
	}
}

// settle waits for the downloads of a host.
func (r *run) settle(h int) {
	for _, e := range r.entries(h) {
		if !e.moving {
			continue
		}
		r.mu.Lock()
		all, _ := r.holders(h, e.file)
		held := e.held
		r.mu.Unlock()
		if all == 0 || !r.l.hosts[h].hasNet {
			continue // it may or may not complete
		}
		last, t := held, time.Now()
		for {
			r.list(h)
			r.mu.Lock()
			held = e.held
			r.mu.Unlock()
			if held == e.chunks {
				break
			}
			if held != last {
				last, t = held, time.Now()
			}
			if time.Since(t) > 120*time.Second {
				r.fail("C17,C25", "get-stalls", "the download of %q (%d bytes) on host %d has been at %d of %d chunks for %v though %d other hosts hold all of it\n%s", e.path, e.size, h, held, e.chunks, time.Since(t), all, r.l.hosts[h].logTail())
			}
			time.Sleep(100 * time.Millisecond)
		}
		r.complete(h, e)
	}
}

func (r *run) entries(h int) []*entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	var v []*entry
	for _, e := range r.cat[h] {
		v = append(v, e)
	}
	sort.Slice(v, func(i, j int) bool { return v[i].path < v[j].path })
	return v
}

// complete checks a download that has every chunk.
func (r *run) complete(h int, e *entry) {
	var b []byte
	for i := 0; i < 100; i++ {
		b, _ = os.ReadFile(e.path)
		if bytes.Equal(b, r.data[e.file]) {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if !bytes.Equal(b, r.data[e.file]) {
		r.fail("C17", "content", "the completed download %q of %d bytes differs from the original", e.path, e.size)
	}
	time.Sleep(100 * time.Millisecond) // the whole file is hashed after the last chunk
	r.mu.Lock()
	e.moving = false
	r.mu.Unlock()
	r.o.Label("downloaded")
	r.o.NT()
}

func (r *run) clean(h int) {
	r.settle(h)
	o := r.call(h, "/", "clean")
	r.mu.Lock()
	defer r.mu.Unlock()
	for sum, e := range r.cat[h] {
		b, err := os.ReadFile(e.path)
		want := e.path + "\n"
		switch {
		case err != nil:
			want += "  - File is missing. Removed from index\n"
			delete(r.cat[h], sum)
		case e.held < e.chunks || e.moving:
		case sha1.Sum(b) != sum:
			now := sha1.Sum(b)
			want += fmt.Sprintf("  - File has changed since indexing. Removed from Index\n    Indexed Hash: %x\n    Current Hash: %x\n", sum, now)
			delete(r.cat[h], sum)
		default:
			want += "  - Download complete & Hashes match. Ignored\n"
		}
		if !strings.Contains(o.out, want) {
			r.fail("C24,C13", "clean-output", "clean on host %d does not print\n%s\nbut\n%s", h, want, o.out)
		}
	}
}

func (r *run) alter(h, f, how int) {
	for i := range r.cat {
		r.settle(i)
	}
	// nobody may be downloading it at the moment
	for i := range r.cat {
		for _, e := range r.entries(i) {
			if e.moving {
				return
			}
		}
	}
	e := r.cat[h][r.hash[f]]
	if e == nil || strings.Contains(e.path, "/downloads/") {
		return
	}
	switch how % 3 {
	case 0:
		os.Remove(e.path)
	case 1:
		must(os.WriteFile(e.path, append([]byte("altered"), r.data[f]...), 0644))
	case 2:
		must(os.WriteFile(e.path, nil, 0644))
	}
	r.clean(h) // or it would be served with wrong content
}

func (r *run) restart(h int) { r.restarted(h, "C09", func(string) {}) }

// restarted kills the daemon (if it still runs), starts it again and compares what it shows.
func (r *run) restarted(h int, prop string, before func(out string)) {
	x := r.l.hosts[h]
	x.kill()
	if err := x.start(); err != nil {
		panic(stop{tagged{"C09,C10", err}})
	}
	o := r.call(h, "/", "list")
	before(o.out)
	r.listed(h, o.out, prop+",C09,C10,C25") // before: downloads may have progressed up to the end
	for _, e := range r.entries(h) {
		if !e.moving {
			continue
		}
		// the chunks it says it holds are there
		b, _ := os.ReadFile(e.path)
		right := 0
		for i := 0; i < e.chunks; i++ {
			lo, hi := i*shareChunk, min((i+1)*shareChunk, e.size)
			if hi <= len(b) && bytes.Equal(b[lo:hi], r.data[e.file][lo:hi]) {
				right++
			}
		}
		if right < e.held {
			r.fail("C10", "content", "after the daemon was killed, %q is said to hold %d chunks, but only %d on disk are right", e.path, e.held, right)
		}
		r.mu.Lock()
		e.moving = false // until somebody asks again
		r.mu.Unlock()
	}
	r.o.Label("restart")
}

// crash kills the daemon while it works on a command.
func (r *run) crash(h, f, how, us int) {
	x := r.l.hosts[h]
	for _, e := range r.entries(h) {
		if how%4 == 3 && (e.moving || e.held < e.chunks) {
			how = 0
		}
		if e.hash != r.hash[f] && e.path == r.dlPath(h, f) {
			return
		}
	}
	e := &entry{path: r.userPath(h, f), size: len(r.data[f]), hash: r.hash[f], chunks: chunks(len(r.data[f])), held: chunks(len(r.data[f])), file: f}
	wait := time.Duration(us) * time.Microsecond
	var args []string
	old := r.cat[h][e.hash]
	switch how % 4 {
	case 0, 1:
		args = []string{"share", e.path}
		if old == nil {
			must(os.WriteFile(e.path, r.data[f], 0644))
		}
	case 2:
		args = []string{"get", hex.EncodeToString(e.hash[:])}
		e.path, e.held, e.moving = r.dlPath(h, f), 0, true
		wait = 1990*time.Millisecond + 8*wait
	case 3:
		args = []string{"clean"}
	}
	ch := make(chan outcome)
	go func() { ch <- x.cli("/", args...) }()
	time.Sleep(wait)
	if err := x.alive(); err != nil {
		<-ch
		panic(stop{tagged{"C24", err}})
	}
	x.kill()
	o := <-ch
	if o.slow || o.sig != "" || strings.Contains(o.out, "panic: ") || strings.Contains(o.out, "\ngoroutine ") {
		r.fail("C24", "cli-crash", "%q on a daemon that dies: %+v", args, o)
	}
	r.restarted(h, "C10", func(out string) {
		r.mu.Lock()
		defer r.mu.Unlock()
		switch {
		case args[0] == "clean" || old != nil && (args[0] == "share" || old.held == old.chunks):
		case old != nil:
			old.moving = true
		case o.out == e.text(false) || o.out == "Flu transfer initiated\n":
			r.cat[h][e.hash] = e
			r.o.Label("crash-after")
		case strings.Contains(out, "\tSha1 Hash: "+hex.EncodeToString(e.hash[:])+"\n"):
			r.cat[h][e.hash] = e // it must be all right, then
			r.o.Label("crash-kept")
		default:
			r.o.Label("crash-lost")
		}
	})
	r.o.LabelIf(args[0] == "get" && r.cat[h][e.hash] != nil, "crash-download")
	r.o.NT()
}

// long takes the command-line tool a while to clean.
var long = strings.Repeat("a/../", 24000)

func (r *run) junk(h int, args []string) {
	subst := map[string]string{"$IP": r.l.hosts[(h+1)%r.c.Hosts].ipText(), "$HASH": hex.EncodeToString(r.hash[0][:]), "$DIR": r.l.hosts[h].dir, "$LONG": long}
	// the same path seen from the daemon's directory is a file
	subst["$REL"] = strings.TrimPrefix(r.userPath(h, 0), "/")
	var v []string
	for _, a := range args {
		for k, x := range subst {
			a = strings.ReplaceAll(a, k, x)
		}
		v = append(v, a)
	}
	if len(v) == 2 && v[0] == "get" && strings.EqualFold(v[1], subst["$HASH"]) {
		r.get(h, 0, false)
		return
	}
	if len(v) > 0 && v[0] == "clean" { // a download that has no file yet would be removed
		r.settle(h)
		for _, e := range r.entries(h) {
			if e.moving {
				return
			}
		}
	}
	if len(v) > 1 && args[1] == "$REL" {
		if p := r.userPath(h, 0); !exists(p) {
			must(os.WriteFile(p, r.data[0], 0644))
			defer os.Remove(p)
		}
	}
	o := r.call(h, filepath.Join(r.l.hosts[h].dir, "home"), v...)
	if len(v) > 0 && v[0] == "share" && !isError(o) {
		r.fail("C24,C12", "no-error", "%q printed %q", v, o.out)
	}
	if len(v) > 1 && v[0] == "list" { // only IPv4 addresses can be listed
		if ip := net.ParseIP(v[1]); ip.To4() == nil && !isError(o) {
			r.fail("C24", "no-error", "%q printed %q", v, o.out)
		}
	}
	if strings.TrimSpace(o.out) == "" && !(len(v) > 0 && (v[0] == "list" || v[0] == "chims" || v[0] == "clean")) {
		r.fail("C24", "silent", "%q printed nothing", v)
	}
	r.o.Label("junk")
	r.o.NT()
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

// down runs a command while the daemon is not running.
func (r *run) down(h int, args []string) {
	o := r.l.hosts[h].cli("/", args...)
	if o.slow || o.sig != "" || strings.Contains(o.out, "panic: ") || strings.Contains(o.out, "\ngoroutine ") || strings.TrimSpace(o.out) == "" {
		r.fail("C24", "without-daemon", "%q without a daemon: %+v", args, o)
	}
	r.o.Label("without-daemon")
	r.o.NT()
}

// broken runs a command against a daemon that ends while it answers.
func (r *run) broken(h, how, n int, args []string) {
	x := r.l.hosts[h]
	p := filepath.Join(x.dir, "tmp", "flu-network.sock")
	os.Remove(p)
	l, err := net.Listen("unix", p)
	must(err)
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				b := make([]byte, 65536)
				switch how {
				case 0: // at once
				case 1: // when it is asked
					c.Read(b)
				case 2: // a while after
					c.Read(b)
					time.Sleep(20 * time.Millisecond)
				case 3: // in the middle of its answer, or with nonsense
					c.Read(b)
					c.Write(make3(n * 20))
				case 4:
					c.Read(b)
					c.Write([]byte{0x10 + byte(n), 0xff, 0x81})
				case 5:
					c.Write([]byte{byte(n)})
					c.Read(b)
				}
			}()
		}
	}()
	var v []string
	for _, a := range args {
		v = append(v, strings.ReplaceAll(a, "$LONG", long))
	}
	o := x.cli("/", v...)
	if o.slow || o.sig != "" || strings.Contains(o.out, "panic: ") || strings.Contains(o.out, "\ngoroutine ") || strings.TrimSpace(o.out) == "" {
		r.fail("C24", "broken-daemon", "%q and a daemon that ends while it answers: %+v", args, o)
	}
	r.o.Label("broken-daemon")
	r.o.NT()
}

// many shares many small files.
func (r *run) many(h, how int) {
	r.mu.Lock()
	base := len(r.data)
	n := 8 + 9*how
	for i := 0; i < n; i++ {
		f := file{Size: 10 + i, Seed: uint64(1000*h + i), Name: fmt.Sprintf("one of many %d on %d", i, h)}
		b := make([]byte, f.Size)
		catmodel.Fill(b, f.Seed)
		r.c.Files = append(r.c.Files[:len(r.c.Files):len(r.c.Files)], f)
		r.data = append(r.data, b)
		r.hash = append(r.hash, sha1.Sum(b))
	}
	r.mu.Unlock()
	for i := 0; i < n; i++ {
		r.share(h, base+i, 0)
	}
	for to := 0; to < r.c.Hosts; to++ {
		r.rlist(to, h, -1)
	}
	r.o.Label("many-files")
	r.o.NT()
}

// cleans runs several cleans at once.
func (r *run) cleans(h, how int) {
	for i := range r.cat {
		r.settle(i)
	}
	var keep, drop []*entry
	for i, e := range r.entries(h) {
		if e.moving || e.held < e.chunks {
			return
		}
		if (i+how)%3 > 0 && !strings.Contains(e.path, "/downloads/") {
			drop = append(drop, e)
		} else {
			keep = append(keep, e)
		}
	}
	for i := range r.cat {
		for _, e := range r.entries(i) {
			if e.moving {
				return
			}
		}
	}
	for i, e := range drop {
		if i%2 == 0 {
			os.Remove(e.path)
		} else {
			must(os.WriteFile(e.path, append([]byte("altered"), r.data[e.file]...), 0644))
		}
	}
	var wg sync.WaitGroup
	outs := make([]string, 2+how%3)
	for k := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer r.caught()
			outs[k] = r.call(h, "/", "clean").out
		}()
	}
	wg.Wait()
	if len(r.found) > 0 {
		return
	}
	for _, o := range outs {
		for _, e := range keep {
			if !strings.Contains(o, e.path+"\n  - Download complete & Hashes match. Ignored\n") {
				r.fail("C22,C13", "clean-output", "of %d cleans at once, one does not mention %q:\n%s", len(outs), e.path, o)
			}
		}
	}
	all := strings.Join(outs, "")
	for _, e := range drop {
		if !strings.Contains(all, e.path+"\n  - File ") {
			r.fail("C22,C13", "clean-output", "of %d cleans at once, none mentions the removed %q:\n%s", len(outs), e.path, all)
		}
		delete(r.cat[h], e.hash)
	}
	r.list(h)
	r.o.LabelIf(len(drop) > 0, "cleans-at-once")
	r.o.NT()
}

// datagrams sends raw datagrams to a daemon.
func (r *run) datagrams(h int, raws [][]byte, how int) {
	if !r.l.hosts[h].hasNet {
		return
	}
	c := r.probe.listen(lowPort(how))
	defer c.Close()
	for _, raw := range raws {
		c.WriteToUDP(raw, r.l.hosts[h].addr())
		if how%3 == 1 {
			time.Sleep(time.Millisecond)
		}
	}
	r.o.Label("datagrams")
	r.o.NT()
	time.Sleep(10 * time.Millisecond)
	if err := r.l.hosts[h].alive(); err != nil {
		panic(stop{tagged{"C06", err}})
	}
}

// flood sends the same few datagrams thousands of times; then everything must still be answered.
func (r *run) flood(h int, raws [][]byte, how int) {
	x := r.l.hosts[h]
	if !x.hasNet {
		return
	}
	c := r.probe.listen(lowPort(how))
	defer c.Close()
	for i := 0; i < 5000+1500*how; i++ {
		c.WriteToUDP(raws[i%len(raws)], x.addr())
		if i%100 == 99 {
			time.Sleep(2 * time.Millisecond)
		}
	}
	r.o.Label("flood")
	time.Sleep(100 * time.Millisecond)
	if err := x.alive(); err != nil {
		panic(stop{tagged{"C06", err}})
	}
	r.burst(h, how)
}

// lowPort is where a peer asks from: some are below 1024.
func lowPort(how int) int {
	return []int{0, 53, 0, 1023, 0, 1}[how%6]
}

// used: a datagram of the scenario has one of the ids.
func (r *run) used(base uint16, n int) bool {
	var in func(v []step) bool
	in = func(v []step) bool {
		for _, s := range v {
			for _, raw := range s.Raws {
				if len(raw) > 2 {
					id := int(raw[1])<<8 | int(raw[2])
					if id >= int(base) && id < int(base)+n {
						return true
					}
				}
			}
			if in(s.Sub) {
				return true
			}
		}
		return false
	}
	return in(r.c.Steps)
}

// burst asks many different things at once; every answer must fit its question.
func (r *run) burst(h, how int) {
	x := r.l.hosts[h]
	for i := range r.cat {
		r.settle(i)
	}
	for _, e := range r.entries(h) {
		if e.moving {
			return
		}
	}
	if !x.hasNet {
		return
	}
	rng := rand.New(rand.NewSource(int64(how)))
	type q struct {
		list bool
		hash [20]byte
		pad  int
		cut  int // an incomplete request, which must not be answered
	}
	asked := map[uint16]q{}
	answered := map[uint16]bool{}
	lists, discs := r.probe.listen(lowPort(how+1)), r.probe.listen(port)
	defer lists.Close()
	defer discs.Close()
	n := 60
	base := uint16(rng.Intn(60000))
	for r.used(base, n) { // answers to earlier datagrams may still be on their way
		base = uint16(rng.Intn(60000))
	}
	for i := 0; i < n; i++ {
		k := q{list: rng.Intn(2) == 0}
		switch rng.Intn(4) {
		case 0:
			rng.Read(k.hash[:])
		case 1:
			for i := range k.hash {
				k.hash[i] = 0xff
			}
		default:
			k.hash = r.hash[rng.Intn(len(r.hash))]
		}
		switch rng.Intn(6) {
		case 0:
			k.pad = rng.Intn(20000)
		case 1:
			if k.list {
				k.cut = 1 + rng.Intn(19)
			} else {
				k.cut = 1 + rng.Intn(20)
			}
			answered[base+uint16(i)] = true
		}
		asked[base+uint16(i)] = k
	}
	ask := func() {
		for i := 0; i < n; i++ {
			id := base + uint16(i)
			k := asked[id]
			if answered[id] && k.cut == 0 {
				continue
			}
			raw := wire.Msg{Kind: wire.DiscoverReq, ID: id, Hash: k.hash}.Encode()
			if k.list {
				raw = wire.Msg{Kind: wire.ListReq, ID: id, Hash: k.hash}.Encode()
			}
			raw = append(raw, make([]byte, k.pad)...)
			lists.WriteToUDP(raw[:len(raw)-k.cut], x.addr())
		}
	}
	check := func(raw []byte, list bool) {
		m, ok := wire.Decode(raw)
		if ok && m.Kind == wire.DiscoverReq {
			return // somebody asks everybody
		}
		if !ok || list != (m.Kind == wire.ListResp) || list == (m.Kind == wire.DiscoverResp) {
			r.fail("C06", "answer", "a burst of requests was answered with % x", raw[:min(len(raw), 60)])
		}
		k, ok := asked[m.ID]
		if !ok {
			return // a late answer to something else
		}
		if k.list != list {
			r.fail("C06", "answer", "a burst of requests with ids %d.. got the answer % x with id %d", base, raw[:min(len(raw), 60)], m.ID)
		}
		if k.cut > 0 {
			r.fail("C06", "answered", "an incomplete request, %d bytes short, was answered with % x", k.cut, raw[:min(len(raw), 60)])
		}
		answered[m.ID] = true
		e := r.cat[h][k.hash]
		if !list {
			want := 0
			if e != nil && e.held > 0 {
				want = 2
			}
			if m.Addr != x.ip || m.Port != port || want == 0 && len(m.Bounds) > 0 || e != nil && e.held == e.chunks && len(m.Bounds) != want {
				r.fail("C06", "answer", "in a burst, the discovery request %d for %x was answered with %+v", m.ID, k.hash, m)
			}
			return
		}
		blank := k.hash[0] == 0xff && k.hash[19] == 0xff
		if blank {
			if len(m.Entries) != len(r.cat[h]) {
				r.fail("C06", "answer", "in a burst, the listing request %d was answered with %d of %d files", m.ID, len(m.Entries), len(r.cat[h]))
			}
		} else if e == nil && len(m.Entries) > 0 || e != nil && (len(m.Entries) != 1 || m.Entries[0].Hash != k.hash) {
			r.fail("C06", "answer", "in a burst, the listing request %d for %x was answered with %+v", m.ID, k.hash, m.Entries)
		}
	}
	buf := make([]byte, 70000)
	for try := 0; try == 0 || try < 40 && len(answered) < n; try++ {
		ask()
		for wait := 300 * time.Millisecond; ; wait = 20 * time.Millisecond {
			got := false
			lists.SetReadDeadline(time.Now().Add(wait))
			if k, _, err := lists.ReadFromUDP(buf); err == nil {
				check(buf[:k], true)
				got = true
			}
			discs.SetReadDeadline(time.Now().Add(wait))
			if k, _, err := discs.ReadFromUDP(buf); err == nil {
				check(buf[:k], false)
				got = true
			}
			if !got {
				break
			}
		}
	}
	if len(answered) < n {
		if err := x.alive(); err != nil {
			panic(stop{tagged{"C06", err}})
		}
		r.fail("C06", "no-answer", "%d of %d requests were never answered", n-len(answered), n)
	}
	r.o.Label("burst")
	r.o.NT()
}

// race shares several files at once, each several times, while the host is being listed.
func (r *run) race(h int, files []int, how int) {
	before := r.entries(h)
	for _, e := range before {
		if e.moving {
			return
		}
	}
	n := 2 + how%4
	outs := map[int][]string{}
	paths := map[int][]string{}
	var lists []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	do := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); defer r.caught(); f() }()
	}
	for _, f := range files {
		if len(paths[f]) > 0 {
			continue
		}
		for k := 0; k < n; k++ {
			p := filepath.Join(filepath.Dir(r.userPath(h, f)), fmt.Sprintf("twin%d of %s", k, r.c.Files[f].Name))
			must(os.WriteFile(p, r.data[f], 0644))
			paths[f] = append(paths[f], p)
			outs[f] = append(outs[f], "")
		}
	}
	for f := range paths {
		for k := range paths[f] {
			do(func() {
				o := r.call(h, "/", "share", paths[f][k])
				mu.Lock()
				outs[f][k] = o.out
				mu.Unlock()
			})
		}
	}
	for k := 0; k < 3; k++ {
		do(func() {
			o := r.call(h, "/", "list")
			mu.Lock()
			lists = append(lists, o.out)
			mu.Unlock()
		})
	}
	wg.Wait()
	if len(r.found) > 0 {
		return
	}
	var winners []*entry
	for f := range paths {
		old := r.cat[h][r.hash[f]]
		won := -1
		for k, o := range outs[f] {
			e := entry{path: paths[f][k], size: len(r.data[f]), hash: r.hash[f], chunks: chunks(len(r.data[f])), held: chunks(len(r.data[f])), file: f}
			if o == e.text(false) {
				if won >= 0 || old != nil {
					r.fail("C22,C12", "shared-twice", "of %d shares of the same content at once, more than one succeeded:\n%q", n, outs[f])
				}
				won = k
				winners = append(winners, &e)
			}
		}
		if won < 0 && old == nil {
			r.fail("C22,C12", "none-shared", "of %d shares of the same content at once, none succeeded:\n%q", n, outs[f])
		}
		path := ""
		if old != nil {
			path = old.path
		} else {
			path = paths[f][won]
		}
		for k, o := range outs[f] {
			if k != won && (!strings.Contains(o, path) || strings.Contains(o, "Integrity: ")) {
				r.fail("C22", "share-output", "sharing content that was being shared as %q printed %q", path, o)
			}
		}
	}
	for _, l := range lists {
		rest := l
		for _, e := range before {
			t := e.text(false)
			if !strings.Contains(rest, t) {
				r.fail("C22", "list", "a listing during shares lacks %q:\n%s", e.path, l)
			}
			rest = strings.Replace(rest, t, "", 1)
		}
		for _, e := range winners {
			rest = strings.Replace(rest, e.text(false), "", 1)
		}
		if rest != "" {
			r.fail("C22", "list", "a listing during shares shows what the catalogue never held:\n%s", rest)
		}
	}
	r.mu.Lock()
	for _, e := range winners {
		// its name is what other hosts will see; give it up, so that names stay the files' own
		r.cat[h][e.hash] = e
	}
	r.mu.Unlock()
	for _, e := range winners {
		os.Remove(e.path)
	}
	r.o.Label("race")
	r.o.NT()
	r.clean(h)
}

func (r *run) step(s step) {
	h := s.Host
	switch s.Op {
	case "share":
		r.share(h, s.File, s.How)
	case "list":
		r.list(h)
	case "rlist":
		f := s.File
		if s.How == 0 {
			f = -1
		}
		r.rlist(h, s.To, f)
	case "chims":
		f := s.File
		if s.How == 0 {
			f = -1
		}
		r.chims(h, f)
	case "get":
		r.get(h, s.File, s.How == 0)
	case "clean":
		r.clean(h)
	case "alter":
		r.alter(h, s.File, s.How)
	case "restart":
		r.restart(h)
	case "crash":
		r.crash(h, s.File, s.How, s.Us)
	case "offline":
		r.l.hosts[h].offline(s.How%2 == 0)
	case "online":
		r.l.hosts[h].address([4]byte{10, 0, 0, byte(h + 1 + 50*(s.How%3))})
	case "junk":
		for _, a := range s.Args {
			r.junk(h, a)
		}
	case "down":
		r.l.hosts[h].kill()
		for _, a := range s.Args {
			r.down(h, a)
		}
		for i, a := range s.Args {
			r.broken(h, (s.How+i)%6, i, a)
		}
		for how := 0; how < 6; how += 5 {
			r.broken(h, how, s.How, []string{"share", "$LONG"})
		}
		r.restart(h)
	case "many":
		r.many(h, s.How)
	case "cleans":
		r.cleans(h, s.How)
	case "datagrams":
		r.datagrams(h, s.Raws, s.How)
	case "flood":
		r.flood(h, s.Raws, s.How)
	case "burst":
		r.burst(h, s.How)
	case "race":
		fs := []int{s.File}
		if s.To < len(r.c.Files) {
			fs = append(fs, s.To)
		}
		r.race(h, fs, s.How)
	case "parallel":
		var wg sync.WaitGroup
		for _, x := range s.Sub {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer r.caught()
				r.step(x)
			}()
		}
		wg.Wait()
		r.o.Label("parallel")
		r.o.NT()
	default:
		panic(core.Harness("step %q", s.Op))
	}
}

func (r *run) caught() {
	switch p := recover().(type) {
	case nil:
	case stop:
		r.bad(p.prop, p.err)
	case *core.HarnessError:
		r.bad("", p)
	default:
		panic(p)
	}
}

// final: everything is as it should be at the end.
func (r *run) final() {
	defer r.caught()
	for i, x := range r.l.hosts[:r.c.Hosts] {
		if !x.hasNet {
			x.address([4]byte{10, 0, 0, byte(i + 1)})
		}
	}
	for i := range r.cat {
		r.settle(i)
	}
	for i, x := range r.l.hosts[:r.c.Hosts] {
		r.list(i)
		if err := x.alive(); err != nil {
			panic(stop{tagged{"C24", err}})
		}
		for _, e := range r.entries(i) {
			if e.moving {
				continue
			}
			b, _ := os.ReadFile(e.path)
			if e.held == e.chunks && !bytes.Equal(b, r.data[e.file]) {
				r.fail("C17", "content", "at the end the file %q differs from the original", e.path)
			}
		}
		if raceMode {
			if t := x.logTail(); strings.Contains(t, "WARNING: DATA RACE") {
				r.fail("C22", "race", "%s", t)
			}
		}
	}
	r.rlist(0, r.c.Hosts-1, -1)
	// nothing is left open
	for i, x := range r.l.hosts[:r.c.Hosts] {
		moving := false
		for _, e := range r.entries(i) {
			moving = moving || e.moving
		}
		if moving {
			continue
		}
		var n int
		for t := time.Now(); ; time.Sleep(100 * time.Millisecond) {
			n = len(x.fds("socket:"))
			if n <= x.sockBase {
				break
			}
			if time.Since(t) > 60*time.Second {
				r.fail("C23", "sockets", "host %d had %d sockets open at its start and has %d a minute after everything is over", i, x.sockBase, n)
			}
		}
		if v := x.fds(x.dir); len(v) > 1 { // its log
			r.fail("C23", "files", "host %d still has files open: %v", i, v)
		}
	}
}

func (c scenario) execute(o *core.Obs) []tagged {
	r := &run{c: c, o: o, l: newLab(c.Hosts + 1)}
	defer r.l.close()
	r.probe = r.l.hosts[c.Hosts]
	for _, f := range c.Files {
		b := make([]byte, f.Size)
		catmodel.Fill(b, f.Seed)
		r.data = append(r.data, b)
		r.hash = append(r.hash, sha1.Sum(b))
	}
	for i := 0; i < c.Hosts; i++ {
		r.cat = append(r.cat, map[[20]byte]*entry{})
	}
	func() {
		defer r.caught()
		for _, x := range r.l.hosts[:c.Hosts] {
			if err := x.start(); err != nil {
				panic(stop{tagged{"C24", err}})
			}
		}
		for _, s := range c.Steps {
			r.step(s)
			if len(r.found) > 0 {
				return
			}
		}
	}()
	if len(r.found) == 0 {
		r.final()
	}
	return r.found
}

// only returns the violation of the property, or of what every property needs.
func only(prop string, found []tagged) error {
	for _, f := range found {
		if h, ok := f.err.(*core.HarnessError); ok {
			return h
		}
	}
	for _, f := range found {
		if slices.Contains(strings.Split(f.prop, ","), prop) {
			return f.err
		}
	}
	for _, f := range found {
		if v, ok := f.err.(*core.Violation); ok && v.Sig == "daemon-ended" {
			return f.err
		}
	}
	return nil
}

func pick[T any](t *rapid.T, name string, v ...T) T { return rapid.SampledFrom(v).Draw(t, name) }

func chance(t *rapid.T, name string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, name) == n-1 }
