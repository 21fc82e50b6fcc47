// Package core drives the generated checks: a property is a set of sub-checks, each of which is a
// generator of plain-data cases, plus an executor that runs one case against the code under test
// and returns a violation or nil. All randomness lives in the generator (rapid), so a case is a
// JSON value that can be stored, shrunk and replayed without the generator.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Violation is what an executor returns when the property is broken. Sig is stable under shrinking.
type Violation struct{ Sig, Msg string }

func (v *Violation) Error() string { return v.Sig + ": " + v.Msg }

// Fail builds a violation.
func Fail(sig, format string, args ...any) error {
	return &Violation{Sig: sig, Msg: fmt.Sprintf(format, args...)}
}

// HarnessError is an environment problem: never a violation.
type HarnessError struct{ Msg string }

func (h *HarnessError) Error() string { return "harness: " + h.Msg }

// Harness panics or returns with this to signal an error of the check itself.
func Harness(format string, args ...any) error {
	return &HarnessError{Msg: fmt.Sprintf(format, args...)}
}

// Obs collects what a case exercised.
type Obs struct {
	mu         sync.Mutex
	nontrivial bool
	labels     map[string]int
}

// NT marks the case non-trivial.
func (o *Obs) NT() { o.mu.Lock(); o.nontrivial = true; o.mu.Unlock() }

// Label counts a class the case belongs to.
func (o *Obs) Label(s string) {
	o.mu.Lock()
	if o.labels == nil {
		o.labels = map[string]int{}
	}
	o.labels[s]++
	o.mu.Unlock()
}

// LabelIf counts a class if cond holds.
func (o *Obs) LabelIf(cond bool, s string) {
	if cond {
		o.Label(s)
	}
}

// Sub is one sub-check of a property.
type Sub struct {
	Prop, Name, Rule string
	Quick, Thorough  int           // cases over all shards
	Batch            int           // >0: run this many cases at once (no shrinking while searching)
	Watchdog         time.Duration // a case running longer is reported as hung
	ShrinkTime       time.Duration
	Retry            int // batch mode: how many re-runs may confirm a failure (0: none needed)

	draw   func(t *rapid.T) any
	run    func(c any, o *Obs) error
	decode func(raw []byte) (any, error)
	sample func(seed int) any
}

var subs []*Sub

// Out is the real standard output; what the code under test prints may be redirected elsewhere.
var Out = os.Stdout

// Register adds a sub-check.
func Register[C any](s Sub, gen func(t *rapid.T) C, run func(c C, o *Obs) error) {
	g := rapid.Custom(gen)
	s.draw = func(t *rapid.T) any { return g.Draw(t, "case") }
	s.sample = func(seed int) any { return g.Example(seed) }
	s.run = func(c any, o *Obs) error { return run(c.(C), o) }
	s.decode = func(raw []byte) (any, error) {
		var c C
		err := json.Unmarshal(raw, &c)
		return c, err
	}
	if s.Watchdog == 0 {
		s.Watchdog = 60 * time.Second
	}
	if s.ShrinkTime == 0 {
		s.ShrinkTime = 10 * time.Second
	}
	subs = append(subs, &s)
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Sig      string          `json:"signature"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Case     json.RawMessage `json:"case"`
}

// SubStats is what one shard measured for one sub-check.
type SubStats struct {
	Name        string            `json:"name"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	WallS       float64           `json:"wall_s"`
	Stopped     bool              `json:"stopped_early"`
}

// Result is the output of one shard.
type Result struct {
	Subs       []*SubStats `json:"subs"`
	Violations []Replay    `json:"violations"`
	Errors     []string    `json:"errors"`
	Corpus     int         `json:"corpus"`
}

var (
	fProp    = flag.String("prop", "", "property id")
	fSub     = flag.String("sub", "", "only this sub-check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fShard   = flag.Int("shard", 0, "shard index")
	fShards  = flag.Int("shards", 1, "number of shards")
	fOut     = flag.String("out", "", "result file")
	fReplay  = flag.String("replay", "", "replay this case")
	fCurrent = flag.String("current", "", "file that always names the case being run")
	fBudget  = flag.Duration("budget", 240*time.Second, "stop generating after this time")
	fScale   = flag.Float64("scale", 1, "multiplies case counts")
	fDump    = flag.Int("dump", 0, "print this many generated cases and exit")
	fShrink  = flag.Bool("shrink", true, "shrink failures")
	fCorpus  = flag.String("corpus", "", "folder of saved cases to run first")
)

type quietTB struct{ failed bool }

func (q *quietTB) Helper()              {}
func (q *quietTB) Name() string         { return "check" }
func (q *quietTB) Logf(string, ...any)  {}
func (q *quietTB) Log(...any)           {}
func (q *quietTB) Skipf(string, ...any) { runtime.Goexit() }
func (q *quietTB) Skip(...any)          { runtime.Goexit() }
func (q *quietTB) SkipNow()             { runtime.Goexit() }
func (q *quietTB) Errorf(f string, a ...any) {
	q.failed = true
	lastErr.Store(fmt.Sprintf(f, a...))
}
func (q *quietTB) Error(a ...any)            { q.failed = true; lastErr.Store(fmt.Sprint(a...)) }
func (q *quietTB) Fatalf(f string, a ...any) { q.Errorf(f, a...); runtime.Goexit() }
func (q *quietTB) Fatal(a ...any)            { q.Error(a...); runtime.Goexit() }
func (q *quietTB) FailNow()                  { q.failed = true; runtime.Goexit() }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

var lastErr atomic.Value

func hash64(b []byte) uint64 {
	h := sha256.Sum256(b)
	return binary.BigEndian.Uint64(h[:8])
}

// Mix derives a well separated seed.
func Mix(parts ...any) uint64 {
	v := hash64([]byte(fmt.Sprint(parts...)))
	v &= 1<<62 - 1
	if v == 0 {
		v = 1
	}
	return v
}

func mustJSON(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(Harness("case not serialisable: %v", err))
	}
	return b
}

// guard runs one case and turns a panic of the code under test into a violation.
func (s *Sub) guard(c any, o *Obs) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(*HarnessError); ok {
				err = h
				return
			}
			if v, ok := p.(*Violation); ok {
				err = v
				return
			}
			stack := string(debug.Stack())
			err = Fail("panic"+PanicSite(stack), "%v\n%s", p, trim(stack, 3000))
		}
	}()
	return s.run(c, o)
}

// PanicSite names the function of the client that panicked.
func PanicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if i := strings.Index(l, "github.com/flu-network/client/"); i >= 0 && !strings.HasPrefix(l, "\t") {
			l = l[i+len("github.com/flu-network/client/"):]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return " in " + l
		}
	}
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type runner struct {
	mu    sync.Mutex
	st    *SubStats
	seen  map[uint64]bool
	res   *Result
	start time.Time
}

func (r *runner) record(raw []byte, o *Obs) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.st.Evaluations++
	for k, n := range o.labels {
		r.st.Labels[k] += n
	}
	if o.nontrivial {
		h := hash64(raw)
		if !r.seen[h] {
			r.seen[h] = true
			r.st.Nontrivial++
			if len(r.st.Samples) < 3 && len(raw) < 4000 {
				r.st.Samples = append(r.st.Samples, json.RawMessage(raw))
			}
		}
	}
}

// found is what there is to report if shrinking does not come to an end.
var found atomic.Pointer[Replay]

// rescue reports the failure found so far and ends the process.
func rescue() {
	f := found.Load()
	if f == nil || *fOut == "" {
		return
	}
	b, _ := json.Marshal(&Result{Violations: []Replay{*f}})
	if os.WriteFile(*fOut, b, 0644) == nil {
		os.Exit(0)
	}
}

// keep notes a failure before it is shrunk; shrinking is cut off when it takes too long.
func (s *Sub) keep(raw []byte, v *Violation) {
	first := found.Load() == nil
	found.Store(&Replay{Property: s.Prop, Sub: s.Name, Sig: v.Sig, Message: trim(v.Msg, 6000), Seed: *fSeed, Case: append([]byte(nil), raw...)})
	if first {
		time.AfterFunc(s.ShrinkTime+15*time.Second, rescue)
	}
}

// watch writes the case about to run, and kills the process if it does not finish.
func (s *Sub) watch(raw []byte) func() {
	if *fCurrent != "" {
		b, _ := json.Marshal(Replay{Property: s.Prop, Sub: s.Name, Sig: "crash-or-hang", Seed: *fSeed, Case: raw})
		os.WriteFile(*fCurrent, b, 0644)
	}
	t := time.AfterFunc(s.Watchdog, func() {
		rescue()
		fmt.Fprintf(os.Stderr, "WATCHDOG: case still running after %v: %s\n", s.Watchdog, trim(string(raw), 2000))
		debug.SetTraceback("all")
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		os.Stderr.Write(buf)
		os.Exit(42)
	})
	return func() { t.Stop() }
}

func (s *Sub) count() int {
	n := s.Quick
	if *fTier == "thorough" {
		n = s.Thorough
	}
	f := float64(n) * *fScale / float64(*fShards)
	k := int(f)
	if k < 1 {
		k = 1
	}
	return k
}

func (s *Sub) serial(r *runner) {
	n := s.count()
	seed := Mix(*fSeed, s.Prop, s.Name, *fShard)
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", s.ShrinkTime.String())
	if !*fShrink {
		flag.Set("rapid.shrinktime", "0s")
	}
	var best []byte
	var bestErr *Violation
	var harness error
	var failedAt time.Time
	prop := func(t *rapid.T) {
		if bestErr != nil && time.Since(failedAt) > s.ShrinkTime {
			return
		}
		if bestErr == nil && (time.Since(r.start) > *fBudget || harness != nil) {
			r.st.Stopped = true
			return
		}
		c := s.draw(t)
		raw := mustJSON(c)
		o := &Obs{}
		done := s.watch(raw)
		err := s.guard(c, o)
		done()
		if bestErr == nil {
			r.record(raw, o)
		}
		if err == nil {
			return
		}
		v, ok := err.(*Violation)
		if !ok {
			harness = err
			return
		}
		if bestErr == nil {
			failedAt = time.Now()
		}
		if bestErr == nil || v.Sig == bestErr.Sig && len(raw) <= len(best) {
			best, bestErr = raw, v
			s.keep(best, bestErr)
		}
		t.Fatalf("%s", v.Sig)
	}
	tb := &quietTB{}
	lastErr.Store("")
	fin := make(chan struct{})
	go func() { defer close(fin); rapid.Check(tb, prop) }()
	<-fin
	switch {
	case harness != nil:
		r.res.Errors = append(r.res.Errors, s.Name+": "+harness.Error())
	case bestErr != nil:
		r.violation(s, best, bestErr)
	case tb.failed:
		r.res.Errors = append(r.res.Errors, s.Name+": rapid: "+lastErr.Load().(string))
	}
}

func (r *runner) violation(s *Sub, raw []byte, v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Violations = append(r.res.Violations, Replay{Property: s.Prop, Sub: s.Name, Sig: v.Sig, Message: trim(v.Msg, 6000), Seed: *fSeed, Case: raw})
}

// batch runs cases concurrently; on a failure it confirms and shrinks the failing seed serially.
func (s *Sub) batch(r *runner) {
	n := s.count()
	type bad struct {
		seed int
		raw  []byte
		v    *Violation
	}
	var fails []bad
	var harness error
	var next atomic.Int64
	var wg sync.WaitGroup
	stop := atomic.Bool{}
	for w := 0; w < s.Batch; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || stop.Load() {
					return
				}
				if time.Since(r.start) > *fBudget {
					r.mu.Lock()
					r.st.Stopped = true
					r.mu.Unlock()
					return
				}
				seed := int(Mix(*fSeed, s.Prop, s.Name, *fShard, i))
				c := s.sample(seed)
				raw := mustJSON(c)
				o := &Obs{}
				err := s.guard(c, o)
				r.record(raw, o)
				if err != nil {
					if v, ok := err.(*Violation); ok {
						r.mu.Lock()
						fails = append(fails, bad{seed, raw, v})
						r.mu.Unlock()
					} else {
						r.mu.Lock()
						harness = err
						r.mu.Unlock()
					}
					stop.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if len(fails) == 0 {
		if harness != nil {
			r.res.Errors = append(r.res.Errors, s.Name+": "+harness.Error())
		}
		return
	}
	sort.Slice(fails, func(i, j int) bool { return len(fails[i].raw) < len(fails[j].raw) })
	f := fails[0]
	best, bestErr := f.raw, f.v
	s.keep(best, bestErr)
	if *fShrink {
		flag.Set("rapid.checks", "1")
		flag.Set("rapid.seed", fmt.Sprint(f.seed))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", s.ShrinkTime.String())
		deadline := time.Now().Add(s.ShrinkTime)
		runs := 0
		prop := func(t *rapid.T) {
			c := s.draw(t)
			if runs++; runs > 2 && time.Now().After(deadline) {
				return
			}
			raw := mustJSON(c)
			err := s.guard(c, &Obs{})
			if v, ok := err.(*Violation); ok {
				if v.Sig == bestErr.Sig && len(raw) <= len(best) {
					best, bestErr = raw, v
					s.keep(best, bestErr)
				}
				t.Fatalf("%s", v.Sig)
			}
		}
		fin := make(chan struct{})
		go func() { defer close(fin); rapid.Check(&quietTB{}, prop) }()
		<-fin
	}
	r.violation(s, best, bestErr)
}

// Main runs the sub-checks selected on the command line.
func Main() {
	testing.Init()
	flag.Parse()
	res := &Result{}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	start := time.Now()
	if *fCorpus != "" {
		corpus(*fCorpus, res)
	}
	for _, s := range subs {
		if len(res.Violations) > 0 {
			break
		}
		if s.Prop != *fProp || *fSub != "" && s.Name != *fSub {
			continue
		}
		if *fDump > 0 {
			for i := 0; i < *fDump; i++ {
				fmt.Fprintf(Out, "%s: %s\n", s.Name, mustJSON(s.sample(int(Mix(*fSeed, s.Prop, s.Name, *fShard, i)))))
			}
			continue
		}
		st := &SubStats{Name: s.Name, Rule: s.Rule, Labels: map[string]int{}}
		r := &runner{st: st, seen: map[uint64]bool{}, res: res, start: start}
		t0 := time.Now()
		if s.Batch > 0 {
			s.batch(r)
		} else {
			s.serial(r)
		}
		st.WallS = time.Since(t0).Seconds()
		for h := range r.seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		res.Subs = append(res.Subs, st)
	}
	for _, f := range atExit {
		f()
	}
	b, _ := json.Marshal(res)
	if *fOut != "" {
		if err := os.WriteFile(*fOut, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		for _, s := range res.Subs {
			s.Hashes = nil
			s.Samples = nil
		}
		b, _ = json.MarshalIndent(res, "", " ")
		fmt.Fprintln(Out, string(b))
	}
	os.Exit(0)
}

// corpus runs the saved cases of the property.
func corpus(dir string, res *Result) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		var rp Replay
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			res.Errors = append(res.Errors, err.Error())
			continue
		}
		for _, s := range subs {
			if s.Prop != *fProp || rp.Property != *fProp || s.Name != rp.Sub || *fSub != "" && s.Name != *fSub {
				continue
			}
			c, err := s.decode(rp.Case)
			if err != nil {
				res.Errors = append(res.Errors, f+": "+err.Error())
				continue
			}
			done := s.watch(rp.Case)
			err = s.guard(c, &Obs{})
			done()
			res.Corpus++
			if v, ok := err.(*Violation); ok {
				res.Violations = append(res.Violations, Replay{Property: s.Prop, Sub: s.Name, Sig: v.Sig, Message: "saved case " + filepath.Base(f) + ": " + trim(v.Msg, 6000), Seed: *fSeed, Case: rp.Case})
				return
			} else if err != nil {
				res.Errors = append(res.Errors, f+": "+err.Error())
			}
		}
	}
}

var atExit []func()

// AtExit registers clean-up to run before the process ends normally.
func AtExit(f func()) { atExit = append(atExit, f) }

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, s := range subs {
		if s.Prop == rp.Property && s.Name == rp.Sub {
			c, err := s.decode(rp.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			done := s.watch(rp.Case)
			err = s.guard(c, &Obs{})
			done()
			for _, f := range atExit {
				f()
			}
			if v, ok := err.(*Violation); ok {
				fmt.Fprintf(Out, "VIOLATED %s/%s: %s\n", rp.Property, rp.Sub, v)
				return 1
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			fmt.Fprintln(Out, "holds")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such sub-check here")
	return 4
}

// Tier returns the running tier.
func Tier() string { return *fTier }

// Scratch returns a fresh scratch folder under dir named after the shard.
var scratchN atomic.Int64

// Scratch makes a fresh folder; the caller removes it.
func Scratch() string {
	base := os.Getenv("FLU_SCRATCH")
	if base == "" {
		base = "/tmp"
	}
	d := filepath.Join(base, fmt.Sprintf("s%d-%d-%d", os.Getpid(), *fShard, scratchN.Add(1)))
	if !strings.HasPrefix(d, "/") {
		panic(Harness("scratch %q", d))
	}
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(Harness("%v", err))
	}
	return d
}

// Replaying says whether a saved case is being replayed.
func Replaying() bool { return *fReplay != "" }
