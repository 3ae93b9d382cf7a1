// Package h is the property-check core shared by all harness packages: it drives rapid with a seed
// that is a pure function of VERIF_SEED, counts evaluations and distinct non-trivial cases,
// collects samples, and writes the result file that run.py turns into evidence.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is what a run leaves behind for run.py.
type Result struct {
	Property    string         `json:"property"`
	Status      string         `json:"status"` // "pass" or "fail"
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Parts       map[string]int `json:"parts"`
	Assumptions []string       `json:"assumptions"`
}

// Prop is one property under check.
type Prop struct {
	t    *testing.T
	res  Result
	seen map[uint64]struct{}
	mu   sync.Mutex
	only string
}

const maxHashes = 400000

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scratch is the run's private scratch directory (made and removed by run.py).
func Scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// CLI is the path of the ocibuild binary that run.py built from /repo's tree.
func CLI() string {
	p := os.Getenv("VERIF_OCIBUILD")
	if p == "" {
		Infra("VERIF_OCIBUILD is not set")
	}
	return p
}

// Infra reports a problem of the machinery (never a violation) and ends the process.
func Infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", args...)
	os.Exit(3)
}

// Must ends the process as an infrastructure failure if err is set.
func Must(err error) {
	if err != nil {
		Infra("%v\n%s", err, debug.Stack())
	}
}

// Start begins checking a property.
func Start(t *testing.T, id, rule string) *Prop {
	debug.SetMaxStack(64 << 20)
	p := &Prop{t: t, seen: map[uint64]struct{}{}, only: os.Getenv("VERIF_ONLY")}
	p.res = Result{Property: id, Rule: rule, Labels: map[string]int{}, Parts: map[string]int{}}
	t.Cleanup(p.finish)
	go watchMemory()
	return p
}

// watchMemory ends the process as a hang if it needs absurdly much memory (cases need a few megabytes).
func watchMemory() {
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 3<<30 {
			fmt.Fprintf(os.Stderr, "HANG: over %d MB of memory in use\n", m.HeapAlloc>>20)
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(4)
		}
	}
}

// Assume records an assumption for the evidence file.
func (p *Prop) Assume(s string) { p.res.Assumptions = append(p.res.Assumptions, s) }

func (p *Prop) finish() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.res.Status = "pass"
	if p.t.Failed() {
		p.res.Status = "fail"
	}
	for k := range p.seen {
		p.res.Hashes = append(p.res.Hashes, strconv.FormatUint(k, 36))
	}
	sort.Strings(p.res.Hashes)
	out := os.Getenv("VERIF_RESULT")
	if out == "" {
		p.t.Logf("%s: %d evaluations, %d nontrivial (%d distinct); parts %v; labels %v",
			p.res.Property, p.res.Evaluations, p.res.Nontrivial, len(p.seen), p.res.Parts, p.res.Labels)
		if os.Getenv("VERIF_SAMPLES") != "" {
			for _, s := range p.res.Samples {
				p.t.Log("sample:", s)
			}
		}
		return
	}
	bs, err := json.Marshal(&p.res)
	Must(err)
	Must(os.WriteFile(out, bs, 0o644))
}

// C is one generated case.
type C struct {
	*rapid.T
	p    *Prop
	part string
	nt   bool
}

func seedFor(part string) uint64 {
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 0, 64)
		if err == nil {
			seed = uint64(n)
		}
	}
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%d/%s", seed, shard, part)
	v := f.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

var journalSeq int64

// Run checks one part of the property over generated cases.
func (p *Prop) Run(part string, quick, thorough int, fn func(c *C)) {
	p.t.Helper()
	if p.only != "" && p.only != part {
		return
	}
	n := quick
	if Thorough() {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		Must(err)
		n = int(float64(n) * f)
		if n < 1 {
			n = 1
		}
	}
	p.t.Run(part, func(t *testing.T) {
		Must(flag.Set("rapid.seed", strconv.FormatUint(seedFor(part), 10)))
		Must(flag.Set("rapid.checks", strconv.Itoa(n)))
		var partNontrivial int
		failed := false
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{T: rt, p: p, part: part}
			p.mu.Lock()
			if !failed {
				p.res.Evaluations++
				p.res.Parts[part]++
			}
			p.mu.Unlock()
			defer func() {
				if rt.Failed() {
					failed = true
				}
				if c.nt {
					partNontrivial++
				}
			}()
			c.Guard("a case of "+part, caseLimit(), func() { fn(c) })
		})
		if partNontrivial == 0 && os.Getenv("VERIF_FAILFILE") == "" && !t.Failed() {
			Infra("part %s generated no non-trivial case", part)
		}
	})
}

// caseLimit is how long one case may take before it counts as a hang.  Cases take milliseconds, or at
// most a few seconds where they run programs.
func caseLimit() time.Duration {
	if Thorough() {
		return 10 * time.Minute
	}
	return 150 * time.Second
}

// Nontrivial marks the case non-trivial by the property's stated rule; key identifies it.
func (c *C) Nontrivial(key string) {
	c.nt = true
	f := fnv.New64a()
	f.Write([]byte(c.part))
	f.Write([]byte{0})
	f.Write([]byte(key))
	c.p.mu.Lock()
	defer c.p.mu.Unlock()
	c.p.res.Nontrivial++
	if len(c.p.seen) < maxHashes {
		c.p.seen[f.Sum64()] = struct{}{}
	}
	n := c.p.res.Labels["nontrivial:"+c.part]
	c.p.res.Labels["nontrivial:"+c.part] = n + 1
	if n == 3 || n == 40 || n == 200 {
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		c.p.res.Samples = append(c.p.res.Samples, c.part+": "+strings.ToValidUTF8(key, "\uFFFD"))
	}
}

// Label counts a class of cases, for reading the generator's distribution.
func (c *C) Label(s string) {
	c.p.mu.Lock()
	c.p.res.Labels[s]++
	c.p.mu.Unlock()
}

// LabelIf is Label under a condition.
func (c *C) LabelIf(b bool, s string) {
	if b {
		c.Label(s)
	}
}

// Journal writes the current case where run.py can find it if the process dies on it.
func (c *C) Journal(s string) {
	if d := os.Getenv("VERIF_JOURNAL"); d != "" {
		_ = os.WriteFile(d, []byte(c.part+"\n"+s), 0o644)
	}
}

// TempDir makes a scratch directory for one case; call the returned function to remove it.
func TempDir() (string, func()) {
	d, err := os.MkdirTemp(Scratch(), "case.")
	Must(err)
	d, err = filepath.EvalSymlinks(d)
	Must(err)
	return d, func() { _ = os.RemoveAll(d) }
}

// Guard runs fn, and reports a hang if it needs longer than the limit.  The limit is thousands of
// times what such a case needs; run.py repeats the run before it believes a hang.
func (c *C) Guard(what string, limit time.Duration, fn func()) {
	var done int32
	timer := time.AfterFunc(limit, func() {
		if atomic.LoadInt32(&done) == 0 {
			fmt.Fprintf(os.Stderr, "HANG: %s did not end within %s\n", what, limit)
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(4)
		}
	})
	defer timer.Stop()
	defer atomic.StoreInt32(&done, 1)
	fn()
}

// Try calls fn and turns a panic into an error whose text starts with "PANIC".
func Try(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v\n%s", r, debug.Stack())
		}
	}()
	return fn()
}

// ---- generator helpers ----

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, vals ...T) T {
	return vals[rapid.IntRange(0, len(vals)-1).Draw(t, label)]
}

// Weighted draws an index with the given weights.
func Weighted(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

// OneIn is true in about one of n cases (shrinks to false).
func OneIn(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// Int draws an integer.
func Int(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Repeat runs fn between min and max times, so that the repetitions shrink well.
func Repeat(t *rapid.T, label string, min, max int, fn func(t *rapid.T)) {
	if max <= 0 {
		return
	}
	gen := rapid.Custom(func(t *rapid.T) int { _ = rapid.Just(0).Draw(t, "-"); fn(t); return 0 })
	rapid.SliceOfN(gen, min, max).Draw(t, label)
}

// Size is a number from min to max, or now and then (one in rare) one from many to 3*many: some algorithms
// (sorting, for one) are others for more than a dozen elements.
func Size(t *rapid.T, label string, min, max, many, rare int) int {
	if OneIn(t, label+"-many", rare) {
		return Int(t, label, many, 3*many)
	}
	return Int(t, label, min, max)
}

// OpenBelow lists the files below dir that this process has open.
func OpenBelow(dir string) (ret []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, fd := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			ret = append(ret, l)
		}
	}
	return ret
}
