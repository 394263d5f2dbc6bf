package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Prop is the monitor of one property: groups of generated cases, each judged by an oracle.
type Prop struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Groups []Group
	// Race: the worker must be the race-detector build.
	Race bool
	// Before runs once per worker before any case.
	Before func()
}

// A Group is a deterministic, indexed family of cases.
type Group struct {
	Name     string
	N        [2]int // quick, thorough
	Fn       func(t *T, i int)
	Serial   bool // nothing else runs meanwhile
	CPULimit int  // seconds one case may take before it counts as not terminating (default 40; cases take milliseconds)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is one running case.
type T struct {
	*Rng
	p     *Prop
	g     *Group
	i     int
	w     *worker
	tier  int
	evals int
	keys  []string
	cov   []string
	// buf is what crypto/rand.Reader hands to this case.
	sys   *Rng
	log   []string
	e     *env
	clean []func()
	mute  bool // another property's case, run for what it does besides
}

type abort struct{}

// Violation is one refuted oracle.
type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Group    string   `json:"group"`
	Index    int      `json:"index"`
	What     string   `json:"what"`
	Log      []string `json:"log,omitempty"`
}

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, a ...any) {
	if t.mute {
		panic(abort{})
	}
	t.w.violate(t, fmt.Sprintf(format, a...))
	panic(abort{})
}

// Logf notes a detail that is kept if the case fails.
func (t *T) Logf(format string, a ...any) {
	if len(t.log) < 200 {
		t.log = append(t.log, fmt.Sprintf(format, a...))
	}
}

// Eval counts oracle decisions.
func (t *T) Eval() { t.evals++ }

// Key counts a distinct non-trivial observation, identified by the parts.
func (t *T) Key(format string, a ...any) { t.keys = append(t.keys, fmt.Sprintf(format, a...)) }

// Cover counts a situation that was reached.
func (t *T) Cover(name string) { t.cov = append(t.cov, name) }

// Sample keeps a case for the evidence file.
func (t *T) Sample(format string, a ...any) {
	t.w.sample(t, fmt.Sprintf(format, a...))
}

// Check fails the case unless ok, and counts the decision.
func (t *T) Check(ok bool, format string, a ...any) {
	t.evals++
	if !ok {
		t.Failf(format, a...)
	}
}

// Quick reports whether this is the quick tier.
func (t *T) Quick() bool { return t.tier == 0 }

// ---- deterministic randomness

// Rng is a deterministic source. It is not for concurrent use.
type Rng struct {
	*mrand.Rand
	c *mrand.ChaCha8
}

func newRng(parts ...any) *Rng {
	c := mrand.NewChaCha8(sha256.Sum256([]byte(fmt.Sprint(parts...))))
	return &Rng{mrand.New(c), c}
}

func (r *Rng) Read(p []byte) (int, error) {
	var b [8]byte
	for i := 0; i < len(p); i += 8 {
		binary.LittleEndian.PutUint64(b[:], r.c.Uint64())
		copy(p[i:], b[:])
	}
	return len(p), nil
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// Big returns a uniform number in [lo, hi].
func (r *Rng) Big(lo, hi *big.Int) *big.Int {
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, big.NewInt(1))
	x := new(big.Int).SetBytes(r.Bytes(len(w.Bytes()) + 8))
	x.Mod(x, w)
	return x.Add(x, lo)
}

func (r *Rng) Chance(num, den int) bool { return r.IntN(den) < num }

func pick[E any](r *Rng, xs ...E) E { return xs[r.IntN(len(xs))] }

// Len picks a length that favours boundaries.
func (r *Rng) Len(max int) int {
	switch r.IntN(6) {
	case 0:
		return min(max, r.IntN(4))
	case 1:
		return min(max, pick(r, 31, 32, 33, 55, 56, 57, 63, 64, 65, 95, 96, 97, 119, 120, 127, 128, 129, 159, 160, 191, 192, 193, 255, 256, 257))
	case 2:
		return r.IntN(min(max, 4096) + 1)
	}
	return r.IntN(min(max, 300) + 1)
}

func (r *Rng) Name(n int) string {
	const al = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.IntN(len(al))]
	}
	return string(b)
}

// ---- crypto/rand.Reader, routed to the running case

var sysRoute sync.Map // goroutine id -> *T

func goid() uint64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	var n uint64
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + uint64(c-'0')
	}
	return n
}

type sysReader struct {
	mu  sync.Mutex
	rng *Rng
}

// sysHook lets a case put its own reader in place of the system source, for its goroutine only.
var sysHook sync.Map // goroutine id -> io.Reader-like func([]byte) (int, error)

func (s *sysReader) Read(p []byte) (int, error) {
	id := goid()
	if h, ok := sysHook.Load(id); ok {
		return h.(func([]byte) (int, error))(p)
	}
	if t, ok := sysRoute.Load(id); ok {
		return t.(*T).sys.Read(p)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rng.Read(p)
}

// WithSysRand runs f with the system source of this goroutine replaced.
func (t *T) WithSysRand(read func([]byte) (int, error), f func()) {
	id := goid()
	sysHook.Store(id, read)
	defer sysHook.Delete(id)
	f()
}

// ---- worker

type worker struct {
	p       *Prop
	tier    int
	seed    int64
	mu      sync.Mutex
	viol    []Violation
	violOut *os.File
	evals   int64
	cases   int64
	keys    map[[16]byte]struct{}
	cov     map[string]int64
	samples map[string][]string
	groups  map[string]int64
	times   map[string]time.Duration // with MON_TIMES set: where the time goes
	slots   *os.File
	stop    atomic.Bool
	seq     atomic.Uint64
	sysLock *sysReader
}

const slotSize = 64
const maxViolations = 6

func (w *worker) violate(t *T, what string) {
	if len(what) > 6000 {
		what = what[:6000] + "..."
	}
	v := Violation{Property: w.p.ID, Tier: tierName(w.tier), Seed: w.seed, Group: t.g.Name, Index: t.i, What: what, Log: t.log}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.viol = append(w.viol, v)
	if w.violOut != nil {
		b, _ := json.Marshal(v)
		w.violOut.Write(append(b, '\n'))
	}
	if len(w.viol) >= maxViolations {
		w.stop.Store(true)
	}
}

func (w *worker) sample(t *T, s string) {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.samples[t.g.Name]) < 2 {
		w.samples[t.g.Name] = append(w.samples[t.g.Name], fmt.Sprintf("%s[%d]: %s", t.g.Name, t.i, s))
	}
}

func (w *worker) runCase(slot int, gi, i int) {
	g := &w.p.Groups[gi]
	lim := g.CPULimit
	if lim == 0 {
		lim = 40
	}
	if w.slots != nil {
		var rec [slotSize]byte
		copy(rec[:], fmt.Sprintf("%d %d %d %d", gi, i, w.seq.Add(1), lim))
		w.slots.WriteAt(rec[:], int64(slot)*slotSize)
	}
	t := &T{p: w.p, g: g, i: i, w: w, tier: w.tier}
	t.Rng = newRng("case", w.seed, w.p.ID, g.Name, i)
	t.sys = newRng("sys", w.seed, w.p.ID, g.Name, i)
	id := goid()
	sysRoute.Store(id, t)
	began := time.Now()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				w.violate(t, fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())))
			}
		}()
		g.Fn(t, i)
	}()
	for _, f := range t.clean {
		f()
	}
	sysRoute.Delete(id)
	w.mu.Lock()
	w.cases++
	w.evals += int64(t.evals)
	w.groups[g.Name]++
	if w.times != nil {
		w.times[g.Name] += time.Since(began)
	}
	for _, k := range t.keys {
		h := sha256.Sum256([]byte(k))
		w.keys[[16]byte(h[:16])] = struct{}{}
	}
	for _, c := range t.cov {
		w.cov[c]++
	}
	w.mu.Unlock()
	if w.slots != nil {
		var rec [slotSize]byte
		w.slots.WriteAt(rec[:], int64(slot)*slotSize)
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (w *worker) run(par int, only string) {
	if w.p.Before != nil {
		w.p.Before()
	}
	if only != "" {
		var gi, i int
		fmt.Sscanf(only, "%d:%d", &gi, &i)
		w.runCase(0, gi, i)
		return
	}
	type job struct{ g, i int }
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	for s := 0; s < par; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for j := range ch {
				if !w.stop.Load() {
					w.runCase(s, j.g, j.i)
				}
			}
		}(s)
	}
	// Interleave the groups so that an early stop has seen all of them.
	total := 0
	for gi := range w.p.Groups {
		if !w.p.Groups[gi].Serial {
			total = max(total, w.p.Groups[gi].N[w.tier])
		}
	}
	done := make([]int, len(w.p.Groups))
	for step := 1; step <= total; step++ {
		for gi := range w.p.Groups {
			g := &w.p.Groups[gi]
			if g.Serial {
				continue
			}
			for done[gi]*total < step*g.N[w.tier] {
				ch <- job{gi, done[gi]}
				done[gi]++
			}
		}
	}
	close(ch)
	wg.Wait()
	for gi := range w.p.Groups {
		g := &w.p.Groups[gi]
		if g.Serial {
			for i := 0; i < g.N[w.tier] && !w.stop.Load(); i++ {
				w.runCase(0, gi, i)
			}
		}
	}
}

type Result struct {
	Violations []Violation
	Evals      int64
	Cases      int64
	Distinct   int
	Cov        map[string]int64
	Groups     map[string]int64
	Samples    []string
	Stopped    bool
	Wall       float64
}

func (w *worker) result(start time.Time) *Result {
	r := &Result{Violations: w.viol, Evals: w.evals, Cases: w.cases, Distinct: len(w.keys), Cov: w.cov, Groups: w.groups, Stopped: w.stop.Load()}
	for _, g := range w.p.Groups {
		r.Samples = append(r.Samples, w.samples[g.Name]...)
	}
	r.Wall = time.Since(start).Seconds()
	return r
}

func tierName(t int) string { return [2]string{"quick", "thorough"}[t] }

func hx(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%s...(%d bytes, sha256 %x)", hex.EncodeToString(b[:600]), len(b), sha256.Sum256(b))
	}
	return hex.EncodeToString(b)
}
