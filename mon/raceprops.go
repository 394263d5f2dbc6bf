package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
)

func init() {
	register(&Prop{
		ID:   "C21",
		Race: true,
		Rule: fmt.Sprintf("the race detector watches goroutines that start together and run the %d actions of C22 on shared freshly loaded keys, certificates, requests, lists, messages and ciphers: the same action in all of them, pairs, mixed programs, one random source for all, and as the very first use of the library in a new process. "+
			"Each result is compared with that of the same call alone on values of its own, results must stay as they were returned, and signatures, nonces, points, salts and keys must all differ. Random sources yield the processor in the middle of calls. Distinct (action, arguments) run concurrently", len(actions)),
		Groups: []Group{
			{Name: "same", N: [2]int{len(actions), 30 * len(actions)}, Fn: c21Same},
			{Name: "pairs", N: [2]int{24, 3000}, Fn: c21Pairs},
			{Name: "mixed", N: [2]int{10, 1000}, Fn: c21Mixed},
			{Name: "one source", N: [2]int{6, 300}, Fn: c21OneSource},
			{Name: "first use", N: [2]int{len(actions) + 6, 20 * len(actions)}, Fn: c21Cold},
		},
	})
}

type step struct {
	a    *action
	seed uint64
	o    *out
}

// storm runs the programs at the same time. Nothing but the library orders their steps.
func storm(world func(g int) *world, progs [][]step) {
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	ids := make([]uint64, len(progs))
	for g := range progs {
		ready.Add(1)
		done.Add(1)
		go func(g int, prog []step) {
			defer done.Done()
			w := world(g)
			// The system source of this goroutine: registered before the start, so that reading it orders nothing.
			id := goid()
			ids[g] = id
			var sys *Rng
			sysHook.Store(id, func(p []byte) (int, error) {
				runtime.Gosched()
				return sys.Read(p)
			})
			if w.pool != nil {
				sysHook.Store(id, w.pool.Read)
			}
			ready.Done()
			<-start
			for k := range prog {
				sys = newRng("opsys", prog[k].seed)
				prog[k].o = prog[k].a.do(w, prog[k].seed)
			}
		}(g, progs[g])
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, id := range ids {
		sysHook.Delete(id)
	}
}

// judge compares what the programs gave with the same calls alone.
func judgeStorm(t *T, f *fixture, dir string, progs [][]step, det bool) {
	uniq := map[string]string{}
	seen := map[string]bool{}
	var w *world
	for g, prog := range progs {
		for k, s := range prog {
			what := fmt.Sprintf("%s (arguments %x), goroutine %d of %d, step %d", s.a.name, s.seed, g, len(progs), k)
			for _, b := range s.o.after() {
				t.Failf("%s: %s", what, b)
			}
			t.Eval()
			if det {
				if w == nil {
					w = newWorld(f, dir).load()
				}
				alone := s.a.do(w, s.seed)
				t.Check(diffVals(s.o.vals, alone.vals) == "", "%s gives another result than alone: %s", what, diffVals(s.o.vals, alone.vals))
			}
			if me := fmt.Sprint(s.a.name, s.seed); !seen[me] {
				seen[me] = true
				for _, u := range s.o.uniq {
					t.Eval()
					if other, ok := uniq[u]; ok {
						t.Failf("%s gives the same %s as %s", what, u, other)
					}
					uniq[u] = what
				}
				t.Key("%s %x %x", s.a.name, f.Seed, s.seed)
			}
			t.Cover(s.a.name)
		}
	}
	t.Cover(fmt.Sprintf("%d goroutines", len(progs)))
}

func (t *T) together(progs [][]step) {
	f := newFixture(t)
	dir := t.scratch()
	w := newWorld(f, dir).load()
	w.yield = t.Chance(2, 3)
	storm(func(int) *world { return w }, progs)
	judgeStorm(t, f, dir, progs, true)
}

func c21Same(t *T, i int) {
	a := actions[i%len(actions)]
	progs := make([][]step, pick(t.Rng, 4, 8, 12))
	common := []uint64{t.Uint64(), t.Uint64(), t.Uint64()}
	for g := range progs {
		for k := 0; k < 3; k++ {
			seed := t.Uint64()
			if t.Chance(1, 3) {
				seed = common[k]
			}
			progs[g] = append(progs[g], step{a: a, seed: seed})
		}
	}
	t.together(progs)
}

func c21Pairs(t *T, i int) {
	a, b := pick(t.Rng, actions...), pick(t.Rng, actions...)
	progs := make([][]step, pick(t.Rng, 2, 6, 8))
	for g := range progs {
		for k := 0; k < 4; k++ {
			progs[g] = append(progs[g], step{a: pick(t.Rng, a, b), seed: t.Uint64()})
		}
	}
	t.together(progs)
}

func c21Mixed(t *T, i int) {
	progs := make([][]step, pick(t.Rng, 4, 8, 16))
	for g := range progs {
		for k := 0; k < 8; k++ {
			progs[g] = append(progs[g], step{a: pick(t.Rng, actions...), seed: t.Uint64()})
		}
	}
	t.together(progs)
}

type locked struct {
	mu sync.Mutex
	r  io.Reader
}

func (l *locked) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Read(p)
}

// c21OneSource: all draw from one source, which hands out every byte once. What they make must be valid and different.
func c21OneSource(t *T, i int) {
	var random []*action
	for _, a := range actions {
		switch a.name {
		case "sm2.Sign", "sm2.SignDigest", "sm2.Encryt", "sm2.GenerateKey", "pkcs12.Encode", "NewSignedData", "CreateCertificate":
			random = append(random, a)
		}
	}
	progs := make([][]step, 8)
	for g := range progs {
		for k := 0; k < 6; k++ {
			a := pick(t.Rng, random...)
			if i%3 == 0 {
				a = random[i/3%len(random)]
			}
			progs[g] = append(progs[g], step{a: a, seed: t.Uint64()})
		}
	}
	f := newFixture(t)
	dir := t.scratch()
	w := newWorld(f, dir).load()
	w.pool = &locked{r: newRng("pool", t.Uint64())}
	storm(func(int) *world { return w }, progs)
	judgeStorm(t, f, dir, progs, false)
}

// c21Cold: a new process in which the first calls of the library are concurrent.
func c21Cold(t *T, i int) {
	dir := t.scratch()
	f := newFixture(t)
	b, _ := json.Marshal(f)
	fix := filepath.Join(dir, "fixture")
	if err := os.WriteFile(fix, b, 0600); err != nil {
		panic(err)
	}
	which := []string{}
	for g := 0; g < 6; g++ {
		n := i % len(actions)
		if i >= len(actions) {
			n = t.IntN(len(actions))
		}
		if i == len(actions) { // SM2 next to the first use of the standard curves
			n = actionNo(pick(t.Rng, "curve", "sm2.Verify", "ParseCertificate", "private key codecs", "CheckSignatureFrom"))
		}
		which = append(which, fmt.Sprint(n))
	}
	self, _ := os.Executable()
	c := exec.Command(self, "cold", fix, dir, fmt.Sprint(t.Uint64()), strings.Join(which, ","))
	msg, err := c.CombinedOutput()
	if err != nil || !strings.Contains(string(msg), "cold done") {
		t.Failf("first use by %v at the same time: %v: %s", which, err, head(string(msg), 4000))
	}
	t.Eval()
	t.Cover("first use: " + actions[i%len(actions)].name)
	t.Key("first use %d %x", i, f.Seed)
}

func actionNo(name string) int {
	for n, a := range actions {
		if a.name == name {
			return n
		}
	}
	panic("no action " + name)
}

func coldMain(a []string) {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fatal("%v", err)
	}
	f := &fixture{}
	if err := json.Unmarshal(b, f); err != nil {
		fatal("%v", err)
	}
	useSysReader(7)
	r := newRng("cold", a[2])
	var progs [][]step
	for _, s := range strings.Split(a[3], ",") {
		var n int
		fmt.Sscan(s, &n)
		progs = append(progs, []step{{a: actions[n], seed: r.Uint64()}})
	}
	storm(func(int) *world { return newWorld(f, a[1]) }, progs)
	bad := 0
	for _, p := range progs {
		s := p[0]
		alone := s.a.do(newWorld(f, a[1]).load(), s.seed)
		for _, x := range append(s.o.after(), alone.after()...) {
			fmt.Printf("%s: %s\n", s.a.name, x)
			bad++
		}
		if d := diffVals(s.o.vals, alone.vals); d != "" {
			fmt.Printf("%s gives another result than alone: %s\n", s.a.name, d)
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Println("cold done")
}
