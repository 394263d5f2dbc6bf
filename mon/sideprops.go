package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C22",
		Rule: fmt.Sprintf("%d actions over all exported functions (succeeding and failing ways) on shared keys, certificates, templates, messages and buffers whose slices have spare capacity: deep dumps of everything reachable through exported fields (spare capacity included) and of shared package values before and after each; "+
			"the action repeated, repeated in a fresh world after its results were overwritten, and in random histories must give the same result; results must not change later. Cases of the other monitors run too, for their output alone. Output descriptors are captured for the whole run, file system calls of a run under strace. Distinct (action, arguments)", len(actions)),
		Groups: []Group{
			{Name: "each", N: [2]int{24 * len(actions), 600 * len(actions)}, Fn: c22Each},
			{Name: "history", N: [2]int{60, 3000}, Fn: c22History},
			{Name: "others", N: [2]int{1500, 60000}, Fn: c22Others},
			{Name: "calls", N: [2]int{1, 4}, Fn: c22Files, Serial: true},
		},
	})
}

// c22Others runs cases of the other monitors (hostile input, failures, odd keys and names): their verdicts are not asked for,
// only that nothing is printed meanwhile.
func c22Others(t *T, i int) {
	ids := []string{"C04", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C20", "C20", "C23", "C25", "C26", "C27", "C28", "C28", "C29"}
	p := props[ids[i%len(ids)]]
	g := &p.Groups[i/len(ids)%len(p.Groups)]
	n := g.N[0]
	if g.Serial || g.CPULimit > 0 || n < 30 {
		return
	}
	j := t.IntN(n)
	t.mute = true
	defer func() {
		t.mute = false
		if e := recover(); e != nil {
			t.Cover("others: verdict or panic of another property")
		}
		t.Cover("others: " + p.ID + " " + g.Name)
	}()
	g.Fn(t, j)
}

func (t *T) scratch() string {
	dir := tempDir(t)
	t.clean = append(t.clean, func() { os.RemoveAll(dir) })
	return dir
}

// roomyWorld loads a world in which every slice has spare capacity (sometimes only those of buffers and templates).
func roomyWorld(f *fixture, dir string, deep bool) *world {
	w := newWorld(f, dir)
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	w.F = &fixture{}
	json.Unmarshal(b, w.F)
	w.F.Seed = f.Seed
	w.load()
	roomy(w.F)
	roomy(&w.Tmpl)
	roomy(&w.Req)
	roomy(&w.Revs)
	roomy(w.RevTm)
	roomy(&w.Std)
	if deep {
		roomy(&w.Cert)
		roomy(&w.CSR)
		roomy(&w.CRL)
		roomy(&w.P7)
		roomy(&w.Key)
	}
	return w
}

func c22Each(t *T, i int) {
	a := actions[i%len(actions)]
	f := newFixture(t)
	dir := t.scratch()
	deep := t.Chance(1, 2)
	w := roomyWorld(f, dir, deep)
	before := dump(w, true)
	for n := 0; n < 3; n++ {
		seed := t.Uint64()
		one := a.do(w, seed)
		what := fmt.Sprintf("%s (arguments %x)", a.name, seed)
		for _, b := range one.after() {
			t.Failf("%s: %s", what, b)
		}
		t.Eval()
		after := dump(w, true)
		t.evals += len(after)
		t.Check(firstDiff(before, after) == "", "%s changed its surroundings: %s", what, firstDiff(before, after))
		two := a.do(w, seed)
		t.Check(diffVals(one.vals, two.vals) == "", "%s gives another result the second time: %s", what, diffVals(one.vals, two.vals))
		for _, b := range append(one.after(), two.after()...) {
			t.Failf("%s after a second call: %s", what, b)
		}
		// What a caller does with results is its own business.
		for _, o := range []*out{one, two} {
			for _, l := range o.live {
				for j := range l.now {
					l.now[j] ^= 0x5a
				}
			}
			for _, b := range o.bigs {
				b.SetInt64(12345)
			}
			for _, x := range o.objs {
				scrub(x)
			}
		}
		three := a.do(newWorld(f, dir).load(), seed)
		t.Check(diffVals(one.vals, three.vals) == "", "%s gives another result after the first one's was overwritten: %s", what, diffVals(one.vals, three.vals))
		if firstDiff(before, dump(w, true)) != "" { // overwriting results may reach arguments they share memory with
			w = roomyWorld(f, dir, deep)
			before = dump(w, true)
			t.Cover("results share memory with arguments: " + a.name)
		}
		t.Key("%s %x %x", a.name, f.Seed, seed)
		t.Cover(a.name)
	}
	left, _ := os.ReadDir(dir)
	t.Check(len(left) == 0, "%s left files: %v", a.name, left)
	if i < len(actions) {
		t.Sample("%s: %d lines of state compared before and after", a.name, len(before))
	}
}

// c22History: the result of a call does not depend on the calls before it.
func c22History(t *T, i int) {
	f := newFixture(t)
	dir := t.scratch()
	w := roomyWorld(f, dir, t.Chance(1, 2))
	before := dump(w, true)
	type step struct {
		a    *action
		seed uint64
		o    *out
	}
	var h []step
	for n := 12; n > 0; n-- {
		a := pick(t.Rng, actions...)
		s := step{a, t.Uint64(), nil}
		s.o = a.do(w, s.seed)
		h = append(h, s)
		if d := firstDiff(before, dump(w, true)); d != "" {
			t.Failf("%s (arguments %x) changed its surroundings: %s", a.name, s.seed, d)
		}
		t.evals += len(before)
	}
	for j := len(h) - 1; j >= 0; j-- {
		s := h[j]
		what := fmt.Sprintf("%s (arguments %x), step %d of %d", s.a.name, s.seed, j, len(h))
		for _, b := range s.o.after() {
			t.Failf("%s: %s", what, b)
		}
		alone := s.a.do(newWorld(f, dir).load(), s.seed)
		t.Check(diffVals(s.o.vals, alone.vals) == "", "%s gives another result than alone: %s", what, diffVals(s.o.vals, alone.vals))
		t.Key("history %x %x", f.Seed, s.seed)
	}
}

// c22Files: every file, process or network system call made during the actions, as strace sees it.
func c22Files(t *T, i int) {
	strace, err := exec.LookPath("strace")
	if err != nil {
		t.Cover("strace is not there")
		return
	}
	dir := t.scratch()
	f := newFixture(t)
	b, _ := json.Marshal(f)
	fix := filepath.Join(dir, "fixture")
	if err := os.WriteFile(fix, b, 0600); err != nil {
		panic(err)
	}
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0700)
	self, _ := os.Executable()
	log := filepath.Join(dir, "trace")
	c := exec.Command(strace, "-f", "-q", "-o", log, "-e", "trace=%file,%network,execve,fork,vfork,ftruncate,fchmod,fchown", self, "acts", fix, work, fmt.Sprint(t.Uint64()))
	out, err := c.CombinedOutput()
	lines, rerr := os.Open(log)
	if rerr != nil {
		t.Cover("strace does not work here")
		return
	}
	defer lines.Close()
	if err != nil {
		if !strings.Contains(string(out), "acts done") {
			t.Cover("strace does not work here")
			return
		}
		t.Failf("actions under strace: %v: %s", err, out)
	}
	in, n, ownFile := false, 0, false
	sc := bufio.NewScanner(lines)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if strings.Contains(l, "/MON_BEGIN") {
			in, ownFile, n = true, strings.Contains(l, "/MON_BEGIN_FILE"), n+1
			continue
		}
		if strings.Contains(l, "/MON_END") {
			in = false
			continue
		}
		if !in || strings.Contains(l, "resumed>") || strings.Contains(l, "+++") || strings.Contains(l, "---") {
			continue
		}
		if strings.Contains(l, `"/proc/`) || strings.Contains(l, `"/sys/`) || strings.Contains(l, "zoneinfo") || strings.Contains(l, "localtime") { // the Go runtime
			continue
		}
		t.Eval()
		if strings.Contains(l, `"`+work+`/`) && ownFile {
			continue
		}
		t.Failf("a system call on a file or the network: %s", l)
	}
	t.Check(n >= len(actions), "only %d actions were traced", n)
	t.Cover("traced")
	t.Key("traced %d", i)
}

// actsMain runs every action once between marks that a trace shows.
func actsMain(a []string) {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fatal("%v", err)
	}
	f := &fixture{}
	if err := json.Unmarshal(b, f); err != nil {
		fatal("%v", err)
	}
	useSysReader(7)
	r := newRng("acts", a[2])
	for _, x := range actions {
		for n := 0; n < 3; n++ {
			w := newWorld(f, a[1]).load()
			mark := "/MON_BEGIN"
			if x.file {
				mark += "_FILE"
			}
			os.Lstat(mark)
			x.do(w, r.Uint64())
			os.Lstat("/MON_END")
		}
	}
	fmt.Println("acts done")
}
