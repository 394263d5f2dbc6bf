// mon runs the monitors of one property against github.com/mmdet/mcrypto.
//
//	mon check ID            supervise a worker over all cases, write evidence, print VIOLATION lines
//	mon replay FILE         run the case of a replay file again
//	mon worker ...          internal

//go:debug default=go1.20
package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		workerMain(os.Args[2:])
	case "acts":
		actsMain(os.Args[2:])
	case "hist":
		histMain(os.Args[2:])
	case "alone":
		aloneMain(os.Args[2:])
	case "cold":
		coldMain(os.Args[2:])
	case "israce":
		p := props[os.Args[2]]
		fmt.Println(p != nil && p.Race)
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mon check ID | replay FILE")
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("MON_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func envTier() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1
	}
	return 0
}

func envSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// ---- worker process: worker ID tier seed dir [g:i [cpu]]

func workerMain(a []string) {
	p := props[a[0]]
	tier, _ := strconv.Atoi(a[1])
	seed, _ := strconv.ParseInt(a[2], 10, 64)
	dir := a[3]
	only := ""
	if len(a) > 4 {
		only = a[4]
	}
	if len(a) > 5 {
		cpu, _ := strconv.ParseUint(a[5], 10, 64)
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: cpu, Max: cpu + 1})
	}
	if !raceBuild {
		lim := uint64(14) << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	start := time.Now()
	w := &worker{p: p, tier: tier, seed: seed, keys: map[[16]byte]struct{}{}, cov: map[string]int64{},
		samples: map[string][]string{}, groups: map[string]int64{}}
	w.violOut, _ = os.OpenFile(filepath.Join(dir, "viol"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	w.slots, _ = os.OpenFile(filepath.Join(dir, "slots"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	useSysReader(seed)
	log.SetFlags(0)
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if os.Getenv("MON_TIMES") != "" && only == "" {
		w.times = map[string]time.Duration{}
		defer func() { os.WriteFile(os.Getenv("MON_TIMES"), []byte(fmt.Sprintln(w.times)), 0644) }()
	}
	w.run(par, only)
	b, err := json.Marshal(w.result(start))
	if err != nil {
		fatal("result: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.tmp"), b, 0644); err != nil {
		fatal("result: %v", err)
	}
	os.Rename(filepath.Join(dir, "result.tmp"), filepath.Join(dir, "result"))
}

func useSysReader(seed int64) { crand.Reader = &sysReader{rng: newRng("sysfallback", seed)} }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mon: "+f+"\n", a...)
	os.Exit(2)
}

// ---- supervisor

type slotRec struct{ g, i, seq, lim int }

func readSlots(path string) []slotRec {
	b, _ := os.ReadFile(path)
	var out []slotRec
	for off := 0; off+1 < len(b); off += slotSize {
		end := min(off+slotSize, len(b))
		f := strings.Fields(string(bytes.TrimRight(b[off:end], "\x00")))
		if len(f) == 4 {
			var r slotRec
			r.g, _ = strconv.Atoi(f[0])
			r.i, _ = strconv.Atoi(f[1])
			r.seq, _ = strconv.Atoi(f[2])
			r.lim, _ = strconv.Atoi(f[3])
			out = append(out, r)
		}
	}
	return out
}

type outcome struct {
	res     *Result
	viol    []Violation // streamed
	exit    error
	hung    []slotRec // cases that ran past the watchdog
	flight  []slotRec // cases in flight when the worker died
	stderr  string
	stdout  string
	races   []string
	timeout bool
}

// runWorker runs one worker process and watches it.
func runWorker(id string, tier int, seed int64, only string, cpu int) *outcome {
	dir, err := os.MkdirTemp("", "mon")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	args := []string{"worker", id, strconv.Itoa(tier), strconv.FormatInt(seed, 10), dir}
	if only != "" {
		args = append(args, only)
		if cpu > 0 {
			args = append(args, strconv.Itoa(cpu))
		}
	}
	self, _ := os.Executable()
	c := exec.Command(self, args...)
	so, _ := os.Create(filepath.Join(dir, "stdout"))
	se, _ := os.Create(filepath.Join(dir, "stderr"))
	c.Stdout, c.Stderr = so, se
	c.Dir = dir
	c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"), "MON_DIR="+dir,
		"GOTRACEBACK=all", "TMPDIR="+dir)
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	o := &outcome{}
	seen := map[int]time.Time{} // seq -> first seen
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case o.exit = <-done:
			break loop
		case now := <-tick.C:
			for _, s := range readSlots(filepath.Join(dir, "slots")) {
				if _, ok := seen[s.seq]; !ok {
					seen[s.seq] = now
				}
				// Only a reason to look closer: confirmed by CPU time in a process of its own.
				if only == "" && now.Sub(seen[s.seq]) > time.Duration(s.lim)*3*time.Second {
					o.hung = append(o.hung, s)
				}
			}
			if len(o.hung) > 0 {
				c.Process.Kill()
				o.exit = <-done
				break loop
			}
		}
	}
	so.Close()
	se.Close()
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	o.stderr = string(b)
	b, _ = os.ReadFile(filepath.Join(dir, "stdout"))
	o.stdout = string(b)
	if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil {
		o.res = &Result{}
		json.Unmarshal(b, o.res)
	}
	if f, err := os.Open(filepath.Join(dir, "viol")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var v Violation
			if json.Unmarshal(sc.Bytes(), &v) == nil {
				o.viol = append(o.viol, v)
			}
		}
		f.Close()
	}
	o.flight = readSlots(filepath.Join(dir, "slots"))
	rl, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range rl {
		b, _ := os.ReadFile(f)
		o.races = append(o.races, strings.Split(string(b), "==================\n")...)
	}
	return o
}

func cpuKilled(err error) bool {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	ws, ok := ee.Sys().(syscall.WaitStatus)
	return ok && ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGXCPU)
}

func usedCPU(c *exec.ExitError) float64 {
	return (c.UserTime() + c.SystemTime()).Seconds()
}

func check(id string) int {
	p := props[id]
	if p == nil {
		fatal("unknown property %s", id)
	}
	tier, seed := envTier(), envSeed()
	start := time.Now()
	mk := func(g, i int, what string) Violation {
		name := "?"
		if g >= 0 && g < len(p.Groups) {
			name = p.Groups[g].Name
		}
		return Violation{Property: id, Tier: tierName(tier), Seed: seed, Group: name, Index: i, What: what}
	}
	var o *outcome
	var viol []Violation
	for attempt := 0; ; attempt++ {
		o = runWorker(id, tier, seed, "", 0)
		viol = append([]Violation{}, o.viol...)
		if o.res != nil {
			break
		}
		if len(o.hung) > 0 {
			// Does any of them really use that much CPU?
			for _, s := range o.hung {
				c := runWorker(id, tier, seed, fmt.Sprintf("%d:%d", s.g, s.i), s.lim)
				if c.res == nil && cpuKilled(c.exit) {
					if ee, ok := c.exit.(*exec.ExitError); ok && usedCPU(ee) >= float64(s.lim)-1 {
						viol = append(viol, mk(s.g, s.i, fmt.Sprintf("does not terminate: a case that takes milliseconds used %d s of CPU", s.lim)))
						break
					}
				}
			}
			if len(viol) > 0 {
				break
			}
			// A loaded machine. Once more.
			if attempt < 1 {
				continue
			}
			fmt.Fprintf(os.Stderr, "mon: inconclusive: %d cases were slow but finished alone\n", len(o.hung))
			return 3
		}
		// The worker died. Which case was it?
		tail := o.stderr
		if i := strings.Index(tail, "fatal error:"); i >= 0 {
			tail = tail[i:]
		} else if i := strings.Index(tail, "panic:"); i >= 0 {
			tail = tail[i:]
		}
		if len(tail) > 4000 {
			tail = tail[:4000]
		}
		found := false
		for _, s := range o.flight {
			c := runWorker(id, tier, seed, fmt.Sprintf("%d:%d", s.g, s.i), s.lim)
			if c.res == nil {
				viol = append(viol, mk(s.g, s.i, fmt.Sprintf("the process died (%v):\n%s", c.exit, head(c.stderr, 4000))))
				found = true
				break
			}
			viol = append(viol, c.res.Violations...)
		}
		if !found && len(viol) == 0 {
			if strings.Contains(tail, "mcrypto/") {
				g, i := -1, 0
				if len(o.flight) > 0 {
					g, i = o.flight[0].g, o.flight[0].i
				}
				viol = append(viol, mk(g, i, fmt.Sprintf("the process died (%v) inside the library:\n%s", o.exit, tail)))
				break
			}
			if attempt < 1 {
				continue
			}
			fmt.Fprintf(os.Stderr, "mon: worker failed: %v\n%s\n", o.exit, tail)
			return 3
		}
		break
	}
	races := 0
	seenRace := map[string]bool{}
	for _, r := range o.races {
		if !strings.Contains(r, "DATA RACE") {
			continue
		}
		races++
		if !strings.Contains(r, "github.com/mmdet/mcrypto") {
			continue
		}
		k := raceKey(r)
		if !seenRace[k] {
			seenRace[k] = true
			viol = append(viol, Violation{Property: id, Tier: tierName(tier), Seed: seed, Group: "race", What: head(r, 5000)})
		}
	}
	if p.Race && races > 0 && len(seenRace) == 0 && len(viol) == 0 {
		fmt.Fprintf(os.Stderr, "mon: race outside the library:\n%s\n", head(strings.Join(o.races, "\n"), 5000))
		return 3
	}
	if id == "C22" && o.res != nil && (o.stdout != "" || o.stderr != "") {
		viol = append(viol, Violation{Property: id, Tier: tierName(tier), Seed: seed, Group: "output", What: "written to stdout or stderr: " + head(o.stdout+o.stderr, 2000)})
	}
	code := 0
	if len(viol) > 0 {
		code = 1
		rd := filepath.Join(verifDir(), "replay")
		os.MkdirAll(rd, 0755)
		printed := map[string]bool{}
		for _, v := range viol {
			fn := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", id, v.Group, v.Index))
			if printed[fn] {
				continue
			}
			printed[fn] = true
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(fn, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
			fmt.Printf("  %s[%d]: %s\n", v.Group, v.Index, strings.ReplaceAll(head(v.What, 1500), "\n", "\n  "))
		}
	}
	if o.res != nil && code == 0 && (o.res.Evals == 0 || o.res.Distinct == 0) {
		fmt.Fprintln(os.Stderr, "mon: nothing was observed")
		return 3
	}
	writeEvidence(p, tier, seed, o, viol, races, time.Since(start).Seconds())
	if o.res != nil {
		fmt.Printf("%s: %d cases, %d oracle decisions, %d distinct, %d violations, %.1f s\n", id, o.res.Cases, o.res.Evals, o.res.Distinct, len(viol), time.Since(start).Seconds())
	}
	return code
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// raceKey identifies a race by the functions in its report.
func raceKey(r string) string {
	var fs []string
	for _, l := range strings.Split(r, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/mmdet/mcrypto") {
			fs = append(fs, l)
		}
	}
	if len(fs) > 4 {
		fs = fs[:4]
	}
	return strings.Join(fs, "|")
}

func writeEvidence(p *Prop, tier int, seed int64, o *outcome, viol []Violation, races int, wall float64) {
	cov := map[string]any{"rule": p.Rule, "evaluations": 0, "distinct_nontrivial": 0, "samples": []string{}}
	if r := o.res; r != nil {
		cov["evaluations"] = r.Evals
		cov["distinct_nontrivial"] = r.Distinct
		cov["samples"] = r.Samples
		cov["cases"] = r.Cases
		cov["cases_per_group"] = r.Groups
		cov["situations_reached"] = r.Cov
	}
	if p.Race {
		cov["race_reports"] = races
	}
	ev := map[string]any{
		"property": p.ID, "tier": tierName(tier), "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": len(viol),
		"assumptions": []string{"held on the executions counted here; nothing is claimed about inputs, histories or schedules that were not run"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0755)
	if err := os.WriteFile(filepath.Join(d, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal("evidence: %v", err)
	}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	p := props[v.Property]
	if p == nil {
		fatal("unknown property %s", v.Property)
	}
	tier := 0
	if v.Tier == "thorough" {
		tier = 1
	}
	for gi, g := range p.Groups {
		if g.Name == v.Group {
			o := runWorker(v.Property, tier, v.Seed, fmt.Sprintf("%d:%d", gi, v.Index), 120)
			if o.res == nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n  the process died (%v)\n%s\n", v.Property, file, o.exit, head(o.stderr, 4000))
				return 1
			}
			for _, x := range o.res.Violations {
				fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", v.Property, file, x.What)
				for _, l := range x.Log {
					fmt.Println("  " + l)
				}
			}
			if len(o.res.Violations) > 0 {
				return 1
			}
			fmt.Println("not reproduced")
			return 0
		}
	}
	fmt.Println("this report comes from the whole run (" + v.Group + "); running the check again")
	os.Setenv("VERIF_SEED", strconv.FormatInt(v.Seed, 10))
	os.Setenv("VERIF_TIER", v.Tier)
	return check(v.Property)
}
