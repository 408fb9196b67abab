package pbt

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Per-case limits. A case normally takes milliseconds; a case that burns this
// much CPU time (not wall time) in a fresh process twice is a hang.
const (
	caseCPULimit = 40 * time.Second
	memLimit     = 3 << 30
	exitHang     = 41
	exitMem      = 42
	exitRace     = 66 // of the race detector, as set by run.sh
	// A case stuck for this long without using the CPU is a deadlock.
	stuckLimit = 100 * time.Second
)

type workerResult struct {
	Evals    int
	Discards int
	Nontriv  int
	Hashes   []uint64 // of distinct non-trivial cases
	Labels   map[string]int
	Samples  []string
	Hits     map[string]string
	Fail     *failRecord
}

type failRecord struct {
	Index   int
	Choices []uint64
	Orig    []uint64 // before shrinking
	From    int      // first case of the worker process
	Worker  int
	Msg     string
	Render  []string
}

// Replay is the replay file format.
type Replay struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Choices  []uint64 `json:"choices,omitempty"` // absent: regenerate from seed and index
	// If set, the failure needs the state left by previous cases: all those
	// of the worker process are run first.
	History *caseHistory `json:"history,omitempty"`
	Message string       `json:"message"`
	Case    []string     `json:"case,omitempty"`
	Command string       `json:"command"`
}

type caseHistory struct {
	From    int `json:"from"`
	Worker  int `json:"worker"`
	Workers int `json:"workers"`
}

// Main runs the property named on the command line.
func Main(props []*Prop) {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "directory of the framework")
	replay := flag.String("replay", "", "replay file")
	cases := flag.Int("cases", 0, "override number of cases")
	workers := flag.Int("workers", 8, "worker processes")
	worker := flag.Int("worker", -1, "(internal) run as worker")
	from := flag.Int("from", 0, "(internal) first case index")
	one := flag.Int("one", -1, "run a single case index and print it")
	status := flag.String("status", "", "(internal) status file")
	evid := flag.String("evidence", "", "evidence file")
	budget := flag.Int("budget", 0, "stop starting cases after this many seconds")
	flag.Parse()

	var p *Prop
	for _, c := range props {
		if c.ID == *id {
			p = c
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	total := p.Quick
	if *tier == "thorough" {
		total = p.Deep
	}
	if *cases > 0 {
		total = *cases
	}
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 720
		}
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"), p.ID)

	switch {
	case *replay != "":
		os.Exit(runReplay(p, known, *replay))
	case *one >= 0:
		os.Exit(runSingle(p, known, *seed, *one))
	case *worker >= 0:
		runWorker(p, known, *seed, *worker, *workers, *from, total, *status, *budget)
	default:
		os.Exit(supervise(p, *tier, *seed, total, *workers, *budget, *verif, *evid))
	}
}

// loadKnown reads the keys listed for a property. Lines have the form
//
//	KNOWN-FINDING: property=<id> key=<key> <description>
func loadKnown(path, id string) map[string]bool {
	known := map[string]bool{}
	data, err := os.ReadFile(path)
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.Fields(line)
		if len(f) >= 3 && f[0] == "KNOWN-FINDING:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			known[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return known
}

func runReplay(p *Prop, known map[string]bool, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(data, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limits(nil)
	var t *T
	if h := r.History; h != nil {
		for i := h.Worker; i < r.Index; i += h.Workers {
			if i >= h.From {
				markCase()
				runOnce(p, newGen(CaseSeed(r.Seed, p.ID, i), i))
			}
		}
		markCase()
	}
	if r.Choices != nil {
		t = newReplay(r.Choices)
	} else {
		t = newGen(CaseSeed(r.Seed, p.ID, r.Index), r.Index)
	}
	return report(p, known, t, path)
}

func runSingle(p *Prop, known map[string]bool, seed int64, index int) int {
	limits(nil)
	return report(p, known, newGen(CaseSeed(seed, p.ID, index), index), "-")
}

func report(p *Prop, known map[string]bool, t *T, path string) int {
	t.verbose, t.alone = true, true
	t.known = known
	o := runOnce(p, t)
	for _, l := range t.log {
		fmt.Println(l)
	}
	if o.failed {
		fmt.Printf("FAILED: %s\nVIOLATION property=%s replay=%s\n", o.msg, p.ID, path)
		return 1
	}
	fmt.Printf("ok nontrivial=%v discard=%v labels=%v\n", t.nontriv, o.discard, t.labels)
	return 0
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var caseStart struct {
	sync.Mutex
	cpu  time.Duration
	wall time.Time
}

func markCase() {
	c := cpuTime()
	caseStart.Lock()
	caseStart.cpu = c
	caseStart.wall = time.Now()
	caseStart.Unlock()
}

// limits installs the per-case CPU and memory limits of this process.
func limits(onExit func(code int)) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	markCase()
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			caseStart.Lock()
			start, wall := caseStart.cpu, caseStart.wall
			caseStart.Unlock()
			used := cpuTime() - start
			if used > caseCPULimit*cpuScale() || used < 2*time.Second && time.Since(wall) > stuckLimit {
				fmt.Fprintln(os.Stderr, "case exceeds the CPU time limit, or it's stuck")
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(exitHang)
			}
			if rss() > memLimit {
				fmt.Fprintln(os.Stderr, "case exceeds the memory limit")
				os.Exit(exitMem)
			}
		}
	}()
}

// CPUScale multiplies the CPU limit, for bodies that use several threads.
var CPUScale time.Duration = 1

func cpuScale() time.Duration { return CPUScale }

func rss() int64 {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func runWorker(p *Prop, known map[string]bool, seed int64, worker, workers, from, total int, status string, budget int) {
	limits(nil)
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	var sf *os.File
	if status != "" {
		f, err := os.OpenFile(status, os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		sf = f
	}
	res := workerResult{Labels: map[string]int{}, Hits: map[string]string{}}
	seen := map[uint64]bool{}
	buf := make([]byte, 0, 32)
	for i := worker; i < total; i += workers {
		if i < from {
			continue
		}
		if time.Now().After(deadline) {
			break
		}
		if sf != nil {
			buf = append(buf[:0], fmt.Sprintf("%-20d", i)...)
			sf.WriteAt(buf, 0)
		}
		markCase()
		t := newGen(CaseSeed(seed, p.ID, i), i)
		t.known = known
		o := runOnce(p, t)
		if o.discard {
			res.Discards++
			continue
		}
		res.Evals++
		for k, v := range t.labels {
			if v > 0 {
				res.Labels[k]++
			}
		}
		for k, v := range t.hits {
			if _, ok := res.Hits[k]; !ok {
				res.Hits[k] = v
			}
		}
		if t.nontriv {
			h := caseHash(t.rec)
			if !seen[h] {
				seen[h] = true
				res.Nontriv++
				if len(res.Samples) < 2 && res.Nontriv%3 == 1 && !o.failed {
					markCase()
					vt := newReplay(t.rec)
					vt.verbose, vt.known = true, known
					runOnce(p, vt)
					s := strings.Join(vt.log, "\n")
					if len(s) > 1500 {
						s = s[:1500] + " ..."
					}
					res.Samples = append(res.Samples, fmt.Sprintf("case %d (%d choices):\n%s", i, len(t.rec), s))
				}
			}
		}
		if o.failed {
			deadline := time.Now().Add(25 * time.Second)
			stop := func() bool { markCase(); return time.Now().After(deadline) }
			best, msg := shrink(inProcess(p, known), t.rec, 6000, stop)
			// confirm and render
			markCase()
			vt := newReplay(best)
			vt.verbose, vt.known = true, known
			ro := runOnce(p, vt)
			if !ro.failed { // not reproducible when shrunk: keep the original
				best, msg = t.rec, o.msg
				vt = newReplay(best)
				vt.verbose, vt.known = true, known
				ro = runOnce(p, vt)
			}
			if ro.failed {
				msg = ro.msg
			} else if msg == "" {
				msg = o.msg
			}
			res.Fail = &failRecord{Index: i, Choices: best, Orig: t.rec, From: from, Worker: worker, Msg: msg, Render: vt.log}
			break
		}
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(&res)
	w.Flush()
	os.Exit(0)
}

func supervise(p *Prop, tier string, seed int64, total, workers, budget int, verif, evid string) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "ggfntverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	base := []string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-verif", verif,
		"-cases", fmt.Sprint(total), "-workers", fmt.Sprint(workers), "-budget", fmt.Sprint(budget)}

	type wres struct {
		res   []workerResult
		crash *Replay
		err   error
	}
	out := make([]wres, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := 0
			for attempt := 0; attempt < 4; attempt++ {
				st := filepath.Join(scratch, fmt.Sprintf("status%d", w))
				os.Remove(st)
				args := append(append([]string{}, base...), "-worker", fmt.Sprint(w), "-from", fmt.Sprint(from), "-status", st)
				cmd := exec.Command(self, args...)
				cmd.Env = append(os.Environ(), "GOMAXPROCS="+workerProcs(), "TMPDIR="+scratch)
				var errb limitBuf
				cmd.Stderr = &errb
				data, err := cmd.Output()
				if err == nil {
					var r workerResult
					if jerr := json.Unmarshal(data, &r); jerr != nil {
						out[w].err = jerr
						return
					}
					out[w].res = append(out[w].res, r)
					return
				}
				// the worker died: find the case and confirm it in a fresh process
				sdata, _ := os.ReadFile(st)
				idx, perr := strconv.Atoi(strings.TrimSpace(string(sdata)))
				if perr != nil {
					out[w].err = fmt.Errorf("worker died before its first case: %v\n%s", err, errb.String())
					return
				}
				if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == exitRace || strings.Contains(errb.String(), "fatal error: concurrent map")) {
					// races depend on the schedule, but they are never false alarms
					out[w].crash = &Replay{Property: p.ID, Seed: seed, Index: idx,
						Message: "data race:\n" + firstLines(errb.String(), 60)}
					return
				}
				cargs := append(append([]string{}, base...), "-one", fmt.Sprint(idx))
				c2 := exec.Command(self, cargs...)
				c2.Env = append(os.Environ(), "GOMAXPROCS="+workerProcs(), "TMPDIR="+scratch)
				var out2, err2 limitBuf
				c2.Stdout, c2.Stderr = &out2, &err2
				e2 := c2.Run()
				if e2 != nil {
					msg := "the process running the case died: " + e2.Error()
					if ee, ok := e2.(*exec.ExitError); ok {
						switch ee.ExitCode() {
						case 1:
							msg = "case fails when run alone"
						case exitHang:
							msg = fmt.Sprintf("case does not terminate within %v of CPU time, or it's stuck", caseCPULimit*cpuScale())
						case exitMem:
							msg = "case uses more than 3 GiB of memory"
						}
					}
					out[w].crash = &Replay{Property: p.ID, Seed: seed, Index: idx,
						Message: msg + "\n" + firstLines(err2.String(), 25) + firstLines(out2.String(), 40)}
					return
				}
				fmt.Fprintf(os.Stderr, "note: worker %d died at case %d (%v) but the case passes alone\n%s\n", w, idx, err, firstLines(errb.String(), 10))
				from = idx + 1
			}
			out[w].err = fmt.Errorf("worker %d keeps dying", w)
		}()
	}
	wg.Wait()

	evals, discards, nontriv := 0, 0, 0
	distinct := map[uint64]bool{}
	labels := map[string]int{}
	hits := map[string]string{}
	var samples []string
	var fail *Replay
	var record *failRecord
	for w := range out {
		if out[w].err != nil {
			fmt.Fprintln(os.Stderr, "error:", out[w].err)
			return 2
		}
		for _, r := range out[w].res {
			evals += r.Evals
			discards += r.Discards
			nontriv += r.Nontriv
			for _, h := range r.Hashes {
				distinct[h] = true
			}
			for k, v := range r.Labels {
				labels[k] += v
			}
			for k, v := range r.Hits {
				hits[k] = v
			}
			if len(samples) < 4 {
				samples = append(samples, r.Samples...)
			}
			if r.Fail != nil && (fail == nil || r.Fail.Index < fail.Index) {
				fail = &Replay{Property: p.ID, Seed: seed, Index: r.Fail.Index, Choices: r.Fail.Choices, Message: r.Fail.Msg, Case: r.Fail.Render}
				record = r.Fail
			}
		}
		if c := out[w].crash; c != nil {
			evals++
			if fail == nil || c.Index < fail.Index {
				fail, record = c, nil
			}
		}
	}
	for _, k := range sortedKeys(hits) {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", p.ID, k, strings.ReplaceAll(hits[k], "\n", " | "))
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	if record != nil {
		settle(fail, record, workers, func(r *Replay) (bool, string) {
			path := filepath.Join(scratch, "candidate.json")
			data, _ := json.Marshal(r)
			if os.WriteFile(path, data, 0o644) != nil {
				return false, ""
			}
			cmd := exec.Command(self, append(append([]string{}, base...), "-replay", path)...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS="+workerProcs(), "TMPDIR="+scratch)
			var o limitBuf
			cmd.Stdout, cmd.Stderr = &o, &o
			return cmd.Run() != nil, o.String()
		})
	}
	if evid != "" {
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
				"samples": samples, "classes": labels, "discarded": discards, "cases_requested": total,
			},
			"wall_s": time.Since(start).Seconds(), "violations": violations,
		}
		if len(p.Assume) > 0 {
			ev["assumptions"] = p.Assume
		}
		data, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evid), 0o755)
		if err := os.WriteFile(evid, append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs\n", p.ID, tier, seed, evals, len(distinct), discards, time.Since(start).Seconds())
	for _, k := range sortedKeys(labels) {
		fmt.Printf("  %-40s %d\n", k, labels[k])
	}
	if fail != nil {
		path := filepath.Join(verif, "evidence", "replay-"+p.ID+".json")
		fail.Command = fmt.Sprintf("bash run.sh %s quick --replay %s", p.ID, path)
		data, _ := json.MarshalIndent(fail, "", " ")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, append(data, '\n'), 0o644)
		for i, l := range fail.Case {
			if i > 60 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("FAILED (case %d): %s\n", fail.Index, fail.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	return 0
}

// settle makes sure that a replay fails in a process of its own; if what the
// worker shrank doesn't, because some state outlives the cases, it shrinks
// again running each candidate in a new process.
func settle(fail *Replay, rec *failRecord, workers int, run func(r *Replay) (failed bool, output string)) {
	if ok, _ := run(fail); ok {
		return
	}
	message := func(out string) {
		if i := strings.Index(out, "FAILED: "); i >= 0 {
			fail.Case = strings.Split(strings.TrimSpace(out[:i]), "\n")
			fail.Message = strings.TrimPrefix(out[i:], "FAILED: ")
			if j := strings.Index(fail.Message, "\nVIOLATION"); j >= 0 {
				fail.Message = fail.Message[:j]
			}
		}
	}
	fail.Choices = rec.Orig
	if ok, _ := run(fail); ok {
		deadline := time.Now().Add(30 * time.Second)
		best, _ := shrink(func(cand []uint64) ([]uint64, bool, string) {
			c := *fail
			c.Choices = cand
			ok, _ := run(&c)
			return cand, ok, ""
		}, rec.Orig, 6000, func() bool { return time.Now().After(deadline) })
		fail.Choices = best
		_, out := run(fail)
		message(out)
		return
	}
	fail.Choices = nil
	fail.History = &caseHistory{From: rec.From, Worker: rec.Worker, Workers: workers}
	if ok, out := run(fail); ok {
		message(out)
		return
	}
	fail.Message += "\n(this didn't fail again when repeated)"
}

func workerProcs() string {
	if CPUScale > 1 {
		return "8"
	}
	return "2"
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

type limitBuf struct{ b []byte }

func (l *limitBuf) Write(p []byte) (int, error) {
	if len(l.b) < 1<<16 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limitBuf) String() string { return string(l.b) }
