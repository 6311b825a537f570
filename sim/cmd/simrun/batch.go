package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/rt"
	"verifsim/sc"
)

type batchCfg struct {
	prop, tier         string
	seed               uint64
	runs               int
	wall               float64
	outDir, evid, tmp  string
	race, known, sites string
	workers            int
	racing             bool
}

type share struct {
	sums  []*summary
	files []string
	err   string
	crash *File
	dead  int // runs in which all goroutines got stuck in real primitives
}

const raceEnv = "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3"

// command runs simrun (or its race build) with a time limit.
func command(bin string, limit time.Duration, args ...string) (out, errs []byte, exit int, timeout bool) {
	cmd := exec.Command(bin, args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{b: &se}
	cmd.Env = append(os.Environ(), raceEnv, "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, []byte(err.Error()), -1, false
	}
	t := time.AfterFunc(limit, func() { timeout = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	return so.Bytes(), se.Bytes(), cmd.ProcessState.ExitCode(), timeout
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func batch(c *batchCfg) int {
	start := time.Now()
	bin, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if c.prop == "C11" {
		if c.race == "" {
			fmt.Fprintln(os.Stderr, "simrun: C11 needs the race build")
			return 2
		}
		bin = c.race
	}
	dir, err := os.MkdirTemp(c.tmp, "run-"+c.prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	fmt.Printf("simrun: property %s, tier %s, VERIF_SEED %d, %d runs in %d workers\n", c.prop, c.tier, c.seed, c.runs, c.workers)
	shares := make([]share, c.workers)
	hybrid := (c.prop == "C23" || c.prop == "C26") && c.race != ""
	if hybrid {
		shares = make([]share, c.workers+2)
	}
	var wg sync.WaitGroup
	for k := range shares {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			if k < c.workers {
				c.share(bin, dir, k, &shares[k], start)
				return
			}
			// some runs in the race build
			d := *c
			d.workers, d.runs, d.racing = 2, c.runs/40+1, true
			d.share(c.race, dir, k-c.workers, &shares[k], start)
		}(k)
	}
	wg.Wait()
	total, samples := merge(shares)
	distinct := countHashes(shares)
	exit := 0
	var first *File
	for i := range shares {
		s := &shares[i]
		if s.err != "" {
			fmt.Fprintln(os.Stderr, "simrun:", s.err)
			exit = 2
		}
		if s.crash != nil && (first == nil || s.crash.Index < first.Index) {
			first = s.crash
		}
		for _, x := range s.sums {
			if x.NonDet != "" {
				fmt.Println("simrun: NOTE: not deterministic:", x.NonDet)
			}
			if x.Viol != nil && (first == nil || x.Viol.Index < first.Index) {
				first = x.Viol
			}
		}
	}
	for k, n := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (in %d runs)\n", c.prop, k, n)
	}
	viol := 0
	if first != nil {
		viol = 1
		path, ok := c.report(bin, dir, first)
		if !ok {
			// seen all the same: the code under test does something that the
			// simulator does not control
			fmt.Println("simrun: NOTE: the violation did not occur again when replayed")
		}
		fmt.Printf("run %d: %s\n", first.Index, first.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		exit = 1
	}
	if err := c.evidence(total, samples, distinct, time.Since(start).Seconds(), viol, shares); err != nil {
		fmt.Fprintln(os.Stderr, "simrun: evidence:", err)
		if exit == 0 {
			exit = 2
		}
	}
	if exit == 0 && total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "simrun: no runs")
		exit = 2
	}
	if exit == 0 {
		fmt.Printf("simrun: %s held in %d runs (%d distinct and non-trivial), %d preemptions, %.1f s\n", c.prop, total.Runs, distinct, total.Hot+total.Cold+total.OpB, time.Since(start).Seconds())
	}
	return exit
}

// share keeps one worker going, restarting it after a crash.
func (c *batchCfg) share(bin, dir string, k int, sh *share, start time.Time) {
	from := k
	for try := 0; ; try++ {
		progress := filepath.Join(dir, fmt.Sprintf("progress-%d-%d-%v", k, try, c.racing))
		hashes := filepath.Join(dir, fmt.Sprintf("hashes-%d-%d-%v", k, try, c.racing))
		sh.files = append(sh.files, hashes)
		left := c.wall - time.Since(start).Seconds()
		if left < 1 {
			return
		}
		out, errs, exit, timeout := command(bin, time.Duration((left+90)*float64(time.Second)), "worker", "-prop", c.prop, "-seed", fmt.Sprint(c.seed),
			"-from", fmt.Sprint(from), "-step", fmt.Sprint(c.workers), "-runs", fmt.Sprint(c.runs), "-progress", progress, "-hashes", hashes,
			"-wall", fmt.Sprint(left), "-known", c.known)
		if exit == 0 {
			var s summary
			if err := json.Unmarshal(bytes.TrimSpace(out), &s); err != nil {
				sh.err = fmt.Sprintf("worker %d: %v", k, err)
				return
			}
			if s.Viol != nil && c.racing {
				s.Viol.Race = true
			}
			if s.Viol != nil && s.Viol.racing() {
				s.Viol.Message += ": " + raceText(errs)
			}
			sh.sums = append(sh.sums, &s)
			return
		}
		b, err := os.ReadFile(progress)
		if err != nil || len(b) < 8 {
			sh.err = fmt.Sprintf("worker %d failed (exit %d): %s", k, exit, tail(errs))
			return
		}
		at := int(binary.LittleEndian.Uint64(b)) - 1
		if timeout {
			sh.err = fmt.Sprintf("worker %d: run %d did not end", k, at)
			return
		}
		// the process died: does that run do it again, on its own?
		_, errs2, exit2, timeout2 := command(bin, 90*time.Second, "one", "-prop", c.prop, "-seed", fmt.Sprint(c.seed), "-index", fmt.Sprint(at))
		if timeout2 || exit2 == 0 || exit2 == 1 {
			sh.err = fmt.Sprintf("worker %d died in run %d (exit %d), but not again (exit %d): %s", k, at, exit, exit2, tail(errs))
			return
		}
		if !bytes.Contains(errs2, []byte("fatal error:")) && !bytes.Contains(errs2, []byte("panic:")) && !bytes.Contains(errs2, []byte("SIG")) {
			sh.err = fmt.Sprintf("worker %d: run %d exits with %d: %s", k, at, exit2, tail(errs2))
			return
		}
		if bytes.Contains(errs2, []byte("all goroutines are asleep")) && c.prop != "C14" {
			// blocked in a primitive the simulator does not control: C14's business
			sh.dead++
			if sh.dead > 20 {
				sh.err = fmt.Sprintf("worker %d: clients keep blocking for ever in primitives the simulator does not control", k)
				return
			}
		} else {
			rs := runSeed(c.seed, c.prop, at)
			s, sd := sc.Generate(c.prop, rs)
			sh.crash = &File{Property: c.prop, Class: "crash", Key: "crash", Message: "the process died: " + head(errs2), Seed: c.seed, Index: at, Budget: sd.Budget, Script: s, Crash: true, Race: c.racing}
			return
		}
		from = at + c.workers
	}
}

func tail(b []byte) string {
	s := strings.TrimSpace(string(b))
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

func head(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "SIG") {
			return l
		}
	}
	return ""
}

// raceText extracts the two accesses from a race report.
func raceText(b []byte) string {
	var out []string
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") || strings.HasPrefix(t, "Atomic") {
			w := strings.Fields(t)
			what := w[0]
			if what == "Previous" && len(w) > 1 {
				what = "previous " + w[1]
			}
			for j := i + 1; j+1 < len(lines) && j < i+12; j += 2 {
				if strings.Contains(lines[j+1], "/ipv4/") || strings.Contains(lines[j+1], "/ipv6/") || strings.Contains(lines[j+1], "ipv4_") || strings.Contains(lines[j+1], "ipv6_") {
					fn := strings.TrimSpace(lines[j])
					what += " in " + fn[strings.LastIndex(fn, "/")+1:]
					break
				}
			}
			out = append(out, what)
			if len(out) == 2 {
				break
			}
		}
	}
	return strings.Join(out, ", ")
}

// report minimises the failing run, checks the replay in a fresh process, and
// returns the path of the replay file, and whether it fails when replayed.
func (c *batchCfg) report(bin, dir string, f *File) (string, bool) {
	os.MkdirAll(c.outDir, 0o755)
	path := filepath.Join(c.outDir, fmt.Sprintf("%s-%d-%d.json", c.prop, c.seed, f.Index))
	self, _ := os.Executable()
	if f.Crash {
		// record nothing more than the seed: the run kills its process
		f.Story = strings.Split(describe(f.Script), "\n")
		save(path, f)
		_, _, exit, _ := command(bin, 120*time.Second, "replay", "-file", path, "-sites", c.sites, "-racebin", c.race)
		return path, exit == 1
	}
	raw := filepath.Join(dir, "raw.json")
	save(raw, f)
	try := func(file string, n int) bool {
		for i := 0; i < n; i++ {
			out, _, exit, _ := command(self, 120*time.Second, "replay", "-file", file, "-sites", c.sites, "-racebin", c.race)
			if exit == 1 && bytes.Contains(out, []byte("VIOLATION property="+c.prop)) {
				return true
			}
		}
		return false
	}
	lim := 45.0
	if c.tier == "thorough" {
		lim = 120
	}
	small := filepath.Join(dir, "small.json")
	if b, err := os.ReadFile(raw); err == nil {
		os.WriteFile(small, b, 0o644)
	}
	command(self, time.Duration(lim*2+30)*time.Second, "minimise", "-file", small, "-wall", fmt.Sprint(lim), "-racebin", c.race)
	from, ok := raw, false
	for i, p := range []string{small, raw} {
		if try(p, 3+5*i) {
			from, ok = p, true
			break
		}
	}
	g := load(from)
	g.Story = tell(g, c.sites)
	save(path, g)
	*f = *g
	return path, ok
}

func tell(f *File, sitesFile string) []string {
	var sites []string
	if b, err := os.ReadFile(sitesFile); err == nil {
		json.Unmarshal(b, &sites)
	}
	out := strings.Split(strings.TrimSpace(describe(f.Script)), "\n")
	for _, p := range f.Pre {
		at := "?"
		if int(p.Site) < len(sites) {
			at = sites[p.Site]
		}
		l := fmt.Sprintf("operation %d is interrupted after %d steps (at %s); thread %d goes on", p.Op&(1<<20-1), p.Step, at, p.To)
		if p.Step == 0 {
			l = fmt.Sprintf("before operation %d, thread %d goes on", p.Op&(1<<20-1), p.To)
		}
		if p.Stall < 0 {
			l += "; the interrupted thread never runs again"
		} else if p.Stall > 0 {
			l += fmt.Sprintf("; the interrupted thread sleeps for %d operations", p.Stall)
		}
		out = append(out, l)
	}
	return append(out, f.Message)
}

func merge(shares []share) (*summary, []string) {
	t := &summary{Ops: map[string]int{}, Status: map[string]int{}, Faults: map[string]int{}, Foreign: map[string]int{}, Modes: map[string]int{}, Threads: map[string]int{}, Known: map[string]int{}, Reached: make([]byte, rt.Sites)}
	var samples []string
	add := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	for i := range shares {
		for _, s := range shares[i].sums {
			t.Runs += s.Runs
			t.Nontrivial += s.Nontrivial
			t.Steps += s.Steps
			t.Switches += s.Switches
			t.Hot += s.Hot
			t.Cold += s.Cold
			t.OpB += s.OpB
			t.Stalls += s.Stalls
			t.Clock += s.Clock
			t.Abandons += s.Abandons
			t.MidWrite += s.MidWrite
			t.Conflicts += s.Conflicts
			t.Rechk += s.Rechk
			t.Diffs += s.Diffs
			t.Cmp += s.Cmp
			t.Determ += s.Determ
			t.NonDets += s.NonDets
			t.Lin.Windows += s.Lin.Windows
			t.Lin.Searches += s.Lin.Searches
			t.Lin.Inconclusive += s.Lin.Inconclusive
			t.Lin.Unknown += s.Lin.Unknown
			t.MaxRatio = math.Max(t.MaxRatio, s.MaxRatio)
			for i, b := range s.Reached {
				t.Reached[i] |= b
			}
			add(t.Ops, s.Ops)
			add(t.Status, s.Status)
			add(t.Faults, s.Faults)
			add(t.Foreign, s.Foreign)
			add(t.Modes, s.Modes)
			add(t.Threads, s.Threads)
			add(t.Known, s.Known)
			samples = append(samples, s.Samples...)
		}
	}
	return t, samples
}

func countHashes(shares []share) int {
	var all []uint64
	for i := range shares {
		for _, f := range shares[i].files {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			for ; len(b) >= 8; b = b[8:] {
				all = append(all, binary.LittleEndian.Uint64(b))
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i := range all {
		if i == 0 || all[i] != all[i-1] {
			n++
		}
	}
	return n
}

func (c *batchCfg) evidence(t *summary, samples []string, distinct int, wall float64, viol int, shares []share) error {
	if c.evid == "" {
		return nil
	}
	if len(samples) > 3 {
		samples = samples[:3]
	}
	var sv []any
	for _, s := range samples {
		sv = append(sv, strings.Split(strings.TrimSpace(s), "\n"))
	}
	dead := 0
	for i := range shares {
		dead += shares[i].dead
	}
	faults := map[string]int{
		"preemption inside an operation, at a hot point":        t.Hot,
		"preemption inside an operation, at any statement":      t.Cold,
		"preemption between operations":                         t.OpB,
		"thread suspended for some operations":                  t.Stalls,
		"jump of the simulated clock":                           t.Clock,
		"thread suspended for ever inside an operation":         t.Abandons,
		"caller code panicked":                                  t.Faults["panic"],
		"caller code exited its goroutine":                      t.Faults["goexit"],
		"caller code re-entered the library":                    t.Faults["reenter"],
		"write interrupted by another thread between start/end": t.MidWrite,
		"write refused with a conflict":                         t.Conflicts,
	}
	real := "ipv4 and ipv6 packages built from /repo's working tree, with scheduling points inserted by an overlay"
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(c.sites), "level")); err == nil && strings.TrimSpace(string(b)) != "0" {
		real += "; the full instrumentation did not compile, so it is reduced to level " + strings.TrimSpace(string(b)) + " (instr -help)"
	}
	stub := "go statement and package sync inside the library (none on the unchanged tree) would be replaced by simulated ones"
	cov := map[string]any{
		"evaluations": t.Runs, "distinct_nontrivial": distinct, "rule": rule(c.prop), "samples": sv,
		"nontrivial_runs": t.Nontrivial,
		"runs_per_hour":   int(float64(t.Runs) / wall * 3600),
		"seeds_per_hour":  int(float64(t.Runs) / wall * 3600),
		"simulated_time": map[string]any{"unit": "scheduling points passed by client operations (the pinned code reads no clock; if it did, it would read the simulated one)",
			"steps": t.Steps, "context_switches": t.Switches},
		"faults_fired":             faults,
		"operations":               t.Ops,
		"outcomes":                 t.Status,
		"schedules":                t.Modes,
		"client_threads":           t.Threads,
		"linearizability":          map[string]int{"version_windows": t.Lin.Windows, "searches": t.Lin.Searches, "inconclusive": t.Lin.Inconclusive, "effect_unknown": t.Lin.Unknown},
		"immutables_rechecked":     t.Rechk,
		"diffs_checked":            t.Diffs,
		"comparator_calls_in_diff": t.Cmp,
		"determinism": map[string]any{"runs_executed_three_times": t.Determ, "executions_that_differed": t.NonDets,
			"rule": "same seed executed again and its recorded schedule replayed: event hash, trace and history length must agree; a mismatch is reported"},
		"violations_of_other_properties_seen": t.Foreign,
		"blocked_in_uncontrolled_primitives":  dead,
		"components": map[string]string{"real": real, "stubbed": stub,
			"oracle": "independent models in /verif/sim/md and /verif/sim/sc" + map[string]string{"C11": "; data races by ThreadSanitizer with the scheduler's hand-offs hidden from it", "C23": "; data races likewise, in a part of the runs", "C26": "; data races by ThreadSanitizer, in a part of the runs"}[c.prop]},
	}
	if r := reached(c.sites, t.Reached); r != nil {
		cov["scheduling_points_in_library"] = r
	}
	if len(t.Known) > 0 {
		cov["known_findings"] = t.Known
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"scheduling points stand before every statement and at dereferences of shared roots; expressions between two points run undivided",
			"the models in /verif/sim/md are right",
			"a clean batch is evidence, not proof: runs are sampled",
		}}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(c.evid), 0o755)
	return os.WriteFile(c.evid, append(b, '\n'), 0o644)
}

// reached tells which scheduling points the runs passed, by file of the
// library, and which places they never came to.
func reached(sitesFile string, bits []byte) map[string]any {
	var sites []string
	b, err := os.ReadFile(sitesFile)
	if err != nil || json.Unmarshal(b, &sites) != nil {
		return nil
	}
	files := map[string]map[string]int{}
	never := map[string][]int{}
	for i := 1; i < len(sites) && i < len(bits); i++ {
		f, l, _ := strings.Cut(sites[i], ":")
		if files[f] == nil {
			files[f] = map[string]int{}
		}
		files[f]["points"]++
		if bits[i]&1 != 0 {
			files[f]["passed"]++
		} else {
			n := 0
			fmt.Sscan(l, &n)
			never[f] = append(never[f], n)
		}
		if bits[i]&2 != 0 {
			files[f]["preempted at"]++
		}
	}
	lines := map[string]string{}
	for f, n := range never {
		if files[f]["passed"] == 0 {
			lines[f] = "all"
			continue
		}
		sort.Ints(n)
		var s []string
		for i, x := range n {
			if i == 0 || x != n[i-1] {
				s = append(s, fmt.Sprint(x))
			}
		}
		lines[f] = strings.Join(s, " ")
	}
	return map[string]any{"by_file": files, "lines_never_reached": lines}
}
