// Command simrun searches for violations of one property by simulation.
//
//	simrun batch    the check: many runs in worker processes, then evidence
//	simrun worker   (internal) a share of the runs
//	simrun one      a single run by index or from a file
//	simrun replay   a replay file: exit 1 and a VIOLATION line if it fails again
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"verifsim/h4"
	"verifsim/h6"
	"verifsim/rt"
	"verifsim/sc"
)

// outcome of one run.
type outcome struct {
	Viol  []sc.Violation
	Hist  *sc.Hist
	Sim   *rt.Sim
	Races int
}

// racy is the property that a data race violates.
func racy(s *sc.Script) string {
	switch s.Prop {
	case "C23", "C26":
		return s.Prop
	}
	return "C11"
}

// racing tells whether a file needs the race build.
func (f *File) racing() bool { return f.Property == "C11" || f.Race }

func execute(s *sc.Script, cfg rt.Config, st *sc.Stats) outcome {
	var o outcome
	before := rt.RaceErrors()
	if s.Fam == 6 {
		o.Hist, o.Sim = h6.Run(s, cfg)
	} else {
		o.Hist, o.Sim = h4.Run(s, cfg)
	}
	if rt.RaceBuild {
		if n := rt.RaceErrors() - before; n > 0 {
			o.Races = n
			o.Viol = append(o.Viol, sc.Violation{Prop: racy(s), Class: "race", Op: -1, Key: "race", Msg: fmt.Sprintf("%d data race(s)", n)})
		}
		return o
	}
	o.Viol = sc.Check(o.Hist, st)
	if s.Iso && o.Sim != nil {
		// the same threads one at a time
		for t, ops := range s.Threads {
			if len(ops) == 0 {
				continue
			}
			var h *sc.Hist
			if s.Fam == 6 {
				h, _ = h6.Run(s.Alone(t), replayConfig(nil, cfg.Budget))
			} else {
				h, _ = h4.Run(s.Alone(t), replayConfig(nil, cfg.Budget))
			}
			if v := sc.Influence(o.Hist, h, t); v != nil {
				o.Viol = append(o.Viol, *v)
			}
		}
	}
	if s.Vals && o.Sim != nil {
		for _, t := range o.Hist.Stuck {
			o.Viol = append(o.Viol, sc.Violation{Prop: "C26", Class: "blocked", Op: -1, Key: "blocked", Msg: fmt.Sprintf("thread %d is blocked for ever in a function of a value", t)})
		}
		for _, r := range o.Hist.Recs {
			if r.Op.K != sc.VCall {
				continue
			}
			var h *sc.Hist
			if s.Fam == 6 {
				h, _ = h6.Run(s.Only(r.Th, r.Op), replayConfig(nil, cfg.Budget))
			} else {
				h, _ = h4.Run(s.Only(r.Th, r.Op), replayConfig(nil, cfg.Budget))
			}
			if v := sc.Depends(r, h); v != nil {
				o.Viol = append(o.Viol, *v)
			}
		}
	}
	return o
}

func config(sd sc.Sched, seed uint64) rt.Config {
	return rt.Config{Seed: sc.Mix(seed, 4711), HotP: sd.HotP, OpP: sd.OpP, ColdMean: sd.ColdMean, StallP: sd.StallP,
		AbandonP: sd.AbandonP, StallLen: sd.StallLen, MaxPre: sd.MaxPre, Victim: sd.Victim, Budget: sd.Budget}
}

func replayConfig(pre []rt.Preempt, budget uint64) rt.Config {
	return rt.Config{Replay: true, Pre: pre, Budget: budget, MaxPre: 1 << 30}
}

func runSeed(base uint64, prop string, index int) uint64 {
	h := uint64(0)
	for _, c := range []byte(prop) {
		h = h*131 + uint64(c)
	}
	return sc.Mix(base, h, uint64(index))
}

// File is a replay file.
type File struct {
	Property string       `json:"property"`
	Class    string       `json:"class"`
	Key      string       `json:"key"`
	Message  string       `json:"message"`
	Seed     uint64       `json:"verif_seed"`
	Index    int          `json:"run"`
	Budget   uint64       `json:"budget"`
	Hash     uint64       `json:"hash"`
	Crash    bool         `json:"crash,omitempty"`
	Race     bool         `json:"race,omitempty"` // happens in the race build
	Story    []string     `json:"story"`
	Pre      []rt.Preempt `json:"schedule"`
	Script   *sc.Script   `json:"script"`
}

// pick returns the first violation of prop (and class, if given) in a run,
// after confirming tentative ones.
func pick(o outcome, prop, class string, s *sc.Script, pre []rt.Preempt, budget uint64) *sc.Violation {
	for i := range o.Viol {
		v := o.Viol[i]
		if v.Prop == prop && (class == "" || v.Class == class) {
			return &v
		}
	}
	if prop != "C09" {
		return nil
	}
	tentative := -1
	for i, v := range o.Viol {
		if v.Prop == "C09?" && (class == "" || v.Class == class) {
			tentative = i
			break
		}
	}
	if tentative < 0 {
		return nil
	}
	// without the interrupted operations: does it still go wrong?
	hit := map[int]bool{}
	for _, r := range o.Hist.Recs {
		if r.Hit && r.Op.Fault.Kind != "reenter" {
			hit[r.Op.ID] = true
		}
	}
	c := s.Clone()
	for t, ops := range c.Threads {
		var keep []*sc.Op
		for _, op := range ops {
			if !hit[op.ID] {
				keep = append(keep, op)
			}
		}
		c.Threads[t] = keep
	}
	var st sc.Stats
	o2 := execute(c, replayConfig(pre, budget), &st)
	for _, v := range o2.Viol {
		switch v.Class {
		case "result", "runtime-error", "panic", "not-linearizable", "spurious-conflict", "no-end", "stuck":
			return nil
		}
	}
	v := o.Viol[tentative]
	v.Prop = "C09"
	return &v
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun batch|worker|one|replay")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "VERIF_SEED")
	runs := fs.Int("runs", 0, "number of runs")
	from := fs.Int("from", 0, "first run of a worker")
	step := fs.Int("step", 1, "distance between a worker's runs")
	progress := fs.String("progress", "", "progress file of a worker")
	hashes := fs.String("hashes", "", "file for a worker's run hashes")
	wall := fs.Float64("wall", 0, "seconds")
	file := fs.String("file", "", "script or replay file")
	index := fs.Int("index", -1, "run index")
	outDir := fs.String("replays", "", "directory for replay files")
	evid := fs.String("evidence", "", "evidence file")
	tmp := fs.String("tmp", "", "scratch directory")
	race := fs.String("racebin", "", "race-instrumented simrun")
	known := fs.String("known", "", "known-findings file")
	sites := fs.String("sites", "", "sites.json")
	workers := fs.Int("workers", 8, "worker processes")
	verbose := fs.Bool("v", false, "print")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "batch":
		os.Exit(batch(&batchCfg{prop: *prop, tier: *tier, seed: *seed, runs: *runs, wall: *wall, outDir: *outDir, evid: *evid,
			tmp: *tmp, race: *race, known: *known, sites: *sites, workers: *workers}))
	case "worker":
		worker(*prop, *seed, *from, *step, *runs, *progress, *hashes, *wall, *known)
	case "one":
		os.Exit(oneRun(*prop, *seed, *index, *file, *verbose))
	case "replay":
		os.Exit(replay(*file, *race, *verbose, *sites))
	case "determinism":
		os.Exit(determinism(*prop, *seed, *from, *runs))
	case "minimise":
		os.Exit(minimise(*file, *wall, *race))
	default:
		fmt.Fprintln(os.Stderr, "simrun: unknown command", cmd)
		os.Exit(2)
	}
}

// oneRun executes one run; exit 1 if it violates the property.
func oneRun(prop string, seed uint64, index int, file string, verbose bool) int {
	var s *sc.Script
	var cfg rt.Config
	class := ""
	if file != "" {
		f := load(file)
		s, cfg, prop, class = f.Script, replayConfig(f.Pre, f.Budget), f.Property, f.Class
	} else {
		rs := runSeed(seed, prop, index)
		var sd sc.Sched
		s, sd = sc.Generate(prop, rs)
		cfg = config(sd, rs)
		if verbose {
			fmt.Printf("schedule %+v\n", sd)
		}
	}
	if verbose {
		fmt.Print(describe(s))
	}
	var st sc.Stats
	o := execute(s, cfg, &st)
	if verbose {
		for _, r := range o.Hist.Recs {
			fmt.Printf("  [%d-%d] thread %d %s: %s %s ok=%v v=%d n=%d p=%v x=%v steps=%d\n", r.Inv, r.Ret, r.Th, r.Op, r.St, r.Msg, r.OK, r.V, r.N, r.P, r.X, r.Steps)
		}
		for _, v := range o.Viol {
			fmt.Printf("%s %s: %s\n", v.Prop, v.Class, v.Msg)
		}
		if o.Sim != nil {
			fmt.Printf("hash %x, %d preemptions %v\n", o.Sim.Hash, len(o.Sim.Trace), o.Sim.Trace)
		}
	}
	var pre []rt.Preempt
	if o.Sim != nil {
		pre = o.Sim.Trace
	}
	if v := pick(o, prop, class, s, pre, cfg.Budget); v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		return 1
	}
	return 0
}

func load(file string) *File {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(2)
	}
	var f File
	if err := json.Unmarshal(b, &f); err != nil || f.Script == nil {
		fmt.Fprintln(os.Stderr, "simrun: bad file", file, err)
		os.Exit(2)
	}
	return &f
}

func save(file string, f *File) error {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

func describe(s *sc.Script) string {
	var b strings.Builder
	fmt.Fprintf(&b, "IPv%d, value kind %d, copies %d, multi %v\n", s.Fam, s.Val, s.Copies, s.Multi)
	for i, t := range s.Tabs {
		if len(t.E) > 40 {
			fmt.Fprintf(&b, "table %d: %d entries\n", i, len(t.E))
			continue
		}
		fmt.Fprintf(&b, "table %d:", i)
		for _, e := range t.E {
			fmt.Fprintf(&b, " %v=%d", e.P, e.V)
		}
		if len(t.Warm) > 0 {
			fmt.Fprintf(&b, " (inserted and removed: %v)", t.Warm)
		}
		b.WriteString("\n")
	}
	for i, t := range s.Sets {
		fmt.Fprintf(&b, "set %d:", len(s.Tabs)+i)
		for _, a := range t.Ins {
			fmt.Fprintf(&b, " %v", a)
		}
		b.WriteString("\n")
	}
	for i, t := range s.Threads {
		if len(t) > 0 {
			fmt.Fprintf(&b, "thread %d: %s\n", i, sc.Text(t))
		}
	}
	return b.String()
}
