package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"verifsim/rt"
	"verifsim/sc"
)

// replay executes a replay file.
func replay(file, race string, verbose bool, sites string) int {
	f := load(file)
	if f.Crash {
		bin, _ := os.Executable()
		if f.racing() {
			bin = race
		}
		_, errs, exit, timeout := command(bin, 100*time.Second, "one", "-prop", f.Property, "-seed", fmt.Sprint(f.Seed), "-index", fmt.Sprint(f.Index))
		if !timeout && exit != 0 && exit != 1 && head(errs) != "" {
			fmt.Printf("the process died: %s\nVIOLATION property=%s replay=%s\n", head(errs), f.Property, file)
			return 1
		}
		fmt.Printf("not reproduced (exit %d)\n", exit)
		return 0
	}
	if f.racing() && !rt.RaceBuild {
		out, errs, exit, _ := command(race, 100*time.Second, "one", "-file", file)
		if exit == 1 {
			if verbose {
				os.Stdout.Write(errs)
			}
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", bytes.TrimSpace(out), raceText(errs), f.Property, file)
			return 1
		}
		if exit != 0 {
			fmt.Fprintf(os.Stderr, "%s\n", tail(errs))
			return 2
		}
		fmt.Println("not reproduced")
		return 0
	}
	var st sc.Stats
	o := execute(f.Script, replayConfig(f.Pre, f.Budget), &st)
	if verbose {
		for _, l := range tell(f, sites) {
			fmt.Println(l)
		}
		for _, r := range o.Hist.Recs {
			fmt.Printf("  [%d-%d] thread %d %s: %s %s ok=%v v=%d n=%d p=%v x=%v\n", r.Inv, r.Ret, r.Th, r.Op, r.St, r.Msg, r.OK, r.V, r.N, r.P, r.X)
		}
		for _, v := range o.Viol {
			fmt.Printf("%s %s: %s\n", v.Prop, v.Class, v.Msg)
		}
	}
	v := pick(o, f.Property, f.Class, f.Script, f.Pre, f.Budget)
	if v == nil {
		fmt.Println("not reproduced")
		return 0
	}
	if o.Sim != nil && f.Hash != 0 && o.Sim.Hash != f.Hash {
		fmt.Println("reproduced, although the execution is not the recorded one")
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, f.Property, file)
	return 1
}

// minimise shrinks a file in place.
func minimise(file string, wall float64, race string) int {
	f := load(file)
	start := time.Now()
	more := func() bool { return time.Since(start).Seconds() < wall }
	test := func(s *sc.Script, pre []rt.Preempt) bool {
		var st sc.Stats
		o := execute(s, replayConfig(pre, f.Budget), &st)
		return pick(o, f.Property, f.Class, s, pre, f.Budget) != nil
	}
	if f.racing() {
		tmp := filepath.Join(filepath.Dir(file), "trial.json")
		test = func(s *sc.Script, pre []rt.Preempt) bool {
			g := *f
			g.Script, g.Pre = s, pre
			if save(tmp, &g) != nil {
				return false
			}
			_, _, exit, _ := command(race, 60*time.Second, "one", "-file", tmp)
			return exit == 1
		}
	}
	if !test(f.Script, f.Pre) {
		fmt.Fprintln(os.Stderr, "simrun: does not fail when replayed")
		return 3
	}
	s, pre := sc.Minimise(f.Script, f.Pre, test, more)
	g := *f
	g.Script, g.Pre = s, pre
	if !f.racing() {
		var st sc.Stats
		o := execute(s, replayConfig(pre, f.Budget), &st)
		if v := pick(o, f.Property, f.Class, s, pre, f.Budget); v != nil {
			g.Message, g.Key = v.Msg, v.Key
			if o.Sim != nil {
				g.Hash = o.Sim.Hash
			}
		}
		// only the preemptions that were carried out
		if o.Sim != nil && len(o.Sim.Trace) <= len(pre) && test(s, o.Sim.Trace) {
			g.Pre = o.Sim.Trace
			o = execute(s, replayConfig(g.Pre, f.Budget), &st)
			g.Hash = o.Sim.Hash
		}
	} else {
		g.Hash = 0
	}
	// save progress through a temporary file
	tmp := file + ".new"
	if err := save(tmp, &g); err != nil {
		return 2
	}
	os.Rename(tmp, file)
	return 0
}
