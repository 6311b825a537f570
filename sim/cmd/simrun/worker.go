package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"time"

	"verifsim/rt"
	"verifsim/sc"
)

// summary is what a worker reports when it ends.
type summary struct {
	Runs       int            `json:"runs"`
	Last       int            `json:"last"`
	Nontrivial int            `json:"nontrivial"`
	Steps      uint64         `json:"steps"`
	Switches   int            `json:"switches"`
	Hot        int            `json:"hot"`
	Cold       int            `json:"cold"`
	OpB        int            `json:"opb"`
	Stalls     int            `json:"stalls"`
	Clock      int            `json:"clock"`
	Abandons   int            `json:"abandons"`
	Blocked    int            `json:"blocked"`
	MidWrite   int            `json:"midwrite"`
	Conflicts  int            `json:"conflicts"`
	Ops        map[string]int `json:"ops"`
	Status     map[string]int `json:"status"`
	Faults     map[string]int `json:"faults"`
	Foreign    map[string]int `json:"foreign"`
	Modes      map[string]int `json:"modes"`
	Threads    map[string]int `json:"threads"`
	Lin        sc.LinStats    `json:"lin"`
	Rechk      int            `json:"rechecked"`
	Diffs      int            `json:"diffs"`
	Cmp        int            `json:"comparisons"`
	Determ     int            `json:"determinism_checked"`
	Known      map[string]int `json:"known"`
	Samples    []string       `json:"samples"`
	MaxRatio   float64        `json:"max_cost"`
	NonDet     string         `json:"nondet"`
	NonDets    int            `json:"nondets"`
	Viol       *File          `json:"viol"`
	Wall       float64        `json:"wall"`
	Reached    []byte         `json:"reached"`
}

// nondet notes that a run did not repeat: the code under test uses a source of
// nondeterminism that the simulator does not control. What the oracles say
// about each execution is as sound as ever.
func (s *summary) nondet(f string, a ...any) {
	if s.NonDets == 0 {
		s.NonDet = fmt.Sprintf(f, a...)
	}
	s.NonDets++
}

func focus(prop string) map[string]bool {
	m := map[string]bool{}
	for _, k := range map[string][]string{
		"C01": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel},
		"C02": {sc.MIns, sc.MRem},
		"C03": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem},
		"C04": {sc.TSnap, sc.MSnap, sc.IClone, sc.SClone, sc.IAgg, sc.IMap, sc.IBuild, sc.SBuild, sc.SUni, sc.SInt, sc.SDif},
		"C05": {sc.IWalk, sc.SWalkP, sc.SWalkR, sc.SWalkA},
		"C06": {sc.IDiff}, "C07": {sc.IAgg}, "C08": {sc.IMap},
		"C10": {sc.IBuild, sc.SBuild},
		"C11": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem},
		"C12": {sc.MSnap, sc.SUni, sc.SInt, sc.SDif, sc.MUni, sc.MInt, sc.MDif, sc.OFix},
		"C13": {sc.SUni, sc.SInt, sc.SDif, sc.SHas, sc.SEq, sc.OHas},
		"C15": {sc.SFind},
		"C16": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem, sc.OZeroS, sc.OZeroT},
		"C17": {sc.IDiff},
		"C24": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem},
		"C25": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem, sc.TSnap, sc.MSnap, sc.IClone, sc.SClone},
		"C28": sc.WholeOps,
		"C26": {sc.VCall},
		"C27": {sc.IWalk, sc.IDiff, sc.IAgg, sc.IMap, sc.IBuild, sc.SBuild, sc.SWalkP, sc.SWalkR, sc.SWalkA, sc.TUpd, sc.TIou},
		"C23": {sc.TIns, sc.TUpd, sc.TIou, sc.TGoi, sc.TDel, sc.MIns, sc.MRem},
	}[prop] {
		m[k] = true
	}
	return m
}

// rules says what makes a run count as non-trivial.
func rule(prop string) string {
	base := "Each run is generated from Mix(VERIF_SEED, property, run number): family, value type and comparator, address clusters, initial contents, client threads and their operations, faults in caller code, and the scheduler's rates; the scheduler then draws every preemption. Distinct: different event hash (operation results, their step counts and all preemptions with their sites). "
	switch prop {
	case "C26":
		return base + "Non-trivial: at least two calls completed."
	case "C03", "C11", "C23":
		return base + "Non-trivial: at least two threads completed operations, at least one preemption took place inside an operation, and a write completed."
	case "C14":
		return base + "Non-trivial: at least one preemption inside an operation and at least one operation completed after it."
	case "C09":
		return base + "Non-trivial: a panic or goroutine exit was actually injected into caller code during an operation."
	}
	return base + "Non-trivial: at least one operation the property is about completed on an existing object (see operations) and the run had at least one write or derived object before it."
}

func nontrivial(prop string, fc map[string]bool, o outcome) bool {
	if o.Sim == nil {
		return false
	}
	inside := o.Sim.HotPre+o.Sim.ColdPre > 0
	switch prop {
	case "C03", "C11", "C23":
		w, th := false, map[int]bool{}
		for _, r := range o.Hist.Recs {
			if r.St == sc.OK {
				th[r.Th] = true
				w = w || fc[r.Op.K]
			}
		}
		return inside && w && len(th) > 1
	case "C14":
		return inside && len(o.Hist.Recs) > 1
	case "C09":
		for _, r := range o.Hist.Recs {
			if r.Hit && r.Op.Fault.Kind != "reenter" {
				return true
			}
		}
		return false
	}
	n := 0
	for i, r := range o.Hist.Recs {
		if r.St == sc.OK && fc[r.Op.K] {
			if i > 0 {
				n++
			}
		}
	}
	return n > 0
}

func worker(prop string, seed uint64, from, step, runs int, progress, hashes string, wall float64, knownFile string) {
	runtime.GOMAXPROCS(1)
	start := time.Now()
	if os.Getenv("SIM_CAL") != "" {
		sc.Cal = map[string][4]float64{}
	}
	known := loadKnown(knownFile)
	sum := &summary{Ops: map[string]int{}, Status: map[string]int{}, Faults: map[string]int{}, Foreign: map[string]int{}, Modes: map[string]int{}, Threads: map[string]int{}, Known: map[string]int{}, Last: -1}
	var st sc.Stats
	st.Ops, st.Status, st.Faults = sum.Ops, sum.Status, sum.Faults
	fc := focus(prop)
	var pf *os.File
	if progress != "" {
		pf, _ = os.OpenFile(progress, os.O_RDWR|os.O_CREATE, 0o644)
	}
	var hw *bufio.Writer
	if hashes != "" {
		f, err := os.OpenFile(hashes, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer f.Close()
		hw = bufio.NewWriter(f)
		defer hw.Flush()
	}
	var buf [8]byte
	for i := from; i < runs; i += step {
		if wall > 0 && time.Since(start).Seconds() > wall {
			break
		}
		if pf != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
			pf.WriteAt(buf[:], 0)
		}
		rs := runSeed(seed, prop, i)
		s, sd := sc.Generate(prop, rs)
		o := execute(s, config(sd, rs), &st)
		sum.Runs++
		sum.Last = i
		var pre []rt.Preempt
		var hash uint64
		if o.Sim != nil {
			pre, hash = o.Sim.Trace, o.Sim.Hash
			sum.Steps += o.Sim.Steps
			sum.Switches += o.Sim.Switches
			sum.Hot += o.Sim.HotPre
			sum.Cold += o.Sim.ColdPre
			sum.OpB += o.Sim.OpPre
			sum.Stalls += o.Sim.Stalls
			sum.Clock += o.Sim.Clock
			sum.Abandons += o.Sim.Abandons
		}
		if rt.RaceBuild {
			for _, r := range o.Hist.Recs {
				sum.Ops[r.Op.K]++
				sum.Status[r.St]++
				if r.Hit {
					sum.Faults[r.Op.Fault.Kind]++
				}
			}
		}
		for _, r := range o.Hist.Recs {
			if sc.IsWrite(r.Op.K) {
				if r.Sw1 > r.Sw0 {
					sum.MidWrite++
				}
				if r.St == sc.Conflict {
					sum.Conflicts++
				}
			}
		}
		sum.Modes[sd.Mode]++
		sum.Threads[fmt.Sprint(len(s.Threads))]++
		if nontrivial(prop, fc, o) {
			sum.Nontrivial++
			if hw != nil {
				binary.LittleEndian.PutUint64(buf[:], hash)
				hw.Write(buf[:])
			}
			if len(sum.Samples) < 1 && from < 3 && sum.Runs > 3 && len(s.Threads) > 0 {
				sum.Samples = append(sum.Samples, fmt.Sprintf("run %d, schedule %s, %d preemptions, %d steps, hash %x\n%s", i, sd.Mode, len(pre), o.Sim.Steps, hash, clip(describe(s), 3000)))
			}
		}
		seen := map[string]bool{}
		for _, v := range o.Viol {
			if v.Prop != prop && !seen[v.Prop] && v.Prop != "C09?" {
				seen[v.Prop] = true
				sum.Foreign[v.Prop]++
			}
		}
		if len(o.Viol) > 0 {
			if v := pick(o, prop, "", s, pre, sd.Budget); v != nil {
				if k := known.match(v); k != "" {
					sum.Known[k]++
					continue
				}
				sum.Viol = &File{Property: prop, Class: v.Class, Key: v.Key, Message: v.Msg, Seed: seed, Index: i, Budget: sd.Budget, Hash: hash, Pre: pre, Script: s}
				break
			}
		}
		// the same seed must give the same execution, recorded or replayed
		if sum.Runs <= 12 || sum.Runs%97 == 0 {
			sum.Determ++
			var st2 sc.Stats
			s2, sd2 := sc.Generate(prop, rs)
			if !reflect.DeepEqual(s2, s) && !s.Cost {
				sum.nondet("run %d: generated differently", i)
			}
			o2 := execute(s2, config(sd2, rs), &st2)
			s3, _ := sc.Generate(prop, rs)
			o3 := execute(s3, replayConfig(pre, sd.Budget), &st2)
			for n, x := range []outcome{o2, o3} {
				if x.Sim == nil || o.Sim == nil {
					continue
				}
				if x.Sim.Hash != hash || !reflect.DeepEqual(strip(x.Sim.Trace), strip(pre)) || len(x.Hist.Recs) != len(o.Hist.Recs) {
					sum.nondet("run %d: execution %d differs (%x, %x)", i, n+2, x.Sim.Hash, hash)
				}
			}
		}
	}
	sum.Lin, sum.Rechk, sum.Diffs, sum.Cmp = st.Lin, st.Rechk, st.Diffs, st.CmpSeen
	if sc.Cal != nil {
		for k, x := range sc.Cal {
			fmt.Fprintf(os.Stderr, "%-20s steps %6.1f blocks %6.2f bytes %8.1f size %6.1f\n", k, x[0], x[1], x[2], x[3])
		}
	}
	sum.Wall = time.Since(start).Seconds()
	sum.Reached = rt.Reached[:]
	b, _ := json.Marshal(sum)
	os.Stdout.Write(append(b, '\n'))
}

func strip(p []rt.Preempt) []rt.Preempt {
	return append([]rt.Preempt{}, p...)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
