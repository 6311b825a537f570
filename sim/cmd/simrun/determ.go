package main

import (
	"fmt"
	"reflect"

	"verifsim/rt"
	"verifsim/sc"
)

// determinism executes runs twice and replays them, printing a digest per run.
func determinism(prop string, seed uint64, from, runs int) int {
	bad := 0
	for i := from; i < runs; i++ {
		rs := runSeed(seed, prop, i)
		s, sd := sc.Generate(prop, rs)
		var st sc.Stats
		o := execute(s, config(sd, rs), &st)
		if o.Sim == nil {
			continue
		}
		n := len(o.Hist.Recs)
		s2, sd2 := sc.Generate(prop, rs)
		o2 := execute(s2, config(sd2, rs), &st)
		s3, _ := sc.Generate(prop, rs)
		o3 := execute(s3, replayConfig(o.Sim.Trace, sd.Budget), &st)
		fmt.Printf("%d %x %d %d\n", i, o.Sim.Hash, len(o.Sim.Trace), len(o.Viol))
		for k, x := range []outcome{o2, o3} {
			if x.Sim.Hash != o.Sim.Hash || len(x.Hist.Recs) != n || !reflect.DeepEqual(strip(x.Sim.Trace), strip(o.Sim.Trace)) {
				bad++
				fmt.Printf("run %d: execution %d differs: %x %x, %d %d preemptions\n", i, k+2, x.Sim.Hash, o.Sim.Hash, len(x.Sim.Trace), len(o.Sim.Trace))
				for j := 0; j < len(x.Sim.Trace) && j < len(o.Sim.Trace); j++ {
					if x.Sim.Trace[j] != o.Sim.Trace[j] {
						fmt.Printf("  preemption %d: %+v, %+v\n", j, x.Sim.Trace[j], o.Sim.Trace[j])
						break
					}
				}
				for j := range x.Hist.Recs {
					if j < n && (x.Hist.Recs[j].Digest() != o.Hist.Recs[j].Digest() || x.Hist.Recs[j].Steps != o.Hist.Recs[j].Steps) {
						fmt.Printf("  record %d: %v %v %s; %v %v %s\n", j, x.Hist.Recs[j].Op, x.Hist.Recs[j].Steps, x.Hist.Recs[j].St, o.Hist.Recs[j].Op, o.Hist.Recs[j].Steps, o.Hist.Recs[j].St)
						break
					}
				}
			}
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

var _ = rt.RaceBuild
