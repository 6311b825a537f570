#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
SIM = "seeded search over simulated schedules and faults of the real code"
T = {
 'C01': (SIM + "; linearizability of the recorded history against a reference map",
  "Real ipv4/ipv6 code, one writer and up to three readers under a seeded scheduler that preempts at every statement; every history is checked for linearizability against a plain map, and results on immutable tables against their contents. No violation in the runs explored; nothing is claimed beyond them."),
 'C02': (SIM + "; linearizability of the recorded history against a reference set",
  "As C01 for mutable sets, against a set of disjoint address intervals."),
 'C03': (SIM + "; linearizability with conflicts, exactly-once retries",
  "Two to four writers on one object with preemption and suspension between any two statements; every history must be linearizable with each conflict as no effect, and every conflict must have an overlapping write of another thread that took effect or is unfinished."),
 'C04': (SIM + "; invariant over every immutable object, re-read after later operations",
  "The contents of every immutable object are recorded when it is obtained and compared at the end of the run and after operations on related objects."),
 'C05': (SIM + "; walk histories against the reference model",
  "Walks run while another thread writes and while the callback itself modifies the source; order, completeness, early stop and return value are compared with the model."),
 'C06': (SIM + "; diff histories against the reference model",
  "Diffs of tables with shared structure produced by arbitrary histories, under concurrent writes, with every mask of nil callbacks and stop positions, compared callback by callback with the model."),
 'C07': (SIM + "; postconditions on every aggregate and refinement of its further use",
  "Each aggregate is checked against the model for lookups, entry count, redundancy and halves; it is aggregated again, diffed, looked up and written afterwards. Does not check that the result is globally minimal, see DESIGN.md."),
 'C08': (SIM + "; mapper call log and refinement against the reference model",
  "The mapper's calls are recorded and compared in order with the model's entries for seven kinds of values and comparators; results are used further."),
 'C09': (SIM + " with panics and goroutine exits injected in caller code at every kind of callback",
  "Panic or Goexit at a seeded invocation of a comparator, mapper, callback or caller-defined argument; contents before and after are compared, and the later history must be explained without the interrupted operation."),
 'C10': (SIM + "; refinement against the reference model",
  "Builds, nested and concurrent, with callbacks that accept, refuse, panic or exit and that leak the copy; result, original and copy are compared with the model."),
 'C11': ("seeded search over simulated schedules of a race-instrumented build; happens-before race detection",
  "The simulator's own synchronisation is hidden from the race detector, so only the library's own synchronisation orders accesses; a race in any run is a violation. The detector bounds how many past accesses per location it remembers."),
 'C12': (SIM + "; canonical form of every set obtained",
  "Every set obtained in a run is compared with the unique minimal prefix list of the model's address set; equality, printed form and prefix counts are compared with it."),
 'C13': (SIM + "; set algebra against the reference model",
  "Set expressions over shared immutable operands evaluated by concurrent threads and compared with interval arithmetic; operands are re-read afterwards."),
 'C14': ("seeded search over simulated schedules with threads suspended for ever at arbitrary steps; bounded own-step progress",
  "Threads are suspended for ever at seeded points or interrupted at every step by writers; every other operation must finish within a bound on its own steps, and after the others stop the next write must succeed."),
 'C15': (SIM + "; search results against the reference model",
  "Every answer is checked for containment, freeness, alignment and best fit against the model's free blocks, also while the reserved set is written."),
 'C16': (SIM + "; linearizability over all copies of a handle, zero-value handles exercised in every method",
  "Operations go through several copies of a handle; zero-value handles are used in every method."),
 'C23': (SIM + "; every thread's observations compared with the same thread run alone (noninterference by self-composition)",
  "Threads with objects of their own and common immutable ones run interleaved, some left behind for ever inside an operation; then each is run alone and every observation must be the same."),
 'C24': (SIM + "; every object compared at the end with a directly built twin: results, own steps, reachable memory",
  "After seeded histories (up to hundreds of operations, half of them ending nearly empty) every object is compared with a twin built from its contents in all kinds of operations; steps at most twice the twin's plus a constant, memory likewise. Leaks smaller than that are not seen."),
 'C26': (SIM + "; every call compared with the same call made alone in a fresh process state, values looked at again after their callers overwrote all slices",
  "44 groups of calls cover all functions of addresses, masks, prefixes and ranges of ipv4, ipv6 and ip; callers reuse and overwrite the slices they pass and get. Whether the results are right is not decided (C18 to C22), only that they depend on nothing else."),
 'C27': (SIM + "; every call of caller code attributed to its goroutine and operation, goroutines left over counted when the run ends",
  "Goroutines that the library starts become simulated threads, so any call of caller code on one of them, after its operation, or any goroutine that never ends is seen in the runs explored, whichever way the operation ended."),
 'C25': (SIM + "; own steps and newly reachable memory of each operation measured on large and deep objects",
  "Limits are four times what the operations take on the tree they were set on, per place at which the entries part from the prefix, plus a term in the address length; a constant-factor slowdown within that is not seen."),
 'C28': (SIM + "; own steps of walks, diffs and operations on whole objects compared with the entries they visit",
  "Limits are four to eight times what the operations take, per entry, on the tree they were set on, plus a constant and a term in the address length; a constant-factor slowdown within that is not seen, nor is time in code that is not the library's."),
 'C17': (SIM + "; comparisons counted per diff and compared with the entries that may be compared",
  "The comparator's calls during diffs of large tables with few writes are counted and attributed; each must be for an entry that encloses or equals a written prefix."),
}
NA = {
 'C18': "Pure conversions of one value: no concurrency, time, I/O, fault or history for a simulation to vary.",
 'C19': "Pure functions of one value without state, scheduling or faults; nothing for a simulator to control.",
 'C20': "Pure arithmetic on one value without state, scheduling or faults; used in the other checks only as inputs.",
 'C21': "Pure arithmetic on two values without state, scheduling or faults (the defect noticed while reading, Range.Plus at the last address, is repaired).",
 'C22': "Stateless dispatch on the dynamic type of one or two values; no concurrency, time, I/O or history.",
}
m = {
 "version": 1,
 "setup_cmd": "sim/build.sh race",
 "checks": [{
   "property": p,
   "quick_cmd": f"sim/check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough sim/check.sh {p}",
   "evidence_file": f"evidence/{p}.json",
   "technique": "deterministic simulation with fault injection: " + t,
   "level": "exploration",
   "level_note": n,
 } for p, (t, n) in T.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the scheduling points are inserted into a copy of the current sources at build time (sim/instr, go build -overlay).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
