//go:build race

package rt

import "runtime"

// RaceBuild tells whether the happens-before oracle is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors is the number of races the oracle has reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
