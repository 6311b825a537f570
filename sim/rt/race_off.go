//go:build !race

package rt

const RaceBuild = false

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }
