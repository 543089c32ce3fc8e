//go:build !race

package rt

// RaceBuild tells whether the race detector is on.
const RaceBuild = false

func raceDisable()            {}
func raceEnable()             {}
func raceAcquire(*int32)      {}
func raceReleaseMerge(*int32) {}
func RaceAcquire(*int32)      {}
func RaceRelease(*int32)      {}
func RaceReleaseMerge(*int32) {}
func RaceErrors() int         { return 0 }
