//go:build go1.23 && !race

package engsim

// RaceBuild tells that memory accesses are followed.
const RaceBuild = false

func raceSwitchBegin() {}
func raceSwitchEnd()   {}
func raceRelease()     {}
func raceAcquire()     {}
func races() []string  { return nil }
