//go:build !race

package core

// RaceBuild: the code under test is compiled with the race detector.
const RaceBuild = false

// RaceErrors is the number of data races detected so far.
func RaceErrors() int { return 0 }
