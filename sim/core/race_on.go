//go:build race

package core

import "runtime"

// RaceBuild: the code under test is compiled with the race detector.
const RaceBuild = true

// RaceErrors is the number of data races detected so far.
func RaceErrors() int { return runtime.RaceErrors() }
