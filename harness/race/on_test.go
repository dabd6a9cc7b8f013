//go:build race

package race

import "runtime"

const raceOn = true

func raceErrors() int { return runtime.RaceErrors() }
