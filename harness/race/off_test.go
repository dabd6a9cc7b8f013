//go:build !race

package race

const raceOn = false

func raceErrors() int { return 0 }
