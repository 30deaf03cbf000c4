//go:build !race

package mcrt

const raceEnabled = false

func raceErrors() int { return 0 }
