//go:build race

package mcrt

import "runtime"

const raceEnabled = true

func raceErrors() int { return runtime.RaceErrors() }
