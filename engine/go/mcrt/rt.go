// Package mcrt is the model checker: it runs scenarios under the controlled
// scheduler added to the runtime (see engine/rt) and enumerates their
// executions.
package mcrt

import (
	"runtime/debug"
)

type rec = debug.McRec

const (
	kindPreempt = 0
	kindBlock   = 1
	kindSelect  = 2
	kindUser    = 3
	kindMap     = 4
)

const (
	stRunning  = 0
	stDone     = 1
	stDeadlock = 2
	stHorizon  = 3
	stLimit    = 4
)

func mcRun(fn func(), prefix []uint16, trace []rec, t0, horizon, maxPts int64) (status int32, ntrace int, points int64, vt int64, diverged bool, ngs uint32) {
	return debug.McRun(fn, prefix, trace, t0, horizon, maxPts)
}
func mcConfig(pats, bg, gps []string) { debug.McConfig(pats, bg, gps) }
func mcChoose(n int) int              { return debug.McChoose(n) }
func mcGoid() int64                   { return debug.McGoid() }
func mcPointUser()                    { debug.McPointUser() }
func mcSettle()                       { debug.McSettle() }

// Point is an explicit scheduling point.
func Point() { mcPointUser() }

// Settle blocks until all other goroutines of the execution are blocked.
func Settle() { mcSettle() }

// Calm switches the exploration of scheduling decisions off (phases before and
// after the one of interest) and on again.
func Calm(on bool) { debug.McCalm(on) }
