// Access to the controlled scheduler for harness code.

package debug

import _ "unsafe"

type McRec struct {
	N, C      uint16
	Kind, Pre uint8
	Gid       uint16
}

//go:linkname McConfig runtime.mcConfig
func McConfig(pats, bg, gps []string)

//go:linkname McRun runtime.mcRun
func McRun(fn func(), prefix []uint16, trace []McRec, t0, horizon, maxPts int64) (status int32, ntrace int, points int64, vt int64, diverged bool, ngs uint32)

//go:linkname McSettle runtime.mcSettle
func McSettle()

//go:linkname McChoose runtime.mcChoose
func McChoose(n int) int

//go:linkname McPointUser runtime.mcPointUser
func McPointUser()

//go:linkname McInWorld runtime.mcInWorld
func McInWorld() bool

//go:linkname McGoid runtime.mcGoid
func McGoid() int64

//go:linkname McCalm runtime.mcCalm
func McCalm(on bool)
