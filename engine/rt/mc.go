// Controlled scheduler ("mc") added to the Go 1.18 runtime by /verif through a
// build overlay. A "world" is a set of goroutines (everything transitively
// started from one root function) of which exactly one runs at a time; which
// one is a recorded choice. Time is virtual while a world is on.

package runtime

import (
	"internal/abi"
	"runtime/internal/atomic"
	"unsafe"
)

const (
	mcKindPreempt = 0 // current goroutine could go on; another one runs instead
	mcKindBlock   = 1 // current goroutine blocked/ended; which one runs next
	mcKindSelect  = 2 // which ready case a select takes
	mcKindUser    = 3 // harness choice
	mcKindMap     = 4 // where a map iteration starts
)

const (
	mcStRunning  = 0
	mcStDone     = 1 // root function returned
	mcStDeadlock = 2 // nothing can ever run again
	mcStHorizon  = 3 // virtual time horizon passed
	mcStLimit    = 4 // too many scheduling points
)

type mcRec struct {
	n    uint16
	c    uint16
	kind uint8
	pre  uint8 // unused
	gid  uint16
}

const mcMaxRq = 1 << 14

var mc struct {
	on      bool
	world   uint32
	vt      int64
	timerW  uint32 // world of the timer function being run
	cur     guintptr
	rq      [mcMaxRq]guintptr
	nrq     int
	settle  [64]guintptr
	nsettle int
	ctl     guintptr
	ctlPark bool
	status  int32
	nextid  uint32
	points  int64
	maxPts  int64
	t0      int64
	horizon int64
	jumps   int64

	prefix  []uint16
	trace   []mcRec
	ntrace  int
	diverge bool
	calm    bool // take default scheduling decisions, unrecorded

	npat int
	pats [32]string
	nbg  int
	bg   [32]string
	ngp  int
	gps  [32]string
}

type mcPcEnt struct {
	pc uintptr
	v  uint8
}

var mcPcCache [1 << 13]mcPcEnt
var mcGoCache [1 << 10]mcPcEnt

func mchasprefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func mcmatchGo(pc uintptr) uint8 {
	f := findfunc(pc)
	if !f.valid() {
		return 1
	}
	name := funcname(f)
	for i := 0; i < mc.ngp; i++ {
		if mchasprefix(name, mc.gps[i]) {
			return 2
		}
	}
	return 1
}

func mcmatch(pc uintptr) uint8 {
	f := findfunc(pc)
	if !f.valid() {
		return 1
	}
	name := funcname(f)
	for i := 0; i < mc.nbg; i++ {
		if mchasprefix(name, mc.bg[i]) {
			return 1
		}
	}
	for i := 0; i < mc.npat; i++ {
		if mchasprefix(name, mc.pats[i]) {
			return 2
		}
	}
	return 1
}

// mcinteresting reports whether code at pc belongs to a package whose
// synchronisation operations are scheduling points.
func mcinteresting(pc uintptr) bool {
	e := &mcPcCache[(pc^pc>>13)&(1<<13-1)]
	if e.pc == pc && e.v != 0 {
		return e.v == 2
	}
	v := mcmatch(pc)
	e.pc = pc
	e.v = v
	return v == 2
}

func mcinterestingGo(pc uintptr) bool {
	e := &mcGoCache[(pc^pc>>10)&(1<<10-1)]
	if e.pc == pc && e.v != 0 {
		return e.v == 2
	}
	v := mcmatchGo(pc)
	e.pc = pc
	e.v = v
	return v == 2
}

// mcnewg is called on creation of newg by callergp.
func mcnewg(newg, callergp *g, callerpc uintptr) {
	w := uint32(0)
	if callergp != nil {
		w = callergp.mc
	}
	bg := false
	if mc.timerW != 0 && (callergp == nil || callergp == callergp.m.g0) {
		w = mc.timerW
	}
	newg.mc = w
	newg.mcid = 0
	newg.mcbg = bg
	if w != 0 && w == mc.world {
		mc.nextid++
		newg.mcid = mc.nextid
		newg.mcbg = !mcinterestingGo(callerpc)
	}
}

// mcready makes a world goroutine (already _Grunnable) available.
func mcready(gp *g) {
	if !mc.on || gp.mc != mc.world {
		return // goroutine of a world that has ended: never runs again
	}
	if mc.nrq >= mcMaxRq {
		throw("mc: run queue overflow")
	}
	mc.rq[mc.nrq].set(gp)
	mc.nrq++
}

func mcremove(i int) *g {
	gp := mc.rq[i].ptr()
	for j := i; j+1 < mc.nrq; j++ {
		mc.rq[j] = mc.rq[j+1]
	}
	mc.nrq--
	mc.rq[mc.nrq] = 0
	return gp
}

func mcnfg() int {
	n := 0
	for i := 0; i < mc.nrq; i++ {
		if !mc.rq[i].ptr().mcbg {
			n++
		}
	}
	return n
}

// mcfgidx returns the position in rq of the k-th foreground goroutine.
func mcfgidx(k int) int {
	for i := 0; i < mc.nrq; i++ {
		if !mc.rq[i].ptr().mcbg {
			if k == 0 {
				return i
			}
			k--
		}
	}
	throw("mc: bad foreground index")
	return -1
}

func mcchoose(n int, kind uint8, gid uint32) int {
	if n <= 1 || mc.calm && kind != mcKindUser {
		return 0
	}
	i := mc.ntrace
	if i >= len(mc.trace) {
		mc.status = mcStLimit
		return 0
	}
	c := 0
	if i < len(mc.prefix) {
		c = int(mc.prefix[i])
		if c >= n {
			mc.diverge = true
			c = 0
		}
	}
	r := &mc.trace[i]
	r.n = uint16(n)
	r.c = uint16(c)
	r.kind = kind
	r.gid = uint16(gid)
	mc.ntrace = i + 1
	return c
}

// mcblocked: the current world goroutine stopped running.
func mcblocked(gp *g) {
	if mc.cur.ptr() == gp {
		mc.cur = 0
	}
}

func mcfinish(status int32) {
	mc.status = status
	mc.on = false
	mc.nrq = 0
	mc.nsettle = 0
	mc.cur = 0
	ctl := mc.ctl.ptr()
	mc.ctl = 0
	if ctl != nil {
		ready(ctl, 0, true)
	}
}

// mcnexttimer returns the earliest time of a timer of the current world.
func mcnexttimer(pp *p) int64 {
	lock(&pp.timersLock)
	var best int64
	for _, t := range pp.timers {
		if t.mcw != mc.world {
			continue
		}
		var w int64
		switch atomic.Load(&t.status) {
		case timerWaiting:
			w = t.when
		case timerModifiedEarlier, timerModifiedLater:
			w = t.nextwhen
		default:
			continue
		}
		if best == 0 || w < best {
			best = w
		}
	}
	unlock(&pp.timersLock)
	return best
}

// mcpick is called by findrunnable when no other goroutine is runnable.
// again means that something changed and findrunnable has to look again.
func mcpick(pp *p) (gp *g, again bool) {
	if !mc.on {
		return nil, false
	}
	if mc.cur != 0 {
		return nil, false // in a system call, or queued elsewhere
	}
	if mc.status == mcStLimit {
		mcfinish(mcStLimit)
		return nil, true
	}
	// background goroutines run first, in order, and are not a choice
	for i := 0; i < mc.nrq; i++ {
		if mc.rq[i].ptr().mcbg {
			gp = mcremove(i)
			mc.cur.set(gp)
			return gp, false
		}
	}
	if mc.nrq > 0 {
		k := mcchoose(mc.nrq, mcKindBlock, 0)
		gp = mcremove(k)
		mc.cur.set(gp)
		return gp, false
	}
	if mc.nsettle > 0 {
		gp = mc.settle[0].ptr()
		for i := 1; i < mc.nsettle; i++ {
			mc.settle[i-1] = mc.settle[i]
		}
		mc.nsettle--
		casgstatus(gp, _Gwaiting, _Grunnable)
		mc.cur.set(gp)
		return gp, false
	}
	t := mcnexttimer(pp)
	if t == 0 {
		mcfinish(mcStDeadlock)
		return nil, true
	}
	if t-mc.t0 > mc.horizon {
		mcfinish(mcStHorizon)
		return nil, true
	}
	mc.jumps++
	if t > mc.vt {
		mc.vt = t
	}
	return nil, true
}

func mcgetbp() uintptr

//go:linkname sync_mcpoint sync.runtime_mcpoint
func sync_mcpoint() {
	if !mc.on {
		return
	}
	bp := *(*uintptr)(unsafe.Pointer(mcgetbp())) // frame of the sync method
	mcpoint(*(*uintptr)(unsafe.Pointer(bp + 8)))  // where it returns to
}

//go:linkname atomic_mcpoint sync/atomic.runtime_mcpoint
func atomic_mcpoint() {
	if !mc.on {
		return
	}
	bp := *(*uintptr)(unsafe.Pointer(mcgetbp()))
	mcpoint(*(*uintptr)(unsafe.Pointer(bp + 8)))
}

// mcpoint is a scheduling point of the operation at pc.
func mcpoint(pc uintptr) {
	gp := getg()
	if !mc.on || gp.mc != mc.world || gp.mcbg || gp.m.locks != 0 || gp != gp.m.curg {
		return
	}
	if mc.nrq == 0 && mc.points < mc.maxPts {
		mc.points++ // no alternative; over-counts uninteresting ones, harmless
		return
	}
	if !mcinteresting(pc) {
		return
	}
	mcyield(gp)
}

func mcyield(gp *g) {
	mc.points++
	if mc.points >= mc.maxPts {
		mc.status = mcStLimit
	} else if mcnfg() == 0 {
		return
	}
	mcall(mcpoint_m)
}

// MCPoint is an explicit scheduling point for harness code.
//
//go:linkname mcPointUser runtime.mcPointUser
func mcPointUser() {
	gp := getg()
	if !mc.on || gp.mc != mc.world || gp.m.locks != 0 || gp != gp.m.curg {
		return
	}
	mcyield(gp)
}

func mcpoint_m(gp *g) {
	if mc.status == mcStLimit {
		casgstatus(gp, _Grunning, _Grunnable)
		dropg()
		mc.cur = 0
		schedule()
	}
	k := mcchoose(1+mcnfg(), mcKindPreempt, gp.mcid)
	if k == 0 {
		gogo(&gp.sched)
	}
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	ng := mcremove(mcfgidx(k - 1))
	mcready(gp)
	mc.cur.set(ng)
	execute(ng, false)
}

//go:linkname mcConfig runtime.mcConfig
func mcConfig(pats, bg, gps []string) {
	mc.npat, mc.nbg, mc.ngp = 0, 0, 0
	for i := range mcPcCache {
		mcPcCache[i].v = 0
	}
	for i := range mcGoCache {
		mcGoCache[i].v = 0
	}
	for i := range gps {
		mc.gps[i] = gps[i]
		mc.ngp++
	}
	for i := range pats {
		mc.pats[i] = pats[i]
		mc.npat++
	}
	for i := range bg {
		mc.bg[i] = bg[i]
		mc.nbg++
	}
}

// mcRun executes fn as the root of a new world and returns when it has ended.
//
//go:linkname mcRun runtime.mcRun
func mcRun(fn func(), prefix []uint16, trace []mcRec, t0, horizon, maxPts int64) (status int32, ntrace int, points int64, vt int64, diverged bool, ngs uint32) {
	gp := getg()
	if gp.mc != 0 && gp.mc == mc.world && mc.on {
		throw("mcRun inside a world")
	}
	// forget the timers of earlier worlds
	mp := acquirem()
	pp := mp.p.ptr()
	for {
		n := 0
		for i := 0; i < len(pp.timers); i++ {
			if t := pp.timers[i]; t.mcw != 0 {
				if s := atomic.Load(&t.status); s == timerWaiting || s == timerModifiedEarlier || s == timerModifiedLater {
					deltimer(t)
					n++
				}
			}
		}
		if n == 0 {
			break
		}
	}
	lock(&pp.timersLock)
	clearDeletedTimers(pp)
	unlock(&pp.timersLock)
	releasem(mp)

	mc.world++
	mc.vt = t0
	mc.t0 = t0
	mc.horizon = horizon
	mc.maxPts = maxPts
	mc.points = 0
	mc.jumps = 0
	mc.prefix = prefix
	mc.trace = trace
	mc.ntrace = 0
	mc.calm = false
	mc.diverge = false
	mc.nrq = 0
	mc.nsettle = 0
	mc.status = mcStRunning
	mc.nextid = 0
	mc.cur = 0
	mc.ctl.set(gp)

	fv := *(**funcval)(unsafe.Pointer(&fn))
	pc := abi.FuncPCABIInternal(mcRun)
	mc.on = true
	systemstack(func() {
		newg := newproc1(fv, gp, pc)
		newg.mc = mc.world
		mc.nextid++
		newg.mcid = mc.nextid
		newg.mcbg = false
		newg.mcroot = true
		mcready(newg)
	})
	gopark(nil, nil, waitReasonZero, traceEvNone, 1)
	mc.prefix = nil
	mc.trace = nil
	vt = mc.vt
	mc.vt = 0
	return mc.status, mc.ntrace, mc.points, vt, mc.diverge, mc.nextid
}

//go:linkname mcChoose runtime.mcChoose
func mcChoose(n int) int {
	gp := getg()
	if !mc.on || gp.mc != mc.world {
		return 0
	}
	return mcchoose(n, mcKindUser, gp.mcid)
}

// mcSettle blocks until every other goroutine of the world is blocked.
//
//go:linkname mcSettle runtime.mcSettle
func mcSettle() {
	gp := getg()
	if !mc.on || gp.mc != mc.world {
		return
	}
	if mc.nsettle >= len(mc.settle) {
		throw("mc: too many settlers")
	}
	mc.settle[mc.nsettle].set(gp)
	mc.nsettle++
	gopark(nil, nil, waitReasonZero, traceEvNone, 1)
}

// mcCalm switches exploration of scheduling decisions off and on.
//
//go:linkname mcCalm runtime.mcCalm
func mcCalm(on bool) {
	gp := getg()
	if mc.on && gp.mc == mc.world {
		mc.calm = on
	}
}

//go:linkname mcInWorld runtime.mcInWorld
func mcInWorld() bool {
	gp := getg()
	return mc.on && gp.mc == mc.world
}

//go:linkname mcGid runtime.mcGid
func mcGid() uint32 { return getg().mcid }

//go:linkname mcGoid runtime.mcGoid
func mcGoid() int64 { return getg().goid }

// mcgw is the world a timer armed now belongs to.
func mcgw() uint32 {
	if mc.timerW != 0 {
		return mc.timerW
	}
	gp := getg().m.curg
	if gp != nil && mc.on && gp.mc == mc.world {
		return gp.mc
	}
	return 0
}

// mcselorder decides which of several ready cases a select takes, by moving
// it to the front of the poll order. All channels are locked.
func mcselorder(scases []scase, pollorder []uint16, nsends int) {
	n := 0
	for _, ci := range pollorder {
		if mcselready(&scases[ci], int(ci) < nsends) {
			n++
		}
	}
	if n < 2 {
		return
	}
	k := mcchoose(n, mcKindSelect, getg().mcid)
	if k == 0 {
		return
	}
	for i, ci := range pollorder {
		if mcselready(&scases[ci], int(ci) < nsends) {
			if k == 0 {
				pollorder[0], pollorder[i] = pollorder[i], pollorder[0]
				return
			}
			k--
		}
	}
}

func mcselready(cas *scase, send bool) bool {
	c := cas.c
	if send {
		return c.closed != 0 || c.recvq.first != nil || c.qcount < c.dataqsiz
	}
	return c.sendq.first != nil || c.qcount > 0 || c.closed != 0
}
