#!/usr/bin/env python3
"""Write patched copies of Go 1.18 runtime/sync files into OUT and print the
overlay map {original path: patched path}. Every patch asserts that the text
it replaces is there exactly the expected number of times."""
import json, os, re, sys

def main(goroot, out):
    here = os.path.dirname(os.path.abspath(__file__))
    os.makedirs(out, exist_ok=True)
    rep = {}

    def patch(rel, edits):
        src = os.path.join(goroot, 'src', rel)
        s = open(src).read()
        for e in edits:
            old, new = e[0], e[1]
            cnt = e[2] if len(e) > 2 else 1
            if s.count(old) != cnt:
                raise SystemExit('mkrt: %s: %r found %d times, want %d' % (rel, old, s.count(old), cnt))
            s = s.replace(old, new)
        dst = os.path.join(out, rel.replace('/', '__'))
        write(dst, s)
        rep[src] = dst

    def write(dst, s):
        if os.path.exists(dst) and open(dst).read() == s:
            return
        open(dst, 'w').write(s)

    def add(rel, name):
        s = open(os.path.join(here, name)).read()
        dst = os.path.join(out, rel.replace('/', '__'))
        write(dst, s)
        rep[os.path.join(goroot, 'src', rel)] = dst

    add('runtime/mc.go', 'mc.go')
    add('runtime/mc_amd64.s', 'mc_amd64.s')
    add('runtime/debug/mc.go', 'mcdebug.go')

    patch('runtime/runtime2.go', [(
        "	tracking       bool     // whether we're tracking this G for sched latency statistics\n",
        "	tracking       bool     // whether we're tracking this G for sched latency statistics\n"
        "	mcbg           bool\n	mcroot         bool\n	mc             uint32\n	mcid           uint32\n")])
    patch('runtime/time_nofake.go', [("	return nanotime1()\n", "	if mc.vt != 0 {\n		return mc.vt\n	}\n	return nanotime1()\n")])
    patch('runtime/timeasm.go', [(
        "//go:linkname time_now time.now\nfunc time_now() (sec int64, nsec int32, mono int64)\n",
        "func mcrealnow() (sec int64, nsec int32, mono int64)\n\n"
        "//go:linkname time_now time.now\nfunc time_now() (sec int64, nsec int32, mono int64) {\n"
        "	if mc.vt != 0 {\n		return mc.vt / 1e9, int32(mc.vt % 1e9), mc.vt\n	}\n	return mcrealnow()\n}\n")])
    patch('runtime/time_linux_amd64.s', [("TEXT time·now<ABIInternal>", "TEXT runtime·mcrealnow<ABIInternal>")])
    patch('runtime/alg.go', [
        ("	getRandomData(aeskeysched[:])\n", "	for i := range aeskeysched {\n		aeskeysched[i] = byte(i*37 + 11)\n	}\n"),
        ("	getRandomData((*[len(hashkey) * goarch.PtrSize]byte)(unsafe.Pointer(&hashkey))[:])\n",
         "	for i := range hashkey {\n		hashkey[i] = uintptr(i)*0x9e3779b97f4a7c15>>3 + 77\n	}\n"),
    ])
    for f, n in (('map.go', 4), ('map_fast32.go', 1), ('map_fast64.go', 1), ('map_faststr.go', 1)):
        ed = [("h.hash0 = fastrand()", "h.hash0 = 0x5bd1e995", n)]
        if f == 'map.go':
            ed.append(("	r := uintptr(fastrand())\n	if h.B > 31-bucketCntBits {\n		r += uintptr(fastrand()) << 31\n	}\n",
                       "	r := uintptr(0)\n"
                       "	if mc.on {\n"
                       "		if gp := getg(); gp.mc == mc.world && gp == gp.m.curg && !gp.mcbg && h.count > 1 && mcinteresting(getcallerpc()) {\n"
                       "			n := h.count\n			if n > 8 {\n				n = 8\n			}\n"
                       "			r = uintptr(mcchoose(n, mcKindMap, gp.mcid)) << h.B\n"
                       "		}\n	}\n"))
        patch('runtime/' + f, ed)
    patch('runtime/time.go', [
        ("	// The status field holds one of the values below.\n	status uint32\n}",
         "	// The status field holds one of the values below.\n	status uint32\n	mcw    uint32 // world that armed it (fits in padding)\n}"),
        ("	t.status = timerWaiting\n\n	when := t.when\n", "	t.status = timerWaiting\n	t.mcw = mcgw()\n\n	when := t.when\n"),
        ("	status := uint32(timerNoStatus)\n	wasRemoved := false\n", "	t.mcw = mcgw()\n	status := uint32(timerNoStatus)\n	wasRemoved := false\n"),
        ("	resettimer(t, t.nextwhen)\n	return true\n", "	resettimer(t, t.nextwhen)\n	if mc.on && gp.mc == mc.world {\n		t.mcw = gp.mc\n	}\n	return true\n"),
        ("	unlock(&pp.timersLock)\n\n	f(arg, seq)\n\n	lock(&pp.timersLock)\n",
         "	mcw := t.mcw\n	unlock(&pp.timersLock)\n\n"
         "	if mcw == 0 || mc.on && mcw == mc.world {\n		mc.timerW = mcw\n		f(arg, seq)\n		mc.timerW = 0\n	}\n\n"
         "	lock(&pp.timersLock)\n"),
    ])
    patch('runtime/chan.go', [
        ("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n	if mc.on {\n		mcpoint(getcallerpc())\n	}\n"),
        ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	if mc.on {\n		mcpoint(getcallerpc())\n	}\n"),
        ("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n	if mc.on {\n		mcpoint(getcallerpc())\n	}\n"),
        ("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n	if mc.on {\n		mcpoint(getcallerpc())\n	}\n"),
        ("func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n	if mc.on {\n		mcpoint(getcallerpc())\n	}\n"),
        ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n	if mc.on {\n		mcpoint(getcallerpc())\n	}\n"),
    ])
    patch('runtime/select.go', [
        ("	if debugSelect {\n		print(\"select: cas0=\", cas0, \"\\n\")\n	}\n",
         "	if debugSelect {\n		print(\"select: cas0=\", cas0, \"\\n\")\n	}\n"
         "	mcsel := false\n	mcint := false\n	if mc.on {\n		if gp := getg(); gp.mc == mc.world {\n			mcsel = true\n			mcint = !gp.mcbg && mcinteresting(getcallerpc())\n			mcpoint(getcallerpc())\n		}\n	}\n"),
        ("		j := fastrandn(uint32(norder + 1))\n",
         "		var j uint32\n		if mcsel {\n			j = uint32(norder)\n		} else {\n			j = fastrandn(uint32(norder + 1))\n		}\n"),
        ("	sellock(scases, lockorder)\n\n	var (\n",
         "	sellock(scases, lockorder)\n\n	if mcint {\n		mcselorder(scases, pollorder, nsends)\n	}\n\n	var (\n"),
    ])
    patch('runtime/proc.go', [
        ("	casgstatus(gp, _Gwaiting, _Grunnable)\n	runqput(_g_.m.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n",
         "	casgstatus(gp, _Gwaiting, _Grunnable)\n	if gp.mc != 0 {\n		mcready(gp)\n		wakep()\n		releasem(mp)\n		return\n	}\n	runqput(_g_.m.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n"),
        ("		_p_ := getg().m.p.ptr()\n		runqput(_p_, newg, true)\n",
         "		_p_ := getg().m.p.ptr()\n		if newg.mc != 0 {\n			mcready(newg)\n		} else {\n			runqput(_p_, newg, true)\n		}\n"),
        ("	newg.gopc = callerpc\n", "	newg.gopc = callerpc\n	newg.mcroot = false\n	mcnewg(newg, callergp, callerpc)\n"),
        # park_m
        ("	casgstatus(gp, _Grunning, _Gwaiting)\n	dropg()\n\n	if fn := _g_.m.waitunlockf; fn != nil {\n",
         "	casgstatus(gp, _Grunning, _Gwaiting)\n	dropg()\n	if gp.mc != 0 {\n		mcblocked(gp)\n	}\n\n	if fn := _g_.m.waitunlockf; fn != nil {\n"),
        ("			casgstatus(gp, _Gwaiting, _Grunnable)\n			execute(gp, true) // Schedule it back, never returns.\n",
         "			casgstatus(gp, _Gwaiting, _Grunnable)\n			if gp.mc != 0 && mc.on && gp.mc == mc.world {\n				mc.cur.set(gp)\n			}\n			execute(gp, true) // Schedule it back, never returns.\n"),
        # goschedImpl
        ("	casgstatus(gp, _Grunning, _Grunnable)\n	dropg()\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	schedule()\n",
         "	casgstatus(gp, _Grunning, _Grunnable)\n	dropg()\n	if gp.mc != 0 {\n		mcblocked(gp)\n		mcready(gp)\n		schedule()\n	}\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	schedule()\n"),
        # goyield_m
        ("	casgstatus(gp, _Grunning, _Grunnable)\n	dropg()\n	runqput(pp, gp, false)\n	schedule()\n",
         "	casgstatus(gp, _Grunning, _Grunnable)\n	dropg()\n	if gp.mc != 0 {\n		mcblocked(gp)\n		mcready(gp)\n		schedule()\n	}\n	runqput(pp, gp, false)\n	schedule()\n"),
        # goexit0
        ("	casgstatus(gp, _Grunning, _Gdead)\n	gcController.addScannableStack(_p_, -int64(gp.stack.hi-gp.stack.lo))\n",
         "	casgstatus(gp, _Grunning, _Gdead)\n	if gp.mc != 0 {\n		mcblocked(gp)\n		if gp.mcroot && mc.on && gp.mc == mc.world {\n			mcfinish(mcStDone)\n		}\n		gp.mc = 0\n		gp.mcroot = false\n	}\n	gcController.addScannableStack(_p_, -int64(gp.stack.hi-gp.stack.lo))\n"),
        # findrunnable
        ("	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n",
         "	if mc.on {\n		gp, again := mcpick(_p_)\n		if again {\n			goto top\n		}\n		if gp != nil {\n			return gp, false\n		}\n	}\n\n"
         "	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"),
        ("	if gp == nil || gp == mp.g0 {\n		return false\n	}\n\n	gp.preempt = true\n",
         "	if gp == nil || gp == mp.g0 {\n		return false\n	}\n	if mc.on && gp.mc == mc.world {\n		return false\n	}\n\n	gp.preempt = true\n"),
        ("const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"),
    ])

    def points(rel, names, decl):
        src = os.path.join(goroot, 'src', rel)
        s = open(src).read()
        for sig in names:
            pat = 'func ' + sig + ' {\n'
            if s.count(pat) != 1:
                raise SystemExit('mkrt: %s: %r not found' % (rel, sig))
            s = s.replace(pat, '//go:noinline\n' + pat + '\truntime_mcpoint()\n')
        s += decl
        dst = os.path.join(out, rel.replace('/', '__'))
        write(dst, s)
        rep[src] = dst
    points('sync/mutex.go', ['(m *Mutex) Lock()', '(m *Mutex) TryLock() bool', '(m *Mutex) Unlock()'], '\nfunc runtime_mcpoint()\n')
    points('sync/rwmutex.go', ['(rw *RWMutex) RLock()', '(rw *RWMutex) TryRLock() bool', '(rw *RWMutex) RUnlock()', '(rw *RWMutex) Lock()', '(rw *RWMutex) TryLock() bool', '(rw *RWMutex) Unlock()'], '')
    points('sync/waitgroup.go', ['(wg *WaitGroup) Add(delta int)', '(wg *WaitGroup) Done()', '(wg *WaitGroup) Wait()'], '')
    points('sync/once.go', ['(o *Once) Do(f func())'], '')
    points('sync/cond.go', ['(c *Cond) Wait()', '(c *Cond) Signal()', '(c *Cond) Broadcast()'], '')
    points('sync/map.go', ['(m *Map) Load(key any) (value any, ok bool)', '(m *Map) Store(key, value any)', '(m *Map) LoadOrStore(key, value any) (actual any, loaded bool)', '(m *Map) LoadAndDelete(key any) (value any, loaded bool)', '(m *Map) Range(f func(key, value any) bool)'], '')
    points('sync/atomic/value.go', ['(v *Value) Load() (val any)', '(v *Value) Store(val any)', '(v *Value) Swap(new any) (old any)', '(v *Value) CompareAndSwap(old, new any) (swapped bool)'], '\nfunc runtime_mcpoint()\n')
    # servers and hosts of a simulated daemon
    patch('net/http/server.go', [
        ("func (srv *Server) Serve(l net.Listener) error {\n", "// McServe stands for Serve and McShutdown for Shutdown if set.\nvar McServe func(srv *Server, l net.Listener) error\nvar McShutdown func(srv *Server, ctx context.Context) error\n\nfunc (srv *Server) Serve(l net.Listener) error {\n	if McServe != nil {\n		return McServe(srv, l)\n	}\n"),
        ("func (srv *Server) Shutdown(ctx context.Context) error {\n", "func (srv *Server) Shutdown(ctx context.Context) error {\n	if McShutdown != nil {\n		return McShutdown(srv, ctx)\n	}\n"),
    ])
    return rep

def modules(dirs, out):
    """Patched copies of files of dependencies; dirs: {module: directory}."""
    rep = {}
    for mod, rel, old, new in (
        ('github.com/libp2p/go-libp2p', 'libp2p.go', "func New(opts ...Option) (host.Host, error) {\n",
         "// McNew stands for New if set.\nvar McNew func(opts ...Option) (host.Host, error)\n\nfunc New(opts ...Option) (host.Host, error) {\n	if McNew != nil {\n		return McNew(opts...)\n	}\n"),
        ('github.com/ipfs/go-ds-leveldb', 'datastore.go', "func NewDatastore(path string, opts *Options) (*Datastore, error) {\n",
         "func NewDatastore(path string, opts *Options) (*Datastore, error) {\n	mcPath := path\n	if McMemory {\n		path = \"\"\n	}\n"),
        ('github.com/ipfs/go-ds-leveldb', 'datastore.go', "type Datastore struct {\n", "// McMemory keeps datastores in memory if set.\nvar McMemory bool\n\n// McStorage is where datastores in memory are kept if set.\nvar McStorage func(path string) storage.Storage\n\ntype Datastore struct {\n"),
        ('github.com/ipfs/go-ds-leveldb', 'datastore.go', "		db, err = leveldb.Open(storage.NewMemStorage(), &nopts)\n", "		var st storage.Storage\n		if McStorage != nil {\n			st = McStorage(mcPath)\n		}\n		if st == nil {\n			st = storage.NewMemStorage()\n		}\n		db, err = leveldb.Open(st, &nopts)\n"),
    ):
        src = os.path.join(dirs[mod], rel)
        dst = os.path.join(out, (mod + '/' + rel).replace('/', '__'))
        s = open(dst if src in rep else src).read()
        if s.count(old) != 1:
            raise SystemExit('mkrt: %s: %r found %d times' % (src, old, s.count(old)))
        s = s.replace(old, new)
        rep[src] = dst
        open(dst, 'w').write(s)
    return rep

if __name__ == '__main__':
    print(json.dumps(main(sys.argv[1], sys.argv[2]), indent=1))
