package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// sharedEntries: two providers advertise the same entry blocks at the same
// time. Cleaning up after one must not disturb the other.
func sharedEntries(w *mcrt.World) {
	hamt := w.Choose(2, "hamt") == 1
	ds := sim.NewDS()
	ix := siming.NewIndex(ds)
	pa, pb := siming.NewPub(provA, 1), siming.NewPub(provB, 2)
	web := siming.NewWeb(pa, pb)
	_ = web
	ic := ingCfg()
	ic.IngestWorkerCount = 2
	// Keeps the two in step.
	ic.RateLimit = config.RateLimit{Apply: true, BlocksPerSecond: 2, BurstSize: 1}
	s := newSys(w, ds, ix, regCfg(), ic)
	m := siming.NewModel()
	for _, p := range []*siming.Pub{pa, pb} {
		a := siming.AdSpec{Kind: "add", Prov: p.Peer, Ctx: "c1", Meta: "v", Chunks: [][]string{{"m1"}, {"m2", "m3"}, {"m4"}}, Hamt: hamt}
		p.Add(a)
		m.Apply(a)
	}
	failed := make([]string, 2)
	w.Par(
		func() {
			if c, ok := s.sync(pa, time.Hour); !ok {
				w.Fail("C09", "sync hangs", "the sync of A does not complete")
			} else if c != pa.Head {
				failed[0] = "A"
			}
		},
		func() {
			if c, ok := s.sync(pb, time.Hour); !ok {
				w.Fail("C09", "sync hangs", "the sync of B does not complete")
			} else if c != pb.Head {
				failed[1] = "B"
			}
		})
	mcrt.Calm(true)
	if w.Failed() {
		return
	}
	settle()
	if f := strings.Join(failed, ""); f != "" {
		w.Fail("C18", "shared entries removed", "hamt=%v: the sync of %s failed, because entry blocks that it had in common with another provider's advertisement were removed", hamt, f)
		// It has to work when tried again.
		for _, p := range []*siming.Pub{pa, pb} {
			if !s.trigger("sync", p) {
				return
			}
		}
		settle()
	}
	s.checkIdle(m, fmt.Sprintf("shared entries, hamt=%v", hamt), pa, pb)
	w.Observe("%v %s", failed, ix.Contents(allMH))
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "ing-shared", Prop: "C18", Props: []string{"C18", "C01"}, Run: sharedEntries, Quick: 1, Thorough: 2, Race: -1, RaceThorough: 0, Weight: 2, Horizon: 400 * time.Hour})
}
