package main

import (
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// tune: settings change while a chain is ingested.
func tune(w *mcrt.World) {
	ds := sim.NewDS()
	ix := siming.NewIndex(ds)
	p := siming.NewPub(provA, 1)
	siming.NewWeb(p)
	s := newSys(w, ds, ix, regCfg(), ingCfg())
	m := siming.NewModel()
	for i, k := range [][]string{{"add2", "hamtother"}, {"hamt", "rm", "add3"}}[w.Choose(2, "chain")] {
		a := adKind(k, i, provA)
		p.Add(a)
		m.Apply(a)
	}
	what := w.Pick("change", "batch size -1", "batch size 3", "two workers", "one worker less")
	if what == "one worker less" {
		s.ing.RunWorkers(2)
	}
	w.Par(func() {
		c, ok := s.sync(p, time.Hour)
		if !ok || c != p.Head {
			w.Fail("C09", "sync result", "%s during a sync: it returns %v", what, c)
		}
	}, func() {
		switch what {
		case "batch size -1":
			s.ing.SetBatchSize(-1)
		case "batch size 3":
			s.ing.SetBatchSize(3)
		case "two workers":
			s.ing.RunWorkers(2)
		case "one worker less":
			s.ing.RunWorkers(1)
		}
	})
	if w.Failed() {
		return
	}
	settle()
	s.checkIdle(m, what+" during a sync", p)
	a := adKind("other", len(p.Ads), provA)
	p.Add(a)
	m.Apply(a)
	if s.trigger("sync", p) {
		settle()
		s.checkIdle(m, what+" during a sync, and then another", p)
	}
	w.Observe("%s", ix.Contents(allMH))
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "ing-tune", Prop: "C01", Props: []string{"C01", "C09", "C18"}, Run: tune, Quick: 1, Thorough: 2, Race: 0, RaceThorough: 1, Horizon: 400 * time.Hour})
}
