package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// multi: one publisher has advertisements of two providers in its chain.
func multi(n int, kinds []string, triggers []string, workers ...int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(pubP, 1)
		siming.NewWeb(p)
		ic := ingCfg()
		ic.IngestWorkerCount = workers[w.Choose(len(workers), "workers")]
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		var desc []string
		for i := 0; i < n; i++ {
			prov := []*sim.Peer{provA, provB}[w.Choose(2, "provider")]
			k := w.Pick(fmt.Sprintf("ad %d", i), kinds...)
			a := adKind(k, i, prov)
			a.Signer = pubP
			if prov == provB && len(a.Chunks) > 0 {
				a.Chunks = [][]string{{"m2"}, {"m3", "m5"}, {"m6", "m7"}} // no block in common with A
			}
			p.Add(a)
			m.Apply(a)
			ts := triggers
			if i == n-1 {
				ts = []string{"sync", "announce"}
			}
			how := w.Pick("then", ts...)
			desc = append(desc, prov.Name+" "+k, how)
			if !s.trigger(how, p) {
				return
			}
			what := strings.Join(desc, " ")
			if how == "sync" {
				if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
					w.Fail("C09", "several providers, sync answered early", "%s: the sync reported success but the index is incomplete\n got: %s\nwant: %s", what, got, want)
				}
			}
			if how != "nothing" && how != "restart" {
				settle()
				got, want := ix.Contents(allMH), m.Contents(allMH)
				if got != want {
					w.Fail("C01", "index differs", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
					return
				}
				if l, _ := s.ing.GetLatestSync(p.Peer.ID); l != p.Head {
					w.Fail("C01", "several providers, latest sync", "%s: the latest sync is not the head", what)
				}
				for i, a := range p.Ads {
					if !processed(ds, a.Cid) {
						w.Fail("C01", "not marked", "%s: advertisement %d is not recorded as processed", what, i)
					}
				}
				// (fetched again when the latest sync is not the head)
				if _, ents := leftovers(ds, p); len(ents) > 0 {
					w.Fail("C18", "entries left", "%s: entry blocks left in the datastore: %v", what, ents)
				}
			}
		}
		w.Observe("%s", ix.Contents(allMH))
	}
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "ing-multi", Prop: "C01", Props: []string{"C01", "C09", "C18"}, Run: multi(3, []string{"add2", "other", "rm"}, []string{"nothing", "sync", "announce"}, 1, 2), Quick: 0, Thorough: 1, Race: -1, RaceThorough: -1, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
}
