package main

import (
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// announceBusy: announcements, one after the other, that arrive while the
// provider's earlier advertisement is being fetched and ingested, in
// particular just when that ends.
func announceBusy(slows, hows []string, maxN, workers int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		web := siming.NewWeb(p)
		slow := w.Pick("slow", slows...)
		ic := ingCfg()
		ic.IngestWorkerCount = 1 + w.Choose(workers, "workers")
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		first := adKind("add", 0, provA)
		p.Add(first)
		m.Apply(first)
		target := p.Ads[0].Cid.String()
		if slow == "entries" {
			target = p.Ads[0].Entries[0].String()
		}
		if slow == "mark" { // the last write of the first advertisement is slow
			var once bool
			ds.Fault = func(kind, key string) error {
				if kind == "put" && strings.HasPrefix(key, "/sync/") && !once {
					once = true
					time.Sleep(5 * time.Second)
				}
				return nil
			}
			target = "none"
		}
		web.Fault = func(host, path string) (int, time.Duration) {
			if path == target {
				return 0, 5 * time.Second
			}
			return 0, 0
		}
		n := 1 + w.Choose(maxN, "further announcements")
		mid := n == 2 && w.Choose(2, "second one early") == 1
		how := w.Pick("first by", hows...)
		done := w.Go(func() {
			if how == "announce" {
				if err := s.announce(p, p.Head); err != nil {
					w.Fail("C10", "announce error", "announcement refused: %v", err)
				}
			} else if _, ok := s.sync(p, time.Hour); !ok {
				w.Fail("C09", "sync hangs", "a sync did not complete")
			}
		})
		for i := 0; i < n; i++ {
			if i == 0 && mid {
				time.Sleep(2 * time.Second)
			} else if i == 0 {
				time.Sleep(5 * time.Second)
			} else if mid {
				time.Sleep(3 * time.Second)
			}
			a := adKind([]string{"other", "add2"}[i], i+1, provA)
			p.Add(a)
			m.Apply(a)
			if err := s.announce(p, p.Head); err != nil {
				w.Fail("C10", "announce error", "announcement refused: %v", err)
			}
		}
		<-done
		settle()
		what := strings.Join([]string{"slow", slow, how}, " ")
		if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
			w.Fail("C10", "announcement lost", "%s: %d further announcements while the first advertisement was busy: the last announced head was not ingested\n got: %s\nwant: %s", what, n, got, want)
		}
		w.Observe("%s %v %s", what, mid, ix.Contents(allMH))
	}
}

func init() {
	reg := func(name string, quick, thorough, race int, run func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C10", Props: []string{"C10", "C09"}, Run: run, Quick: quick, Thorough: thorough, Race: race, RaceThorough: 1, Weight: 2, Horizon: 400 * time.Hour})
	}
	reg("ing-announce", 1, 2, 0, announceBusy([]string{"ad", "entries", "mark"}, []string{"announce", "sync"}, 2, 2))
	reg("ing-announce-end", 2, 3, 1, announceBusy([]string{"mark"}, []string{"announce"}, 1, 1))
}
