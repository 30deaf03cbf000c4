package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
)

// parSync: clients that each publish one more advertisement and ask for it to
// be ingested, all at the same time.
func parSync(kinds []string, triggers []string, workers int, prior bool, others int, clients []string) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		siming.NewWeb(p)
		ic := ingCfg()
		ic.IngestWorkerCount = workers
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		if prior {
			mcrt.Calm(true)
			a := adKind("add2", 0, provA)
			p.Add(a)
			m.Apply(a)
			if !s.trigger("sync", p) {
				return
			}
			settle()
			mcrt.Calm(false)
		}
		base := len(p.Ads)
		for i, k := range kinds {
			a := adKind(k, base+i, provA)
			p.Add(a)
			m.Apply(a)
		}
		ads := p.Ads
		head := base - 1
		p.Head = cid.Undef
		if prior {
			p.Head = ads[head].Cid
		}
		var desc []string
		all := ""
		doSync := func(from int, resync bool) {
			ch, err := s.ing.Sync(bg, p.Peer.ID, p.Addr, 0, resync)
			if err != nil {
				w.Fail("C09", "sync error", "sync: %v", err)
				return
			}
			select {
			case c := <-ch:
				for j, a := range ads {
					if a.Cid == c && j >= from {
						for _, b := range ads[:j+1] {
							if !strings.Contains(all, "resync") && !processed(ds, b.Cid) {
								w.Fail("C09", "sync incomplete", "%v: a sync returned %d but an advertisement up to it is not processed", desc, j)
							}
						}
						return
					}
				}
				if c == cid.Undef && strings.Contains(all, "resync") {
					return // a resync can make concurrent syncs fail
				}
				w.Fail("C09", "sync result", "%v: a sync started when the head was %d returned %v", desc, from, c)
			case <-time.After(time.Hour):
				w.Fail("C09", "sync hangs", "%v: a sync did not complete", desc)
			}
		}
		// the publisher publishes and triggers in order
		var hows []string
		for i := range kinds {
			hows = append(hows, w.Pick(fmt.Sprintf("publisher %d", i), triggers...))
		}
		desc = append(desc, hows...)
		fs := []func(){func() {
			for i, how := range hows {
				head = base + i
				p.Head = ads[head].Cid
				if how == "announce" {
					if err := s.announce(p, p.Head); err != nil {
						w.Fail("C10", "announce error", "announcement refused: %v", err)
					}
				} else {
					doSync(head, how == "resync")
				}
			}
		}}
		// others ask for a sync
		for i := 0; i < others; i++ {
			how := w.Pick(fmt.Sprintf("client %d", i), clients...)
			desc = append(desc, "||", how)
			if how != "none" {
				fs = append(fs, func() {
					if head >= 0 {
						doSync(head, how == "resync")
					} else {
						head = 0
						p.Head = ads[0].Cid
						doSync(0, how == "resync")
					}
				})
			}
		}
		all = strings.Join(desc, " ")
		w.Par(fs...)
		if w.Failed() {
			return
		}
		settle()
		// what the last announcement or sync asked for
		got, want := ix.Contents(allMH), m.Contents(allMH)
		if got != want && !strings.Contains(all, "resync") {
			l, _ := s.ing.GetLatestSync(p.Peer.ID)
			if l != p.Head {
				w.Fail("C10", "announcement lost", "%v: the announced head was not ingested\n got: %s\nwant: %s", desc, got, want)
			} else {
				w.Fail("C01", "index differs", "%v: the index is not the replay of the chain\n got: %s\nwant: %s", desc, got, want)
			}
			return
		}
		for i, a := range ads {
			if !strings.Contains(all, "resync") && !processed(ds, a.Cid) {
				w.Fail("C01", "not marked", "%v: advertisement %d is not recorded as processed", desc, i)
			}
		}
		_, ents := leftovers(ds, p)
		if len(ents) > 0 {
			w.Fail("C18", "entries left", "%v: entry blocks left in the datastore: %v", desc, ents)
		}
		// and the indexer still works
		mcrt.Calm(true)
		a := adKind("add3", len(ads), provA)
		p.Add(a)
		m.Apply(a)
		if s.trigger("sync", p) {
			settle()
			if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C01", "index differs", "%v and one more: the index is not the replay of the chain\n got: %s\nwant: %s", desc, got, want)
			}
		}
		w.Observe("%v %s", desc, ix.Contents(allMH))
	}
}

func init() {
	props := []string{"C01", "C09", "C10", "C18"}
	mcrt.Register(&mcrt.Scenario{Name: "ing-par-2", Prop: "C09", Props: props, Run: parSync([]string{"add2", "rm"}, []string{"sync", "announce"}, 1, false, 1, []string{"none", "sync"}), Quick: 1, Thorough: 2, Race: 1, RaceThorough: 1, Weight: 3, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-par-1", Prop: "C09", Props: props, Run: parSync([]string{"add"}, []string{"sync", "announce"}, 1, false, 1, []string{"sync"}), Quick: 2, Thorough: 3, Race: 1, RaceThorough: 1, Weight: 2, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-par-3", Prop: "C09", Props: props, Run: parSync([]string{"add", "other", "add2"}, []string{"sync", "announce"}, 2, true, 2, []string{"none", "sync"}), Quick: 1, Thorough: 2, Race: 0, RaceThorough: 1, Weight: 3, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-par-resync", Prop: "C09", Props: []string{"C01", "C09"}, Run: parSync([]string{"add", "add2"}, []string{"sync", "announce"}, 1, true, 1, []string{"resync"}), Quick: 1, Thorough: 2, Race: 0, RaceThorough: 1, Weight: 2, Horizon: 400 * time.Hour})
}
