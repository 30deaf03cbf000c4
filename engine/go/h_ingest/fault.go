package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
)

// faulter makes operations of the environment fail: at every operation it is
// chosen whether it works.
type faulter struct {
	w       *mcrt.World
	n       int   // operations so far
	left    int   // failures that may still be chosen
	burst   []int // how many of the next operations fail as well
	until   int   // operations up to this one fail
	webs    []int // how a web request fails
	web     int   // how the web requests of a burst fail
	hit     []string
	only    string // kind of operation that can fail
	off     bool
	deletes bool
}

func (f *faulter) op(what string) bool {
	if f.off || !strings.HasPrefix(what, f.only) {
		return false
	}
	f.n++
	if f.n > f.until {
		if f.left == 0 || f.w.Choose(2, "fails") == 0 {
			return false
		}
		f.left--
		if len(f.burst) > 0 {
			f.until = f.n + f.burst[f.w.Choose(len(f.burst), "more failures")]
		}
	}
	f.hit = append(f.hit, fmt.Sprintf("%s (operation %d)", what, f.n))
	if strings.HasPrefix(what, "datastore del") {
		f.deletes = true
	}
	return true
}

func (f *faulter) install(ds *sim.DS, ix *siming.Index, web *siming.Web) {
	ds.Fault = func(kind, key string) error {
		if f.op("datastore " + kind + " " + key) {
			return sim.ErrInjected
		}
		return nil
	}
	ix.Fault = func(kind string) error {
		if f.op("index " + kind) {
			return sim.ErrInjected
		}
		return nil
	}
	web.Fault = func(host, path string) (int, time.Duration) {
		if f.op("fetch " + path) {
			if f.web == 0 {
				f.web = f.webs[f.w.Choose(len(f.webs), "how a fetch fails")]
			}
			return f.web, 0
		}
		return 0, 0
	}
}

// faults: one or two faults anywhere while a chain is ingested, then a retry
// with everything working.
func faults(chains [][]string, count int, burst []int, prior bool, webs []int, hows []string, cfg func(w *mcrt.World, c *config.Ingest), only string) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		web := siming.NewWeb(p)
		ic := ingCfg()
		if cfg != nil {
			cfg(w, &ic)
		}
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		if prior {
			a := adKind("add2", 0, provA)
			p.Add(a)
			m.Apply(a)
			if !s.trigger("sync", p) {
				return
			}
			settle()
		}
		base := len(p.Ads)
		chain := chains[w.Choose(len(chains), "chain")]
		for i, k := range chain {
			a := adKind(k, base+i, provA)
			p.Add(a)
			m.Apply(a)
		}
		f := &faulter{w: w, left: count, burst: burst, webs: webs, only: only}
		first := w.Pick("first", hows...)
		f.install(ds, ix, web)
		var res cid.Cid
		switch first {
		case "sync", "resync":
			ch, err := s.ing.Sync(bg, p.Peer.ID, p.Addr, 0, first == "resync")
			if err != nil {
				w.Fail("C09", "sync error", "sync: %v", err)
				return
			}
			select {
			case res = <-ch:
			case <-time.After(time.Hour):
				w.Fail("C09", "sync hangs", "chain %v, failed: %v: the sync did not complete", chain, f.hit)
				return
			}
		case "announce":
			s.announce(p, p.Head) // may fail
			settle()
		}
		settle()
		f.off = true
		mcrt.Calm(true)
		defer mcrt.Calm(false)
		what := fmt.Sprintf("chain %v, %s, failed: %v", chain, first, f.hit)
		if res != cid.Undef {
			if res != p.Head {
				w.Fail("C09", "sync result", "%s: the sync returned %v", what, res)
			} else if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C09", "sync incomplete", "%s: the sync reported success but the index is incomplete\n got: %s\nwant: %s", what, got, want)
				w.Fail("C02", "sync incomplete", "%s: the sync reported success but the index is incomplete\n got: %s\nwant: %s", what, got, want)
			}
		}
		// What is recorded as processed, and as the latest sync, is in the index.
		s.checkMarks(what, p, first == "resync")
		if w.Failed() {
			return
		}
		// Try again.
		thens := []string{"sync", "announce"}
		if first == "resync" {
			thens = append(thens, "resync")
		}
		then := w.Pick("then", thens...)
		what += ", then " + then
		if !s.trigger(then, p) {
			w.Fail("C02", "retry", "%s: the retry did not reach the head", what)
			return
		}
		settle()
		if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
			w.Fail("C02", "data lost", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
			return
		}
		if l, _ := s.ing.GetLatestSync(p.Peer.ID); l != p.Head && then == "sync" {
			// The head may be recorded as processed only.
			if !processed(ds, p.Head) {
				w.Fail("C02", "latest sync", "%s: the latest sync is not the head", what)
			}
		}
		_, ents := leftovers(ds, p)
		if len(ents) > 0 && !f.deletes && (first != "resync" || then == "resync") {
			w.Fail("C18", "entries left", "%s: entry blocks left in the datastore: %v", what, ents)
		}
		// And the next advertisement.
		a := adKind("add3", len(p.Ads), provA)
		p.Add(a)
		m.Apply(a)
		if s.trigger("sync", p) {
			settle()
			if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C02", "data lost", "%s, and one more: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
			}
		}
		w.Observe("%d %v", len(f.hit), res != cid.Undef)
	}
}

// checkMarks: everything recorded as processed is in the index, except what a
// newer advertisement that is not recorded yet has changed already.
func (s *sys) checkMarks(what string, p *siming.Pub, resync bool) {
	top := -1
	for i, a := range p.Ads {
		if processed(s.ds, a.Cid) {
			top = i
		}
	}
	l, err := s.ing.GetLatestSync(p.Peer.ID)
	if err == nil && l != cid.Undef {
		for i, a := range p.Ads {
			if a.Cid == l && i > top && !resync {
				s.w.Fail("C02", "latest sync ahead", "%s: the latest sync is advertisement %d, which is not recorded as processed", what, i)
			}
		}
	}
	m := siming.NewModel()
	for i := 0; i <= top; i++ {
		m.Apply(p.Ads[i].AdSpec)
	}
	if top+1 < len(p.Ads) {
		// The next one may be there in part, with or without newer ones when
		// writing the record failed.
		var touched []string
		for _, a := range p.Ads[top+1:] {
			touched = append(touched, a.Prov.Name+"/"+a.Ctx+"/")
		}
		got, want := siming.Without(s.ix.Contents(allMH), touched), siming.Without(m.Contents(allMH), touched)
		if got != want {
			s.w.Fail("C02", "mark ahead of index", "%s: advertisement %d is recorded as processed but the index does not have it\n got: %s\nwant: %s", what, top, got, want)
		}
		return
	}
	if got, want := s.ix.Contents(allMH), m.Contents(allMH); got != want {
		s.w.Fail("C02", "mark ahead of index", "%s: everything is recorded as processed but the index does not have it\n got: %s\nwant: %s", what, got, want)
	}
}

func init() {
	reg := func(name string, quick, thorough, wt int, run func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C09", Props: []string{"C02", "C09", "C18"}, Run: run, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Weight: wt, Horizon: 400 * time.Hour})
	}
	chains := [][]string{{"add3", "other"}, {"hamt", "update", "rm"}, {"add2", "rmother", "add"}, {"other", "add3", "hamtother"}, {"rm", "other"}}
	reg("ing-fault-1", 0, 0, 2, faults(chains, 1, []int{0, 1, 2, 1000}, true, []int{-1, -2, 404, 500}, []string{"sync", "announce"}, nil, ""))
	reg("ing-fault-resync", 0, 0, 2, faults(chains, 1, []int{0, 1000}, true, []int{-1, 404}, []string{"resync"}, nil, ""))
	reg("ing-fault-2", 0, 0, 2, faults([][]string{{"add3", "other"}, {"hamt", "rm"}}, 2, nil, false, []int{-1, 404}, []string{"sync", "announce"}, nil, ""))
	reg("ing-fault-3", -1, 0, 8, faults(chains, 2, nil, true, []int{-1, 404}, []string{"sync", "announce", "resync"}, nil, ""))
	reg("ing-fault-par", 1, 2, 3, faults([][]string{{"add"}, {"add2"}, {"hamtother", "rmother"}}, 1, nil, false, []int{-1}, []string{"sync", "announce"}, nil, ""))
}
