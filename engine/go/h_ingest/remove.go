package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/filecoin-project/storetheindex/server/finder/handler"
)

// found prints what find answers, like Contents.
func (s *sys) found(names []string) string {
	rsp, err := handler.NewFinderHandler(s.ix, s.reg).Find(siming.MHs(names))
	if err != nil {
		return "ERR " + err.Error()
	}
	by := map[string][]string{}
	for _, r := range rsp.MultihashResults {
		for _, p := range r.ProviderResults {
			by[string(r.Multihash)] = append(by[string(r.Multihash)], fmt.Sprintf("%s/%s/%s", siming.Names[p.Provider.ID], p.ContextID, p.Metadata))
		}
	}
	var out []string
	for _, n := range names {
		if rs := by[string(sim.MH(n))]; len(rs) > 0 {
			sort.Strings(rs)
			out = append(out, n+"="+strings.Join(rs, ","))
		}
	}
	return strings.Join(out, " ")
}

// removeSeq: all histories of publishing, removing, finding and returning.
func removeSeq(n int, steps, kinds []string) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		pa, pb := siming.NewPub(provA, 1), siming.NewPub(provB, 2)
		siming.NewWeb(pa, pb)
		rc := regCfg()
		ic := ingCfg()
		s := newSys(w, ds, ix, rc, ic)
		m := siming.NewModel() // what the chains say
		there := map[string]bool{}
		ads := 0
		publish := func(p *siming.Pub) bool {
			a := adKind(w.Pick("advertisement", kinds...), ads, p.Peer)
			ads++
			p.Add(a)
			m.Apply(a)
			return true
		}
		live := func() *siming.Model {
			r := m.Clone()
			for _, p := range []string{"A", "B"} {
				if !there[p] {
					r.Drop(p)
				}
			}
			return r
		}
		var desc []string
		check := func() bool {
			what := strings.Join(desc, " ")
			want := live().Contents(allMH)
			if got := s.found(allMH); got != want {
				w.Fail("C19", "find differs", "%s: find answers differ\n got: %s\nwant: %s", what, got, want)
				return false
			}
			mcrt.Settle()
			// Whatever was found of a removed provider is gone.
			if got := ix.Contents(allMH); got != want {
				w.Fail("C19", "data left", "%s: after a find, the index differs\n got: %s\nwant: %s", what, got, want)
				return false
			}
			for _, p := range []*sim.Peer{provA, provB} {
				if r := s.reg.IsRegistered(p.ID); r != there[p.Name] {
					w.Fail("C19", "registration", "%s: %s is registered: %v", what, p.Name, r)
					return false
				}
			}
			return true
		}
		for i := 0; i < n; i++ {
			step := w.Pick("step", steps...)
			desc = append(desc, step)
			switch step {
			case "syncA", "announceA", "sameA", "syncB", "announceB":
				p := pa
				if step == "syncB" || step == "announceB" {
					p = pb
				}
				if step != "sameA" {
					publish(p)
				}
				if p.Head.Defined() {
					how := "sync"
					if step == "announceA" || step == "announceB" {
						how = "announce"
					}
					if !s.trigger(how, p) {
						return
					}
					settle()
					there[p.Peer.Name] = true
					if got, want := siming.Without(ix.Contents(allMH), missing(there)), live().Contents(allMH); got != want {
						w.Fail("C19", "not restored", "%s: the index is not what the chains say\n got: %s\nwant: %s", strings.Join(desc, " "), got, want)
						return
					}
				}
			case "removeA":
				if err := s.reg.RemoveProvider(bg, provA.ID); err != nil {
					w.Fail("C19", "remove", "removing failed: %v", err)
					return
				}
				settle()
				there["A"] = false
			case "find":
				if !check() {
					return
				}
			case "findone":
				s.found([]string{"m1"})
				mcrt.Settle()
			case "restart":
				s.restart()
			}
			if w.Failed() {
				return
			}
		}
		check()
		w.Observe("%s", ix.Contents(allMH))
	}
}

func missing(there map[string]bool) []string {
	var r []string
	for _, p := range []string{"A", "B"} {
		if !there[p] {
			r = append(r, p+"/")
		}
	}
	return r
}

// removePar: a removal and a find while the provider is being synced.
func removePar(w *mcrt.World, find bool) {
	ds := sim.NewDS()
	ix := siming.NewIndex(ds)
	pa := siming.NewPub(provA, 1)
	siming.NewWeb(pa)
	s := newSys(w, ds, ix, regCfg(), ingCfg())
	m := siming.NewModel()
	add := func(k string, i int) {
		a := adKind(k, i, provA)
		pa.Add(a)
		m.Apply(a)
	}
	mcrt.Calm(true)
	add("add2", 0)
	if !s.trigger("sync", pa) {
		return
	}
	settle()
	add(w.Pick("advertisement", "add", "other"), 1)
	how := w.Pick("trigger", "sync", "announce")
	mcrt.Calm(false)
	fs := []func(){
		func() {
			if how == "announce" {
				s.announce(pa, pa.Head)
			} else if _, ok := s.sync(pa, time.Hour); !ok {
				w.Fail("C09", "sync hangs", "a sync during a removal does not complete")
			}
		},
		func() {
			if err := s.reg.RemoveProvider(bg, provA.ID); err != nil {
				w.Fail("C19", "remove", "removing failed: %v", err)
			}
		}}
	if find {
		fs = append(fs, func() { s.found([]string{"m1"}) })
	}
	w.Par(fs...)
	mcrt.Calm(true)
	settle()
	if w.Failed() {
		return
	}
	registered := s.reg.IsRegistered(provA.ID)
	if !registered {
		if got := s.found(allMH); got != "" {
			w.Fail("C19", "find differs", "a removed provider is found: %s", got)
			return
		}
		mcrt.Settle()
		if got := ix.Contents(allMH); got != "" {
			w.Fail("C19", "data left", "data of a removed provider is left after a find: %s", got)
			return
		}
	}
	if !s.trigger("sync", pa) {
		return
	}
	settle()
	if got, want := s.found(allMH), m.Contents(allMH); got != want {
		class := "not restored"
		if find && registered {
			class = "removed and found while syncing"
		}
		w.Fail("C19", class, "registered %v: after another sync, the index is not what the chain says\n got: %s\nwant: %s", registered, got, want)
	}
	w.Observe("%v %s", registered, ix.Contents(allMH))
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "ing-remove", Prop: "C19", Props: []string{"C19", "C05"}, Run: removeSeq(4, []string{"syncA", "announceB", "sameA", "removeA", "find", "findone", "restart"}, []string{"add2", "other", "rm"}), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-remove-more", Prop: "C19", Props: []string{"C19", "C05"}, Run: removeSeq(4, []string{"syncA", "syncB", "announceA", "sameA", "removeA", "find", "findone", "restart"}, []string{"add", "add2", "other", "rm"}), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-remove-5", Prop: "C19", Props: []string{"C19", "C05"}, Run: removeSeq(5, []string{"syncA", "syncB", "sameA", "removeA", "findone"}, []string{"add2", "other", "rm"}), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 4, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-remove-par", Prop: "C19", Props: []string{"C19"}, Run: func(w *mcrt.World) { removePar(w, false) }, Quick: 1, Thorough: 2, Race: -1, RaceThorough: 0, Weight: 2, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-remove-find", Prop: "C19", Props: []string{"C19"}, Run: func(w *mcrt.World) { removePar(w, true) }, Quick: 1, Thorough: 2, Race: -1, RaceThorough: 0, Weight: 2, Horizon: 400 * time.Hour})
}
