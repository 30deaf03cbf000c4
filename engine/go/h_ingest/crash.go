package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// cut is what a crash leaves: the first k operations of the datastore log and
// the first n writes to the index.
//
// The datastore keeps what was done before the last sync, and the index what
// was done before the last flush; of what came later a prefix may be left.
type cut struct{ at, k, n int }

func (s *sys) cuts(from int) []cut {
	var r []cut
	seen := map[cut]bool{}
	for l := from; l <= s.ds.Len(); l++ {
		// index writes that were done when l datastore operations were done
		lo, hi := 0, 0
		for _, o := range s.ix.Log {
			if o.DS < l {
				lo++
			}
			if o.DS <= l {
				hi++
			}
		}
		for n := s.ix.Flushed(lo); n <= hi; n++ {
			if n > 0 && s.ix.Log[n-1].Kind == "flush" && n > s.ix.Flushed(lo) {
				continue // the same as without the flush
			}
			for k := s.ds.Synced(l); k <= l; k++ {
				if c := (cut{0, k, n}); !seen[c] {
					seen[c] = true
					r = append(r, cut{l, k, n})
				}
			}
		}
	}
	return r
}

// crash: stop at every point of ingesting a chain, start again on what is
// left, and sync again.
func crash(chains [][]string, hows, thens []string, rounds int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		siming.NewWeb(p)
		s := newSys(w, ds, ix, regCfg(), ingCfg())
		m := siming.NewModel()
		chain := chains[w.Choose(len(chains), "chain")]
		prior := w.Choose(2, "prior") == 1
		desc := []string{fmt.Sprint(chain)}
		if prior {
			a := adKind("add2", 0, provA)
			p.Add(a)
			m.Apply(a)
			if !s.trigger("sync", p) {
				return
			}
			settle()
		}
		base := len(p.Ads)
		for i, k := range chain {
			a := adKind(k, base+i, provA)
			p.Add(a)
			m.Apply(a)
		}
		how := w.Pick("how", hows...)
		for r := 0; r < rounds; r++ {
			from := s.ds.Len()
			if !s.trigger(how, p) {
				w.Fail("C02", "recovery", "%v: the sync did not reach the head", desc)
				return
			}
			settle()
			cs := s.cuts(from)
			c := cs[w.Choose(len(cs), "crash at")]
			desc = append(desc, how, fmt.Sprintf("crash after %d datastore operations (%d left) and %d index writes", c.at, c.k, c.n))
			ds = s.ds.At(c.k)
			ix = s.ix.At(c.n, ds)
			s = newSys(w, ds, ix, s.rc, s.ic)
			s.checkMarks(strings.Join(desc, ", "), p, how == "resync")
			if w.Failed() {
				return
			}
			how = w.Pick("then", thens...)
		}
		desc = append(desc, how)
		what := strings.Join(desc, ", ")
		if how != "nothing" {
			if !s.trigger(how, p) {
				w.Fail("C02", "recovery", "%s: the sync did not reach the head", what)
				return
			}
			settle()
			if got, want := s.ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C02", "data lost", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
				return
			}
		}
		a := adKind("add3", len(p.Ads), provA)
		p.Add(a)
		m.Apply(a)
		if s.trigger("sync", p) {
			settle()
			if got, want := s.ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C02", "data lost", "%s, and one more: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
			}
		}
		w.Observe("%s", s.ix.Contents(allMH))
	}
}

func init() {
	reg := func(name string, quick, thorough, wt int, run func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C09", Props: []string{"C02", "C09"}, Run: run, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Weight: wt, Horizon: 400 * time.Hour})
	}
	chains := [][]string{{"add3", "other"}, {"hamt", "update", "rm"}, {"add2", "rmother", "add"}, {"other", "add3", "hamtother"}}
	reg("ing-crash-1", 0, 0, 2, crash(chains, []string{"sync", "announce"}, []string{"sync", "announce", "resync", "nothing"}, 1))
	reg("ing-crash-2", -1, 0, 4, crash([][]string{{"add2", "rm"}, {"other", "hamt"}}, []string{"sync"}, []string{"sync", "announce"}, 2))
}
