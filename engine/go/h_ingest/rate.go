package main

import (
	"fmt"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// limits is one rate-limit configuration, as a table.
type limits struct {
	apply       bool
	except      map[string]bool
	list        []string
	rate, burst int
}

func pickLimits(w *mcrt.World, rates, bursts []int) limits {
	l := limits{except: map[string]bool{}}
	l.rate = rates[w.Choose(len(rates), "blocks per second")]
	l.burst = bursts[w.Choose(len(bursts), "burst")]
	l.apply = w.Choose(2, "apply") == 0
	for _, p := range []*sim.Peer{provA, provB} {
		if w.Choose(2, "except "+p.Name) == 1 {
			l.except[p.Name] = true
			l.list = append(l.list, p.ID.String())
		}
	}
	return l
}

func (l limits) cfg() config.RateLimit {
	return config.RateLimit{Apply: l.apply, Except: l.list, BlocksPerSecond: l.rate, BurstSize: l.burst}
}
func (l limits) limited(p *sim.Peer) bool { return l.rate != 0 && l.apply != l.except[p.Name] }
func (l limits) String() string {
	return fmt.Sprintf("rate %d burst %d apply %v except %v", l.rate, l.burst, l.apply, keys(l.except))
}

// transfer is a group of requests made under one limiter.
func transfers(p *siming.Pub, from int) (names []string, paths []map[string]bool) {
	ads := map[string]bool{}
	names, paths = append(names, "advertisements"), append(paths, ads)
	for i, a := range p.Ads {
		if i < from {
			continue
		}
		ads[a.Cid.String()] = true
		if a.Hamt || len(a.Entries) < 2 {
			continue
		}
		rest := map[string]bool{}
		for _, e := range a.Entries[1:] {
			rest[e.String()] = true
		}
		names, paths = append(names, fmt.Sprintf("entries of advertisement %d", i)), append(paths, rest)
	}
	return
}

// checkRate checks requests [lo,hi) of the log made for p under l.
func checkRate(w *mcrt.World, web *siming.Web, p *siming.Pub, from, lo int, l limits, what string) {
	var ts []int64
	var ps []string
	for i := lo; i < len(web.Log); i++ {
		if h := p.Host + "/"; len(web.Log[i]) > len(h) && web.Log[i][:len(h)] == h {
			ts = append(ts, web.Times[i])
			ps = append(ps, web.Log[i][len(h):])
		}
	}
	if len(ts) == 0 {
		return
	}
	sec := func(a, b int64) float64 { return float64(b-a) / 1e9 }
	if !l.limited(p.Peer) {
		for i := range ts[1:] {
			if d := sec(ts[i], ts[i+1]); d > 0.001 {
				failBoth(w, "C16", "exempt delayed", "%s: %s is not subject to rate limiting, but request %d waited %.3f s", what, p.Peer.Name, i+1, d)
				return
			}
		}
		return
	}
	for i := range ts[1:] {
		if d := sec(ts[i], ts[i+1]); d > 1/float64(l.rate)+0.001 {
			w.Fail("C16", "delayed too long", "%s: request %d of %s waited %.3f s", what, i+1, p.Peer.Name, d)
			return
		}
	}
	names, sets := transfers(p, from)
	for k, set := range sets {
		var t []int64
		for i := range ts {
			if set[ps[i]] {
				t = append(t, ts[i])
			}
		}
		for i := range t {
			for j := i; j < len(t); j++ {
				if n, max := float64(j-i+1), float64(l.burst)+float64(l.rate)*sec(t[i], t[j]); n > max+0.01 {
					if ts[0] == ts[len(ts)-1] {
						w.Fail("C04", "not limited", "%s: %s is subject to rate limiting, but is not limited", what, p.Peer.Name)
					}
					w.Fail("C16", "rate exceeded", "%s: %s of %s: %v blocks within %.3f s", what, names[k], p.Peer.Name, n, sec(t[i], t[j]))
					return
				}
			}
		}
	}
}

func rateAd(i int, prov *sim.Peer) siming.AdSpec {
	chunks := [][]string{{"m1"}, {"m2", "m3"}, {"m4"}, {"m5"}, {"m6"}, {"m7"}}
	if prov == provB {
		// No block in common: see ing-shared.
		chunks = [][]string{{"m8"}, {"m2"}, {"m3"}, {"m6", "m5"}, {"m4", "m1"}, {"m7", "m8"}}
	}
	return siming.AdSpec{Kind: "add", Prov: prov, Ctx: fmt.Sprintf("c%d", i), Meta: fmt.Sprintf("v%d", i), Chunks: chunks[:3+i%4]}
}

// rateSeq: a sync under one configuration, one of the ways to change it, and
// another sync.
func rateSeq(rates, bursts, rates2, bursts2 []int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		l := pickLimits(w, rates, bursts)
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		web := siming.NewWeb(p)
		ic := ingCfg()
		ic.RateLimit = l.cfg()
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		for i := 0; i < 3; i++ {
			a := rateAd(i, provA)
			p.Add(a)
			m.Apply(a)
		}
		one := func(l limits, from int, what string) bool {
			lo := len(web.Log)
			if c, ok := s.sync(p, time.Hour); !ok || c != p.Head {
				w.Fail("C16", "sync fails", "%s: the sync does not complete (answered: %v)", what, ok)
				return false
			}
			settle()
			checkRate(w, web, p, from, lo, l, what)
			if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C16", "data lost", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
				return false
			}
			return !w.Failed()
		}
		what := l.String()
		if !one(l, 0, what) {
			return
		}
		n := l
		switch ch := w.Pick("then", "same", "change", "negative rate", "negative burst", "bad peer"); ch {
		case "change":
			n = pickLimits(w, rates2, bursts2)
			if err := s.ing.SetRateLimit(n.cfg()); err != nil {
				w.Fail("C16", "refused", "%s: a valid configuration was refused: %v", n, err)
				return
			}
		case "same":
		default:
			bad := config.RateLimit{Apply: !l.apply, BlocksPerSecond: 7, BurstSize: 7}
			switch ch {
			case "negative rate":
				bad.BlocksPerSecond = -1
			case "negative burst":
				bad.BurstSize = -1
			case "bad peer":
				bad.Except = []string{"not a peer"}
			}
			if err := s.ing.SetRateLimit(bad); err == nil {
				w.Fail("C16", "accepted", "an invalid configuration (%s) was accepted", ch)
				return
			}
			what += " then " + ch
		}
		for i := 3; i < 6; i++ {
			a := rateAd(i, provA)
			p.Add(a)
			m.Apply(a)
		}
		one(n, 3, what+" then "+n.String())
		w.Observe("%v %v %v", l.limited(provA), n.limited(provA), web.Times[len(web.Times)-1]-web.Times[0])
	}
}

// ratePar: two publishers at once, and a reconfiguration at any request.
func ratePar(w *mcrt.World, bursts []int, ads int) {
	l := pickLimits(w, []int{2}, bursts)
	n := l
	change := w.Choose(2, "change while syncing") == 1
	if change {
		n = limits{apply: w.Choose(2, "new apply") == 0, except: map[string]bool{}, rate: []int{0, 5}[w.Choose(2, "new rate")], burst: 1}
	}
	ds := sim.NewDS()
	ix := siming.NewIndex(ds)
	pa, pb := siming.NewPub(provA, 1), siming.NewPub(provB, 2)
	web := siming.NewWeb(pa, pb)
	ic := ingCfg()
	ic.IngestWorkerCount = 2
	ic.RateLimit = l.cfg()
	s := newSys(w, ds, ix, regCfg(), ic)
	m := siming.NewModel()
	for i := 0; i < ads; i++ {
		for _, p := range []*siming.Pub{pa, pb} {
			a := rateAd(i, p.Peer)
			p.Add(a)
			m.Apply(a)
		}
	}
	what := fmt.Sprintf("%s, change %v to %s", l, change, n)
	w.Par(
		func() {
			if c, ok := s.sync(pa, time.Hour); !ok || c != pa.Head {
				w.Fail("C16", "sync fails", "%s: the sync of A does not complete", what)
			}
		},
		func() {
			if c, ok := s.sync(pb, time.Hour); !ok || c != pb.Head {
				w.Fail("C16", "sync fails", "%s: the sync of B does not complete", what)
			}
		},
		func() {
			if change {
				if err := s.ing.SetRateLimit(n.cfg()); err != nil {
					w.Fail("C16", "refused", "%s: a valid configuration was refused: %v", n, err)
				}
			}
		})
	if w.Failed() {
		return
	}
	settle()
	if !change {
		checkRate(w, web, pa, 0, 0, l, what)
		checkRate(w, web, pb, 0, 0, l, what)
	}
	if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
		w.Fail("C16", "data lost", "%s: the index is not the replay of the chains\n got: %s\nwant: %s", what, got, want)
	}
	w.Observe("%v %v", l.limited(provA), l.limited(provB))
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "ing-rate-seq", Prop: "C16", Props: []string{"C16", "C04"}, Run: rateSeq([]int{0, 1, 4}, []int{1, 3, 20}, []int{0, 2}, []int{1, 5}), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-rate-par", Prop: "C16", Props: []string{"C16"}, Run: func(w *mcrt.World) { ratePar(w, []int{1}, 1) }, Quick: 1, Thorough: 1, Race: 0, RaceThorough: 1, Weight: 3, Horizon: 400 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-rate-par-2", Prop: "C16", Props: []string{"C16"}, Run: func(w *mcrt.World) { ratePar(w, []int{1, 3}, 2) }, Quick: -1, Thorough: 1, Race: -1, RaceThorough: 0, Weight: 3, Horizon: 400 * time.Hour})
}
