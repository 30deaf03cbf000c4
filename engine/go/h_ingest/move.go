package main

import (
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// move: the publisher changes its address, and someone gives a wrong one.
func move(n int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		homes := []*siming.Pub{siming.NewPub(provA, 1), siming.NewPub(provA, 2), siming.NewPub(provA, 3)}
		p, home0 := homes[0], *homes[0]
		web := siming.NewWeb(p)
		s := newSys(w, ds, ix, regCfg(), ingCfg())
		m := siming.NewModel()
		kinds := []string{"add2", "hamtother", "add3", "other"}
		desc := []string{}
		for i := 0; i < n; i++ {
			a := adKind(kinds[i], i, provA)
			p.Add(a)
			m.Apply(a)
			at := w.Choose(2, "address")
			delete(web.Pubs, p.Host)
			p.Host, p.Addr = home0.Host, home0.Addr
			if at == 1 {
				p.Host, p.Addr = homes[1].Host, homes[1].Addr
			}
			web.Pubs[p.Host] = p
			switch w.Pick("before", "nothing", "wrong sync", "wrong announcement") {
			case "wrong sync":
				desc = append(desc, "sync at a wrong address")
				real := p.Addr
				p.Addr = homes[2].Addr
				c, ok := s.sync(p, time.Hour)
				if !ok || c.Defined() {
					w.Fail("C09", "sync result", "%v returned %v", desc, c)
					return
				}
				p.Addr = real
			case "wrong announcement":
				desc = append(desc, "announcement of a wrong address")
				real := p.Addr
				p.Addr = homes[2].Addr
				s.announce(p, p.Head)
				settle()
				p.Addr = real
			}
			how := w.Pick("then", "sync", "announce")
			desc = append(desc, "publisher at "+p.Host, how)
			if !s.trigger(how, p) {
				return
			}
			settle()
			what := strings.Join(desc, ", ")
			if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
				w.Fail("C10", "announcement lost", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
				return
			}
			pi := s.reg.ProviderInfo(provA.ID)
			if pi == nil || pi.PublisherAddr == nil || pi.PublisherAddr.String() != p.Addr.String() {
				w.Fail("C01", "publisher address", "%s: the publisher's address is not recorded", what)
			}
		}
		w.Observe("%s", ix.Contents(allMH))
	}
}

func init() {
	reg := func(name string, q, t, n int) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C10", Props: []string{"C01", "C09", "C10"}, Run: move(n), Quick: q, Thorough: t, Race: -1, RaceThorough: -1, Horizon: 400 * time.Hour, NoSelect: true})
	}
	reg("ing-move", 0, 1, 2)
	reg("ing-move-3", 0, 1, 3)
}
