package main

import (
	"fmt"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// closing: the ingester is closed while something is going on. Close ends,
// everybody who waits gets an answer, nothing crashes, and an indexer started
// on what is stored carries on.
func closing(ops, slows []string, times []time.Duration) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		web := siming.NewWeb(p)
		op := w.Pick("operation", ops...)
		rc := regCfg()
		if op == "poll" {
			rc.PollInterval, rc.PollRetryAfter, rc.PollStopAfter = config.Duration(30*time.Minute), config.Duration(10*time.Minute), config.Duration(100*time.Hour)
		}
		s := newSys(w, ds, ix, rc, ingCfg())
		m := siming.NewModel()
		add := func(kind string, n int) {
			a := adKind(kind, n, provA)
			p.Add(a)
			m.Apply(a)
		}
		mcrt.Calm(true)
		add("add", 0)
		if !s.trigger("announce", p) {
			return
		}
		settle()
		add("add2", 1)
		slow := w.Pick("slow", slows...)
		at := times[w.Choose(len(times), "close after")]
		what := fmt.Sprintf("%s, slow %s, closed after %s", op, slow, at)
		var target string
		switch slow {
		case "head":
			target = "head"
		case "ad":
			target = p.Ads[1].Cid.String()
		case "entries":
			target = p.Ads[1].Entries[0].String()
		case "chunk":
			target = p.Ads[1].Entries[1].String()
		}
		web.Fault = func(host, path string) (int, time.Duration) {
			if path == target {
				return 0, 5 * time.Second
			}
			return 0, 0
		}
		siming.Published()
		var fs []func()
		answered := func(resync bool) func() {
			return func() {
				ch, err := s.ing.Sync(bg, p.Peer.ID, p.Addr, 0, resync)
				if err == nil {
					<-ch
				}
			}
		}
		announce := func() {
			siming.Published()
			s.announce(p, p.Head)
		}
		switch op {
		case "sync":
			fs = append(fs, answered(false))
		case "resync":
			fs = append(fs, answered(true))
		case "announce":
			fs = append(fs, announce)
		case "announces":
			fs = append(fs, func() {
				announce()
				time.Sleep(time.Second)
				add("other", 2)
				announce()
			})
		case "sync and announce":
			fs = append(fs, answered(false), announce)
		case "poll":
			for k := 0; ; k++ {
				n := web.Requests()
				time.Sleep(10*time.Minute - at)
				if k > 2 {
					fs = append(fs, func() {})
					break
				}
				time.Sleep(at)
				if web.Requests() > n {
					break
				}
			}
		}
		mcrt.Calm(false)
		var dones []<-chan struct{}
		for _, f := range fs {
			dones = append(dones, w.Go(f))
		}
		if at > 0 {
			time.Sleep(at)
		}
		how := w.Pick("then", "close", "close twice", "late sync", "late announce")
		what += ", " + how
		closed := w.Go(func() { s.ing.Close() })
		late := func(f func()) {
			<-closed
			dones = append(dones, w.Go(f))
		}
		switch how {
		case "close twice":
			dones = append(dones, w.Go(func() { s.ing.Close() }))
		case "late sync":
			dones = append(dones, w.Go(answered(false)))
		case "late announce":
			dones = append(dones, w.Go(announce))
		}
		if !w.Within(closed, time.Hour) {
			w.Fail("C11", "close hangs", "%s: Close does not return", what)
			return
		}
		mcrt.Calm(true)
		late(answered(false))
		late(announce)
		late(func() { s.ing.Close() })
		for _, d := range dones {
			if !w.Within(d, time.Hour) {
				w.Fail("C11", "no answer", "%s: a request is not answered after Close", what)
				return
			}
		}
		regc := w.Go(func() { s.reg.Close() })
		if !w.Within(regc, time.Hour) {
			w.Fail("C11", "close hangs", "%s: the registry does not close", what)
			return
		}
		settle()
		web.Fault = nil
		s2 := newSys(w, ds, ix, regCfg(), ingCfg())
		mcrt.Calm(true)
		if c, ok := s2.sync(p, time.Hour); !ok || c != p.Head {
			w.Fail("C11", "sync result", "%s: after a restart a sync returns %v", what, c)
			return
		}
		settle()
		if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
			w.Fail("C11", "index differs", "%s: after a restart and a sync the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
		}
		w.Observe("%s", what)
	}
}

func init() {
	reg := func(name string, quick, thorough, race int, run func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C11", Run: run, Quick: quick, Thorough: thorough, Race: race, RaceThorough: 1, Weight: 2, Horizon: 400 * time.Hour})
	}
	reg("ing-close", 1, 2, 0, closing([]string{"sync", "announces", "resync", "poll"}, []string{"ad", "entries"}, []time.Duration{0, 5 * time.Second}))
	reg("ing-close-all", 0, 1, -1, closing([]string{"sync", "announce", "announces", "resync", "sync and announce", "poll"}, []string{"none", "head", "ad", "entries", "chunk"}, []time.Duration{0, 2 * time.Second, 5 * time.Second}))
}
