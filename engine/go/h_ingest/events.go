package main

import (
	"context"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
)

// waiting: syncs that wait for an unresponsive publisher, or are cancelled,
// while advertisements of that publisher are processed. Everybody gets an
// answer and ingestion goes on.
func waiting(w *mcrt.World) {
	ds := sim.NewDS()
	ix := siming.NewIndex(ds)
	p := siming.NewPub(provA, 1)
	web := siming.NewWeb(p)
	ic := ingCfg()
	s := newSys(w, ds, ix, regCfg(), ic)
	m := siming.NewModel()
	kinds := []string{"add", "other", "add2", "update", "rmother"}
	for i, k := range kinds {
		a := adKind(k, i, provA)
		p.Add(a)
		m.Apply(a)
	}
	first := w.Pick("first", "sync", "announce")
	slow := p.Ads[0].Entries[0].String()
	heads := 0
	outcome := w.Pick("publisher then", "answers", "fails", "refuses", "is cancelled", "breaks off")
	clients := 1 + w.Choose(2, "waiting clients")
	skip := 0
	if first == "sync" {
		skip = 1
	}
	web.Fault = func(host, path string) (int, time.Duration) {
		if path == slow {
			return 0, 3 * time.Second
		}
		if path == "head" {
			heads++
			if heads > skip && heads <= skip+clients {
				switch outcome {
				case "answers", "is cancelled":
					return 0, 5 * time.Second
				case "fails":
					return 500, 5 * time.Second
				case "refuses":
					return -1, 5 * time.Second
				case "breaks off":
					return -2, 5 * time.Second
				}
			}
		}
		return 0, 0
	}
	what := strings.Join([]string{first, outcome}, " ")
	one := func(ctx context.Context) {
		ch, err := s.ing.Sync(ctx, p.Peer.ID, p.Addr, 0, false)
		if err != nil {
			w.Fail("C09", "sync error", "%s: sync: %v", what, err)
			return
		}
		select {
		case c := <-ch:
			if c != cid.Undef && c != p.Head {
				w.Fail("C09", "sync result", "%s: a sync returned %v", what, c)
			}
			if c == cid.Undef && outcome == "answers" {
				w.Fail("C09", "sync result", "%s: a sync of a publisher that answers failed", what)
			}
			if c != cid.Undef && ix.Contents(allMH) != m.Contents(allMH) {
				w.Fail("C09", "sync incomplete", "%s: a sync returned before its advertisements were ingested", what)
			}
		case <-time.After(time.Hour):
			w.Fail("C09", "sync hangs", "%s: a sync did not complete", what)
		}
	}
	fs := []func(){func() {
		if first == "sync" {
			ch, err := s.ing.Sync(bg, p.Peer.ID, p.Addr, 0, false)
			if err != nil {
				w.Fail("C09", "sync error", "%s: sync: %v", what, err)
				return
			}
			select {
			case c := <-ch:
				if c != p.Head {
					w.Fail("C09", "sync result", "%s: the first sync returned %v", what, c)
				}
			case <-time.After(time.Hour):
				w.Fail("C09", "sync hangs", "%s: the first sync did not complete", what)
			}
		} else if err := s.announce(p, p.Head); err != nil {
			w.Fail("C10", "announce error", "announcement refused: %v", err)
		}
	}}
	for i := 0; i < clients; i++ {
		fs = append(fs, func() {
			time.Sleep(time.Second)
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			if outcome == "is cancelled" {
				go func() {
					time.Sleep(4 * time.Second)
					cancel()
				}()
			}
			one(ctx)
		})
	}
	w.Par(fs...)
	if w.Failed() {
		return
	}
	settle()
	if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
		w.Fail("C01", "index differs", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
		return
	}
	mcrt.Calm(true)
	a := adKind("add3", len(kinds), provA)
	p.Add(a)
	m.Apply(a)
	if s.trigger("sync", p) {
		settle()
		s.checkIdle(m, what+" and one more", p)
	}
	w.Observe("%s %d %s", what, clients, ix.Contents(allMH))
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "ing-waiting", Prop: "C09", Props: []string{"C01", "C09", "C10", "C18"}, Run: waiting, Quick: 1, Thorough: 1, Race: 0, RaceThorough: 1, Weight: 2, Horizon: 400 * time.Hour})
}
