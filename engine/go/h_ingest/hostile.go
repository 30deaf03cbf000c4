package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
)

// hostileBlocks: a publisher serves a block of which a part is missing, of
// another type or cut off. Nothing crashes or hangs, others are not affected
// and the publisher can carry on.
func hostileBlocks(kinds ...string) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p, q := siming.NewPub(provA, 1), siming.NewPub(provB, 2)
		siming.NewWeb(p, q)
		kind := w.Pick("block", kinds...)
		a := adKind("add2", 1, provA)
		if kind == "hamt root" || kind == "hamt node" {
			a = adKind("hamt", 1, provA)
		}
		ad := p.Add(a)
		var key string
		switch kind {
		case "ad":
			key = ad.Cid.String()
		case "chunk", "hamt root":
			key = ad.Entries[0].String()
		case "last chunk", "hamt node":
			key = ad.Entries[1].String()
		}
		good := p.M[key]
		vs := siming.Alters(good)
		n := len(vs) + len(good)
		at := w.Choose(n, "alteration")
		var bad []byte
		if at < len(vs) {
			bad = vs[at]
		} else {
			bad = good[:at-len(vs)]
		}
		p.M[key] = bad
		what := fmt.Sprintf("%s is %q", kind, bad)
		by := w.Pick("by", "sync", "announce")
		ic := ingCfg()
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		b := adKind("add3", 0, provB)
		q.Add(b)
		m.Apply(b)
		if !s.trigger("sync", q) {
			return
		}
		if by == "sync" {
			if _, ok := s.sync(p, time.Hour); !ok {
				w.Fail("C21", "sync hangs", "%s: the sync is not answered", what)
				return
			}
		} else {
			s.announce(p, p.Head)
		}
		settle()
		st := "skipped"
		if !processed(ds, ad.Cid) {
			st = "refused"
		}
		// only what A published can be there for A
		_, ents := leftovers(ds, p)
		if len(ents) > 0 && st == "skipped" {
			w.Fail("C18", "entries left", "%s: entry blocks left in the datastore: %v", what, ents)
		}
		if got, want := siming.Without(ix.Contents(allMH), []string{"A/"}), m.Contents(allMH); got != want {
			w.Fail("C21", "other provider changed", "%s: entries of another provider changed\n got: %s\nwant: %s", what, got, want)
		}
		// the publisher carries on or, if it has to, starts over
		next := adKind("other", 2, provA)
		if st == "refused" {
			p.Head = cid.Undef
		}
		p.Add(next)
		m.Apply(next)
		b = adKind("other", 1, provB)
		b.Chunks = [][]string{{"m1", "m7"}, {"m2"}} // blocks of its own
		q.Add(b)
		m.Apply(b)
		for _, x := range []*siming.Pub{p, q} {
			c, ok := s.sync(x, time.Hour)
			if !ok || c != x.Head {
				w.Fail("C21", "sync result", "%s, and then: a sync of %s returns %v", what, x.Peer.Name, c)
				return
			}
		}
		settle()
		got, want := ix.Contents(allMH), m.Contents(allMH)
		// What the altered advertisement or chunk says is A's own business.
		own := func(s string) string {
			return siming.Without(strings.ReplaceAll(s, "A/c2/v2", "X/c2/v2"), []string{"A/"})
		}
		got, want = own(got), own(want)
		if got != want {
			w.Fail("C21", "index differs", "%s (%s), and then: the index is not the replay of the chain\n got: %s\nwant: %s", what, st, got, want)
		}
		w.Observe("%s %s %s", kind, by, st)
	}
}

func init() {
	for _, k := range []string{"ad", "chunk", "last chunk", "hamt root", "hamt node"} {
		name := "ing-hostile-" + map[string]string{"ad": "ad", "chunk": "chunk", "last chunk": "last", "hamt root": "hamt", "hamt node": "node"}[k]
		reg := func(name string, quick, thorough int, run func(*mcrt.World)) {
			mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C21", Props: []string{"C21", "C18"}, Run: run, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
		}
		reg(name, 0, 0, hostileBlocks(k))
	}
}
