package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
)

// adKind makes the n-th advertisement of a chain of the given kind.
func adKind(kind string, n int, prov *sim.Peer) siming.AdSpec {
	meta := fmt.Sprintf("v%d", n)
	a := siming.AdSpec{Kind: "add", Prov: prov, Ctx: "c1", Meta: meta}
	switch kind {
	case "add":
		a.Chunks = [][]string{{"m1"}}
	case "add2": // two chunks, one shared multihash
		a.Chunks = [][]string{{"m1", "m2", "m3"}, {"m4"}}
	case "add3": // three chunks
		a.Chunks = [][]string{{"m2"}, {"m3", "m5"}, {"m6", "m7"}}
	case "other":
		a.Ctx = "c2"
		a.Chunks = [][]string{{"m1", "m2"}}
	case "gap": // chunks without multihashes
		a.Ctx = fmt.Sprint("g", n)
		a.Chunks = [][]string{{"m1"}, {}, {"m2", "m3"}}
	case "gapfirst":
		a.Ctx = fmt.Sprint("g", n)
		a.Chunks = [][]string{{}, {}, {"m2", "m3", "m4"}}
	case "gaplast":
		a.Ctx = fmt.Sprint("g", n)
		a.Chunks = [][]string{{"m1"}, {"m5"}, {}}
	case "gaponly":
		a.Ctx = fmt.Sprint("g", n)
		a.Chunks = [][]string{{}}
	case "hamt":
		a.Chunks = [][]string{{"m1", "m2", "m3", "m4", "m5"}}
		a.Hamt = true
	case "hamtother":
		a.Ctx = "c2"
		a.Chunks = [][]string{{"m2", "m6"}}
		a.Hamt = true
	case "update":
		a.Kind = "update"
	case "rm":
		a.Kind = "rm"
	case "rment": // a removal that names entries
		a.Kind = "rm"
		a.Chunks = [][]string{{"m1"}, {"m3"}}
	case "rmother":
		a.Kind = "rm"
		a.Ctx = "c2"
	default:
		panic(kind)
	}
	return a
}

// entryKeys lists what is left of fetched blocks in the datastore.
func leftovers(ds *sim.DS, pubs ...*siming.Pub) (ads, entries []string) {
	isAd, isEntry := map[string]string{}, map[string]string{}
	for _, p := range pubs {
		for i, a := range p.Ads {
			isAd["/"+a.Cid.String()] = fmt.Sprintf("ad %d", i)
			for j, e := range a.Entries {
				isEntry["/"+e.String()] = fmt.Sprintf("ad %d entries %d", i, j)
			}
		}
	}
	for _, k := range ds.Keys("/") {
		if n, ok := isAd[k]; ok {
			ads = append(ads, n)
		}
		if n, ok := isEntry[k]; ok {
			entries = append(entries, n)
		}
	}
	return
}

func processed(ds *sim.DS, c cid.Cid) bool {
	return ds.Dump()["/adProcessed/"+c.String()] == "\x01"
}

// checkIdle checks everything that has to hold when all published
// advertisements were synced and nothing is going on.
func (s *sys) checkIdle(m *siming.Model, what string, pubs ...*siming.Pub) bool {
	got, want := s.ix.Contents(allMH), m.Contents(allMH)
	if got != want {
		s.w.Fail("C01", "index differs", "%s: the index is not the replay of the chain\n got: %s\nwant: %s", what, got, want)
		return false
	}
	for _, p := range pubs {
		if p.Head == cid.Undef {
			continue
		}
		l, err := s.ing.GetLatestSync(p.Peer.ID)
		if err != nil || l != p.Head {
			s.w.Fail("C01", "latest sync", "%s: the latest sync of %s is not its head (%v)", what, p.Peer.Name, err)
		}
		for i, a := range p.Ads {
			if !processed(s.ds, a.Cid) {
				s.w.Fail("C01", "not marked", "%s: advertisement %d is not recorded as processed", what, i)
			}
		}
	}
	ads, ents := leftovers(s.ds, pubs...)
	if len(ents) > 0 {
		s.w.Fail("C18", "entries left", "%s: entry blocks left in the datastore: %v", what, ents)
	}
	if len(ads) > 0 {
		s.w.Fail("C18", "ads left", "%s: processed advertisements left in the datastore: %v", what, ads)
	}
	return true
}

// checkRegistered: the provider's record shows the newest advertisement.
func (s *sys) checkRegistered(what string, prov *sim.Peer, last cid.Cid, addrs []string, pub *siming.Pub) {
	pi := s.reg.ProviderInfo(prov.ID)
	if pi == nil {
		s.w.Fail("C01", "not registered", "%s: provider %s is not registered", what, prov.Name)
		return
	}
	if pi.LastAdvertisement != last {
		s.w.Fail("C01", "last ad", "%s: last advertisement of %s is not the newest one", what, prov.Name)
	}
	if pi.Publisher != pub.Peer.ID {
		s.w.Fail("C01", "publisher", "%s: publisher of %s is %s", what, prov.Name, siming.Names[pi.Publisher])
	}
	var as []string
	for _, a := range pi.AddrInfo.Addrs {
		as = append(as, a.String())
	}
	if strings.Join(as, " ") != strings.Join(addrs, " ") {
		s.w.Fail("C01", "addresses", "%s: addresses of %s are %v, want %v", what, prov.Name, as, addrs)
	}
}

func settle() {
	time.Sleep(10 * time.Second)
	mcrt.Settle()
}

// trigger makes the indexer notice the head of p.
func (s *sys) trigger(how string, p *siming.Pub) bool {
	switch how {
	case "nothing":
	case "sync":
		c, ok := s.sync(p, time.Minute)
		if !ok {
			s.w.Fail("C09", "sync hangs", "a sync did not complete")
			return false
		}
		if c != p.Head {
			s.w.Fail("C09", "sync result", "a sync of a healthy publisher did not return its head")
			return false
		}
	case "resync", "resync1":
		d := 0
		if how == "resync1" {
			d = 1
		}
		ch, err := s.ing.Sync(bg, p.Peer.ID, p.Addr, d, true)
		if err != nil {
			s.w.Fail("C09", "sync error", "resync: %v", err)
			return false
		}
		select {
		case c := <-ch:
			if c != p.Head {
				s.w.Fail("C09", "sync result", "a resync of a healthy publisher did not return its head")
				return false
			}
		case <-time.After(time.Minute):
			s.w.Fail("C09", "sync hangs", "a resync did not complete")
			return false
		}
	case "announce":
		if err := s.announce(p, p.Head); err != nil {
			s.w.Fail("C10", "announce error", "announcement refused: %v", err)
			return false
		}
		settle()
	case "restart":
		s.restart()
	}
	return true
}

// restart closes the indexer and opens a new one on the same stores.
func (s *sys) restart() {
	done := make(chan struct{})
	go func() {
		s.ing.Close()
		s.reg.Close()
		close(done)
	}()
	if !s.w.Within(done, time.Minute) {
		s.w.Fail("C11", "close hangs", "closing did not complete")
		return
	}
	s.ds.Closed = 0
	n := newSys(s.w, s.ds, s.ix, s.rc, s.ic)
	*s = *n
}

// replaySeq: all chains, all ways to split them over syncs.
func replaySeq(kinds []string, n int, triggers []string, cfg func(w *mcrt.World, c *config.Ingest)) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		siming.NewWeb(p)
		ic := ingCfg()
		if cfg != nil {
			cfg(w, &ic)
		}
		s := newSys(w, ds, ix, regCfg(), ic)
		m := siming.NewModel()
		var desc []string
		pending := 0
		for i := 0; i < n; i++ {
			pending++
			k := w.Pick(fmt.Sprintf("ad %d", i), kinds...)
			a := adKind(k, i, provA)
			a.Addrs = []string{fmt.Sprintf("/ip4/10.0.0.%d/tcp/12", 1+i)}
			p.Add(a)
			m.Apply(a)
			ts := triggers
			if i == n-1 {
				ts = []string{"sync", "announce"}
			}
			how := w.Pick("then", ts...)
			if how == "resync1" && pending > 1 {
				return // asks to leave out what is deeper
			}
			desc = append(desc, k, how)
			if !s.trigger(how, p) {
				return
			}
			if how != "nothing" && how != "restart" {
				settle()
				pending = 0
				what := strings.Join(desc, " ")
				if !s.checkIdle(m, what, p) {
					return
				}
				s.checkRegistered(what, provA, p.Head, a.Addrs, p)
			}
		}
		w.Observe("%s", ix.Contents(allMH))
	}
}

// values: contexts, metadata and multihashes of every size and kind.
func values(w *mcrt.World) {
	ds := sim.NewDS()
	ix := siming.NewIndex(ds)
	p := siming.NewPub(provA, 1)
	siming.NewWeb(p)
	ic := ingCfg()
	ic.StoreBatchSize = 2
	s := newSys(w, ds, ix, regCfg(), ic)
	m := siming.NewModel()
	// the index takes neither an empty context nor empty metadata
	ctx := []string{"c", strings.Repeat("c", 63), strings.Repeat("c", 64), strings.Repeat("c", 65), strings.Repeat("\x00\xff/", 100), "/", "\x00"}[w.Choose(7, "context")]
	metas := []string{"m", strings.Repeat("m", 1023), strings.Repeat("m", 1024), strings.Repeat("m", 1025), strings.Repeat("\xff", 5000)}
	meta := metas[w.Choose(len(metas), "metadata")]
	mhs := [][]string{{"m1"}, {"id-"}, {"id-x", "m1"}, {"id-" + strings.Repeat("x", 127), "id-" + strings.Repeat("x", 128)}, {"s5-a", "m1", "m1", "id-x"}}[w.Choose(5, "multihashes")]
	all := append([]string{"m2"}, mhs...)
	next := w.Pick("next", "none", "update", "rm", "more", "longer")
	what := fmt.Sprintf("context of %d bytes, metadata of %d, multihashes %.20q, next %s", len(ctx), len(meta), mhs, next)
	a := siming.AdSpec{Kind: "add", Prov: provA, Ctx: ctx, Meta: meta, Chunks: [][]string{mhs}}
	if w.Choose(2, "HAMT") == 1 {
		a.Hamt = true
		if len(mhs) == 4 { // a map has no duplicates
			a.Chunks = [][]string{{mhs[0], mhs[1], mhs[3]}}
		}
	}
	p.Add(a)
	m.Apply(a)
	b := siming.AdSpec{Prov: provA, Ctx: ctx, Meta: "new"}
	switch next {
	case "update":
		b.Kind = next
	case "rm":
		b.Kind, b.Meta = next, ""
	case "more":
		b.Kind, b.Chunks = "add", [][]string{{"m2"}}
	case "longer": // another context that begins like this one
		b.Kind, b.Chunks, b.Ctx = "add", [][]string{{"m2"}, mhs}, ctx+"c"
	}
	if next != "none" {
		p.Add(b)
		m.Apply(b)
	}
	if !s.trigger("sync", p) {
		return
	}
	settle()
	if got, want := ix.Contents(all), m.Contents(all); got != want {
		w.Fail("C01", "index differs", "%s: the index is not the replay of the chain\n got: %.300s\nwant: %.300s", what, got, want)
		return
	}
	w.Observe("%s", ix.Contents(all))
}

func init() {
	reg := func(name string, quick, thorough int, wt int, run func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C09", Props: []string{"C01", "C09", "C18"}, Run: run, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Weight: wt, Horizon: 400 * time.Hour})
	}
	reg("ing-replay-3", 0, 0, 2, replaySeq([]string{"add", "add2", "other", "hamt", "update", "rm", "rmother"}, 3, []string{"nothing", "sync", "announce", "resync", "resync1", "restart"}, nil))
	reg("ing-replay-4", -1, 0, 4, replaySeq([]string{"add", "add2", "other", "hamt", "update", "rm", "rmother"}, 4, []string{"nothing", "sync", "announce", "resync1"}, nil))
	reg("ing-replay-cfg", 0, 0, 2, replaySeq([]string{"add3", "add2", "hamt", "rm"}, 2, []string{"nothing", "sync"}, func(w *mcrt.World, c *config.Ingest) {
		c.StoreBatchSize = []int{-1, 0, 1, 2, 3, 4096}[w.Choose(6, "batch size")]
		c.SyncSegmentDepthLimit = []int{1, 2, 3, -1}[w.Choose(4, "segment depth")]
		c.IngestWorkerCount = 1 + w.Choose(2, "workers")
		c.AdvertisementDepthLimit = []int{-1, 3, 100}[w.Choose(3, "ad depth limit")]
		c.EntriesDepthLimit = []int{-1, 3, 100}[w.Choose(3, "entries depth limit")]
	}))
	reg("ing-values", 0, 0, 1, values)
	reg("ing-replay-gap", 0, 0, 1, replaySeq([]string{"gap", "gapfirst", "gaplast", "gaponly", "add2", "rment"}, 2, []string{"nothing", "sync"}, func(w *mcrt.World, c *config.Ingest) {
		c.SyncSegmentDepthLimit = []int{1, 2, 3, -1}[w.Choose(4, "segment depth")]
		c.StoreBatchSize = 1 + w.Choose(2, "batch size")
	}))
}
