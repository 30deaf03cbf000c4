// Command h_ingest explores the ingestion pipeline: the real Ingester on the
// real registry, go-legs subscriber and in-memory index core.
package main

import (
	"context"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/multiformats/go-multiaddr"
)

func main() { mcrt.Main() }

var (
	bg    = context.Background()
	me    = sim.NewPeer("indexer")
	provA = sim.NewPeer("A")
	provB = sim.NewPeer("B")
	pubP  = sim.NewPeer("P")
	allMH = []string{"m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8"}
)

func init() {
	for _, p := range []*sim.Peer{provA, provB, pubP} {
		siming.Names[p.ID] = p.Name
	}
	pubsub.GossipSubHeartbeatInterval = 1000 * time.Hour
	pubsub.GossipSubHeartbeatInitialDelay = 1000 * time.Hour
	pubsub.GossipSubConnectors = 0
	pubsub.TimeCacheDuration = 1000 * time.Hour
}

// sys is one running indexer.
type sys struct {
	w   *mcrt.World
	ds  *sim.DS
	ix  *siming.Index
	reg *registry.Registry
	ing *ingest.Ingester
	h   *siming.Host
	rc  config.Discovery
	ic  config.Ingest
}

func ingCfg() config.Ingest {
	c := config.NewIngest()
	c.IngestWorkerCount = 1
	c.HttpSyncRetryMax = 0
	c.StoreBatchSize = 2
	return c
}

func regCfg() config.Discovery {
	c := config.NewDiscovery()
	c.Policy = config.Policy{Allow: true, Publish: true}
	c.PollInterval = config.Duration(100000 * time.Hour)
	return c
}

func newSys(w *mcrt.World, ds *sim.DS, ix *siming.Index, rc config.Discovery, ic config.Ingest) *sys {
	s := &sys{w: w, ds: ds, ix: ix, rc: rc, ic: ic}
	mcrt.Calm(true)
	defer mcrt.Calm(false)
	defer mcrt.Settle()
	var err error
	if s.reg, err = registry.NewRegistry(bg, rc, ds, nil); err != nil {
		panic("registry does not open: " + err.Error())
	}
	s.h = siming.NewHost(me)
	if s.ing, err = ingest.NewIngester(ic, s.h, ix, s.reg, ds); err != nil {
		panic("ingester does not start: " + err.Error())
	}
	return s
}

// sync requests a sync and waits for its answer.
func (s *sys) sync(p *siming.Pub, d time.Duration) (cid.Cid, bool) {
	ch, err := s.ing.Sync(bg, p.Peer.ID, p.Addr, 0, false)
	if err != nil {
		return cid.Undef, true
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case c := <-ch:
		return c, true
	case <-t.C:
		return cid.Undef, false
	}
}

// announce sends a direct announcement.
func (s *sys) announce(p *siming.Pub, c cid.Cid) error {
	return s.ing.Announce(bg, c, peer.AddrInfo{ID: p.Peer.ID, Addrs: []multiaddr.Multiaddr{p.Addr}})
}
