// Command h_api explores the public interfaces: the HTTP, libp2p and
// delegated-routing servers and their clients, on the real registry, ingester
// and in-memory index core.
package main

import (
	"context"
	"net/http"
	"runtime/debug"
	"time"

	finderhttp "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2p "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	adminhttpserver "github.com/filecoin-project/storetheindex/server/admin/http"
	finderhttpserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pfinder "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	ingesthttpserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	p2pingest "github.com/filecoin-project/storetheindex/server/ingest/libp2p"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
)

func main() { mcrt.Main() }

var (
	bg    = context.Background()
	me    = sim.NewPeer("indexer")
	provA = sim.NewPeer("A")
	provB = sim.NewPeer("B")
	provC = sim.NewPeer("C")
	cli   = sim.NewPeer("client")
)

const (
	finderURL = "http://10.0.2.1:80"
	ingestURL = "http://10.0.2.2:80"
	adminURL  = "http://10.0.2.3:80"
)

func init() {
	for _, p := range []*sim.Peer{provA, provB, provC} {
		siming.Names[p.ID] = p.Name
	}
	pubsub.GossipSubHeartbeatInterval = 1000 * time.Hour
	pubsub.GossipSubHeartbeatInitialDelay = 1000 * time.Hour
	pubsub.GossipSubConnectors = 0
	pubsub.TimeCacheDuration = 1000 * time.Hour
}

// sys is a running indexer with all its servers.
type sys struct {
	w      *mcrt.World
	prop   string
	ds     *sim.DS
	ix     *siming.Index
	reg    *registry.Registry
	ing    *ingest.Ingester
	h, ch  *siming.Host
	net    *siming.Net
	web    *siming.Web
	reload chan chan error
}

func regCfg() config.Discovery {
	c := config.NewDiscovery()
	c.Policy = config.Policy{Allow: true, Publish: true}
	c.PollInterval = config.Duration(100000 * time.Hour)
	return c
}

// newSys starts an indexer with the default ingest configuration.
func newSys(w *mcrt.World, prop string, rc config.Discovery, withIngest bool, disc ...discovery.Discoverer) *sys {
	return newSysCfg(w, prop, rc, withIngest, func(*config.Ingest) {}, disc...)
}

// newSysCfg starts an indexer. crashes of handlers violate prop.
func newSysCfg(w *mcrt.World, prop string, rc config.Discovery, withIngest bool, adjust func(*config.Ingest), disc ...discovery.Discoverer) *sys {
	ds := sim.NewDS()
	s := &sys{w: w, prop: prop, ds: ds, ix: siming.NewIndex(ds), reload: make(chan chan error, 1)}
	mcrt.Calm(true)
	defer mcrt.Calm(false)
	defer mcrt.Settle()
	var err error
	var d discovery.Discoverer
	if len(disc) > 0 {
		d = disc[0]
	}
	if s.reg, err = registry.NewRegistry(bg, rc, ds, d); err != nil {
		panic("registry does not open: " + err.Error())
	}
	s.h, s.ch = siming.NewHost(me), siming.NewHost(cli)
	s.web = siming.NewWeb()
	s.net = siming.NewNet(s.h, s.ch)
	crash := func(v interface{}) {
		w.Fail(prop, "crash", "a request crashed the server: %v\n%s", v, debug.Stack())
	}
	s.web.Crash, s.net.Crash = crash, crash
	fs, err := finderhttpserver.New("127.0.0.1:0", s.ix, s.reg)
	if err != nil {
		panic(err)
	}
	s.web.Serve = map[string]http.Handler{"10.0.2.1:80": siming.HandlerOf(fs)}
	p2pfinder.New(bg, s.h, s.ix, s.reg)
	if !withIngest {
		return s
	}
	ic := config.NewIngest()
	ic.IngestWorkerCount = 1
	ic.HttpSyncRetryMax = 0
	adjust(&ic)
	if s.ing, err = ingest.NewIngester(ic, s.h, s.ix, s.reg, ds); err != nil {
		panic("ingester does not start: " + err.Error())
	}
	is, err := ingesthttpserver.New("127.0.0.1:0", s.ix, s.ing, s.reg)
	if err != nil {
		panic(err)
	}
	as, err := adminhttpserver.New("127.0.0.1:0", s.ix, s.ing, s.reg, s.reload)
	if err != nil {
		panic(err)
	}
	s.web.Serve["10.0.2.2:80"] = siming.HandlerOf(is)
	s.web.Serve["10.0.2.3:80"] = siming.HandlerOf(as)
	p2pingest.New(bg, s.h, s.ix, s.ing, s.reg)
	return s
}

func (s *sys) http() *finderhttp.Client {
	c, err := finderhttp.New(finderURL)
	if err != nil {
		panic(err)
	}
	return c
}

func (s *sys) p2p() *finderp2p.Client {
	c, err := finderp2p.New(s.ch, me.ID)
	if err != nil {
		panic(err)
	}
	return c
}
