package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	httpingest "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// chain is the reference of what was ingested of one publisher.
type chain struct {
	*siming.Pub
	prov   *sim.Peer
	latest int // number of ads up to the latest sync
	done   map[int]bool
	reg    bool
	addr   string // provider's address shown
	last   cid.Cid
	pub    string // publisher shown
}

// sync is what a sync of the chain does to the model.
func (c *chain) sync(m *siming.Model, depth int, resync bool) {
	n := len(c.Ads)
	if n == 0 {
		return
	}
	lo := 0
	if depth > 0 && n-depth > lo {
		lo = n - depth
	}
	if !resync && c.latest > lo {
		lo = c.latest
	}
	for i := lo; i < n; i++ {
		m.Apply(c.Ads[i].AdSpec)
		c.done[i] = true
		c.reg, c.addr, c.last = true, "/ip4/10.0.0.1/tcp/1234", c.Ads[i].Cid
		c.pub = c.Peer.ID.String() + "@" + c.Addr.String()
	}
	c.latest = n
}

var operateMHs = []string{"m1", "m2", "m3", "m4", "n1"}

func (c *chain) add() {
	n := len(c.Ads)
	a := []siming.AdSpec{
		{Kind: "add", Ctx: "c1", Chunks: [][]string{{"m1"}, {"m2"}}},
		{Kind: "add", Ctx: "c2", Chunks: [][]string{{"m2", "m3"}}},
		{Kind: "rm", Ctx: "c1"},
		{Kind: "add", Ctx: "c1", Chunks: [][]string{{"m4"}}},
		{Kind: "update", Ctx: "c2"},
	}[n%5]
	a.Prov, a.Meta = c.prov, fmt.Sprint("v", n)
	if c.prov != c.Peer {
		a.Chunks = [][]string{{"n1"}}
		a.Signer = c.Peer
	}
	c.Pub.Add(a)
	siming.Published()
}

type operateStep struct {
	name   string
	depth  int64
	resync bool
}

var operateSteps = []operateStep{
	{"sync", 0, false}, {"sync", 1, false}, {"sync", 2, false}, {"sync", -1, false},
	{"sync", 0, true}, {"sync", 1, true}, {"sync", 2, true},
	{"publish", 0, false}, {"announce", 0, false}, {"import", 0, false}, {"unreachable", 0, false}, {"register", 0, false},
}

// operate: operator requests.
func operate(depth int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		limit := []int{0, 2}[w.Choose(2, "advertisement depth limit")]
		start := 1 + w.Choose(3, "chain length")
		s := newSysCfg(w, "C22", regCfg(), true, func(c *config.Ingest) {
			if limit != 0 {
				c.AdvertisementDepthLimit = limit
			}
		})
		mcrt.Calm(true)
		a := &chain{Pub: siming.NewPub(provA, 1), prov: provA, done: map[int]bool{}}
		b := &chain{Pub: siming.NewPub(provC, 2), prov: provB, done: map[int]bool{}}
		for i := 0; i < start; i++ {
			a.add()
		}
		b.add()
		s.web.Pubs = map[string]*siming.Pub{a.Host: a.Pub, b.Host: b.Pub}
		s.web.Other = func(req *http.Request) (int, []byte) {
			if req.URL.Host != "10.0.3.1:80" || req.URL.Path != "/providers" {
				return 404, nil
			}
			ai := model.MakeProviderInfo(peer.AddrInfo{ID: provA.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(7)}}, a.Ads[0].Cid, time.Now(), provA.ID, a.Addr)
			bi := model.MakeProviderInfo(peer.AddrInfo{ID: provB.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(8)}}, b.Ads[0].Cid, time.Now(), provC.ID, b.Addr)
			js, err := json.Marshal([]model.ProviderInfo{ai, bi})
			if err != nil {
				panic(err)
			}
			return 200, js
		}
		m := siming.NewModel()
		var hist []string
		for i := 0; i < depth; i++ {
			st := operateSteps[w.Choose(len(operateSteps), "step")]
			what := st.name
			var err error
			switch st.name {
			case "sync":
				what = fmt.Sprintf("sync depth %d resync %v", st.depth, st.resync)
				err = s.admin().Sync(bg, provA.ID, a.Addr, st.depth, st.resync)
				d := int(st.depth)
				if d == 0 && !st.resync {
					d = limit
				}
				a.sync(m, d, st.resync)
			case "publish":
				a.add()
			case "announce":
				an := dtsync.Message{Cid: a.Head}
				an.SetAddrs([]multiaddr.Multiaddr{a.Addr.Encapsulate(sim.MA("/p2p/" + provA.ID.String()))})
				var buf bytes.Buffer
				if err := an.MarshalCBOR(&buf); err != nil {
					panic(err)
				}
				var code int
				code, _, _, err = raw("PUT", ingestURL+"/ingest/announce", buf.String())
				if err == nil && code/100 != 2 {
					err = fmt.Errorf("status %d", code)
				}
				a.sync(m, limit, false)
			case "import":
				var u *url.URL
				if u, err = url.Parse("http://10.0.3.1:80"); err != nil {
					panic(err)
				}
				err = s.admin().ImportProviders(bg, u)
				for _, c := range []*chain{a, b} {
					if !c.reg {
						c.sync(m, limit, false)
					}
				}
			case "register":
				// tells the addresses and nothing else
				addr := sim.Addr(31 + i)
				var c *httpingest.Client
				if c, err = httpingest.New(ingestURL); err != nil {
					panic(err)
				}
				err = c.Register(bg, provA.ID, provA.Priv, []string{addr.String()})
				a.reg, a.addr = true, addr.String()
			case "unreachable":
				err = s.admin().Sync(bg, provA.ID, sim.MA("/ip4/10.0.7.7/tcp/80/http"), 0, false)
			}
			hist = append(hist, what)
			if err != nil {
				w.Fail("C22", "refused", "%v: the request failed: %v", hist, err)
				return
			}
			time.Sleep(time.Minute)
			mcrt.Settle()
			if got, want := s.ix.Contents(operateMHs), m.Contents(operateMHs); got != want {
				w.Fail("C22", "index", "chain of %d, limit %d, %v: the index is\n      %s\nwant: %s", start, limit, hist, got, want)
				return
			}
			if got, want := s.listing(), wantListing(a, b); got != want {
				w.Fail("C22", "providers", "chain of %d, limit %d, %v: the providers are\n      %s\nwant: %s", start, limit, hist, got, want)
				return
			}
		}
		w.Observe("%s %s", m.Contents(operateMHs), s.listing())
	}
}

func wantListing(cs ...*chain) string {
	var out []string
	for _, c := range cs {
		if c.reg {
			out = append(out, fmt.Sprintf("%s@%s last %s publisher %s", c.prov.Name, c.addr, c.last, c.pub))
		}
	}
	return strings.Join(out, "; ")
}

// listing is what the provider list shows.
func (s *sys) listing() string {
	ps, err := s.http().ListProviders(bg)
	if err != nil {
		return err.Error()
	}
	var out []string
	for _, p := range ps {
		pub := ""
		if p.Publisher != nil {
			pub = p.Publisher.ID.String() + "@" + fmtAddrs(p.Publisher.Addrs)
		}
		out = append(out, fmt.Sprintf("%s@%s last %s publisher %s", siming.Names[p.AddrInfo.ID], fmtAddrs(p.AddrInfo.Addrs), p.LastAdvertisement, pub))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "api-operate", Prop: "C22", Run: operate(3), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
	mcrt.Register(&mcrt.Scenario{Name: "api-operate-4", Prop: "C22", Run: operate(4), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 4, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
}
