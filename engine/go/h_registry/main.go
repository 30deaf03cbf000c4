// Command h_registry explores the provider registry.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func main() { mcrt.Main() }

var (
	provA = sim.NewPeer("A")
	provB = sim.NewPeer("B")
	provC = sim.NewPeer("C")
	pubP  = sim.NewPeer("P")
	pubQ  = sim.NewPeer("Q")
	peers = map[string]*sim.Peer{"A": provA, "B": provB, "C": provC, "P": pubP, "Q": pubQ}
	names = map[peer.ID]string{}
	bg    = context.Background()
)

func init() {
	for n, p := range peers {
		names[p.ID] = n
	}
}

func baseCfg() config.Discovery {
	c := config.NewDiscovery()
	c.Policy = config.Policy{Allow: true, Publish: true}
	return c
}

func mustReg(w *mcrt.World, cfg config.Discovery, ds *sim.DS, d discovery.Discoverer) *registry.Registry {
	var r *registry.Registry
	var err error
	if ds == nil {
		r, err = registry.NewRegistry(bg, cfg, nil, d)
	} else {
		r, err = registry.NewRegistry(bg, cfg, ds, d)
	}
	if err != nil {
		panic("registry does not open: " + err.Error())
	}
	return r
}

// ---- reference model ----

// rec is what the registry must know about a provider.
type rec struct {
	addrs   string
	disc    string
	ad      string
	adTime  int64
	pub     string
	pubAddr string // "?" when unspecified
}

type state map[string]rec

func (s state) clone() state {
	c := state{}
	for k, v := range s {
		c[k] = v
	}
	return c
}

func addrsStr(as []multiaddr.Multiaddr) string {
	var ss []string
	for _, a := range as {
		ss = append(ss, a.String())
	}
	return strings.Join(ss, ",")
}

func cidStr(c cid.Cid) string {
	if c == cid.Undef {
		return ""
	}
	return c.String()
}

func fromInfo(i *registry.ProviderInfo) rec {
	r := rec{addrs: addrsStr(i.AddrInfo.Addrs), disc: i.DiscoveryAddr, ad: cidStr(i.LastAdvertisement)}
	if !i.LastAdvertisementTime.IsZero() {
		r.adTime = i.LastAdvertisementTime.UnixNano()
	}
	if i.Publisher.Validate() == nil {
		r.pub = names[i.Publisher]
	}
	if i.PublisherAddr != nil {
		r.pubAddr = i.PublisherAddr.String()
	}
	return r
}

func match(want, got rec) bool {
	if want.pubAddr == "?" {
		want.pubAddr, got.pubAddr = "", ""
	}
	return want == got
}

func (r rec) String() string {
	return fmt.Sprintf("{addrs=%s disc=%s ad=%.8s t=%d pub=%s pubaddr=%s}", r.addrs, r.disc, r.ad, r.adTime/1e9, r.pub, r.pubAddr)
}

// read gets the visible contents of the registry.
func read(r *registry.Registry) state {
	s := state{}
	for _, i := range r.AllProviderInfo() {
		s[names[i.AddrInfo.ID]] = fromInfo(i)
	}
	return s
}

func same(want, got state) bool {
	if len(want) != len(got) {
		return false
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok || !match(v, g) {
			return false
		}
	}
	return true
}

func show(s state) string {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k+s[k].String())
	}
	return "[" + strings.Join(out, " ") + "]"
}

// op is one operation on the registry.
type op struct {
	kind  string // register, update, remove, discover
	prov  string
	addrs []int
	ad    string
	pub   string
	pubAd int // 0: none
	disc  string
	bad   bool // addresses are not multiaddrs
}

func (o op) String() string {
	return fmt.Sprintf("%s(%s addrs=%v ad=%s pub=%s/%d)", o.kind, o.prov, o.addrs, o.ad, o.pub, o.pubAd)
}

func (o op) maddrs() []multiaddr.Multiaddr {
	var as []multiaddr.Multiaddr
	for _, a := range o.addrs {
		as = append(as, sim.Addr(a))
	}
	return as
}

func (o op) adCid() cid.Cid {
	if o.ad == "" {
		return cid.Undef
	}
	return sim.CID(o.ad)
}

// run applies the operation to the registry.
func (o op) run(r *registry.Registry) error {
	p := peers[o.prov]
	switch o.kind {
	case "register":
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.ID, Addrs: o.maddrs()}}
		if o.pub != "" {
			info.Publisher = peers[o.pub].ID
			info.PublisherAddr = sim.Addr(o.pubAd)
		}
		return r.Register(bg, info)
	case "update":
		var as []string
		for _, a := range o.maddrs() {
			as = append(as, a.String())
		}
		if o.bad {
			as = []string{"not a multiaddr"}
		}
		var pi peer.AddrInfo
		if o.pub != "" {
			pi.ID = peers[o.pub].ID
			if o.pubAd != 0 {
				pi.Addrs = []multiaddr.Multiaddr{sim.Addr(o.pubAd)}
			}
		}
		return r.RegisterOrUpdate(bg, p.ID, as, o.adCid(), pi)
	case "remove":
		return r.RemoveProvider(bg, p.ID)
	case "discover":
		return r.Discover(p.ID, o.disc, true)
	}
	panic(o.kind)
}

// apply is the operation on the model. Returned is the new state and whether
// the operation must be refused.
func (o op) apply(s state, now int64) (state, bool) {
	n := s.clone()
	cur, have := n[o.prov]
	switch o.kind {
	case "register":
		if len(o.addrs) == 0 {
			return s, true
		}
		cur.addrs = addrsStr(o.maddrs())
		if o.pub != "" {
			cur.pub, cur.pubAddr = o.pub, sim.Addr(o.pubAd).String()
		}
		n[o.prov] = cur
	case "update":
		if o.bad || !have && len(o.addrs) == 0 {
			return s, true
		}
		if len(o.addrs) != 0 {
			cur.addrs = addrsStr(o.maddrs())
		}
		if o.pub != "" {
			if o.pubAd != 0 {
				cur.pubAddr = sim.Addr(o.pubAd).String()
			} else if cur.pub != o.pub {
				cur.pubAddr = "?"
			}
			cur.pub = o.pub
		}
		if o.ad != "" && cidStr(o.adCid()) != cur.ad {
			cur.ad = cidStr(o.adCid())
			cur.adTime = now
		}
		n[o.prov] = cur
	case "remove":
		delete(n, o.prov)
	case "discover":
		// Discovery gives the address. The rest is kept.
		cur.addrs = addrsStr([]multiaddr.Multiaddr{discAddr(o.prov)})
		cur.disc = o.disc
		n[o.prov] = cur
	}
	return n, false
}

func discAddr(prov string) multiaddr.Multiaddr { return sim.Addr(90 + int(prov[0]-'A')) }

// disco is the simulated chain lookup.
type disco struct {
	delay  time.Duration
	err    error
	calls  int
	active map[string]int
	max    int
	before func()
}

func (d *disco) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	d.calls++
	if d.active == nil {
		d.active = map[string]int{}
	}
	d.active[addr]++
	if d.active[addr] > d.max {
		d.max = d.active[addr]
	}
	defer func() { d.active[addr]-- }()
	mcrt.Point()
	if d.delay > 0 {
		select {
		case <-time.After(d.delay):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if d.before != nil {
		d.before()
	}
	if d.err != nil {
		return nil, d.err
	}
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{discAddr(names[id])}}}, nil
}

// drain consumes the signals of the registry to the ingester and keeps them.
type drain struct {
	got []sig
}

type sig struct {
	prov    string
	deleted bool
	at      time.Duration
	info    *registry.ProviderInfo
}

func (d *drain) run(r *registry.Registry) {
	go func() {
		for i := range r.SyncChan() {
			d.got = append(d.got, sig{names[i.AddrInfo.ID], i.Deleted(), time.Duration(time.Now().UnixNano() - mcrt.T0), i})
		}
	}()
}

var errFault = errors.New("injected fault")
