package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// apiPol is the reference policy over A, B and C (a publisher for B).
type apiPol struct {
	allow, publish bool
	ex, pubEx      string
}

func (p apiPol) cfg() config.Policy {
	c := config.Policy{Allow: p.allow, Publish: p.publish}
	for _, x := range []*sim.Peer{provA, provB, provC} {
		if strings.Contains(p.ex, x.Name) {
			c.Except = append(c.Except, x.ID.String())
		}
		if strings.Contains(p.pubEx, x.Name) {
			c.PublishExcept = append(c.PublishExcept, x.ID.String())
		}
	}
	return c
}

func (p apiPol) allowed(x *sim.Peer) bool { return p.allow != strings.Contains(p.ex, x.Name) }

func (p apiPol) may(prov, pub *sim.Peer) bool {
	if prov == pub {
		return p.allowed(prov)
	}
	return p.allowed(prov) && p.allowed(pub) && p.publish != strings.Contains(p.pubEx, pub.Name)
}

func (p *apiPol) set(x *sim.Peer, allow bool) {
	if p.allowed(x) == allow {
		return
	}
	if strings.Contains(p.ex, x.Name) {
		p.ex = strings.Replace(p.ex, x.Name, "", 1)
	} else {
		p.ex += x.Name
	}
}

var apiPols = []apiPol{
	{true, true, "", ""},
	{true, true, "A", "C"},
	{true, false, "B", ""},
	{false, true, "AC", ""},
	{false, false, "BC", "C"},
	{false, true, "", ""},
}

// apiPolicy: the policy at every endpoint of an indexer.
func apiPolicy(depth int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		po := apiPols[w.Choose(len(apiPols), "policy")]
		transport := w.Pick("transport", "http", "p2p")
		rc := regCfg()
		rc.Policy = po.cfg()
		d := &signDisc{}
		s := newSys(w, "C04", rc, true, d)
		mcrt.Calm(true)
		pubs := map[*sim.Peer]*siming.Pub{provA: siming.NewPub(provA, 1), provC: siming.NewPub(provC, 2)}
		s.web.Pubs = map[string]*siming.Pub{pubs[provA].Host: pubs[provA], pubs[provC].Host: pubs[provC]}
		s.web.Other = func(req *http.Request) (int, []byte) {
			if req.URL.Host != "10.0.3.1:80" || req.URL.Path != "/providers" {
				return 404, nil
			}
			a := model.MakeProviderInfo(peer.AddrInfo{ID: provA.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(7)}}, cid.Undef, time.Time{}, "", nil)
			b := model.MakeProviderInfo(peer.AddrInfo{ID: provB.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(8)}}, cid.Undef, time.Time{}, provC.ID, sim.Addr(9))
			js, err := json.Marshal([]model.ProviderInfo{a, b})
			if err != nil {
				panic(err)
			}
			return 200, js
		}
		reg := map[*sim.Peer]bool{}
		var hist []string
		n := 0
		fail := func(class, format string, args ...interface{}) {
			w.Fail("C04", class, "%s (history %s, now %+v)", fmt.Sprintf(format, args...), strings.Join(hist, ", "), po)
		}
		for i := 0; i < depth; i++ {
			time.Sleep(time.Second)
			n++
			k := w.Choose(13, "step")
			switch {
			case k < 6: // allow and block
				x, allow := []*sim.Peer{provA, provB, provC}[k%3], k < 3
				hist = append(hist, fmt.Sprintf("allow %s: %v", x.Name, allow))
				po.set(x, allow)
				var err error
				if allow {
					err = s.admin().Allow(bg, x.ID)
				} else {
					err = s.admin().Block(bg, x.ID)
				}
				if err != nil {
					fail("allow", "the request failed: %v", err)
				}
			case k < 9: // signed requests
				kind := reqKinds[k-6]
				hist = append(hist, kind+" A")
				calls := len(d.calls)
				ok, answer := s.post(transport, kind, seal(makeRecord(kind, provA, n, now()), provA.Priv))
				mcrt.Settle()
				// A provider that is registered already may go on to index content.
				if want := po.allowed(provA) || kind == "index" && reg[provA]; ok != want {
					fail("request", "%s: answered %s", kind, answer)
				}
				if !ok && len(d.calls) != calls {
					fail("request", "a refused %s request caused a look-up", kind)
				}
				if ok {
					reg[provA] = true
				} else if strings.HasPrefix(answer, "2") || strings.HasPrefix(answer, "5") {
					fail("request", "%s refused with %s", kind, answer)
				}
			case k < 11: // announcements
				pub := []*sim.Peer{provA, provC}[k-9]
				prov := []*sim.Peer{provA, provB}[k-9]
				hist = append(hist, fmt.Sprintf("announce %s for %s", pub.Name, prov.Name))
				p := pubs[pub]
				p.Add(siming.AdSpec{Kind: "add", Prov: prov, Ctx: fmt.Sprint("c", n), Meta: "v0", Chunks: [][]string{{"m1"}}})
				siming.Published()
				an := dtsync.Message{Cid: p.Head}
				an.SetAddrs([]multiaddr.Multiaddr{p.Addr.Encapsulate(sim.MA("/p2p/" + pub.ID.String()))})
				var buf bytes.Buffer
				if err := an.MarshalCBOR(&buf); err != nil {
					panic(err)
				}
				reqs := s.web.Requests()
				st, _, body, err := raw("PUT", ingestURL+"/ingest/announce", buf.String())
				if err != nil {
					fail("announce", "not answered: %v", err)
				}
				mcrt.Settle()
				if want := po.allowed(pub); want != (st/100 == 2) {
					fail("announce", "the announcement was answered %d %s", st, body)
				} else if !want && st != http.StatusForbidden {
					fail("announce", "the announcement was refused with status %d", st)
				}
				if got := s.web.Requests(); !po.allowed(pub) && got != reqs {
					fail("announce", "a refused announcement caused %d fetches", got-reqs)
				}
				if po.may(prov, pub) {
					reg[prov] = true
				}
			case k == 11:
				hist = append(hist, "import providers")
				u, err := url.Parse("http://10.0.3.1:80")
				if err != nil {
					panic(err)
				}
				if err = s.admin().ImportProviders(bg, u); err != nil {
					fail("import", "the request failed: %v", err)
				}
				mcrt.Settle()
				if po.may(provA, provA) {
					reg[provA] = true
				}
				if po.may(provB, provC) {
					reg[provB] = true
				}
			case k == 12:
				po = apiPols[2+w.Choose(2, "new policy")]
				hist = append(hist, fmt.Sprintf("set %+v", po))
				if err := s.reg.SetPolicy(po.cfg()); err != nil {
					fail("set", "a good policy was refused: %v", err)
				}
			}
			// What is registered.
			var ps []*model.ProviderInfo
			var err error
			if transport == "http" {
				ps, err = s.http().ListProviders(bg)
			} else {
				ps, err = s.p2p().ListProviders(bg)
			}
			if err != nil {
				fail("listing", "cannot list providers: %v", err)
			}
			got := map[peer.ID]bool{}
			for _, p := range ps {
				got[p.AddrInfo.ID] = true
			}
			for _, x := range []*sim.Peer{provA, provB, provC} {
				if got[x.ID] != reg[x] {
					fail("listing", "provider %s listed: %v, want %v", x.Name, got[x.ID], reg[x])
				}
				if s.reg.IsRegistered(x.ID) != reg[x] {
					fail("listing", "provider %s registered: %v", x.Name, !reg[x])
				}
			}
			if w.Failed() {
				return
			}
		}
		w.Observe("%v %v %v", reg[provA], reg[provB], po)
	}
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "api-policy", Prop: "C04", Run: apiPolicy(3), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
	mcrt.Register(&mcrt.Scenario{Name: "api-policy-4", Prop: "C04", Run: apiPolicy(4), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 4, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
}
