package main

import (
	"fmt"
	"io/ioutil"
	"net/http"
	"sort"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-delegated-routing/client"
	"github.com/ipfs/go-delegated-routing/gen/proto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

const bitswap = "\x80\x12"

type rec struct {
	prov     *sim.Peer
	ctx, md  string
	mhs      []string
	addrs    string // set when the record is live
	bitswaps bool
}

var recPool = []rec{
	{prov: provA, ctx: "c1", md: bitswap, mhs: []string{"m1", "m2"}},
	{prov: provA, ctx: "c2", md: "other", mhs: []string{"m1"}},
	{prov: provB, ctx: "c1", md: bitswap, mhs: []string{"m2", "m1"}},
	{prov: provB, ctx: "c2", md: bitswap + "x", mhs: []string{"m3"}},
}

// provState brings a provider into one of the states a registry knows.
var provStates = []string{"active", "updated", "inactive", "removed", "never", "silent"}

var (
	addr1 = sim.MA("/ip4/1.2.3.4/tcp/3000")
	addr2 = sim.MA("/ip4/1.2.3.5/tcp/3001/http")
	addr3 = sim.MA("/dns4/host.example.org/tcp/3002")
)

func addrsOf(st string) []multiaddr.Multiaddr {
	switch st {
	case "updated":
		return []multiaddr.Multiaddr{addr2, addr3}
	case "never", "removed":
		return nil
	}
	return []multiaddr.Multiaddr{addr1}
}

func fmtAddrs(as []multiaddr.Multiaddr) string {
	var r []string
	for _, a := range as {
		r = append(r, a.String())
	}
	return strings.Join(r, ",")
}

// bring sets up the providers; time passes.
func (s *sys) bring(states map[*sim.Peer]string) bool {
	go func() {
		for range s.reg.SyncChan() {
		}
	}()
	up := func(p *sim.Peer, as []multiaddr.Multiaddr) bool {
		var strs []string
		for _, a := range as {
			strs = append(strs, a.String())
		}
		err := s.reg.RegisterOrUpdate(bg, p.ID, strs, sim.CID("ad"+p.Name), peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{addr1}})
		if err != nil {
			s.w.Fail(s.prop, "register", "%s: %v", p.Name, err)
		}
		return err == nil
	}
	ps := []*sim.Peer{provA, provB}
	for _, p := range ps {
		if states[p] != "never" {
			if !up(p, []multiaddr.Multiaddr{addr1}) {
				return false
			}
		}
	}
	// Both are silent for long enough to become inactive.
	time.Sleep(12 * time.Minute)
	mcrt.Settle()
	for _, p := range ps {
		switch states[p] {
		case "active":
			if !up(p, []multiaddr.Multiaddr{addr1}) {
				return false
			}
		case "silent": // heard from again without addresses
			if !up(p, nil) {
				return false
			}
		case "updated":
			if !up(p, []multiaddr.Multiaddr{addr2, addr3}) {
				return false
			}
		case "removed":
			if err := s.reg.RemoveProvider(bg, p.ID); err != nil {
				s.w.Fail(s.prop, "remove", "%v", err)
				return false
			}
		}
	}
	mcrt.Settle()
	return true
}

func findCfg() config.Discovery {
	rc := regCfg()
	rc.PollInterval = config.Duration(3 * time.Minute)
	rc.PollRetryAfter = config.Duration(2 * time.Minute)
	rc.PollStopAfter = config.Duration(100 * time.Hour)
	return rc
}

func mhs(names []string) (r []multihash.Multihash) {
	for _, n := range names {
		r = append(r, sim.MH(n))
	}
	return
}

func mhName(m multihash.Multihash) string {
	for _, n := range []string{"m1", "m2", "m3", "x1", "x2"} {
		if string(sim.MH(n)) == string(m) {
			return n
		}
	}
	return fmt.Sprintf("?%x", []byte(m))
}

// showResponse prints a response; order of multihashes kept.
func showResponse(r *model.FindResponse) string {
	var out []string
	for _, m := range r.MultihashResults {
		var rs []string
		for _, p := range m.ProviderResults {
			rs = append(rs, fmt.Sprintf("%s/%s/%q@%s", siming.Names[p.Provider.ID], p.ContextID, p.Metadata, fmtAddrs(p.Provider.Addrs)))
		}
		sort.Strings(rs)
		out = append(out, mhName(m.Multihash)+"="+strings.Join(rs, " "))
	}
	return strings.Join(out, "; ")
}

func live(st string) bool { return st == "active" || st == "updated" || st == "silent" }

func wantResponse(recs []rec, states map[*sim.Peer]string, q []string) string {
	r := &model.FindResponse{}
	for _, m := range q {
		mr := model.MultihashResult{Multihash: sim.MH(m)}
		for _, x := range recs {
			if !live(states[x.prov]) {
				continue
			}
			for _, y := range x.mhs {
				if y == m {
					mr.ProviderResults = append(mr.ProviderResults, model.ProviderResult{ContextID: []byte(x.ctx), Metadata: []byte(x.md), Provider: peer.AddrInfo{ID: x.prov.ID, Addrs: addrsOf(states[x.prov])}})
				}
			}
		}
		if len(mr.ProviderResults) > 0 {
			r.MultihashResults = append(r.MultihashResults, mr)
		}
	}
	return showResponse(r)
}

// wantReframe: one address info per address of every bitswap record.
func wantReframe(recs []rec, states map[*sim.Peer]string, m string) string {
	var out []string
	for _, x := range recs {
		if !live(states[x.prov]) || x.md != bitswap {
			continue
		}
		for _, y := range x.mhs {
			if y == m {
				for _, a := range addrsOf(states[x.prov]) {
					out = append(out, x.prov.Name+"@"+a.String())
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (s *sys) reframe(m string, version int) (string, error) {
	q, err := proto.New_DelegatedRouting_Client(finderURL + "/reframe")
	if err != nil {
		panic(err)
	}
	c := cid.NewCidV1(cid.Raw, sim.MH(m))
	if version == 0 {
		c = cid.NewCidV0(sim.MH(m))
	}
	infos, err := client.NewClient(q).FindProviders(bg, c)
	if err != nil {
		return "", err
	}
	var out []string
	for _, i := range infos {
		for _, a := range i.Addrs {
			out = append(out, siming.Names[i.ID]+"@"+a.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, " "), nil
}

// raw does a plain HTTP request.
func raw(method, url string, body string) (int, http.Header, []byte, error) {
	var req *http.Request
	var err error
	if body != "" {
		req, err = http.NewRequest(method, url, strings.NewReader(body))
	} else {
		req, err = http.NewRequest(method, url, nil)
	}
	if err != nil {
		return 0, nil, nil, err
	}
	res, err := http.DefaultClient.Do(req)
	if err != nil {
		return 0, nil, nil, err
	}
	defer res.Body.Close()
	b, err := ioutil.ReadAll(res.Body)
	return res.StatusCode, res.Header, b, err
}

var endpoints = []string{"http", "batch", "cid", "cid0", "libp2p", "reframe", "reframe0"}

// ask sends a query to an endpoint and compares the answer.
func (s *sys) ask(ep string, recs []rec, states map[*sim.Peer]string, q []string, what string) bool {
	var got string
	var err error
	want := wantResponse(recs, states, q)
	var r *model.FindResponse
	switch ep {
	case "http":
		if len(q) != 1 {
			return true
		}
		r, err = s.http().Find(bg, sim.MH(q[0]))
	case "batch":
		r, err = s.http().FindBatch(bg, mhs(q))
	case "libp2p":
		r, err = s.p2p().FindBatch(bg, mhs(q))
	case "cid", "cid0":
		if len(q) != 1 {
			return true
		}
		c := cid.NewCidV1(cid.DagCBOR, sim.MH(q[0]))
		if ep == "cid0" {
			c = cid.NewCidV0(sim.MH(q[0]))
		}
		st, _, b, e := raw("GET", finderURL+"/cid/"+c.String(), "")
		switch {
		case e != nil:
			err = e
		case st == 404:
			r = &model.FindResponse{}
		case st != 200:
			err = fmt.Errorf("status %d: %s", st, b)
		default:
			r, err = model.UnmarshalFindResponse(b)
		}
	case "reframe", "reframe0":
		if len(q) != 1 {
			return true
		}
		want = wantReframe(recs, states, q[0])
		got, err = s.reframe(q[0], map[string]int{"reframe": 1, "reframe0": 0}[ep])
	}
	if err != nil {
		got = "error " + err.Error()
	} else if r != nil {
		got = showResponse(r)
	}
	if got != want {
		s.w.Fail("C05", "answer differs", "%s: %s answers %v with\n  %s\nwant\n  %s", what, ep, q, got, want)
		return false
	}
	return true
}

var queries = [][]string{{"m1"}, {"m2"}, {"m3"}, {"x1"}, {"m1", "m2"}, {"x1", "m2"}, {"m2", "m2"}, {"m3", "m1", "x2", "m2"}, {"x1", "x2"}}

func fillIndex(s *sys, recs []rec) {
	for _, x := range recs {
		if err := s.ix.Put(indexer.Value{ProviderID: x.prov.ID, ContextID: []byte(x.ctx), MetadataBytes: []byte(x.md)}, mhs(x.mhs)...); err != nil {
			panic(err)
		}
	}
}

// indexed prints the records of registered providers that the index must still hold.
func wantIndexed(recs []rec, states map[*sim.Peer]string) string {
	m := siming.NewModel()
	for _, x := range recs {
		if st := states[x.prov]; st != "removed" && st != "never" {
			m.Apply(siming.AdSpec{Kind: "add", Prov: x.prov, Ctx: x.ctx, Meta: x.md, Chunks: [][]string{x.mhs}})
		}
	}
	return m.Contents([]string{"m1", "m2", "m3"})
}

// find: every index content and registry state; every query at every
// endpoint, every one of them first.
func find(w *mcrt.World) {
	states := map[*sim.Peer]string{provA: w.Pick("A is", provStates...), provB: w.Pick("B is", provStates...)}
	var recs []rec
	set := w.Choose(1<<uint(len(recPool)), "records")
	for i, r := range recPool {
		if set>>uint(i)&1 == 1 {
			recs = append(recs, r)
		}
	}
	first := w.Choose(len(queries), "first query")
	ep := w.Choose(len(endpoints), "first endpoint")
	s := newSys(w, "C05", findCfg(), false)
	if !s.bring(states) {
		return
	}
	fillIndex(s, recs)
	what := fmt.Sprintf("A is %s, B is %s, records %04b", states[provA], states[provB], set)
	gone := map[string]bool{"A/": !registered(states[provA]), "B/": !registered(states[provB])}
	var pre []string
	for p, g := range gone {
		if g {
			pre = append(pre, p)
		}
	}
	sort.Strings(pre)
	for i := range queries {
		for j := range endpoints {
			q := queries[(first+i)%len(queries)]
			if !s.ask(endpoints[(ep+j)%len(endpoints)], recs, states, q, what) {
				return
			}
			if i == 0 && j == 0 {
				mcrt.Settle()
			}
		}
	}
	mcrt.Settle()
	if got, want := siming.Without(s.ix.Contents([]string{"m1", "m2", "m3"}), pre), wantIndexed(recs, states); got != want {
		w.Fail("C05", "data removed", "%s: after the queries the index holds\n  %s\nwant\n  %s", what, got, want)
	}
	w.Observe("%s", what)
}

func registered(st string) bool { return st != "removed" && st != "never" }

// findPar: a query concurrent with a change.
func findPar(w *mcrt.World) {
	recs := recPool
	states := map[*sim.Peer]string{provA: "active", provB: "active"}
	s := newSys(w, "C05", findCfg(), false)
	mcrt.Calm(true)
	if !s.bring(states) {
		return
	}
	fillIndex(s, recs)
	mcrt.Calm(false)
	ep := w.Pick("endpoint", "batch", "libp2p")
	q := queries[[]int{4, 7}[w.Choose(2, "query")]]
	change := w.Pick("change", "update A", "remove A", "remove B", "put", "rmctx", "update B")
	after := map[*sim.Peer]string{provA: "active", provB: "active"}
	recs2 := append([]rec{}, recs...)
	extra := rec{prov: provA, ctx: "c3", md: "new", mhs: []string{"m2", "m3"}}
	var resp *model.FindResponse
	var err error
	w.Par(func() {
		if ep == "batch" {
			resp, err = s.http().FindBatch(bg, mhs(q))
		} else {
			resp, err = s.p2p().FindBatch(bg, mhs(q))
		}
	}, func() {
		switch change {
		case "update A", "update B":
			p := map[string]*sim.Peer{"update A": provA, "update B": provB}[change]
			after[p] = "updated"
			if e := s.reg.RegisterOrUpdate(bg, p.ID, []string{addr2.String(), addr3.String()}, cid.Undef, peer.AddrInfo{}); e != nil {
				w.Fail("C05", "update", "%v", e)
			}
		case "remove A", "remove B":
			p := map[string]*sim.Peer{"remove A": provA, "remove B": provB}[change]
			after[p] = "removed"
			if e := s.reg.RemoveProvider(bg, p.ID); e != nil {
				w.Fail("C05", "remove", "%v", e)
			}
		case "put":
			recs2 = append(recs2, extra)
			fillIndex(s, []rec{extra})
		case "rmctx":
			recs2 = recs2[1:]
			if e := s.ix.RemoveProviderContext(provA.ID, []byte("c1")); e != nil {
				w.Fail("C05", "remove", "%v", e)
			}
		}
	})
	if err != nil {
		w.Fail("C05", "query failed", "%s concurrent with %s: %v", ep, change, err)
		return
	}
	// every record of the answer was there before or after; what was there
	// both before and after is in the answer
	before := parts(wantResponse(recs, states, q))
	then := parts(wantResponse(recs2, after, q))
	got := parts(showResponse(resp))
	for k := range got {
		if !before[k] && !then[k] {
			w.Fail("C05", "answer differs", "%s concurrent with %s: answer has %s, which was there neither before nor after", ep, change, k)
		}
	}
	for k := range before {
		if then[k] && !got[k] {
			w.Fail("C05", "answer differs", "%s concurrent with %s: answer lacks %s; it is\n%s", ep, change, k, showResponse(resp))
		}
	}
	mcrt.Settle()
	for _, x := range queries[7:8] {
		s.ask(ep, recs2, after, x, "after "+change)
	}
	mcrt.Settle()
	var pre []string
	for p, st := range after {
		if st == "removed" {
			pre = append(pre, p.Name+"/")
		}
	}
	if got, want := siming.Without(s.ix.Contents([]string{"m1", "m2", "m3"}), pre), wantIndexed(recs2, after); got != want {
		w.Fail("C05", "data removed", "%s concurrent with %s: the index holds\n  %s\nwant\n  %s", ep, change, got, want)
	}
	w.Observe("%s %s %v %s", ep, change, q, showResponse(resp))
}

func parts(resp string) map[string]bool {
	r := map[string]bool{}
	if resp == "" {
		return r
	}
	for _, m := range strings.Split(resp, "; ") {
		kv := strings.SplitN(m, "=", 2)
		for _, x := range strings.Split(kv[1], " ") {
			r[kv[0]+"="+x] = true
		}
	}
	return r
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "api-find", Prop: "C05", Run: find, Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: time.Hour, NoMap: true, NoSelect: true})
	mcrt.Register(&mcrt.Scenario{Name: "api-find-par", Prop: "C05", Run: findPar, Quick: 1, Thorough: 2, Race: 0, RaceThorough: 1, Horizon: time.Hour})
}
