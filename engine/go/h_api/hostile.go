package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-legs/dtsync"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	fpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	pb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	ingesthttpserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-msgio"
	"github.com/multiformats/go-multiaddr"
)

// hreq is a good HTTP request.
type hreq struct {
	name, method, url string
	body              []byte
	isJSON            bool
	own               bool // may change what is indexed for A
}

type hostile struct {
	*sys
	pub    *siming.Pub
	disc   *signDisc
	before string
}

var hostileMHs = []string{"m1", "m2", "m3", "f0", "f1"}

func (h *hostile) contents() string { return h.ix.Contents(hostileMHs) }

func (h *hostile) registered() string {
	var r []string
	for _, pi := range h.reg.AllProviderInfo() {
		b, err := json.Marshal(pi)
		if err != nil {
			panic(err)
		}
		r = append(r, string(b))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// hostileSys has B registered with a record, a publisher A whose chain was not
// synced yet, and another indexer that knows C.
func hostileSys(w *mcrt.World) *hostile {
	h := &hostile{disc: &signDisc{}}
	h.sys = newSys(w, "C21", regCfg(), true, h.disc)
	mcrt.Calm(true)
	h.pub = siming.NewPub(provA, 1)
	h.pub.Add(siming.AdSpec{Kind: "add", Prov: provA, Ctx: "c1", Meta: "v0", Chunks: [][]string{{"m1", "m2"}}})
	h.web.Pubs = map[string]*siming.Pub{h.pub.Host: h.pub}
	h.web.Other = func(req *http.Request) (int, []byte) {
		if req.URL.Host == "10.0.3.1:80" && req.URL.Path == "/providers" {
			b, err := json.Marshal([]model.ProviderInfo{model.MakeProviderInfo(peer.AddrInfo{ID: provC.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(7)}}, cid.Undef, time.Time{}, "", nil)})
			if err != nil {
				panic(err)
			}
			return 200, b
		}
		return 404, nil
	}
	if err := h.reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: provB.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(2)}}}); err != nil {
		panic(err)
	}
	if err := h.ix.Put(indexer.Value{ProviderID: provB.ID, ContextID: []byte("b1"), MetadataBytes: []byte("md")}, sim.MH("m1")); err != nil {
		panic(err)
	}
	return h
}

func (h *hostile) requests(file string) []hreq {
	an := dtsync.Message{Cid: h.pub.Head, ExtraData: []byte("x")}
	an.SetAddrs([]multiaddr.Multiaddr{h.pub.Addr.Encapsulate(sim.MA("/p2p/" + provA.ID.String()))})
	var abuf bytes.Buffer
	if err := an.MarshalCBOR(&abuf); err != nil {
		panic(err)
	}
	fr, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs([]string{"m1", "m2"})})
	if err != nil {
		panic(err)
	}
	js := func(v interface{}) []byte {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	imp := js(map[string][]byte{"file": []byte(file), "context_id": []byte("ci"), "metadata": []byte("me")})
	c1 := cid.NewCidV1(cid.Raw, sim.MH("m1"))
	return []hreq{
		{"register", "POST", ingestURL + "/register", seal(makeRecord("register", provA, 3, now()), provA.Priv), false, false},
		{"discover", "POST", ingestURL + "/discover", seal(makeRecord("discover", provA, 3, now()), provA.Priv), false, false},
		{"announce", "PUT", ingestURL + "/ingest/announce", abuf.Bytes(), false, false},
		{"find batch", "POST", finderURL + "/multihash", fr, true, false},
		{"reframe", "POST", finderURL + "/reframe", []byte(`{"FindProvidersRequest":{"Key":{"/":"` + c1.String() + `"}}}`), true, false},
		{"sync", "POST", adminURL + "/ingest/sync/" + provA.ID.String(), js(h.pub.Addr.String()), true, false},
		{"import providers", "POST", adminURL + "/importproviders", js(map[string][]byte{"indexer": []byte("http://10.0.3.1:80")}), true, false},
		{"import cidlist", "POST", adminURL + "/import/cidlist/" + provA.ID.String(), imp, true, true},
		{"import manifest", "POST", adminURL + "/import/manifest/" + provA.ID.String(), imp, true, true},
	}
}

// send sends a request; false if it is not answered.
func (h *hostile) send(what, method, url string, body []byte) (int, bool) {
	done := make(chan struct{})
	st := 0
	go func() {
		defer close(done)
		st, _, _, _ = raw(method, url, string(body))
	}()
	if !h.w.Within(done, time.Hour) {
		h.w.Fail("C21", "hang", "%s: not answered", what)
		return 0, false
	}
	mcrt.Settle()
	return st, true
}

// check: nothing else changed and good requests work.
func (h *hostile) check(what string) {
	if h.w.Failed() {
		return
	}
	if got := siming.Without(h.contents(), []string{"A/"}); got != "m1=B/b1/md" {
		h.w.Fail("C21", "index changed", "%s: entries of another provider changed: %s", what, got)
	}
	if got := h.regOf("B"); got == "" {
		h.w.Fail("C21", "registry changed", "%s: another provider is no longer registered", what)
	}
	time.Sleep(time.Second)
	for _, tr := range []string{"http", "libp2p"} {
		time.Sleep(time.Second)
		ok, text := h.post(tr, "register", seal(makeRecord("register", provC, 5, now()), provC.Priv))
		if !ok {
			h.w.Fail("C21", "good request refused", "%s: a registration over %s is refused: %s", what, tr, text)
		}
	}
	r, err := h.http().Find(bg, sim.MH("m1"))
	if err != nil || !strings.Contains(showResponse(r), "/b1/") {
		h.w.Fail("C21", "good request refused", "%s: a find request fails: %v %v", what, r, err)
	}
	r, err = h.p2p().Find(bg, sim.MH("m1"))
	if err != nil || !strings.Contains(showResponse(r), "/b1/") {
		h.w.Fail("C21", "good request refused", "%s: a find request over libp2p fails: %v %v", what, r, err)
	}
	ch, err := h.ing.Sync(bg, provA.ID, h.pub.Addr, 0, false)
	if err != nil {
		h.w.Fail("C21", "good request refused", "%s: a sync fails: %v", what, err)
		return
	}
	select {
	case c := <-ch:
		if c != h.pub.Head {
			h.w.Fail("C21", "good request refused", "%s: a sync returns %v", what, c)
		}
	case <-time.After(time.Hour):
		h.w.Fail("C21", "good request refused", "%s: a sync is not answered", what)
	}
}

func (h *hostile) regOf(name string) string {
	for _, pi := range h.reg.AllProviderInfo() {
		if siming.Names[pi.AddrInfo.ID] == name {
			return fmt.Sprint(pi.AddrInfo)
		}
	}
	return ""
}

// hostileBody: every alteration of the body of one request.
func hostileBody(i int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		file, clean := impFile(cidText("f0", "v1") + "\n" + `{"RecordType":"DagAggregateEntry","DagCidV1":"` + cidText("f1", "v1") + `"}` + "\n")
		defer clean()
		// what the request does when it is good
		h := hostileSys(w)
		rq := h.requests(file)[i]
		bads := siming.Flips(rq.body)
		if rq.isJSON {
			bads = append(bads, siming.Alters(rq.body)...)
		}
		k := w.Choose(len(bads)+1, "alteration")
		body := rq.body
		if k > 0 {
			body = bads[k-1]
		}
		what := fmt.Sprintf("%s with body %q", rq.name, body)
		before, rbefore := h.contents(), h.registered()
		st, ok := h.send(what, rq.method, rq.url, body)
		if !ok {
			return
		}
		time.Sleep(time.Minute)
		mcrt.Settle()
		after, rafter := h.contents(), h.registered()
		if k == 0 && st/100 != 2 {
			w.Fail("C21", "good request refused", "%s: refused with %d", what, st)
		}
		if st >= 400 && (after != before || rafter != rbefore) && !rq.own && st != 502 {
			w.Fail("C21", "refused with effect", "%s: refused with %d but took effect\nindex: %s\nregistry: %s", what, st, after, rafter)
		}
		if st/100 == 2 && rq.body != nil {
			for _, f := range strings.Split(rafter, "\n") {
				if f != "" && !strings.Contains(f, provA.ID.String()) && !strings.Contains(f, provB.ID.String()) && !(rq.name == "import providers" && strings.Contains(f, provC.ID.String())) {
					w.Fail("C21", "unexpected registration", "%s: registered %s", what, f)
				}
			}
		}
		h.check(what)
		w.Observe("%s %d", rq.name, st)
	}
}

// hostilePaths: every method and every bad parameter of every route.
func hostilePaths(w *mcrt.World) {
	id, mh, c := provA.ID.String(), sim.MH("m1").B58String(), cid.NewCidV1(cid.Raw, sim.MH("m1")).String()
	bad := []string{"x", "%00", "%2F", "..", strings.Repeat("a", 5000), id[:len(id)-1], id + "1", "Qm", "1", "z", "b", c, mh, "%F0%9F%98%80", "null", "{}", "-1", "%"}
	type route struct{ pre, good, post string }
	routes := []route{
		{finderURL + "/cid/", c, ""}, {finderURL + "/multihash/", mh, ""}, {finderURL + "/multihash", "", ""}, {finderURL + "/health", "", ""}, {finderURL + "/providers", "", ""},
		{finderURL + "/providers/", id, ""}, {finderURL + "/stats", "", ""}, {finderURL + "/reframe", "", ""}, {finderURL + "/reframe?q=", "x", ""}, {finderURL + "/", "", ""},
		{ingestURL + "/ingest/announce", "", ""}, {ingestURL + "/discover", "", ""}, {ingestURL + "/register", "", ""}, {ingestURL + "/register/", id, ""},
		{adminURL + "/import/manifest/", id, ""}, {adminURL + "/import/cidlist/", id, ""}, {adminURL + "/healthcheck", "", ""}, {adminURL + "/importproviders", "", ""},
		{adminURL + "/ingest/allow/", id, ""}, {adminURL + "/ingest/block/", id, ""}, {adminURL + "/ingest/sync/", id, ""}, {adminURL + "/ingest/sync/" + id + "?depth=", "1", ""}, {adminURL + "/ingest/sync/" + id + "?resync=", "true", ""},
		{adminURL + "/config/log/level", "", ""}, {adminURL + "/config/log/level?", "%5B=error", ""}, {adminURL + "/config/log/level?none%24=", "error", ""}, {adminURL + "/config/log/subsystems", "", ""},
	}
	rt := routes[w.Choose(len(routes), "route")]
	method := w.Pick("method", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS")
	param := rt.good
	if rt.good != "" {
		if k := w.Choose(len(bad)+1, "parameter"); k > 0 {
			param = bad[k-1]
		}
	}
	body := w.Pick("body", "", "x", "{}", "null", `""`, "[]", `{"a":"AA=="}`)
	h := hostileSys(w)
	what := fmt.Sprintf("%s %s%s with body %q", method, rt.pre, param, body)
	before, rbefore := h.contents(), h.registered()
	st, ok := h.send(what, method, rt.pre+param, []byte(body))
	if !ok {
		return
	}
	time.Sleep(time.Minute)
	mcrt.Settle()
	if h.contents() != before || h.registered() != rbefore {
		w.Fail("C21", "effect", "%s (answered %d) changed something\nindex: %s\nregistry: %s", what, st, h.contents(), h.registered())
	}
	if strings.HasPrefix(rt.pre, adminURL+"/ingest/block/") && param == id && method == "PUT" {
		return // blocked
	}
	h.check(what)
	w.Observe("%d", st)
}

// hostileP2P: every alteration of every libp2p message.
func hostileP2P(proto protocol.ID, i int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		h := hostileSys(w)
		var good []byte
		var err error
		if proto == v0.FinderProtocolID {
			fr, e := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs([]string{"m1", "m2"})})
			if e != nil {
				panic(e)
			}
			m := []*fpb.FinderMessage{{Type: fpb.FinderMessage_FIND, Data: fr}, {Type: fpb.FinderMessage_LIST_PROVIDERS}, {Type: fpb.FinderMessage_GET_PROVIDER, Data: []byte(`"` + provB.ID.String() + `"`)}, {Type: fpb.FinderMessage_GET_STATS}}[i]
			good, err = m.Marshal()
		} else {
			m := []*pb.IngestMessage{{Type: pb.IngestMessage_REGISTER_PROVIDER, Data: seal(makeRecord("register", provA, 3, now()), provA.Priv)}, {Type: pb.IngestMessage_DISCOVER_PROVIDER, Data: seal(makeRecord("discover", provA, 3, now()), provA.Priv)}, {Type: pb.IngestMessage_INDEX_CONTENT, Data: seal(makeRecord("index", provA, 3, now()), provA.Priv)}}[i]
			good, err = m.Marshal()
		}
		if err != nil {
			panic(err)
		}
		var msgs [][]byte
		for _, b := range siming.Flips(good) {
			msgs = append(msgs, frame(b))
		}
		f := frame(good)
		msgs = append(msgs, siming.Flips(f)...)
		msgs = append(msgs, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0x80, 0x80, 0x80, 0x80, 0x10, 1}, []byte{0, 0, 0})
		k := w.Choose(len(msgs), "message")
		then := w.Pick("then", "close", "wait", "reset")
		msg := msgs[k]
		what := fmt.Sprintf("message %q on %s, %s", msg, proto, then)
		before, rbefore := h.contents(), h.registered()
		done := make(chan struct{})
		answered := ""
		go func() {
			defer close(done)
			s, err := h.ch.NewStream(bg, me.ID, proto)
			if err != nil {
				return
			}
			s.Write(msg)
			switch then {
			case "close":
				s.CloseWrite()
			case "reset":
				s.Reset()
				return
			case "wait":
				s.SetReadDeadline(time.Now().Add(10 * time.Minute))
			}
			r := msgio.NewVarintReaderSize(s, network.MessageSizeMax)
			b, err := r.ReadMsg()
			if err == nil {
				answered = string(b)
			} else if !errors.Is(err, network.ErrReset) {
				answered = ""
			}
			s.Close()
		}()
		if !w.Within(done, time.Hour) {
			w.Fail("C21", "hang", "%s: the stream is never closed", what)
			return
		}
		time.Sleep(time.Minute)
		mcrt.Settle()
		after, rafter := h.contents(), h.registered()
		refused := false
		if len(answered) > 0 {
			if proto == v0.FinderProtocolID {
				var m fpb.FinderMessage
				refused = m.Unmarshal([]byte(answered)) == nil && m.GetType() == fpb.FinderMessage_ERROR_RESPONSE
			} else {
				var m pb.IngestMessage
				refused = m.Unmarshal([]byte(answered)) == nil && m.GetType() == pb.IngestMessage_ERROR_RESPONSE
			}
		}
		if (proto == v0.FinderProtocolID || refused) && (after != before || rafter != rbefore) {
			w.Fail("C21", "refused with effect", "%s: changed something\nindex: %s\nregistry: %s", what, after, rafter)
		}
		for _, x := range strings.Split(rafter, "\n") {
			if x != "" && !strings.Contains(x, provA.ID.String()) && !strings.Contains(x, provB.ID.String()) {
				w.Fail("C21", "unexpected registration", "%s: registered %s", what, x)
			}
		}
		h.check(what)
		w.Observe("%v %v", len(answered) > 0, refused)
	}
}

// noIngester: an ingest server without libp2p has no ingester.
func noIngester(w *mcrt.World) {
	h := hostileSys(w)
	is, err := ingesthttpserver.New("127.0.0.1:0", h.ix, nil, h.reg)
	if err != nil {
		w.Observe("refuses to start")
		return
	}
	h.web.Serve["10.0.2.2:80"] = siming.HandlerOf(is)
	for _, rq := range h.requests("") {
		if !strings.HasPrefix(rq.url, ingestURL) {
			continue
		}
		time.Sleep(time.Second)
		st, ok := h.send(rq.name+" without ingester", rq.method, rq.url, rq.body)
		if !ok {
			return
		}
		if rq.name == "announce" && st/100 == 2 {
			w.Fail("C21", "announcement lost", "an announcement is accepted (%d) by a server without an ingester", st)
		}
		if rq.name == "register" && st != 200 {
			w.Fail("C21", "good request refused", "a registration is refused with %d by a server without an ingester", st)
		}
		w.Observe("%s %d", rq.name, st)
	}
}

func init() {
	g := func(n string, f func(*mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: n, Prop: "C21", Run: f, Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
	}
	for i, n := range []string{"register", "discover", "announce", "find", "reframe", "sync", "providers", "cidlist", "manifest"} {
		g("api-hostile-"+n, hostileBody(i))
	}
	g("api-hostile-paths", hostilePaths)
	g("api-no-ingester", noIngester)
	for i, n := range []string{"find", "list", "provider", "stats"} {
		g("api-hostile-p2p-"+n, hostileP2P(v0.FinderProtocolID, i))
	}
	for i, n := range []string{"register", "discover", "index"} {
		g("api-hostile-p2p-"+n, hostileP2P(v0.IngestProtocolID, i))
	}
}
