package main

import (
	"bytes"
	"encoding/json"
	"io/ioutil"
	"net/http"
	"net/url"
	"time"

	v0model "github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// fakeWeb answers every HTTP request of the execution.
type fakeWeb func(*http.Request) (int, []byte)

func (f fakeWeb) RoundTrip(req *http.Request) (*http.Response, error) {
	st, body := f(req)
	return &http.Response{StatusCode: st, Status: http.StatusText(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: ioutil.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}, nil
}

// registryClose: Close with work in the background always ends.
func registryClose(w *mcrt.World) {
	cfg := baseCfg()
	cfg.Timeout = config.Duration(20 * time.Second)
	cfg.PollRetryAfter = config.Duration(time.Minute)
	cfg.PollInterval = config.Duration(30 * time.Second)
	cfg.PollStopAfter = config.Duration([]time.Duration{time.Second, time.Hour}[w.Choose(2, "poll stop")])
	ds := sim.NewDS()
	d := &oracle{w: w}
	delay := []time.Duration{0, 10 * time.Second, time.Hour}[w.Choose(3, "lookup takes")]
	d.delay = func(string) time.Duration { return delay }
	d.fails = func(string) bool { return false }
	r := mustReg(w, cfg, ds, d)
	consumer := w.Choose(2, "consumer") == 1
	if consumer {
		(&drain{}).run(r)
	}
	// two providers due for polling or removal
	for i, p := range []string{"A", "B"} {
		o := op{kind: "update", prov: p, addrs: []int{i + 1}, pub: p, pubAd: i + 1, ad: "ad" + p}
		if err := o.run(r); err != nil {
			w.Fail("C11", "setup", "%v", err)
			return
		}
	}
	atTick := w.Choose(2, "at the poll check") == 1
	if atTick {
		time.Sleep(time.Minute)
	}
	var wait []<-chan struct{}
	bgw := w.Pick("in progress", "nothing", "discover", "discover2", "import", "remove", "remove2", "discover sync")
	switch bgw {
	case "discover", "discover2":
		r.Discover(provC.ID, "t01", false)
		if bgw == "discover2" {
			r.Discover(provC.ID, "t02", false)
		}
	case "discover sync":
		wait = append(wait, w.Go(func() { r.Discover(provC.ID, "t01", true) }))
		mcrt.Settle()
	case "import":
		var ps []*v0model.ProviderInfo
		for i, n := range []string{"C", "P", "Q"} {
			pi := v0model.MakeProviderInfo(peer.AddrInfo{ID: peers[n].ID, Addrs: []multiaddr.Multiaddr{sim.Addr(30 + i)}}, sim.CID("x"), time.Time{}, peers[n].ID, sim.Addr(30+i))
			ps = append(ps, &pi)
		}
		body, err := json.Marshal(ps)
		if err != nil {
			panic(err)
		}
		old := http.DefaultTransport
		http.DefaultTransport = fakeWeb(func(*http.Request) (int, []byte) { return 200, body })
		n, err := r.ImportProviders(bg, &url.URL{Scheme: "http", Host: "other"})
		http.DefaultTransport = old
		if err != nil || n != 3 {
			w.Fail("C11", "setup", "import: %d %v", n, err)
		}
	case "remove", "remove2":
		wait = append(wait, w.Go(func() { r.RemoveProvider(bg, provA.ID) }))
		if bgw == "remove2" {
			wait = append(wait, w.Go(func() { r.RemoveProvider(bg, provB.ID) }))
		}
		mcrt.Settle()
	}
	t := clockNow()
	n := 1 + w.Choose(2, "closers")
	for i := 0; i < n; i++ {
		wait = append(wait, w.Go(func() {
			if err := r.Close(); err != nil {
				w.Fail("C11", "close error", "Close failed: %v", err)
			}
			if ds.Closed != 1 {
				w.Fail("C11", "not closed", "Close returned with the datastore closed %d times", ds.Closed)
			}
		}))
	}
	for _, ch := range wait {
		if !w.Within(ch, 30*time.Second) {
			w.Fail("C11", "close hangs", "Close or a pending call is still waiting after %v (in progress: %s)", clockNow()-t, bgw)
			return
		}
	}
	mcrt.Settle()
	if ds.Late != 0 {
		w.Fail("C11", "write after close", "the datastore was written to after it was closed")
	}
	// the signal channel is closed once drained
	for i := 0; ; i++ {
		_, ok := <-r.SyncChan()
		if !ok {
			break
		}
	}
	w.Observe("%s %v", bgw, clockNow()-t)
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-close", Prop: "C11", Run: registryClose, Quick: 2, Thorough: 3, Race: 1, RaceThorough: 2, Horizon: 48 * time.Hour})
}
