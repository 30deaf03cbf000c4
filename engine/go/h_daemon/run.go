package main

import (
	"bytes"
	"fmt"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"net/http"
	"strings"
	"time"

	finder "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	httpingest "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

var probes = map[string][2]string{
	"admin":  {adminURL + "/healthcheck", "200"},
	"finder": {finderURL + "/health", "200"},
	"ingest": {ingestURL + "/register", "405"},
}

// starts: every choice of the servers to run. The daemon runs exactly those,
// or refuses with an error.
func starts(w *mcrt.World) {
	c := baseConfig()
	var args []string
	off := map[string]bool{}
	keys := map[string]string{"admin": "Admin", "finder": "Finder", "ingest": "Ingest", "p2p": "P2PAddr"}
	what := ""
	for _, s := range []string{"admin", "finder", "ingest", "p2p"} {
		how := w.Pick(s, "on", "flag", "none")
		what += " " + s + "=" + how
		switch how {
		case "flag":
			args = append(args, "--no"+s)
		case "none":
			c = with(c, "Addresses."+keys[s], "none")
		}
		off[s] = how != "on"
	}
	if w.Choose(2, "reload") == 1 {
		what += " reload"
	}
	d := start(w, "C15", c, args...)
	defer d.clean()
	if !d.running() {
		if d.err == nil {
			w.Fail("C15", "daemon ended", "%s: the daemon ends at once", what)
		}
		if !off["p2p"] {
			w.Fail("C15", "refused", "%s: the daemon does not start: %v", what, d.err)
		}
		w.Observe("%s refused", what)
		return
	}
	check := func(when string) {
		for s, p := range probes {
			st, _ := get(p[0])
			if off[s] && st != 0 {
				w.Fail("C15", "disabled server runs", "%s, %s: %s answers %d", what, when, s, st)
			}
			if !off[s] && fmt.Sprint(st) != p[1] {
				w.Fail("C15", "not serving", "%s, %s: %s answers %d", what, when, s, st)
			}
		}
	}
	check("at start")
	if strings.HasSuffix(what, "reload") {
		d.reload("signal", what)
		if !d.running() {
			w.Fail("C15", "daemon ended", "%s: %v", what, d.err)
			return
		}
		check("after a reload")
	}
	d.stop(what)
	w.Observe("%s", what)
}

// noGateway: without a gateway, discovery is refused and nothing else.
func noGateway(w *mcrt.World) {
	d := start(w, "C13", baseConfig())
	defer d.clean()
	var st int
	n := w.Choose(2, "requests") + 1
	for i := 0; i < n; i++ {
		b, err := model.MakeDiscoverRequest(provA.ID, provA.Priv, fmt.Sprint("t0100", i))
		if err != nil {
			panic(err)
		}
		res, err := http.Post(ingestURL+"/discover", "application/json", bytes.NewReader(b))
		if err != nil {
			w.Fail("C13", "no answer", "discovery without a gateway: %v", err)
			return
		}
		st = res.StatusCode
		res.Body.Close()
	}
	d.alive("discovery without a gateway")
	if _, b := get(finderURL + "/providers"); strings.Contains(b, provA.ID.String()) {
		w.Fail("C13", "registered", "discovery without a gateway registers: %s", b)
	}
	d.stop("discovery without a gateway")
	w.Observe("%d %d", n, st)
}

// stops: the daemon ends in time whatever is going on.
func stops(w *mcrt.World) {
	// A publisher that hangs delays shutdown by the sync timeout (10 s) and its retries.
	d := start(w, "C11", with(with(baseConfig(), "Indexer.ShutdownTimeout", "10m"), "Discovery.PollInterval", "30m"))
	defer d.clean()
	pub := siming.NewPub(provA, 1)
	d.web.Pubs[pub.Host] = pub
	for i := 0; i < 2; i++ {
		pub.Add(siming.AdSpec{Kind: "add", Prov: provA, Ctx: fmt.Sprint("c", i), Meta: "m", Chunks: [][]string{{fmt.Sprint("h", i)}}})
	}
	slow := w.Choose(2, "publisher hangs") == 1
	if slow {
		d.web.Fault = func(host, path string) (int, time.Duration) {
			if host == pub.Host {
				return 0, 20 * time.Second
			}
			return 0, 0
		}
	}
	op := w.Pick("operation", "reload", "sync", "announce", "register", "find", "reload and sync", "poll")
	ic, err := httpingest.New(ingestURL)
	if err != nil {
		panic(err)
	}
	var fs []func()
	reload := func() { d.admin().ReloadConfig(bg) }
	sync := func() { d.admin().Sync(bg, provA.ID, pub.Addr, 0, false) }
	switch op {
	case "reload":
		fs = append(fs, reload)
	case "sync":
		fs = append(fs, sync)
	case "reload and sync":
		fs = append(fs, reload, sync)
	case "announce":
		fs = append(fs, func() {
			ic.Announce(bg, &peer.AddrInfo{ID: provA.ID, Addrs: []multiaddr.Multiaddr{pub.Addr}}, pub.Head)
		})
	case "register":
		fs = append(fs, func() { ic.Register(bg, provB.ID, provB.Priv, []string{sim.Addr(3).String()}) })
	case "find":
		fs = append(fs, func() {
			c, _ := finder.New(finderURL)
			c.Find(bg, sim.MH("h0"))
		})
	case "poll":
		mcrt.Calm(true)
		ic.Register(bg, provA.ID, provA.Priv, []string{pub.Addr.String()})
		time.Sleep(29 * time.Minute)
		mcrt.Calm(false)
		fs = append(fs, func() { time.Sleep(5 * time.Minute) })
	}
	var dones []<-chan struct{}
	for _, f := range fs {
		dones = append(dones, w.Go(f))
	}
	t := time.Now()
	d.stop(op)
	if e := time.Since(t); e > 10*time.Minute {
		w.Fail("C11", "late shutdown", "%s: the daemon takes %s to stop", op, e)
	}
	for _, c := range dones {
		if !w.Within(c, 2*time.Hour) {
			w.Fail("C11", "no answer", "%s: a request is not answered when the daemon stops", op)
		}
	}
	w.Observe("%s %v %v", op, slow, d.err)
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "dmn-start", Prop: "C15", Run: starts, Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 100 * time.Hour, NoMap: true, NoSelect: true})
	mcrt.Register(&mcrt.Scenario{Name: "dmn-no-gateway", Prop: "C13", Run: noGateway, Quick: 0, Thorough: 1, Race: -1, RaceThorough: -1, Horizon: 100 * time.Hour, NoMap: true})
	mcrt.Register(&mcrt.Scenario{Name: "dmn-stop", Prop: "C11", Run: stops, Quick: 1, Thorough: 2, Race: -1, RaceThorough: 0, Horizon: 1000 * time.Hour, NoMap: true})
}
