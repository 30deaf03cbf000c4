package main

import (
	"fmt"
	"net/http"
	"net/url"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
)

// hostileRegistry: registrations with missing or malformed parts are refused
// or take effect, but never end the process or damage other records.
func hostileRegistry(w *mcrt.World) {
	cfg := baseCfg()
	cfg.RediscoverWait = 0
	ds := sim.NewDS()
	r := mustReg(w, cfg, ds, &disco{})
	(&drain{}).run(r)
	keep := op{kind: "update", prov: "B", addrs: []int{9}, ad: "ad1", pub: "B", pubAd: 9}
	if err := keep.run(r); err != nil {
		w.Fail("C21", "setup", "%v", err)
	}
	wantB := read(r)["B"]
	var cur state = read(r)
	ops := []op{
		{kind: "update", prov: "A", addrs: []int{1}, pub: "P"},
		{kind: "update", prov: "A", addrs: []int{2}, pub: "Q"},
		{kind: "update", prov: "A", pub: "A"},
		{kind: "update", prov: "A", bad: true, pub: "A", pubAd: 3},
		{kind: "update", prov: "A", bad: true},
		{kind: "update", prov: "A"},
		{kind: "update", prov: "A", addrs: []int{4}, pub: "A", pubAd: 4, ad: "ad4"},
		{kind: "register", prov: "A"},
		{kind: "register", prov: "A", addrs: []int{5}},
		{kind: "import", prov: "A", ad: `[null]`},
		{kind: "import", prov: "A", ad: `[{"AddrInfo":{"ID":"` + provA.ID.String() + `","Addrs":[]},"LastAdvertisement":null}]`},
		{kind: "import", prov: "A", ad: `[{"AddrInfo":{"ID":"` + provA.ID.String() + `","Addrs":null},"LastAdvertisement":null,"Publisher":{"ID":"` + pubP.ID.String() + `","Addrs":[]}}]`},
		{kind: "import", prov: "A", ad: `{"x":1}`},
		{kind: "import", prov: "A", ad: ``},
		{kind: "import", prov: "A", ad: `[{}]`},
		{kind: "restart"},
	}
	var hist []string
	for i := 0; i < 3; i++ {
		o := ops[w.Choose(len(ops), "op")]
		hist = append(hist, fmt.Sprint(o))
		time.Sleep(time.Second)
		switch o.kind {
		case "restart":
			r.Close()
			r = mustReg(w, cfg, ds, &disco{})
			(&drain{}).run(r)
		case "import":
			old := http.DefaultTransport
			http.DefaultTransport = fakeWeb(func(*http.Request) (int, []byte) { return 200, []byte(o.ad) })
			n, err := r.ImportProviders(bg, &url.URL{Scheme: "http", Host: "other"})
			http.DefaultTransport = old
			if n != 0 {
				w.Fail("C21", "import", "imported %d providers from %s (%v)", n, o.ad, err)
			}
		default:
			next, refuse := o.apply(cur, time.Now().UnixNano())
			err := o.run(r)
			if refuse && err == nil {
				w.Fail("C21", "accepted", "%v was accepted (history %v)", o, hist)
			}
			if !refuse && err == nil {
				cur = next
			}
		}
		got := read(r)
		if !match(wantB, got["B"]) {
			w.Fail("C21", "other provider changed", "provider B is %v, want %v (history %v)", got["B"], wantB, hist)
		}
		if _, ok := cur["A"]; ok != r.IsRegistered(provA.ID) {
			w.Fail("C21", "registration", "provider A registered=%v, want %v (history %v)", !ok, ok, hist)
		} else if ok && cur["A"].addrs != got["A"].addrs {
			w.Fail("C21", "registration", "provider A has %v, want %v (history %v)", got["A"], cur["A"], hist)
		}
		if w.Failed() {
			return
		}
	}
	w.Observe("%s", show(read(r)))
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-hostile", Prop: "C21", Run: hostileRegistry, Quick: 1, Thorough: 2, Race: -1, RaceThorough: -1})
}
