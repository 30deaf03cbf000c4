package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/lotus"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/libp2p/go-libp2p-core/peer"
)

var (
	headAnswers = []string{"good", "http error", "garbage", "rpc error", "wrong type", "refused", "silent"}
	infoAnswers = []string{"good", "other peer", "no peer", "null peer", "bad peer", "http error", "garbage", "rpc error", "wrong type", "refused", "silent", "late"}
	addrAnswers = [][][]byte{{sim.Addr(1).Bytes()}, {sim.Addr(1).Bytes(), sim.Addr(2).Bytes()}, {{0xff, 0xff}, sim.Addr(2).Bytes(), {}}}
	addrWants   = []string{"1", "12", "2"}
	minerAddrs  = []string{"t01000", "f01234", "nonsense", ""}
)

// gateway is a lotus gateway.
type gateway struct {
	w          *mcrt.World
	head, info string
	peer       *sim.Peer
	addrs      [][]byte
	calls      []string
}

func (g *gateway) fault(host, path string) (int, time.Duration) {
	if !strings.HasPrefix(host, "gateway") {
		return 0, 0
	}
	// Which call it is is only known from the body: count.
	a := g.head
	if len(g.calls)%2 == 1 {
		a = g.info
	}
	switch a {
	case "refused":
		return -1, 0
	case "silent":
		return -1, 5000 * time.Hour
	case "late":
		return 0, 10 * time.Second
	}
	return 0, 0
}

func (g *gateway) answer(req *http.Request) (int, []byte) {
	body, err := ioutil.ReadAll(req.Body)
	if err != nil {
		panic(err)
	}
	var r struct {
		Method string
		Params []json.RawMessage
		ID     int
	}
	if err = json.NewDecoder(bytes.NewReader(body)).Decode(&r); err != nil {
		panic(err)
	}
	if !strings.HasPrefix(req.URL.String(), "https://gateway") {
		return 404, nil
	}
	a, good := g.head, `{"Cids":[{"/":"`+sim.CID("tip").String()+`"}],"Blocks":[],"Height":7}`
	if r.Method == "Filecoin.StateMinerInfo" {
		a = g.info
		ma, err := json.Marshal(g.addrs)
		if err != nil {
			panic(err)
		}
		p := `"` + g.peer.ID.String() + `"`
		switch a {
		case "other peer":
			p = `"` + provB.ID.String() + `"`
		case "null peer":
			p = "null"
		case "bad peer":
			p = `"zzz"`
		}
		good = `{"Owner":"t0100","Worker":"t0100","PeerId":` + p + `,"Multiaddrs":` + string(ma) + `,"SectorSize":1}`
		if a == "no peer" {
			good = `{"Owner":"t0100","Worker":"t0100","Multiaddrs":` + string(ma) + `}`
		}
		if len(r.Params) == 0 || !strings.Contains(string(r.Params[0]), "t0") {
			a = "rpc error" // no such miner
		}
		g.calls = append(g.calls, "info "+string(bytes.Join(func() (bs [][]byte) {
			for _, p := range r.Params {
				bs = append(bs, p)
			}
			return
		}(), []byte(" "))))
	} else {
		g.calls = append(g.calls, "head")
	}
	switch a {
	case "http error":
		return 502, []byte("bad gateway")
	case "garbage":
		return 200, []byte("<html>")
	case "rpc error":
		return 200, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"error":{"code":1,"message":"actor not found"}}`, r.ID))
	case "wrong type":
		return 200, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"x"}`, r.ID))
	}
	return 200, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":%s}`, r.ID, good))
}

// lotusDiscover: every answer of a gateway.
func lotusDiscover(w *mcrt.World) {
	g := &gateway{w: w, peer: provA}
	miner := minerAddrs[w.Choose(len(minerAddrs), "miner")]
	g.head = w.Pick("chain head", headAnswers...)
	g.info, g.addrs = "good", addrAnswers[0]
	ai := 0
	if g.head == "good" {
		g.info = w.Pick("miner info", infoAnswers...)
		if g.info == "good" || g.info == "late" {
			ai = w.Choose(len(addrAnswers), "addresses")
			g.addrs = addrAnswers[ai]
		}
	}
	how := w.Pick("request", "wait", "http", "p2p")
	rc := regCfg()
	rc.Timeout = config.Duration(time.Minute)
	d, err := lotus.NewDiscoverer("gateway")
	if err != nil {
		panic(err)
	}
	s := newSys(w, "C13", rc, true, d)
	mcrt.Calm(true)
	s.web.Fault, s.web.Other = g.fault, g.answer
	what := fmt.Sprintf("discovery of A at %q (%s), chain head: %s, miner info: %s", miner, how, g.head, g.info)
	good := strings.HasPrefix(miner, "t0") || strings.HasPrefix(miner, "f0")
	good = good && g.head == "good" && (g.info == "good" || g.info == "late")
	done := make(chan struct{})
	var res error
	go func() {
		defer close(done)
		if how == "wait" {
			res = s.reg.Discover(provA.ID, miner, true)
			return
		}
		r := makeRecordDiscover(miner)
		s.post(how, "discover", seal(r, provA.Priv))
	}()
	if !w.Within(done, 5*time.Minute) {
		w.Fail("C13", "not answered", "%s: not answered within 5 minutes, the discovery timeout is one", what)
	}
	time.Sleep(5 * time.Minute)
	mcrt.Settle()
	if how == "wait" && !w.Failed() && (res == nil) != good {
		w.Fail("C13", "result", "%s: result %v", what, res)
	}
	got := s.shownAddrs()
	want := ""
	if good {
		want = "A@"
		for _, c := range addrWants[ai] {
			want += sim.Addr(int(c - '0')).String()
		}
		want += " " + miner
	}
	if got != want {
		w.Fail("C13", "registered", "%s: registered %q, want %q", what, got, want)
	}
	if good && len(g.calls) != 2 {
		w.Fail("C13", "look-ups", "%s: calls %q", what, g.calls)
	}
	w.Logf("%q", g.calls)
	w.Observe("%s %s %v %s", g.head, g.info, res, got)
	// It can be asked for something else at once, and closed.
	g.calls, g.head, g.info, g.addrs, g.peer = nil, "good", "good", addrAnswers[0], provC
	if err := s.reg.Discover(provC.ID, "t02000", true); err != nil {
		w.Fail("C13", "later", "%s: after that another discovery fails: %v", what, err)
	}
	closed := make(chan struct{})
	go func() {
		s.reg.Close()
		close(closed)
	}()
	if !w.Within(closed, time.Hour) {
		w.Fail("C13", "close", "%s: after that the registry does not close", what)
		w.Fail("C11", "close", "%s: after that the registry does not close", what)
	}
}

func (s *sys) shownAddrs() string {
	var out []string
	for _, p := range s.reg.AllProviderInfo() {
		o := map[peer.ID]string{provA.ID: "A", provB.ID: "B", provC.ID: "C"}[p.AddrInfo.ID] + "@"
		for _, a := range p.AddrInfo.Addrs {
			o += a.String()
		}
		out = append(out, o+" "+p.DiscoveryAddr)
	}
	return strings.Join(out, ", ")
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "api-lotus", Prop: "C13", Props: []string{"C13", "C11"}, Run: lotusDiscover, Quick: 0, Thorough: 1, Race: -1, RaceThorough: -1, Horizon: 10000 * time.Hour, NoMap: true})
}
