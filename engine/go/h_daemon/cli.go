package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	httpingest "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	logging "github.com/ipfs/go-log/v2"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/urfave/cli/v2"
	"go.uber.org/zap/zapcore"
)

// shell runs commands as an operator does, against a running daemon.
type shell struct {
	*daemon
	home string // configuration of the operator
	flag bool   // the indexer is named by a flag, not by the configuration
}

// run runs a command and returns what it printed.
func (s *shell) run(ip string, args ...string) (out string, err error) {
	f, e := ioutil.TempFile(s.home, "out")
	if e != nil {
		panic(e)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	if s.flag && ip != "" {
		args = append(args, "--indexer", ip+":80")
	}
	os.Setenv("STORETHEINDEX_PATH", s.home)
	defer os.Setenv("STORETHEINDEX_PATH", s.dir)
	old, olde := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
	fin := s.w.Go(func() {
		app := &cli.App{Name: "storetheindex", Writer: f, ErrWriter: ioutil.Discard, ExitErrHandler: func(*cli.Context, error) {},
			Commands: []*cli.Command{command.AdminCmd, command.FindCmd, command.ImportCmd, command.RegisterCmd, command.ConfigCmd, command.ProvidersCmd, command.SyntheticCmd}}
		err = app.RunContext(bg, append([]string{"storetheindex"}, args...))
	})
	ok := s.w.Within(fin, time.Hour)
	os.Stdout, os.Stderr = old, olde
	if !ok {
		s.w.Fail(s.prop, "no answer", "%v does not end", args)
		return "", fmt.Errorf("no answer")
	}
	mcrt.Settle()
	b, _ := ioutil.ReadFile(f.Name())
	return string(b), err
}

// found is what the find command printed: multihash name, provider, context
// and metadata.
func (s *shell) found(names []string, args ...string) (string, error) {
	for i, n := range names {
		if i%2 == 0 {
			args = append(args, "--mh", sim.MH(n).B58String())
		} else { // any kind of CID
			c := cid.NewCidV0(sim.MH(n))
			if i > 1 {
				c = cid.NewCidV1([]uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR}[i/2-1], sim.MH(n))
			}
			args = append(args, "--cid", c.String())
		}
	}
	out, err := s.run(finderIP, append([]string{"find"}, args...)...)
	if err != nil {
		return "", err
	}
	name := map[string]string{}
	for _, n := range names {
		name[sim.MH(n).B58String()] = n
	}
	text := func(l string) string {
		b, err := base64.StdEncoding.DecodeString(l)
		if err != nil {
			return "?" + l
		}
		return string(b)
	}
	var r []string
	var mh, prov, ctx string
	sc := bufio.NewScanner(strings.NewReader(out))
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if len(f) < 2 {
			continue
		}
		switch f[0] {
		case "Multihash:":
			mh = name[f[1]]
		case "Provider:":
			prov = who(f[1])
		case "ContextID:":
			ctx = text(f[1])
		case "Metadata:":
			r = append(r, fmt.Sprintf("%s=%s/%s/%s", mh, prov, ctx, text(f[1])))
		}
	}
	sort.Strings(r)
	return strings.Join(r, " "), nil
}

func who(id string) string {
	for _, p := range []*sim.Peer{provA, provB, peerX, peerY} {
		if strings.Contains(id, p.ID.String()) {
			return p.Name
		}
	}
	return id
}

// listed is what a providers command printed.
func (s *shell) listed(args ...string) (string, error) {
	out, err := s.run(finderIP, append([]string{"providers"}, args...)...)
	if err != nil {
		return "", err
	}
	var r []string
	sc := bufio.NewScanner(strings.NewReader(out))
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		f := strings.Fields(l)
		switch {
		case len(f) == 2 && f[0] == "Provider":
			r = append(r, who(f[1]))
		case strings.HasPrefix(l, "Addresses:"), strings.HasPrefix(l, "LastAdvertisement:"):
			if len(r) > 0 {
				r[len(r)-1] += " " + l
			}
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; "), nil
}

// cliModel is what the indexer should know.
type cliModel struct {
	index map[string]bool // multihash=provider/context/metadata
	addrs map[string]string
	last  map[string]cid.Cid
	sync  bool // the chain of A was synced
}

func (m *cliModel) find() string {
	var r []string
	for k := range m.index {
		p := strings.Split(strings.Split(k, "=")[1], "/")[0]
		if _, ok := m.addrs[p]; ok {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (m *cliModel) list(only string) string {
	var r []string
	for p, a := range m.addrs {
		if only != "" && only != p {
			continue
		}
		l := "b"
		if c, ok := m.last[p]; ok {
			l = c.String()
		}
		r = append(r, fmt.Sprintf("%s Addresses: [%s] LastAdvertisement: %s", p, a, l))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func identity(p *sim.Peer) obj {
	kb, err := crypto.MarshalPrivateKey(p.Priv)
	if err != nil {
		panic(err)
	}
	return with(baseConfig(), "Identity", obj{"PeerID": p.ID.String(), "PrivKey": kb})
}

// cliSeq: histories of commands.
func cliSeq(depth int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		d := start(w, "C23", baseConfig())
		defer d.clean()
		mcrt.Calm(true)
		home, err := ioutil.TempDir("", "verif-home")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(home)
		s := &shell{daemon: d, home: home, flag: w.Choose(2, "indexer named by flag or configuration") == 0}
		ip6 := !s.flag && depth == 2 && w.Choose(2, "ip6") == 1
		put := func(name string, c obj) string {
			b, _ := json.Marshal(c)
			f := filepath.Join(home, name)
			if err := ioutil.WriteFile(f, b, 0o644); err != nil {
				panic(err)
			}
			return f
		}
		put("config", with(baseConfig(), "Addresses", obj{"Admin": "/ip4/" + adminIP + "/tcp/80", "Finder": "/ip4/" + finderIP + "/tcp/80", "Ingest": "/ip4/" + ingestIP + "/tcp/80", "P2PAddr": "/ip4/127.0.0.9/tcp/3103"}))
		p2pAddr := "/ip4/127.0.0.9/tcp/3103"
		if ip6 {
			p2pAddr = "/ip6/fd00::9/tcp/3103"
			put("config", with(baseConfig(), "Addresses", obj{"Admin": "/ip6/fd00::2/tcp/80", "Finder": "/ip6/fd00::3/tcp/80", "Ingest": "/ip6/fd00::4/tcp/80", "P2PAddr": p2pAddr}))
			d.web.Alias = map[string]string{"[fd00::2]:80": adminIP + ":80", "[fd00::3]:80": finderIP + ":80", "[fd00::4]:80": ingestIP + ":80"}
		}
		cfgOf := map[string]string{"A": put("A", identity(provA)), "B": put("B", identity(provB))}
		a, b := siming.NewPub(provA, 1), siming.NewPub(provB, 2)
		for i := 1; i <= 3; i++ {
			a.Add(siming.AdSpec{Kind: "add", Prov: provA, Ctx: fmt.Sprint("c", i), Meta: fmt.Sprint("v", i), Chunks: [][]string{{fmt.Sprint("m", i)}}})
		}
		b.Add(siming.AdSpec{Kind: "add", Prov: provB, Ctx: "d", Meta: "w", Chunks: [][]string{{"n"}}})
		d.web.Pubs = map[string]*siming.Pub{a.Host: a, b.Host: b}
		d.web.Other = func(req *http.Request) (int, []byte) {
			if req.URL.Host != "10.0.3.1:80" || req.URL.Path != "/providers" {
				return 404, nil
			}
			bi := model.MakeProviderInfo(peer.AddrInfo{ID: provB.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(8)}}, b.Head, time.Now(), provB.ID, b.Addr)
			js, err := json.Marshal([]model.ProviderInfo{bi})
			if err != nil {
				panic(err)
			}
			return 200, js
		}
		list := filepath.Join(home, "list")
		ioutil.WriteFile(list, []byte(cid.NewCidV1(cid.Raw, sim.MH("k1")).String()+"\n"+cid.NewCidV1(cid.Raw, sim.MH("k2")).String()+"\n"), 0o644)
		mani := filepath.Join(home, "manifest")
		ioutil.WriteFile(mani, []byte(`{"RecordType":"DagAggregateEntry","DagCidV1":"`+cid.NewCidV1(cid.Raw, sim.MH("k3")).String()+`"}`+"\n"), 0o644)
		adAddr := "/ip4/10.0.0.1/tcp/1234"

		m := &cliModel{index: map[string]bool{}, addrs: map[string]string{}, last: map[string]cid.Cid{}}
		blocked := map[string]bool{}
		allowB := true
		names := []string{"register A", "register B", "sync", "sync depth 1", "sync depth 2", "resync", "resync depth 2", "sync no address", "cidlist", "manifest", "block A", "allow A", "import-providers", "reload", "no file", "log"}
		var hist []string
		for i := 0; i < depth; i++ {
			op := names[w.Choose(len(names), "command")]
			hist = append(hist, op)
			what := fmt.Sprintf("%v, flag %v", hist, s.flag)
			var args []string
			ip, fails := adminIP, false
			f := strings.Fields(op)
			switch f[0] {
			case "register":
				ip = ingestIP
				args = []string{"register", "--config", cfgOf[f[1]], "--provider-addr", sim.Addr(21).String()}
				ad := sim.Addr(21).String()
				if f[1] == "B" {
					args = append(args, "--provider-addr", sim.Addr(22).String())
					ad += " " + sim.Addr(22).String()
				}
				fails = blocked[f[1]] || f[1] == "B" && !allowB
				if !fails {
					m.addrs[f[1]] = ad
				}
			case "sync", "resync":
				if blocked["A"] {
					return
				}
				args = []string{"admin", "sync", "--pubid", provA.ID.String()}
				n, re := 3, f[0] == "resync"
				if len(f) == 3 && f[1] == "no" {
					if !m.sync {
						return
					}
				} else {
					args = append(args, "--addr", a.Addr.String())
				}
				if len(f) == 3 && f[1] == "depth" {
					args = append(args, "--depth", f[2])
					n = int(f[2][0] - '0')
				}
				if re {
					args = append(args, "--resync")
				}
				if re || !m.sync {
					for j := 4 - n; j <= 3; j++ {
						m.index[fmt.Sprintf("m%d=A/c%d/v%d", j, j, j)] = true
					}
					m.addrs["A"], m.last["A"] = adAddr, a.Head
				}
				m.sync = true
			case "cidlist":
				args = []string{"import", "cidlist", "--provider", provB.ID.String(), "--ctxid", "x", "--metadata", "y", "--file", list}
				m.index["k1=B/x/y"], m.index["k2=B/x/y"] = true, true
			case "manifest":
				args = []string{"import", "manifest", "--provider", provA.ID.String(), "--ctxid", "z", "--metadata", "u", "--file", mani}
				m.index["k3=A/z/u"] = true
			case "no":
				args = []string{"import", "cidlist", "--provider", provA.ID.String(), "--ctxid", "z", "--metadata", "u", "--file", filepath.Join(home, "none")}
				fails = true
			case "block", "allow":
				args = []string{"admin", f[0], "--peer", provA.ID.String()}
				blocked["A"] = f[0] == "block"
			case "import-providers":
				args = []string{"admin", "import-providers", "--from", "10.0.3.1:80"}
				if _, ok := m.addrs["B"]; !ok && allowB {
					m.addrs["B"], m.last["B"] = adAddr, b.Head
					m.index["n=B/d/w"] = true
				}
			case "reload":
				d.write(with(baseConfig(), "Discovery.Policy", obj{"Allow": false, "Except": []string{provA.ID.String()}, "Publish": true}))
				args = []string{"admin", "reload-config"}
				allowB = false
				blocked["A"] = false
			case "log":
				args = []string{"config", "get", "log.subsystems"}
				flag := s.flag
				if s.flag {
					args = []string{"config", "--indexer", adminIP + ":80", "get", "log.subsystems"}
				}
				s.flag = false
				out, err := s.run(adminIP, args...)
				s.flag = flag
				if err != nil || !strings.Contains(out, "indexer/ingest") {
					w.Fail("C23", "log", "%s: %v %s", what, err, out)
					return
				}
				continue
			}
			_, err := s.run(ip, args...)
			if (err != nil) != fails {
				w.Fail("C23", "wrong result", "%s: %v returns %v", what, args, err)
				return
			}
			if op == "import-providers" {
				time.Sleep(time.Minute) // what was asked for is done later
				mcrt.Settle()
			}
		}
		what := fmt.Sprintf("%v, flag %v", hist, s.flag)
		all := []string{"m1", "m2", "m3", "k1", "k2", "k3", "n", "none"}
		got, err := s.found(all)
		if want := m.find(); err != nil || got != want {
			w.Fail("C23", "find", "%s: find shows %v\n got: %s\nwant: %s", what, err, got, want)
		}
		// the same over libp2p
		siming.NewNet(d.host, cliHost())
		got, err = s.found(all, "--protocol", "libp2p", "--indexerid", me.ID.String())
		at := addrsOf(clientHost, me.ID)
		clientHost = nil
		if want := map[bool]string{true: "/ip4/" + finderIP + "/tcp/80", false: p2pAddr}[s.flag]; at != want {
			w.Fail("C23", "wrong address", "%s: find over libp2p connects to %s, want %s", what, at, want)
		}
		if want := m.find(); err != nil || got != want {
			w.Fail("C23", "find", "%s: find over libp2p shows %v\n got: %s\nwant: %s", what, err, got, want)
		}
		got, err = s.listed("list")
		if want := m.list(""); err != nil || got != want {
			w.Fail("C23", "list", "%s: providers list shows %v\n got: %s\nwant: %s", what, err, got, want)
		}
		for _, p := range []*sim.Peer{provA, provB} {
			got, err = s.listed("get", "--provid", p.ID.String())
			if want := m.list(p.Name); err != nil && want != "" || got != want {
				w.Fail("C23", "get", "%s: providers get %s shows %v\n got: %s\nwant: %s", what, p.Name, err, got, want)
			}
		}
		d.stop(what)
		w.Observe("%s %s", m.find(), m.list(""))
	}
}

// cliRefused: every command fails if what it asks for is not done: nothing
// serves the address, another server does, or the request is refused.
func cliRefused(w *mcrt.World) {
	d := start(w, "C23", baseConfig())
	defer d.clean()
	mcrt.Calm(true)
	home, err := ioutil.TempDir("", "verif-home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	file := func(name, text string) string {
		f := filepath.Join(home, name)
		if err := ioutil.WriteFile(f, []byte(text), 0o644); err != nil {
			panic(err)
		}
		return f
	}
	b, _ := json.Marshal(identity(provA))
	cfg := file("A", string(b))
	list := file("list", cid.NewCidV1(cid.Raw, sim.MH("k1")).String()+"\n")
	mani := file("manifest", `{"RecordType":"DagAggregateEntry","DagCidV1":"`+cid.NewCidV1(cid.Raw, sim.MH("k3")).String()+`"}`+"\n")
	bad := file("bad", "nothing to see\n")
	d.web.Other = func(req *http.Request) (int, []byte) {
		switch req.URL.Host {
		case "10.0.3.2:80":
			return 500, []byte("broken")
		case "10.0.3.3:80":
			return 200, []byte("not a list")
		}
		return 404, nil
	}
	s := &shell{daemon: d, home: home}
	pid := provA.ID.String()
	imp := func(kind, f string) []string {
		return []string{"import", kind, "--provider", pid, "--ctxid", "c", "--metadata", "m", "--file", f}
	}
	type cmd struct {
		ip   string
		args []string
		bad  bool // refused by the right server too
	}
	cmds := []cmd{
		{adminIP, []string{"admin", "sync", "--pubid", pid, "--addr", "/ip4/10.0.0.1/tcp/80/http"}, false},
		{adminIP, []string{"admin", "allow", "--peer", pid}, false},
		{adminIP, []string{"admin", "block", "--peer", pid}, false},
		{adminIP, []string{"admin", "reload-config"}, false},
		{adminIP, []string{"admin", "import-providers", "--from", "10.0.3.1:80"}, true},
		{adminIP, []string{"admin", "import-providers", "--from", "10.0.3.2:80"}, true},
		{adminIP, []string{"admin", "import-providers", "--from", "10.0.3.3:80"}, true},
		{adminIP, imp("cidlist", list), false},
		{adminIP, imp("cidlist", bad), true},
		{adminIP, imp("manifest", mani), false},
		{adminIP, imp("manifest", bad), true},
		{adminIP, imp("car", list), true},
		{adminIP, []string{"config", "set", "log.level", "indexer/ingest", "error"}, false},
		{adminIP, []string{"config", "set", "log.level", "indexer/ingest", "loud"}, true},
		{adminIP, []string{"config", "set", "log.level", "indexer/ingest"}, true},
		{adminIP, []string{"config", "set", "log.level"}, true},
		{adminIP, []string{"config", "get", "log.subsystems"}, false},
		{ingestIP, []string{"register", "--config", cfg, "--provider-addr", sim.Addr(21).String()}, false},
		{ingestIP, []string{"register", "--config", cfg, "--provider-addr", "/no/such"}, true},
		{ingestIP, []string{"register", "--config", home + "/none", "--provider-addr", sim.Addr(21).String()}, true},
		{finderIP, []string{"find", "--mh", "notamultihash"}, true},
		{finderIP, []string{"find", "--cid", "notacid"}, true},
		{finderIP, []string{"find", "--mh", sim.MH("k1").B58String(), "--protocol", "smoke"}, true},
		{finderIP, []string{"providers", "list"}, false},
		{finderIP, []string{"providers", "get", "--provid", "nobody"}, true},
	}
	c := cmds[w.Choose(len(cmds), "command")]
	before := logging.GetConfig()
	defer logging.SetupLogging(before)
	ip := c.ip
	fails := c.bad
	if c.args[0] == "config" && c.args[1] == "set" && w.Choose(2, "reload") == 1 {
		s.run("", "admin", "reload-config", "--indexer", adminIP+":80")
	}
	switch w.Pick("server", "right", "none", "other", "broken") {
	case "none":
		ip, fails = "10.0.3.9", true
	case "other":
		ip, fails = map[string]string{adminIP: finderIP, finderIP: ingestIP, ingestIP: adminIP}[c.ip], true
	case "broken":
		ip, fails = "10.0.3.2", true
	}
	if c.args[0] == "config" {
		c.args = append([]string{"config", "--indexer", ip + ":80"}, c.args[1:]...)
	} else {
		c.args = append(c.args, "--indexer", ip+":80")
	}
	_, err = s.run("", c.args...)
	if (err != nil) != fails {
		w.Fail("C23", "wrong result", "%v returns %v", c.args, err)
		return
	}
	if fails {
		if provs, found, e := d.view(); e != nil || provs != "" || found != "" {
			w.Fail("C23", "refused with effect", "%v fails with %v but there is %s, %s (%v)", c.args, err, provs, found, e)
		}
	}
	d.stop("refused")
	w.Observe("%v", err != nil)
}

// cliLog: log levels are those asked for.
func cliLog(w *mcrt.World) {
	d := start(w, "C23", baseConfig())
	defer d.clean()
	mcrt.Calm(true)
	home, err := ioutil.TempDir("", "verif-home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	before := logging.GetConfig()
	defer logging.SetupLogging(before)
	s := &shell{daemon: d, home: home}
	level := func(n string) zapcore.Level {
		l := zapcore.ErrorLevel
		for l < zapcore.FatalLevel && !logging.Logger(n).Desugar().Core().Enabled(l) {
			l++
		}
		return l
	}
	subs := []string{"indexer/ingest", "indexer/registry", "indexer/admin"}
	want := map[string]zapcore.Level{}
	for _, n := range subs {
		if err := logging.SetLogLevel(n, "error"); err != nil {
			panic(err)
		}
		want[n] = zapcore.ErrorLevel
	}
	for i := 0; i < 2; i++ {
		args := []string{"config", "--indexer", adminIP + ":80", "set", "log.level"}
		for j := 0; j <= i; j++ {
			sel := w.Pick("subsystem", append([]string{"indexer/(ingest|admin)"}, subs...)...)
			lv := w.Pick("level", "panic", "fatal", "error")
			args = append(args, sel, lv)
			var zl zapcore.Level
			if err := zl.Set(lv); err != nil {
				panic(err)
			}
			if j == 1 && (strings.Contains(sel, "(") || strings.Contains(args[5], "(") || sel == args[5]) {
				return
			}
			for _, n := range subs {
				if n == sel || strings.Contains(sel, "(") && n != "indexer/registry" {
					want[n] = zl
				}
			}
		}
		if _, err := s.run("", args...); err != nil {
			w.Fail("C23", "wrong result", "%v: %v", args, err)
			return
		}
		for _, n := range subs {
			if l := level(n); l != want[n] {
				w.Fail("C23", "log", "%v: the level of %s is %v, want %v", args, n, l, want[n])
				return
			}
		}
	}
	d.stop("log")
	w.Observe("%v", want)
}

// synthetic: files made by the synthetic command have what was asked for and
// can be imported.
func synthetic(w *mcrt.World) {
	d := start(w, "C23", baseConfig())
	defer d.clean()
	mcrt.Calm(true)
	home, err := ioutil.TempDir("", "verif-home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	s := &shell{daemon: d, home: home, flag: true}
	typ := w.Pick("type", "cidlist", "manifest")
	file := filepath.Join(home, "load")
	args := []string{"synthetic", "--type", typ, "--file", file}
	var want int
	if w.Choose(2, "number or size") == 0 {
		want = []int{1, 2, 99, 100, 101, 257, 700}[w.Choose(7, "number")]
		args = append(args, "--num", fmt.Sprint(want))
	} else {
		size := []int{1, 35, 36, 37, 3600, 3601}[w.Choose(6, "size")]
		args = append(args, "--size", fmt.Sprint(size))
		want = (size + 35) / 36 // a CID has 36 bytes
	}
	if _, err = s.run("", args...); err != nil {
		w.Fail("C23", "wrong result", "%v: %v", args, err)
		return
	}
	c, err := httpingest.New(ingestURL)
	if err != nil {
		panic(err)
	}
	if err = c.Register(bg, provA.ID, provA.Priv, []string{sim.Addr(3).String()}); err != nil {
		w.Fail("C23", "wrong result", "register: %v", err)
		return
	}
	imp := []string{"import", typ, "--provider", provA.ID.String(), "--ctxid", "c", "--metadata", "m", "--file", file}
	if _, err = s.run(adminIP, imp...); err != nil {
		w.Fail("C23", "wrong result", "%v, then %v: %v", args, imp, err)
		return
	}
	text, err := ioutil.ReadFile(file)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	var find []string
	lines := 0
	for _, l := range strings.Split(strings.TrimSpace(string(text)), "\n") {
		if typ == "manifest" {
			var e struct{ DagCidV0, DagCidV1 string }
			if err = json.Unmarshal([]byte(l), &e); err != nil {
				w.Fail("C23", "file", "%v: %v", args, err)
				return
			}
			l = e.DagCidV0 + e.DagCidV1
		}
		x, err := cid.Decode(l)
		if err != nil {
			w.Fail("C23", "file", "%v: %q: %v", args, l, err)
			return
		}
		lines++
		if !seen[x.String()] { // the clock stands still, so entries repeat
			find = append(find, "--cid", x.String())
		}
		seen[x.String()] = true
	}
	if lines != want {
		w.Fail("C23", "file", "%v: the file has %d entries, want %d", args, lines, want)
		return
	}
	out, err := s.run(finderIP, append([]string{"find"}, find...)...)
	if n := strings.Count(out, "Multihash:"); err != nil || n != len(seen) {
		w.Fail("C23", "import", "%v: %d of %d entries are found after the import: %v", args, n, len(seen), err)
	}
	d.stop("synthetic")
	w.Observe("%d", want)
}

// addrsOf is where a host connected to.
func addrsOf(h *siming.Host, id peer.ID) string {
	var r []string
	for _, c := range h.Where[id] {
		r = append(r, c.String())
	}
	return strings.Join(r, " ")
}

// clientHost is the host that a client makes, if not nil.
var clientHost *siming.Host

func cliHost() *siming.Host {
	clientHost = siming.NewHost(peerY)
	return clientHost
}

func init() {
	add := func(name string, quick, thorough int, fn func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C23", Props: []string{"C23"}, Run: fn, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Horizon: 1000 * time.Hour, NoMap: true, NoSelect: true})
	}
	add("cli-2", 0, 0, cliSeq(2))
	add("cli-synthetic", 0, 0, synthetic)
	add("cli-refused", 0, 0, cliRefused)
	add("cli-log", 0, 0, cliLog)
	add("cli-3", 0, 0, cliSeq(3))
}
