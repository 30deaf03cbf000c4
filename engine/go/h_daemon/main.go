// Command h_daemon explores the whole daemon: the real daemon command with its
// servers, on a simulated network, an in-memory datastore and value store, and
// real configuration files in a scratch directory.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	_ "unsafe" // for go:linkname

	admin "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	leveldb "github.com/ipfs/go-ds-leveldb"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"github.com/urfave/cli/v2"
)

//go:linkname sigProcess os/signal.process
func sigProcess(sig os.Signal)

func main() {
	// the goroutine that waits for real signals must not belong to a world
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGHUP)
	signal.Reset(syscall.SIGHUP)
	mcrt.Main()
}

var (
	bg    = context.Background()
	me    = sim.NewPeer("indexer")
	provA = sim.NewPeer("A")
	provB = sim.NewPeer("B")
	peerX = sim.NewPeer("X")
	peerY = sim.NewPeer("Y")
)

const (
	adminIP, finderIP, ingestIP    = "127.0.0.2", "127.0.0.3", "127.0.0.4"
	adminURL, finderURL, ingestURL = "http://127.0.0.2:80", "http://127.0.0.3:80", "http://127.0.0.4:80"
)

func init() {
	for _, p := range []*sim.Peer{provA, provB} {
		siming.Names[p.ID] = p.Name
	}
	pubsub.GossipSubHeartbeatInterval = 1000 * time.Hour
	pubsub.GossipSubHeartbeatInitialDelay = 1000 * time.Hour
	pubsub.GossipSubConnectors = 0
	pubsub.TimeCacheDuration = 1000 * time.Hour
	leveldb.McMemory = true
	leveldb.McStorage = func(path string) storage.Storage {
		if storageOf == nil {
			return nil
		}
		return storageOf(path)
	}
	libp2p.McNew = func(...libp2p.Option) (host.Host, error) {
		if clientHost != nil {
			return clientHost, nil
		}
		return cur.host, nil
	}
	http.McServe = func(srv *http.Server, l net.Listener) error { return cur.serve(srv, l) }
	http.McShutdown = func(srv *http.Server, ctx context.Context) error { return cur.shutdown(srv, ctx) }
}

type obj = map[string]interface{}

// daemon is a running daemon.
type daemon struct {
	w      *mcrt.World
	prop   string
	dir    string
	host   *siming.Host
	web    *siming.Web
	cancel context.CancelFunc
	done   <-chan struct{}
	err    error
	mtime  time.Time
	t0     time.Time
	srvs   map[*http.Server]*server
}

type server struct {
	ip    string
	stop  chan struct{}
	busy  int
	idle  chan struct{}
	ended bool
}

var cur *daemon

// storageOf gives the storage of the datastore at a path, nil for a new one.
var storageOf func(path string) storage.Storage

func (d *daemon) serve(srv *http.Server, l net.Listener) error {
	ip, _, err := net.SplitHostPort(l.Addr().String())
	if err != nil {
		panic(err)
	}
	l.Close()
	s := d.srvs[srv]
	if s == nil {
		s = &server{stop: make(chan struct{})}
		d.srvs[srv] = s
	}
	s.ip = ip
	if s.ended {
		return http.ErrServerClosed
	}
	d.web.Serve[ip+":80"] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		s.busy++
		defer func() {
			s.busy--
			if s.busy == 0 && s.idle != nil {
				close(s.idle)
				s.idle = nil
			}
		}()
		srv.Handler.ServeHTTP(rw, r)
	})
	<-s.stop
	return http.ErrServerClosed
}

// shutdown waits for the requests in progress, as http.Server.Shutdown does.
func (d *daemon) shutdown(srv *http.Server, ctx context.Context) error {
	s := d.srvs[srv]
	if s == nil {
		s = &server{stop: make(chan struct{})}
		d.srvs[srv] = s
	}
	if !s.ended {
		s.ended = true
		delete(d.web.Serve, s.ip+":80")
		close(s.stop)
	}
	if s.busy == 0 {
		return nil
	}
	s.idle = make(chan struct{})
	select {
	case <-s.idle:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// baseConfig is a configuration for the simulated environment.
func baseConfig() obj {
	kb, err := crypto.MarshalPrivateKey(me.Priv)
	if err != nil {
		panic(err)
	}
	return obj{
		"Version":   2,
		"Identity":  obj{"PeerID": me.ID.String(), "PrivKey": kb},
		"Addresses": obj{"Admin": "/ip4/" + adminIP + "/tcp/0", "Finder": "/ip4/" + finderIP + "/tcp/0", "Ingest": "/ip4/" + ingestIP + "/tcp/0", "P2PAddr": "/ip4/127.0.0.1/tcp/0"},
		"Bootstrap": obj{"Peers": []string{}, "MinimumPeers": 0},
		"Discovery": obj{"LotusGateway": "none", "Policy": obj{"Allow": true, "Publish": true}, "PollInterval": "100000h"},
		"Indexer":   obj{"CacheSize": -1, "ValueStoreType": "memory"},
		"Ingest":    obj{"IngestWorkerCount": 1},
		"Logging":   obj{"Level": "fatal"},
	}
}

// with is a deep copy of a configuration with the setting at path changed.
func with(c obj, path string, v interface{}) obj {
	b, _ := json.Marshal(c)
	r := obj{}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	m := r
	ps := strings.Split(path, ".")
	for _, p := range ps[:len(ps)-1] {
		if m[p] == nil {
			m[p] = obj{}
		}
		m = m[p].(obj)
	}
	m[ps[len(ps)-1]] = v
	return r
}

// start runs the daemon until its servers serve.
func start(w *mcrt.World, prop string, cfg obj, args ...string) *daemon {
	rand.Seed(1)
	dir, err := ioutil.TempDir("", "verif-daemon")
	if err != nil {
		panic(err)
	}
	d := &daemon{w: w, prop: prop, dir: dir, host: siming.NewHost(me), web: siming.NewWeb(), srvs: map[*http.Server]*server{}, mtime: time.Unix(1600000000, 0)}
	d.web.Serve = map[string]http.Handler{}
	d.web.Crash = func(v interface{}) {
		w.Fail(prop, "crash", "a request crashed the server: %v\n%s", v, debug.Stack())
	}
	cur = d
	d.t0 = time.Now()
	d.write(cfg)
	d.run(args...)
	return d
}

// again starts the daemon with what another one left.
func again(w *mcrt.World, prop, dir string, web *siming.Web, mtime time.Time) *daemon {
	rand.Seed(1)
	d := &daemon{w: w, prop: prop, dir: dir, host: siming.NewHost(me), web: web, srvs: map[*http.Server]*server{}, mtime: mtime}
	cur = d
	d.t0 = time.Now()
	d.run()
	return d
}

func (d *daemon) run(args ...string) {
	os.Setenv("STORETHEINDEX_PATH", d.dir)
	os.Unsetenv("STORETHEINDEX_WATCH_CONFIG")
	ctx, cancel := context.WithCancel(bg)
	d.cancel = cancel
	mcrt.Calm(true)
	defer mcrt.Calm(false)
	d.done = d.w.Go(func() {
		app := &cli.App{Name: "storetheindex", Commands: []*cli.Command{command.DaemonCmd}, Writer: ioutil.Discard, ErrWriter: ioutil.Discard, ExitErrHandler: func(*cli.Context, error) {}}
		d.err = app.RunContext(ctx, append([]string{"storetheindex", "daemon"}, args...))
	})
	mcrt.Settle()
}

// write changes the configuration file.
func (d *daemon) write(cfg obj) {
	b, err := json.MarshalIndent(cfg, "", " ")
	if err != nil {
		panic(err)
	}
	d.writeText(string(b))
}

func (d *daemon) writeText(text string) {
	f := filepath.Join(d.dir, "config")
	if err := ioutil.WriteFile(f, []byte(text), 0o644); err != nil {
		panic(err)
	}
	d.mtime = d.mtime.Add(time.Second)
	if err := os.Chtimes(f, d.mtime, d.mtime); err != nil {
		panic(err)
	}
}

// clean removes what the execution left behind.
func (d *daemon) clean() {
	signal.Reset(syscall.SIGHUP)
	os.RemoveAll(d.dir)
}

// running reports whether the daemon has not ended.
func (d *daemon) running() bool {
	select {
	case <-d.done:
		return false
	default:
		return true
	}
}

func (d *daemon) admin() *admin.Client {
	c, err := admin.New(adminURL)
	if err != nil {
		panic(err)
	}
	return c
}

// stop ends the daemon as an operator does and checks that it ends.
func (d *daemon) stop(what string) {
	d.cancel()
	if !d.w.Within(d.done, time.Hour) {
		d.w.Fail(d.prop, "no shutdown", "%s: the daemon does not stop", what)
		return
	}
	if d.err != nil {
		d.w.Fail(d.prop, "bad shutdown", "%s: the daemon ended with: %v", what, d.err)
	}
}

func get(url string) (int, string) {
	res, err := http.Get(url)
	if err != nil {
		return 0, err.Error()
	}
	defer res.Body.Close()
	b, _ := ioutil.ReadAll(res.Body)
	return res.StatusCode, string(b)
}

// alive checks that every server answers.
func (d *daemon) alive(what string) bool {
	if !d.running() {
		d.w.Fail(d.prop, "daemon ended", "%s: the daemon ended: %v", what, d.err)
		return false
	}
	for u, want := range map[string]int{adminURL + "/healthcheck": 200, finderURL + "/health": 200, ingestURL + "/register": 405} {
		if st, b := get(u); st != want {
			d.w.Fail(d.prop, "not serving", "%s: %s answers %d %s", what, u, st, b)
			return false
		}
	}
	return true
}

func peerAddr(p *sim.Peer, n int) string { return fmt.Sprintf("%s/p2p/%s", sim.Addr(n), p.ID) }
