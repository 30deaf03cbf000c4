package siming

import (
	"bytes"
	"errors"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multiaddr"
)

// Pub is a publisher: a head and blocks, served over HTTP.
type Pub struct {
	Peer *sim.Peer
	Host string // host:port
	Addr multiaddr.Multiaddr
	*Blocks
	Head cid.Cid
	Ads  []Ad
}

// NewPub makes a publisher at 10.0.1.n.
func NewPub(p *sim.Peer, n int) *Pub {
	ip := "10.0.1." + string(rune('0'+n))
	return &Pub{Peer: p, Host: ip + ":80", Addr: sim.MA("/ip4/" + ip + "/tcp/80/http"), Blocks: &Blocks{M: map[string][]byte{}}, Head: cid.Undef}
}

// Add publishes the next advertisement.
func (p *Pub) Add(s AdSpec) Ad {
	pubMu.Lock()
	defer pubMu.Unlock()
	ad := p.Publish(p.Head, s)
	p.Head = ad.Cid
	p.Ads = append(p.Ads, ad)
	return ad
}

var pubMu sync.Mutex

// Published orders what the harness set up before the requests that follow,
// for the race detector.
func Published() {
	pubMu.Lock()
	pubMu.Unlock()
}

// Web is the HTTP network of a world.
type Web struct {
	mu   sync.Mutex
	Pubs map[string]*Pub
	// Fault decides about a request (publisher host, path): status code and
	// delay; status 0 means served normally, -1 a connection error, -2 the
	// body breaks off.
	Fault func(host, path string) (int, time.Duration)
	// Other answers requests to unknown hosts.
	Other func(req *http.Request) (int, []byte)
	// Serve are servers by host:port.
	Serve map[string]http.Handler
	// Alias are other names of servers.
	Alias map[string]string
	// Crash is called when a server panics.
	Crash func(v interface{})
	// Log is the list of requests served.
	Log []string
	// Times of the requests (virtual ns).
	Times []int64
	// Points makes every request a scheduling point.
	Points bool
}

// Requests is the number of requests so far.
func (w *Web) Requests() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.Log)
}

// NewWeb makes a network and installs it.
func NewWeb(pubs ...*Pub) *Web {
	w := &Web{Pubs: map[string]*Pub{}}
	for _, p := range pubs {
		w.Pubs[p.Host] = p
	}
	http.DefaultTransport = w
	return w
}

type brokenBody struct{ r *bytes.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err != nil {
		return n, errors.New("connection reset")
	}
	return n, nil
}
func (b brokenBody) Close() error { return nil }

// RoundTrip implements http.RoundTripper.
func (w *Web) RoundTrip(req *http.Request) (*http.Response, error) {
	Published()
	host := req.URL.Host
	if !strings.Contains(host, ":") {
		host += ":80"
	}
	if a := w.Alias[host]; a != "" {
		host = a
	}
	path := strings.TrimPrefix(req.URL.Path, "/")
	if w.Points {
		mcrt.Point()
	}
	st := 0
	if w.Fault != nil {
		var d time.Duration
		st, d = w.Fault(host, path)
		if d > 0 {
			t := time.NewTimer(d)
			select {
			case <-t.C:
			case <-req.Context().Done():
				t.Stop()
				return nil, req.Context().Err()
			}
		}
	}
	if st == -1 {
		return nil, errors.New("connection refused")
	}
	if h := w.Serve[host]; h != nil && st == 0 {
		return w.serve(h, req)
	}
	pubMu.Lock()
	defer pubMu.Unlock()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.Log = append(w.Log, host+"/"+path)
	w.Times = append(w.Times, time.Now().UnixNano())
	var body []byte
	broken := st == -2
	if st == 0 || broken {
		st = 200
		p := w.Pubs[host]
		switch {
		case p == nil && w.Other != nil:
			st, body = w.Other(req)
		case p == nil:
			return nil, errors.New("no such host")
		case path == "head":
			if p.Head == cid.Undef {
				st = 404
			} else {
				body = SignedHead(p.Head, p.Peer.Priv)
			}
		default:
			b, ok := p.M[path]
			if !ok {
				st = 404
			}
			body = b
		}
	}
	res := &http.Response{StatusCode: st, Status: http.StatusText(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: int64(len(body)), Request: req}
	if broken {
		res.Body = brokenBody{bytes.NewReader(body[:len(body)/2])}
	} else {
		res.Body = ioutil.NopCloser(bytes.NewReader(body))
	}
	return res, nil
}

func (w *Web) serve(h http.Handler, req *http.Request) (res *http.Response, err error) {
	r := req.Clone(req.Context())
	r.RequestURI = req.URL.RequestURI()
	r.Host = req.URL.Host
	r.RemoteAddr = "10.0.9.9:999"
	if r.Body == nil {
		r.Body = http.NoBody
	}
	rec := httptest.NewRecorder()
	defer func() {
		if v := recover(); v != nil {
			if w.Crash == nil {
				panic(v)
			}
			w.Crash(v)
			res, err = nil, errors.New("EOF")
		}
	}()
	h.ServeHTTP(rec, r)
	res = rec.Result()
	res.Request = req
	return res, nil
}

// HandlerOf is the handler of a server with an unexported http.Server; its
// listener is closed.
func HandlerOf(server interface{}) http.Handler {
	v := reflect.ValueOf(server).Elem()
	var h http.Handler
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch x := f.Interface().(type) {
		case *http.Server:
			h = x.Handler
		case net.Listener:
			x.Close()
		}
	}
	if h == nil {
		panic("no handler in server")
	}
	return h
}

// CloseIdleConnections is called by http.Client.
func (w *Web) CloseIdleConnections() {}
