package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderp2p "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	pb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	p2pclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/libp2pclient"
	"github.com/filecoin-project/storetheindex/internal/libp2pserver"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/gogo/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-msgio"
	"github.com/multiformats/go-multihash"
	"github.com/multiformats/go-varint"
)

// echo answers a find request for a multihash with a result that names it.
func echo(mh multihash.Multihash) []byte {
	d, err := model.MarshalFindResponse(&model.FindResponse{MultihashResults: []model.MultihashResult{{Multihash: mh, ProviderResults: []model.ProviderResult{{ContextID: []byte(mhName(mh)), Metadata: []byte("m"), Provider: peer.AddrInfo{ID: provA.ID}}}}}})
	if err != nil {
		panic(err)
	}
	return d
}

func asked(msg []byte) string {
	var m pb.FinderMessage
	if err := m.Unmarshal(msg); err != nil {
		return "?"
	}
	r, err := model.UnmarshalFindRequest(m.GetData())
	if err != nil || len(r.Multihashes) != 1 {
		return "?"
	}
	return mhName(r.Multihashes[0])
}

// behave is what a server does with a request.
type behave struct {
	name  string
	delay time.Duration
	ok    bool // it answers properly and in time
}

var behaviours = []behave{
	{name: "ok", ok: true},
	{name: "ok", delay: 9 * time.Second, ok: true},
	{name: "ok", delay: 11 * time.Second},
	{name: "error", ok: true},
	{name: "garbage"},
	{name: "cut"},
	{name: "reset"},
	{name: "close"},
	{name: "silent"},
	{name: "wrong type"},
	{name: "empty error"},
	{name: "empty"},
}

func frame(b []byte) []byte { return append(varint.ToUvarint(uint64(len(b))), b...) }

// stub is a server that behaves as decided per request.
type stub struct {
	w      *mcrt.World
	decide func(mh string) behave
	log    []string
}

func (t *stub) handle(s network.Stream) {
	r := msgio.NewVarintReaderSize(s, network.MessageSizeMax)
	for {
		msg, err := r.ReadMsg()
		if err != nil {
			s.Reset()
			return
		}
		name := asked(msg)
		r.ReleaseMsg(msg)
		t.log = append(t.log, name)
		b := t.decide(name)
		if b.delay > 0 {
			time.Sleep(b.delay)
		}
		out := &pb.FinderMessage{Type: pb.FinderMessage_FIND_RESPONSE, Data: echo(sim.MH(name))}
		switch b.name {
		case "error":
			out = &pb.FinderMessage{Type: pb.FinderMessage_ERROR_RESPONSE, Data: v0.EncodeError(v0.NewError(errors.New("refused "+name), 403))}
		case "empty error":
			out = &pb.FinderMessage{Type: pb.FinderMessage_ERROR_RESPONSE}
		case "wrong type":
			out.Type = pb.FinderMessage_GET_STATS_RESPONSE
		case "empty":
			out = &pb.FinderMessage{Type: pb.FinderMessage_FIND_RESPONSE}
		}
		data, err := out.Marshal()
		if err != nil {
			panic(err)
		}
		switch b.name {
		case "garbage":
			data = []byte("\xff\xff\xff\xffgarbage")
		case "reset":
			s.Reset()
			return
		case "close":
			s.Close()
			return
		case "silent":
			continue
		}
		f := frame(data)
		if b.name == "cut" {
			s.Write(f[:len(f)/2])
			s.Close()
			return
		}
		if _, err = s.Write(f); err != nil {
			return
		}
	}
}

// p2pWorld is a client connected to a stub.
func p2pWorld(w *mcrt.World, decide func(string) behave) (*finderp2p.Client, *stub, *siming.Net) {
	h, ch := siming.NewHost(me), siming.NewHost(cli)
	n := siming.NewNet(h, ch)
	t := &stub{w: w, decide: decide}
	h.SetStreamHandler(v0.FinderProtocolID, t.handle)
	c, err := finderp2p.New(ch, me.ID)
	if err != nil {
		panic(err)
	}
	return c, t, n
}

type result struct {
	name string
	res  *model.FindResponse
	err  error
	dur  time.Duration
}

// request sends one and judges what can be judged alone.
func request(w *mcrt.World, c *finderp2p.Client, ctx context.Context, name string) *result {
	start := time.Now()
	r := &result{name: name}
	r.res, r.err = c.Find(ctx, sim.MH(name))
	r.dur = time.Since(start)
	if r.err == nil {
		if got := showResponse(r.res); !strings.HasPrefix(got, name+"=") || !strings.Contains(got, "/"+name+"/") {
			w.Fail("C20", "wrong response", "the request for %s got the response %q", name, got)
		}
	} else if strings.Contains(r.err.Error(), "refused") && !strings.Contains(r.err.Error(), "refused "+name) {
		w.Fail("C20", "wrong response", "the request for %s got the error %q", name, r.err)
	}
	return r
}

// p2pSeq: all sequences of server behaviours and client contexts.
func p2pSeq(n int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		var hist []string
		beh := map[string]behave{}
		c, _, net := p2pWorld(w, func(name string) behave { return beh[name] })
		streamErr := false
		net.Fault = func(protocol.ID) error {
			if streamErr {
				return errors.New("no connection")
			}
			return nil
		}
		for i := 0; i < n; i++ {
			name := []string{"m1", "m2", "m3", "x1", "x2"}[i]
			k := w.Choose(len(behaviours)+3, "request")
			ctx, cancel := bg, context.CancelFunc(func() {})
			b := behaviours[0]
			what := ""
			switch {
			case k < len(behaviours):
				b = behaviours[k]
				what = fmt.Sprintf("%s after %v", b.name, b.delay)
			case k == len(behaviours):
				b.delay = 2 * time.Second
				ctx, cancel = context.WithTimeout(bg, time.Second)
				what = "deadline"
			case k == len(behaviours)+1:
				ctx, cancel = context.WithCancel(bg)
				cancel()
				what = "cancelled"
			case k == len(behaviours)+2:
				streamErr = true
				what = "no connection"
			}
			hist = append(hist, what)
			beh[name] = b
			r := request(w, c, ctx, name)
			streamErr = false
			cancel()
			if w.Failed() {
				return
			}
			if r.dur > 10*time.Second+time.Millisecond {
				w.Fail("C20", "blocked", "%v: a request returned after %v", hist, r.dur)
				return
			}
			switch {
			case k >= len(behaviours): // an answer or an error
			case !b.ok:
				if r.err == nil {
					w.Fail("C20", "no error", "%v: the last request was not answered properly, but the client reports success: %v", hist, showResponse(r.res))
					return
				}
			case b.name == "ok" && r.err != nil:
				w.Fail("C20", "no response", "%v: the last request was answered in time, but the client got %v", hist, r.err)
				return
			case b.name == "error" && (r.err == nil || !strings.Contains(r.err.Error(), "refused "+name)):
				w.Fail("C20", "no response", "%v: the last request was refused, but the client got %v", hist, r.err)
				return
			}
		}
		// In the end, the client works.
		beh["m1"] = behaviours[0]
		request(w, c, bg, "m1")
		if r := request(w, c, bg, "m1"); r.err != nil {
			w.Fail("C20", "no response", "%v: the client does not recover: %v", hist, r.err)
		}
		w.Observe("%v", hist)
	}
}

// p2pPar: concurrent requests over one client.
func p2pPar(n int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		beh := map[string]behave{}
		c, t, net := p2pWorld(w, func(name string) behave { return beh[name] })
		net.Points = true
		opts := []behave{{name: "ok", ok: true}, {name: "ok", delay: 11 * time.Second}, {name: "ok", delay: time.Second, ok: true}, {name: "reset"}, {name: "silent"}, {name: "error", ok: true}}
		names := []string{"m1", "m2", "m3"}[:n]
		var fs []func()
		rs := make([]*result, n)
		var desc []string
		for i, name := range names {
			b := opts[w.Choose(len(opts), "server "+name)]
			beh[name] = b
			i, name := i, name
			cn := 0
			if b.name != "reset" {
				cn = w.Choose(2, "cancel "+name)
			}
			desc = append(desc, fmt.Sprintf("%s:%s+%v/%d", name, b.name, b.delay, cn))
			fs = append(fs, func() {
				ctx, cancel := bg, context.CancelFunc(func() {})
				if cn == 1 {
					ctx, cancel = context.WithTimeout(bg, time.Second)
				}
				rs[i] = request(w, c, ctx, name)
				cancel()
			})
		}
		start := time.Now()
		w.Par(fs...)
		if d := time.Since(start); d > time.Duration(n)*10*time.Second+time.Second {
			w.Fail("C20", "blocked", "%v took %v", desc, d)
		}
		// the client works again
		beh["x1"] = behaviours[0]
		request(w, c, bg, "x1")
		if r := request(w, c, bg, "x1"); r.err != nil {
			w.Fail("C20", "no response", "%v: the client does not recover: %v", desc, r.err)
		}
		var out []string
		for i, r := range rs {
			out = append(out, fmt.Sprintf("%s err=%v", desc[i], r.err != nil))
		}
		_ = t
		w.Observe("%v", out)
	}
}

// p2pReal: concurrent requests of several clients to the real server; the
// handler tells requests and peers apart.
type echoHandler struct {
	delay map[string]time.Duration
	fail  map[string]bool
}

func (h *echoHandler) ProtocolID() protocol.ID { return v0.FinderProtocolID }
func (h *echoHandler) HandleMessage(ctx context.Context, p peer.ID, b []byte) (proto.Message, error) {
	name := asked(b)
	if d := h.delay[name]; d > 0 {
		time.Sleep(d)
	}
	mcrt.Point()
	if h.fail[name] {
		return nil, errors.New("bad message")
	}
	return &pb.FinderMessage{Type: pb.FinderMessage_FIND_RESPONSE, Data: echo(sim.MH(name))}, nil
}

func p2pReal(clients, each int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		h, ch := siming.NewHost(me), siming.NewHost(cli)
		net := siming.NewNet(h, ch)
		net.Points = true
		eh := &echoHandler{delay: map[string]time.Duration{}, fail: map[string]bool{}}
		libp2pserver.New(bg, h, eh)
		var fs []func()
		names := []string{"m1", "m2", "m3", "x1", "x2"}
		var desc []string
		ok := map[string]bool{}
		res := map[string]*result{}
		for i := 0; i < clients; i++ {
			c, err := finderp2p.New(ch, me.ID)
			if err != nil {
				panic(err)
			}
			for j := 0; j < each; j++ {
				name := names[0]
				names = names[1:]
				switch w.Choose(5, name) {
				case 0:
					ok[name] = true
				case 1:
					eh.delay[name] = 2 * time.Second
					ok[name] = true
				case 2:
					eh.delay[name] = 12 * time.Second
				case 3:
					eh.fail[name] = true
				case 4: // longer than the idle time of the server
					eh.delay[name] = 70 * time.Second
				}
				desc = append(desc, fmt.Sprintf("%d/%s:%v,%v", i, name, eh.delay[name], eh.fail[name]))
				res[name] = nil
				fs = append(fs, func() {
					r := request(w, c, bg, name)
					res[name] = r
				})
			}
		}
		w.Par(fs...)
		all := true
		for name := range res {
			all = all && ok[name]
		}
		var out []string
		for _, name := range []string{"m1", "m2", "m3", "x1", "x2"} {
			r := res[name]
			if r == nil {
				continue
			}
			if all && r.err != nil {
				w.Fail("C20", "no response", "%v: %s failed: %v", desc, name, r.err)
			}
			if !ok[name] && r.err == nil {
				w.Fail("C20", "no error", "%v: %s got an answer that the server did not give in time", desc, name)
			}
			out = append(out, fmt.Sprintf("%s=%v", name, r.err == nil))
		}
		w.Observe("%v %v", desc, out)
		// A server that was slow or refused serves the next request.
		c, _ := finderp2p.New(ch, me.ID)
		eh.delay["x2"], eh.fail["x2"] = 0, false
		if r := request(w, c, bg, "x2"); r.err != nil {
			w.Fail("C20", "no response", "%v: the server does not answer a new client: %v", desc, r.err)
		}
	}
}

// p2pClose: closing a client with requests in progress.
func p2pClose(w *mcrt.World) {
	beh := map[string]behave{}
	_, t, net := p2pWorld(w, func(name string) behave { return beh[name] })
	h, ch := siming.NewHost(me), siming.NewHost(cli)
	net = siming.NewNet(h, ch)
	net.Points = true
	h.SetStreamHandler(v0.FinderProtocolID, t.handle)
	c, err := libp2pclient.New(ch, me.ID, v0.FinderProtocolID)
	if err != nil {
		panic(err)
	}
	beh["m1"] = behaviours[w.Choose(len(behaviours), "server")]
	beh["m2"] = behaviours[0]
	send := func(name string) error {
		data, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs([]string{name})})
		if err != nil {
			panic(err)
		}
		var resp pb.FinderMessage
		err = c.SendRequest(bg, &pb.FinderMessage{Type: pb.FinderMessage_FIND, Data: data}, resp.Unmarshal)
		if err == nil && resp.GetType() == pb.FinderMessage_FIND_RESPONSE && len(resp.GetData()) > 0 {
			r, err := model.UnmarshalFindResponse(resp.GetData())
			if err != nil || !strings.HasPrefix(showResponse(r), name+"=") {
				w.Fail("C20", "wrong response", "request for %s got %q", name, resp.GetData())
			}
		}
		return err
	}
	cl := func() {
		if err := c.Close(); err != nil {
			w.Fail("C20", "close", "%v", err)
		}
	}
	w.Par(func() { send("m1") }, cl, func() { send("m2") })
	cl()
	cl()
	for _, s := range net.Streams {
		if _, err := s.Read(make([]byte, 1)); err == nil {
			w.Fail("C20", "close", "a stream is open after closing")
		}
	}
}

// p2pIngest: an error response is never a success.
func p2pIngest(w *mcrt.World) {
	h, ch := siming.NewHost(me), siming.NewHost(cli)
	siming.NewNet(h, ch)
	k := w.Choose(5, "response")
	h.SetStreamHandler(v0.IngestProtocolID, func(s network.Stream) {
		r := msgio.NewVarintReaderSize(s, network.MessageSizeMax)
		msg, err := r.ReadMsg()
		if err != nil {
			return
		}
		r.ReleaseMsg(msg)
		s.Write(frame([][]byte{
			{0x08, 0x00, 0x12, 0x00}, {}, {0x08, 0x63}, {0x08, 0x02}, {0x12, 0x01, 0x41},
		}[k]))
	})
	c, err := p2pclient.New(ch, me.ID)
	if err != nil {
		panic(err)
	}
	if w.Choose(2, "request") == 0 {
		err = c.Register(bg, provA.ID, provA.Priv, []string{addr1.String()})
	} else {
		err = c.IndexContent(bg, provA.ID, provA.Priv, sim.MH("m1"), []byte("c"), []byte("m"), []string{addr1.String()})
	}
	if err == nil {
		w.Fail("C20", "no error", "response %d that is no confirmation was taken for one", k)
	}
}

func init() {
	g := func(n string, f func(*mcrt.World), q, t, r, rt int) {
		mcrt.Register(&mcrt.Scenario{Name: n, Prop: "C20", Run: f, Quick: q, Thorough: t, Race: r, RaceThorough: rt, Horizon: 20 * time.Minute})
	}
	g("p2p-seq", p2pSeq(3), 0, 1, -1, -1)
	g("p2p-seq-4", p2pSeq(4), -1, 0, -1, -1)
	g("p2p-par", p2pPar(2), 2, 3, 1, 2)
	g("p2p-par-3", p2pPar(3), 0, 2, -1, 1)
	g("p2p-server", p2pReal(2, 1), 2, 3, 1, 2)
	g("p2p-server-2", p2pReal(2, 2), 0, 2, -1, 1)
	g("p2p-close", p2pClose, 1, 3, 1, 2)
	g("p2p-ingest", p2pIngest, 0, 1, -1, -1)
}
