package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	pb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/api/v0/libp2pclient"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	recpb "github.com/libp2p/go-libp2p-core/record/pb"
	"github.com/multiformats/go-multiaddr"
)

var reqKinds = []string{"register", "discover", "index"}

// makeRecord is the record of a request of the given kind that speaks for
// who. n distinguishes requests.
func makeRecord(kind string, who *sim.Peer, n int, seq uint64) record.Record {
	switch kind {
	case "register":
		return &peer.PeerRecord{PeerID: who.ID, Addrs: []multiaddr.Multiaddr{sim.Addr(n)}, Seq: seq}
	case "discover":
		return &model.DiscoverRequest{ProviderID: who.ID, DiscoveryAddr: fmt.Sprint("d", n), Seq: seq}
	}
	return &model.IngestRequest{Multihash: sim.MH("m1"), ProviderID: who.ID, ContextID: []byte("c"), Metadata: []byte(fmt.Sprint("md", n)), Addrs: []string{sim.Addr(n).String()}, Seq: seq}
}

func makeRecordDiscover(addr string) record.Record {
	return &model.DiscoverRequest{ProviderID: provA.ID, DiscoveryAddr: addr, Seq: now()}
}

func seal(r record.Record, k crypto.PrivKey) []byte {
	e, err := record.Seal(r, k)
	if err != nil {
		panic(err)
	}
	b, err := e.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// otherDomain signs the record under another domain or payload type.
type otherDomain struct {
	record.Record
	domain string
	codec  []byte
}

func (o *otherDomain) Domain() string {
	if o.domain != "" {
		return o.domain
	}
	return o.Record.Domain()
}
func (o *otherDomain) Codec() []byte {
	if o.codec != nil {
		return o.codec
	}
	return o.Record.Codec()
}

func patch(env []byte, f func(e *recpb.Envelope)) []byte {
	var e recpb.Envelope
	if err := e.Unmarshal(env); err != nil {
		panic(err)
	}
	f(&e)
	b, err := e.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

var alterations = []string{"none", "signer", "signer, no addresses", "signer, bare record", "other kind 1", "other kind 2", "domain", "domain of other kind 1", "domain of other kind 2", "codec", "payload", "payload of other", "signature of other", "no signature", "no key", "key of other", "payload type", "truncated", "empty", "no peer"}

// alter makes the bytes of a request.
func alter(how, kind string, who *sim.Peer, n int, seq uint64) []byte {
	rec := makeRecord(kind, who, n, seq)
	good := seal(rec, who.Priv)
	other := makeRecord(kind, who, n+50, seq)
	k := 0
	for i, x := range reqKinds {
		if x == kind {
			k = i
		}
	}
	switch how {
	case "none":
		return good
	case "signer":
		return seal(rec, provB.Priv)
	case "signer, no addresses", "signer, bare record":
		bare := how == "signer, bare record"
		switch r := rec.(type) {
		case *peer.PeerRecord:
			r.Addrs = nil
		case *model.DiscoverRequest:
			r.DiscoveryAddr = ""
		case *model.IngestRequest:
			r.Addrs = nil
			if bare {
				r.ContextID, r.Metadata = nil, nil
			}
		}
		return seal(rec, provB.Priv)
	case "other kind 1", "other kind 2":
		j := 1
		if how == "other kind 2" {
			j = 2
		}
		return seal(makeRecord(reqKinds[(k+j)%3], who, n, seq), who.Priv)
	case "domain":
		return seal(&otherDomain{Record: rec, domain: "other"}, who.Priv)
	case "domain of other kind 1", "domain of other kind 2":
		j := 1
		if how == "domain of other kind 2" {
			j = 2
		}
		return seal(&otherDomain{Record: rec, domain: makeRecord(reqKinds[(k+j)%3], who, n, seq).Domain()}, who.Priv)
	case "codec":
		return seal(&otherDomain{Record: rec, codec: []byte("other")}, who.Priv)
	case "payload":
		return patch(good, func(e *recpb.Envelope) { e.Payload, _ = other.MarshalRecord() })
	case "payload of other":
		return patch(good, func(e *recpb.Envelope) { e.Payload, _ = makeRecord(kind, provB, n, seq).MarshalRecord() })
	case "signature of other":
		return patch(good, func(e *recpb.Envelope) {
			var o recpb.Envelope
			o.Unmarshal(seal(other, who.Priv))
			e.Signature = o.Signature
		})
	case "no signature":
		return patch(good, func(e *recpb.Envelope) { e.Signature = nil })
	case "no key":
		return patch(good, func(e *recpb.Envelope) { e.PublicKey = nil })
	case "key of other":
		return patch(good, func(e *recpb.Envelope) { e.PublicKey, _ = crypto.PublicKeyToProto(provB.Priv.GetPublic()) })
	case "payload type":
		return patch(good, func(e *recpb.Envelope) { e.PayloadType = makeRecord(reqKinds[(k+1)%3], who, n, seq).Codec() })
	case "truncated":
		return good[:len(good)-1]
	case "empty":
		return nil
	case "no peer":
		return seal(makeRecord(kind, &sim.Peer{}, n, seq), who.Priv)
	}
	panic(how)
}

type signDisc struct{ calls []string }

func (d *signDisc) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	d.calls = append(d.calls, id.String()+" "+addr)
	var n int
	fmt.Sscanf(addr, "d%d", &n)
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{sim.Addr(n)}}}, nil
}

// post submits a request and reports whether it was accepted.
func (s *sys) post(transport, kind string, data []byte) (bool, string) {
	if transport == "http" {
		path := map[string]string{"register": "/register", "discover": "/discover"}[kind]
		if path != "" {
			st, _, b, err := raw("POST", ingestURL+path, string(data))
			return err == nil && st/100 == 2, fmt.Sprint(st, " ", strings.TrimSpace(string(b)), " ", err)
		}
	}
	c, err := libp2pclient.New(s.ch, me.ID, v0.IngestProtocolID)
	if err != nil {
		panic(err)
	}
	defer c.Close()
	t := map[string]pb.IngestMessage_MessageType{"register": pb.IngestMessage_REGISTER_PROVIDER, "discover": pb.IngestMessage_DISCOVER_PROVIDER, "index": pb.IngestMessage_INDEX_CONTENT}[kind]
	var resp pb.IngestMessage
	if err = c.SendRequest(bg, &pb.IngestMessage{Type: t, Data: data}, resp.Unmarshal); err != nil {
		return false, err.Error()
	}
	return resp.GetType() == t+1, fmt.Sprintf("%s %s", resp.GetType(), resp.GetData())
}

// shown is everything that requests can change.
func (s *sys) shown(d *signDisc) string {
	var out []string
	for _, p := range s.reg.AllProviderInfo() {
		out = append(out, fmt.Sprintf("%s@%s", p.AddrInfo.ID, fmtAddrs(p.AddrInfo.Addrs)))
	}
	sort.Strings(out)
	vals, _, err := s.ix.Get(sim.MH("m1"))
	if err != nil {
		out = append(out, err.Error())
	}
	var vs []string
	for _, v := range vals {
		vs = append(vs, fmt.Sprintf("m1=%s/%s/%s", v.ProviderID, v.ContextID, v.MetadataBytes))
	}
	sort.Strings(vs)
	out = append(out, vs...)
	out = append(out, fmt.Sprint(d.calls))
	return strings.Join(out, " ")
}

// signModel is the reference of shown.
type signModel struct {
	addr  map[peer.ID]string
	md    map[peer.ID]string
	calls []string
	last  map[peer.ID]uint64
}

func newSignModel() *signModel {
	return &signModel{addr: map[peer.ID]string{}, md: map[peer.ID]string{}, last: map[peer.ID]uint64{}}
}

func (m *signModel) apply(kind string, who *sim.Peer, n int) {
	m.addr[who.ID] = sim.Addr(n).String()
	switch kind {
	case "discover":
		m.calls = append(m.calls, fmt.Sprintf("%s d%d", who.ID, n))
	case "index":
		m.md[who.ID] = fmt.Sprint("md", n)
	}
}

func (m *signModel) shown() string {
	var out []string
	for id, a := range m.addr {
		out = append(out, fmt.Sprintf("%s@%s", id, a))
	}
	sort.Strings(out)
	var vs []string
	for id, md := range m.md {
		vs = append(vs, fmt.Sprintf("m1=%s/c/%s", id, md))
	}
	sort.Strings(vs)
	out = append(out, vs...)
	out = append(out, fmt.Sprint(m.calls))
	return strings.Join(out, " ")
}

func now() uint64 { return uint64(time.Now().UnixNano()) }

// signOne: every alteration of every request, before and after a good one.
func signOne(w *mcrt.World) {
	kind := w.Pick("kind", reqKinds...)
	transport := w.Pick("transport", "http", "libp2p")
	if kind == "index" && transport == "http" {
		return
	}
	how := w.Pick("alteration", alterations...)
	before := w.Pick("before", "unknown", "registered", "accepted")
	d := &signDisc{}
	s := newSys(w, "C08", regCfg(), true, d)
	m := newSignModel()
	submit := func(how string, n int, seq uint64) {
		ok, text := s.post(transport, kind, alter(how, kind, provA, n, seq))
		mcrt.Settle()
		want := how == "none"
		if want {
			m.apply(kind, provA, n)
		}
		what := fmt.Sprintf("%s request over %s (alteration: %s; before: %s)", kind, transport, how, before)
		if ok != want {
			w.Fail("C08", "accepted="+fmt.Sprint(ok), "%s: accepted=%v (%s)", what, ok, text)
		}
		if got, exp := s.shown(d), m.shown(); got != exp {
			w.Fail("C08", "effect", "%s (%s):\n got: %s\nwant: %s", what, text, got, exp)
		}
	}
	switch before {
	case "registered":
		m.addr[provA.ID] = sim.Addr(1).String()
		if err := s.reg.RegisterOrUpdate(bg, provA.ID, []string{sim.Addr(1).String()}, sim.CID("x"), peer.AddrInfo{}); err != nil {
			panic(err)
		}
	case "accepted":
		submit("none", 2, now())
		time.Sleep(time.Second)
	}
	if w.Failed() {
		return
	}
	submit(how, 3, now())
	// A good request is accepted whatever was sent before, provided its
	// number is new.
	time.Sleep(time.Second)
	submit("none", 4, now())
	w.Observe("%s %s %s %s", kind, transport, how, before)
}

// signHistory: all histories of submissions by kind, number and transport.
func signHistory(n int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		d := &signDisc{}
		s := newSys(w, "C08", regCfg(), true, d)
		m := newSignModel()
		base := now()
		sent := map[string]int{}
		var hist []string
		for i := 0; i < n; i++ {
			kind := w.Pick("kind", "register", "discover", "index", "wait")
			if kind == "wait" {
				time.Sleep(30 * time.Hour)
				hist = append(hist, "+30h")
				continue
			}
			who := map[string]*sim.Peer{"A": provA, "B": provB}[w.Pick("who", "A", "B")]
			q := w.Choose(3, "number")
			seq := base + uint64(q)
			transport := w.Pick("transport", "http", "libp2p")
			if kind == "index" && transport == "http" {
				return
			}
			// the same request has the same content
			key := fmt.Sprint(kind, who.Name, q)
			if sent[key] == 0 {
				sent[key] = len(sent) + 1
			}
			ok, text := s.post(transport, kind, alter("none", kind, who, sent[key], seq))
			mcrt.Settle()
			want := seq > m.last[who.ID] && seq >= now()-uint64(48*time.Hour)
			if want {
				m.last[who.ID] = seq
				m.apply(kind, who, sent[key])
			}
			hist = append(hist, fmt.Sprintf("%s %s+%d/%s=%v", kind, who.Name, q, transport, ok))
			if ok != want {
				w.Fail("C08", "replay", "%v: accepted=%v, want %v (%s)", hist, ok, want, text)
				return
			}
			if got, exp := s.shown(d), m.shown(); got != exp {
				w.Fail("C08", "effect", "%v:\n got: %s\nwant: %s", hist, got, exp)
				return
			}
		}
		w.Observe("%v", hist)
	}
}

// signPar: the same or different requests submitted concurrently.
func signPar(w *mcrt.World) {
	d := &signDisc{}
	s := newSys(w, "C08", regCfg(), true, d)
	base := now()
	kind := w.Pick("kind", reqKinds...)
	d2 := w.Choose(2, "second number")
	reqs := [][]byte{alter("none", kind, provA, 1, base), alter("none", kind, provA, 1+d2, base+uint64(d2))}
	oks := make([]bool, 2)
	w.Par(func() { oks[0], _ = s.post("http", kind, reqs[0]) }, func() { oks[1], _ = s.post("libp2p", kind, reqs[1]) })
	mcrt.Settle()
	if d2 == 0 && oks[0] == oks[1] {
		w.Fail("C08", "replay", "of two submissions of the same %s request, accepted: %v", kind, oks)
	}
	if d2 == 1 && !oks[1] {
		w.Fail("C08", "replay", "the %s request with the highest number was refused", kind)
	}
	w.Observe("%s %d %v", kind, d2, oks)
}

// signFlip: every bit of every request.
func signFlip(w *mcrt.World) {
	kind := w.Pick("kind", reqKinds...)
	good := alter("none", kind, provA, 1, now())
	read := func(b []byte) (interface{}, error) {
		switch kind {
		case "register":
			return model.ReadRegisterRequest(b)
		case "discover":
			return model.ReadDiscoverRequest(b)
		}
		return model.ReadIngestRequest(b)
	}
	orig, err := read(good)
	if err != nil {
		w.Fail("C08", "refused", "%s: %v", kind, err)
		return
	}
	i := w.Choose(len(good), "byte")
	for b := uint(0); b < 8; b++ {
		x := append([]byte{}, good...)
		x[i] ^= 1 << b
		rec, err := read(x)
		if err == nil && !reflect.DeepEqual(rec, orig) {
			w.Fail("C08", "altered accepted", "%s request with bit %d of byte %d flipped is read as %+v", kind, b, i, rec)
		}
	}
	if rec, err := read(good[:i]); err == nil {
		w.Fail("C14", "truncated accepted", "%s request cut to %d of %d bytes is read as %+v", kind, i, len(good), rec)
	}
}

func init() {
	g := func(n string, f func(*mcrt.World), q, t, r, rt int, props ...string) {
		mcrt.Register(&mcrt.Scenario{Name: n, Prop: "C08", Props: props, Run: f, Quick: q, Thorough: t, Race: r, RaceThorough: rt, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
	}
	g("sign-one", signOne, 0, 0, -1, -1)
	g("sign-history", signHistory(2), 0, 0, -1, -1)
	g("sign-history-3", signHistory(3), -1, 0, -1, -1)
	g("sign-par", signPar, 1, 2, 0, 1)
	g("sign-flip", signFlip, 0, 0, -1, -1, "C08", "C14")
}
