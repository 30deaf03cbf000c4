package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/api/v0/httpclient"
	httpingest "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	p2pclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	ingmodel "github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/httpserver"
	"github.com/filecoin-project/storetheindex/internal/libp2pserver"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

var someBytes = [][]byte{nil, {}, []byte("text"), {0}, {0xff, 0xfe, 0x00, 0x22, 0x5c}, bytes.Repeat([]byte{0xc3}, 100)}

var someAddrs = [][]multiaddr.Multiaddr{nil, {addr1}, {addr2, addr3}}

// refuses checks that no proper prefix and no extension of an encoding decodes.
func refuses(w *mcrt.World, what string, enc []byte, dec func([]byte) error) {
	for i := 0; i < len(enc); i++ {
		if dec(enc[:i]) == nil {
			w.Fail("C14", "malformed accepted", "%s: the first %d of %d bytes decode: %q", what, i, len(enc), enc[:i])
			return
		}
	}
	for _, junk := range []string{"x", "{}", "\x00", string(enc)} {
		if dec(append(append([]byte{}, enc...), junk...)) == nil {
			w.Fail("C14", "malformed accepted", "%s: %q decodes", what, append(append([]byte{}, enc...), junk...))
			return
		}
	}
}

func pickBytes(w *mcrt.World, what string) []byte { return someBytes[w.Choose(len(someBytes), what)] }

// encFind: find requests and responses.
func encFind(w *mcrt.World) {
	switch w.Pick("value", "request", "response 1", "response 2", "response order", "stats") {
	case "request":
		pool := [][]multihash.Multihash{nil, {}, mhs([]string{"m1"}), mhs([]string{"m1", "m2", "m1"}), {multihash.Multihash{0, 0}}, {multihash.Multihash(bytes.Repeat([]byte{7}, 130))}}
		v := pool[w.Choose(len(pool), "multihashes")]
		enc, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: v})
		if err != nil {
			w.Fail("C14", "not encoded", "find request %v: %v", v, err)
			return
		}
		d, err := model.UnmarshalFindRequest(enc)
		if err != nil {
			w.Fail("C14", "not decoded", "find request %v: %v", v, err)
			return
		}
		if fmt.Sprintf("%x", d.Multihashes) != fmt.Sprintf("%x", v) {
			w.Fail("C14", "changed", "find request %x became %x", v, d.Multihashes)
		}
		refuses(w, "find request", enc, func(b []byte) error { _, err := model.UnmarshalFindRequest(b); return err })
	case "response 1":
		pr := model.ProviderResult{ContextID: pickBytes(w, "context"), Metadata: pickBytes(w, "metadata"), Provider: peer.AddrInfo{ID: provA.ID, Addrs: someAddrs[w.Choose(3, "addresses")]}}
		checkResponse(w, &model.FindResponse{MultihashResults: []model.MultihashResult{{Multihash: sim.MH("m1"), ProviderResults: []model.ProviderResult{pr}}}})
	case "response 2":
		n := w.Choose(3, "multihashes")
		r := &model.FindResponse{}
		for i := 0; i < n; i++ {
			mr := model.MultihashResult{Multihash: sim.MH(fmt.Sprint("m", i+1))}
			for j := w.Choose(3, "results"); j > 0; j-- {
				mr.ProviderResults = append(mr.ProviderResults, model.ProviderResult{ContextID: pickBytes(w, "context"), Metadata: []byte(fmt.Sprint(i, j)), Provider: peer.AddrInfo{ID: []*sim.Peer{provA, provB}[j%2].ID, Addrs: someAddrs[(i+j)%3]}})
			}
			r.MultihashResults = append(r.MultihashResults, mr)
		}
		checkResponse(w, r)
	case "response order":
		a := model.ProviderResult{ContextID: pickBytes(w, "context"), Metadata: pickBytes(w, "metadata"), Provider: peer.AddrInfo{ID: provA.ID}}
		b := model.ProviderResult{ContextID: pickBytes(w, "context"), Metadata: pickBytes(w, "metadata"), Provider: peer.AddrInfo{ID: []*sim.Peer{provA, provB}[w.Choose(2, "provider")].ID}}
		want := bytes.Equal(a.ContextID, b.ContextID) && bytes.Equal(a.Metadata, b.Metadata) && a.Provider.ID == b.Provider.ID
		if a.Equal(b) != want || b.Equal(a) != want {
			w.Fail("C14", "equality", "%+v equal to %+v: %v", a, b, a.Equal(b))
		}
	case "stats":
		v := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}[w.Choose(7, "estimate")]
		enc, err := model.MarshalStats(&model.Stats{EntriesEstimate: v})
		if err != nil {
			w.Fail("C14", "not encoded", "stats %d: %v", v, err)
			return
		}
		d, err := model.UnmarshalStats(enc)
		if err != nil || d.EntriesEstimate != v {
			w.Fail("C14", "changed", "stats %d became %+v, %v", v, d, err)
		}
		refuses(w, "stats", enc, func(b []byte) error { _, err := model.UnmarshalStats(b); return err })
	}
}

func fullResponse(r *model.FindResponse) string {
	var out []string
	for _, m := range r.MultihashResults {
		out = append(out, fmt.Sprintf("%x:", []byte(m.Multihash)))
		for _, p := range m.ProviderResults {
			out = append(out, fmt.Sprintf("(%x %x %s %s)", p.ContextID, p.Metadata, p.Provider.ID, fmtAddrs(p.Provider.Addrs)))
		}
	}
	return strings.Join(out, " ")
}

func checkResponse(w *mcrt.World, r *model.FindResponse) {
	enc, err := model.MarshalFindResponse(r)
	if err != nil {
		w.Fail("C14", "not encoded", "find response %s: %v", fullResponse(r), err)
		return
	}
	d, err := model.UnmarshalFindResponse(enc)
	if err != nil {
		w.Fail("C14", "not decoded", "find response %s: %v", fullResponse(r), err)
		return
	}
	if fullResponse(d) != fullResponse(r) {
		w.Fail("C14", "changed", "find response\n  %s\nbecame\n  %s", fullResponse(r), fullResponse(d))
	}
	refuses(w, "find response", enc, func(b []byte) error { _, err := model.UnmarshalFindResponse(b); return err })
}

// encInfo: provider records.
func encInfo(w *mcrt.World) {
	ai := peer.AddrInfo{ID: provA.ID, Addrs: someAddrs[w.Choose(3, "addresses")]}
	ad := []cid.Cid{cid.Undef, sim.CID("ad"), cid.NewCidV0(sim.MH("ad"))}[w.Choose(3, "advertisement")]
	zone := []int{0, 3600, -3600, 19800, -12600, 50400}[w.Choose(6, "zone")]
	var when time.Time
	if w.Choose(2, "time") == 1 {
		when = time.Date(2022, 2, 28, 23, 59, 58, 0, time.FixedZone("z", zone))
	}
	pub := []peer.ID{"", provB.ID, provA.ID}[w.Choose(3, "publisher")]
	var pa multiaddr.Multiaddr
	if w.Choose(2, "publisher address") == 1 {
		pa = addr2
	}
	v := model.MakeProviderInfo(ai, ad, when, pub, pa)
	enc, err := json.Marshal(&v)
	if err != nil {
		w.Fail("C14", "not encoded", "provider info %+v: %v", v, err)
		return
	}
	var d model.ProviderInfo
	if err = json.Unmarshal(enc, &d); err != nil {
		w.Fail("C14", "not decoded", "provider info %s: %v", enc, err)
		return
	}
	bad := func(f string, args ...interface{}) {
		w.Fail("C14", "changed", "provider info %s: "+f, append([]interface{}{enc}, args...)...)
	}
	if d.AddrInfo.ID != ai.ID || fmtAddrs(d.AddrInfo.Addrs) != fmtAddrs(ai.Addrs) {
		bad("address info is %v", d.AddrInfo)
	}
	if d.LastAdvertisement != ad {
		bad("last advertisement is %v", d.LastAdvertisement)
	}
	if pub != "" && pa != nil {
		if d.Publisher == nil || d.Publisher.ID != pub || fmtAddrs(d.Publisher.Addrs) != pa.String() {
			bad("publisher is %v", d.Publisher)
		}
	} else if d.Publisher != nil {
		bad("publisher is %v", d.Publisher)
	}
	if ad != cid.Undef && !when.IsZero() {
		layout := "2006-01-02T15:04:05-0700"
		s := d.LastAdvertisementTime
		if strings.HasSuffix(s, "Z") {
			s = strings.TrimSuffix(s, "Z") + "+0000"
		}
		t, err := time.Parse(layout, s)
		if err != nil || !t.Equal(when) {
			bad("time %v became %q (%v)", when, d.LastAdvertisementTime, err)
		}
	}
	refuses(w, "provider info", enc, func(b []byte) error { var d model.ProviderInfo; return json.Unmarshal(b, &d) })
}

// encError: errors and their status.
func encError(w *mcrt.World) {
	status := []int{0, 400, 403, 404, 429, 500, 501, 502, 599}[w.Choose(9, "status")]
	msg := []string{"", "boom", "with \"quotes\" and \\ and <html> & unicode é", "line\nbreak"}[w.Choose(4, "message")]
	var inner error
	if msg != "" {
		inner = errors.New(msg)
	}
	var err error = v0.NewError(inner, status)
	switch w.Pick("kind", "api", "wrapped", "plain") {
	case "wrapped":
		err = fmt.Errorf("outer: %w", err)
		msg = "outer: " + v0.NewError(inner, status).Error()
	case "plain":
		if inner == nil {
			return
		}
		err = inner
		status = 0
	}
	has := func(how string, got error, st int, text string) {
		if got == nil {
			w.Fail("C14", "error lost", "%s: error %q with status %d became no error", how, msg, status)
			return
		}
		if st != 0 && !strings.Contains(got.Error(), fmt.Sprint(st)) {
			w.Fail("C14", "status lost", "%s: error %q with status %d became %q", how, msg, status, got)
		}
		if text != "" && !strings.Contains(got.Error(), text) {
			w.Fail("C14", "message lost", "%s: error %q with status %d became %q", how, msg, status, got)
		}
	}
	enc := v0.EncodeError(err)
	if len(enc) == 0 {
		w.Fail("C14", "error lost", "error %v is encoded as nothing", err)
		return
	}
	has("encoding", v0.DecodeError(enc), status, msg)
	for i := 1; i < len(enc); i++ {
		if v0.DecodeError(enc[:i]) == nil {
			w.Fail("C14", "error lost", "the first %d bytes of %q decode as no error", i, enc)
		}
	}
	// libp2p
	want := status
	if want == 0 {
		want = 400
	}
	if status == 0 && err != inner { // an API error without status
		want = 0
	}
	he := libp2pserver.HandleError(err, "test")
	text := msg
	if want >= 500 {
		text = ""
		if msg != "" && strings.Contains(he.Error(), "boom") {
			w.Fail("C14", "internal error shown", "libp2p: %q", he.Error())
		}
	}
	if he.Status() != want {
		w.Fail("C14", "status lost", "libp2p: error %v has status %d, want %d", err, he.Status(), want)
	}
	_ = text
	// HTTP
	if want == 0 {
		return
	}
	rr := httptest.NewRecorder()
	httpserver.HandleError(rr, err, "test")
	if rr.Code != want {
		w.Fail("C14", "status lost", "HTTP: error %v has status %d, want %d", err, rr.Code, want)
	}
	if want >= 500 && strings.Contains(rr.Body.String(), "boom") {
		w.Fail("C14", "internal error shown", "HTTP: %q", rr.Body.String())
	}
	if want < 500 && msg != "" && !strings.Contains(rr.Body.String(), msg) {
		w.Fail("C14", "message lost", "HTTP: error %v has body %q", err, rr.Body.String())
	}
	has("HTTP client", httpclient.ReadError(rr.Code, rr.Body.Bytes()), want, strings.TrimSpace(rr.Body.String()))
	has("HTTP client", httpclient.ReadErrorFrom(rr.Code, bytes.NewReader(rr.Body.Bytes())), want, strings.TrimSpace(rr.Body.String()))
}

// encSigned: what a request says is what is read.
func encSigned(w *mcrt.World) {
	switch w.Pick("kind", "register", "discover", "index") {
	case "register":
		as := someAddrs[w.Choose(3, "addresses")]
		var strs []string
		for _, a := range as {
			strs = append(strs, a.String())
		}
		b, err := ingmodel.MakeRegisterRequest(provA.ID, provA.Priv, strs)
		if len(as) == 0 {
			if err == nil {
				w.Fail("C14", "malformed accepted", "register request without address")
			}
			return
		}
		if err != nil {
			w.Fail("C14", "not encoded", "%v", err)
			return
		}
		r, err := ingmodel.ReadRegisterRequest(b)
		if err != nil || r.PeerID != provA.ID || fmtAddrs(r.Addrs) != fmtAddrs(as) || r.Seq == 0 {
			w.Fail("C14", "changed", "register request %v became %+v (%v)", strs, r, err)
		}
	case "discover":
		addr := []string{"", "t01234", "with \"quotes\" é"}[w.Choose(3, "address")]
		b, err := ingmodel.MakeDiscoverRequest(provA.ID, provA.Priv, addr)
		if err != nil {
			w.Fail("C14", "not encoded", "%v", err)
			return
		}
		r, err := ingmodel.ReadDiscoverRequest(b)
		if err != nil || r.ProviderID != provA.ID || r.DiscoveryAddr != addr || r.Seq == 0 {
			w.Fail("C14", "changed", "discover request %q became %+v (%v)", addr, r, err)
		}
	case "index":
		ctx, md := pickBytes(w, "context"), pickBytes(w, "metadata")
		as := [][]string{nil, {addr1.String()}, {addr1.String(), addr3.String()}}[w.Choose(3, "addresses")]
		b, err := ingmodel.MakeIngestRequest(provA.ID, provA.Priv, sim.MH("m1"), ctx, md, as)
		if err != nil {
			w.Fail("C14", "not encoded", "%v", err)
			return
		}
		r, err := ingmodel.ReadIngestRequest(b)
		if err != nil || r.ProviderID != provA.ID || !bytes.Equal(r.ContextID, ctx) || !bytes.Equal(r.Metadata, md) || fmt.Sprint(r.Addrs) != fmt.Sprint(as) || !bytes.Equal(r.Multihash, sim.MH("m1")) || r.Seq == 0 {
			w.Fail("C14", "changed", "index request %x %x %v became %+v (%v)", ctx, md, as, r, err)
		}
	}
}

type codec struct {
	name string
	enc  func(n datamodel.Node, b *bytes.Buffer) error
	dec  func(nb datamodel.NodeAssembler, b []byte) error
}

var codecs = []codec{
	{"dag-json", func(n datamodel.Node, b *bytes.Buffer) error { return dagjson.Encode(n, b) }, func(nb datamodel.NodeAssembler, b []byte) error { return dagjson.Decode(nb, bytes.NewReader(b)) }},
	{"dag-cbor", func(n datamodel.Node, b *bytes.Buffer) error { return dagcbor.Encode(n, b) }, func(nb datamodel.NodeAssembler, b []byte) error { return dagcbor.Decode(nb, bytes.NewReader(b)) }},
}

func lnk(s string) ipld.Link { return cidlink.Link{Cid: sim.CID(s)} }

// encAd: advertisements and entry chunks, loaded with their prototype or any.
func encAd(w *mcrt.World) {
	c := codecs[w.Choose(2, "codec")]
	anyProto := w.Choose(2, "loaded as any") == 1
	load := func(p datamodel.NodePrototype, enc []byte) (datamodel.Node, error) {
		if anyProto {
			p = basicnode.Prototype.Any
		}
		nb := p.NewBuilder()
		if err := c.dec(nb, enc); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	}
	if w.Choose(2, "what") == 0 {
		ad := schema.Advertisement{Provider: provA.ID.String(), Entries: lnk("e"), ContextID: pickBytes(w, "context"), Metadata: pickBytes(w, "metadata"), IsRm: w.Choose(2, "removal") == 1}
		if w.Choose(2, "previous") == 1 {
			ad.PreviousID = lnk("p")
		}
		if w.Choose(2, "entries") == 1 {
			ad.Entries = schema.NoEntries
		}
		ad.Addresses = [][]string{nil, {}, {addr1.String()}, {addr1.String(), "x"}}[w.Choose(4, "addresses")]
		if err := ad.Sign(provA.Priv); err != nil {
			w.Fail("C14", "not encoded", "signing: %v", err)
			return
		}
		n, err := ad.ToNode()
		if err != nil {
			w.Fail("C14", "not encoded", "advertisement %+v: %v", ad, err)
			return
		}
		var b bytes.Buffer
		if err = c.enc(n, &b); err != nil {
			w.Fail("C14", "not encoded", "advertisement %+v: %v", ad, err)
			return
		}
		n2, err := load(schema.AdvertisementPrototype, b.Bytes())
		if err != nil {
			w.Fail("C14", "not decoded", "%s advertisement %q: %v", c.name, b.Bytes(), err)
			return
		}
		ad2, err := schema.UnwrapAdvertisement(n2)
		if err != nil {
			w.Fail("C14", "not decoded", "%s advertisement %q: %v", c.name, b.Bytes(), err)
			return
		}
		if !sameAd(&ad, ad2) {
			w.Fail("C14", "changed", "%s: advertisement\n  %+v\nbecame\n  %+v", c.name, ad, *ad2)
		}
		if id, err := ad2.VerifySignature(); err != nil || id != provA.ID {
			w.Fail("C14", "changed", "%s: signature of a decoded advertisement: %v %v", c.name, id, err)
		}
		return
	}
	ch := schema.EntryChunk{Entries: [][]multihash.Multihash{nil, {}, mhs([]string{"m1"}), mhs([]string{"m2", "m1", "m2"})}[w.Choose(4, "entries")]}
	if w.Choose(2, "next") == 1 {
		ch.Next = lnk("n")
	}
	n, err := ch.ToNode()
	if err != nil {
		w.Fail("C14", "not encoded", "chunk: %v", err)
		return
	}
	var b bytes.Buffer
	if err = c.enc(n, &b); err != nil {
		w.Fail("C14", "not encoded", "chunk: %v", err)
		return
	}
	n2, err := load(schema.EntryChunkPrototype, b.Bytes())
	if err != nil {
		w.Fail("C14", "not decoded", "%s chunk %q: %v", c.name, b.Bytes(), err)
		return
	}
	ch2, err := schema.UnwrapEntryChunk(n2)
	if err != nil {
		w.Fail("C14", "not decoded", "%s chunk %q: %v", c.name, b.Bytes(), err)
		return
	}
	if fmt.Sprintf("%x", ch.Entries) != fmt.Sprintf("%x", ch2.Entries) || !reflect.DeepEqual(ch.Next, ch2.Next) {
		w.Fail("C14", "changed", "%s: chunk\n  %+v\nbecame\n  %+v", c.name, ch, *ch2)
	}
}

func sameAd(a, b *schema.Advertisement) bool {
	return reflect.DeepEqual(a.PreviousID, b.PreviousID) && a.Provider == b.Provider && fmt.Sprint(a.Addresses) == fmt.Sprint(b.Addresses) && len(a.Addresses) == len(b.Addresses) && bytes.Equal(a.Signature, b.Signature) && reflect.DeepEqual(a.Entries, b.Entries) && bytes.Equal(a.ContextID, b.ContextID) && bytes.Equal(a.Metadata, b.Metadata) && a.IsRm == b.IsRm
}

func infoText(ps []*model.ProviderInfo) string {
	var out []string
	for _, p := range ps {
		pub := ""
		if p.Publisher != nil {
			pub = p.Publisher.ID.String() + "@" + fmtAddrs(p.Publisher.Addrs)
		}
		out = append(out, fmt.Sprintf("%s@%s last %s %s pub %s", p.AddrInfo.ID, fmtAddrs(p.AddrInfo.Addrs), p.LastAdvertisement, p.LastAdvertisementTime, pub))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// encServed: what clients see of the registered providers and of statistics.
func encServed(w *mcrt.World) {
	s := newSys(w, "C14", regCfg(), false)
	kinds := []string{"none", "address", "advertisement", "both", "publisher"}
	var want []*model.ProviderInfo
	for _, p := range []*sim.Peer{provA, provB} {
		k := w.Pick(p.Name, kinds...)
		if k == "none" {
			continue
		}
		info := &model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{addr1}}}
		ad, pub := cid.Undef, peer.AddrInfo{}
		if k == "advertisement" || k == "both" {
			ad = sim.CID("ad" + p.Name)
			info.LastAdvertisement = ad
			info.LastAdvertisementTime = time.Now().UTC().Format("2006-01-02T15:04:05Z")
		}
		if k == "publisher" || k == "both" {
			pub = peer.AddrInfo{ID: provC.ID, Addrs: []multiaddr.Multiaddr{addr2}}
			info.Publisher = &pub
		}
		if err := s.reg.RegisterOrUpdate(bg, p.ID, []string{addr1.String()}, ad, pub); err != nil {
			w.Fail("C14", "register", "%v", err)
			return
		}
		want = append(want, info)
		time.Sleep(time.Hour)
	}
	for _, tr := range []string{"http", "libp2p"} {
		var got []*model.ProviderInfo
		var err error
		if tr == "http" {
			got, err = s.http().ListProviders(bg)
		} else {
			got, err = s.p2p().ListProviders(bg)
		}
		if err != nil {
			w.Fail("C14", "list", "%s: %v", tr, err)
			return
		}
		if infoText(got) != infoText(want) {
			w.Fail("C14", "list", "%s lists\n  %s\nwant\n  %s", tr, infoText(got), infoText(want))
		}
		for _, p := range []*sim.Peer{provA, provB, provC} {
			var exp []*model.ProviderInfo
			for _, x := range want {
				if x.AddrInfo.ID == p.ID {
					exp = append(exp, x)
				}
			}
			var g *model.ProviderInfo
			if tr == "http" {
				g, err = s.http().GetProvider(bg, p.ID)
			} else {
				g, err = s.p2p().GetProvider(bg, p.ID)
			}
			switch {
			case len(exp) == 0:
				if err == nil || !strings.Contains(err.Error(), "404") {
					w.Fail("C14", "get", "%s: unknown provider gives %v, %v", tr, g, err)
				}
			case err != nil || infoText([]*model.ProviderInfo{g}) != infoText(exp):
				w.Fail("C14", "get", "%s: provider is %v (%v)\nwant %s", tr, g, err, infoText(exp))
			}
		}
	}
	for _, u := range []string{"/providers", "/providers/" + provA.ID.String(), "/stats", "/health", "/multihash/" + sim.MH("m1").B58String()} {
		st, h, b, err := raw("GET", finderURL+u, "")
		if err != nil {
			w.Fail("C14", "request", "%s: %v", u, err)
			continue
		}
		if st == 200 && (!strings.HasPrefix(h.Get("Content-Type"), "application/json") || h.Get("Cache-Control") != "no-cache") {
			w.Fail("C14", "headers", "%s: the JSON response %.40q is declared as %v", u, b, h)
		}
		if st == 200 && !json.Valid(b) {
			w.Fail("C14", "body", "%s: %q", u, b)
		}
	}
	w.Observe("%s", infoText(want))
}

// encRefused: the status of refused requests reaches the client.
func encRefused(w *mcrt.World) {
	rc := regCfg()
	rc.Policy = config.Policy{Allow: true, Publish: true, Except: []string{provB.ID.String()}}
	s := newSys(w, "C14", rc, true)
	tr := w.Pick("transport", "http", "libp2p")
	what := w.Pick("request", "allowed", "blocked", "bad address", "index blocked", "index bad", "announce blocked")
	var err error
	want := ""
	hc, e := httpingest.New(ingestURL)
	if e != nil {
		panic(e)
	}
	pc, e := p2pclient.New(s.ch, me.ID)
	if e != nil {
		panic(e)
	}
	p := provA
	if strings.Contains(what, "blocked") {
		p = provB
	}
	switch what {
	case "allowed", "blocked":
		if tr == "http" {
			err = hc.Register(bg, p.ID, p.Priv, []string{addr1.String()})
		} else {
			err = pc.Register(bg, p.ID, p.Priv, []string{addr1.String()})
		}
		if what == "blocked" {
			want = "403"
		}
	case "bad address":
		if tr == "http" {
			err = hc.Register(bg, p.ID, p.Priv, []string{"/no/such"})
		} else {
			err = pc.Register(bg, p.ID, p.Priv, []string{"/no/such"})
		}
		want = "bad address"
	case "index blocked", "index bad":
		if tr == "http" {
			return
		}
		addrs := []string{addr1.String()}
		if what == "index bad" {
			addrs = []string{"/no/such"}
			want = "400"
		} else {
			want = "403"
		}
		err = pc.IndexContent(bg, p.ID, p.Priv, sim.MH("m1"), []byte("c"), []byte("m"), addrs)
	case "announce blocked":
		if tr != "http" {
			return
		}
		err = hc.Announce(bg, &peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{addr1}}, sim.CID("h"))
		want = "403"
	}
	if want == "" && err != nil || want != "" && (err == nil || !strings.Contains(err.Error(), want)) {
		w.Fail("C14", "status lost", "%s over %s: the client sees %v, want %q", what, tr, err, want)
	}
	w.Observe("%s %s %v", tr, what, err)
}

// encIngest: what a provider asks to be indexed, of any permitted size and
// kind, is indexed exactly, and what is too big is refused with no effect.
func encIngest(w *mcrt.World) {
	s := newSys(w, "C14", regCfg(), true)
	pc, e := p2pclient.New(s.ch, me.ID)
	if e != nil {
		panic(e)
	}
	sized := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		return b
	}
	m := sim.MH(w.Pick("multihash", "m1", "id-", "id-x", "s5-m1"))
	nc := w.Choose(5, "context length")
	nm := w.Choose(5, "metadata length")
	ctxID := sized([]int{1, 2, 63, 64, 65}[nc])
	md := sized([]int{1, 2, 1023, 1024, 1025}[nm])
	ok := nc < 4 && nm < 4
	before := ""
	if w.Choose(2, "already indexed") == 1 {
		if err := pc.IndexContent(bg, provA.ID, provA.Priv, m, []byte("first"), []byte("meta"), []string{addr1.String()}); err != nil {
			w.Fail("C14", "index refused", "a request to index is refused: %v", err)
			return
		}
		before = fmt.Sprintf("%x=%x ", "first", "meta")
		time.Sleep(time.Second)
	}
	err := pc.IndexContent(bg, provA.ID, provA.Priv, m, ctxID, md, []string{addr1.String()})
	if ok != (err == nil) {
		w.Fail("C14", "index limit", "a request to index with a context of %d bytes and metadata of %d bytes: %v", len(ctxID), len(md), err)
		return
	}
	want := before
	if ok {
		want += fmt.Sprintf("%x=%x ", ctxID, md)
	}
	r, err := s.p2p().Find(bg, m)
	if err != nil {
		w.Fail("C14", "find", "%v", err)
		return
	}
	got := ""
	for _, mr := range r.MultihashResults {
		if !bytes.Equal(mr.Multihash, m) {
			w.Fail("C14", "other multihash", "found %s, asked for %s", mr.Multihash, m)
		}
		for _, pr := range mr.ProviderResults {
			if pr.Provider.ID != provA.ID || len(pr.Provider.Addrs) != 1 || !pr.Provider.Addrs[0].Equal(addr1) {
				w.Fail("C14", "other provider", "found provider %v", pr.Provider)
			}
			got += fmt.Sprintf("%x=%x ", pr.ContextID, pr.Metadata)
		}
	}
	if got != want {
		w.Fail("C14", "indexed", "after a request to index (%d bytes of context, %d of metadata, accepted: %v) the index has %s, want %s", len(ctxID), len(md), ok, got, want)
	}
	w.Observe("%d %d %v", len(ctxID), len(md), ok)
}

var _ = http.StatusOK

func init() {
	g := func(n string, f func(*mcrt.World), q, t int) {
		mcrt.Register(&mcrt.Scenario{Name: n, Prop: "C14", Run: f, Quick: q, Thorough: t, Race: -1, RaceThorough: -1, Horizon: 400 * time.Hour, NoMap: true, NoSelect: true})
	}
	g("enc-find", encFind, 0, 0)
	g("enc-info", encInfo, 0, 0)
	g("enc-error", encError, 0, 0)
	g("enc-signed", encSigned, 0, 0)
	g("enc-ad", encAd, 0, 0)
	g("enc-served", encServed, 0, 0)
	g("enc-refused", encRefused, 0, 0)
	g("enc-ingest", encIngest, 0, 0)
}
