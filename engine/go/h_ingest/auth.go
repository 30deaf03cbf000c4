package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// pol is a policy over the peers of the world, as a table.
type pol struct {
	allow, publish         bool
	allowExc, publishExc   map[string]bool
	allowList, publishList []string
}

func pickPol(w *mcrt.World, allowOf, pubOf []*sim.Peer) pol {
	p := pol{allowExc: map[string]bool{}, publishExc: map[string]bool{}}
	p.allow = w.Choose(2, "allow default") == 0
	for _, x := range allowOf {
		if w.Choose(2, "allow exception "+x.Name) == 1 {
			p.allowExc[x.Name] = true
			p.allowList = append(p.allowList, x.ID.String())
		}
	}
	p.publish = w.Choose(2, "publish default") == 0
	for _, x := range pubOf {
		if w.Choose(2, "publish exception "+x.Name) == 1 {
			p.publishExc[x.Name] = true
			p.publishList = append(p.publishList, x.ID.String())
		}
	}
	return p
}

func (p pol) cfg() config.Policy {
	return config.Policy{Allow: p.allow, Except: p.allowList, Publish: p.publish, PublishExcept: p.publishList}
}
func (p pol) allowed(x *sim.Peer) bool { return p.allow != p.allowExc[x.Name] }
func (p pol) mayPub(x *sim.Peer) bool  { return p.publish != p.publishExc[x.Name] }
func (p pol) String() string {
	return fmt.Sprintf("allow=%v except %v, publish=%v except %v", p.allow, keys(p.allowExc), p.publish, keys(p.publishExc))
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// regDump is everything the registry shows.
func (s *sys) regDump() string {
	var r []string
	for _, pi := range s.reg.AllProviderInfo() {
		b, err := json.Marshal(pi)
		if err != nil {
			panic(err)
		}
		r = append(r, siming.Names[pi.AddrInfo.ID]+" "+string(b))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func (s *sys) put(p *sim.Peer, ctx, meta string, names ...string) {
	if err := s.ix.Put(indexer.Value{ProviderID: p.ID, ContextID: []byte(ctx), MetadataBytes: []byte(meta)}, siming.MHs(names)...); err != nil {
		panic(err)
	}
}

var authKinds = []string{"add", "update", "rm"}

func authAd(kind string, prov *sim.Peer) siming.AdSpec {
	a := siming.AdSpec{Kind: kind, Prov: prov, Ctx: "c1", Meta: "new"}
	if kind == "add" {
		a.Chunks = [][]string{{"m4"}, {"m5"}}
	}
	return a
}

// failBoth reports a failure that also means that a policy is not enforced.
func failBoth(w *mcrt.World, prop, class, format string, args ...interface{}) {
	w.Fail(prop, class, format, args...)
	w.Fail("C04", class, format, args...)
}

// authPolicy: who may advertise what for whom, under every policy.
func authPolicy(allowOf, pubOf []*sim.Peer, kinds []string, full bool) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		po := pickPol(w, allowOf, pubOf)
		publisher := []*sim.Peer{provA, pubP}[w.Choose(2, "publisher")]
		signer := []*sim.Peer{provA, pubP, provB}[w.Choose(3, "signer")]
		kind := w.Pick("kind", kinds...)
		how := w.Pick("trigger", "sync", "announce")
		prior := "new"
		if po.allowed(provA) {
			prior = w.Pick("provider", "new", "known")
		}
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(publisher, 1)
		web := siming.NewWeb(p)
		rc := regCfg()
		rc.Policy = po.cfg()
		s := newSys(w, ds, ix, rc, ingCfg())
		if prior == "known" {
			err := s.reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: provA.ID, Addrs: []multiaddr.Multiaddr{sim.MA("/ip4/10.9.9.9/tcp/99")}}})
			if err != nil {
				w.Fail("C04", "register", "an allowed provider was not registered: %v", err)
				return
			}
		}
		s.put(provA, "c1", "old", "m1", "m2")
		s.put(provB, "c1", "old", "m1", "m3")
		m := siming.NewModel()
		m.Apply(siming.AdSpec{Kind: "add", Prov: provA, Ctx: "c1", Meta: "old", Chunks: [][]string{{"m1", "m2"}}})
		m.Apply(siming.AdSpec{Kind: "add", Prov: provB, Ctx: "c1", Meta: "old", Chunks: [][]string{{"m1", "m3"}}})
		before, regBefore := m.Contents(allMH), s.regDump()
		a := authAd(kind, provA)
		a.Signer = signer
		p.Add(a)
		m.Apply(a)
		what := fmt.Sprintf("%s for A signed by %s published by %s (%s provider, %s) under %s", kind, signer.Name, publisher.Name, prior, how, po)

		signOK := signer == provA || po.mayPub(signer)
		ok := signOK && po.allowed(provA) && (publisher == provA || po.allowed(publisher) && po.mayPub(publisher))
		if how == "announce" {
			ok = ok && po.allowed(publisher)
			err := s.announce(p, p.Head)
			if err == nil && !po.allowed(publisher) {
				settle()
			}
			settle()
			if !po.allowed(publisher) && len(web.Log) > 0 {
				failBoth(w, "C10", "fetch for blocked", "%s: an announcement of a peer that is not allowed caused fetches %v", what, web.Log)
			}
		} else {
			if _, done := s.sync(p, 10*time.Minute); !done {
				w.Fail("C09", "sync hangs", "%s: sync does not complete", what)
				return
			}
			settle()
		}
		got := ix.Contents(allMH)
		want := before
		if ok {
			want = m.Contents(allMH)
		}
		if got != want {
			if ok {
				failBoth(w, "C03", "authorised without effect", "%s: the advertisement should have taken effect\n got: %s\nwant: %s", what, got, want)
			} else {
				failBoth(w, "C03", "unauthorised effect", "%s: the advertisement must have no effect\n got: %s\nwant: %s", what, got, want)
			}
			return
		}
		if !ok {
			if r := s.regDump(); r != regBefore {
				failBoth(w, "C03", "unauthorised registration", "%s: the advertisement must have no effect\nregistry: %s\n  before: %s", what, r, regBefore)
			}
		} else {
			s.checkRegistered(what, provA, p.Head, []string{"/ip4/10.0.0.1/tcp/1234"}, p)
		}
		w.Observe("%v %s", ok, got)
	}
}

// oldPayload and newPayload are written from the protocol, not from the code.
func sigContent(ad *schema.Advertisement) []byte {
	var b bytes.Buffer
	if ad.PreviousID != nil {
		b.Write(ad.PreviousID.(cidlink.Link).Cid.Bytes())
	}
	b.Write(ad.Entries.(cidlink.Link).Cid.Bytes())
	b.WriteString(ad.Provider)
	for _, a := range ad.Addresses {
		b.WriteString(a)
	}
	b.Write(ad.Metadata)
	if ad.IsRm {
		b.WriteByte(1)
	} else {
		b.WriteByte(0)
	}
	return b.Bytes()
}

type sigRec struct {
	domain, codec string
	data          []byte
}

func (r *sigRec) Domain() string                 { return r.domain }
func (r *sigRec) Codec() []byte                  { return []byte(r.codec) }
func (r *sigRec) MarshalRecord() ([]byte, error) { return r.data, nil }
func (r *sigRec) UnmarshalRecord(b []byte) error { r.data = b; return nil }

func seal(domain, codec string, data []byte, p *sim.Peer) []byte {
	e, err := record.Seal(&sigRec{domain: domain, codec: codec, data: data}, p.Priv)
	if err != nil {
		panic(err)
	}
	b, err := e.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

const (
	sigDomain = "indexer"
	sigCodec  = "/indexer/ingest/adSignature"
)

func sum(b []byte) []byte {
	h := sha256.Sum256(b)
	m, err := multihash.Encode(h[:], multihash.SHA2_256)
	if err != nil {
		panic(err)
	}
	return m
}

// alteration is a change of a signed advertisement. ok: still authentic.
type alteration struct {
	name  string
	class string // other than the usual class of a violation
	ok    bool
	f     func(ad *schema.Advertisement, x *authWorld)
}

type authWorld struct {
	w     *mcrt.World
	p     *siming.Pub
	other cid.Cid // entries of somebody else
	old   siming.Ad
}

func fromHash(n byte) ipld.Link {
	return cidlink.Link{Cid: sim.CID(fmt.Sprintf("nothing %d", n))}
}

var alterations = []alteration{
	{"nothing", "", true, func(ad *schema.Advertisement, x *authWorld) {}},
	{"previous removed", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.PreviousID = nil }},
	{"entries swapped", "", false, func(ad *schema.Advertisement, x *authWorld) {
		if ad.Entries.(cidlink.Link).Cid == x.other {
			ad.Entries = schema.NoEntries
		} else {
			ad.Entries = cidlink.Link{Cid: x.other}
		}
	}},
	{"entries removed or added", "", false, func(ad *schema.Advertisement, x *authWorld) {
		if ad.Entries == schema.NoEntries {
			ad.Entries = cidlink.Link{Cid: x.other}
		} else {
			ad.Entries = schema.NoEntries
		}
	}},
	{"provider B", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Provider = provB.ID.String() }},
	{"provider as CID of B", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Provider = peer.ToCid(provB.ID).String() }},
	{"provider empty", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Provider = "" }},
	{"addresses other", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Addresses = []string{"/ip4/10.6.6.6/tcp/666"} }},
	{"addresses more", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Addresses = append(append([]string{}, ad.Addresses...), "/ip4/10.6.6.6/tcp/666")
	}},
	{"addresses none", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Addresses = []string{} }},
	{"metadata other", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Metadata = []byte("evil") }},
	{"metadata last byte", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Metadata = append([]byte{}, ad.Metadata...)
		ad.Metadata[len(ad.Metadata)-1] ^= 1
	}},
	{"metadata longer", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Metadata = append(append([]byte{}, ad.Metadata...), 0)
	}},
	{"removal flag", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.IsRm = !ad.IsRm }},
	{"context", "context not signed", false, func(ad *schema.Advertisement, x *authWorld) { ad.ContextID = []byte("c2") }},
	{"address tail into metadata", "field boundaries not signed", false, func(ad *schema.Advertisement, x *authWorld) {
		n := len(ad.Addresses) - 1
		l := len(ad.Addresses[n]) - 1
		ad.Metadata = append([]byte{ad.Addresses[n][l]}, ad.Metadata...)
		ad.Addresses = append(append([]string{}, ad.Addresses[:n]...), ad.Addresses[n][:l])
	}},
	{"signature empty", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Signature = nil }},
	{"signature short", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Signature = ad.Signature[:len(ad.Signature)-1] }},
	{"signature of the previous advertisement", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Signature = oldSig(x) }},
	{"signed by B", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, sum(sigContent(ad)), provB)
	}},
	{"sealed anew", "", true, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, sum(sigContent(ad)), provA)
	}},
	{"other domain", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal("libp2p-peer-record", sigCodec, sum(sigContent(ad)), provA)
	}},
	{"other payload", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, sum([]byte("else")), provA)
	}},
	{"empty payload", "", false, func(ad *schema.Advertisement, x *authWorld) { ad.Signature = seal(sigDomain, sigCodec, nil, provA) }},
	{"old format", "", true, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, oldPayload(ad), provA)
	}},
	{"old format by B", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, oldPayload(ad), provB)
	}},
	{"old format, metadata other", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, oldPayload(ad), provA)
		ad.Metadata = []byte("evil")
	}},
	{"old format, provider B", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, oldPayload(ad), provA)
		ad.Provider = provB.ID.String()
	}},
	{"old format, removal flag", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, oldPayload(ad), provA)
		ad.IsRm = !ad.IsRm
	}},
	{"old format, entries", "", false, func(ad *schema.Advertisement, x *authWorld) {
		ad.Signature = seal(sigDomain, sigCodec, oldPayload(ad), provA)
		if ad.Entries == schema.NoEntries {
			ad.Entries = cidlink.Link{Cid: x.other}
		} else {
			ad.Entries = schema.NoEntries
		}
	}},
	{"old format cut", "", false, func(ad *schema.Advertisement, x *authWorld) {
		o := oldPayload(ad)
		ad.Signature = seal(sigDomain, sigCodec, o[:len(o)-1], provA)
	}},
}

func oldPayload(ad *schema.Advertisement) []byte {
	m, err := multihash.Encode(sigContent(ad), multihash.SHA2_256)
	if err != nil {
		panic(err)
	}
	return m
}

func oldSig(x *authWorld) []byte {
	ad := schema.Advertisement{Provider: provA.ID.String(), Addresses: []string{"/ip4/10.0.0.1/tcp/1234"}, Entries: cidlink.Link{Cid: x.old.Entries[0]}, ContextID: []byte("c1"), Metadata: []byte("old")}
	if err := ad.Sign(provA.Priv); err != nil {
		panic(err)
	}
	return ad.Signature
}

// authAlter: an advertisement in any position of a chain is altered after
// signing; what follows in the chain is authentic. Later the publisher
// publishes a proper continuation.
func authAlter(flips bool) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		kind := w.Pick("kind", authKinds...)
		var al alteration
		flip := -1
		if !flips {
			names := make([]string, len(alterations))
			for i, a := range alterations {
				names[i] = a.name
			}
			n := w.Pick("alteration", names...)
			for _, a := range alterations {
				if a.name == n {
					al = a
				}
			}
		}
		pos := w.Choose(2, "position")
		how := w.Pick("trigger", "sync", "announce")
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		p := siming.NewPub(provA, 1)
		siming.NewWeb(p)
		rc := regCfg()
		rc.Policy.Publish = false
		s := newSys(w, ds, ix, rc, ingCfg())
		if err := s.reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: provB.ID, Addrs: []multiaddr.Multiaddr{sim.MA("/ip4/10.9.9.9/tcp/99")}}}); err != nil {
			panic(err)
		}
		s.put(provB, "c1", "old", "m1", "m3")
		m := siming.NewModel()
		m.Apply(siming.AdSpec{Kind: "add", Prov: provB, Ctx: "c1", Meta: "old", Chunks: [][]string{{"m1", "m3"}}})
		x := &authWorld{w: w, p: p, other: p.PutChunks([][]multihash.Multihash{siming.MHs([]string{"m6"})})[0]}
		x.old = p.Add(siming.AdSpec{Kind: "add", Prov: provA, Ctx: "c1", Meta: "old", Chunks: [][]string{{"m1", "m2"}}})
		m.Apply(x.old.AdSpec)
		if !s.trigger("sync", p) {
			return
		}
		settle()
		good := p.Head
		a := authAd(kind, provA)
		if flips {
			a.Mutate = func(ad *schema.Advertisement) {
				flip = w.Choose(len(ad.Signature), "byte")
				bit := []byte{1, 0x10, 0x80}[w.Choose(3, "bit")]
				ad.Signature = append([]byte{}, ad.Signature...)
				before, _ := record.UnmarshalEnvelope(ad.Signature)
				ad.Signature[flip] ^= bit
				// A change of the encoding only is no alteration.
				if e, r, err := consume(ad.Signature); err == nil && bytes.Equal(r.data, sum(sigContent(ad))) && e.PublicKey.Equals(before.PublicKey) {
					al.ok = true
				}
			}
		} else {
			f := al.f
			a.Mutate = func(ad *schema.Advertisement) { f(ad, x) }
		}
		before, regBefore := m.Contents(allMH), s.regDump()
		m2 := m.Clone()
		m2.Apply(a)
		p.Add(a)
		what := fmt.Sprintf("%s with %q (byte %d) position %d by %s", kind, al.name, flip, pos, how)
		if pos == 1 {
			next := siming.AdSpec{Kind: "add", Prov: provA, Ctx: "c9", Meta: "next", Chunks: [][]string{{"m7"}}}
			p.Add(next)
			m2.Apply(next)
		}
		if how == "announce" {
			s.announce(p, p.Head)
			settle()
		} else if _, done := s.sync(p, 10*time.Minute); !done {
			w.Fail("C09", "sync hangs", "%s: sync does not complete", what)
			return
		}
		settle()
		got := ix.Contents(allMH)
		if al.ok {
			if want := m2.Contents(allMH); got != want {
				w.Fail("C03", "authentic without effect", "%s: the advertisement should have taken effect\n got: %s\nwant: %s", what, got, want)
			}
			w.Observe("ok %s", got)
			return
		}
		class := "altered effect"
		if al.class != "" {
			class = al.class
		}
		if got != before {
			w.Fail("C03", class, "%s: the altered advertisement must have no effect\n got: %s\nwant: %s", what, got, before)
			return
		}
		if r := s.regDump(); r != regBefore {
			w.Fail("C03", class, "%s: the altered advertisement must have no effect\nregistry: %s\n  before: %s", what, r, regBefore)
			return
		}
		// The publisher goes on with a proper chain.
		p.Head = good
		p.Ads = p.Ads[:1]
		fix := siming.AdSpec{Kind: "add", Prov: provA, Ctx: "c3", Meta: "fix", Chunks: [][]string{{"m8"}}}
		p.Add(fix)
		m.Apply(fix)
		if !s.trigger(how, p) {
			return
		}
		settle()
		if got, want := ix.Contents(allMH), m.Contents(allMH); got != want {
			w.Fail("C03", "stuck after altered", "%s: after that a proper chain is not ingested\n got: %s\nwant: %s", what, got, want)
		}
		w.Observe("no %s", ix.Contents(allMH))
	}
}

func consume(sig []byte) (*record.Envelope, *sigRec, error) {
	r := &sigRec{domain: sigDomain, codec: sigCodec}
	e, err := record.ConsumeTypedEnvelope(sig, r)
	return e, r, err
}

func init() {
	reg := func(name string, quick, thorough int, wt int, run func(w *mcrt.World)) {
		props := []string{"C03"}
		if strings.HasPrefix(name, "ing-auth-policy") {
			props = append(props, "C10", "C04")
		}
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C03", Props: props, Run: run, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Weight: wt, Horizon: 400 * time.Hour})
	}
	reg("ing-auth-policy", 0, -1, 2, authPolicy([]*sim.Peer{provA, pubP}, []*sim.Peer{pubP, provB}, authKinds, false))
	reg("ing-auth-policy-all", -1, 0, 6, authPolicy([]*sim.Peer{provA, pubP, provB}, []*sim.Peer{pubP, provB, provA}, authKinds, true))
	reg("ing-auth-alter", 0, 0, 2, authAlter(false))
	reg("ing-auth-flip", 0, 0, 2, authAlter(true))
}
