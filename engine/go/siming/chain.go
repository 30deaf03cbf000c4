package siming

import (
	"bytes"
	"context"
	"fmt"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/ipfs/go-cid"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/fluent"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/node/bindnode"
	"github.com/ipld/go-ipld-prime/storage/memstore"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/multiformats/go-multihash"
)

// AdSpec describes one advertisement of a chain.
type AdSpec struct {
	Kind   string // add, update, rm
	Prov   *sim.Peer
	Signer *sim.Peer // default: the provider
	Ctx    string
	Meta   string
	// Chunks are the multihash names of each entry chunk, first chunk first.
	Chunks [][]string
	// Hamt stores the entries as a HAMT.
	Hamt  bool
	Addrs []string
	// Mutate changes the advertisement after signing.
	Mutate func(*schema.Advertisement)
	// Presign changes the advertisement before signing.
	Presign func(*schema.Advertisement)
}

func (a AdSpec) String() string {
	n := "?"
	if a.Prov != nil {
		n = a.Prov.Name
	}
	return fmt.Sprintf("%s(%s,%s,%s,%v)", a.Kind, n, a.Ctx, a.Meta, a.Chunks)
}

// Ad is a published advertisement.
type Ad struct {
	AdSpec
	Cid     cid.Cid
	Entries []cid.Cid // blocks of the entries
}

// Blocks is a content-addressed store of block bytes.
type Blocks struct {
	M map[string][]byte // cid string -> bytes
}

func encode(n ipld.Node) ([]byte, cid.Cid) {
	var buf bytes.Buffer
	enc, err := multicodec.LookupEncoder(schema.Linkproto.Codec)
	if err != nil {
		panic(err)
	}
	if err = enc(n, &buf); err != nil {
		panic(err)
	}
	mh, err := multihash.Sum(buf.Bytes(), schema.Linkproto.MhType, schema.Linkproto.MhLength)
	if err != nil {
		panic(err)
	}
	return buf.Bytes(), cid.NewCidV1(schema.Linkproto.Codec, mh)
}

// PutNode stores a node.
func (b *Blocks) PutNode(n ipld.Node) cid.Cid {
	data, c := encode(n)
	b.M[c.String()] = data
	return c
}

// PutChunks stores a chain of chunks; the first chunk is returned first.
func (b *Blocks) PutChunks(chunks [][]multihash.Multihash) []cid.Cid {
	var next ipld.Link
	res := make([]cid.Cid, len(chunks))
	for i := len(chunks) - 1; i >= 0; i-- {
		n, err := schema.EntryChunk{Entries: chunks[i], Next: next}.ToNode()
		if err != nil {
			panic(err)
		}
		res[i] = b.PutNode(n)
		next = cidlink.Link{Cid: res[i]}
	}
	return res
}

// PutHamt stores multihashes as a HAMT; the root is returned first.
func (b *Blocks) PutHamt(mhs []multihash.Multihash, bucket int) []cid.Cid {
	store := &memstore.Store{Bag: map[string][]byte{}}
	lsys := cidlink.DefaultLinkSystem()
	lsys.SetReadStorage(store)
	lsys.SetWriteStorage(store)
	builder := hamt.NewBuilder(hamt.Prototype{BitWidth: 3, BucketSize: bucket}).WithLinking(lsys, schema.Linkproto)
	ma, err := builder.BeginMap(int64(len(mhs)))
	if err != nil {
		panic(err)
	}
	for _, mh := range mhs {
		if err = ma.AssembleKey().AssignString(string(mh)); err != nil {
			panic(err)
		}
		if err = ma.AssembleValue().AssignBool(true); err != nil {
			panic(err)
		}
	}
	if err = ma.Finish(); err != nil {
		panic(err)
	}
	hm := builder.Build().(*hamt.Node)
	lnk, err := lsys.Store(linking.LinkContext{Ctx: context.Background()}, schema.Linkproto, hm.Substrate())
	if err != nil {
		panic(err)
	}
	root := lnk.(cidlink.Link).Cid
	res := []cid.Cid{root}
	for k, v := range store.Bag {
		_, c, err := cid.CidFromBytes([]byte(k))
		if err != nil {
			panic(err)
		}
		b.M[c.String()] = v
		if c != root {
			res = append(res, c)
		}
	}
	return res
}

var _ = bindnode.Wrap
var _ = fluent.Reflect
var _ = basicnode.Prototype

// MHs converts names.
func MHs(names []string) []multihash.Multihash {
	var r []multihash.Multihash
	for _, n := range names {
		r = append(r, sim.MH(n))
	}
	return r
}

// Publish adds an advertisement after prev (Undef: first).
func (b *Blocks) Publish(prev cid.Cid, s AdSpec) Ad {
	ad := schema.Advertisement{
		Provider:  s.Prov.ID.String(),
		Addresses: s.Addrs,
		Entries:   schema.NoEntries,
		ContextID: []byte(s.Ctx),
		Metadata:  []byte(s.Meta),
		IsRm:      s.Kind == "rm",
	}
	if ad.Addresses == nil {
		ad.Addresses = []string{"/ip4/10.0.0.1/tcp/1234"}
	}
	if prev != cid.Undef {
		ad.PreviousID = cidlink.Link{Cid: prev}
	}
	res := Ad{AdSpec: s}
	if s.Kind == "add" || len(s.Chunks) > 0 {
		if s.Hamt {
			var all []multihash.Multihash
			for _, ch := range s.Chunks {
				all = append(all, MHs(ch)...)
			}
			res.Entries = b.PutHamt(all, 1)
		} else {
			var cs [][]multihash.Multihash
			for _, ch := range s.Chunks {
				cs = append(cs, MHs(ch))
			}
			res.Entries = b.PutChunks(cs)
		}
		ad.Entries = cidlink.Link{Cid: res.Entries[0]}
	}
	if s.Presign != nil {
		s.Presign(&ad)
	}
	signer := s.Signer
	if signer == nil {
		signer = s.Prov
	}
	if err := ad.Sign(signer.Priv); err != nil {
		panic(err)
	}
	if s.Mutate != nil {
		s.Mutate(&ad)
	}
	n, err := ad.ToNode()
	if err != nil {
		panic(err)
	}
	res.Cid = b.PutNode(n)
	return res
}

// SignedHead is what a publisher answers when asked for its head.
func SignedHead(c cid.Cid, key crypto.PrivKey) []byte {
	sig, err := key.Sign(c.Bytes())
	if err != nil {
		panic(err)
	}
	pk, err := crypto.MarshalPublicKey(key.GetPublic())
	if err != nil {
		panic(err)
	}
	n := fluent.MustBuildMap(basicnode.Prototype.Map, 3, func(m fluent.MapAssembler) {
		m.AssembleEntry("head").AssignLink(cidlink.Link{Cid: c})
		m.AssembleEntry("sig").AssignBytes(sig)
		m.AssembleEntry("pubkey").AssignBytes(pk)
	})
	var buf bytes.Buffer
	if err = dagjson.Encode(n, &buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}
