package siming

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// IxOp is one write to the index.
type IxOp struct {
	Kind string // put, rm, rmprov, rmctx, flush
	Val  indexer.Value
	Mhs  []multihash.Multihash
	// DS is the length of the datastore log when the write completed.
	DS int
}

// Index is the real in-memory index with a log of its writes.
type Index struct {
	indexer.Interface
	mu     sync.Mutex
	Log    []IxOp
	DS     *sim.DS
	Fault  func(kind string) error
	Points bool
}

// NewIndex makes an empty index.
func NewIndex(ds *sim.DS) *Index {
	return &Index{Interface: engine.New(nil, memory.New()), DS: ds}
}

func (x *Index) pre(kind string) error {
	if x.Points {
		mcrt.Point()
	}
	if x.Fault != nil {
		return x.Fault(kind)
	}
	return nil
}

func (x *Index) add(o IxOp) {
	x.mu.Lock()
	if x.DS != nil {
		o.DS = x.DS.Len()
	}
	x.Log = append(x.Log, o)
	x.mu.Unlock()
}

// Put implements indexer.Interface.
func (x *Index) Put(v indexer.Value, mhs ...multihash.Multihash) error {
	if err := x.pre("put"); err != nil {
		return err
	}
	err := x.Interface.Put(v, mhs...)
	if err == nil {
		x.add(IxOp{Kind: "put", Val: v, Mhs: append([]multihash.Multihash(nil), mhs...)})
	}
	return err
}

// Remove implements indexer.Interface.
func (x *Index) Remove(v indexer.Value, mhs ...multihash.Multihash) error {
	if err := x.pre("rm"); err != nil {
		return err
	}
	err := x.Interface.Remove(v, mhs...)
	if err == nil {
		x.add(IxOp{Kind: "rm", Val: v, Mhs: append([]multihash.Multihash(nil), mhs...)})
	}
	return err
}

// RemoveProvider implements indexer.Interface.
func (x *Index) RemoveProvider(ctx context.Context, p peer.ID) error {
	if err := x.pre("rmprov"); err != nil {
		return err
	}
	err := x.Interface.RemoveProvider(ctx, p)
	if err == nil {
		x.add(IxOp{Kind: "rmprov", Val: indexer.Value{ProviderID: p}})
	}
	return err
}

// RemoveProviderContext implements indexer.Interface.
func (x *Index) RemoveProviderContext(p peer.ID, ctx []byte) error {
	if err := x.pre("rmctx"); err != nil {
		return err
	}
	err := x.Interface.RemoveProviderContext(p, ctx)
	if err == nil {
		x.add(IxOp{Kind: "rmctx", Val: indexer.Value{ProviderID: p, ContextID: ctx}})
	}
	return err
}

// Flush implements indexer.Interface.
func (x *Index) Flush() error {
	if err := x.pre("flush"); err != nil {
		return err
	}
	err := x.Interface.Flush()
	if err == nil {
		x.add(IxOp{Kind: "flush"})
	}
	return err
}

// Flushed is the number of writes, of the first n, that a crash cannot undo:
// the index commits writes when it is flushed (or earlier).
func (x *Index) Flushed(n int) int {
	for ; n > 0; n-- {
		if x.Log[n-1].Kind == "flush" {
			return n
		}
	}
	return 0
}

// At returns a new index with the first n writes.
func (x *Index) At(n int, ds *sim.DS) *Index {
	r := NewIndex(ds)
	for _, o := range x.Log[:n] {
		switch o.Kind {
		case "put":
			r.Interface.Put(o.Val, o.Mhs...)
		case "rm":
			r.Interface.Remove(o.Val, o.Mhs...)
		case "rmprov":
			r.Interface.RemoveProvider(context.Background(), o.Val.ProviderID)
		case "rmctx":
			r.Interface.RemoveProviderContext(o.Val.ProviderID, o.Val.ContextID)
		}
		o.DS = 0
		r.Log = append(r.Log, o)
	}
	return r
}

// Names maps peers to names for printing.
var Names = map[peer.ID]string{}

// Contents looks up the multihashes by name and prints the records.
func (x *Index) Contents(names []string) string {
	var out []string
	for _, n := range names {
		vs, found, err := x.Interface.Get(sim.MH(n))
		if err != nil {
			out = append(out, n+"=ERR "+err.Error())
			continue
		}
		if !found {
			continue
		}
		var rs []string
		for _, v := range vs {
			rs = append(rs, fmt.Sprintf("%s/%s/%s", Names[v.ProviderID], v.ContextID, v.MetadataBytes))
		}
		sort.Strings(rs)
		if len(rs) > 0 {
			out = append(out, n+"="+strings.Join(rs, ","))
		}
	}
	return strings.Join(out, " ")
}

// Model is the reference index: (provider/context) -> metadata and multihashes.
type Model struct {
	meta map[string]string
	mhs  map[string]map[string]bool
}

// NewModel makes an empty one.
func NewModel() *Model {
	return &Model{meta: map[string]string{}, mhs: map[string]map[string]bool{}}
}

// Apply applies one advertisement.
func (m *Model) Apply(a AdSpec) {
	k := a.Prov.Name + "/" + a.Ctx
	switch a.Kind {
	case "rm":
		delete(m.meta, k)
		delete(m.mhs, k)
	case "update":
		if len(m.mhs[k]) > 0 {
			m.meta[k] = a.Meta
		}
	case "add":
		for _, ch := range a.Chunks {
			for _, n := range ch {
				if m.mhs[k] == nil {
					m.mhs[k] = map[string]bool{}
				}
				m.mhs[k][n] = true
				m.meta[k] = a.Meta
			}
		}
	}
}

// Drop removes a provider.
func (m *Model) Drop(prov string) {
	for k := range m.meta {
		if strings.HasPrefix(k, prov+"/") {
			delete(m.meta, k)
			delete(m.mhs, k)
		}
	}
}

// Contents prints the records like Index.Contents.
func (m *Model) Contents(names []string) string {
	var out []string
	for _, n := range names {
		var rs []string
		for k, s := range m.mhs {
			if s[n] {
				rs = append(rs, k+"/"+m.meta[k])
			}
		}
		sort.Strings(rs)
		if len(rs) > 0 {
			out = append(out, n+"="+strings.Join(rs, ","))
		}
	}
	return strings.Join(out, " ")
}

// Without leaves out the records with one of the given prefixes.
func Without(contents string, prefixes []string) string {
	var out []string
	for _, f := range strings.Fields(contents) {
		i := strings.Index(f, "=")
		var rs []string
	next:
		for _, r := range strings.Split(f[i+1:], ",") {
			for _, p := range prefixes {
				if strings.HasPrefix(r, p) {
					continue next
				}
			}
			rs = append(rs, r)
		}
		if len(rs) > 0 {
			out = append(out, f[:i+1]+strings.Join(rs, ","))
		}
	}
	return strings.Join(out, " ")
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	r := NewModel()
	for k, v := range m.meta {
		r.meta[k] = v
	}
	for k, s := range m.mhs {
		r.mhs[k] = map[string]bool{}
		for n := range s {
			r.mhs[k][n] = true
		}
	}
	return r
}
