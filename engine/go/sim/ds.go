// Package sim holds the simulated environment of the harnesses: datastore with
// crash points and faults, peers and keys, publisher, indexer core wrapper.
package sim

import (
	"context"
	"errors"
	"sort"
	"strings"
	"sync"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
)

// ErrInjected is the error of injected faults.
var ErrInjected = errors.New("injected fault")

// Op is one operation of the write log.
type Op struct {
	Kind string // put, del, sync
	Key  string
	Val  []byte
}

// DS is an in-memory datastore that logs its writes.
type DS struct {
	mu  sync.Mutex
	m   map[string][]byte
	log []Op
	// Fault, when set, decides whether an operation fails (before it has any
	// effect).
	Fault func(kind, key string) error
	// Points makes every write a scheduling point.
	Points bool
	// Closed counts calls of Close, Late the writes after it.
	Closed, Late int
}

// NewDS returns an empty datastore.
func NewDS() *DS { return &DS{m: map[string][]byte{}} }

var _ datastore.Batching = (*DS)(nil)

func (d *DS) pre(kind string, key string) error {
	if d.Points {
		mcrt.Point()
	}
	if d.Fault != nil {
		return d.Fault(kind, key)
	}
	return nil
}

// Get implements datastore.
func (d *DS) Get(_ context.Context, k datastore.Key) ([]byte, error) {
	if err := d.pre("get", k.String()); err != nil {
		return nil, err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[k.String()]
	if !ok {
		return nil, datastore.ErrNotFound
	}
	return append([]byte(nil), v...), nil
}

// Has implements datastore.
func (d *DS) Has(_ context.Context, k datastore.Key) (bool, error) {
	if err := d.pre("has", k.String()); err != nil {
		return false, err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	_, ok := d.m[k.String()]
	return ok, nil
}

// GetSize implements datastore.
func (d *DS) GetSize(_ context.Context, k datastore.Key) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[k.String()]
	if !ok {
		return -1, datastore.ErrNotFound
	}
	return len(v), nil
}

// Put implements datastore.
func (d *DS) Put(_ context.Context, k datastore.Key, v []byte) error {
	if err := d.pre("put", k.String()); err != nil {
		return err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	v = append([]byte(nil), v...)
	d.m[k.String()] = v
	if d.Closed > 0 {
		d.Late++
	}
	d.log = append(d.log, Op{"put", k.String(), v})
	return nil
}

// Delete implements datastore.
func (d *DS) Delete(_ context.Context, k datastore.Key) error {
	if err := d.pre("del", k.String()); err != nil {
		return err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	delete(d.m, k.String())
	d.log = append(d.log, Op{"del", k.String(), nil})
	return nil
}

// Sync implements datastore.
func (d *DS) Sync(_ context.Context, k datastore.Key) error {
	if err := d.pre("sync", k.String()); err != nil {
		return err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.log = append(d.log, Op{"sync", k.String(), nil})
	return nil
}

// Close implements datastore.
func (d *DS) Close() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Closed++
	d.log = append(d.log, Op{"sync", "/", nil})
	return nil
}

// Query implements datastore. Results are in key order.
func (d *DS) Query(_ context.Context, q query.Query) (query.Results, error) {
	if err := d.pre("query", q.Prefix); err != nil {
		return nil, err
	}
	d.mu.Lock()
	var es []query.Entry
	pre := q.Prefix
	if pre != "" && pre != "/" {
		pre = datastore.NewKey(pre).String() + "/"
	}
	for k, v := range d.m {
		if strings.HasPrefix(k, pre) {
			es = append(es, query.Entry{Key: k, Value: append([]byte(nil), v...), Size: len(v)})
		}
	}
	d.mu.Unlock()
	sort.Slice(es, func(i, j int) bool { return es[i].Key < es[j].Key })
	q2 := q
	q2.Prefix = ""
	return query.NaiveQueryApply(q2, query.ResultsWithEntries(q, es)), nil
}

// Batch implements datastore.
func (d *DS) Batch(context.Context) (datastore.Batch, error) { return &batch{d: d}, nil }

type batch struct {
	d   *DS
	ops []Op
}

func (b *batch) Put(_ context.Context, k datastore.Key, v []byte) error {
	b.ops = append(b.ops, Op{"put", k.String(), v})
	return nil
}

func (b *batch) Delete(_ context.Context, k datastore.Key) error {
	b.ops = append(b.ops, Op{"del", k.String(), nil})
	return nil
}

func (b *batch) Commit(ctx context.Context) error {
	for _, o := range b.ops {
		var err error
		if o.Kind == "put" {
			err = b.d.Put(ctx, datastore.RawKey(o.Key), o.Val)
		} else {
			err = b.d.Delete(ctx, datastore.RawKey(o.Key))
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// Len is the number of operations in the log.
func (d *DS) Len() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.log)
}

// Synced is the number of log operations up to and including the last sync at
// or before position n.
func (d *DS) Synced(n int) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	s := 0
	for i := 0; i < n && i < len(d.log); i++ {
		if d.log[i].Kind == "sync" {
			s = i + 1
		}
	}
	return s
}

// At returns a new datastore with the first n operations of the log: what is
// found after a crash.
func (d *DS) At(n int) *DS {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := NewDS()
	for _, o := range d.log[:n] {
		switch o.Kind {
		case "put":
			r.m[o.Key] = o.Val
		case "del":
			delete(r.m, o.Key)
		}
	}
	r.log = append(r.log, d.log[:n]...)
	return r
}

// Keys returns the sorted keys with the prefix.
func (d *DS) Keys(prefix string) []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var ks []string
	for k := range d.m {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// Dump is a snapshot of the contents.
func (d *DS) Dump() map[string]string {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := map[string]string{}
	for k, v := range d.m {
		r[k] = string(v)
	}
	return r
}
