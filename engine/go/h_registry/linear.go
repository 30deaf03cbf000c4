package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
)

var linOps = []op{
	{kind: "update", prov: "A", addrs: []int{11}},
	{kind: "update", prov: "A", ad: "ad7"},
	{kind: "update", prov: "A", pub: "Q", pubAd: 61},
	{kind: "update", prov: "A", pub: "P", pubAd: 64},
	{kind: "register", prov: "A", addrs: []int{12}, pub: "P", pubAd: 62},
	{kind: "remove", prov: "A"},
	{kind: "update", prov: "A", addrs: []int{13}, ad: "ad8", pub: "A", pubAd: 63},
	{kind: "read", prov: "A"},
	{kind: "list", prov: "A"},
	{kind: "discover", prov: "A", disc: "t01"},
	{kind: "update", prov: "B", addrs: []int{14}, ad: "ad9"},
}

type call struct {
	o          op
	start, end int
	err        error
	got        state // reads
	reg        bool
}

// snap is a snapshot handed out by the registry and what it was then.
type snap struct {
	info *registry.ProviderInfo
	was  string
}

func snapOf(i *registry.ProviderInfo) snap { return snap{i, snapStr(i)} }
func snapStr(i *registry.ProviderInfo) string {
	return fmt.Sprintf("%s deleted=%v inactive=%v", fromInfo(i), i.Deleted(), i.Inactive())
}

func (c *call) exec(r *registry.Registry, clock *int, snaps *[]snap) {
	*clock++
	c.start = *clock
	switch c.o.kind {
	case "read":
		i := r.ProviderInfo(peers[c.o.prov].ID)
		c.got = state{}
		if i != nil {
			c.got[c.o.prov] = fromInfo(i)
			*snaps = append(*snaps, snapOf(i))
		}
	case "list":
		c.got = state{}
		for _, i := range r.AllProviderInfo() {
			c.got[names[i.AddrInfo.ID]] = fromInfo(i)
			*snaps = append(*snaps, snapOf(i))
		}
	default:
		c.err = c.o.run(r)
	}
	*clock++
	c.end = *clock
}

// linearize looks for an order of the calls that explains all results and the
// final state.
func linearize(calls []*call, s state, final state, now int64) bool {
	if len(calls) == 0 {
		return same(s, final)
	}
	for i, c := range calls {
		first := true
		for j, d := range calls {
			if j != i && d.end < c.start {
				first = false
			}
		}
		if !first {
			continue
		}
		rest := append(append([]*call{}, calls[:i]...), calls[i+1:]...)
		switch c.o.kind {
		case "read":
			want := state{}
			if v, ok := s[c.o.prov]; ok {
				want[c.o.prov] = v
			}
			if same(want, c.got) && linearize(rest, s, final, now) {
				return true
			}
		case "list":
			if same(s, c.got) && linearize(rest, s, final, now) {
				return true
			}
		default:
			n, refuse := c.o.apply(s, now)
			if c.o.kind == "discover" && c.err != nil {
				// in progress or too soon: no effect
				if linearize(rest, s, final, now) {
					return true
				}
				continue
			}
			if refuse != (c.err != nil) {
				continue
			}
			if linearize(rest, n, final, now) {
				return true
			}
		}
	}
	return false
}

func linear(threads int, ops []op, persist bool) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		cfg := baseCfg()
		var ds *sim.DS
		if persist {
			ds = sim.NewDS()
		}
		r := mustReg(w, cfg, ds, &disco{})
		(&drain{}).run(r)
		cur := state{}
		if w.Choose(2, "initial") == 0 {
			for _, o := range []op{
				{kind: "register", prov: "A", addrs: []int{1}, pub: "P", pubAd: 60},
				{kind: "update", prov: "A", ad: "ad1"},
			} {
				if err := o.run(r); err != nil {
					w.Fail("C07", "setup", "%v: %v", o, err)
					return
				}
				cur, _ = o.apply(cur, time.Now().UnixNano())
			}
		}
		var snaps []snap
		for _, i := range r.AllProviderInfo() {
			snaps = append(snaps, snapOf(i))
		}
		now := time.Now().UnixNano()
		var calls []*call
		var fs []func()
		clock := 0
		prev := 0
		for i := 0; i < threads; i++ {
			// the order of identical threads does not matter
			k := prev + w.Choose(len(ops)-prev, "op")
			prev = k
			c := &call{o: ops[k]}
			calls = append(calls, c)
			fs = append(fs, func() { c.exec(r, &clock, &snaps) })
		}
		w.Par(fs...)
		final := read(r)
		for n, p := range peers {
			_, have := final[n]
			if r.IsRegistered(p.ID) != have {
				w.Fail("C07", "inconsistent views", "%s: listed %v, registered %v", n, have, !have)
			}
		}
		var d []string
		for _, c := range calls {
			d = append(d, fmt.Sprintf("%v[%d-%d]=%v", c.o, c.start, c.end, c.err))
		}
		w.Observe("%s %v", show(final), d)
		if !linearize(calls, cur, final, now) {
			w.Fail("C07", "not linearizable", "no order of %s from %s explains the final state %s", strings.Join(d, ", "), show(cur), show(final))
		}
		for _, s := range snaps {
			if n := snapStr(s.info); n != s.was {
				w.Fail("C07", "snapshot changed", "a provider record handed out as %s is now %s", s.was, n)
			}
		}
		if ds != nil {
			// what is stored is the same as what is served
			r2 := mustReg(w, cfg, ds.At(ds.Synced(ds.Len())), nil)
			if got := read(r2); !same(final, got) {
				w.Fail("C07", "stored state differs", "served %s, stored %s", show(final), show(got))
			}
		}
	}
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-linear-2", Prop: "C07", Run: linear(2, linOps, true), Quick: 2, Thorough: 5, Race: 1, RaceThorough: 2})
	mcrt.Register(&mcrt.Scenario{Name: "reg-linear-3", Prop: "C07", Run: linear(3, linOps, false), Quick: 2, Thorough: 3, Race: 0, RaceThorough: 1})
}
