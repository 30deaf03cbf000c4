package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
)

var durOps = []op{
	{kind: "register", prov: "A", addrs: []int{1}, pub: "A", pubAd: 1},
	{kind: "register", prov: "A", addrs: []int{2, 3}},
	{kind: "update", prov: "A", addrs: []int{4}, ad: "ad1", pub: "P", pubAd: 50},
	{kind: "update", prov: "A", ad: "ad2"},
	{kind: "update", prov: "A", addrs: []int{5}, pub: "P", pubAd: 51},
	{kind: "update", prov: "A", addrs: []int{6}, ad: "ad1"},
	{kind: "remove", prov: "A"},
	{kind: "discover", prov: "A", disc: "t01000"},
	{kind: "register", prov: "B", addrs: []int{7}, pub: "P", pubAd: 52},
	{kind: "update", prov: "B", addrs: []int{8}, ad: "ad3", pub: "B", pubAd: 53},
	{kind: "remove", prov: "B"},
	{kind: "restart"},
}

type step struct {
	o       op
	lo, hi  int // log positions around the operation
	acked   bool
	state   state // after
	prev    state
	anyPrev bool // unspecified fields
}

func durable(depth int, faults bool) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		cfg := baseCfg()
		cfg.RediscoverWait = 0
		ds := sim.NewDS()
		d := &disco{}
		r := mustReg(w, cfg, ds, d)
		(&drain{}).run(r)
		cur := state{}
		var steps []step
		var failKind string
		failAt := -1
		if faults {
			failAt = w.Choose(depth, "failing step")
			failKind = w.Pick("failing write", "put", "sync", "del")
		}
		n := 1 + w.Choose(depth, "length")
		if faults {
			n = depth
		}
		for i := 0; i < n; i++ {
			o := durOps[w.Choose(len(durOps), "op")]
			time.Sleep(time.Second)
			if o.kind == "restart" {
				if err := r.Close(); err != nil {
					w.Fail("C06", "close", "Close failed: %v", err)
				}
				r = mustReg(w, cfg, ds, d)
				(&drain{}).run(r)
				if got := read(r); !same(cur, got) {
					w.Fail("C06", "restart", "after a clean restart the registry has %s, want %s (history %v)", show(got), show(cur), hist(steps))
				}
				continue
			}
			w.Logf("op %v", o)
			st := step{o: o, lo: ds.Len(), prev: cur}
			hit := false
			if i == failAt {
				ds.Fault = func(kind, key string) error {
					if kind == failKind && strings.Contains(key, "/registry/") {
						hit = true
						return sim.ErrInjected
					}
					return nil
				}
			}
			next, refuse := o.apply(cur, time.Now().UnixNano())
			err := o.run(r)
			ds.Fault = nil
			st.hi = ds.Len()
			if hit {
				if err == nil {
					w.Fail("C06", "swallowed write error", "%v was acknowledged although %s failed (history %v)", o, failKind, hist(steps))
				}
				// Whether the change is kept is open; the others are not touched.
				got := read(r)
				for k := range cur {
					if k != o.prov && !match(cur[k], got[k]) {
						w.Fail("C06", "other provider changed", "%v changed %s", o, k)
					}
				}
				return
			}
			if refuse {
				if err == nil {
					w.Fail("C06", "accepted", "%v was acknowledged but cannot be valid in state %s", o, show(cur))
				}
				next = cur
			} else if err != nil {
				w.Fail("C06", "refused", "%v failed in state %s: %v", o, show(cur), err)
				return
			}
			cur = next
			got := read(r)
			if !same(cur, got) {
				w.Fail("C06", "state", "after %v the registry has %s, want %s (history %v)", o, show(got), show(cur), hist(steps))
				return
			}
			st.acked, st.state = true, cur
			steps = append(steps, st)
		}
		w.Observe("%s", show(cur))
		if faults {
			return
		}
		r.Close()
		// Every crash point, and every loss of what was not yet synced.
		total := ds.Len()
		seen := map[int]bool{}
		for c := 0; c <= total; c++ {
			for k := ds.Synced(c); k <= c; k++ {
				if seen[k*1000+c] {
					continue
				}
				seen[k*1000+c] = true
				// allowed: the state after the last acknowledged step, or
				// with the step in progress done
				want := []state{{}}
				for _, s := range steps {
					if s.hi <= c {
						want = []state{s.state}
					} else if s.lo < c {
						want = append(want, s.state)
					}
				}
				r2 := mustReg(w, cfg, ds.At(k), nil)
				got := read(r2)
				ok := false
				for _, s := range want {
					if same(s, got) {
						ok = true
					}
				}
				if !ok {
					w.Fail("C06", "crash", "crash after %d of %d writes (%d synced, %d kept): registry has %s, want %s (history %v)", c, total, ds.Synced(c), k, show(got), show(want[0]), hist(steps))
					return
				}
				r2.Close()
			}
		}
	}
}

func hist(st []step) string {
	var s []string
	for _, x := range st {
		s = append(s, fmt.Sprint(x.o))
	}
	return strings.Join(s, "; ")
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-durable-3", Prop: "C06", Run: durable(3, false), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1})
	mcrt.Register(&mcrt.Scenario{Name: "reg-durable-4", Prop: "C06", Run: durable(4, false), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1})
	mcrt.Register(&mcrt.Scenario{Name: "reg-durable-fault", Prop: "C06", Run: durable(3, true), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1})
}
