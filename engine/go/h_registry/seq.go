package main

import (
	"fmt"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
)

const seqAge = 48 * time.Hour

// seqHistory: all sequences of requests and passing of time.
func seqHistory(depth int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		cfg := baseCfg()
		tick := 24 * time.Hour
		cfg.PollRetryAfter = config.Duration(tick)
		r := mustReg(w, cfg, nil, nil)
		start := clockNow()
		last := map[string]uint64{}
		var hist []string
		var seen []uint64
		for i := 0; i < depth; i++ {
			now := uint64(time.Now().UnixNano())
			oldest := now - uint64(seqAge)
			k := w.Choose(13, "step")
			var seq uint64
			who := "A"
			switch k {
			case 0:
				seq = now
			case 1:
				seq = oldest
			case 2:
				seq = oldest - 1
			case 3:
				seq = oldest + 1
			case 4, 5, 6: // again, or next to the last accepted
				if last["A"] == 0 {
					continue
				}
				seq = last["A"] + uint64(k) - 5
			case 7:
				seq = now
				who = "B"
			case 8:
				if len(seen) == 0 {
					continue
				}
				seq = seen[0]
			case 9:
				time.Sleep(time.Nanosecond)
				hist = append(hist, "+1ns")
				continue
			case 10:
				time.Sleep(30 * time.Hour)
				hist = append(hist, "+30h")
				continue
			case 11: // to the next clean-up
				e := clockNow() - start
				time.Sleep((e/tick+1)*tick - e)
				mcrt.Settle()
				hist = append(hist, "clean-up")
				continue
			case 12:
				seq = now + uint64(time.Hour)
			}
			want := seq >= oldest && seq > last[who]
			err := r.CheckSequence(peers[who].ID, seq)
			hist = append(hist, fmt.Sprintf("%s now%+d: %v", who, int64(seq-now), err == nil))
			if (err == nil) != want {
				w.Fail("C08", "sequence", "request of %s with sequence now%+dns accepted=%v, want %v (history %v)", who, int64(seq-now), err == nil, want, hist)
				return
			}
			if want {
				last[who] = seq
				seen = append(seen, seq)
			}
		}
		w.Observe("%v", hist)
	}
}

// seqPar: concurrent requests with the clean-up.
func seqPar(threads int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		cfg := baseCfg()
		cfg.PollRetryAfter = config.Duration(24 * time.Hour)
		r := mustReg(w, cfg, nil, nil)
		t0 := uint64(time.Now().UnixNano())
		var last uint64
		switch w.Choose(3, "before") {
		case 1:
			last = t0
		case 2:
			last = t0 + 1
		}
		if last != 0 {
			if err := r.CheckSequence(provA.ID, last); err != nil {
				w.Fail("C08", "sequence", "%v", err)
			}
		}
		// t0 is the oldest allowed at the time of the second clean-up
		if w.Choose(2, "at clean-up") == 1 {
			time.Sleep(48 * time.Hour)
		}
		type sc struct {
			who        string
			seq        uint64
			start, end int
			ok         bool
		}
		var cs []*sc
		var fs []func()
		clock := 0
		prev := 0
		cands := []sc{{who: "A", seq: t0}, {who: "A", seq: t0 + 1}, {who: "A", seq: t0 + 2}, {who: "B", seq: t0}}
		for i := 0; i < threads; i++ {
			k := prev + w.Choose(len(cands)-prev, "request")
			prev = k
			c := cands[k]
			cs = append(cs, &c)
			fs = append(fs, func() {
				clock++
				c.start = clock
				c.ok = r.CheckSequence(peers[c.who].ID, c.seq) == nil
				clock++
				c.end = clock
			})
		}
		w.Par(fs...)
		var rec func(cs []*sc, last map[string]uint64) bool
		rec = func(cs []*sc, last map[string]uint64) bool {
			if len(cs) == 0 {
				return true
			}
			for i, c := range cs {
				first := true
				for j, d := range cs {
					if j != i && d.end < c.start {
						first = false
					}
				}
				if !first || c.ok != (c.seq > last[c.who]) {
					continue
				}
				n := map[string]uint64{"A": last["A"], "B": last["B"]}
				if c.ok {
					n[c.who] = c.seq
				}
				if rec(append(append([]*sc{}, cs[:i]...), cs[i+1:]...), n) {
					return true
				}
			}
			return false
		}
		var ds []string
		for _, c := range cs {
			ds = append(ds, fmt.Sprintf("%s+%d[%d-%d]=%v", c.who, c.seq-t0, c.start, c.end, c.ok))
		}
		w.Observe("%v", ds)
		if !rec(cs, map[string]uint64{"A": last}) {
			w.Fail("C08", "concurrent requests", "accepted requests %v are explained by no order (last accepted before: %d)", ds, last)
		}
	}
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "seq-history", Prop: "C08", Run: seqHistory(4), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 500 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "seq-history6", Prop: "C08", Run: seqHistory(6), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 500 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "seq-par", Prop: "C08", Run: seqPar(3), Quick: 2, Thorough: 4, Race: 1, RaceThorough: 2, Horizon: 500 * time.Hour})
}
