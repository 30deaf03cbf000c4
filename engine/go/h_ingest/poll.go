package main

import (
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
)

// pollLife: a provider whose publisher is reachable or not for some time, and
// another one that always is and has nothing new to say.
func pollLife(n int, steps []string) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		const interval, retry, stop = 12 * time.Minute, 2 * time.Minute, 36 * time.Minute
		ds := sim.NewDS()
		ix := siming.NewIndex(ds)
		pa, pb := siming.NewPub(provA, 1), siming.NewPub(provB, 2)
		web := siming.NewWeb(pa, pb)
		down := false
		web.Fault = func(host, _ string) (int, time.Duration) {
			if down && host == pa.Host {
				return -1, 0
			}
			return 0, 0
		}
		rc := regCfg()
		rc.PollInterval, rc.PollRetryAfter, rc.PollStopAfter = config.Duration(interval), config.Duration(retry), config.Duration(stop)
		s := newSys(w, ds, ix, rc, ingCfg())
		m := siming.NewModel()
		i := 0
		publish := func(p *siming.Pub, kind string) {
			a := adKind(kind, i, p.Peer)
			i++
			p.Add(a)
			m.Apply(a)
		}
		publish(pb, "add2")
		publish(pa, "add2")
		if !s.trigger("sync", pb) || !s.trigger("announce", pa) {
			return
		}
		settle()
		// state of A: there, unsure (being polled), gone
		state := "there"
		var desc []string
		check := func() bool {
			what := strings.Join(desc, ", ")
			onlyB := m.Clone()
			onlyB.Drop("A")
			got, both, b := s.found(allMH), m.Contents(allMH), onlyB.Contents(allMH)
			if strings.Contains(got, "A/") && state != "gone" {
				b = both
			}
			want := map[string]string{"there": both, "unsure": b, "gone": b}[state]
			if got != want {
				prop := "C12"
				if state == "gone" {
					prop = "C19"
				}
				w.Fail(prop, "find differs", "%s: find answers differ (A is %s)\n got: %s\nwant: %s", what, state, got, want)
				return false
			}
			mcrt.Settle()
			if state == "gone" {
				both = b
			}
			if got := ix.Contents(allMH); got != both {
				w.Fail("C05", "index changed", "%s: after a find, the index differs (A is %s)\n got: %s\nwant: %s", what, state, got, both)
				return false
			}
			if r := s.reg.IsRegistered(provA.ID); r == (state == "gone") {
				w.Fail("C12", "registration", "%s: A is registered: %v", what, r)
				return false
			}
			return true
		}
		for k := 0; k < n; k++ {
			step := w.Pick("step", steps...)
			desc = append(desc, step)
			switch step {
			case "idle": // reachable, nothing new
				time.Sleep(interval + stop + 3*retry)
			case "quiet": // reachable again or still, for some time
				time.Sleep(interval/2 + 2*retry)
			case "short": // not reachable for a while
				down = true
				time.Sleep(interval / 2)
				if state == "there" {
					state = "unsure"
				}
				check()
				down = false
				time.Sleep(2*retry + 20*time.Second)
			case "mid": // long enough to be deactivated, not removed
				down = true
				time.Sleep(interval + 4*retry)
				if state == "there" {
					state = "unsure"
				}
				check()
				if state == "unsure" && s.reg.ProviderInfo(provA.ID) != nil {
					w.Fail("C12", "not deactivated", "%s: A is not deactivated", strings.Join(desc, ", "))
					return
				}
				down = false
				time.Sleep(2*retry + 20*time.Second)
			case "long":
				down = true
				time.Sleep(interval + stop + interval + 3*retry)
				state = "gone"
				check()
				down = false
				time.Sleep(retry)
			case "publish": // found by polling, if at all
				publish(pa, "other")
				time.Sleep(interval + 3*retry)
			case "announce":
				publish(pa, "add")
				if !s.trigger("announce", pa) {
					return
				}
				state = "there"
			case "restart":
				s.restart()
				time.Sleep(3 * retry)
			}
			if w.Failed() {
				return
			}
			settle()
			if state == "unsure" {
				state = "there"
			}
			if !check() {
				return
			}
		}
		w.Observe("%s %s", state, ix.Contents(allMH))
	}
}

func init() {
	steps := []string{"idle", "quiet", "short", "mid", "long", "publish", "announce", "restart"}
	mcrt.Register(&mcrt.Scenario{Name: "ing-poll", Prop: "C12", Props: []string{"C12", "C19", "C05"}, Run: pollLife(3, steps), Quick: 0, Thorough: -1, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 4000 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "ing-poll-4", Prop: "C12", Props: []string{"C12", "C19", "C05"}, Run: pollLife(4, steps), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Weight: 2, Horizon: 4000 * time.Hour})
}
