package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
)

type pollCfg struct{ interval, retry, stop time.Duration }

const pm = time.Minute

var pollCfgs = []pollCfg{
	{2 * pm, 1 * pm, 4 * pm},
	{3 * pm, 1 * pm, 2 * pm},
	{1 * pm, 2 * pm, 5 * pm},
	{6 * pm, 1 * pm, 9 * pm},
}

// pstate is the model of the polling of one provider.
type pstate struct {
	name     string
	cfg      pollCfg
	known    bool // contact since start
	contact  time.Duration
	reg      bool
	inactive bool
	hasPub   bool
	pub      string
	pubAd    int
	due      bool // must be removed, at the latest when signals get through
}

// check is what one poll check must do. Returned: "" | "poll" | "delete".
func (p *pstate) check(now time.Duration) string {
	if !p.reg || !p.hasPub {
		return ""
	}
	if !p.known {
		p.known = true
		p.contact = now - p.cfg.interval
		return ""
	}
	nc := now - p.contact
	if nc < p.cfg.interval {
		return ""
	}
	since := nc - p.cfg.interval
	if since >= p.cfg.stop {
		return "delete"
	}
	if since >= 2*p.cfg.retry {
		p.inactive = true
	}
	return "poll"
}

func clockNow() time.Duration { return time.Duration(time.Now().UnixNano() - mcrt.T0) }

// polling explores histories of contacts between poll checks. two: two
// providers, the second with an override of the polling parameters.
func polling(provs []string, ncfg, checks int, override, restart, lazy bool) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		def := pollCfgs[w.Choose(ncfg, "polling config")]
		cfg := baseCfg()
		cfg.PollInterval, cfg.PollRetryAfter, cfg.PollStopAfter = config.Duration(def.interval), config.Duration(def.retry), config.Duration(def.stop)
		per := map[string]pollCfg{}
		tick := def.retry
		for _, p := range provs {
			per[p] = def
		}
		if override {
			who := provs[w.Choose(len(provs), "overridden")]
			o := pollCfgs[w.Choose(ncfg, "override config")]
			cfg.PollOverrides = []config.Polling{{ProviderID: peers[who].ID.String(), Interval: config.Duration(o.interval), RetryAfter: config.Duration(o.retry), StopAfter: config.Duration(o.stop)}}
			per[who] = o
			if o.retry < tick {
				tick = o.retry
			}
		}
		if tick < pm {
			tick = pm
		}
		ds := sim.NewDS()
		r := mustReg(w, cfg, ds, nil)
		start := clockNow()
		d := &drain{}
		slow := false
		if lazy {
			slow = w.Choose(2, "consumer is slow") == 1
		}
		if !slow {
			d.run(r)
		}
		ms := map[string]*pstate{}
		addr := 20
		contact := func(p string) {
			addr++
			o := op{kind: "update", prov: p, addrs: []int{addr}, pub: p, pubAd: addr, ad: fmt.Sprint("ad", addr)}
			if err := o.run(r); err != nil {
				w.Fail("C12", "contact refused", "%v: %v", o, err)
			}
			ms[p].known, ms[p].contact, ms[p].reg, ms[p].inactive, ms[p].hasPub = true, clockNow(), true, false, true
			ms[p].pub, ms[p].pubAd = p, addr
		}
		for i, p := range provs {
			ms[p] = &pstate{name: p, cfg: per[p]}
			switch w.Choose(3, "how "+p+" is registered") {
			case 0:
				contact(p)
			case 1: // never heard from
				addr++
				o := op{kind: "register", prov: p, addrs: []int{addr}, pub: "P", pubAd: 70 + i}
				if err := o.run(r); err != nil {
					w.Fail("C12", "register", "%v", err)
					return
				}
				ms[p].reg, ms[p].hasPub = true, true
				ms[p].pub, ms[p].pubAd = "P", 70+i
			case 2: // no publisher: never polled
				if restart {
					// covered by the runs without restart
					contact(p)
					break
				}
				addr++
				o := op{kind: "register", prov: p, addrs: []int{addr}}
				if err := o.run(r); err != nil {
					w.Fail("C12", "register", "%v", err)
					return
				}
				ms[p].reg = true
			}
		}
		seen := 0
		var hist []string
		deletedSig := map[string]int{}
		var snaps []snap
		for c := 1; c <= checks; c++ {
			// middle of the slot: contacts
			time.Sleep(start + time.Duration(c-1)*tick + tick/2 - clockNow())
			if restart && c == 3 && w.Choose(2, "restart") == 1 {
				r.Close()
				mcrt.Settle()
				r = mustReg(w, cfg, ds, nil)
				start = clockNow() - time.Duration(c-1)*tick
				d = &drain{}
				d.run(r)
				seen = 0
				for _, p := range provs {
					ms[p].known, ms[p].inactive = false, false
				}
				hist = append(hist, "restart")
				time.Sleep(time.Second)
			}
			if c == 2 && len(provs) == 1 && !restart && w.Choose(2, "publishing for others is denied") == 1 {
				cfg.Policy.Publish = false
				if err := r.SetPolicy(cfg.Policy); err != nil {
					panic(err)
				}
			}
			for _, p := range provs {
				n := 2
				if len(provs) == 1 && !restart && (c == 2 || c == 4) {
					n = 3
				}
				switch w.Choose(n, "contact "+p) {
				case 1:
					contact(p)
					hist = append(hist, fmt.Sprintf("%v contact %s", clockNow(), p))
				case 2:
					// registers again, which keeps its publisher
					addr++
					o := op{kind: "register", prov: p, addrs: []int{addr}}
					if err := o.run(r); err != nil {
						w.Fail("C12", "contact refused", "%v: %v", o, err)
					}
					if !ms[p].reg {
						ms[p].hasPub = false
					}
					ms[p].reg, ms[p].known, ms[p].inactive = true, false, false
					hist = append(hist, fmt.Sprintf("%v register %s", clockNow(), p))
				}
			}
			// after the check
			at := start + time.Duration(c)*tick
			time.Sleep(at + time.Second - clockNow())
			mcrt.Settle()
			sigs := d.got[seen:]
			seen = len(d.got)
			if slow {
				// one signal fits in the channel; read it now
				select {
				case i, ok := <-r.SyncChan():
					if ok {
						sigs = []sig{{names[i.AddrInfo.ID], i.Deleted(), at, i}}
					}
				default:
				}
			}
			got := map[string]string{}
			for _, s := range sigs {
				k := "poll"
				if s.deleted {
					k = "delete"
					deletedSig[s.prov]++
				}
				if got[s.prov] != "" {
					w.Fail("C12", "polled twice", "check at %v: %s signalled twice (history %v)", at, s.prov, hist)
				}
				got[s.prov] = k
				if m := ms[s.prov]; m != nil && (names[s.info.Publisher] != m.pub || s.info.PublisherAddr == nil || !s.info.PublisherAddr.Equal(sim.Addr(m.pubAd))) {
					w.Fail("C12", "wrong publisher", "check at %v: %s is to be polled at %s %v, its publisher is %s %v (history %v)", at, s.prov, names[s.info.Publisher], s.info.PublisherAddr, m.pub, sim.Addr(m.pubAd), hist)
				}
				hist = append(hist, fmt.Sprintf("%v %s %s", at, k, s.prov))
			}
			nwant, list := 0, r.AllProviderInfo()
			for _, p := range provs {
				m := ms[p]
				want := m.check(at)
				if want != "" {
					nwant++
				}
				if got[p] != "" && got[p] != want {
					w.Fail("C12", "wrong signal", "check at %v: provider %s got %q, want %q (config %v, override %v, history %v)", at, p, got[p], want, def, per[p], hist)
				}
				if got[p] == "" && want != "" && len(provs) == 1 {
					w.Fail("C12", "no signal", "check at %v: provider %s got no %s signal (config %v, override %v, history %v)", at, p, want, def, per[p], hist)
				}
				isReg := r.IsRegistered(peers[p].ID)
				if want == "delete" {
					if got[p] == "delete" {
						m.reg = false
						if isReg {
							w.Fail("C12", "not removed", "check at %v: %s announced as deleted but still registered", at, p)
						}
					} else if !isReg {
						w.Fail("C12", "removed silently", "check at %v: %s was removed but the ingester was not told (history %v)", at, p, hist)
					}
				} else if isReg != m.reg {
					w.Fail("C12", "registration", "check at %v: %s registered=%v, want %v (config %v, history %v)", at, p, isReg, m.reg, per[p], hist)
				}
				info := r.ProviderInfo(peers[p].ID)
				inList := false
				for _, i := range list {
					inList = inList || i.AddrInfo.ID == peers[p].ID
				}
				if inList != (info != nil) {
					w.Fail("C12", "list", "check at %v: %s visible=%v but in the list of providers=%v (history %v)", at, p, info != nil, inList, hist)
				}
				if info != nil {
					snaps = append(snaps, snapOf(info))
				}
				if want != "delete" {
					visible := m.reg && !m.inactive
					if (info != nil) != visible {
						w.Fail("C12", "visibility", "check at %v: %s visible=%v, want %v (registered %v inactive %v, config %v, history %v)", at, p, info != nil, visible, m.reg, m.inactive, per[p], hist)
					}
				}
			}
			if nwant > 0 && len(sigs) == 0 {
				w.Fail("C12", "no signal", "check at %v: nothing signalled although %d providers are due (history %v)", at, nwant, hist)
			}
			if w.Failed() {
				return
			}
		}
		// signals for removals get through in the end
		for i := 0; i < len(provs)+1; i++ {
			time.Sleep(tick)
			mcrt.Settle()
			if slow {
				select {
				case i := <-r.SyncChan():
					if i.Deleted() {
						deletedSig[names[i.AddrInfo.ID]]++
						ms[names[i.AddrInfo.ID]].reg = false
					}
				default:
				}
			}
		}
		for _, s := range snaps {
			if n := snapStr(s.info); n != s.was {
				w.Fail("C07", "snapshot changed", "a provider record handed out as %s is now %s (history %v)", s.was, n, hist)
			}
		}
		// what polling did survives a restart
		served := map[string]bool{}
		for _, p := range provs {
			served[p] = r.IsRegistered(peers[p].ID)
		}
		r2 := mustReg(w, cfg, ds.At(ds.Synced(ds.Len())), nil)
		for _, p := range provs {
			if got := r2.IsRegistered(peers[p].ID); got != served[p] {
				w.Fail("C06", "poll removal not durable", "%s registered=%v, after a restart %v (history %v)", p, served[p], got, hist)
			}
		}
		sort.Strings(hist)
		w.Observe("%v", strings.Join(hist, ";"))
	}
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-1", Prop: "C12", Props: []string{"C12", "C06", "C07"}, Run: polling([]string{"A"}, 4, 10, false, false, false), Quick: 0, Thorough: 1, Race: -1, RaceThorough: 0, Horizon: 24 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-restart", Prop: "C12", Run: polling([]string{"A"}, 4, 9, false, true, false), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 24 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-2", Prop: "C12", Run: polling([]string{"A", "B"}, 4, 5, true, false, false), Quick: 0, Thorough: 1, Race: -1, RaceThorough: -1, Horizon: 24 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-2-order", Prop: "C12", Run: polling([]string{"A", "B"}, 2, 3, true, false, false), Quick: 1, Thorough: -1, Race: -1, RaceThorough: -1, Horizon: 24 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-2-order-all", Prop: "C12", Run: polling([]string{"A", "B"}, 4, 3, true, false, false), Quick: -1, Thorough: 2, Race: -1, RaceThorough: 0, Horizon: 24 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-slow", Prop: "C12", Run: polling([]string{"A", "B"}, 2, 4, false, false, true), Quick: 1, Thorough: -1, Race: -1, RaceThorough: -1, Horizon: 24 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-poll-slow-all", Prop: "C12", Run: polling([]string{"A", "B"}, 4, 4, false, false, true), Quick: -1, Thorough: 2, Race: -1, RaceThorough: 0, Horizon: 24 * time.Hour})
}
