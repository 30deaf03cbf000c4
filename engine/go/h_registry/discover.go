package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// lookup is one lookup as the discoverer saw it.
type lookup struct {
	addr       string
	prov       string
	start, end time.Duration
	done       bool
	ok         bool
}

// oracle is a discoverer whose answers are chosen by the explorer.
type oracle struct {
	w     *mcrt.World
	runs  []*lookup
	delay func(addr string) time.Duration
	fails func(addr string) bool
	// deaf: does not give up when told to
	deaf bool
}

func (d *oracle) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	l := &lookup{addr: addr, prov: names[id], start: clockNow()}
	for _, o := range d.runs {
		if o.addr == addr && !o.done {
			d.w.Fail("C13", "overlapping lookups", "two lookups of %s in progress at %v", addr, clockNow())
		}
	}
	d.runs = append(d.runs, l)
	defer func() { l.done, l.end = true, clockNow() }()
	mcrt.Point()
	if dl := d.delay(addr); dl > 0 {
		if d.deaf {
			time.Sleep(dl)
		} else {
			select {
			case <-time.After(dl):
			case <-ctx.Done():
				return nil, ctx.Err()
			}
		}
	}
	if d.fails(addr) {
		return nil, errors.New("not on chain")
	}
	l.ok = true
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{discAddr(names[id])}}}, nil
}

func (d *oracle) busy(addr string) bool {
	for _, l := range d.runs {
		if l.addr == addr && !l.done {
			return true
		}
	}
	return false
}

func (d *oracle) last(addr string) (time.Duration, bool) {
	for i := len(d.runs) - 1; i >= 0; i-- {
		if d.runs[i].addr == addr && d.runs[i].done {
			return d.runs[i].end, true
		}
	}
	return 0, false
}

// discoverHistory explores sequences of lookups in virtual time. The clean-up
// of the registry runs every minute in the background.
func discoverHistory(steps int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		cfg := baseCfg()
		wait := []time.Duration{0, 90 * time.Second}[w.Choose(2, "rediscover wait")]
		timeout := []time.Duration{40 * time.Second, 200 * time.Second}[w.Choose(2, "timeout")]
		cfg.RediscoverWait = config.Duration(wait)
		cfg.Timeout = config.Duration(timeout)
		cfg.PollRetryAfter = config.Duration(time.Minute)
		if w.Choose(2, "policy") == 1 {
			cfg.Policy = config.Policy{Allow: true, Except: []string{provB.ID.String()}}
		}
		ds := sim.NewDS()
		delay := time.Duration(0)
		fail := false
		d := &oracle{w: w}
		d.delay = func(string) time.Duration { return delay }
		d.fails = func(string) bool { return fail }
		r := mustReg(w, cfg, ds, d)
		(&drain{}).run(r)
		want := map[string]bool{}
		var hist []string
		type pend struct {
			prov, addr string
			at         time.Duration
			res        chan error
		}
		var pends []pend
		for i := 0; i < steps; i++ {
			switch k := w.Choose(6, "step"); k {
			case 0, 1, 2, 3: // lookups
				prov, addr := "A", "t01"
				delay, fail = 0, false
				switch k {
				case 1:
					delay = 70 * time.Second
				case 2:
					fail = true
				case 3:
					prov, addr = "B", "t02"
					delay = 10 * time.Second
				}
				now := clockNow()
				n := len(d.runs)
				busy := d.busy(addr)
				last, have := d.last(addr)
				soon := have && wait != 0 && now-last < wait
				denied := prov == "B" && !cfg.Policy.Allow || prov == "B" && len(cfg.Policy.Except) == 1
				ch := make(chan error, 1)
				go func() { ch <- r.Discover(peers[prov].ID, addr, true) }()
				mcrt.Settle()
				hist = append(hist, fmt.Sprintf("%v discover %s/%s delay %v fail %v", now, prov, addr, delay, fail))
				started := len(d.runs) > n
				if started != (!busy && !soon && !denied) {
					w.Fail("C13", "wrong lookups", "at %v lookup started=%v with one in progress=%v, too soon=%v, denied=%v (history %v)", now, started, busy, soon, denied, hist)
					return
				}
				if !started {
					select {
					case err := <-ch:
						ok := err != nil
						if denied {
							ok = errors.Is(err, registry.ErrNotAllowed)
						} else if busy {
							ok = errors.Is(err, registry.ErrInProgress)
						} else if soon {
							ok = errors.Is(err, registry.ErrTooSoon)
						}
						if !ok {
							w.Fail("C13", "wrong refusal", "refused with %v (history %v)", err, hist)
						}
					default:
						w.Fail("C13", "no answer", "a refused request is not answered (history %v)", hist)
						return
					}
				} else {
					pends = append(pends, pend{prov, addr, now, ch})
				}
			case 4:
				time.Sleep(20 * time.Second)
				mcrt.Settle()
			case 5:
				time.Sleep(95 * time.Second)
				mcrt.Settle()
			}
			// answers that are due
			var left []pend
			for _, p := range pends {
				if d.busy(p.addr) {
					if clockNow()-p.at > timeout {
						w.Fail("C13", "timeout ignored", "a lookup runs longer than %v", timeout)
					}
					left = append(left, p)
					continue
				}
				var l *lookup
				for _, x := range d.runs {
					if x.addr == p.addr && x.start == p.at {
						l = x
					}
				}
				select {
				case err := <-p.res:
					if l == nil || (err == nil) != l.ok {
						w.Fail("C13", "wrong answer", "lookup ended with ok=%v, caller got %v (history %v)", l != nil && l.ok, err, hist)
					}
					if err == nil {
						want[p.prov] = true
					}
				default:
					w.Fail("C13", "no answer", "the lookup of %s ended but its caller is still waiting (history %v)", p.addr, hist)
					return
				}
			}
			pends = left
			got := read(r)
			for _, p := range []string{"A", "B"} {
				g, have := got[p]
				if have != want[p] {
					w.Fail("C13", "registration", "provider %s registered=%v, want %v (history %v)", p, have, want[p], hist)
				} else if have && g.addrs != discAddr(p).String() {
					w.Fail("C13", "address", "provider %s has %s", p, g.addrs)
				}
			}
			if w.Failed() {
				return
			}
		}
		w.Observe("%d lookups %v", len(d.runs), want)
	}
}

// discoverPar explores concurrent requests.
func discoverPar(w *mcrt.World) {
	cfg := baseCfg()
	wait := []time.Duration{0, 30 * time.Second}[w.Choose(2, "rediscover wait")]
	cfg.RediscoverWait = config.Duration(wait)
	cfg.Timeout = config.Duration(30 * time.Second)
	cfg.PollRetryAfter = config.Duration(time.Minute)
	mode := w.Pick("lookup", "fast", "slow", "fails", "stuck", "mixed")
	d := &oracle{w: w}
	d.delay = func(a string) time.Duration {
		switch mode {
		case "slow":
			return 10 * time.Second
		case "stuck":
			return time.Hour
		case "mixed":
			if a == "t01" {
				return 5 * time.Second
			}
		}
		return 0
	}
	d.fails = func(a string) bool { return mode == "fails" }
	r := mustReg(w, cfg, nil, d)
	// optionally around the time of the clean-up
	if w.Choose(2, "at clean-up") == 1 {
		time.Sleep(time.Minute)
	}
	type res struct {
		addr, prov string
		async      bool
		err        error
		st, en     time.Duration
	}
	var rs []*res
	var fs []func()
	third := w.Pick("third", "same", "other", "async")
	for i := 0; i < 3; i++ {
		x := &res{addr: "t01", prov: "A"}
		if i == 2 {
			switch third {
			case "other":
				x.addr, x.prov = "t02", "B"
			case "async":
				x.async = true
			}
		}
		rs = append(rs, x)
		fs = append(fs, func() {
			x.st = clockNow()
			x.err = r.Discover(peers[x.prov].ID, x.addr, !x.async)
			x.en = clockNow()
			if x.en-x.st > 30*time.Second {
				w.Fail("C13", "timeout ignored", "a caller waited %v", x.en-x.st)
			}
		})
	}
	w.Par(fs...)
	mcrt.Settle()
	time.Sleep(31 * time.Second)
	mcrt.Settle()
	nok, nlook, nrun := 0, 0, 0
	for _, x := range rs {
		if x.async || x.addr != "t01" {
			continue
		}
		nrun++
		switch {
		case x.err == nil:
			nok++
		case errors.Is(x.err, registry.ErrInProgress), errors.Is(x.err, registry.ErrTooSoon) && wait != 0:
		default:
			if mode != "fails" && mode != "stuck" {
				w.Fail("C13", "wrong refusal", "request failed with %v although the lookup works", x.err)
			}
		}
	}
	succ := 0
	for _, l := range d.runs {
		if l.addr == "t01" {
			nlook++
			if l.ok {
				succ++
			}
		}
	}
	if nlook == 0 {
		w.Fail("C13", "no lookup", "no request was looked up: %v", rs)
	}
	if wait != 0 && nlook > 1 {
		w.Fail("C13", "looked up too soon", "%d lookups of the same address within %v", nlook, wait)
	}
	if third != "async" && nok != succ {
		w.Fail("C13", "wrong answer", "%d callers were told of success, %d lookups succeeded", nok, succ)
	}
	if r.IsRegistered(provA.ID) != (succ > 0) {
		w.Fail("C13", "registration", "registered=%v after %d successful lookups", r.IsRegistered(provA.ID), succ)
	}
	w.Observe("%s %d %d %d", mode, nrun, nlook, nok)
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-discover-seq", Prop: "C13", Run: discoverHistory(5), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 48 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-discover-seq6", Prop: "C13", Run: discoverHistory(6), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 48 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-discover-par", Prop: "C13", Run: discoverPar, Quick: 2, Thorough: 4, Race: 1, RaceThorough: 2, Horizon: 48 * time.Hour})
}
