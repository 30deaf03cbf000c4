package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
)

// pol is the reference policy.
type pol struct {
	allow     bool
	except    map[string]bool
	publish   bool
	pubExcept map[string]bool
}

func mkpol(allow bool, except string, publish bool, pubExcept string) pol {
	p := pol{allow, map[string]bool{}, publish, map[string]bool{}}
	for _, c := range except {
		p.except[string(c)] = true
	}
	for _, c := range pubExcept {
		p.pubExcept[string(c)] = true
	}
	return p
}

func (p pol) cfg() config.Policy {
	c := config.Policy{Allow: p.allow, Publish: p.publish}
	for _, n := range []string{"A", "B", "P", "Q"} {
		if p.except[n] {
			c.Except = append(c.Except, peers[n].ID.String())
		}
		if p.pubExcept[n] {
			c.PublishExcept = append(c.PublishExcept, peers[n].ID.String())
		}
	}
	return c
}

func (p pol) allowed(n string) bool { return p.allow != p.except[n] }
func (p pol) canPublish(pub, prov string) bool {
	return pub == prov || p.publish != p.pubExcept[pub]
}

// may tells whether a registration must be accepted.
func (p pol) may(prov, pub string) bool {
	if !p.allowed(prov) {
		return false
	}
	if pub != "" && pub != prov {
		return p.allowed(pub) && p.canPublish(pub, prov)
	}
	return true
}

// set changes the policy of one peer; reports whether that changed anything.
func (p *pol) set(n string, allow bool) bool {
	if p.allowed(n) == allow {
		return false
	}
	if p.except[n] {
		delete(p.except, n)
	} else {
		p.except[n] = true
	}
	return true
}

var polStart = func() []pol {
	var ps []pol
	for _, allow := range []bool{true, false} {
		for _, e := range []string{"", "A", "P", "AP"} {
			for _, publish := range []bool{true, false} {
				for _, pe := range []string{"", "P"} {
					ps = append(ps, mkpol(allow, e, publish, pe))
				}
			}
		}
	}
	return ps
}()

var polReload = []pol{
	mkpol(true, "", true, ""),
	mkpol(false, "A", false, ""),
	mkpol(true, "P", true, "P"),
	mkpol(false, "P", true, ""), // P without A, where 8 of polStart has A without P
}

func checkPolicy(w *mcrt.World, r *registry.Registry, p pol, hist []string) {
	for _, n := range []string{"A", "B", "P"} {
		if got := r.Allowed(peers[n].ID); got != p.allowed(n) {
			w.Fail("C04", "allowed", "peer %s allowed=%v, policy says %v (history %v)", n, got, p.allowed(n), hist)
		}
		for _, m := range []string{"A", "P"} {
			if got := r.PublishAllowed(peers[n].ID, peers[m].ID); got != p.canPublish(n, m) {
				w.Fail("C04", "publish allowed", "%s may publish for %s: %v, policy says %v (history %v)", n, m, got, p.canPublish(n, m), hist)
			}
		}
	}
}

// policyHistory: all histories of policy changes, registrations and restarts.
func policyHistory(depth int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		start := polStart[w.Choose(len(polStart), "configured policy")]
		p := mkpol(start.allow, "", start.publish, "")
		for k := range start.except {
			p.except[k] = true
		}
		for k := range start.pubExcept {
			p.pubExcept[k] = true
		}
		conf := start
		cfg := baseCfg()
		cfg.RediscoverWait = 0
		cfg.Policy = conf.cfg()
		ds := sim.NewDS()
		d := &disco{}
		r := mustReg(w, cfg, ds, d)
		(&drain{}).run(r)
		type prov struct {
			pub  string
			disk bool
		}
		reg := map[string]string{}  // provider -> publisher, in memory
		disk := map[string]string{} // stored
		var hist []string
		for i := 0; i < depth; i++ {
			time.Sleep(time.Second)
			k := w.Choose(14, "step")
			switch {
			case k < 4: // allow, block
				n, allow := []string{"A", "P"}[k%2], k < 2
				want := p.set(n, allow)
				var got bool
				if allow {
					got = r.AllowPeer(peers[n].ID)
				} else {
					got = r.BlockPeer(peers[n].ID)
				}
				hist = append(hist, fmt.Sprintf("allow %s %v", n, allow))
				if got != want {
					w.Fail("C04", "change reported", "change reported=%v, want %v (history %v)", got, want, hist)
				}
			case k < 7:
				n := polReload[k-4]
				conf = n
				p = mkpol(n.allow, "", n.publish, "")
				for x := range n.except {
					p.except[x] = true
				}
				for x := range n.pubExcept {
					p.pubExcept[x] = true
				}
				cfg.Policy = n.cfg()
				hist = append(hist, fmt.Sprintf("load policy %v", n))
				if err := r.SetPolicy(cfg.Policy); err != nil {
					w.Fail("C04", "load", "valid policy refused: %v", err)
				}
			case k == 7: // a bad policy changes nothing
				b := polReload[1].cfg()
				b.Allow = !p.allow
				if w.Choose(2, "where") == 0 {
					b.Except = []string{"nonsense"}
				} else {
					b.PublishExcept = append(b.PublishExcept, "nonsense")
				}
				hist = append(hist, "load bad policy")
				if err := r.SetPolicy(b); err == nil {
					w.Fail("C04", "load", "bad policy accepted")
				}
			case k < 12: // registrations
				var o op
				switch k {
				case 8:
					o = op{kind: "register", prov: "A", addrs: []int{1}, pub: "A", pubAd: 1}
				case 9:
					o = op{kind: "register", prov: "A", addrs: []int{2}, pub: "P", pubAd: 2}
				case 10:
					o = op{kind: "update", prov: "A", addrs: []int{3}, pub: "P", pubAd: 3, ad: "ad1"}
				case 11:
					o = op{kind: "update", prov: "A", addrs: []int{4}, pub: "A", pubAd: 4, ad: "ad2"}
				}
				hist = append(hist, o.String())
				cur, have := reg["A"]
				before := show(read(r))
				err := o.run(r)
				want := p.may("A", o.pub)
				if have && o.kind == "update" && cur == o.pub && !want {
					// An update of what is registered already, by the same
					// publisher: checked elsewhere.
					if err == nil {
						disk["A"] = reg["A"]
					}
					break
				}
				if (err == nil) != want {
					w.Fail("C04", "registration", "registration %v: error %v, policy allows it: %v (history %v)", o, err, want, hist)
				}
				if err == nil {
					reg["A"], disk["A"] = o.pub, o.pub
				} else {
					if !errors.Is(err, registry.ErrNotAllowed) && !errors.Is(err, registry.ErrPublisherNotAllowed) && !errors.Is(err, registry.ErrCannotPublish) {
						w.Fail("C04", "wrong error", "refused with %v", err)
					}
					if s := show(read(r)); s != before {
						w.Fail("C04", "refused but changed", "a refused registration changed the registry from %s to %s (history %v)", before, s, hist)
					}
				}
			case k == 12:
				hist = append(hist, "discover A")
				n := d.calls
				err := r.Discover(provA.ID, "t01", true)
				if (err == nil) != p.allowed("A") {
					w.Fail("C04", "discovery", "discovery: error %v, policy allows it: %v (history %v)", err, p.allowed("A"), hist)
				}
				if err != nil && d.calls != n {
					w.Fail("C04", "discovery", "a forbidden peer was looked up")
				}
				if err == nil {
					pub := ""
					if i := r.ProviderInfo(provA.ID); i != nil && i.Publisher.Validate() == nil {
						pub = names[i.Publisher]
					}
					reg["A"], disk["A"] = pub, pub
				}
			case k == 13: // restart with the configured policy
				hist = append(hist, "restart")
				r.Close()
				r = mustReg(w, cfg, ds, d)
				(&drain{}).run(r)
				p = mkpol(conf.allow, "", conf.publish, "")
				for x := range conf.except {
					p.except[x] = true
				}
				for x := range conf.pubExcept {
					p.pubExcept[x] = true
				}
				reg = map[string]string{}
				for k, v := range disk {
					if p.allowed(k) {
						reg[k] = v
					}
				}
			}
			checkPolicy(w, r, p, hist)
			got := read(r)
			for _, n := range []string{"A"} {
				g, have := got[n]
				pub, want := reg[n]
				if have != want || have && g.pub != pub {
					w.Fail("C04", "registered providers", "provider %s registered=%v by %q, want %v by %q (history %v)", n, have, g.pub, want, pub, hist)
				}
				if r.IsRegistered(peers[n].ID) != want {
					w.Fail("C04", "registered providers", "provider %s: registered=%v, want %v (history %v)", n, !want, want, hist)
				}
			}
			if w.Failed() {
				return
			}
		}
		w.Observe("%v", reg)
	}
}

// policyPar: concurrent changes and questions are linearizable.
func policyPar(threads int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		start := polStart[[]int{0, 4, 8, 16, 20, 26}[w.Choose(6, "policy")]]
		cfg := baseCfg()
		cfg.Policy = start.cfg()
		r := mustReg(w, cfg, nil, nil)
		type pc struct {
			kind       string
			start, end int
			res        bool
		}
		kinds := []string{"allow A", "block A", "allow P", "load 1", "load 2", "load 3", "ask A", "ask P for A", "register A", "register A by P"}
		clock := 0
		var cs []*pc
		var fs []func()
		prev := 0
		for i := 0; i < threads; i++ {
			k := prev + w.Choose(len(kinds)-prev, "call")
			prev = k
			c := &pc{kind: kinds[k]}
			cs = append(cs, c)
			fs = append(fs, func() {
				clock++
				c.start = clock
				switch c.kind {
				case "allow A":
					c.res = r.AllowPeer(provA.ID)
				case "block A":
					c.res = r.BlockPeer(provA.ID)
				case "allow P":
					c.res = r.AllowPeer(pubP.ID)
				case "load 1":
					c.res = r.SetPolicy(polReload[1].cfg()) == nil
				case "load 2":
					c.res = r.SetPolicy(polReload[2].cfg()) == nil
				case "load 3":
					c.res = r.SetPolicy(polReload[3].cfg()) == nil
				case "ask A":
					c.res = r.Allowed(provA.ID)
				case "ask P for A":
					c.res = r.PublishAllowed(pubP.ID, provA.ID)
				case "register A":
					c.res = op{kind: "register", prov: "A", addrs: []int{1}, pub: "A", pubAd: 1}.run(r) == nil
				case "register A by P":
					c.res = op{kind: "register", prov: "A", addrs: []int{1}, pub: "P", pubAd: 2}.run(r) == nil
				}
				clock++
				c.end = clock
			})
		}
		w.Par(fs...)
		cp := func(p pol) pol {
			n := mkpol(p.allow, "", p.publish, "")
			for k := range p.except {
				n.except[k] = true
			}
			for k := range p.pubExcept {
				n.pubExcept[k] = true
			}
			return n
		}
		var rec func(cs []*pc, p pol) bool
		rec = func(cs []*pc, p pol) bool {
			if len(cs) == 0 {
				for _, n := range []string{"A", "P", "B"} {
					if r.Allowed(peers[n].ID) != p.allowed(n) || r.PublishAllowed(peers[n].ID, provC.ID) != p.canPublish(n, "C") {
						return false
					}
				}
				return true
			}
			for i, c := range cs {
				first := true
				for j, d := range cs {
					if j != i && d.end < c.start {
						first = false
					}
				}
				if !first {
					continue
				}
				n := cp(p)
				var res bool
				switch c.kind {
				case "allow A":
					res = n.set("A", true)
				case "block A":
					res = n.set("A", false)
				case "allow P":
					res = n.set("P", true)
				case "load 1":
					n, res = cp(polReload[1]), true
				case "load 2":
					n, res = cp(polReload[2]), true
				case "load 3":
					n, res = cp(polReload[3]), true
				case "register A by P":
					res = n.may("A", "P")
				case "ask A", "register A":
					res = n.allowed("A")
				case "ask P for A":
					res = n.canPublish("P", "A")
				}
				if res == c.res && rec(append(append([]*pc{}, cs[:i]...), cs[i+1:]...), n) {
					return true
				}
			}
			return false
		}
		var ds []string
		for _, c := range cs {
			ds = append(ds, fmt.Sprintf("%s[%d-%d]=%v", c.kind, c.start, c.end, c.res))
		}
		w.Observe("%v", ds)
		if !rec(cs, cp(start)) {
			w.Fail("C04", "not linearizable", "no order of the calls explains %v and the final policy (started from %v)", ds, start)
		}
	}
}

func init() {
	mcrt.Register(&mcrt.Scenario{Name: "reg-policy-seq", Prop: "C04", Run: policyHistory(3), Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 48 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-policy-seq4", Prop: "C04", Run: policyHistory(4), Quick: -1, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: 48 * time.Hour})
	mcrt.Register(&mcrt.Scenario{Name: "reg-policy-par", Prop: "C04", Run: policyPar(3), Quick: 2, Thorough: 3, Race: 1, RaceThorough: 2})
}
