package main

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"

	httpingest "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
)

// version is a configuration in which everything that can be reloaded differs.
func version(n int) obj {
	c := baseConfig()
	if n == 1 {
		return c
	}
	c = with(c, "Discovery.Policy", obj{"Allow": false, "Except": []string{provA.ID.String()}, "Publish": false})
	c = with(c, "Ingest.RateLimit", obj{"Apply": true, "BlocksPerSecond": 1, "BurstSize": 1})
	c = with(c, "Ingest.StoreBatchSize", 1)
	c = with(c, "Ingest.IngestWorkerCount", 2)
	return with(c, "Peering.Peers", []string{peerAddr(peerX, 7)})
}

var files = []string{"v1", "v2", "syntax", "missing", "type", "policy", "rate", "datastore", "peering", "log", "interval", "workers"}

// put installs a configuration file.
func (d *daemon) put(name string) {
	v2 := version(2)
	switch name {
	case "v1":
		d.write(version(1))
	case "v2":
		d.write(v2)
	case "syntax":
		d.writeText("{")
	case "missing":
		os.Remove(filepath.Join(d.dir, "config"))
	case "type":
		d.write(with(v2, "Ingest.StoreBatchSize", "many"))
	case "policy":
		d.write(with(v2, "Discovery.Policy.Except", []string{"nobody"}))
	case "rate":
		d.write(with(v2, "Ingest.RateLimit.Except", []string{"nobody"}))
	case "datastore":
		d.write(with(v2, "Datastore.Type", "other"))
	case "peering":
		d.write(with(v2, "Peering.Peers", []string{"nobody"}))
	case "log":
		d.write(with(v2, "Logging.Level", "loud"))
	case "interval":
		d.write(with(v2, "Indexer.ConfigCheckInterval", "-5s"))
	case "workers":
		d.write(with(v2, "Ingest.IngestWorkerCount", -1))
	default:
		panic(name)
	}
}

// seen is what can be observed of the settings: 1 or 2 for each.
type seen struct{ policy, rate, peering int }

func (d *daemon) observe(what string, n int, pub *siming.Pub) (s seen, ok bool) {
	if !d.alive(what) {
		return s, false
	}
	c, err := httpingest.New(ingestURL)
	if err != nil {
		panic(err)
	}
	err = c.Register(bg, provB.ID, provB.Priv, []string{sim.Addr(3).String()})
	s.policy = 1
	if err != nil {
		s.policy = 2
	}
	if pub == nil {
		return s, true
	}
	for i := 0; i < 3; i++ {
		pub.Add(siming.AdSpec{Kind: "add", Prov: provA, Ctx: fmt.Sprint("c", n, i), Meta: "m", Chunks: [][]string{{fmt.Sprint("h", n, i)}}})
	}
	t0 := len(d.web.Times)
	if err = d.admin().Sync(bg, provA.ID, pub.Addr, 0, false); err != nil {
		d.w.Fail(d.prop, "not serving", "%s: sync fails: %v", what, err)
		return s, false
	}
	c0 := len(d.host.Connects)
	time.Sleep(15 * time.Minute)
	mcrt.Settle()
	ts := d.web.Times[t0:]
	if len(ts) < 3 {
		d.w.Fail(d.prop, "not serving", "%s: a sync fetches nothing", what)
		return s, false
	}
	s.rate = 1
	if ts[len(ts)-1]-ts[0] >= int64(time.Second) {
		s.rate = 2
	}
	s.peering = 1
	for _, id := range d.host.Connects[c0:] {
		if id != peerX.ID {
			d.w.Fail(d.prop, "settings", "%s: connects to %s", what, id)
		}
		s.peering = 2
	}
	return s, true
}

// reload asks for a reload; ok reports whether an error was reported, if it
// can be.
func (d *daemon) reload(trigger, what string) (err error, known, ok bool) {
	switch trigger {
	case "http":
		fin := d.w.Go(func() { err = d.admin().ReloadConfig(bg) })
		if !d.w.Within(fin, time.Minute) {
			d.w.Fail(d.prop, "no answer", "%s: the reload request is not answered", what)
			return nil, false, false
		}
		return err, true, true
	case "signal":
		sigProcess(syscall.SIGHUP)
		mcrt.Settle()
	case "watch":
		time.Sleep(31 * time.Second)
		mcrt.Settle()
	}
	return nil, false, true
}

// expect is what a reload of a file may lead to.
func expect(file string, old seen) (poss []seen, fails bool) {
	v2 := seen{2, 2, 2}
	switch file {
	case "v1":
		return []seen{{1, 1, 1}}, false
	case "v2":
		return []seen{v2}, false
	case "syntax", "missing", "type", "datastore":
		return []seen{old}, true
	case "interval", "workers":
		// it may be refused, or that setting ignored
		return []seen{old, v2}, false
	case "policy":
		return []seen{old, {old.policy, 2, old.peering}}, true
	case "rate":
		return []seen{old, {2, old.rate, old.peering}}, true
	}
	return []seen{old, {2, 2, old.peering}, {old.policy, 2, old.peering}, {2, old.rate, old.peering}}, true
}

// reloads: every history of reloads.
func reloads(max int, triggers ...string) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		trig := w.Pick("trigger", triggers...)
		first := w.Choose(2, "start with") + 1
		args := []string{"--watch-config=false"}
		if trig == "watch" {
			args = nil
		}
		d := start(w, "C15", version(first), args...)
		defer d.clean()
		pub := siming.NewPub(provA, 1)
		d.web.Pubs[pub.Host] = pub
		hist := fmt.Sprint("v", first)
		st := seen{first, first, first}
		got, ok := d.observe(hist, 0, pub)
		if !ok {
			return
		}
		if got != st {
			w.Fail("C15", "settings", "%s: policy, rate, peering in force %v, want %v", hist, got, st)
			return
		}
		for i := 1; i <= max; i++ {
			f := files[w.Choose(len(files), "file")]
			hist += " " + f
			d.put(f)
			err, known, ok := d.reload(trig, hist+" by "+trig)
			if !ok {
				return
			}
			got, ok := d.observe(hist+" by "+trig, i, pub)
			if !ok {
				return
			}
			poss, fails := expect(f, st)
			if f == "interval" || f == "workers" {
				fails = err != nil
			}
			if known && fails != (err != nil) {
				w.Fail("C15", "wrong result", "%s: reload returns %v", hist, err)
			}
			found := false
			for _, p := range poss {
				found = found || p == got
			}
			if !found {
				w.Fail("C15", "settings", "%s by %s: policy, rate, peering in force %v, before %v, want one of %v", hist, trig, got, st, poss)
				return
			}
			st = got
		}
		mcrt.Calm(true)
		d.stop(hist)
		w.Observe("%s %s %v", trig, hist, st)
	}
}

// reloadPar: reloads asked for at the same time, in every way.
func reloadPar(w *mcrt.World) {
	d := start(w, "C15", version(1))
	defer d.clean()
	f := w.Pick("file", "v2", "syntax", "policy", "peering")
	d.put(f)
	var fs []func()
	var errs []error
	for _, t := range [][]string{{"http", "signal"}, {"http", "http"}, {"http", "watch"}, {"signal", "watch"}, {"http", "signal", "watch"}, {"signal", "signal"}}[w.Choose(6, "triggers")] {
		switch t {
		case "http":
			fs = append(fs, func() {
				err := d.admin().ReloadConfig(bg)
				errs = append(errs, err)
			})
		case "signal":
			fs = append(fs, func() { sigProcess(syscall.SIGHUP) })
		case "watch":
			// the daemon looks at the file 30 s after its start
			mcrt.Calm(true)
			time.Sleep(30*time.Second - time.Since(d.t0))
			mcrt.Calm(false)
		}
	}
	fin := w.Go(func() { w.Par(fs...) })
	if !w.Within(fin, time.Hour) {
		w.Fail("C15", "no answer", "%s: reload requests are not answered", f)
		return
	}
	mcrt.Settle()
	mcrt.Calm(true)
	for _, err := range errs {
		if (err == nil) != (f == "v2") {
			w.Fail("C15", "wrong result", "%s: reload returns %v", f, err)
		}
	}
	got, ok := d.observe(f, 1, nil)
	if !ok {
		return
	}
	if want := map[string]int{"v2": 2, "syntax": 1, "policy": 1}[f]; want != 0 && got.policy != want {
		w.Fail("C15", "settings", "%s: policy in force %d", f, got.policy)
	}
	// and it can be reloaded again
	d.put("v1")
	if err, _, ok := d.reload("http", f+" again"); !ok {
		return
	} else if err != nil {
		w.Fail("C15", "wrong result", "reload of a good file after %s: %v", f, err)
	}
	if got, ok = d.observe(f+" v1", 2, nil); ok && got.policy != 1 {
		w.Fail("C15", "settings", "%s v1: policy in force %d", f, got.policy)
	}
	d.stop(f)
	w.Observe("%s %d", f, len(errs))
}

// reloadQueue: reloads of every kind are asked for while one takes its time.
func reloadQueue(w *mcrt.World) {
	d := start(w, "C15", version(1))
	defer d.clean()
	mcrt.Calm(true)
	until := func(t time.Duration) { time.Sleep(t - time.Since(d.t0)) }
	first := w.Pick("first", "http", "signal")
	next := [][]string{{"http"}, {"signal"}, {"http", "http"}, {"http", "signal"}, {"signal", "http"}, {"signal", "signal"}, {"http", "http", "signal"}, {}}[w.Choose(8, "next")]
	stop := w.Choose(2, "then stopped") == 1
	what := fmt.Sprintf("%s, then %v and the file watch, then stop %v", first, next, stop)
	var errs []error
	var fins []<-chan struct{}
	ask := func(t string) {
		if t == "signal" {
			sigProcess(syscall.SIGHUP)
			return
		}
		fins = append(fins, w.Go(func() {
			err := d.admin().ReloadConfig(bg)
			errs = append(errs, err)
		}))
	}
	until(29 * time.Second)
	d.put("v2")
	d.host.Slow = 3 * time.Second
	ask(first)
	until(29*time.Second + 200*time.Millisecond)
	d.put("v1")
	for i, t := range next {
		until(29*time.Second + time.Duration(3+i)*100*time.Millisecond)
		ask(t)
	}
	if stop {
		until(31 * time.Second)
		d.cancel()
	}
	until(31*time.Second + 500*time.Millisecond)
	mcrt.Calm(false)
	until(40 * time.Second)
	mcrt.Settle()
	mcrt.Calm(true)
	d.host.Slow = 0
	for _, f := range fins {
		if !w.Within(f, 10*time.Minute) {
			w.Fail("C15", "no answer", "%s: reload requests are not answered", what)
			return
		}
	}
	if stop {
		d.stop(what)
		w.Observe("%s %d", what, len(errs))
		return
	}
	for _, err := range errs {
		if err != nil {
			w.Fail("C15", "wrong result", "%s: reload returns %v", what, err)
		}
	}
	got, ok := d.observe(what, 1, nil)
	if !ok {
		return
	}
	if got.policy != 1 {
		w.Fail("C15", "settings", "%s: policy in force %d", what, got.policy)
	}
	d.put("v2")
	if err, _, ok := d.reload("http", what+" again"); !ok {
		return
	} else if err != nil {
		w.Fail("C15", "wrong result", "%s: reload of a good file: %v", what, err)
	}
	if got, ok = d.observe(what+", v2", 2, nil); ok && got.policy != 2 {
		w.Fail("C15", "settings", "%s, v2: policy in force %d", what, got.policy)
	}
	d.stop(what)
	w.Observe("%s %d", what, len(errs))
}

// watch: the daemon looks at its configuration file as often as configured,
// also after that changed.
func watch(w *mcrt.World) {
	ivs := []string{"30s", "5s", "3m"}
	secs := []int{30, 5, 180}
	i, j := w.Choose(3, "interval"), w.Choose(3, "new interval")
	trig := w.Pick("trigger", "http", "signal", "watch")
	older := w.Choose(2, "file times") == 1
	d := start(w, "C15", with(version(1), "Indexer.ConfigCheckInterval", ivs[i]))
	defer d.clean()
	what := fmt.Sprintf("interval %s, then %s by %s, older files %v", ivs[i], ivs[j], trig, older)
	d.write(with(version(1), "Indexer.ConfigCheckInterval", ivs[j]))
	if trig == "watch" {
		time.Sleep(time.Duration(secs[i]+1) * time.Second)
		mcrt.Settle()
	} else if err, _, ok := d.reload(trig, what); !ok || err != nil {
		w.Fail("C15", "wrong result", "%s: reload returns %v", what, err)
		return
	}
	for n := 0; n < 2; n++ {
		want := 2 - n
		if older {
			// an older file is put in place
			d.mtime = d.mtime.Add(-time.Hour)
		}
		d.write(with(version(want), "Indexer.ConfigCheckInterval", ivs[j]))
		time.Sleep(time.Duration(secs[j]+1) * time.Second)
		mcrt.Settle()
		got, ok := d.observe(what, n, nil)
		if !ok {
			return
		}
		if got.policy != want {
			w.Fail("C15", "change not noticed", "%s: a changed file is not in force %s later", what, ivs[j])
			return
		}
	}
	d.stop(what)
	w.Observe("%s", what)
}

// busy: a reload is answered, and shutdown begins, while all ingest workers
// are at work for long.
func busy(w *mcrt.World) {
	c := with(with(baseConfig(), "Ingest.IngestWorkerCount", 2), "Indexer.ShutdownTimeout", "2h")
	d := start(w, "C15", c)
	defer d.clean()
	mcrt.Calm(true)
	pubs := []*siming.Pub{siming.NewPub(provA, 1), siming.NewPub(provB, 2)}
	busy := 1 + w.Choose(2, "busy workers")
	for i, pub := range pubs[:busy] {
		d.web.Pubs[pub.Host] = pub
		var chunks [][]string
		for j := 0; j < 30; j++ {
			chunks = append(chunks, []string{fmt.Sprint("h", i, ".", j)})
		}
		pub.Add(siming.AdSpec{Kind: "add", Prov: pub.Peer, Ctx: "c", Meta: "m", Chunks: chunks})
		pub := pub
		go d.admin().Sync(bg, pub.Peer.ID, pub.Addr, 0, false)
	}
	d.web.Fault = func(host, path string) (int, time.Duration) {
		for _, p := range pubs {
			if p.Host == host {
				return 0, 9 * time.Second
			}
		}
		return 0, 0
	}
	time.Sleep(40 * time.Second)
	n := []int{1, 2, 4}[w.Choose(3, "workers")]
	what := fmt.Sprintf("%d of 2 workers busy, reload with %d", busy, n)
	d.write(with(c, "Ingest.IngestWorkerCount", n))
	trig := w.Pick("trigger", "http", "signal")
	if err, _, ok := d.reload(trig, what); !ok || err != nil {
		w.Fail("C15", "wrong result", "%s: reload returns %v", what, err)
		return
	}
	if !d.alive(what) {
		return
	}
	d.cancel()
	mcrt.Settle()
	if st, _ := get(adminURL + "/healthcheck"); st != 0 {
		w.Fail("C15", "no shutdown", "%s: the daemon does not begin to stop", what)
	}
	d.stop(what)
	w.Observe("%s %s", what, trig)
}

// workers: as many providers are ingested at a time as there are workers
// configured, after any sequence of reloads.
func workers(reloads int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		n := 1 + w.Choose(3, "workers")
		what := fmt.Sprintf("%d workers", n)
		c := baseConfig()
		d := start(w, "C15", with(c, "Ingest.IngestWorkerCount", n))
		defer d.clean()
		for i := 0; i < reloads; i++ {
			n = 1 + w.Choose(3, "workers")
			d.write(with(c, "Ingest.IngestWorkerCount", n))
			trig := w.Pick("trigger", "http", "signal")
			what += fmt.Sprintf(", then %d by %s", n, trig)
			if err, _, ok := d.reload(trig, what); !ok || err != nil {
				w.Fail("C15", "wrong result", "%s: reload returns %v", what, err)
				return
			}
		}
		mcrt.Calm(true)
		var pubs []*siming.Pub
		for i, who := range []*sim.Peer{provA, provB, sim.NewPeer("C"), sim.NewPeer("D")} {
			pub := siming.NewPub(who, i+1)
			d.web.Pubs[pub.Host] = pub
			var chunks [][]string
			for j := 0; j < 10; j++ {
				chunks = append(chunks, []string{fmt.Sprint("h", i, ".", j)})
			}
			pub.Add(siming.AdSpec{Kind: "add", Prov: pub.Peer, Ctx: "c", Meta: "m", Chunks: chunks})
			pubs = append(pubs, pub)
		}
		at := map[string]bool{}
		d.web.Fault = func(host, path string) (int, time.Duration) {
			for _, p := range pubs {
				if p.Host == host && path != "head" && path != p.Head.String() {
					at[host] = true
					return 0, 9 * time.Second
				}
			}
			return 0, 0
		}
		for _, pub := range pubs {
			pub := pub
			go d.admin().Sync(bg, pub.Peer.ID, pub.Addr, 0, false)
		}
		time.Sleep(40 * time.Second)
		mcrt.Settle()
		if len(at) != n {
			w.Fail("C15", "workers", "%s: %d providers are ingested at a time", what, len(at))
		}
		time.Sleep(time.Hour)
		if d.alive(what) {
			d.stop(what)
		}
		w.Observe("%s", what)
	}
}

func init() {
	reg := func(name string, quick, thorough, race, raceThorough int, f func(*mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C15", Run: f, Quick: quick, Thorough: thorough, Race: race, RaceThorough: raceThorough, Horizon: 100 * time.Hour, NoMap: true, NoSelect: quick == 0 && thorough == 0})
	}
	reg("dmn-reload", 0, -1, -1, -1, reloads(2, "http", "signal", "watch"))
	reg("dmn-reload-3", -1, 0, -1, -1, reloads(3, "http", "signal", "watch"))
	reg("dmn-watch", 0, 0, -1, -1, watch)
	reg("dmn-reload-queue", 1, 2, -1, -1, reloadQueue)
	reg("dmn-reload-busy", 0, 0, -1, -1, busy)
	reg("dmn-workers", 0, -1, -1, -1, workers(1))
	reg("dmn-workers-2", -1, 0, -1, -1, workers(2))
	reg("dmn-reload-par", 1, 2, -1, 0, reloadPar)
}
