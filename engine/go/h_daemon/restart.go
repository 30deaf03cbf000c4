package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	finder "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	httpingest "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/filecoin-project/storetheindex/internal/verifmc/siming"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// disk is the storage of a leveldb database. It survives the process.
type disk struct {
	files map[storage.FileDesc]*[]byte
	meta  storage.FileDesc
}

func newDisk() *disk { return &disk{files: map[storage.FileDesc]*[]byte{}} }

func (d *disk) copy() *disk {
	r := newDisk()
	r.meta = d.meta
	for k, v := range d.files {
		b := append([]byte{}, *v...)
		r.files[k] = &b
	}
	return r
}

type diskLock struct{}

func (diskLock) Unlock() {}

type diskReader struct{ *bytes.Reader }

func (diskReader) Close() error { return nil }

type diskWriter struct{ b *[]byte }

func (w diskWriter) Write(p []byte) (int, error) {
	*w.b = append(*w.b, p...)
	return len(p), nil
}
func (diskWriter) Sync() error  { return nil }
func (diskWriter) Close() error { return nil }

func (d *disk) Lock() (storage.Locker, error)     { return diskLock{}, nil }
func (d *disk) Log(string)                        {}
func (d *disk) SetMeta(fd storage.FileDesc) error { d.meta = fd; return nil }
func (d *disk) Close() error                      { return nil }
func (d *disk) Remove(fd storage.FileDesc) error  { delete(d.files, fd); return nil }
func (d *disk) GetMeta() (storage.FileDesc, error) {
	if d.meta.Zero() {
		return d.meta, os.ErrNotExist
	}
	return d.meta, nil
}
func (d *disk) List(ft storage.FileType) (r []storage.FileDesc, err error) {
	for fd := range d.files {
		if fd.Type&ft != 0 {
			r = append(r, fd)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Num < r[j].Num || r[i].Num == r[j].Num && r[i].Type < r[j].Type })
	return r, nil
}
func (d *disk) Open(fd storage.FileDesc) (storage.Reader, error) {
	b, ok := d.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return diskReader{bytes.NewReader(*b)}, nil
}
func (d *disk) Create(fd storage.FileDesc) (storage.Writer, error) {
	b := &[]byte{}
	d.files[fd] = b
	return diskWriter{b}, nil
}
func (d *disk) Rename(from, to storage.FileDesc) error {
	b, ok := d.files[from]
	if !ok {
		return os.ErrNotExist
	}
	delete(d.files, from)
	d.files[to] = b
	return nil
}

func copyDir(from, to string) {
	fs, err := ioutil.ReadDir(from)
	if err != nil {
		panic(err)
	}
	if err = os.MkdirAll(to, 0o755); err != nil {
		panic(err)
	}
	for _, f := range fs {
		a, b := filepath.Join(from, f.Name()), filepath.Join(to, f.Name())
		if f.IsDir() {
			copyDir(a, b)
			continue
		}
		r, err := os.Open(a)
		if err != nil {
			panic(err)
		}
		w, err := os.Create(b)
		if err != nil {
			panic(err)
		}
		if _, err = io.Copy(w, r); err != nil {
			panic(err)
		}
		r.Close()
		w.Close()
		os.Chtimes(b, f.ModTime(), f.ModTime())
	}
}

var restartMH = []string{"i1", "m1", "m2", "m3"}

// view is what a user sees: the providers and everything that can be found.
func (d *daemon) view() (provs, found string, err error) {
	c, err := finder.New(finderURL)
	if err != nil {
		panic(err)
	}
	ps, err := c.ListProviders(bg)
	if err != nil {
		return "", "", fmt.Errorf("providers: %w", err)
	}
	var out []string
	for _, p := range ps {
		s := fmt.Sprintf("%s%v ad=%s@%s", siming.Names[p.AddrInfo.ID], p.AddrInfo.Addrs, p.LastAdvertisement, p.LastAdvertisementTime)
		if p.Publisher != nil {
			s += fmt.Sprintf(" pub=%s%v", siming.Names[p.Publisher.ID], p.Publisher.Addrs)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	var mhs []multihash.Multihash
	names := map[string]string{}
	for _, n := range restartMH {
		mhs = append(mhs, sim.MH(n))
		names[string(sim.MH(n))] = n
	}
	res, err := c.FindBatch(bg, mhs)
	if err != nil {
		return "", "", fmt.Errorf("find: %w", err)
	}
	var fs []string
	for _, m := range res.MultihashResults {
		var rs []string
		for _, p := range m.ProviderResults {
			rs = append(rs, fmt.Sprintf("%s/%s/%s", siming.Names[p.Provider.ID], p.ContextID, p.Metadata))
		}
		sort.Strings(rs)
		fs = append(fs, names[string(m.Multihash)]+"="+strings.Join(rs, ","))
	}
	sort.Strings(fs)
	return strings.Join(out, "; "), strings.Join(fs, " "), nil
}

// restarts: what was registered and indexed is there after the daemon was
// stopped, or killed, and started again.
func restarts(n int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		disks := map[string]*disk{}
		rel := func(p string) string { return filepath.Base(p) }
		storageOf = func(p string) storage.Storage {
			if disks[rel(p)] == nil {
				disks[rel(p)] = newDisk()
			}
			return disks[rel(p)]
		}
		defer func() { storageOf = nil }()
		cfg := with(with(baseConfig(), "Indexer.ValueStoreType", "sth"), "Ingest.StoreBatchSize", 2)
		if w.Choose(2, "cache") == 1 {
			cfg = with(cfg, "Indexer.CacheSize", 100)
		}
		d := start(w, "C06", cfg)
		defer func() { d.clean() }()
		if !d.running() {
			w.Fail("C06", "does not start", "the daemon does not start: %v", d.err)
			return
		}
		pub := siming.NewPub(provA, 1)
		d.web.Pubs[pub.Host] = pub
		m := siming.NewModel()
		var hist []string
		lossy := false
		ads := 0
		ad := func(kind string) {
			ads++
			a := siming.AdSpec{Kind: "add", Prov: provA, Ctx: "c1", Meta: fmt.Sprint("v", ads), Addrs: []string{sim.Addr(20 + ads).String()}, Chunks: [][]string{{"m1", "m2"}, {"m3"}}}
			if kind == "rm" {
				a.Kind, a.Chunks = "rm", nil
			}
			pub.Add(a)
			m.Apply(a)
		}
		do := func(op string) bool {
			hist = append(hist, op)
			mcrt.Calm(true)
			defer mcrt.Calm(false)
			var err error
			switch op {
			case "sync", "sync rm":
				ad(strings.TrimPrefix(op, "sync "))
				err = d.admin().Sync(bg, provA.ID, pub.Addr, 0, false)
			case "announce":
				ad("add")
				var c *httpingest.Client
				if c, err = httpingest.New(ingestURL); err == nil {
					err = c.Announce(bg, &peer.AddrInfo{ID: provA.ID, Addrs: []multiaddr.Multiaddr{pub.Addr}}, pub.Head)
				}
			case "register":
				var c *httpingest.Client
				if c, err = httpingest.New(ingestURL); err == nil {
					err = c.Register(bg, provB.ID, provB.Priv, []string{sim.Addr(3).String()})
				}
			case "import":
				lossy = true
				f := filepath.Join(d.dir, "list")
				if err = ioutil.WriteFile(f, []byte(cid.NewCidV1(cid.Raw, sim.MH("i1")).String()+"\n"), 0o644); err == nil {
					err = d.admin().ImportFromCidList(bg, f, provB.ID, []byte("ci"), []byte("vi"))
					m.Apply(siming.AdSpec{Kind: "add", Prov: provB, Ctx: "ci", Meta: "vi", Chunks: [][]string{{"i1"}}})
				}
			}
			if err != nil {
				w.Fail("C06", "request failed", "%v: %v", hist, err)
				return false
			}
			mcrt.Settle()
			time.Sleep(time.Millisecond)
			mcrt.Settle()
			return true
		}
		stopped := func(how string) bool {
			hist = append(hist, how)
			dir, web, mtime := d.dir, d.web, d.mtime
			if how == "kill" {
				// what the process has written is there, and nothing else
				for k, x := range disks {
					disks[k] = x.copy()
				}
				dir += "-2"
				copyDir(d.dir, dir)
				old := d.dir
				defer os.RemoveAll(old)
			}
			d.stop(fmt.Sprint(hist))
			if w.Failed() {
				return false
			}
			d = again(w, "C06", dir, web, mtime)
			if !d.running() {
				w.Fail("C06", "does not start", "%v: the daemon does not start again: %v", hist, d.err)
				return false
			}
			return true
		}
		for i := 0; i < n; i++ {
			if !do(w.Pick("operation", "sync", "announce", "register", "import", "sync rm")) {
				return
			}
		}
		provs, found, err := d.view()
		if err != nil {
			w.Fail("C06", "no answer", "%v: %v", hist, err)
			return
		}
		how := w.Pick("then", "stop", "kill")
		lost := func(s string) string {
			if how == "kill" && lossy {
				// an import is not committed when it is answered
				return siming.Without(s, []string{"B/"})
			}
			return s
		}
		registered := func(s string) string {
			if strings.Contains(strings.Join(hist, " "), "register") {
				return s
			}
			return siming.Without(s, []string{"B/"}) // imported for a provider that is not known
		}
		if want := registered(m.Contents(restartMH)); found != want {
			w.Fail("C02", "index differs", "%v: found %s, want %s", hist, found, want)
			return
		}
		if !stopped(how) {
			return
		}
		provs2, found2, err := d.view()
		if err != nil {
			w.Fail("C06", "no answer", "%v: %v", hist, err)
			return
		}
		if provs2 != provs {
			w.Fail("C06", "registrations differ", "%v:\nbefore: %s\n after: %s", hist, provs, provs2)
		}
		if a, b := lost(found), lost(found2); a != b {
			w.Fail("C02", "data lost", "%v:\nbefore: %s\n after: %s", hist, a, b)
		}
		if w.Failed() {
			return
		}
		// and it goes on
		if !do("sync") {
			return
		}
		_, found, err = d.view()
		if want := lost(registered(m.Contents(restartMH))); err != nil || lost(found) != want {
			w.Fail("C02", "data lost", "%v: found %s (%v), want %s", hist, found, err, want)
		}
		d.stop(fmt.Sprint(hist))
		w.Observe("%v", hist)
	}
}

func init() {
	reg := func(name string, quick, thorough int, f func(w *mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C06", Props: []string{"C02", "C06"}, Run: f, Quick: quick, Thorough: thorough, Race: -1, RaceThorough: -1, Horizon: 1000 * time.Hour, NoMap: true, NoSelect: true})
	}
	reg("dmn-restart", 0, -1, restarts(2))
	reg("dmn-restart-3", -1, 0, restarts(3))
}
