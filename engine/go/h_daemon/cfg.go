package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/urfave/cli/v2"
)

// leaf is a setting of the configuration.
type leaf struct {
	path string
	idx  []int
	typ  reflect.Type
}

var leaves = findLeaves(reflect.TypeOf(config.Config{}), "", nil)

func findLeaves(t reflect.Type, path string, idx []int) (r []leaf) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ix := append(append([]int{}, idx...), i)
		if f.Type.Kind() == reflect.Struct {
			r = append(r, findLeaves(f.Type, path+f.Name+".", ix)...)
		} else {
			r = append(r, leaf{path + f.Name, ix, f.Type})
		}
	}
	return
}

var durType = reflect.TypeOf(config.Duration(0))

// values of a setting, each different from its default.
func (l leaf) values() []interface{} {
	switch {
	case l.typ == durType:
		return []interface{}{config.Duration(7 * time.Second), config.Duration(26*time.Hour + time.Millisecond)}
	case l.typ.Kind() == reflect.String:
		return []interface{}{"one", "\"two\"\n é"}
	case l.typ.Kind() == reflect.Int:
		return []interface{}{7, -1}
	case l.typ.Kind() == reflect.Bool:
		def := reflect.ValueOf(*defaults()).FieldByIndex(l.idx).Bool()
		return []interface{}{!def}
	case l.typ == reflect.TypeOf([]string{}):
		return []interface{}{[]string{"a"}, []string{"b", "", "c"}}
	case l.typ == reflect.TypeOf([]config.Polling{}):
		return []interface{}{[]config.Polling{{ProviderID: "p", Interval: config.Duration(time.Hour)}, {ProviderID: "q", StopAfter: 7, RetryAfter: 9}}}
	case l.typ == reflect.TypeOf(map[string]string{}):
		m := map[string]string{"x": "debug"}
		for k := range config.NewLogging().Loggers {
			m[k] = "fatal"
		}
		return []interface{}{m}
	}
	panic("new kind of setting: " + l.path)
}

func (l leaf) get(c *config.Config) interface{} {
	return reflect.ValueOf(c).Elem().FieldByIndex(l.idx).Interface()
}

func (l leaf) set(c *config.Config, v interface{}) {
	reflect.ValueOf(c).Elem().FieldByIndex(l.idx).Set(reflect.ValueOf(v).Convert(l.typ))
}

func defaults() *config.Config {
	return &config.Config{
		Version:   config.Version,
		Addresses: config.NewAddresses(),
		Bootstrap: config.NewBootstrap(),
		Datastore: config.NewDatastore(),
		Discovery: config.NewDiscovery(),
		Indexer:   config.NewIndexer(),
		Ingest:    config.NewIngest(),
		Logging:   config.NewLogging(),
		Peering:   config.NewPeering(),
	}
}

// differing is a configuration with no setting at its default.
func differing() *config.Config {
	c := defaults()
	for _, l := range leaves {
		l.set(c, l.values()[0])
	}
	return c
}

func same(a, b interface{}) bool {
	ja, _ := json.Marshal(a)
	jb, _ := json.Marshal(b)
	n := func(b []byte) string { s := string(b); return strings.Replace(s, "null", "[]", -1) }
	return n(ja) == n(jb)
}

func sorted(v interface{}) []string {
	s := append([]string{}, v.([]string)...)
	sort.Strings(s)
	return s
}

func diff(a, b *config.Config) string {
	for _, l := range leaves {
		va, vb := l.get(a), l.get(b)
		if l.path == "Bootstrap.Peers" {
			va, vb = sorted(va), sorted(vb) // their order has no meaning
		}
		if !same(va, vb) {
			return fmt.Sprintf("%s is %v, want %v", l.path, l.get(a), l.get(b))
		}
	}
	return ""
}

func scratch() (string, func()) {
	dir, err := ioutil.TempDir("", "verif-config")
	if err != nil {
		panic(err)
	}
	os.Setenv("STORETHEINDEX_PATH", dir)
	return filepath.Join(dir, "config"), func() { os.RemoveAll(dir) }
}

// fields gives the settings to change: any one or two of them.
func fields(w *mcrt.World, f func(l leaf, n int)) string {
	i := w.Choose(len(leaves), "setting")
	vi := w.Choose(len(leaves[i].values()), "value")
	f(leaves[i], vi)
	what := fmt.Sprint(leaves[i].path, " ", vi)
	if j := i + 1 + w.Choose(len(leaves)-i, "and setting"); j < len(leaves) {
		vj := w.Choose(len(leaves[j].values()), "value")
		f(leaves[j], vj)
		what += fmt.Sprint(", ", leaves[j].path, " ", vj)
	}
	return what
}

// cfgRoundTrip: what is saved is what is loaded.
func cfgRoundTrip(w *mcrt.World) {
	file, done := scratch()
	defer done()
	c := defaults()
	what := fields(w, func(l leaf, n int) { l.set(c, l.values()[n]) })
	if err := c.Save(file); err != nil {
		w.Fail("C15", "not saved", "%s: %v", what, err)
		return
	}
	got, err := config.Load(file)
	if err != nil {
		w.Fail("C15", "not loaded", "%s: a saved configuration is refused: %v", what, err)
		return
	}
	if d := diff(got, c); d != "" {
		w.Fail("C15", "settings", "%s: saved and loaded, %s", what, d)
	}
	w.Observe("%s", what)
}

func mustJSON(v interface{}) obj {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	o := obj{}
	if err = json.Unmarshal(b, &o); err != nil {
		panic(err)
	}
	return o
}

func without(o obj, path string) {
	ps := strings.Split(path, ".")
	for _, p := range ps[:len(ps)-1] {
		n, ok := o[p].(obj)
		if !ok {
			return
		}
		o = n
	}
	delete(o, ps[len(ps)-1])
}

// cfgDefaults: a setting left out has its default, and every other setting has
// its value.
func cfgDefaults(w *mcrt.World) {
	file, done := scratch()
	defer done()
	want := differing()
	o := mustJSON(want)
	def := defaults()
	drop := func(l leaf) {
		if l.path == "Version" {
			return
		}
		without(o, l.path)
		l.set(want, l.get(def))
	}
	what := "without "
	// sections
	var secs []string
	t := reflect.TypeOf(*def)
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type.Kind() == reflect.Struct {
			secs = append(secs, t.Field(i).Name)
		}
	}
	secs = append(secs, "Discovery.Policy", "Ingest.RateLimit")
	if s := w.Choose(len(secs)+1, "section"); s < len(secs) {
		what += secs[s]
		for _, l := range leaves {
			if strings.HasPrefix(l.path, secs[s]+".") {
				l.set(want, l.get(def))
			}
		}
		without(o, secs[s])
	}
	i := w.Choose(len(leaves), "setting")
	drop(leaves[i])
	what += ", " + leaves[i].path
	if j := i + 1 + w.Choose(len(leaves)-i, "and setting"); j < len(leaves) {
		drop(leaves[j])
		what += ", " + leaves[j].path
	}
	b, _ := json.Marshal(o)
	ioutil.WriteFile(file, b, 0o644)
	got, err := config.Load(file)
	if err != nil {
		w.Fail("C15", "not loaded", "%s: %v", what, err)
		return
	}
	if d := diff(got, want); d != "" {
		w.Fail("C15", "settings", "%s: %s", what, d)
	}
	w.Observe("%s", what)
}

// zeroDefault are settings that have their default when zero;
// zeroMeans are settings whose zero has a meaning of its own.
var zeroDefault = []string{"Indexer.CacheSize", "Indexer.ConfigCheckInterval", "Indexer.GCInterval", "Indexer.ShutdownTimeout", "Indexer.ValueStoreDir", "Indexer.ValueStoreType",
	"Ingest.AdvertisementDepthLimit", "Ingest.EntriesDepthLimit", "Ingest.SyncSegmentDepthLimit",
	"Addresses.Admin", "Addresses.Finder", "Addresses.Ingest", "Addresses.P2PAddr", "Datastore.Dir", "Datastore.Type",
	"Discovery.PollInterval", "Discovery.PollRetryAfter", "Discovery.PollStopAfter", "Discovery.Timeout",
	"Ingest.HttpSyncRetryMax", "Ingest.HttpSyncRetryWaitMax", "Ingest.HttpSyncRetryWaitMin", "Ingest.HttpSyncTimeout", "Ingest.IngestWorkerCount",
	"Ingest.PubSubTopic", "Ingest.StoreBatchSize", "Ingest.SyncTimeout", "Logging.Level"}
var zeroMeans = []string{"Discovery.RediscoverWait", "Ingest.RateLimit.BlocksPerSecond", "Bootstrap.MinimumPeers", "Bootstrap.Peers", "Discovery.Policy.Allow", "Discovery.Policy.Publish", "Discovery.Policy.Except", "Ingest.RateLimit.Apply", "Ingest.ResendDirectAnnounce", "Addresses.NoResourceManager", "Peering.Peers"}

func cfgZero(w *mcrt.World) {
	file, done := scratch()
	defer done()
	n := w.Choose(len(zeroDefault)+len(zeroMeans), "setting")
	path := append(append([]string{}, zeroDefault...), zeroMeans...)[n]
	for _, l := range leaves {
		if l.path != path {
			continue
		}
		c, want := differing(), differing()
		l.set(c, reflect.Zero(l.typ).Interface())
		if n < len(zeroDefault) {
			l.set(want, l.get(defaults()))
		} else {
			l.set(want, reflect.Zero(l.typ).Interface())
		}
		if path == "Ingest.RateLimit.BlocksPerSecond" {
			c.Ingest.RateLimit.BurstSize, want.Ingest.RateLimit.BurstSize = 9, 9
		}
		b, _ := json.Marshal(c)
		if l.typ.Kind() == reflect.Slice {
			b = bytes.Replace(b, []byte("null"), []byte("[]"), -1)
		}
		ioutil.WriteFile(file, b, 0o644)
		got, err := config.Load(file)
		if err != nil {
			w.Fail("C15", "not loaded", "zero %s: %v", path, err)
			return
		}
		if d := diff(got, want); d != "" {
			w.Fail("C15", "settings", "zero %s: %s", path, d)
		}
	}
	w.Observe("%s", path)
}

// cfgUnusable: every prefix of a configuration file and every setting of
// another type is refused.
func cfgUnusable(w *mcrt.World) {
	file, done := scratch()
	defer done()
	c := []*config.Config{defaults(), differing()}[w.Choose(2, "configuration")]
	try := func(b []byte, what string) {
		ioutil.WriteFile(file, b, 0o644)
		if _, err := config.Load(file); err == nil {
			w.Fail("C15", "unusable file accepted", "%s", what)
		}
		if f, err := ioutil.ReadFile(file); err != nil || !bytes.Equal(f, b) {
			w.Fail("C15", "file changed", "%s: loading changes the file", what)
		}
	}
	if w.Choose(2, "kind") == 0 {
		b, err := config.Marshal(c)
		if err != nil {
			panic(err)
		}
		for i := 0; i < len(b); i++ {
			try(b[:i], fmt.Sprintf("the first %d of %d bytes", i, len(b)))
		}
		w.Observe("%d prefixes", len(b))
		return
	}
	wrong := map[string]interface{}{"number": 1, "text": "some", "boolean": true, "list": []string{"a"}, "list of numbers": []int{1}, "object": obj{"x": "y"}, "object of numbers": obj{"x": 1}, "fraction": 1.5}
	n := 0
	for _, l := range leaves {
		var right []string
		switch {
		case l.typ == durType:
		case l.typ.Kind() == reflect.String:
			right = []string{"text"}
		case l.typ.Kind() == reflect.Int:
			right = []string{"number"}
		case l.typ.Kind() == reflect.Bool:
			right = []string{"boolean"}
		case l.typ == reflect.TypeOf([]string{}):
			right = []string{"list"}
		case l.typ.Kind() == reflect.Map:
			right = []string{"object"}
		}
		for name, v := range wrong {
			if len(right) > 0 && right[0] == name {
				continue
			}
			b, _ := json.Marshal(with(mustJSON(c), l.path, v))
			try(b, fmt.Sprintf("%s is a %s", l.path, name))
			n++
		}
	}
	w.Observe("%d settings of the wrong type", n)
}

func runInit(args ...string) error {
	app := &cli.App{Name: "storetheindex", Commands: []*cli.Command{command.InitCmd}, Writer: ioutil.Discard, ErrWriter: ioutil.Discard, ExitErrHandler: func(*cli.Context, error) {}}
	return app.RunContext(bg, append([]string{"storetheindex", "init"}, args...))
}

// cfgUpgrade: init --upgrade keeps the old file and every setting.
func cfgUpgrade(w *mcrt.World) {
	file, done := scratch()
	defer done()
	ver := []int{0, 1, 2, 3}[w.Choose(4, "version")]
	c := defaults()
	what := fmt.Sprint("version ", ver, " ")
	switch w.Choose(4, "file") {
	case 1:
		what += "unusable"
		ioutil.WriteFile(file, []byte("{"), 0o644)
		if err := runInit("--upgrade"); err == nil {
			w.Fail("C15", "unusable file accepted", "init --upgrade of an unusable file succeeds")
		}
		if b, _ := ioutil.ReadFile(file); string(b) != "{" {
			w.Fail("C15", "file changed", "init --upgrade of an unusable file changes it to %q", b)
		}
		w.Observe("%s", what)
		return
	case 2:
		what += "missing"
		if err := runInit("--upgrade"); err == nil {
			w.Fail("C15", "unusable file accepted", "init --upgrade without a file succeeds")
		}
		w.Observe("%s", what)
		return
	case 3:
		// settings left out
		o := mustJSON(differing())
		c = differing()
		i := w.Choose(len(leaves), "setting")
		what += "without " + leaves[i].path
		without(o, leaves[i].path)
		leaves[i].set(c, leaves[i].get(defaults()))
		o["Version"] = ver
		b, _ := json.Marshal(o)
		ioutil.WriteFile(file, b, 0o644)
	default:
		i := w.Choose(len(leaves), "setting")
		v := w.Choose(len(leaves[i].values()), "value")
		what += fmt.Sprint(leaves[i].path, " ", v)
		leaves[i].set(c, leaves[i].values()[v])
		c.Version = ver
		b, _ := json.MarshalIndent(c, " ", "   ")
		ioutil.WriteFile(file, b, 0o644)
	}
	old, _ := ioutil.ReadFile(file)
	times := 1 + w.Choose(2, "times")
	for i := 0; i < times; i++ {
		if err := runInit("--upgrade"); err != nil {
			w.Fail("C15", "not upgraded", "%s: %v", what, err)
			return
		}
	}
	got, err := config.Load(file)
	if err != nil {
		w.Fail("C15", "not loaded", "%s: after an upgrade: %v", what, err)
		return
	}
	c.Version = config.Version
	if d := diff(got, c); d != "" {
		w.Fail("C15", "settings", "%s: after an upgrade %s", what, d)
	}
	if times == 1 {
		if b, _ := ioutil.ReadFile(fmt.Sprintf("%s.v%d", file, ver)); !bytes.Equal(b, old) {
			w.Fail("C15", "file lost", "%s: the old file is not kept", what)
		}
	}
	w.Observe("%s %d", what, times)
}

// cfgInit: init writes a configuration with the settings asked for, and never
// replaces one.
func cfgInit(w *mcrt.World) {
	file, done := scratch()
	defer done()
	want := defaults()
	var args []string
	type fl struct {
		arg string
		f   func()
	}
	flags := []fl{
		{"--cachesize=7", func() { want.Indexer.CacheSize = 7 }},
		{"--store=memory", func() { want.Indexer.ValueStoreType = "memory" }},
		{"--listen-admin=/ip4/1.2.3.4/tcp/1", func() { want.Addresses.Admin = "/ip4/1.2.3.4/tcp/1" }},
		{"--listen-finder=/ip4/1.2.3.4/tcp/2", func() { want.Addresses.Finder = "/ip4/1.2.3.4/tcp/2" }},
		{"--listen-ingest=/ip4/1.2.3.4/tcp/3", func() { want.Addresses.Ingest = "/ip4/1.2.3.4/tcp/3" }},
		{"--lotus-gateway=none", func() { want.Discovery.LotusGateway = "none" }},
		{"--pubsub-topic=t", func() { want.Ingest.PubSubTopic = "t" }},
		{"--no-bootstrap", nil},
		{"--store=bad", nil}, {"--listen-admin=bad", nil}, {"--listen-finder=bad", nil}, {"--listen-ingest=bad", nil},
	}
	bad, noboot := false, false
	for n := 0; n < 2; n++ {
		i := w.Choose(len(flags)+1, "flag")
		if i == len(flags) {
			continue
		}
		args = append(args, flags[i].arg)
		switch {
		case flags[i].f != nil:
			flags[i].f()
		case flags[i].arg == "--no-bootstrap":
			noboot = true
		default:
			bad = true
		}
	}
	// the last of two values counts
	if len(args) == 2 && strings.Split(args[0], "=")[0] == strings.Split(args[1], "=")[0] {
		w.Observe("skipped")
		return
	}
	what := "init " + strings.Join(args, " ")
	exists := w.Choose(2, "exists") == 1
	if exists {
		ioutil.WriteFile(file, []byte("mine"), 0o600)
	}
	err := runInit(args...)
	if (err != nil) != (bad || exists) {
		w.Fail("C15", "wrong result", "%s (file exists %v): %v", what, exists, err)
		return
	}
	if exists {
		if b, _ := ioutil.ReadFile(file); string(b) != "mine" {
			w.Fail("C15", "file lost", "%s replaces the configuration", what)
		}
		w.Observe("%s exists", what)
		return
	}
	if bad {
		if _, err := os.Stat(file); err == nil {
			w.Fail("C15", "wrong result", "%s leaves a file", what)
		}
		w.Observe("%s bad", what)
		return
	}
	got, err := config.Load(file)
	if err != nil {
		w.Fail("C15", "not loaded", "%s: %v", what, err)
		return
	}
	id, key, err := got.Identity.Decode()
	if err != nil || !id.MatchesPrivateKey(key) {
		w.Fail("C15", "settings", "%s: unusable identity: %v", what, err)
	}
	want.Identity = got.Identity
	if noboot {
		if len(got.Bootstrap.Peers) != 0 {
			w.Fail("C15", "settings", "%s: bootstrap peers %v", what, got.Bootstrap.Peers)
		}
		want.Bootstrap = got.Bootstrap
	}
	if d := diff(got, want); d != "" {
		w.Fail("C15", "settings", "%s: %s", what, d)
	}
	w.Observe("%s", what)
}

// cfgIdentity: the identity is that of the private key, or an error.
func cfgIdentity(w *mcrt.World) {
	file, done := scratch()
	defer done()
	raw := func(p *sim.Peer) []byte {
		b, err := crypto.MarshalPrivateKey(p.Priv)
		if err != nil {
			panic(err)
		}
		return b
	}
	var ident config.Identity
	pid := w.Pick("peer ID", "none", "own", "other", "bad")
	switch pid {
	case "own":
		ident.PeerID = me.ID.String()
	case "other":
		ident.PeerID = provA.ID.String()
	case "bad":
		ident.PeerID = "nobody"
	}
	key := w.Pick("key", "none", "own", "not base64", "not a key", "cut")
	switch key {
	case "own":
		ident.PrivKey = base64.StdEncoding.EncodeToString(raw(me))
	case "not base64":
		ident.PrivKey = "!!!"
	case "not a key":
		ident.PrivKey = base64.StdEncoding.EncodeToString([]byte("key"))
	case "cut":
		ident.PrivKey = base64.StdEncoding.EncodeToString(raw(me)[:20])
	}
	env := w.Pick("key file", "none", "own", "other", "missing", "bad")
	defer os.Unsetenv(config.PrivateKeyPathEnvVar)
	os.Unsetenv(config.PrivateKeyPathEnvVar)
	if env != "none" {
		os.Setenv(config.PrivateKeyPathEnvVar, file)
	}
	switch env {
	case "own":
		ioutil.WriteFile(file, raw(me), 0o600)
	case "other":
		ioutil.WriteFile(file, raw(provA), 0o600)
	case "bad":
		ioutil.WriteFile(file, []byte("key"), 0o600)
	}
	what := fmt.Sprintf("peer ID %s, key %s, key file %s", pid, key, env)
	var want *sim.Peer
	switch {
	case key == "own", key == "none" && env == "own":
		want = me
	case key == "none" && env == "other":
		want = provA
	}
	if pid == "bad" || pid == "own" && want != me || pid == "other" && want != provA {
		want = nil
	}
	id, k, err := ident.Decode()
	if want == nil {
		if err == nil {
			w.Fail("C15", "wrong identity", "%s: %s", what, id)
		}
	} else if err != nil || id != want.ID || !k.Equals(want.Priv) {
		w.Fail("C15", "wrong identity", "%s: %s, %v, want %s", what, id, err, want.ID)
	}
	w.Observe("%s %v", what, err == nil)
}

func init() {
	for _, s := range []struct {
		name string
		f    func(*mcrt.World)
	}{{"cfg-roundtrip", cfgRoundTrip}, {"cfg-defaults", cfgDefaults}, {"cfg-zero", cfgZero}, {"cfg-unusable", cfgUnusable}, {"cfg-upgrade", cfgUpgrade}, {"cfg-init", cfgInit}, {"cfg-identity", cfgIdentity}} {
		mcrt.Register(&mcrt.Scenario{Name: s.name, Prop: "C15", Run: s.f, Quick: 0, Thorough: 0, Race: -1, RaceThorough: -1, Horizon: time.Hour, NoMap: true, NoSelect: true})
	}
}
