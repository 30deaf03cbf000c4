package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	admin "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/internal/importer"
	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multibase"
	"github.com/multiformats/go-multihash"
)

// impLine is a line of a file to import: its text and the multihash it
// carries, "" if it carries none.
type impLine struct {
	text string
	mh   string
}

func cidText(name, form string) string {
	mh := sim.MH(name)
	switch form {
	case "v0":
		return cid.NewCidV0(mh).String()
	case "b58":
		s, err := cid.NewCidV1(cid.Raw, mh).StringOfBase(multibase.Base58BTC)
		if err != nil {
			panic(err)
		}
		return s
	case "b64":
		s, err := cid.NewCidV1(cid.DagCBOR, mh).StringOfBase(multibase.Base64)
		if err != nil {
			panic(err)
		}
		return s
	}
	return cid.NewCidV1(cid.Raw, mh).String()
}

// impLines is the alphabet of lines; i is the number of the line.
func impLines(kind string, i int) []impLine {
	n := fmt.Sprint("f", i)
	h := string(sim.MH(n))
	if kind == "cidlist" {
		return []impLine{
			{cidText(n, "v1"), h}, {cidText(n, "v0"), h}, {cidText(n, "b58"), h}, {cidText(n, "b64"), h},
			{"", ""}, {"not a cid", ""}, {cidText(n, "v1")[:20], ""}, {cidText("f0", "v1"), string(sim.MH("f0"))},
		}
	}
	e := func(m map[string]interface{}) string {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	const t = "DagAggregateEntry"
	return []impLine{
		{e(map[string]interface{}{"RecordType": t, "DagCidV1": cidText(n, "v1"), "DagCidV0": cidText(n, "v0"), "DagSize": 1, "NodeCount": 2, "PathPrefixes": []string{"a", "b"}, "PathIndexes": []int{1, 2, 3}}), h},
		{e(map[string]interface{}{"RecordType": t, "DagCidV1": cidText(n, "v1")}), h},
		{e(map[string]interface{}{"RecordType": t, "DagCidV0": cidText(n, "v0")}), h},
		{e(map[string]interface{}{"RecordType": t, "DagCidV1": "junk", "DagCidV0": cidText(n, "v0")}), h},
		{e(map[string]interface{}{"RecordType": t, "DagCidV1": "junk", "DagCidV0": "junk"}), ""},
		{e(map[string]interface{}{"RecordType": "DagAggregateSummary", "EntriesSortedBy": "DagCidV1"}), ""},
		{"", ""}, {e(map[string]interface{}{"RecordType": t, "DagCidV1": cidText(n, "v1")})[:40], ""},
		{e(map[string]interface{}{"RecordType": t}), ""},
	}
}

var impEnds = []string{"\n", "\r\n"}

func impFile(text string) (string, func()) {
	f, err := ioutil.TempFile("", "verif-imp")
	if err != nil {
		panic(err)
	}
	if _, err = f.WriteString(text); err != nil {
		panic(err)
	}
	if err = f.Close(); err != nil {
		panic(err)
	}
	return f.Name(), func() { os.Remove(f.Name()) }
}

func (s *sys) admin() *admin.Client {
	c, err := admin.New(adminURL)
	if err != nil {
		panic(err)
	}
	return c
}

// imp imports a file through the admin interface.
func (s *sys) imp(kind, file string, p *sim.Peer, ctx, md string) error {
	c := s.admin()
	if kind == "cidlist" {
		return c.ImportFromCidList(bg, file, p.ID, []byte(ctx), []byte(md))
	}
	return c.ImportFromManifest(bg, file, p.ID, []byte(ctx), []byte(md))
}

// indexed is what the index writes so far have put, and removed by nobody.
func (s *sys) indexed() map[string]bool {
	m := map[string]bool{}
	for _, o := range s.ix.Log {
		if o.Kind == "flush" {
			continue
		}
		if o.Kind != "put" {
			m["unexpected "+o.Kind] = true
			continue
		}
		for _, h := range o.Mhs {
			vals, ok, err := s.ix.Get(h)
			if err != nil || !ok {
				m[fmt.Sprintf("put but not found %x", []byte(h))] = true
			}
			for _, v := range vals {
				m[fmt.Sprintf("%s/%s/%s/%x", v.ProviderID, v.ContextID, v.MetadataBytes, []byte(h))] = true
			}
		}
	}
	return m
}

func wantImp(m map[string]bool, p *sim.Peer, ctx, md string, mhs []string) {
	for _, h := range mhs {
		m[fmt.Sprintf("%s/%s/%s/%x", p.ID, ctx, md, h)] = true
	}
}

func sameSet(a, b map[string]bool) (missing, extra []string) {
	for k := range b {
		if !a[k] {
			missing = append(missing, k)
		}
	}
	for k := range a {
		if !b[k] {
			extra = append(extra, k)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	if len(missing) > 3 {
		missing = append(missing[:3], fmt.Sprint("... ", len(missing)-3, " more"))
	}
	if len(extra) > 3 {
		extra = append(extra[:3], fmt.Sprint("... ", len(extra)-3, " more"))
	}
	return
}

func (s *sys) checkImp(what string, want map[string]bool) {
	if missing, extra := sameSet(s.indexed(), want); missing != nil || extra != nil {
		s.w.Fail("C17", "entries differ", "%s: not indexed: %v; indexed but not in the file: %v", what, missing, extra)
	}
}

// impFiles: every short file.
func impFiles(max int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		kind := w.Pick("kind", "cidlist", "manifest")
		n := w.Choose(max+1, "lines")
		var text string
		var mhs []string
		for i := 0; i < n; i++ {
			al := impLines(kind, i)
			l := al[w.Choose(len(al), "line")]
			end := ""
			if i == n-1 {
				end = []string{"\n", "\r\n", ""}[w.Choose(3, "end")]
			} else if i == 0 {
				end = impEnds[w.Choose(2, "end")]
			} else if strings.HasSuffix(text, "\r\n") {
				end = "\r\n"
			} else {
				end = "\n"
			}
			text += l.text + end
			if l.mh != "" {
				mhs = append(mhs, l.mh)
			}
		}
		s := newSys(w, "C17", regCfg(), true)
		file, rm := impFile(text)
		defer rm()
		err := s.imp(kind, file, provA, "ctx", "md")
		want := map[string]bool{}
		wantImp(want, provA, "ctx", "md", mhs)
		if (err == nil) != (len(mhs) != 0) {
			w.Fail("C17", "wrong result", "%s of %d entries %q: %v", kind, len(mhs), text, err)
		}
		s.checkImp(fmt.Sprintf("%s %q", kind, text), want)
		w.Observe("%s %d %v", kind, len(mhs), err)
	}
}

// impSizes: file sizes around the batch size, and failing index writes.
func impSizes(w *mcrt.World) {
	kind := w.Pick("kind", "cidlist", "manifest")
	sizes := []int{1, 2, 255, 256, 257, 511, 512, 513, 1025}
	n := sizes[w.Choose(len(sizes), "entries")]
	bad := []int{-1, 0, 255, 256, n - 1}[w.Choose(5, "bad line at")]
	final := w.Choose(2, "final newline") == 1
	fault := w.Choose(4, "put that fails")
	var b strings.Builder
	var mhs []string
	for i := 0; i < n; i++ {
		l := impLines(kind, i)[1]
		if i == bad {
			b.WriteString("bad line\n")
		}
		b.WriteString(l.text)
		if i < n-1 || final {
			b.WriteString("\n")
		}
		mhs = append(mhs, l.mh)
	}
	s := newSys(w, "C17", regCfg(), true)
	file, rm := impFile(b.String())
	defer rm()
	count, failed := 0, false
	s.ix.Fault = func(k string) error {
		if k == "put" {
			if count++; count == fault {
				failed = true
				return errors.New("injected: index write failed")
			}
		}
		return nil
	}
	start := time.Now()
	err := s.imp(kind, file, provA, "ctx", "md")
	if d := time.Since(start); d > time.Second {
		w.Fail("C17", "no answer", "%s of %d entries, index write failed: %v: no answer for %v, then %v", kind, n, failed, d, err)
		return
	}
	if failed == (err == nil) {
		w.Fail("C17", "wrong result", "%s of %d entries, index write failed: %v, result: %v", kind, n, failed, err)
	}
	if failed {
		s.ix.Fault = nil
		if err = s.imp(kind, file, provA, "ctx", "md"); err != nil {
			w.Fail("C17", "wrong result", "%s of %d entries again after a failure: %v", kind, n, err)
		}
	}
	want := map[string]bool{}
	wantImp(want, provA, "ctx", "md", mhs)
	s.checkImp(fmt.Sprintf("%s of %d entries, bad line at %d", kind, n, bad), want)
	w.Observe("%s %d %v", kind, n, failed)
}

// impBatch: reading and indexing in every order around the batch size.
func impBatch(sizes ...int) func(w *mcrt.World) {
	return func(w *mcrt.World) {
		kind := w.Pick("kind", "cidlist", "manifest")
		n := sizes[w.Choose(len(sizes), "entries")]
		var b strings.Builder
		var mhs []string
		for i := 0; i < n; i++ {
			l := impLines(kind, i)[1]
			b.WriteString(l.text + "\n")
			mhs = append(mhs, l.mh)
		}
		mcrt.Calm(true)
		s := newSys(w, "C17", regCfg(), true)
		file, rm := impFile(b.String())
		defer rm()
		mcrt.Calm(false)
		err := s.imp(kind, file, provA, "ctx", "md")
		mcrt.Calm(true)
		if err != nil {
			w.Fail("C17", "wrong result", "%s of %d entries: %v", kind, n, err)
			return
		}
		want := map[string]bool{}
		wantImp(want, provA, "ctx", "md", mhs)
		s.checkImp(fmt.Sprintf("%s of %d entries", kind, n), want)
		w.Observe("%s %d", kind, n)
	}
}

// impLong: very long lines.
func impLong(w *mcrt.World) {
	kind := w.Pick("kind", "cidlist", "manifest")
	long := []int{4095, 4096, 4097, 65535, 65536, 65537, 200000, 2000000}[w.Choose(8, "length")]
	at := w.Choose(3, "position")
	final := w.Choose(2, "final newline") == 1
	valid := w.Choose(2, "well-formed") == 1
	var lines, mhs []string
	for i := 0; i < 2; i++ {
		if i == at {
			lines, mhs = impLongLine(kind, long, valid, lines, mhs)
		}
		l := impLines(kind, i)[0]
		lines, mhs = append(lines, l.text), append(mhs, l.mh)
	}
	if at == 2 {
		lines, mhs = impLongLine(kind, long, valid, lines, mhs)
	}
	text := strings.Join(lines, "\n")
	if final {
		text += "\n"
	}
	s := newSys(w, "C17", regCfg(), true)
	file, rm := impFile(text)
	defer rm()
	err := s.imp(kind, file, provA, "ctx", "md")
	want := map[string]bool{}
	wantImp(want, provA, "ctx", "md", mhs)
	if err == nil {
		s.checkImp(fmt.Sprintf("%s with line %d of %d bytes", kind, at, long), want)
	} else {
		if kind == "cidlist" || long < 60000 {
			w.Fail("C17", "wrong result", "%s with line %d of %d bytes: %v", kind, at, long, err)
		}
		if _, extra := sameSet(s.indexed(), want); extra != nil {
			w.Fail("C17", "entries differ", "%s with line %d of %d bytes: indexed but not in the file: %v", kind, at, long, extra)
		}
	}
	w.Observe("%s %d %v", kind, long, err == nil)
}

func impLongLine(kind string, n int, valid bool, lines, mhs []string) ([]string, []string) {
	if kind == "manifest" && valid {
		l := impLines(kind, 9)[1]
		return append(lines, l.text[:len(l.text)-1]+strings.Repeat(" ", n-len(l.text))+"}"), append(mhs, l.mh)
	}
	if valid {
		// trailing blanks belong to the line end
		l := impLines(kind, 9)[0]
		return append(lines, l.text+strings.Repeat("\r", n-len(l.text))), append(mhs, l.mh)
	}
	return append(lines, strings.Repeat("x", n)), mhs
}

type failReader struct {
	r   io.Reader
	err error
}

func (f failReader) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

// impRead: the readers, with read faults at every byte, short reads, data
// returned together with the end, and unbuffered or buffered channels.
func impRead(w *mcrt.World) {
	kind := w.Pick("kind", "cidlist", "manifest")
	crlf := impEnds[w.Choose(2, "line end")]
	final := w.Choose(2, "final newline") == 1
	al := impLines(kind, 1)
	bad := w.Choose(2, "bad line") == 1
	lines := []string{impLines(kind, 0)[0].text}
	mhs := []string{impLines(kind, 0)[0].mh}
	if bad {
		lines = append(lines, al[5].text)
	} else {
		lines, mhs = append(lines, al[1].text), append(mhs, al[1].mh)
	}
	text := strings.Join(lines, crlf)
	if final {
		text += crlf
	}
	cut := w.Choose(len(text)+2, "fault at") // len+1: no fault
	buf := []int{0, 1, 256}[w.Choose(3, "buffer")]
	fault := cut <= len(text)
	var r io.Reader = strings.NewReader(text)
	ferr := errors.New("injected: read failed")
	if fault {
		r = failReader{strings.NewReader(text[:cut]), ferr}
	}
	switch w.Pick("reads", "whole", "one byte", "with end") {
	case "one byte":
		r = iotest.OneByteReader(r)
	case "with end":
		r = iotest.DataErrReader(r)
	}
	out, done := make(chan multihash.Multihash, buf), make(chan error, 1)
	go func() {
		if kind == "cidlist" {
			importer.ReadCids(bg, r, out, done)
		} else {
			importer.ReadManifest(bg, r, out, done)
		}
	}()
	var got []string
	fin := w.Go(func() {
		for h := range out {
			got = append(got, string(h))
		}
	})
	if !w.Within(fin, time.Hour) {
		w.Fail("C17", "hang", "%s %q: reading does not end", kind, text)
		return
	}
	err := <-done
	if fault {
		if err == nil {
			w.Fail("C17", "error not reported", "%s %q: reading failed after %d bytes, no error reported", kind, text, cut)
		}
		for i, g := range got {
			if i >= len(mhs) || mhs[i] != g {
				w.Fail("C17", "entries differ", "%s %q cut at %d: read %x", kind, text, cut, got)
			}
		}
	} else if err != nil || fmt.Sprintf("%x", got) != fmt.Sprintf("%x", mhs) {
		w.Fail("C17", "entries differ", "%s %q: read %x, want %x; error %v", kind, text, got, mhs, err)
	}
	w.Observe("%s %d %v", kind, len(got), err != nil)
}

// impStop: the reader returns when its context ends although nobody takes
// what it reads.
func impStop(w *mcrt.World) {
	kind := w.Pick("kind", "cidlist", "manifest")
	take := w.Choose(4, "taken")
	buf := w.Choose(2, "buffer")
	var text string
	for i := 0; i < 3; i++ {
		text += impLines(kind, i)[0].text + "\n"
	}
	ctx, cancel := context.WithCancel(bg)
	out, done := make(chan multihash.Multihash, buf), make(chan error, 1)
	fin := w.Go(func() {
		if kind == "cidlist" {
			importer.ReadCids(ctx, strings.NewReader(text), out, done)
		} else {
			importer.ReadManifest(ctx, strings.NewReader(text), out, done)
		}
	})
	var got int
	taker := w.Go(func() {
		for ; got < take; got++ {
			select {
			case <-out:
			case <-time.After(time.Minute):
				return
			}
		}
	})
	w.Go(cancel)
	if !w.Within(fin, time.Hour) {
		w.Fail("C17", "hang", "%s: reading does not end when it is cancelled after %d entries", kind, take)
		return
	}
	<-taker
	w.Observe("%s %d %v", kind, got, <-done)
}

// impPar: two imports at once.
func impPar(w *mcrt.World) {
	kinds := []string{w.Pick("kind", "cidlist", "manifest"), w.Pick("kind", "cidlist", "manifest")}
	same := w.Choose(2, "same provider") == 1
	s := newSys(w, "C17", regCfg(), true)
	ps := []*sim.Peer{provA, provB}
	ctxs := []string{"c1", "c2"}
	if same {
		ps[1] = provA
	}
	want := map[string]bool{}
	var fs []func()
	for i := range kinds {
		i := i
		var text string
		var mhs []string
		for j := 0; j < 2; j++ {
			l := impLines(kinds[i], i*10+j)[1]
			text += l.text + "\n"
			mhs = append(mhs, l.mh)
		}
		l := impLines(kinds[i], 5)[0]
		text += l.text
		mhs = append(mhs, l.mh)
		wantImp(want, ps[i], ctxs[i], fmt.Sprint("md", i), mhs)
		file, rm := impFile(text)
		defer rm()
		fs = append(fs, func() {
			if err := s.imp(kinds[i], file, ps[i], ctxs[i], fmt.Sprint("md", i)); err != nil {
				w.Fail("C17", "wrong result", "import %d of %s: %v", i, kinds[i], err)
			}
		})
	}
	w.Par(fs...)
	s.checkImp(fmt.Sprint("two imports ", kinds), want)
	w.Observe("%v %v", kinds, same)
}

func init() {
	reg := func(name string, quick, thorough, race, raceThorough int, f func(*mcrt.World)) {
		mcrt.Register(&mcrt.Scenario{Name: name, Prop: "C17", Run: f, Quick: quick, Thorough: thorough, Race: race, RaceThorough: raceThorough, Horizon: 100 * time.Hour, NoMap: true})
	}
	reg("imp-files", 0, -1, -1, -1, impFiles(3))
	reg("imp-files-4", -1, 0, -1, -1, impFiles(4))
	reg("imp-sizes", 0, 0, -1, -1, impSizes)
	reg("imp-batch", 1, -1, -1, -1, impBatch(257))
	reg("imp-batch-2", -1, 1, -1, -1, impBatch(256, 257, 300, 513))
	reg("imp-long", 0, 0, -1, -1, impLong)
	reg("imp-read", 0, 1, -1, -1, impRead)
	reg("imp-stop", 2, 4, 1, 2, impStop)
	reg("imp-par", 1, 2, 1, 1, impPar)
}
