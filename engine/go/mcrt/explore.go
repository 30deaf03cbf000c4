package mcrt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var scenarios = map[string]*Scenario{}

// Register adds a scenario.
func Register(s *Scenario) {
	if scenarios[s.Name] != nil {
		panic("duplicate scenario " + s.Name)
	}
	if s.Horizon == 0 {
		s.Horizon = time.Hour
	}
	if s.MaxPoints == 0 {
		s.MaxPoints = 400000
	}
	if len(s.Props) == 0 {
		s.Props = []string{s.Prop}
	}
	if s.Weight == 0 {
		s.Weight = 1
	}
	scenarios[s.Name] = s
}

// dev is one non-default decision.
type dev struct {
	I uint32 `json:"i"`
	C uint16 `json:"c"`
}

type item struct {
	D    []dev `json:"d"`
	Cost int   `json:"k"`
}

func (it item) prefix() []uint16 {
	if len(it.D) == 0 {
		return nil
	}
	p := make([]uint16, it.D[len(it.D)-1].I+1)
	for _, d := range it.D {
		p[d.I] = d.C
	}
	return p
}

type task struct {
	Cmd      string            `json:"cmd"` // run, replay, quit
	Scenario string            `json:"scenario"`
	Bound    int               `json:"bound"`
	Items    []item            `json:"items"`
	MaxExecs int               `json:"max_execs"`
	MaxMs    int64             `json:"max_ms"`
	Known    map[string]string `json:"known"` // "prop|class" -> id
	Props    map[string]bool   `json:"props"` // properties being decided
}

type reply struct {
	Execs    int64          `json:"execs"`
	NewExecs int64          `json:"new_execs"` // executions with cost == bound
	Points   int64          `json:"points"`
	States   int64          `json:"states"`
	Diverged int64          `json:"diverged"`
	Left     []item         `json:"left"`
	Bad      *item          `json:"bad,omitempty"`
	Viol     []Violation    `json:"viol,omitempty"`
	Known    map[string]int `json:"known,omitempty"`
	Outcomes []string       `json:"outcomes,omitempty"`
	Log      []string       `json:"log,omitempty"`
	Stack    string         `json:"stack,omitempty"`
	Recycle  bool           `json:"recycle,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	Hash     uint64         `json:"hash"`
	LimitHit int64          `json:"limit_hit"`
}

type result struct {
	status   int32
	trace    []rec
	points   int64
	diverged bool
	viol     []Violation
	outcome  string
	log      []string
	stack    string
	races    int
}

var traceBuf []rec
var raceSeen int
var raceLogOff int64

func configure(sc *Scenario) {
	pats := sc.Only
	if pats == nil {
		pats = []string{"github.com/filecoin-project/storetheindex/", "github.com/filecoin-project/go-legs.", "context.(*cancelCtx).cancel"}
	}
	bg := append([]string{"github.com/filecoin-project/storetheindex/internal/verifmc/", "github.com/filecoin-project/storetheindex/internal/metrics"}, sc.ExtraBG...)
	gps := sc.GoPats
	if gps == nil {
		gps = []string{"github.com/filecoin-project/storetheindex/", "github.com/filecoin-project/go-legs.", "time.goFunc", "main."}
	}
	mcConfig(pats, bg, gps)
}

func runOnce(sc *Scenario, it item, verbose bool) result {
	if traceBuf == nil {
		traceBuf = make([]rec, 1<<17)
	}
	w := &World{sc: sc, verbose: verbose}
	var done int32
	minID := mcGoid()
	// goroutine ids only grow: everything created from now on is larger
	ch := make(chan int64, 1)
	go func() { ch <- mcGoid() }()
	if id := <-ch; id > minID {
		minID = id
	}
	st, n, pts, _, div, _ := mcRun(func() {
		sc.Run(w)
		atomic.StoreInt32(&done, 1)
	}, it.prefix(), traceBuf, T0, int64(sc.Horizon), sc.MaxPoints)
	atomic.LoadInt32(&done)
	r := result{status: st, trace: traceBuf[:n], points: pts, diverged: div}
	w.mu.Lock()
	r.viol = w.viol
	r.log = w.log
	r.outcome = strings.Join(w.outcome, "; ")
	w.mu.Unlock()
	if st != stDone && !sc.HangOK {
		kind := map[int32]string{stDeadlock: "deadlock: nothing can make progress", stHorizon: "hang: not finished within the horizon", stLimit: "livelock: too many steps"}[st]
		r.stack = stacks(minID)
		r.viol = append(r.viol, Violation{sc.Prop, "stuck", kind + "; blocked at " + blockedAt(r.stack)})
		r.outcome += " stuck"
	}
	if raceEnabled {
		if n := raceErrors(); n > raceSeen {
			r.races = n - raceSeen
			raceSeen = n
			text, class := raceText()
			if class != "" {
				r.viol = append(r.viol, Violation{sc.Prop, class, text})
			}
		}
	}
	return r
}

// raceText reads what the race detector wrote since the last call. Races in
// which no code of the repository takes part are ignored.
func raceText() (string, string) {
	path := os.Getenv("MC_RACELOG") + fmt.Sprintf(".%d", os.Getpid())
	b, err := os.ReadFile(path)
	if err != nil || int64(len(b)) <= raceLogOff {
		return "", ""
	}
	s := string(b[raceLogOff:])
	raceLogOff = int64(len(b))
	var classes []string
	for _, rep := range strings.Split(s, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		// the accesses are the blocks before "Goroutine ... created at"
		if i := strings.Index(rep, "\nGoroutine "); i >= 0 {
			rep = rep[:i]
		}
		var fs []string
		for _, blk := range strings.Split(rep, "\n\n") {
			// the innermost frame of the repository or the harness; an
			// access by the harness itself (its stubs included) is its own
			f := ""
			for _, l := range strings.Split(blk, "\n") {
				if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") {
					continue
				}
				if strings.HasPrefix(l, "  main.") || strings.Contains(l, "verifmc") {
					break
				}
				if i := strings.Index(l, "filecoin-project/storetheindex/"); i >= 0 {
					f = l[i+len("filecoin-project/storetheindex/"):]
					if j := strings.LastIndex(f, "("); j > 0 {
						f = f[:j]
					}
					break
				}
			}
			if f != "" {
				fs = append(fs, f)
			}
		}
		if len(fs) == 0 {
			continue
		}
		sort.Strings(fs)
		classes = append(classes, strings.Join(fs, " / "))
	}
	if len(classes) == 0 {
		return "", ""
	}
	return "data race: " + strings.Join(classes, "; ") + "\n" + s, "data race"
}

func cost(k uint8) int {
	if k == kindUser {
		return 0
	}
	return 1
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	// what the code under test prints is not part of the protocol
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	dec := json.NewDecoder(in)
	var cur []byte
	if p := os.Getenv("MC_CUR"); p != "" {
		f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			f.Truncate(1 << 16)
			cur, _ = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	sent := map[string]map[uint64]bool{}
	first := true
	for {
		var t task
		if err := dec.Decode(&t); err != nil || t.Cmd == "quit" {
			os.Exit(0)
		}
		sc := scenarios[t.Scenario]
		configure(sc)
		if first {
			// run the default execution once so that lazily built globals exist
			note(cur, item{})
			runOnce(sc, item{}, false)
			first = false
		}
		rep := reply{Known: map[string]int{}}
		if t.Cmd == "replay" {
			note(cur, t.Items[0])
			r := runOnce(sc, t.Items[0], true)
			rep.Viol, rep.Log, rep.Stack = r.viol, r.log, r.stack
			rep.Execs = 1
			for _, x := range r.trace {
				if x.C != 0 {
					rep.Trace = append(rep.Trace, fmt.Sprintf("kind=%d n=%d c=%d gid=%d", x.Kind, x.N, x.C, x.Gid))
				}
			}
			rep.Hash = traceHash(r.trace)
			out.Encode(&rep)
			continue
		}
		if sent[t.Scenario] == nil {
			sent[t.Scenario] = map[uint64]bool{}
		}
		stack := t.Items
		start := realNow()
		sinceGC := 0
		for len(stack) > 0 {
			if rep.Execs > 0 && (rep.Execs >= int64(t.MaxExecs) || realNow()-start > t.MaxMs*1e6) {
				break
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			note(cur, it)
			r := runOnce(sc, it, false)
			rep.Execs++
			if it.Cost == t.Bound {
				rep.NewExecs++
			}
			if it.Cost == t.Bound {
				rep.Points += r.points
			}
			if r.diverged {
				rep.Diverged++
			}
			if r.status == stLimit {
				rep.LimitHit++
			}
			base := 0
			if len(it.D) > 0 {
				base = int(it.D[len(it.D)-1].I) + 1
			}
			if len(r.trace) > base && it.Cost == t.Bound {
				rep.States += int64(len(r.trace) - base)
			}
			h := fnv.New64a()
			h.Write([]byte(r.outcome))
			if hv := h.Sum64(); !sent[t.Scenario][hv] && len(sent[t.Scenario]) < 5000 {
				sent[t.Scenario][hv] = true
				rep.Outcomes = append(rep.Outcomes, r.outcome)
			}
			var bad []Violation
			for _, v := range r.viol {
				if t.Props != nil && !t.Props[v.Prop] {
					continue
				}
				if id, ok := t.Known[v.Prop+"|"+v.Class]; ok {
					rep.Known[id]++
					continue
				}
				bad = append(bad, v)
			}
			if len(bad) > 0 {
				b := it
				rep.Bad = &b
				rep.Viol = bad
				rep.Stack = r.stack
				rep.Left = stack
				break
			}
			// children
			for i := len(r.trace) - 1; i >= base; i-- {
				x := r.trace[i]
				if x.Kind == kindMap && sc.NoMap || x.Kind == kindSelect && sc.NoSelect {
					continue
				}
				c := it.Cost + cost(x.Kind)
				if c > t.Bound {
					continue
				}
				for a := int(x.N) - 1; a >= 1; a-- {
					d := make([]dev, len(it.D), len(it.D)+1)
					copy(d, it.D)
					stack = append(stack, item{D: append(d, dev{uint32(i), uint16(a)}), Cost: c})
				}
			}
			if raceEnabled && runtime.NumGoroutine() > 5000 {
				// the race detector has a limit
				rep.Recycle = true
				break
			}
			sinceGC++
			if sinceGC >= 200 {
				sinceGC = 0
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 300<<20 {
					runtime.GC()
					runtime.ReadMemStats(&ms)
					if ms.HeapAlloc > 250<<20 || runtime.NumGoroutine() > 60000 {
						rep.Recycle = true
						break
					}
				}
			}
		}
		rep.Left = stack
		if !rep.Recycle {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 300<<20 {
				runtime.GC()
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > 250<<20 || runtime.NumGoroutine() > 60000 {
				rep.Recycle = true
			}
		}
		out.Encode(&rep)
		if rep.Recycle {
			os.Exit(0)
		}
	}
}

func traceHash(tr []rec) uint64 {
	h := fnv.New64a()
	for _, x := range tr {
		fmt.Fprintf(h, "%d %d %d %d,", x.Kind, x.N, x.C, x.Gid)
	}
	return h.Sum64()
}

func realNow() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Sec*1e9 + tv.Usec*1e3
}

func note(cur []byte, it item) {
	if cur == nil {
		return
	}
	b, _ := json.Marshal(it)
	if len(b) > len(cur)-8 {
		b = nil
	}
	copy(cur[8:], b)
	n := len(b)
	cur[0], cur[1], cur[2], cur[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
}

// ---- supervisor ----

type wproc struct {
	cmd    *exec.Cmd
	enc    *json.Encoder
	dec    *json.Decoder
	cur    string
	stderr string
	id     int
}

type sup struct {
	dir     string
	self    string
	seq     int64
	started []*os.Process
}

func (s *sup) start() (*wproc, error) {
	id := int(atomic.AddInt64(&s.seq, 1))
	w := &wproc{id: id}
	w.cur = filepath.Join(s.dir, fmt.Sprintf("cur.%d", id))
	w.stderr = filepath.Join(s.dir, fmt.Sprintf("stderr.%d", id))
	w.cmd = exec.Command(s.self, "worker")
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "MC_CUR="+w.cur, "GOLOG_LOG_LEVEL=fatal", "GOTRACEBACK=all",
		"MC_RACELOG="+filepath.Join(s.dir, "race"), "GORACE=log_path="+filepath.Join(s.dir, "race")+" halt_on_error=0 exitcode=0 history_size=3")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ef, err := os.Create(w.stderr)
	if err != nil {
		return nil, err
	}
	w.cmd.Stderr = ef
	if l := os.Getenv("MC_LOG"); l != "" {
		w.cmd.Env = append(w.cmd.Env, "GOLOG_LOG_LEVEL="+l)
		w.cmd.Stderr = os.Stderr
	}
	ip, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	op, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	err = w.cmd.Start()
	runtime.UnlockOSThread()
	if err != nil {
		return nil, err
	}
	ef.Close()
	w.enc = json.NewEncoder(ip)
	w.dec = json.NewDecoder(bufio.NewReaderSize(op, 1<<20))
	return w, nil
}

func (w *wproc) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.Remove(w.cur)
	os.Remove(w.stderr)
}

func (w *wproc) curItem() (item, bool) {
	b, err := os.ReadFile(w.cur)
	if err != nil || len(b) < 8 {
		return item{}, false
	}
	n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
	if n <= 0 || n > len(b)-8 {
		return item{}, false
	}
	var it item
	if json.Unmarshal(b[8:8+n], &it) != nil {
		return item{}, false
	}
	return it, true
}

var errTimeout = fmt.Errorf("timeout")

// do sends t and waits for the reply. crash is the stderr text if the worker
// died instead.
func (w *wproc) do(t task, limit time.Duration) (rep reply, crash string, err error) {
	if err = w.enc.Encode(&t); err != nil {
		return rep, "", err
	}
	ch := make(chan error, 1)
	go func() { ch <- w.dec.Decode(&rep) }()
	select {
	case err = <-ch:
	case <-time.After(limit):
		w.cmd.Process.Kill()
		<-ch
		w.cmd.Wait()
		return rep, "", errTimeout
	}
	if err != nil {
		werr := w.cmd.Wait()
		b, _ := os.ReadFile(w.stderr)
		if len(b) > 200000 {
			b = b[:200000]
		}
		return rep, fmt.Sprintf("worker ended: %v\n%s", werr, b), nil
	}
	return rep, "", nil
}

// ScenarioReport is what a run of one scenario covered.
type ScenarioReport struct {
	Scenario       string         `json:"scenario"`
	Race           bool           `json:"race"`
	BoundCompleted int            `json:"bound_completed"`
	BoundWanted    int            `json:"bound_wanted"`
	Executions     int64          `json:"executions"`
	Distinct       int64          `json:"distinct_executions"`
	States         int64          `json:"states"`
	Transitions    int64          `json:"transitions"`
	Outcomes       int            `json:"distinct_outcomes"`
	SampleOutcomes []string       `json:"sample_outcomes"`
	Diverged       int64          `json:"diverged"`
	LimitHit       int64          `json:"limit_hit"`
	Known          map[string]int `json:"known"`
	PerBound       []int64        `json:"executions_per_bound"`
	Complete       bool           `json:"complete"`
	WallS          float64        `json:"wall_s"`
	Notes          []string       `json:"notes"`
}

// FoundViolation is a confirmed violation.
type FoundViolation struct {
	Violation
	Scenario string   `json:"scenario"`
	Race     bool     `json:"race"`
	Item     item     `json:"item"`
	Log      []string `json:"log"`
	Stack    string   `json:"stack"`
	Trace    []string `json:"trace"`
}

// Report is the output file of a run.
type Report struct {
	Scenarios  []ScenarioReport `json:"scenarios"`
	Violations []FoundViolation `json:"violations"`
	Errors     []string         `json:"errors"`
}

type runOpts struct {
	Scenarios []string          `json:"scenarios"`
	Tier      string            `json:"tier"`
	BudgetS   float64           `json:"budget_s"`
	Known     map[string]string `json:"known"`
	Props     []string          `json:"props"`
	Workers   int               `json:"workers"`
	Out       string            `json:"out"`
	Scratch   string            `json:"scratch"`
	Bound     int               `json:"bound"` // override, -1 none
}

func crashClass(text string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			if len(l) > 200 {
				l = l[:200]
			}
			return l
		}
	}
	// the code under test ended the process; workers end with 0 or are killed
	for _, st := range []string{"1", "255"} {
		if strings.HasPrefix(text, "worker ended: exit status "+st+"\n") {
			return "the process exited with status " + st
		}
	}
	return ""
}

// crashTop is the first repository function in the panicking stack.
func crashTop(text string) string {
	i := strings.Index(text, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	for _, l := range strings.Split(text[i:], "\n") {
		if j := strings.Index(l, "filecoin-project/"); j >= 0 && !strings.HasPrefix(l, "\t") && !strings.Contains(l, "verifmc") {
			f := l[j+len("filecoin-project/"):]
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			return f
		}
	}
	return ""
}

const execLimit = 150 * time.Second

func (s *sup) runScenario(sc *Scenario, o *runOpts, deadline time.Time, rep *Report) (stop bool) {
	start := time.Now()
	want := sc.Quick
	if o.Tier == "thorough" {
		want = sc.Thorough
	}
	if raceEnabled {
		want = sc.Race
		if o.Tier == "thorough" {
			want = sc.RaceThorough
		}
	}
	if o.Bound >= 0 {
		want = o.Bound
	}
	sr := ScenarioReport{Scenario: sc.Name, Race: raceEnabled, BoundCompleted: -1, BoundWanted: want, Known: map[string]int{}}
	props := map[string]bool{}
	for _, p := range o.Props {
		props[p] = true
	}
	outcomes := map[string]bool{}
	var mu sync.Mutex
	defer func() {
		sr.WallS = time.Since(start).Seconds()
		sr.Outcomes = len(outcomes)
		for k := range outcomes {
			sr.SampleOutcomes = append(sr.SampleOutcomes, k)
		}
		sort.Strings(sr.SampleOutcomes)
		if len(sr.SampleOutcomes) > 8 {
			sr.SampleOutcomes = sr.SampleOutcomes[:8]
		}
		rep.Scenarios = append(rep.Scenarios, sr)
	}()
	for bound := 0; bound <= want; bound++ {
		if time.Now().After(deadline) {
			return false
		}
		queue := []item{{}}
		busy := 0
		cond := sync.NewCond(&mu)
		var found *FoundViolation
		halted := false
		var newExecs int64
		var wg sync.WaitGroup
		nw := o.Workers
		for k := 0; k < nw; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var w *wproc
				defer func() {
					if w != nil {
						w.kill()
					}
				}()
				for {
					mu.Lock()
					for len(queue) == 0 && busy > 0 && !halted {
						cond.Wait()
					}
					if halted || len(queue) == 0 || time.Now().After(deadline) {
						if !halted && len(queue) > 0 {
							halted = true
						}
						mu.Unlock()
						cond.Broadcast()
						return
					}
					// take a share from the front (cheap, shallow items first)
					n := len(queue) / (2 * nw)
					if n < 1 {
						n = 1
					}
					if n > 400 {
						n = 400
					}
					items := append([]item{}, queue[:n]...)
					queue = queue[n:]
					busy++
					small := len(queue) < 4*nw
					mu.Unlock()

					if w == nil {
						var err error
						w, err = s.start()
						if err != nil {
							mu.Lock()
							rep.Errors = append(rep.Errors, "cannot start worker: "+err.Error())
							halted = true
							busy--
							mu.Unlock()
							cond.Broadcast()
							return
						}
					}
					t := task{Cmd: "run", Scenario: sc.Name, Bound: bound, Items: items, MaxExecs: 4000, MaxMs: 1500, Known: o.Known, Props: props}
					if small {
						t.MaxExecs, t.MaxMs = 40, 150
					}
					r, crash, err := w.do(t, execLimit)
					mu.Lock()
					busy--
					if err == errTimeout {
						it, ok := w.curItem()
						w.kill()
						w = nil
						mu.Unlock()
						if ok {
							// one execution that does not end
							fv := s.confirmCrash(sc, it, o, "an execution does not end (busy loop)")
							mu.Lock()
							if fv != nil && props[fv.Prop] {
								found = fv
								halted = true
							} else {
								rep.Errors = append(rep.Errors, "unconfirmed timeout in "+sc.Name)
							}
							mu.Unlock()
						}
						cond.Broadcast()
						continue
					}
					if err != nil || crash != "" {
						it, ok := w.curItem()
						w.kill()
						w = nil
						mu.Unlock()
						cl := crashClass(crash)
						if ok && cl != "" {
							fv := s.confirmCrash(sc, it, o, crash)
							mu.Lock()
							if fv != nil {
								if id, k := o.Known[fv.Prop+"|"+fv.Class]; k {
									sr.Known[id]++
									// the items of the task that were not run are put back
									if len(items) > 1 || true {
										for _, x := range items {
											if !sameItem(x, it) {
												queue = append(queue, x)
											}
										}
									}
								} else if props[fv.Prop] {
									found = fv
									halted = true
								}
							} else {
								rep.Errors = append(rep.Errors, "unconfirmed crash in "+sc.Name+": "+cl)
							}
							mu.Unlock()
						} else {
							mu.Lock()
							rep.Errors = append(rep.Errors, fmt.Sprintf("worker failed in %s: %v %.300s", sc.Name, err, crash))
							if len(rep.Errors) > 20 {
								halted = true
							}
							mu.Unlock()
						}
						cond.Broadcast()
						continue
					}
					sr.Executions += r.Execs
					newExecs += r.NewExecs
					sr.States += r.States
					sr.Transitions += r.Points
					sr.Diverged += r.Diverged
					sr.LimitHit += r.LimitHit
					for k, v := range r.Known {
						sr.Known[k] += v
					}
					for _, oc := range r.Outcomes {
						if len(outcomes) < 20000 {
							outcomes[oc] = true
						}
					}
					queue = append(queue, r.Left...)
					mu.Unlock()
					if r.Bad != nil {
						fv := s.confirm(sc, *r.Bad, r.Viol[0], o)
						mu.Lock()
						if fv != nil {
							if found == nil {
								found = fv
							}
							halted = true
						} else {
							rep.Errors = append(rep.Errors, fmt.Sprintf("not reproducible in %s: %s %s: %.300s", sc.Name, r.Viol[0].Prop, r.Viol[0].Class, r.Viol[0].Text))
						}
						mu.Unlock()
					}
					if r.Recycle {
						w.kill()
						w = nil
					}
					cond.Broadcast()
				}
			}()
		}
		wg.Wait()
		sr.Distinct += newExecs
		sr.PerBound = append(sr.PerBound, newExecs)
		if found != nil {
			rep.Violations = append(rep.Violations, *found)
			return true
		}
		if halted || len(queue) > 0 {
			return false
		}
		sr.BoundCompleted = bound
	}
	sr.Complete = true
	return false
}

func sameItem(a, b item) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// confirm replays the execution in fresh processes; it counts only if every
// replay fails in the same way.
func (s *sup) confirm(sc *Scenario, it item, v Violation, o *runOpts) *FoundViolation {
	var last reply
	var hash uint64
	for i := 0; i < 3; i++ {
		w, err := s.start()
		if err != nil {
			return nil
		}
		r, crash, err := w.do(task{Cmd: "replay", Scenario: sc.Name, Items: []item{it}}, execLimit)
		w.kill()
		if err != nil || crash != "" {
			return nil
		}
		ok := false
		for _, x := range r.Viol {
			if x.Prop == v.Prop && x.Class == v.Class {
				ok = true
			}
		}
		if !ok {
			return nil
		}
		if i > 0 && r.Hash != hash && !raceEnabled {
			return nil
		}
		hash = r.Hash
		last = r
	}
	return &FoundViolation{Violation: v, Scenario: sc.Name, Race: raceEnabled, Item: it, Log: last.Log, Stack: last.Stack, Trace: last.Trace}
}

func (s *sup) confirmCrash(sc *Scenario, it item, o *runOpts, text string) *FoundViolation {
	timeout := !strings.Contains(text, "worker ended")
	cl := crashClass(text)
	for i := 0; i < 2; i++ {
		w, err := s.start()
		if err != nil {
			return nil
		}
		_, crash, err := w.do(task{Cmd: "replay", Scenario: sc.Name, Items: []item{it}}, execLimit)
		w.kill()
		if timeout {
			if err != errTimeout {
				return nil
			}
			continue
		}
		if err != nil || crashClass(crash) == "" {
			return nil
		}
	}
	class := "busy loop"
	if !timeout {
		class = "crash: " + crashTop(text)
		text = cl + "\n" + text
	}
	if len(text) > 6000 {
		text = text[:6000]
	}
	return &FoundViolation{Violation: Violation{sc.Prop, class, text}, Scenario: sc.Name, Race: raceEnabled, Item: it}
}

// Main is the entry point of a harness binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: worker | list | run OPTS.json | replay SCENARIO ITEM-JSON | one SCENARIO BOUND")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "prof":
		f, _ := os.Create(os.Args[3])
		fmt.Println(pprof.StartCPUProfile(f))
		sc := scenarios[os.Args[2]]
		configure(sc)
		t := time.Now()
		for i := 0; i < 2000; i++ {
			runOnce(sc, item{}, false)
		}
		fmt.Println(time.Since(t) / 2000)
		pprof.StopCPUProfile()
	case "list":
		type l struct {
			Name  string   `json:"name"`
			Props []string `json:"props"`
			Race  int      `json:"race"`
			RaceT int      `json:"race_thorough"`
			Q     int      `json:"quick"`
			T     int      `json:"thorough"`
			W     int      `json:"weight"`
		}
		var ls []l
		for _, s := range scenarios {
			ls = append(ls, l{s.Name, s.Props, s.Race, s.RaceThorough, s.Quick, s.Thorough, s.Weight})
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
		json.NewEncoder(os.Stdout).Encode(ls)
	case "run":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		o := runOpts{Bound: -1}
		if err := json.Unmarshal(b, &o); err != nil {
			panic(err)
		}
		runAll(&o)
	case "replay":
		var it item
		if err := json.Unmarshal([]byte(os.Args[3]), &it); err != nil {
			panic(err)
		}
		dir, _ := os.MkdirTemp("", "mcreplay")
		defer os.RemoveAll(dir)
		self, _ := os.Executable()
		s := &sup{dir: dir, self: self}
		w, err := s.start()
		if err != nil {
			panic(err)
		}
		r, crash, err := w.do(task{Cmd: "replay", Scenario: os.Args[2], Items: []item{it}}, execLimit)
		fmt.Println("crash:", crash, "err:", err)
		for _, l := range r.Log {
			fmt.Println(l)
		}
		for _, l := range r.Trace {
			fmt.Println("decision:", l)
		}
		for _, v := range r.Viol {
			fmt.Printf("violation %s [%s] %s\n", v.Prop, v.Class, v.Text)
		}
		fmt.Println(r.Stack)
		w.kill()
		if len(r.Viol) > 0 || crash != "" {
			os.Exit(1)
		}
	}
}

func runAll(o *runOpts) {
	dir, err := os.MkdirTemp(o.Scratch, "mcrun")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	s := &sup{dir: dir, self: self}
	rep := &Report{}
	end := time.Now().Add(time.Duration(o.BudgetS * float64(time.Second)))
	total := 0
	for _, n := range o.Scenarios {
		total += scenarios[n].Weight
	}
	for _, n := range o.Scenarios {
		sc := scenarios[n]
		left := time.Until(end)
		share := time.Duration(float64(left) * float64(sc.Weight) / float64(total))
		// allow to overdraw: scenarios that end early leave time to the others
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		stop := s.runScenario(sc, o, time.Now().Add(share), rep)
		total -= sc.Weight
		if stop {
			break
		}
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(o.Out, b, 0o644); err != nil {
		panic(err)
	}
}
