package mcrt

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// T0 is the virtual time at which every execution starts.
const T0 = int64(1_656_000_000_000_000_000)

// Scenario is one closed system to explore.
type Scenario struct {
	Name string
	// Prop is the property that a crash, deadlock or hang violates.
	Prop string
	// Props are all the properties the scenario can report on (includes Prop).
	Props []string
	// Run is the root of an execution. It is called inside the world.
	Run func(w *World)
	// Quick, Thorough: deviation bounds (number of non-default scheduling
	// decisions) completed for the tier, budget permitting.
	Quick, Thorough int
	// Horizon is the virtual time after which an execution is ended; root not
	// done by then is a hang.
	Horizon time.Duration
	// MaxPoints ends executions that never stop.
	MaxPoints int64
	// Only restricts scheduling points to the given packages (prefixes of
	// function names); nil means all of the repository and go-legs.
	Only []string
	// ExtraBG are function name prefixes that are not scheduling points.
	ExtraBG []string
	// GoPats: creators of goroutines whose order is explored (default repository, go-legs).
	GoPats []string
	// HangOK: an execution that does not finish is not a violation.
	HangOK bool
	// Race: also run under the race detector with this bound (-1: no).
	Race int
	// RaceThorough bound in thorough tier.
	RaceThorough int
	// NoMap disables enumeration of map iteration starts.
	NoMap bool
	// NoSelect: take the first ready case always.
	NoSelect bool
	// Weight scales the share of the time budget.
	Weight int
}

// Violation of a property in one execution.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"` // stable identification of what fails
	Text  string `json:"text"`
}

// World is the handle of the harness on one execution.
type World struct {
	mu      sync.Mutex
	sc      *Scenario
	viol    []Violation
	log     []string
	outcome []string
	verbose bool
	done    bool
	params  []string
}

// Fail records a violation. class identifies the failure independently of
// schedule details.
func (w *World) Fail(prop, class, format string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, v := range w.viol {
		if v.Prop == prop && v.Class == class {
			return
		}
	}
	w.viol = append(w.viol, Violation{prop, class, fmt.Sprintf(format, args...)})
}

// Failed reports whether a violation was recorded.
func (w *World) Failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.viol) != 0
}

// Logf adds a line to the log of the execution (kept only when needed).
func (w *World) Logf(format string, args ...interface{}) {
	if !w.verbose {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.log = append(w.log, fmt.Sprintf("%8.3fs ", float64(time.Now().UnixNano()-T0)/1e9)+fmt.Sprintf(format, args...))
}

// Observe adds to the outcome of the execution, used to count distinct
// behaviours.
func (w *World) Observe(format string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.outcome = append(w.outcome, fmt.Sprintf(format, args...))
}

// Choose enumerates 0..n-1, at no cost in deviations.
func (w *World) Choose(n int, what string) int {
	k := mcChoose(n)
	if w.verbose {
		w.Logf("choice %s = %d of %d", what, k, n)
	}
	return k
}

// Pick enumerates the given strings.
func (w *World) Pick(what string, opts ...string) string {
	k := w.Choose(len(opts), what)
	if w.verbose {
		w.Logf("  -> %s", opts[k])
	}
	return opts[k]
}

// Go starts a goroutine of the harness and returns a channel closed at its end.
func (w *World) Go(f func()) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		f()
	}()
	return ch
}

// Par runs the functions concurrently and waits for all of them.
func (w *World) Par(fs ...func()) {
	var chs []<-chan struct{}
	for _, f := range fs {
		chs = append(chs, w.Go(f))
	}
	for _, ch := range chs {
		<-ch
	}
}

// Within waits for ch for at most d of virtual time.
func (w *World) Within(ch <-chan struct{}, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		select {
		case <-ch:
			return true
		default:
		}
		return false
	}
}

// Catch runs f and returns the panic value if it panicked.
func Catch(f func()) (v interface{}) {
	defer func() { v = recover() }()
	f()
	return nil
}

// stacks returns the stacks of the goroutines with id > minID that belong to
// the repository.
func stacks(minID int64) string {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		var id int64
		if _, err := fmt.Sscanf(g, "goroutine %d ", &id); err != nil || id <= minID {
			continue
		}
		if !strings.Contains(g, "filecoin-project/") || strings.Contains(g, "mcrt.mcRun(") {
			continue
		}
		out = append(out, g)
	}
	if len(out) > 40 {
		out = out[:40]
	}
	return strings.Join(out, "\n\n")
}

// blockedAt summarises where repository goroutines are blocked, for the class
// of a deadlock.
func blockedAt(st string) string {
	set := map[string]bool{}
	for _, g := range strings.Split(st, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if i := strings.Index(l, "filecoin-project/"); i >= 0 && !strings.HasPrefix(l, "\t") && !strings.Contains(l, "verifmc") && !strings.HasPrefix(l, "created by") {
				f := l[i+len("filecoin-project/"):]
				if j := strings.LastIndex(f, "("); j > 0 {
					f = f[:j]
				}
				set[f] = true
				break
			}
		}
	}
	var fs []string
	for f := range set {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return strings.Join(fs, ",")
}
