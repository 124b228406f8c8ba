//go:build go1.22

// Package kit is the exhaustive explorer used by the sequential checks.
//
// A check is a set of families.  A family is a function that builds one
// behaviour (input, configuration or operation sequence) by calling
// X.Choose for every nondeterministic decision, drives the real code with
// it, and compares each observation with a reference model.  The explorer
// runs the function once for every possible sequence of choices (depth
// first, in parallel over disjoint prefixes), so the family's whole
// choice tree is covered.  Nothing is sampled.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Family struct {
	Name     string
	Thorough bool // only in the thorough tier
	Serial   bool // run on one worker (uses process-wide state)
	Split    int  // choices made before the work is split, 0 for as needed
	Run      func(x *X)
}

// X is one behaviour under construction.
type X struct {
	Thorough bool
	prefix   []int
	choices  []int
	arity    []int
	steps    []string
	stopAt   int
	w        *worker
	recTrace bool
}

type stopSignal struct{}
type skipSignal struct{}
type violation struct {
	sig, msg string
}

// Choose returns a value in [0,n); every value is explored.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic("Choose of nothing")
	}
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			panic(fmt.Sprintf("kit: replay diverged: choice %d of %d", c, n))
		}
	}
	x.choices = append(x.choices, c)
	x.arity = append(x.arity, n)
	if x.stopAt == len(x.choices) {
		panic(stopSignal{})
	}
	return c
}

func (x *X) Bool() bool { return x.Choose(2) == 1 }

func Pick[T any](x *X, opts []T) T { return opts[x.Choose(len(opts))] }

// Step records one transition: an operation applied to the real code.
func (x *X) Step(format string, args ...interface{}) {
	x.w.transitions++
	if x.recTrace {
		x.steps = append(x.steps, fmt.Sprintf(format, args...))
	}
}

// Op counts one transition without describing it.
func (x *X) Op() { x.w.transitions++ }

// State records a state (of the model / the explored space) as visited.
func (x *X) State(parts ...interface{}) {
	var h maphash.Hash
	h.SetSeed(seed)
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.WriteString(v)
		case int:
			var b [8]byte
			for i := range b {
				b[i] = byte(v >> (8 * i))
			}
			h.Write(b[:])
		default:
			fmt.Fprintf(&h, "%#v", p)
		}
		h.WriteByte(0)
	}
	x.w.addState(h.Sum64())
}

// Outcome counts a class of observed behaviour (vacuity control).
func (x *X) Outcome(class string) { x.w.outcomes[class]++ }

// Skip drops this behaviour as outside the property's domain.
func (x *X) Skip() { panic(skipSignal{}) }

func (x *X) Fail(sig string, format string, args ...interface{}) {
	panic(violation{sig, fmt.Sprintf(format, args...)})
}

func (x *X) Check(ok bool, sig string, format string, args ...interface{}) {
	if !ok {
		x.Fail(sig, format, args...)
	}
}

// Try runs f and reports a panic as (true, value).
func Try(f func()) (panicked bool, val interface{}) {
	done := false
	defer func() {
		if !done {
			panicked = true
			val = recover()
			switch v := val.(type) {
			case violation, skipSignal, stopSignal:
				panic(v)
			}
		}
	}()
	f()
	done = true
	return
}

var seed = maphash.MakeSeed()

type found struct {
	Family  string   `json:"family"`
	Choices []int    `json:"choices"`
	Sig     string   `json:"sig"`
	Msg     string   `json:"message"`
	Steps   []string `json:"steps"`
}

type worker struct {
	transitions int64
	execs       int64
	skipped     int64
	stateMu     *[64]stateShard
	outcomes    map[string]int64
}

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func (w *worker) addState(h uint64) {
	s := &w.stateMu[h&63]
	s.mu.Lock()
	s.m[h] = struct{}{}
	s.mu.Unlock()
}

type engine struct {
	prop      string
	thorough  bool
	deadline  time.Time
	cut       atomic.Bool
	mu        sync.Mutex
	viol      map[string]*found
	shards    [64]stateShard
	execs     int64
	skipped   int64
	trans     int64
	outcomes  map[string]int64
	samples   []interface{}
	perFamily []map[string]interface{}
}

// run executes one behaviour; returns choices, arity, violation.
func (e *engine) run(f *Family, w *worker, prefix []int, stopAt int, rec bool) (x *X, v *violation, stopped, skipped bool) {
	x = &X{Thorough: e.thorough, prefix: prefix, w: w, stopAt: stopAt, recTrace: rec}
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case stopSignal:
				stopped = true
			case skipSignal:
				skipped = true
			case violation:
				v = &t
			default:
				msg := fmt.Sprintf("unexpected panic: %v", r)
				if s := fmt.Sprint(r); strings.HasPrefix(s, "kit: ") {
					fmt.Fprintln(os.Stderr, s)
					os.Exit(3)
				}
				v = &violation{"panic", msg + "\n" + trimStack(string(debug.Stack()))}
			}
		}
	}()
	f.Run(x)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "jlib") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func next(choices, arity []int, floor int) []int {
	for i := len(choices) - 1; i >= floor; i-- {
		if choices[i]+1 < arity[i] {
			p := make([]int, i+1)
			copy(p, choices[:i])
			p[i] = choices[i] + 1
			return p
		}
	}
	return nil
}

func (e *engine) newWorker() *worker {
	return &worker{stateMu: &e.shards, outcomes: map[string]int64{}}
}

func (e *engine) family(f *Family) {
	start := time.Now()
	// split into prefixes
	scratch := &worker{outcomes: map[string]int64{}}
	var dummy [64]stateShard
	for i := range dummy {
		dummy[i].m = map[uint64]struct{}{}
	}
	scratch.stateMu = &dummy
	prefixes := [][]int{nil}
	var ran time.Duration
	if !f.Serial {
	splitting:
		for depth := 1; depth <= 5; depth++ {
			var ps [][]int
			p := []int{}
			longer := false
			for p != nil {
				t0 := time.Now()
				x, _, stopped, _ := e.run(f, scratch, p, depth, false)
				longer = longer || stopped
				if !stopped {
					// whole behaviours are for the workers
					if ran += time.Since(t0); ran > time.Second && depth > 1 {
						break splitting
					}
				}
				ps = append(ps, append([]int(nil), x.choices...))
				p = next(x.choices, x.arity, 0)
			}
			prefixes = ps
			if len(ps) >= 400 || depth == f.Split || !longer {
				break
			}
		}
	}
	var idx int64 = -1
	var lost atomic.Int64
	nw := runtime.GOMAXPROCS(0)
	if f.Serial {
		nw = 1
	}
	var wg sync.WaitGroup
	workers := make([]*worker, nw)
	for k := 0; k < nw; k++ {
		w := e.newWorker()
		workers[k] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&idx, 1)
				if i >= int64(len(prefixes)) {
					return
				}
				floor := len(prefixes[i])
				p := prefixes[i]
				for {
					if time.Now().After(e.deadline) {
						e.cut.Store(true)
						return
					}
					t0 := time.Now()
					x, v, _, sk := e.run(f, w, p, 0, false)
					if sk {
						w.skipped++
					} else {
						w.execs++
					}
					if v != nil {
						e.report(f, x, v)
						// slow violations (calls that never return) need not all be seen
						if lost.Add(int64(time.Since(t0))) > int64(2*time.Minute) {
							e.cut.Store(true)
							return
						}
					}
					p = next(x.choices, x.arity, floor)
					if p == nil {
						break
					}
				}
			}
		}()
	}
	wg.Wait()
	var ex, tr, sk int64
	for _, w := range workers {
		ex += w.execs
		tr += w.transitions
		sk += w.skipped
		for k, n := range w.outcomes {
			e.outcomes[f.Name+"/"+k] += n
		}
	}
	e.execs += ex
	e.trans += tr
	e.skipped += sk
	e.perFamily = append(e.perFamily, map[string]interface{}{
		"family": f.Name, "behaviours": ex, "operations": tr, "outside_domain": sk,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100})
	// one sample per family: the last behaviour of the first long prefix
	if len(prefixes) > 0 {
		x, _, _, _ := e.run(f, scratch, prefixes[len(prefixes)/2], 0, true)
		s := x.steps
		if len(s) > 8 {
			s = s[:8]
		}
		for i := range s {
			if len(s[i]) > 300 {
				s[i] = s[i][:300] + "..."
			}
		}
		e.samples = append(e.samples, map[string]interface{}{"family": f.Name, "choices": x.choices, "steps": s})
	}
}

func (e *engine) report(f *Family, x *X, v *violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := f.Name + "|" + v.sig
	old := e.viol[key]
	if old == nil && len(e.viol) >= 40 {
		return
	}
	if old != nil && !lessChoices(x.choices, old.Choices) {
		return
	}
	w := &worker{outcomes: map[string]int64{}}
	var dummy [64]stateShard
	for i := range dummy {
		dummy[i].m = map[uint64]struct{}{}
	}
	w.stateMu = &dummy
	fd := &found{Family: f.Name, Choices: append([]int(nil), x.choices...), Sig: v.sig, Msg: v.msg}
	if x2, v2, _, _ := e.run(f, w, x.choices, 0, true); v2 != nil {
		fd.Steps = x2.steps
	}
	e.viol[key] = fd
}

func lessChoices(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Main runs the families of one property.
func Main(props map[string][]Family) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay file")
	family := flag.String("family", "", "only this family (development)")
	secs := flag.Float64("deadline", 240, "seconds")
	flag.Parse()
	debug.SetGCPercent(400)
	fams, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *family != "" {
		var some []Family
		for _, f := range fams {
			if f.Name == *family {
				some = append(some, f)
			}
		}
		fams = some
	}
	e := &engine{prop: *prop, thorough: *tier == "thorough", viol: map[string]*found{}, outcomes: map[string]int64{}}
	for i := range e.shards {
		e.shards[i].m = map[uint64]struct{}{}
	}
	e.deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var fd found
		if err := json.Unmarshal(data, &fd); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for i := range fams {
			if fams[i].Name == fd.Family {
				x, v, _, _ := e.run(&fams[i], e.newWorker(), fd.Choices, 0, true)
				for _, s := range x.steps {
					fmt.Println("  step:", s)
				}
				if v != nil {
					fmt.Println("  violated:", v.sig, v.msg)
					os.Exit(1)
				}
				fmt.Println("  not violated")
				os.Exit(0)
			}
		}
		os.Exit(3)
	}
	start := time.Now()
	for i := range fams {
		if fams[i].Thorough && !e.thorough {
			continue
		}
		e.family(&fams[i])
	}
	states := 0
	for i := range e.shards {
		states += len(e.shards[i].m)
	}
	vs := []*found{}
	for _, v := range e.viol {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Family != vs[j].Family {
			return vs[i].Family < vs[j].Family
		}
		return vs[i].Sig < vs[j].Sig
	})
	res := map[string]interface{}{
		"states": states, "transitions": e.trans, "traces_validated_against_impl": e.execs,
		"skipped_outside_domain": e.skipped, "exhaustive": !e.cut.Load(), "outcomes": e.outcomes,
		"families": e.perFamily, "samples": e.samples, "violations": vs,
		"wall_s": time.Since(start).Seconds(),
	}
	data, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, data, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		fmt.Println(string(data))
	}
}
