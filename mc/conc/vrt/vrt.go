//go:build go1.23

// Package vrt is a controlled scheduler for rewritten Go code. Threads run one
// at a time; every synchronisation operation and every access to a shared
// variable is a scheduling point, at which the explorer decides who goes on.
// Blocking in code that is not rewritten is noticed by running the whole
// execution in a synctest bubble and waiting for it to come to rest.
package vrt

import (
	"context"
	"fmt"
	"net/http"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(unsafe.Pointer)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

// Obj is the happens-before state of one shared object.
type Obj struct {
	s        *Sched
	fixed    uint64 // an id given beforehand
	id, w, r uint64
	vc       []uint32 // released by writers, senders
	vc2      []uint32 // released by readers, receivers
	// last accesses, for objects checked for races
	wT, wC uint32
	reads  []uint32
}

const (
	stParked = iota
	stRunning
	stNative
	stDone
)

type Thread struct {
	labels [3]uintptr // an empty label set for the runtime
	s      *Sched
	seq    int
	id     uint64
	name   string
	pc     uintptr
	wake   chan struct{}
	state  int8
	exit   bool // unwinding, operations pass through
	quiet  bool // does not count as left behind

	what  string
	ready func() bool
	where []uintptr

	chain       uint64
	spawn, objn uint32
	vc          []uint32

	cases    []*Case
	doneCase int
}

type timer struct {
	when time.Duration
	seq  int
	obj  *Obj
	fire func()
	on   bool
	weak bool // does not count as something the program waits for
}

// Sched is one execution.
type Sched struct {
	mu       sync.Mutex
	threads  []*Thread
	last     *Thread
	unparked int
	ended    bool
	aborting bool
	pruned   bool
	quiesced bool

	now    time.Duration
	timers []*timer
	tseq   int
	clock  Obj
	ctxObj Obj
	logObj Obj

	mem    map[unsafe.Pointer]*Obj
	closed map[unsafe.Pointer]bool

	policy  int
	devs    []Dev
	nextDev int
	ndec    int
	dots    uint64
	alts    []uint8
	sum     uint64
	visited map[uint64]struct{}
	newst   int
	steps   int
	limit   int
	trace   bool
	Steps   []string

	Fails []Fail
	log   []Entry
}

type Dev struct{ K, C int }

type Fail struct{ Sig, Msg string }

type Entry struct {
	T    time.Duration
	Seq  int
	Who  string
	What string
	Data interface{}
}

var S *Sched // the execution in progress

func cur() *Thread {
	p := getProfLabel()
	if p == nil {
		return nil
	}
	t := (*Thread)(p)
	if t.s != S {
		return nil
	}
	return t
}

// live returns the calling thread, or nil when operations pass through.
func live() *Thread {
	t := cur()
	if t == nil || t.exit {
		return nil
	}
	if t.s.aborting {
		t.exit = true
		runtime.Goexit()
	}
	return t
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ b + 0x7F4A7C15
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	x ^= x >> 32
	return x
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func join(a, b []uint32) []uint32 {
	for i, v := range b {
		if i >= len(a) {
			a = append(a, v)
		} else if a[i] < v {
			a[i] = v
		}
	}
	return a
}

func at(v []uint32, i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (t *Thread) setChain(h uint64) {
	t.s.sum -= mix(t.id, t.chain)
	t.chain = h
	t.s.sum += mix(t.id, h)
}

func (t *Thread) objid(o *Obj) {
	if o.s != t.s {
		// left over from an earlier execution
		*o = Obj{s: t.s, id: o.fixed, fixed: o.fixed}
	}
	if o.id == 0 {
		t.objn++
		o.id = mix(t.id, uint64(t.objn)) | 1
	}
}

// access records an operation on an object; sync says whether it orders threads.
func (t *Thread) access(o *Obj, write, sync bool, kind uint64) {
	t.objid(o)
	h := mix(mix(t.chain, kind), mix(o.id, o.w))
	if write {
		h = mix(h, o.r)
		o.w, o.r = h, 0
	} else {
		o.r += h
	}
	t.setChain(h)
	for len(t.vc) <= t.seq {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.seq]++
	if sync {
		t.order(o, AcqW|RelW)
	}
}

// Ways in which an operation orders threads.
const (
	AcqW = 1 << iota
	AcqR
	RelW
	RelR
	SyncAll = AcqW | AcqR | RelW | RelR
)

func (t *Thread) order(o *Obj, how int) {
	if how&AcqW != 0 {
		t.vc = join(t.vc, o.vc)
	}
	if how&AcqR != 0 {
		t.vc = join(t.vc, o.vc2)
	}
	if how&RelW != 0 {
		o.vc = join(o.vc, t.vc)
	}
	if how&RelR != 0 {
		o.vc2 = join(o.vc2, t.vc)
	}
	if how&(RelW|RelR) != 0 {
		t.vc[t.seq]++
	}
}

func (t *Thread) local(v uint64) { t.setChain(mix(t.chain, v)) }

// ---------------------------------------------------------------- threads

func (s *Sched) newThread(parent *Thread, name string, f func()) *Thread {
	t := &Thread{s: s, seq: len(s.threads), name: name, wake: make(chan struct{}, 1), doneCase: -1, state: stParked, what: "start"}
	if parent != nil {
		parent.spawn++
		t.id = mix(parent.id, 0x5000+uint64(parent.spawn))
		t.vc = append([]uint32(nil), parent.vc...)
		parent.local(0x60)
		if len(parent.vc) > parent.seq {
			parent.vc[parent.seq]++
		}
	} else {
		t.id = mix(0xabc, uint64(len(s.threads)))
	}
	t.chain = t.id
	s.sum += mix(t.id, t.chain)
	s.threads = append(s.threads, t)
	go t.run(f)
	return t
}

func (t *Thread) run(f func()) {
	setProfLabel(unsafe.Pointer(t))
	defer t.finish()
	<-t.wake
	if t.s.aborting {
		t.exit = true
		return
	}
	f()
}

func (t *Thread) finish() {
	s := t.s
	if r := recover(); r != nil && !t.exit {
		s.fail("panic", fmt.Sprintf("panic in %s: %v\n%s", t.Name(), r, trimStack(debug.Stack())))
		s.ended = true
	}
	setProfLabel(nil)
	s.mu.Lock()
	t.state = stDone
	t.local(0x61)
	s.unparked--
	var next *Thread
	if s.unparked == 0 && !s.aborting {
		next = s.decide()
	}
	s.mu.Unlock()
	if next != nil {
		next.wake <- struct{}{}
	}
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(l); i++ {
		if strings.Contains(l[i], "zzverif/vrt") || strings.HasPrefix(l[i], "runtime") || strings.HasPrefix(l[i], "panic(") {
			i++
			continue
		}
		out = append(out, l[i])
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (t *Thread) Name() string {
	if t.name != "" {
		return t.name
	}
	return fmt.Sprintf("%s#%d", pcName(t.pc), t.seq)
}

func pcName(pc uintptr) string {
	if pc == 0 {
		return "goroutine"
	}
	fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	n := fr.Function
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// point is a scheduling point: it returns when the thread is scheduled and its
// operation is possible.
func (t *Thread) point(what string, ready func() bool) {
	s := t.s
	s.mu.Lock()
	t.what, t.ready = what, ready
	if s.trace {
		var pcs [12]uintptr
		t.where = append(t.where[:0], pcs[:runtime.Callers(2, pcs[:])]...)
	}
	t.state = stParked
	s.unparked--
	if s.unparked == 0 {
		next := s.decide()
		if next == t {
			s.mu.Unlock()
			t.resumed()
			return
		}
		s.mu.Unlock()
		if next != nil {
			next.wake <- struct{}{}
		}
	} else {
		s.mu.Unlock()
	}
	<-t.wake
	t.resumed()
}

func (t *Thread) resumed() {
	if t.s.aborting {
		t.exit = true
		runtime.Goexit()
	}
	if t.s.trace {
		t.s.Steps = append(t.s.Steps, fmt.Sprintf("%-22s %s", t.Name(), t.where_()))
	}
}

func (t *Thread) where_() string {
	fn := ""
	if len(t.where) > 0 {
		frs := runtime.CallersFrames(t.where)
		for {
			fr, more := frs.Next()
			if !strings.Contains(fr.Function, "zzverif/vrt") && !strings.Contains(fr.Function, "zzverif/shim") {
				fn = fr.Function
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				fn = fmt.Sprintf("%s:%d", fn, fr.Line)
				break
			}
			if !more {
				break
			}
		}
	}
	return t.what + "  in " + fn
}

func (t *Thread) enabled() bool {
	return t.state == stParked && (t.ready == nil || t.doneCase >= 0 || t.ready())
}

// decide picks the next thread (state set to running) or returns nil when
// there is none or the execution is over. Called with mu held.
func (s *Sched) decide() *Thread {
	for {
		if s.ended {
			return nil
		}
		s.steps++
		if s.steps > s.limit {
			s.failLocked("livelock", fmt.Sprintf("the execution did not end within %d steps", s.limit))
			s.ended = true
			return nil
		}
		var buf [16]*Thread
		en := buf[:0]
		l := s.last
		if l != nil && l.enabled() {
			en = append(en, l)
		}
		switch s.policy {
		case 0:
			for _, t := range s.threads {
				if t != l && t.enabled() {
					en = append(en, t)
				}
			}
		default:
			for i := len(s.threads) - 1; i >= 0; i-- {
				if t := s.threads[i]; t != l && t.enabled() {
					en = append(en, t)
				}
			}
		}
		tm := s.nextTimer()
		if len(en) == 0 {
			if tm == nil {
				s.quiesced = true
				return nil
			}
			s.advance(tm)
			continue
		}
		n := len(en)
		if tm != nil && !tm.weak && tm.when <= s.now {
			n++
		}
		c := 0
		if n > 1 {
			id := uint64(0)
			if l != nil {
				id = l.id
			}
			c = s.choose(n, mix(mix(s.sum, id), uint64(s.now)))
			if s.ended {
				return nil
			}
		}
		if c == len(en) {
			s.advance(tm)
			continue
		}
		t := en[c]
		t.state = stRunning
		s.unparked++
		s.last = t
		return t
	}
}

// choose takes one decision. Called with mu held.
func (s *Sched) choose(n int, fp uint64) int {
	k := s.ndec
	s.ndec++
	if s.nextDev < len(s.devs) {
		d := s.devs[s.nextDev]
		if d.K == k {
			s.nextDev++
			if d.C >= n {
				s.failLocked("internal:replay", fmt.Sprintf("decision %d has %d alternatives, %d wanted", k, n, d.C))
				s.ended = true
				return 0
			}
			return d.C
		}
		return 0
	}
	if s.visited != nil {
		if _, ok := s.visited[fp]; ok {
			s.pruned = true
			s.ended = true
			return 0
		}
		s.visited[fp] = struct{}{}
		s.newst++
	}
	if n > 255 {
		n = 255
	}
	s.alts = append(s.alts, uint8(min(n, 255)))
	return 0
}

// Choose is a decision about data: which of n things happens (0 by default).
func Choose(n int) int {
	t := live()
	if t == nil || n < 2 {
		return 0
	}
	t.s.mu.Lock()
	c := t.s.choose(n, mix(mix(t.s.sum, t.id), uint64(t.s.now)^0x77))
	t.s.mu.Unlock()
	if t.s.ended {
		// pruned in the middle of a slice: go no further
		t.point("pruned", func() bool { return false })
	}
	t.local(uint64(c) + 0x9000)
	return c
}

// ---------------------------------------------------------------- time

func (s *Sched) nextTimer() *timer {
	var b *timer
	for _, t := range s.timers {
		if t.on && (b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq)) {
			b = t
		}
	}
	return b
}

func (s *Sched) advance(tm *timer) {
	if tm.when > s.now {
		s.now = tm.when
	}
	tm.on = false
	// a fired timer makes another state, at the same moment too
	s.sum += mix(mix(tm.obj.w, 0x7e11), uint64(s.now))
	tm.obj.w = mix(tm.obj.w, uint64(s.now)+uint64(tm.seq)<<48)
	for i, x := range s.timers {
		if x == tm {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			break
		}
	}
	if s.trace {
		s.Steps = append(s.Steps, fmt.Sprintf("(time)                 %v", s.now))
	}
	tm.fire()
}

// AddTimer arms a timer; fire runs in the scheduler.
func (t *Thread) addTimer(d time.Duration, obj *Obj, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	s := t.s
	t.access(obj, true, true, 0x41)
	s.tseq++
	tm := &timer{when: s.now + d, seq: s.tseq, obj: obj, fire: fire, on: true}
	s.timers = append(s.timers, tm)
	return tm
}

func (s *Sched) dropTimer(tm *timer) {
	for i, x := range s.timers {
		if x == tm {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return
		}
	}
}

var Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Duration {
	if S == nil {
		return 0
	}
	return S.now
}

// ---------------------------------------------------------------- execution

type Config struct {
	Policy  int
	Devs    []Dev
	Visited map[uint64]struct{}
	Limit   int
	Trace   bool
	Salt    uint64 // tells scenarios apart in Visited
}

// Run performs one execution of body and calls check at its end.
func Run(cfg Config, body func(), check func(*Sched)) (s *Sched) {
	s = &Sched{policy: cfg.Policy, devs: cfg.Devs, visited: cfg.Visited, limit: cfg.Limit, trace: cfg.Trace,
		mem: map[unsafe.Pointer]*Obj{}, closed: map[unsafe.Pointer]bool{}}
	s.sum = mix(0x51, cfg.Salt)
	s.clock.fixed, s.ctxObj.fixed, s.logObj.fixed = 3, 5, 7
	if s.limit == 0 {
		s.limit = 20000
	}
	S = s
	defer func() {
		if r := recover(); r != nil {
			m := fmt.Sprint(r)
			if !strings.Contains(m, "deadlock") {
				panic(r)
			}
		}
		S = nil
	}()
	synctestRun(func() {
		s.mu.Lock()
		s.newThread(nil, "main", body)
		t := s.decide()
		s.mu.Unlock()
		t.wake <- struct{}{}
		for {
			synctestWait()
			s.mu.Lock()
			if s.ended || s.quiesced && s.unparked == 0 {
				s.mu.Unlock()
				break
			}
			for _, x := range s.threads {
				if x.state == stRunning {
					x.state = stNative
				}
			}
			s.quiesced = false
			next := s.decide()
			s.mu.Unlock()
			if next == nil {
				break
			}
			next.wake <- struct{}{}
		}
		if !s.pruned && len(s.Fails) == 0 {
			check(s)
		}
		s.aborting = true
		for i := 0; i < len(s.threads); i++ {
			x := s.threads[i]
			if x.state == stParked {
				s.mu.Lock()
				x.state = stRunning
				s.unparked++
				s.mu.Unlock()
				x.wake <- struct{}{}
				synctestWait()
			}
		}
	})
	return s
}

func (s *Sched) Pruned() bool   { return s.pruned }
func (s *Sched) Alts() []uint8  { return s.alts }
func (s *Sched) NSteps() int    { return s.steps }
func (s *Sched) NewStates() int { return s.newst }
func (s *Sched) Devs() int      { return s.nextDev }
func (s *Sched) Log() []Entry   { return s.log }

// Left lists the threads that have not finished, with what they wait for.
func (s *Sched) Left() []string {
	var out []string
	for _, t := range s.threads {
		if t.state != stDone && !t.quiet {
			st := t.what
			if t.state == stNative {
				st = "blocked outside the scheduler after " + st
			}
			out = append(out, t.Name()+": "+st)
		}
	}
	return out
}

func (s *Sched) failLocked(sig, msg string) { s.Fails = append(s.Fails, Fail{sig, msg}) }
func (s *Sched) fail(sig, msg string) {
	s.mu.Lock()
	s.failLocked(sig, msg)
	s.mu.Unlock()
}

// Known holds the violations that do not end an execution, KnownSeen what was
// seen of them.
var Known, KnownSeen = map[string]bool{}, map[string]string{}

// Failf reports a violation; the execution ends at the next decision.
func Failf(sig, format string, a ...interface{}) {
	s := S
	if s == nil || s.aborting {
		return
	}
	if Known[sig] {
		if KnownSeen[sig] == "" {
			KnownSeen[sig] = fmt.Sprintf(format, a...)
		}
		return
	}
	s.fail(sig, fmt.Sprintf(format, a...))
	s.ended = true
}

// ---------------------------------------------------------------- harness API

// Go starts a thread.
func Go(f func()) {
	t := cur()
	if t == nil || t.exit {
		if S != nil && !S.aborting && t == nil {
			// started by code outside the scheduler
			S.mu.Lock()
			S.newThread(nil, "outside", f)
			S.mu.Unlock()
		}
		return
	}
	if live() == nil {
		return
	}
	var pc [1]uintptr
	runtime.Callers(2, pc[:])
	t.s.mu.Lock()
	n := t.s.newThread(t, "", f)
	n.pc = pc[0]
	t.s.mu.Unlock()
}

// GoAs is Go for code that names what it starts.
func GoAs(name string, f func()) {
	t := cur()
	if t == nil || t.exit {
		Go(f)
		return
	}
	GoName(name, f)
}

// ServeHook takes the place of listening on a network address.
var ServeHook func(ctx context.Context, bind string, h http.Handler) error

// GoName starts a named thread.
func GoName(name string, f func()) {
	t := live()
	if t == nil {
		return
	}
	t.s.mu.Lock()
	t.s.newThread(t, name, f)
	t.s.mu.Unlock()
}

// GoQuiet starts a named thread that may be left behind (environment).
func GoQuiet(name string, f func()) {
	t := live()
	if t == nil {
		return
	}
	t.s.mu.Lock()
	t.s.newThread(t, name, f).quiet = true
	t.s.mu.Unlock()
}

// Await blocks until cond holds, then takes one step on o.
func Await(o *Obj, what string, cond func() bool) {
	t := live()
	if t == nil {
		return
	}
	t.point(what, cond)
	t.access(o, true, true, 0x10)
}

// AwaitAs is Await for an operation that orders threads in a given way.
func AwaitAs(o *Obj, what string, how int, cond func() bool) {
	t := live()
	if t == nil {
		return
	}
	t.point(what, cond)
	t.access(o, true, false, 0x13)
	t.order(o, how)
}

// TouchAs is Touch for an operation that orders threads in a given way.
func TouchAs(o *Obj, how int) {
	if t := live(); t != nil {
		t.access(o, true, false, 0x14)
		t.order(o, how)
	}
}

// Step is a scheduling point followed by one step on o.
func Step(o *Obj, what string) { Await(o, what, nil) }

// Dot is a scheduling point before a statement of code that is explored
// statement by statement. What the statement touches is not known, so that
// executions which order statements differently are never taken for the same.
func Dot() {
	t := live()
	if t == nil {
		return
	}
	t.point("statement", nil)
	t.s.dots++
	t.local(mix(0x77, t.s.dots))
}

// DoHook takes the place of sending a HTTP request.
var DoHook func(c *http.Client, r *http.Request) (*http.Response, error)

// Do is http.Client.Do of the code under test.
func Do(c *http.Client, r *http.Request) (*http.Response, error) {
	if DoHook != nil {
		return DoHook(c, r)
	}
	return c.Do(r)
}

// Touch is a step on o without a scheduling point.
func Touch(o *Obj) {
	if t := live(); t != nil {
		t.access(o, true, true, 0x11)
	}
}

// Note appends to the execution's log.
func Note(who, what string, data interface{}) {
	s := S
	if s == nil {
		return
	}
	if t := live(); t != nil {
		t.access(&s.logObj, true, false, hashStr(who+what))
	}
	s.log = append(s.log, Entry{s.now, len(s.log), who, what, data})
}

// Sleep lets virtual time pass.
func Sleep(d time.Duration) {
	t := live()
	if t == nil {
		return
	}
	fired := false
	o := &Obj{}
	t.addTimer(d, o, func() { fired = true })
	t.point("sleep", func() bool { return fired })
	t.access(o, true, true, 0x12)
}

// SetQuiet marks the calling thread as one that may be left behind.
func SetQuiet() {
	if t := cur(); t != nil {
		t.quiet = true
	}
}

// Self is the name of the calling thread.
func Self() string {
	if t := cur(); t != nil {
		return t.Name()
	}
	return "?"
}

var starts []func()

// OnStart registers what is done before every execution.
func OnStart(f func()) { starts = append(starts, f) }

// Start makes ready for an execution.
func Start() {
	for _, f := range starts {
		f()
	}
}

// Zero empties a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Renew says whether the execution in progress is another one than *p, and notes it.
func Renew(p **Sched) bool {
	if *p == S {
		return false
	}
	*p = S
	return true
}

// Active says whether the caller runs under the scheduler.
func Active() bool { return live() != nil }

// Pass says whether operations pass through (no scheduler, or unwinding).
func Pass() bool { t := cur(); return t == nil || t.exit }

// Unwinding says whether the calling thread is being torn down.
func Unwinding() bool { t := cur(); return t != nil && t.exit }

// ---------------------------------------------------------------- memory

func (s *Sched) memObj(p unsafe.Pointer) *Obj {
	o := s.mem[p]
	if o == nil {
		o = &Obj{}
		s.mem[p] = o
	}
	return o
}

// Hot holds the variables found to be accessed without synchronisation: their
// accesses are scheduling points. All others are ordered by the operations that
// synchronise, so nothing is lost by not interleaving them. NewHot collects
// what an execution adds.
var Hot = map[string]bool{}
var NewHot = map[string]bool{}

func (t *Thread) mem(key, what string, p unsafe.Pointer, write bool) {
	hot := Hot[key]
	if hot {
		t.point(what+" "+key, nil)
	}
	o := t.s.memObj(p)
	kind := uint64(0x20)
	if write {
		kind = 0x21
	}
	t.access(o, write, false, kind)
	if hot {
		return
	}
	if x := t.race(o, write); x != nil {
		NewHot[key] = true
	}
}

// R is a read of a shared variable.
func R[T any](key string, p *T) *T {
	if t := live(); t != nil && p != nil {
		t.mem(key, "read", unsafe.Pointer(p), false)
	}
	return p
}

// W is a write of a shared variable.
func W[T any](key string, p *T) *T {
	if t := live(); t != nil && p != nil {
		t.mem(key, "write", unsafe.Pointer(p), true)
	}
	return p
}

type Var[T any] struct {
	key string
	p   *T
}

func Ref[T any](key string, p *T) Var[T] { return Var[T]{key, p} }
func (v Var[T]) Set(x T)                 { *W(v.key, v.p) = x }

// ---------------------------------------------------------------- maps

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// race records an access and returns a thread with a conflicting access that
// is not ordered with it.
func (t *Thread) race(o *Obj, write bool) *Thread {
	var x *Thread
	if o.wC > 0 && int(o.wT) != t.seq && at(t.vc, int(o.wT)) < o.wC {
		x = t.s.threads[o.wT]
	}
	if write {
		for i, c := range o.reads {
			if i != t.seq && c > 0 && at(t.vc, i) < c {
				x = t.s.threads[i]
			}
		}
		o.wT, o.wC = uint32(t.seq), at(t.vc, t.seq)
		return x
	}
	for len(o.reads) <= t.seq {
		o.reads = append(o.reads, 0)
	}
	o.reads[t.seq] = at(t.vc, t.seq)
	return x
}

func (t *Thread) mapAccess(p unsafe.Pointer, write bool) {
	o := t.s.memObj(p)
	t.access(o, write, false, 0x22)
	if x := t.race(o, write); x != nil {
		w := "read"
		if write {
			w = "written"
		}
		Failf("map-race", "a map is %s in %s (%s) without being ordered with an access to it in %s", w, t.Name(), here(), x.Name())
	}
}

func here() string {
	var pcs [10]uintptr
	frs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		fr, more := frs.Next()
		if !strings.Contains(fr.Function, "zzverif/vrt") {
			return fr.Function
		}
		if !more {
			return ""
		}
	}
}

// MR is a read access to a shared map.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if t := live(); t != nil && m != nil {
		t.mapAccess(mapPtr(m), false)
	}
	return m
}

// MW is a write access to a shared map.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if t := live(); t != nil && m != nil {
		t.mapAccess(mapPtr(m), true)
	}
	return m
}

// MapIter ranges over a map in a fixed order.
type MapIter[K comparable, V any] struct {
	m  map[K]V
	ks []K
}

func MapRange[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: m}
	MR(m)
	names := map[interface{}]string{}
	for k := range m {
		it.ks = append(it.ks, k)
		names[k] = fmt.Sprint(k)
	}
	sort.Slice(it.ks, func(i, j int) bool { return names[it.ks[i]] < names[it.ks[j]] })
	return it, k, v
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.ks) > 0 {
		x := it.ks[0]
		it.ks = it.ks[1:]
		MR(it.m)
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

// ---------------------------------------------------------------- channels

// Case is one channel operation of a select.
type Case struct {
	ch    unsafe.Pointer
	send  bool
	unbuf bool
	ctx   bool
	avail func() bool
	exec  func()
	slot  unsafe.Pointer         // send: the value
	take  func(p unsafe.Pointer) // recv: deliver a value
}

func (c *Case) C() *Case { return c }

type Caser interface{ C() *Case }

type RecvCase[T any] struct {
	Case
	v     T
	ok    bool
	stash bool
}

func chPtr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func NewRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	c.ch = chPtr(ch)
	if ch == nil {
		return c
	}
	c.unbuf = cap(ch) == 0
	var z T
	_, c.ctx = any(z).(struct{})
	c.avail = func() bool {
		if c.stash || len(ch) > 0 {
			return true
		}
		select {
		case v, ok := <-ch:
			c.v, c.ok, c.stash = v, ok, true
			return true
		default:
			return false
		}
	}
	c.exec = func() {
		if c.stash {
			return
		}
		select {
		case c.v, c.ok = <-ch:
		default:
			panic("vrt: receive not ready")
		}
	}
	c.take = func(p unsafe.Pointer) { c.v, c.ok, c.stash = *(*T)(p), true, true }
	return c
}

func (c *RecvCase[T]) Get() T          { return c.v }
func (c *RecvCase[T]) Get2() (T, bool) { return c.v, c.ok }

type SendCase[T any] struct {
	Case
	v T
}

// NewSend makes the send case in two steps so that the value converts to the
// element type of the channel.
func NewSend[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		c := &SendCase[T]{v: v}
		c.ch, c.send = chPtr(ch), true
		if ch == nil {
			return c
		}
		c.unbuf = cap(ch) == 0
		c.slot = unsafe.Pointer(&c.v)
		c.avail = func() bool {
			if len(ch) < cap(ch) {
				return true
			}
			return S != nil && S.closed[c.ch]
		}
		c.exec = func() {
			select {
			case ch <- c.v:
			default:
				if c.unbuf {
					// a native receiver turns up
					ch <- c.v
					return
				}
				panic("vrt: send not ready")
			}
		}
		return c
	}
}

// partner finds a thread waiting for the other half of an unbuffered exchange.
func (s *Sched) partner(t *Thread, c *Case) (*Thread, int) {
	for _, o := range s.threads {
		if o == t || o.state != stParked || o.doneCase >= 0 {
			continue
		}
		for i, oc := range o.cases {
			if oc.ch == c.ch && oc.send != c.send {
				return o, i
			}
		}
	}
	return nil, -1
}

func (s *Sched) caseReady(t *Thread, c *Case) bool {
	if c.ch == nil {
		return false
	}
	if c.avail() {
		return true
	}
	if c.unbuf {
		if o, _ := s.partner(t, c); o != nil {
			return true
		}
	}
	return false
}

func (t *Thread) do(c *Case) {
	s := t.s
	if c.unbuf && !(c.avail()) {
		if o, i := s.partner(t, c); o != nil {
			oc := o.cases[i]
			if c.send {
				oc.take(c.slot)
			} else {
				c.take(oc.slot)
			}
			o.doneCase = i
			t.access(s.memObj(c.ch), true, true, 0x30)
			return
		}
	}
	co := s.memObj(c.ch)
	t.access(co, true, false, 0x31)
	switch {
	case c.unbuf && !s.closed[c.ch]:
		t.order(co, AcqW|RelW)
	case c.send:
		t.order(co, AcqR|RelW)
	default:
		t.order(co, AcqW|RelR)
	}
	c.exec()
}

// Select performs one of the cases; the index, or -1 for the default.
func Select(hasDefault bool, cs ...Caser) int {
	t := live()
	if t == nil {
		return passSelect(hasDefault, cs)
	}
	s := t.s
	cases := make([]*Case, len(cs))
	for i, c := range cs {
		cases[i] = c.C()
	}
	if hasDefault {
		t.point("select", nil)
	} else {
		t.cases = cases
		t.doneCase = -1
		t.point(selName(cases), func() bool {
			for _, c := range cases {
				if s.caseReady(t, c) {
					return true
				}
			}
			return false
		})
		t.cases = nil
		if d := t.doneCase; d >= 0 {
			t.doneCase = -1
			t.access(s.memObj(cases[d].ch), true, true, 0x32)
			return d
		}
	}
	for _, c := range cases {
		if c.ch != nil {
			t.access(s.memObj(c.ch), false, false, 0x33)
			if c.ctx {
				t.access(&s.ctxObj, false, false, 0x34)
			}
		}
	}
	var rd []int
	for i, c := range cases {
		if s.caseReady(t, c) {
			rd = append(rd, i)
		}
	}
	if len(rd) == 0 {
		t.local(0x35)
		return -1
	}
	k := rd[0]
	if len(rd) > 1 {
		k = rd[Choose(len(rd))]
	}
	t.do(cases[k])
	if cases[k].ctx {
		t.order(&s.ctxObj, AcqW)
	}
	return k
}

func selName(cs []*Case) string {
	if len(cs) == 1 {
		if cs[0].send {
			return "send"
		}
		return "receive"
	}
	return "select"
}

func passSelect(hasDefault bool, cs []Caser) int {
	for i, x := range cs {
		c := x.C()
		if c.ch != nil && c.avail() {
			c.exec()
			return i
		}
	}
	if hasDefault {
		return -1
	}
	if Unwinding() || S == nil || S.aborting {
		runtime.Goexit()
	}
	for {
		runtime.Gosched()
		for i, x := range cs {
			c := x.C()
			if c.ch != nil && c.avail() {
				c.exec()
				return i
			}
		}
	}
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

func Recv2[T any](ch <-chan T) (T, bool) {
	if cur() == nil {
		v, ok := <-ch
		return v, ok
	}
	c := NewRecv(ch)
	Select(false, c)
	return c.v, c.ok
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if cur() == nil {
			ch <- v
			return
		}
		Select(false, NewSend(ch)(v))
	}
}

// Len is the number of values in a channel's buffer.
func Len[T any](ch <-chan T) int {
	if t := live(); t != nil && ch != nil {
		t.point("len", nil)
		t.access(t.s.memObj(chPtr(ch)), false, false, 0x37)
	}
	return len(ch)
}

func LenS[T any](ch chan<- T) int {
	if t := live(); t != nil && ch != nil {
		t.point("len", nil)
		t.access(t.s.memObj(chPtr(ch)), false, false, 0x37)
	}
	return len(ch)
}

func Close[T any](ch chan<- T) {
	t := live()
	if t != nil {
		t.point("close", nil)
		t.access(t.s.memObj(chPtr(ch)), true, true, 0x36)
		t.s.closed[chPtr(ch)] = true
	}
	if t == nil && Unwinding() {
		return
	}
	close(ch)
}

// ChanIter ranges over a channel.
type ChanIter[T any] struct{ ch <-chan T }

func ChanRange[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{ch}, z
}

func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// Forever is select {}.
func Forever() {
	if t := live(); t != nil {
		t.point("select {}", func() bool { return false })
	}
	if Unwinding() {
		runtime.Goexit()
	}
	select {}
}

// ExitHook is told when the code under test ends its process.
var ExitHook func(code int)

// Exit is os.Exit: the calling thread goes no further.
func Exit(code int) {
	if Unwinding() {
		runtime.Goexit()
	}
	if ExitHook != nil {
		ExitHook(code)
	}
	Forever()
}

// CtxEvent is the effect of cancelling a context.
func CtxEvent(what string) {
	t := live()
	if t == nil {
		return
	}
	t.point(what, nil)
	t.access(&t.s.ctxObj, true, true, 0x37)
}

// CtxLook is a look at a context that is part of another operation.
func CtxLook() {
	if t := live(); t != nil {
		t.access(&t.s.ctxObj, false, true, 0x39)
	}
}

// CtxRead is a look at a context.
func CtxRead() {
	if t := live(); t != nil {
		t.point("ctx.Err", nil)
		t.access(&t.s.ctxObj, false, true, 0x38)
	}
}

// ---------------------------------------------------------------- timers for the time shim

type Timer struct{ tm *timer }

// StartTimer arms a timer whose fire function runs in the scheduler.
func StartTimer(d time.Duration, o *Obj, fire func()) *Timer {
	t := live()
	if t == nil {
		return &Timer{}
	}
	t.local(uint64(d) ^ 0x4000)
	return &Timer{t.addTimer(d, o, fire)}
}

// Stop disarms; it says whether the timer was armed.
func (x *Timer) Stop() bool {
	t := live()
	if x == nil || x.tm == nil || t == nil {
		return false
	}
	t.access(x.tm.obj, true, true, 0x40)
	on := x.tm.on
	x.tm.on = false
	t.s.dropTimer(x.tm)
	return on
}

// SpawnFromTimer starts a thread from a fire function.
func SpawnFromTimer(o *Obj, name string, f func()) {
	s := S
	if s == nil || s.aborting {
		return
	}
	t := s.newThread(nil, name, f)
	t.vc = append(t.vc, o.vc...)
}

// ReadClock is a scheduling-free look at the clock.
func ReadClock() time.Duration {
	t := live()
	if t == nil {
		return Now()
	}
	t.local(uint64(t.s.now) ^ 0x4100)
	return t.s.now
}

// StartTicker fires again and again; a program that only ticks counts as idle
// after a number of ticks.
func StartTicker(d time.Duration, o *Obj, fire func()) *Timer {
	t := live()
	if t == nil {
		return &Timer{}
	}
	s := t.s
	x := &Timer{}
	n := 0
	var f func()
	f = func() {
		fire()
		if n++; n < 40 {
			s.tseq++
			x.tm = &timer{when: s.now + d, seq: s.tseq, obj: o, fire: f, on: true, weak: true}
			s.timers = append(s.timers, x.tm)
		}
	}
	t.local(uint64(d) ^ 0x4200)
	x.tm = t.addTimer(d, o, f)
	x.tm.weak = true
	return x
}
