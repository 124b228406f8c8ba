//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	log "github.com/sirupsen/logrus"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/zzverif/benchmark"
	"github.com/superisaac/jlib/zzverif/call"
	"github.com/superisaac/jlib/zzverif/vrt"
	"github.com/superisaac/jlib/zzverif/watch"
)

var outFile, nullFile *os.File

// tool is a run of a command-line tool.
type tool struct {
	o     vrt.Obj
	over  bool
	code  int // of the exit, 0 when main returned
	panic string
	out   string // standard output by the end of the process
	at    time.Duration
}

func (x *tool) finish(code int) {
	if x.over {
		return
	}
	vrt.Step(&x.o, fmt.Sprintf("process ends with %d", code))
	x.over, x.code, x.at = true, code, vrt.Now()
	n, _ := outFile.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	outFile.ReadAt(b, 0)
	x.out = string(b)
}

// run is the process; it ends when main returns, exits or panics.
func (x *tool) run(main func(), a ...string) {
	if outFile == nil {
		var err error
		if outFile, err = os.Create(filepath.Join(os.TempDir(), fmt.Sprintf("stdout-%d", os.Getpid()))); err != nil {
			panic(err)
		}
		os.Remove(outFile.Name())
		nullFile, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	}
	outFile.Truncate(0)
	outFile.Seek(0, io.SeekStart)
	os.Stdout, os.Stderr, os.Args = outFile, nullFile, append([]string{"tool"}, a...)
	vrt.ExitHook = x.finish
	log.StandardLogger().ExitFunc = vrt.Exit
	vrt.GoName("main", func() {
		defer func() {
			if vrt.Unwinding() {
				return
			}
			if r := recover(); r != nil {
				x.panic = fmt.Sprint(r)
				x.finish(2)
			}
		}()
		main()
		x.finish(0)
	})
	vrt.Await(&x.o, "wait for the process", func() bool { return x.over })
}

// printed is the sequence of JSON values on standard output.
func (x *tool) printed() []string {
	var l []string
	d := json.NewDecoder(strings.NewReader(x.out))
	for {
		var v interface{}
		if err := d.Decode(&v); err == io.EOF {
			return l
		} else if err != nil {
			return append(l, "!"+err.Error())
		}
		b, _ := json.Marshal(v)
		l = append(l, string(b))
	}
}

func canon(s string) string {
	var v interface{}
	json.Unmarshal([]byte(s), &v)
	b, _ := json.Marshal(v)
	return string(b)
}

func newT() *cWorld {
	w := &cWorld{kWorld: &kWorld{t: &fakeT{}}, kind: "ws"}
	w.ctx, w.cancel = freshCtx()
	w.hookDialer()
	return w
}

func tScenario(name string, variants, quick int, script func(w *cWorld, x *tool, r *radix) func()) {
	add(&Scenario{Name: name, Props: "T02", Variants: variants, Quick: quick, Run: func(v int) (func(), func(*vrt.Sched)) {
		w, x := (*cWorld)(nil), &tool{}
		var judge func()
		body := func() {
			w = newT()
			judge = script(w, x, &radix{v})
		}
		return body, func(s *vrt.Sched) {
			if !w.hooked {
				return
			}
			for _, t := range s.Left() {
				if strings.HasPrefix(t, "main") && !x.over {
					fail("T02", "stuck", "the tool does not end: %s", js(s.Left()))
				}
			}
			if x.over {
				judge()
			}
		}
	}})
}

// A connection that is reset leaves the watcher to end or to try again; only
// the ends every client reports as closed are part of the property.

// attempt is what the peer does to a connection that is being opened.
type attempt struct {
	refuse bool
	pushes int
	end    string
}

var attempts = []attempt{{refuse: true}, {end: "eof"}, {end: "goodbye"}, {pushes: 1, end: "eof"}, {pushes: 2, end: "goodbye"}, {pushes: 2, end: "eof"}}

// expectDials is the number of attempts the watcher makes.
func expectDials(l []attempt, limit int) int {
	failed := 0
	for i := 0; ; i++ {
		if i < len(l) && !l[i].refuse {
			failed = 0
		}
		if failed++; failed >= limit {
			return i + 1
		}
	}
}

func push(k, i int) string {
	return wire(jlib.NewNotifyMessage("pushed", []interface{}{k, i}))
}

func init() {
	// the peer serves some attempts and refuses those after them; what is
	// pushed is printed, in order; a lost connection is opened again after a
	// second, as long as fewer attempts in a row failed than the limit
	watchIt := func(w *cWorld, x *tool, l []attempt, limit int, args []string, serve func(p *peerConn, k int)) func() {
		var dials []time.Duration
		w.onDial = func(n int) string {
			dials = append(dials, vrt.Now())
			if n > len(l) || l[n-1].refuse {
				return "refuse"
			}
			return ""
		}
		w.onOpen = func(p *peerConn) { serve(p, w.dials) }
		x.run(watch.Main, append([]string{"-c", "ws://127.0.0.1:1/", "-retry", fmt.Sprint(limit)}, args...)...)
		return func() {
			if x.code != 0 || x.panic != "" {
				fail("T02", "exit", "the watcher ended with status %d (%s)", x.code, x.panic)
			}
			want := expectDials(l, limit)
			if len(dials) != want {
				fail("T02", "attempts", "with a limit of %d the watcher made %d attempts to connect, not %d, at %v", limit, len(dials), want, dials)
			}
			for i := 1; i < len(dials); i++ {
				if dials[i]-dials[i-1] != time.Second {
					fail("T02", "pause", "attempts to connect at %v", dials)
				}
			}
		}
	}
	limits := []int{1, 2, 3}
	tScenario("w-watch", prod(6, 6, 3), 0, func(w *cWorld, x *tool, r *radix) func() {
		l := []attempt{attempts[r.next(6)], attempts[r.next(6)]}
		limit := limits[r.next(3)]
		judge := watchIt(w, x, l, limit, nil, func(p *peerConn, k int) {
			a := l[k-1]
			w.g.run(fmt.Sprintf("peer%d", k), func() {
				for i := 0; i < a.pushes; i++ {
					p.tell(push(k, i))
				}
				p.end(a.end)
			})
		})
		return func() {
			judge()
			var want []string
			for k := 1; k <= expectDials(l, limit) && k <= len(l); k++ {
				for i := 0; i < l[k-1].pushes && !l[k-1].refuse; i++ {
					want = append(want, canon(push(k, i)))
				}
			}
			if js(x.printed()) != js(want) {
				fail("T02", "printed", "the watcher printed %s instead of %s", js(x.printed()), js(want))
			}
		}
	})

	// with a method: the request goes out on every connection, its answer is
	// printed like what is pushed before and after it
	tScenario("w-watch-call", prod(2, 2, 2, 2, 2, 2), 0, func(w *cWorld, x *tool, r *radix) func() {
		pre, post, bad, again, end, slow := r.next(2), r.next(2), r.next(2) == 1, r.next(2), []string{"eof", "goodbye"}[r.next(2)], r.next(2) == 1
		l := []attempt{{}}
		if again == 1 {
			l = append(l, attempt{})
		}
		method := "listen"
		if bad {
			method = "fail_listen"
		}
		var answers []string
		var order [][]string
		w.onMsg = func(p *peerConn, s string) {
			k := len(w.conns)
			a := answerText(s)
			if a == "" || len(p.got) > 1 {
				fail("T02", "request", "the watcher sent %s", js(p.got))
				return
			}
			m, _ := jlib.ParseBytes([]byte(s))
			if m.MustMethod() != method || js(m.MustParams()) != `["x",1]` {
				fail("T02", "request", "the watcher sent %s", s)
			}
			var say, pushed []string
			for i := 0; i < pre; i++ {
				say, pushed = append(say, push(k, i)), append(pushed, canon(push(k, i)))
			}
			say = append(say, a)
			answers = append(answers, canon(a))
			for i := 0; i < post; i++ {
				say, pushed = append(say, push(k, 10+i)), append(pushed, canon(push(k, 10+i)))
			}
			order = append(order, pushed)
			w.g.run(fmt.Sprintf("peer%d", k), func() {
				if slow {
					for _, t := range say {
						p.tell(t)
					}
				} else {
					p.tell(say...)
				}
				p.end(end)
			})
		}
		judge := watchIt(w, x, l, 2, []string{method, "x", "1"}, func(*peerConn, int) {})
		return func() {
			judge()
			if len(answers) != len(l) {
				fail("T02", "request", "%d requests on %d connections", len(answers), len(w.conns))
			}
			want := append([]string{}, answers...)
			var pushed []string
			for _, p := range order {
				want, pushed = append(want, p...), append(pushed, p...)
			}
			got := x.printed()
			var others []string
			for _, g := range got {
				if strings.Contains(g, "pushed") {
					others = append(others, g)
				}
			}
			if js(sorted(got)) != js(sorted(want)) || js(others) != js(pushed) {
				fail("T02", "printed", "the watcher printed %s; the answers are %s, pushed were %s", js(got), js(answers), js(pushed))
			}
		}
	})

	// the benchmark makes all its calls, each client one after the other, and
	// reports their times
	bench := func(w *cWorld, x *tool, m, n, mode int) func() {
		var took []time.Duration
		ids := map[string]bool{}
		w.onMsg = func(p *peerConn, s string) {
			q, err := jlib.ParseBytes([]byte(s))
			if err != nil || !q.IsRequest() || q.MustMethod() != "work" || js(q.MustParams()) != `["x",1]` {
				fail("T02", "request", "the benchmark sent %s", s)
				return
			}
			if ids[js(q.MustId())] {
				fail("T02", "request", "the benchmark used the id %s twice", js(q.MustId()))
			}
			ids[js(q.MustId())] = true
			a := wire(jlib.NewResultMessage(q, "done"))
			if mode == 1 {
				a = wire((&jlib.RPCError{Code: 77, Message: "no"}).ToMessage(q.(*jlib.RequestMessage)))
			}
			d := time.Duration(0)
			if mode == 2 {
				d = time.Duration(len(took)+1) * time.Second
			} else if mode == 3 {
				d = time.Duration(len(took)*37%90+1) * 100 * time.Millisecond
			}
			took = append(took, d)
			if d == 0 {
				p.say(a)
				return
			}
			w.g.run("peer", func() {
				vrt.Sleep(d)
				p.tell(a)
			})
		}
		x.run(benchmark.Main, "-c", "ws://127.0.0.1:1/", "-m", fmt.Sprint(m), "-n", fmt.Sprint(n), "work", "x", "1")
		return func() {
			if x.code != 0 || x.panic != "" {
				fail("T02", "exit", "the benchmark ended with status %d (%s)", x.code, x.panic)
			}
			if len(ids) != m*n || len(w.conns) != m {
				fail("T02", "calls", "%d calls on %d connections by %d clients with %d calls each", len(ids), len(w.conns), m, n)
			}
			for _, p := range w.conns {
				if len(p.got) != n {
					fail("T02", "calls", "a client made %d of its %d calls", len(p.got), n)
				}
			}
			sort.Slice(took, func(i, j int) bool { return took[i] < took[j] })
			var sum time.Duration
			for _, d := range took {
				sum += d
			}
			k := m * n
			want := fmt.Sprintf("avg=%gs, min=%gs, p95=%gs, max=%gs\n", (sum / time.Duration(k)).Seconds(), took[0].Seconds(), took[k*95/100].Seconds(), took[k-1].Seconds())
			if x.out != want {
				fail("T02", "printed", "the benchmark printed %q instead of %q", x.out, want)
			}
		}
	}
	tScenario("w-benchmark", prod(2, 3, 3), 0, func(w *cWorld, x *tool, r *radix) func() {
		m, n, mode := 1+r.next(2), 1+r.next(3), r.next(3)
		return bench(w, x, m, n, mode)
	})
	large(func() {
		tScenario("w-benchmark-large", prod(5, 3), 0, func(w *cWorld, x *tool, r *radix) func() {
			s := [][2]int{{1, 60}, {3, 21}, {10, 10}, {40, 3}, {110, 2}}[r.next(5)]
			return bench(w, x, s[0], s[1], []int{0, 1, 3}[r.next(3)])
		})
		// many connections one after another, many refused ones, many pushes
		tScenario("w-watch-idle", prod(len(gaps), 2), 0, func(w *cWorld, x *tool, r *radix) func() {
			gap, ask := gaps[r.next(len(gaps))], r.next(2) == 1
			l := []attempt{{end: "eof"}, {end: "goodbye"}}
			var want, args []string
			if ask {
				args = []string{"listen", "x"}
				w.onMsg = func(p *peerConn, s string) {
					if a := answerText(s); a != "" {
						want = append(want, canon(a))
						p.say(a)
					}
				}
			}
			watchIt(w, x, l, 2, args, func(p *peerConn, k int) {
				w.g.run(fmt.Sprintf("peer%d", k), func() {
					for i := 0; i < 3; i++ {
						vrt.Sleep(gap)
						want = append(want, canon(push(k, i)))
						p.tell(push(k, i))
					}
					vrt.Sleep(gap)
					p.end(l[k-1].end)
				})
			})
			return func() {
				if x.code != 0 || x.panic != "" || len(w.conns) != 2 {
					fail("T02", "idle", "the watcher opened %d connections and ended with status %d (%s)", len(w.conns), x.code, x.panic)
				}
				if js(x.printed()) != js(want) {
					fail("T02", "printed", "the watcher printed %s instead of %s", js(x.printed()), js(want))
				}
			}
		})
		tScenario("w-watch-large", prod(7, 3), 0, func(w *cWorld, x *tool, r *radix) func() {
			shape, limit := r.next(7), []int{2, 12, 40}[r.next(3)]
			var l []attempt
			many := 60
			if shape >= 5 {
				many = 3
			}
			push := func(k, i int) string {
				if shape != 6 {
					return push(k, i)
				}
				return strings.Replace(push(k, i), "[", `["`+strings.Repeat("long ", []int{900, 7000, 14000, 220000}[i])+`",`, 1)
			}
			for i := 0; i < many; i++ {
				switch shape {
				case 0:
					l = append(l, attempts[i%6])
				case 1:
					l = append(l, attempt{end: "eof", pushes: 1})
				case 2:
					l = append(l, attempts[[]int{0, 3, 0, 0, 0, 0, 0, 0, 4}[i%9]])
				case 3:
					l = append(l, attempts[3*(i/limit%2)])
				case 4:
					l = append(l, attempt{refuse: i%12 != 11, pushes: 2, end: "goodbye"})
				case 5:
					l = append(l, attempt{pushes: 1100, end: "eof"})
				case 6:
					l = append(l, attempt{pushes: 4, end: "eof"})
				}
			}
			judge := watchIt(w, x, l, limit, nil, func(p *peerConn, k int) {
				a := l[k-1]
				w.g.run(fmt.Sprintf("peer%d", k), func() {
					var all []string
					for i := 0; i < a.pushes; i++ {
						all = append(all, push(k, i))
					}
					p.tell(all...)
					p.end(a.end)
				})
			})
			return func() {
				judge()
				var want []string
				for k := 1; k <= expectDials(l, limit) && k <= len(l); k++ {
					for i := 0; i < l[k-1].pushes && !l[k-1].refuse; i++ {
						want = append(want, canon(push(k, i)))
					}
				}
				if got := x.printed(); js(got) != js(want) {
					i := 0
					for i < len(got) && i < len(want) && got[i] == want[i] {
						i++
					}
					fail("T02", "printed", "the watcher printed %d messages instead of %d, the first difference is at %d: %.300s", len(got), len(want), i, js(got[i:min(i+2, len(got))]))
				}
			}
		})
	})

	// a call prints its answer, whatever else the peer sends; it fails when
	// there is none
	tScenario("w-call", prod(2, 2, 4, 2), 0, func(w *cWorld, x *tool, r *radix) func() {
		pre, post, what, slow := r.next(2), r.next(2), r.next(4), r.next(2) == 1
		method := []string{"get", "fail_get", "get", "get"}[what]
		var answers []string
		if what == 3 {
			w.onDial = func(int) string { return "refuse" }
		}
		w.onMsg = func(p *peerConn, s string) {
			a := answerText(s)
			m, _ := jlib.ParseBytes([]byte(s))
			if a == "" || len(p.got) > 1 || m.MustMethod() != method || js(m.MustParams()) != `["x",1]` {
				fail("T02", "request", "the tool sent %s", js(p.got))
				return
			}
			var say []string
			if pre == 1 {
				say = append(say, push(1, 0), wire(jlib.NewResultMessage(jlib.NewRequestMessage("other", "x", nil), "of another call")))
			}
			if what != 2 {
				say = append(say, a)
				answers = append(answers, canon(a))
			}
			if post == 1 {
				say = append(say, push(1, 1), wire(jlib.NewResultMessage(m, "another")))
			}
			if what == 2 && post == 1 {
				say = say[:len(say)-1]
			}
			w.g.run("peer", func() {
				if slow {
					for _, t := range say {
						p.tell(t)
					}
				} else {
					p.tell(say...)
				}
				p.end("eof")
			})
		}
		x.run(call.Main, "-c", "ws://127.0.0.1:1/", method, "x", "1")
		return func() {
			code := 0
			if what == 3 {
				code = 1
			}
			if what == 2 {
				// without an answer the call fails, or ends as timed out
				if l := x.printed(); x.code == 0 && len(l) == 1 && strings.Contains(l[0], `"error"`) && !strings.Contains(l[0], "another") {
					return
				}
				code = 1
			}
			if x.code != code || x.panic != "" {
				fail("T02", "exit", "the tool ended with status %d (%s) instead of %d", x.code, x.panic, code)
			}
			if js(x.printed()) != js(answers) {
				fail("T02", "printed", "the tool printed %s instead of %s", js(x.printed()), js(answers))
			}
		}
	})
}
