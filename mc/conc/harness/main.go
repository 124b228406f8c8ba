//go:build go1.23

// Command conc explores the schedules of concurrency scenarios on the
// rewritten code under test.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// Scenario is a small program around the code under test. Its variants are all
// explored, each under every schedule within the bound.
type Scenario struct {
	Name     string
	Props    string
	Variants int
	// Heavy scenarios get only the low levels in the quick tier.
	Quick int // highest deviation level in the quick tier, 0: no limit of its own, -1: the default schedules only
	Run   func(variant int) (body func(), check func(*vrt.Sched))
	Show  func(variant int) string
	Limit int
	// Weight is the share of the time it gets, 1 by default
	Weight int
}

var scenarios []*Scenario

func add(s *Scenario) { scenarios = append(scenarios, s) }

var prop string

// fail reports a violation if the property under check is one of those named.
func fail(props, sig, format string, a ...interface{}) {
	if strings.Contains(" "+props+" ", " "+prop+" ") {
		vrt.Failf(sig, format, a...)
	}
}

type node struct {
	up      *node
	dev     vrt.Dev
	depth   int
	variant int
	first   int
	alts    []uint8
}

func (n *node) devs() []vrt.Dev {
	out := make([]vrt.Dev, n.depth)
	for x := n; x.depth > 0; x = x.up {
		out[x.depth-1] = x.dev
	}
	return out
}

type violation struct {
	Family    string    `json:"family"`
	Sig       string    `json:"sig"`
	Message   string    `json:"message"`
	Variant   int       `json:"variant"`
	Policy    int       `json:"policy"`
	Choices   []vrt.Dev `json:"choices"`
	Steps     []string  `json:"steps"`
	Hot       []string  `json:"hot"`
	Confirmed string    `json:"confirmed"`
}

type result struct {
	Scenario    string      `json:"scenario"`
	Policy      int         `json:"policy"`
	Variants    int         `json:"variants"`
	Executions  int         `json:"executions"`
	Pruned      int         `json:"pruned"`
	States      int         `json:"states"`
	Steps       int         `json:"transitions"`
	Bound       int         `json:"deviation_bound_completed"`
	Exhaustive  bool        `json:"exhaustive"`
	MaxDepth    int         `json:"longest_execution"`
	Hot         []string    `json:"unordered_variables"`
	Restarts    int         `json:"restarts"`
	Unconfirmed int         `json:"unconfirmed"`
	Wall        float64     `json:"wall_s"`
	Sample      []string    `json:"sample"`
	Violations  []violation `json:"violations"`
	Unsupported string      `json:"unsupported"`
}

var started, beat int64 // wall clock of the execution in progress

// what a scenario may replace
var stdout, stderr, args = os.Stdout, os.Stderr, []string{"conc"}

func runOne(sc *Scenario, variant, policy int, devs []vrt.Dev, visited map[uint64]struct{}, trace bool) *vrt.Sched {
	atomic.StoreInt64(&started, time.Now().UnixNano())
	resetWorld()
	vrt.Start()
	body, check := sc.Run(variant)
	s := vrt.Run(vrt.Config{Policy: policy, Devs: devs, Visited: visited, Limit: sc.Limit, Trace: trace, Salt: uint64(variant + 1)}, body, check)
	atomic.StoreInt64(&started, 0)
	os.Stdout, os.Stderr, os.Args = stdout, stderr, args
	return s
}

func relevant(fs []vrt.Fail) *vrt.Fail {
	for i := range fs {
		if !strings.HasPrefix(fs[i].Sig, "internal:") {
			return &fs[i]
		}
	}
	return nil
}

func explore(sc *Scenario, policy, maxdev, maxexec int, deadline time.Time) *result {
	r := &result{Scenario: sc.Name, Policy: policy, Variants: sc.Variants, Bound: -1}
	t0 := time.Now()
	visited := map[uint64]struct{}{}
	var frontier []*node
	newFrontier := func() {
		clear(visited)
		frontier = nil
		for v := 0; v < sc.Variants; v++ {
			frontier = append(frontier, &node{variant: v})
		}
	}
	newFrontier()
	cur := []*node(nil)
	one := func(n *node) bool {
		s := runOne(sc, n.variant, policy, n.devs(), visited, false)
		r.Executions++
		r.Steps += s.NSteps()
		if s.NSteps() > r.MaxDepth {
			r.MaxDepth = s.NSteps()
		}
		r.States += s.NewStates()
		if s.Pruned() {
			r.Pruned++
		}
		if f := relevant(s.Fails); f != nil {
			// confirm
			devs := n.devs()
			ok := 0
			var last *vrt.Sched
			for i := 0; i < 4; i++ {
				x := runOne(sc, n.variant, policy, devs, nil, true)
				if g := relevant(x.Fails); g != nil && g.Sig == f.Sig {
					ok++
					last = x
				}
			}
			if ok == 0 {
				r.Unconfirmed++
				return true
			}
			st := last.Steps
			if len(st) > 400 {
				st = st[len(st)-400:]
			}
			show := ""
			if sc.Show != nil {
				show = " (" + sc.Show(n.variant) + ")"
			}
			r.Violations = append(r.Violations, violation{Family: sc.Name, Sig: f.Sig, Message: f.Msg + show, Variant: n.variant, Policy: policy, Choices: devs, Steps: st, Hot: hotList(), Confirmed: fmt.Sprintf("%d of 4 reruns", ok)})
			return false
		}
		first := 0
		if n.depth > 0 {
			first = n.dev.K + 1
		}
		n.first, n.alts = first, s.Alts()
		any := false
		for _, a := range n.alts {
			if a > 1 {
				any = true
				break
			}
		}
		if any {
			cur = append(cur, n)
		}
		return true
	}
	expired := func() bool { return time.Now().After(deadline) || (maxexec > 0 && r.Executions >= maxexec) }
restart:
	for level := 0; ; level++ {
		cur = nil
		done := true
		step := func(n *node) int {
			if expired() && level > 0 {
				return 1
			}
			if !one(n) {
				return 2
			}
			if len(vrt.NewHot) > 0 {
				for k := range vrt.NewHot {
					vrt.Hot[k] = true
				}
				clear(vrt.NewHot)
				r.Restarts++
				newFrontier()
				return 3
			}
			return 0
		}
		code := 0
	walk:
		for _, p := range frontier {
			if level == 0 {
				if code = step(p); code != 0 {
					break walk
				}
				continue
			}
			for i, a := range p.alts {
				for c := 1; c < int(a); c++ {
					if code = step(&node{up: p, dev: vrt.Dev{K: p.first + i, C: c}, depth: p.depth + 1, variant: p.variant}); code != 0 {
						break walk
					}
				}
			}
			p.alts = nil
		}
		switch code {
		case 1:
			done = false
		case 2:
			r.Wall = time.Since(t0).Seconds()
			r.Hot = hotList()
			return r
		case 3:
			goto restart
		}
		if !done {
			break
		}
		r.Bound = level
		frontier = cur
		if len(frontier) == 0 {
			r.Exhaustive = true
			break
		}
		if maxdev > 0 && level >= maxdev || maxdev < 0 {
			break
		}
	}
	r.Hot = hotList()
	x := runOne(sc, 0, policy, nil, nil, true)
	r.Sample = x.Steps
	if len(r.Sample) > 40 {
		r.Sample = r.Sample[:40]
	}
	r.Wall = time.Since(t0).Seconds()
	return r
}

func hotList() []string {
	out := []string{}
	for k := range vrt.Hot {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func main() {
	os.Args[0] = "conc"
	p := flag.String("prop", "", "")
	list := flag.Bool("list", false, "")
	name := flag.String("scenario", "", "")
	policy := flag.Int("policy", 0, "")
	variant := flag.Int("variant", -1, "")
	maxdev := flag.Int("maxdev", 0, "")
	maxexec := flag.Int("maxexec", 0, "")
	secs := flag.Float64("deadline", 10, "")
	out := flag.String("out", "", "")
	known := flag.String("known", "", "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	prop = *p
	for _, k := range strings.Split(*known, ",") {
		vrt.Known[k] = true
	}
	os.Args = os.Args[:1]
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)

	if *list {
		type item struct {
			Name   string `json:"name"`
			Quick  int    `json:"quick"`
			Weight int    `json:"weight"`
		}
		l := []item{}
		for _, s := range scenarios {
			if strings.Contains(" "+s.Props+" ", " "+prop+" ") {
				l = append(l, item{s.Name, s.Quick, s.Weight})
			}
		}
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	find := func(n string) *Scenario {
		for _, s := range scenarios {
			if s.Name == n {
				return s
			}
		}
		fmt.Fprintln(os.Stderr, "no scenario", n)
		os.Exit(2)
		return nil
	}
	go watchdog(*out, *name, *policy)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, k := range v.Hot {
			vrt.Hot[k] = true
		}
		s := runOne(find(v.Family), v.Variant, v.Policy, v.Choices, nil, true)
		for _, l := range s.Steps {
			fmt.Println("   ", l)
		}
		if f := relevant(s.Fails); f != nil {
			fmt.Printf("%s: %s\n", f.Sig, f.Msg)
			os.Exit(1)
		}
		fmt.Println("no violation")
		return
	}
	sc := find(*name)
	if *variant >= 0 {
		s := runOne(sc, *variant, *policy, nil, nil, true)
		for _, l := range s.Steps {
			fmt.Println("   ", l)
		}
		for _, f := range s.Fails {
			fmt.Println(f.Sig, f.Msg)
		}
		fmt.Println("left:", s.Left())
		return
	}
	r := explore(sc, *policy, *maxdev, *maxexec, time.Now().Add(time.Duration(*secs*float64(time.Second))))
	for k, m := range vrt.KnownSeen {
		r.Violations = append(r.Violations, violation{Family: sc.Name, Sig: k, Message: m, Policy: *policy, Choices: []vrt.Dev{}})
	}
	b, _ := json.Marshal(r)
	if *out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// watchdog notices code that goes round without ever reaching a scheduling point.
func watchdog(out, name string, policy int) {
	for {
		time.Sleep(time.Second)
		s := atomic.LoadInt64(&started)
		if s != 0 && time.Since(time.Unix(0, s)) > 40*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r := &result{Scenario: name, Policy: policy, Bound: -1}
			if spins(string(buf)) {
				r.Violations = []violation{{Family: name, Sig: "spin", Policy: policy, Message: "an execution does not get on:\n" + string(buf), Choices: []vrt.Dev{}}}
			} else {
				r.Unsupported = "an execution waits for something the scheduler does not control:\n" + string(buf)
			}
			b, _ := json.Marshal(r)
			if out != "" {
				os.WriteFile(out, b, 0o644)
			} else {
				os.Stdout.Write(b[:min(len(b), 6000)])
			}
			os.Exit(0)
		}
	}
}

// spins says whether a goroutine of the code under test is running.
func spins(stacks string) bool {
	for _, g := range strings.Split(stacks, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(g, "main.watchdog") {
			continue
		}
		if (strings.Contains(head, "[running") || strings.Contains(head, "[runnable")) && strings.Contains(g, "superisaac/jlib") {
			return true
		}
	}
	return false
}
