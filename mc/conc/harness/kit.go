//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"time"

	"github.com/google/uuid"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/zzverif/vrt"
)

type seedReader struct{ r *rand.Rand }

func (s seedReader) Read(b []byte) (int, error) { return s.r.Read(b) }

// resetWorld makes what is random the same in every execution.
func resetWorld() { uuid.SetRand(seedReader{rand.New(rand.NewSource(1))}) }

// group waits for harness threads.
type group struct {
	o    vrt.Obj
	n    int
	open []string
}

func (g *group) run(name string, f func()) {
	g.n++
	vrt.GoName(name, func() {
		defer func() {
			if vrt.Unwinding() {
				return
			}
			g.n--
			vrt.Touch(&g.o)
		}()
		f()
	})
}

func (g *group) wait() { vrt.Await(&g.o, "wait for the clients", func() bool { return g.n == 0 }) }

// flag is an event harness threads wait for.
type event struct {
	o  vrt.Obj
	on bool
}

func (e *event) set()  { vrt.Step(&e.o, "set event"); e.on = true }
func (e *event) wait() { vrt.Await(&e.o, "wait for event", func() bool { return e.on }) }

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

func wire(m jlib.Message) string {
	s, err := jlib.MessageBytes(m)
	if err != nil {
		return "!" + err.Error()
	}
	return string(s)
}

const sec = time.Second

// digits of a variant number in mixed radix
type radix struct{ v int }

func (r *radix) next(n int) int { d := r.v % n; r.v /= n; return d }

func prod(ns ...int) int {
	p := 1
	for _, n := range ns {
		p *= n
	}
	return p
}
