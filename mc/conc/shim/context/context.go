//go:build go1.23

// Package context stands in for the standard package in rewritten code.
package context

import (
	stdctx "context"
	"time"

	"github.com/superisaac/jlib/zzverif/vrt"
)

type Context = stdctx.Context
type CancelFunc = stdctx.CancelFunc
type CancelCauseFunc = stdctx.CancelCauseFunc

var Canceled = stdctx.Canceled
var DeadlineExceeded = stdctx.DeadlineExceeded

func Background() Context                   { return stdctx.Background() }
func TODO() Context                         { return stdctx.TODO() }
func WithValue(p Context, k, v any) Context { return stdctx.WithValue(p, k, v) }
func WithoutCancel(p Context) Context       { return stdctx.WithoutCancel(p) }
func Cause(c Context) error                 { return stdctx.Cause(c) }
func AfterFunc(c Context, f func()) func() bool {
	// no thread is started by code outside the scheduler: wait in one
	stop := false
	var o vrt.Obj
	vrt.Go(func() {
		vrt.SetQuiet()
		vrt.Await(&o, "context.AfterFunc", func() bool { return stop || c.Err() != nil })
		if stop {
			return
		}
		stop = true
		f()
	})
	return func() bool {
		vrt.Step(&o, "AfterFunc.stop")
		was := stop
		stop = true
		return !was
	}
}

func WithCancel(p Context) (Context, CancelFunc) {
	c, cancel := stdctx.WithCancel(p)
	return c, func() {
		vrt.CtxEvent("cancel")
		cancel()
	}
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c, cancel := stdctx.WithCancelCause(p)
	return c, func(e error) {
		vrt.CtxEvent("cancel")
		cancel(e)
	}
}

type timed struct {
	Context
	dl time.Time
}

func (t *timed) Deadline() (time.Time, bool) { return t.dl, true }
func (t *timed) Err() error {
	if t.Context.Err() != nil && stdctx.Cause(t.Context) == DeadlineExceeded {
		return DeadlineExceeded
	}
	return t.Context.Err()
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return withDeadline(p, d, DeadlineExceeded)
}
func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	return withDeadline(p, d, cause)
}

func withDeadline(p Context, d time.Time, cause error) (Context, CancelFunc) {
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		return WithCancel(p)
	}
	c, cancel := stdctx.WithCancelCause(p)
	var o vrt.Obj
	tm := vrt.StartTimer(d.Sub(vrt.Epoch)-vrt.ReadClock(), &o, func() { cancel(DeadlineExceeded) })
	return &timed{c, d}, func() {
		vrt.CtxEvent("cancel")
		tm.Stop()
		cancel(nil)
	}
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vrt.Epoch.Add(vrt.ReadClock()+d))
}
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, vrt.Epoch.Add(vrt.ReadClock()+d), cause)
}
