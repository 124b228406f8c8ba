//go:build go1.23

// Package time stands in for the standard package in rewritten code: timers
// and the clock are those of the scheduler.
package time

import (
	stdtime "time"

	"github.com/superisaac/jlib/zzverif/vrt"
)

type (
	Time       = stdtime.Time
	Duration   = stdtime.Duration
	Month      = stdtime.Month
	Weekday    = stdtime.Weekday
	Location   = stdtime.Location
	ParseError = stdtime.ParseError
)

const (
	Layout      = stdtime.Layout
	ANSIC       = stdtime.ANSIC
	UnixDate    = stdtime.UnixDate
	RubyDate    = stdtime.RubyDate
	RFC822      = stdtime.RFC822
	RFC822Z     = stdtime.RFC822Z
	RFC850      = stdtime.RFC850
	RFC1123     = stdtime.RFC1123
	RFC1123Z    = stdtime.RFC1123Z
	RFC3339     = stdtime.RFC3339
	RFC3339Nano = stdtime.RFC3339Nano
	Kitchen     = stdtime.Kitchen
	Stamp       = stdtime.Stamp
	StampMilli  = stdtime.StampMilli
	StampMicro  = stdtime.StampMicro
	StampNano   = stdtime.StampNano
	DateTime    = stdtime.DateTime
	DateOnly    = stdtime.DateOnly
	TimeOnly    = stdtime.TimeOnly
	Nanosecond  = stdtime.Nanosecond
	Microsecond = stdtime.Microsecond
	Millisecond = stdtime.Millisecond
	Second      = stdtime.Second
	Minute      = stdtime.Minute
	Hour        = stdtime.Hour
	January     = stdtime.January
	February    = stdtime.February
	March       = stdtime.March
	April       = stdtime.April
	May         = stdtime.May
	June        = stdtime.June
	July        = stdtime.July
	August      = stdtime.August
	September   = stdtime.September
	October     = stdtime.October
	November    = stdtime.November
	December    = stdtime.December
	Sunday      = stdtime.Sunday
	Monday      = stdtime.Monday
	Tuesday     = stdtime.Tuesday
	Wednesday   = stdtime.Wednesday
	Thursday    = stdtime.Thursday
	Friday      = stdtime.Friday
	Saturday    = stdtime.Saturday
)

var (
	UTC   = stdtime.UTC
	Local = stdtime.Local
)

func ParseDuration(s string) (Duration, error)    { return stdtime.ParseDuration(s) }
func FixedZone(name string, offset int) *Location { return stdtime.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return stdtime.LoadLocation(name) }
func Parse(layout, value string) (Time, error)    { return stdtime.Parse(layout, value) }
func Unix(sec int64, nsec int64) Time             { return stdtime.Unix(sec, nsec) }
func UnixMicro(usec int64) Time                   { return stdtime.UnixMicro(usec) }
func UnixMilli(msec int64) Time                   { return stdtime.UnixMilli(msec) }
func ParseInLocation(layout, value string, loc *Location) (Time, error) {
	return stdtime.ParseInLocation(layout, value, loc)
}
func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return stdtime.Date(year, month, day, hour, min, sec, nsec, loc)
}

func Now() Time             { return vrt.Epoch.Add(vrt.ReadClock()) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { vrt.Sleep(d) }

type Timer struct {
	C <-chan Time
	c chan Time
	o vrt.Obj
	t *vrt.Timer
	f func()
}

func (t *Timer) start(d Duration) {
	if t.f != nil {
		t.t = vrt.StartTimer(d, &t.o, func() { vrt.SpawnFromTimer(&t.o, "AfterFunc", t.f) })
		return
	}
	t.t = vrt.StartTimer(d, &t.o, func() {
		select {
		case t.c <- vrt.Epoch.Add(vrt.Now()):
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// Stop: as since Go 1.23 no stale value is received after it returns.
func (t *Timer) Stop() bool {
	was := t.t.Stop()
	if t.c != nil {
		select {
		case <-t.c:
			was = true
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	c chan Time
	o vrt.Obj
	t *vrt.Timer
	d Duration
}

func (t *Ticker) arm() {
	t.t = vrt.StartTicker(t.d, &t.o, func() {
		select {
		case t.c <- vrt.Epoch.Add(vrt.Now()):
		default:
		}
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) Stop() { t.t.Stop() }
func (t *Ticker) Reset(d Duration) {
	t.t.Stop()
	t.d = d
	t.arm()
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
