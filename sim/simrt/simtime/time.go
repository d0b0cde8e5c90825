// Package simtime replaces package time in the code under test: the clock is the simulator's.
package simtime

import (
	"time"

	"vsim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January = time.January
	Sunday  = time.Sunday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() Time                                { return epoch.Add(Duration(simrt.Now())) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { simrt.Sleep(d) }
func Unix(s, n int64) Time                     { return time.Unix(s, n).UTC() }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us).UTC() }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

// Timer replaces time.Timer.
type Timer struct {
	C   <-chan Time
	c   *simrt.Chan[Time]
	f   func()
	gen int
	on  bool
	w   *simrt.Task // waits
}

func (t *Timer) start(d Duration) {
	t.gen++
	g := t.gen
	t.on = true
	t.c.Clear()
	simrt.Wake(t.w)
	t.w = simrt.GoTimer(func() {
		simrt.Sleep(d)
		if t.gen != g || !t.on {
			return
		}
		t.on = false
		if t.f != nil {
			simrt.NotTimer()
			t.f()
			return
		}
		if t.c.Len() == 0 {
			t.c.Send(Now())
		}
	})
}

func (t *Timer) Stop() bool {
	was := t.on
	t.on = false
	t.c.Clear()
	simrt.Wake(t.w)
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.on
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: simrt.MakeChan[Time](1)}
	t.C = t.c.Out()
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C   <-chan Time
	c   *simrt.Chan[Time]
	gen int
	on  bool
	w   *simrt.Task // waits
}

func (t *Ticker) start(d Duration) {
	t.gen++
	g := t.gen
	t.on = true
	t.c.Clear()
	simrt.Wake(t.w)
	t.w = simrt.GoTimer(func() {
		for t.on && t.gen == g {
			simrt.Sleep(d)
			if t.on && t.gen == g && t.c.Len() == 0 {
				t.c.Send(Now())
			}
		}
	})
}

func (t *Ticker) Stop()            { t.on = false; t.c.Clear(); simrt.Wake(t.w) }
func (t *Ticker) Reset(d Duration) { t.start(d) }

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: simrt.MakeChan[Time](1)}
	t.C = t.c.Out()
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
