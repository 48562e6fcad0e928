// Package stime replaces package time in the instrumented build: every clock
// and timer is the simulator's.
package stime

import (
	"time"

	sim "github.com/adamcolton/parlex/zzsim"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

const epoch = 1700000000

func Now() Time               { return time.Unix(epoch, sim.NowNano()).UTC() }
func Since(t Time) Duration   { return Now().Sub(t) }
func Until(t Time) Duration   { return t.Sub(Now()) }
func Unix(s, ns int64) Time   { return time.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time { return time.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time { return time.UnixMicro(us).UTC() }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(layout, value string) (Time, error)    { return time.Parse(layout, value) }
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, o int) *Location      { return time.FixedZone(name, o) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }

func Sleep(d Duration) { sim.SleepTask(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	gen  int
	live bool
	f    func()
}

func (t *Timer) start(d Duration) {
	t.gen++
	g := t.gen
	t.live = true
	sim.GoAfter(int64(d), func() {
		if t.gen != g || !t.live {
			return
		}
		t.live = false
		if t.f != nil {
			t.f()
			return
		}
		sim.Snd(t.c)(Now())
	})
}

func (t *Timer) Stop() bool {
	l := t.live
	t.live = false
	t.gen++
	return l
}

func (t *Timer) Reset(d Duration) bool {
	l := t.live
	t.start(d)
	return l
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan Time
	stop bool
	d    Duration
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, d: d}
	sim.Go(func() {
		for !t.stop {
			sim.SleepTask(int64(t.d))
			if t.stop {
				return
			}
			if sim.ChLen[Time](c) == 0 {
				sim.Snd(c)(Now())
			}
		}
	}, 0)
	return t
}
func (t *Ticker) Stop()            { t.stop = true }
func (t *Ticker) Reset(d Duration) { t.d = d }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
