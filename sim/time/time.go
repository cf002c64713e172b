package time

import (
	rt "time"

	"github.com/teamlint/baron/zz_sim/k"
)

type (
	Duration   = rt.Duration
	Location   = rt.Location
	Month      = rt.Month
	ParseError = rt.ParseError
	Time       = rt.Time
	Weekday    = rt.Weekday
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RubyDate    = rt.RubyDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = "2006-01-02 15:04:05"
	DateOnly    = "2006-01-02"
	TimeOnly    = "15:04:05"

	January   = rt.January
	February  = rt.February
	March     = rt.March
	April     = rt.April
	May       = rt.May
	June      = rt.June
	July      = rt.July
	August    = rt.August
	September = rt.September
	October   = rt.October
	November  = rt.November
	December  = rt.December
	Sunday    = rt.Sunday
	Monday    = rt.Monday
	Tuesday   = rt.Tuesday
	Wednesday = rt.Wednesday
	Thursday  = rt.Thursday
	Friday    = rt.Friday
	Saturday  = rt.Saturday
)

var (
	UTC   = rt.UTC
	Local = rt.Local
)

func Now() Time {
	if k.Cur != nil {
		return k.Cur.Now().Local()
	}
	return rt.Unix(1600000000, 0).UTC()
}
func Since(t Time) Duration                                    { return Now().Sub(t) }
func Until(t Time) Duration                                    { return t.Sub(Now()) }
func Sleep(d Duration)                                         { k.Pause(d) }
func ParseDuration(s string) (Duration, error)                 { return rt.ParseDuration(s) }
func Parse(l, v string) (Time, error)                          { return rt.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) { return rt.ParseInLocation(l, v, loc) }
func Date(y int, m Month, d, h, mi, s, ns int, loc *Location) Time {
	return rt.Date(y, m, d, h, mi, s, ns, loc)
}
func Unix(s, ns int64) Time                    { return rt.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time                  { return rt.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time                  { return rt.UnixMicro(us).UTC() }
func FixedZone(n string, o int) *Location      { return rt.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return rt.LoadLocation(n) }

// After is a channel on which the time arrives after d.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Timer fires once.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func() bool
}

func (t *Timer) start(d Duration) {
	w := k.Cur
	if w == nil {
		return
	}
	t.stop = w.AddTimer(d, func() {
		if t.f != nil {
			k.Spawn(t.f)
			return
		}
		k.TrySend[Time](w, t.c, w.Now())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: k.Owned(f)}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool { return t.stop != nil && t.stop() }
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker fires again and again.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	stop func() bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

func (t *Ticker) start() {
	w := k.Cur
	if w == nil {
		return
	}
	t.stop = w.AddTimer(t.d, func() {
		k.TrySend[Time](w, t.c, w.Now())
		t.start()
	})
}
func (t *Ticker) Stop() {
	if t.stop != nil {
		t.stop()
	}
}
func (t *Ticker) Reset(d Duration) { t.Stop(); t.d = d; t.start() }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
