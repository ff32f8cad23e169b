// Package time replaces time inside the instrumented tree: a coarse simulated
// clock that starts at the same instant in every episode.  Nothing in the tree
// reads a clock today; code that starts to do so stays repeatable.
package time

import t "time"

type (
	Duration = t.Duration
	Location = t.Location
	Month    = t.Month
	Time     = t.Time
	Weekday  = t.Weekday
)

const (
	Nanosecond  = t.Nanosecond
	Microsecond = t.Microsecond
	Millisecond = t.Millisecond
	Second      = t.Second
	Minute      = t.Minute
	Hour        = t.Hour

	RFC3339     = t.RFC3339
	RFC3339Nano = t.RFC3339Nano
)

var (
	UTC   = t.UTC
	Local = t.UTC
)

var ticks int64

// Restart sets the clock to its first instant (harness side).
func Restart() { ticks = 0 }

// Now advances by a millisecond every eighth reading: two events in a row may
// well get the same time.
func Now() Time {
	ticks++
	return t.Unix(1700000000, (ticks/8)*1e6).UTC()
}

func Since(x Time) Duration                    { return Now().Sub(x) }
func Until(x Time) Duration                    { return x.Sub(Now()) }
func Sleep(d Duration)                         { ticks += 8 * int64(d/Millisecond) }
func Unix(s, ns int64) Time                    { return t.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time                  { return t.UnixMilli(ms).UTC() }
func ParseDuration(s string) (Duration, error) { return t.ParseDuration(s) }
func Parse(l, v string) (Time, error)          { return t.Parse(l, v) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return t.Date(y, m, d, h, mi, s, ns, l)
}
