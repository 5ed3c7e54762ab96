// Package simtime stands in for package time: the clock, timers and sleeping are simulated, everything else
// is the real package (see the generated aliases).
package simtime

import (
	"time"
	"unsafe"

	"simverif/simrt"
)

func Now() time.Time                         { simrt.SP(); return simrt.WallNow() }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { simrt.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

// Timer is a simulated time.Timer with the semantics of Go 1.23 and later.
type Timer struct {
	C      <-chan time.Time
	ch     chan time.Time
	f      func()
	active bool
	gen    int
	cancel func()
}

func NewTimer(d time.Duration) *Timer {
	simrt.SP()
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	simrt.SP()
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.active = true
	simrt.Rel(unsafe.Pointer(t))
	t.cancel = simrt.At(simrt.Now()+int64(d), func() {
		t.active = false
		if t.f != nil {
			simrt.GoEvent("timer func", func() {
				simrt.Acq(unsafe.Pointer(t))
				t.f()
			})
		} else {
			simrt.Post(t.ch, simrt.WallNow())
		}
	})
}

func (t *Timer) Stop() bool {
	simrt.SP()
	was := t.active
	if t.cancel != nil {
		t.cancel()
	}
	t.active = false
	if t.ch != nil {
		simrt.Drain(t.ch)
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker is a simulated time.Ticker.
type Ticker struct {
	C      <-chan time.Time
	ch     chan time.Time
	d      time.Duration
	cancel func()

	stopped bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	simrt.SP()
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.next()
	simrt.Track("ticker", 1)
	return t
}

func (t *Ticker) next() {
	t.cancel = simrt.At(simrt.Now()+int64(t.d), func() {
		simrt.Post(t.ch, simrt.WallNow())
		t.next()
	})
}

func (t *Ticker) Stop() {
	simrt.SP()
	t.cancel()
	if !t.stopped {
		t.stopped = true
		simrt.Track("ticker", -1)
	}
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.stopped = false
	simrt.Track("ticker", 1)
	simrt.Drain(t.ch)
	t.next()
}
