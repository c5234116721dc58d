package zktime

import (
	"time"

	"github.com/companyzero/zkc/zkv"
)

// Clock is the current time in nanoseconds since the epoch, Step what every
// call of Now adds to it.
var (
	Clock int64 = 1600000000 * 1000000000
	Step  int64 = 1000000
	// NowHook, when set, supplies the time instead.
	NowHook func() time.Time

	sleepers []chan bool
	timers   []*Timer
	tickers  []*Ticker
)

func Now() time.Time {
	zkv.Gate()
	if NowHook != nil {
		return NowHook()
	}
	Clock += Step
	return time.Unix(Clock/1000000000, Clock%1000000000)
}

// Peek reads the clock without moving it.
func Peek() time.Time { return time.Unix(Clock/1000000000, Clock%1000000000) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep blocks until the harness wakes the sleepers.
func Sleep(d time.Duration) {
	if d <= 0 {
		return
	}
	c := make(chan bool)
	sleepers = append(sleepers, c)
	<-c
}

// Wake ends every sleep.
func Wake() {
	s := sleepers
	sleepers = nil
	for _, c := range s {
		close(c)
	}
}

type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	active bool
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, active: true}
	timers = append(timers, t)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := NewTimer(d)
	t.f = f
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	a := t.active
	t.active = false
	return a
}

func (t *Timer) Reset(d time.Duration) bool {
	a := t.active
	t.active = true
	return a
}

// FireTimers lets every active timer expire.
func FireTimers() {
	for _, t := range timers {
		if !t.active {
			continue
		}
		t.active = false
		if t.f != nil {
			go t.f()
			continue
		}
		select {
		case t.c <- Peek():
		default:
		}
	}
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	dead bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	tickers = append(tickers, t)
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) Stop()                 { t.dead = true }
func (t *Ticker) Reset(d time.Duration) { t.dead = false }

// FireTickers makes every running ticker tick.
func FireTickers() {
	for _, t := range tickers {
		if t.dead {
			continue
		}
		select {
		case t.c <- Peek():
		default:
		}
	}
}

// Tickers counts running tickers.
func Tickers() int {
	n := 0
	for _, t := range tickers {
		if !t.dead {
			n++
		}
	}
	return n
}
