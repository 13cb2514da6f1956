package simrt

import (
	"context"
	"time"
	"unsafe"
)

// Timer is time.Timer on the simulated clock.
type Timer struct {
	C      <-chan time.Time
	ch     chan time.Time
	f      func()
	at     int64
	period int64
	on     bool
	listed bool
}

//go:norace
func (m *Timer) fire() {
	if m.period > 0 {
		m.at += m.period
		if m.at <= clock {
			m.at = clock + m.period
		}
	} else {
		m.on = false
	}
	if m.f != nil {
		if ntasks < MaxTasks {
			t := newTask(m.f)
			t.FromLib = true
			launch(t)
		}
		return
	}
	select {
	case m.ch <- time.Unix(0, base+clock):
	default:
	}
	wakeAddr(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m.ch))))
}

//go:norace
func (m *Timer) arm(d time.Duration) {
	m.at = clock + int64(max(d, 0))
	m.on = true
	if !m.listed {
		m.listed = true
		timers = append(timers, m)
	}
}

// Stop is time.Timer.Stop.
//
//go:norace
func (m *Timer) Stop() bool {
	was := m.on
	m.on = false
	m.drain()
	return was
}

func (m *Timer) drain() {
	if m.ch != nil {
		select {
		case <-m.ch:
		default:
		}
	}
}

// Reset is time.Timer.Reset.
//
//go:norace
func (m *Timer) Reset(d time.Duration) bool {
	was := m.on
	m.drain()
	m.arm(d)
	return was
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	m := &Timer{C: ch, ch: ch}
	m.arm(d)
	return m
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	m := &Timer{f: f}
	m.arm(d)
	return m
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker on the simulated clock.
type Ticker struct {
	C <-chan time.Time
	m *Timer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	m := &Timer{C: ch, ch: ch, period: int64(d)}
	m.arm(d)
	return &Ticker{ch, m}
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() { t.m.Stop() }

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) { t.m.period = int64(d); t.m.Reset(d) }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// WithTimeout is context.WithTimeout on the simulated clock.
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(p, Now().Add(d))
}

// WithDeadline is context.WithDeadline on the simulated clock.
func WithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	if d, ok := p.Deadline(); ok && d.Before(at) {
		at = d
	}
	c, cancel := context.WithCancelCause(p)
	m := AfterFunc(Until(at), func() { cancel(context.DeadlineExceeded) })
	return &deadline{c, at}, func() { m.Stop(); cancel(context.Canceled) }
}

type deadline struct {
	context.Context
	at time.Time
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }
func (d *deadline) Err() error {
	if d.Context.Err() == nil {
		return nil
	}
	if c := context.Cause(d.Context); c == context.DeadlineExceeded {
		return c
	}
	return d.Context.Err()
}
