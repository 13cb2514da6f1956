package simrt

import (
	"iter"
	"reflect"
	"runtime"
	"unsafe"
)

// Channels are real; waiting for them happens inside the simulator.  Values
// cross an unbuffered channel between two tasks through the queue of waiting
// cases below, since neither may block for real.

// grp is one waiting operation: a send, a receive or a select.
type grp struct {
	t     *Task
	fired int // the case that went through, or -1
	val   any
	ok    bool
}

type waiter struct {
	ch   uintptr
	send bool
	val  any
	g    *grp
	idx  int
}

var waiters []*waiter

// peer finds the longest waiting case of the other direction.
//
//go:norace
func peer(ch uintptr, send bool) *waiter {
	for _, w := range waiters {
		if w.ch == ch && w.send == send && w.g.fired < 0 {
			return w
		}
	}
	return nil
}

//go:norace
func unqueue(g *grp) {
	k := 0
	for _, w := range waiters {
		if w.g != g {
			waiters[k] = w
			k++
		}
	}
	for i := k; i < len(waiters); i++ {
		waiters[i] = nil
	}
	waiters = waiters[:k]
}

//go:norace
func fire(w *waiter, v any) {
	g := w.g
	g.fired = w.idx
	g.val, g.ok = v, true
	unqueue(g)
	if g.t.state == stBlocked {
		g.t.state = stReady
	}
}

//go:norace
func enqueue(w *waiter) { waiters = append(waiters, w) }

// Comm is one case of a select, or a single send or receive.
type Comm interface {
	addr() uintptr
	ready(t *Task) bool // performs it if that is possible now
	wait(g *grp, idx int)
	take(g *grp)
	real()
}

// RecvCase is a receive.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// R makes a receive case.
func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) addr() uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch))) }
func (c *RecvCase[T]) real()         { c.V, c.OK = <-c.ch }
func (c *RecvCase[T]) ready(t *Task) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if w := peer(c.addr(), true); w != nil {
			syncAcquire(c.addr())
			c.V, c.OK = valOf[T](w.val), true
			syncRelease(c.addr())
			fire(w, nil)
			return true
		}
	}
	select {
	case c.V, c.OK = <-c.ch:
		wakeAddr(c.addr())
		return true
	default:
	}
	return false
}
func (c *RecvCase[T]) wait(g *grp, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		w := &waiter{ch: c.addr(), g: g, idx: idx}
		syncRelease(c.addr())
		enqueue(w)
	}
}
func (c *RecvCase[T]) take(g *grp) {
	syncAcquire(c.addr())
	c.V, c.OK = valOf[T](g.val), g.ok
}

func valOf[T any](v any) T {
	x, _ := v.(T)
	return x
}

// SendCase is a send.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// S makes a send case.
func S[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *SendCase[T]) addr() uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch))) }
func (c *SendCase[T]) real()         { c.ch <- c.v }
func (c *SendCase[T]) ready(t *Task) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if w := peer(c.addr(), false); w != nil {
			v := any(c.v)
			syncAcquire(c.addr())
			syncRelease(c.addr())
			fire(w, v)
			return true
		}
	}
	select {
	case c.ch <- c.v:
		wakeAddr(c.addr())
		return true
	default:
	}
	return false
}
func (c *SendCase[T]) wait(g *grp, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		w := &waiter{ch: c.addr(), send: true, val: c.v, g: g, idx: idx}
		syncRelease(c.addr())
		enqueue(w)
	}
}
func (c *SendCase[T]) take(g *grp) { syncAcquire(c.addr()) }

// Select performs one of the cases and returns its index, or -1 when none is
// ready and there is a default.
func Select(def bool, cs ...Comm) int {
	t := Cur()
	if t == nil {
		return selectReal(def, cs)
	}
	for {
		Seam(2)
		n := len(cs)
		off := 0
		if n > 1 {
			off = int(nextMap() % uint64(n))
		}
		for i := 0; i < n; i++ {
			k := (i + off) % n
			if cs[k].ready(t) {
				return k
			}
		}
		if def {
			return -1
		}
		g := &grp{t: t, fired: -1}
		addrs := make([]uintptr, 0, n)
		for k, c := range cs {
			c.wait(g, k)
			addrs = append(addrs, c.addr())
		}
		BlockAny(addrs)
		if k := firedOf(g); k >= 0 {
			cs[k].take(g)
			return k
		}
		unqueue(g)
	}
}

//go:norace
func firedOf(g *grp) int { return g.fired }

// selectReal is used outside simulated runs.
func selectReal(def bool, cs []Comm) int {
	if len(cs) == 1 && !def {
		cs[0].real()
		return 0
	}
	for {
		for k, c := range cs {
			if c.ready(nil) {
				return k
			}
		}
		if def {
			return -1
		}
		runtime.Gosched()
	}
}

// SendTo sends on a channel.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, S(ch)(v)) }
}

// Recv receives from a channel.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 receives from a channel, reporting whether it is open.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := R(ch)
	Select(false, c)
	return c.V, c.OK
}

// Range receives until the channel is closed.
func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	syncRelease(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))))
	close(ch)
	wakeAddr(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))))
}

// GoCall starts fn(args...) as a task; the arguments are already evaluated.
func GoCall(spread bool, fn any, args ...any) {
	f := reflect.ValueOf(fn)
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1)
			if !spread {
				pt = pt.Elem()
			}
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a).Convert(pt)
		}
	}
	Go(func() {
		if spread {
			f.CallSlice(in)
		} else {
			f.Call(in)
		}
	})
}
