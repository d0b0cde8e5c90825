package simrt

import (
	"iter"
	"unsafe"
)

// chanCore is a channel whose blocking the scheduler decides.
type chanCore struct {
	buf    []any
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	hb     uint64
}

type selState struct {
	fired int // -1: none
	val   any
	ok    bool
	panic bool
}

type waiter struct {
	sel *selState
	idx int
	val any
}

// Case of a select.
type Case struct {
	ch   *chanCore
	send bool
	val  any
}

func live(q []*waiter, me *selState) ([]*waiter, *waiter) {
	for len(q) > 0 && q[0].sel.fired >= 0 {
		q = q[1:]
	}
	for _, w := range q {
		if w.sel.fired < 0 && w.sel != me {
			return q, w
		}
	}
	return q, nil
}

func (c *chanCore) canRecv() bool {
	if c == nil {
		return false
	}
	var w *waiter
	c.sendq, w = live(c.sendq, nil)
	return len(c.buf) > 0 || w != nil || c.closed
}

func (c *chanCore) canSend() bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	var w *waiter
	c.recvq, w = live(c.recvq, nil)
	return w != nil
}

func (c *chanCore) doRecv() (any, bool) {
	var w *waiter
	c.sendq, w = live(c.sendq, nil)
	if len(c.buf) > 0 {
		v := c.buf[0]
		left := make([]any, 0, len(c.buf)) // copying in bulk would be reported to the race detector
		for j := 1; j < len(c.buf); j++ {
			left = append(left, c.buf[j])
		}
		c.buf = left
		if w != nil {
			c.buf = append(c.buf, w.val)
			w.sel.fired = w.idx
		}
		return v, true
	}
	if w != nil {
		w.sel.fired = w.idx
		return w.val, true
	}
	return nil, false // closed
}

func (c *chanCore) doSend(v any) {
	if c.closed {
		panic("send on closed channel")
	}
	var w *waiter
	c.recvq, w = live(c.recvq, nil)
	if w != nil {
		w.sel.val, w.sel.ok = v, true
		w.sel.fired = w.idx
		return
	}
	c.buf = append(c.buf, v)
}

func doSelect(cases []Case, hasDefault bool, what string) (int, any, bool) {
	Point(what)
	if Aborting() {
		if hasDefault {
			return -1, nil, false
		}
		return 0, nil, false
	}
	for _, c := range cases {
		if c.send && c.ch != nil {
			RaceReleaseMerge(unsafe.Pointer(&c.ch.hb))
		}
	}
	var rdy []int
	for i, c := range cases {
		if (c.send && c.ch.canSend()) || (!c.send && c.ch.canRecv()) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[Env(len(rdy))]
		c := cases[i]
		RaceAcquire(unsafe.Pointer(&c.ch.hb))
		if c.send {
			c.ch.doSend(c.val)
			return i, nil, false
		}
		v, ok := c.ch.doRecv()
		RaceReleaseMerge(unsafe.Pointer(&c.ch.hb))
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	st := &selState{fired: -1}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{sel: st, idx: i, val: c.val}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			RaceReleaseMerge(unsafe.Pointer(&c.ch.hb))
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	Block(what, func() bool { return st.fired >= 0 })
	if st.fired < 0 { // unwinding
		return 0, nil, false
	}
	c := cases[st.fired]
	RaceAcquire(unsafe.Pointer(&c.ch.hb))
	if st.panic {
		panic("send on closed channel")
	}
	return st.fired, st.val, st.ok
}

// Chan is what a chan T of the rewritten code points to.
type Chan[T any] struct{ c chanCore }

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return (*chanCore)(unsafe.Pointer(c))
}

// MakeChan makes the simulated channel of make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := new(Chan[T])
	core(c).cap = n
	return c
}

// A channel of the rewritten code keeps its type, but its value is a pointer to a Chan: every
// operation on channels is rewritten, so that nothing else looks at it. Types with a direction
// need functions of their own.

// MakeAny replaces make of a channel type; MakeRecv and MakeSend are for those with a direction.
func MakeAny[C ~chan T, T any](n int) C {
	p := MakeChan[T](n)
	return *(*C)(unsafe.Pointer(&p))
}
func MakeRecv[C ~<-chan T, T any](n int) C {
	p := MakeChan[T](n)
	return *(*C)(unsafe.Pointer(&p))
}
func MakeSend[C ~chan<- T, T any](n int) C {
	p := MakeChan[T](n)
	return *(*C)(unsafe.Pointer(&p))
}

// OfAny, OfRecv and OfSend are the simulated channel behind a channel value.
func OfAny[C ~chan T, T any](c C) *Chan[T]    { return *(**Chan[T])(unsafe.Pointer(&c)) }
func OfRecv[C ~<-chan T, T any](c C) *Chan[T] { return *(**Chan[T])(unsafe.Pointer(&c)) }
func OfSend[C ~chan<- T, T any](c C) *Chan[T] { return *(**Chan[T])(unsafe.Pointer(&c)) }

// Out is the receiving end of a channel.
func (c *Chan[T]) Out() <-chan T { return *(*<-chan T)(unsafe.Pointer(&c)) }

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func chanSend(c *chanCore, v any) { doSelect([]Case{{c, true, v}}, false, "chan send") }
func chanRecv(c *chanCore) (any, bool) {
	_, v, ok := doSelect([]Case{{c, false, nil}}, false, "chan receive")
	return v, ok
}
func chanLen(c *chanCore) int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}
func chanCap(c *chanCore) int {
	if c == nil {
		return 0
	}
	return c.cap
}
func chanClose(c *chanCore) {
	if c == nil {
		panic("close of nil channel")
	}
	Point("chan close")
	if Aborting() {
		return
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceReleaseMerge(unsafe.Pointer(&c.hb))
	for _, w := range c.recvq {
		if w.sel.fired < 0 {
			w.sel.fired = w.idx
		}
	}
	for _, w := range c.sendq {
		if w.sel.fired < 0 {
			w.sel.panic = true
			w.sel.fired = w.idx
		}
	}
	c.recvq, c.sendq = nil, nil
}

func (c *Chan[T]) Send(v T) { chanSend(core(c), v) }
func (c *Chan[T]) Recv() T {
	v, _ := chanRecv(core(c))
	return conv[T](v)
}
func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := chanRecv(core(c))
	return conv[T](v), ok
}
func (c *Chan[T]) Close()   { chanClose(core(c)) }
func (c *Chan[T]) Len() int { return chanLen(core(c)) }
func (c *Chan[T]) Cap() int { return chanCap(core(c)) }

// Clear forgets what is buffered: a stopped timer has nothing to receive.
func (c *Chan[T]) Clear() {
	if c != nil {
		c.c.buf = nil
	}
}

// Range replaces range over a channel.
func (c *Chan[T]) Range() iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// RecvCase and SendCase build select cases.
func RecvCase[T any](c *Chan[T]) Case      { return Case{core(c), false, nil} }
func SendCase[T any](c *Chan[T], v T) Case { return Case{core(c), true, v} }

// Select replaces select.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	if len(cases) == 0 && !hasDefault {
		Block("empty select", func() bool { return false })
	}
	return doSelect(cases, hasDefault, "select")
}

// Val converts a received value.
func Val[T any](c *Chan[T], v any) T { return conv[T](v) }
