package simrt

import (
	"iter"
	"reflect"
	"runtime"
	"unsafe"
)

// Channels of the code under test keep their Go types but serve only as identities; their state lives here.
type hchan struct {
	keep   any // the channel itself, so that its address is not reused during the run
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	t     *task
	group *selGroup
	idx   int
	val   any
	ok    bool
	bad   bool // send on closed channel
}

type selGroup struct {
	done bool
	won  *waiter
}

func state[T any](ch <-chan T) *hchan { return stateOf(reflect.ValueOf(ch).Pointer(), cap(ch), ch) }

func stateOf(p uintptr, c int, ch any) *hchan {
	h := s.chans[p]
	if h == nil {
		h = &hchan{cap: c, keep: ch}
		s.chans[p] = h
	}
	return h
}

// A send happens before its receive completes, a receive before the send it makes room for completes.
func (h *hchan) release()  { Rel(unsafe.Pointer(&h.buf)) }
func (h *hchan) received() { Acq(unsafe.Pointer(&h.buf)) }
func (h *hchan) taking()   { Rel(unsafe.Pointer(&h.cap)) }
func (h *hchan) sent()     { Acq(unsafe.Pointer(&h.cap)) }

func (h *hchan) popRecv() *waiter {
	for len(h.recvq) > 0 {
		w := h.recvq[0]
		h.recvq = h.recvq[1:]
		if !w.group.done {
			return w
		}
	}
	return nil
}

func (h *hchan) popSend() *waiter {
	for len(h.sendq) > 0 {
		w := h.sendq[0]
		h.sendq = h.sendq[1:]
		if !w.group.done {
			return w
		}
	}
	return nil
}

func (w *waiter) win() {
	w.group.done = true
	w.group.won = w
	s.ready(w.t)
}

// trySend reports whether the send happened.
func (h *hchan) trySend(v any) bool {
	if h.closed {
		panic("send on closed channel")
	}
	if w := h.popRecv(); w != nil {
		w.val, w.ok = v, true
		w.win()
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		return true
	}
	return false
}

func (h *hchan) tryRecv() (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf = h.buf[1:]
		if w := h.popSend(); w != nil {
			h.buf = append(h.buf, w.val)
			w.win()
		}
		return v, true, true
	}
	if w := h.popSend(); w != nil {
		v = w.val
		w.win()
		return v, true, true
	}
	if h.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (h *hchan) close() {
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	for w := h.popRecv(); w != nil; w = h.popRecv() {
		w.val, w.ok = nil, false
		w.win()
	}
	for w := h.popSend(); w != nil; w = h.popSend() {
		w.bad = true
		w.win()
	}
}

func blockForever(why string) {
	if off() {
		runtime.Goexit()
	}
	s.block(why)
	runtime.Goexit()
}

func Send[T any](ch chan<- T, v T) {
	if off() {
		runtime.Goexit()
	}
	SP()
	if ch == nil {
		blockForever("send on nil channel")
	}
	h := stateOf(reflect.ValueOf(ch).Pointer(), cap(ch), ch)
	h.release()
	if h.trySend(v) {
		h.sent()
		return
	}
	w := &waiter{t: s.cur, group: &selGroup{}, val: v}
	h.sendq = append(h.sendq, w)
	for !w.group.done {
		s.block("channel send")
	}
	if w.bad {
		panic("send on closed channel")
	}
	h.sent()
}

// SendTo is Send with the value's type taken from the channel alone.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// BlockForever is an empty select statement.
func BlockForever() { blockForever("select without cases") }

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	if off() {
		runtime.Goexit()
	}
	SP()
	if ch == nil {
		blockForever("receive from nil channel")
	}
	h := state(ch)
	h.taking()
	if v, ok, done := h.tryRecv(); done {
		h.received()
		if !ok || v == nil {
			return zero, ok
		}
		return v.(T), true
	}
	w := &waiter{t: s.cur, group: &selGroup{}}
	h.recvq = append(h.recvq, w)
	for !w.group.done {
		s.block("channel receive")
	}
	h.received()
	if !w.ok || w.val == nil {
		return zero, w.ok
	}
	return w.val.(T), true
}

func Close[T any](ch chan<- T) {
	if off() {
		return
	}
	SP()
	if ch == nil {
		panic("close of nil channel")
	}
	h := stateOf(reflect.ValueOf(ch).Pointer(), cap(ch), ch)
	h.release()
	h.close()
}

// Post delivers a value from an event function if there is room (timer channels).
func Post[T any](ch chan T, v T) {
	if off() {
		return
	}
	h := stateOf(reflect.ValueOf(ch).Pointer(), cap(ch), ch)
	if !h.closed {
		h.trySend(v)
	}
}

// Drain empties a buffered channel (timer reset).
func Drain[T any](ch chan T) {
	if off() {
		return
	}
	stateOf(reflect.ValueOf(ch).Pointer(), cap(ch), ch).buf = nil
}

func ChanLen[T any](ch <-chan T) int {
	if off() || ch == nil {
		return 0
	}
	SP()
	return len(state(ch).buf)
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case is one communication clause of a select statement.
type Case interface {
	chanState() *hchan
	isSend() bool
	value() any
	set(v any, ok bool)
}

type RecvCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func CR[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func (c *RecvCase[T]) chanState() *hchan {
	if c.ch == nil {
		return nil
	}
	return state(c.ch)
}
func (c *RecvCase[T]) isSend() bool { return false }
func (c *RecvCase[T]) value() any   { return nil }
func (c *RecvCase[T]) set(v any, ok bool) {
	c.ok = ok
	if ok && v != nil {
		c.v = v.(T)
	}
}
func (c *RecvCase[T]) Val() T          { return c.v }
func (c *RecvCase[T]) Val2() (T, bool) { return c.v, c.ok }

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func CS[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }
func (c *SendCase[T]) With(v T) *SendCase[T] {
	c.v = v
	return c
}
func (c *SendCase[T]) chanState() *hchan {
	if c.ch == nil {
		return nil
	}
	return stateOf(reflect.ValueOf(c.ch).Pointer(), cap(c.ch), c.ch)
}
func (c *SendCase[T]) isSend() bool       { return true }
func (c *SendCase[T]) value() any         { return c.v }
func (c *SendCase[T]) set(v any, ok bool) {}

// Select performs a select statement; it returns the index of the case that ran, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if off() {
		runtime.Goexit()
	}
	SP()
	n := len(cases)
	start := s.lib.Intn(n)
	for k := 0; k < n; k++ {
		i := (start + k) % n
		c := cases[i]
		h := c.chanState()
		if h == nil {
			continue
		}
		if c.isSend() {
			h.release()
			if h.trySend(c.value()) {
				h.sent()
				return i
			}
		} else if v, ok, done := h.tryRecv(); done {
			h.taking()
			h.received()
			c.set(v, ok)
			return i
		}
	}
	if hasDefault {
		return -1
	}
	g := &selGroup{}
	any := false
	for i, c := range cases {
		h := c.chanState()
		if h == nil {
			continue
		}
		any = true
		w := &waiter{t: s.cur, group: g, idx: i, val: c.value()}
		if c.isSend() {
			h.release()
			h.sendq = append(h.sendq, w)
		} else {
			h.taking()
			h.recvq = append(h.recvq, w)
		}
	}
	if !any {
		blockForever("select on nil channels")
	}
	for !g.done {
		s.block("select")
	}
	w := g.won
	if cases[w.idx].isSend() {
		if w.bad {
			panic("send on closed channel")
		}
		cases[w.idx].chanState().sent()
	} else {
		cases[w.idx].chanState().received()
		cases[w.idx].set(w.val, w.ok)
	}
	return w.idx
}
