package rt

import (
	"runtime"
	"unsafe"
)

// Channels are real Go channel values, but used as mere identities. Their
// contents and waiters are kept here.

type waiter struct {
	g    *G
	wseq int
	idx  int
	val  any
	ok   *bool
	dst  *any
}

type chanState struct {
	keep   any // keeps the channel's address from being reused
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

func ptrOf[T any](c chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

func stateOf(p uintptr, cap int, keep any) *chanState {
	if p == 0 {
		return nil
	}
	st := S.chans[p]
	if st == nil {
		st = &chanState{keep: keep, cap: cap}
		S.chans[p] = st
	}
	return st
}

func sState[T any](c chan<- T) *chanState {
	return stateOf(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))), cap(c), c)
}

func rState[T any](c <-chan T) *chanState {
	return stateOf(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))), cap(c), c)
}

func (q *chanState) popRecv() *waiter {
	for len(q.recvq) > 0 {
		w := q.recvq[0]
		q.recvq = q.recvq[1:]
		if w.wseq == w.g.wseq && w.g.state == stBlocked {
			return w
		}
	}
	return nil
}

func (q *chanState) popSend() *waiter {
	for len(q.sendq) > 0 {
		w := q.sendq[0]
		q.sendq = q.sendq[1:]
		if w.wseq == w.g.wseq && w.g.state == stBlocked {
			return w
		}
	}
	return nil
}

func (q *chanState) hasRecv() bool {
	for len(q.recvq) > 0 {
		w := q.recvq[0]
		if w.wseq == w.g.wseq && w.g.state == stBlocked {
			return true
		}
		q.recvq = q.recvq[1:]
	}
	return false
}

func (q *chanState) hasSend() bool {
	for len(q.sendq) > 0 {
		w := q.sendq[0]
		if w.wseq == w.g.wseq && w.g.state == stBlocked {
			return true
		}
		q.sendq = q.sendq[1:]
	}
	return false
}

func (q *chanState) canSend() bool {
	return q.closed || q.hasRecv() || len(q.buf) < q.cap
}

func (q *chanState) canRecv() bool {
	return len(q.buf) > 0 || q.hasSend() || q.closed
}

func (q *chanState) doSend(v any) {
	if q.closed {
		panic("send on closed channel")
	}
	if w := q.popRecv(); w != nil {
		*w.dst = v
		*w.ok = true
		w.g.fired = w.idx
		w.g.wseq++
		S.ready(w.g)
		return
	}
	q.buf = append(q.buf, v)
}

func (q *chanState) doRecv() (any, bool) {
	if len(q.buf) > 0 {
		v := q.buf[0]
		q.buf = q.buf[1:]
		if w := q.popSend(); w != nil {
			q.buf = append(q.buf, w.val)
			w.g.fired = w.idx
			w.g.wseq++
			S.ready(w.g)
		}
		return v, true
	}
	if w := q.popSend(); w != nil {
		w.g.fired = w.idx
		w.g.wseq++
		S.ready(w.g)
		return w.val, true
	}
	return nil, false
}

// Case is one arm of a select.
type Case interface {
	st() *chanState
	isSend() bool
	sendVal() any
	result(v any, ok bool)
}

// RCase is a receive arm.
type RCase[T any] struct {
	q  *chanState
	V  T
	OK bool
}

func R[T any](c <-chan T) *RCase[T] { return &RCase[T]{q: rState(c)} }
func (c *RCase[T]) st() *chanState  { return c.q }
func (c *RCase[T]) isSend() bool    { return false }
func (c *RCase[T]) sendVal() any    { return nil }
func (c *RCase[T]) result(v any, ok bool) {
	c.OK = ok
	if ok && v != nil {
		c.V = v.(T)
	}
}

// Snd sends on a channel.
type Snd[T any] struct{ c chan<- T }

func S_[T any](c chan<- T) Snd[T] { return Snd[T]{c} }

// SCase is a send arm.
type SCase struct {
	q *chanState
	v any
}

func (s Snd[T]) Case(v T) *SCase  { return &SCase{sState(s.c), v} }
func (c *SCase) st() *chanState   { return c.q }
func (c *SCase) isSend() bool     { return true }
func (c *SCase) sendVal() any     { return c.v }
func (c *SCase) result(any, bool) {}
func (s Snd[T]) Send(v T)         { Select(false, s.Case(v)) }

func Recv[T any](c <-chan T) T {
	r := R(c)
	Select(false, r)
	return r.V
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := R(c)
	Select(false, r)
	return r.V, r.OK
}

func Close[T any](c chan<- T) {
	s := S
	if s.killing {
		return
	}
	s.opCheck("close")
	q := sState[T](c)
	if q == nil {
		panic("close of nil channel")
	}
	if q.closed {
		panic("close of closed channel")
	}
	q.closed = true
	for {
		w := q.popRecv()
		if w == nil {
			break
		}
		*w.ok = false
		w.g.fired = w.idx
		w.g.wseq++
		s.ready(w.g)
	}
	for {
		w := q.popSend()
		if w == nil {
			break
		}
		w.g.fired = -2 // panics when resumed
		w.g.wseq++
		s.ready(w.g)
	}
	s.point("close")
}

// CloseEvent closes from event context, where nothing may be scheduled.
func CloseEvent[T any](c chan T) {
	q := sState[T](c)
	if q.closed {
		return
	}
	q.closed = true
	for w := q.popRecv(); w != nil; w = q.popRecv() {
		*w.ok = false
		w.g.fired = w.idx
		w.g.wseq++
		S.ready(w.g)
	}
}

func Len[T any](c <-chan T) int {
	q := rState(c)
	if q == nil {
		return 0
	}
	return len(q.buf)
}

// TrySend is for event context: never blocks, drops the value if it can't.
func TrySend[T any](c chan<- T, v T) bool {
	q := sState(c)
	if q.closed || !q.canSend() {
		return false
	}
	q.doSend(v)
	return true
}

// IsClosed tells whether channel was closed and is drained.
func IsClosed[T any](c <-chan T) bool {
	q := rState(c)
	return q != nil && q.closed && len(q.buf) == 0
}

// Select performs one of the cases and returns its index, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s.killing {
		runtime.Goexit()
	}
	kind := "select"
	if len(cases) == 1 {
		if cases[0].isSend() {
			kind = "send"
		} else {
			kind = "recv"
		}
	}
	s.opCheck(kind)
	s.point(kind)
	var readyBuf [12]int
	rdy := readyBuf[:0]
	for i, c := range cases {
		q := c.st()
		if q == nil {
			continue
		}
		if c.isSend() {
			if q.canSend() {
				rdy = append(rdy, i)
			}
		} else if q.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[0]
		if len(rdy) > 1 {
			k = rdy[Choose(SCHED, len(rdy))]
			s.Stats["sched.selectchoice"]++
		}
		s.SHash = mix(s.SHash, uint64(k))
		c := cases[k]
		if c.isSend() {
			c.st().doSend(c.sendVal())
		} else {
			c.result(c.st().doRecv())
		}
		return k
	}
	if hasDefault {
		return -1
	}
	g := s.cur
	g.wseq++
	vals := make([]any, len(cases))
	oks := make([]bool, len(cases))
	for i, c := range cases {
		q := c.st()
		if q == nil {
			continue
		}
		w := &waiter{g: g, wseq: g.wseq, idx: i}
		if c.isSend() {
			w.val = c.sendVal()
			q.sendq = append(q.sendq, w)
		} else {
			w.dst = &vals[i]
			w.ok = &oks[i]
			q.recvq = append(q.recvq, w)
		}
	}
	s.park(kind)
	k := g.fired
	if k == -2 {
		panic("send on closed channel")
	}
	s.SHash = mix(s.SHash, uint64(k))
	cases[k].result(vals[k], oks[k])
	return k
}

// WaitQ is a queue of parked tasks for sockets and locks.
type WaitQ struct{ q []waitEnt }

type waitEnt struct {
	g    *G
	wseq int
}

// Wait parks the task. The returned function given to an event wakes it too.
func (w *WaitQ) Wait(why string, deadline int64) {
	if S.killing {
		runtime.Goexit()
	}
	g := S.cur
	g.wseq++
	e := waitEnt{g, g.wseq}
	w.q = append(w.q, e)
	if deadline > 0 {
		At(deadline, func() { e.wake() })
	}
	S.park(why)
}

func (e waitEnt) wake() bool {
	if e.g.wseq == e.wseq && e.g.state == stBlocked {
		e.g.wseq++
		S.ready(e.g)
		return true
	}
	return false
}

func (w *WaitQ) WakeOne() bool {
	for len(w.q) > 0 {
		e := w.q[0]
		w.q = w.q[1:]
		if e.wake() {
			return true
		}
	}
	return false
}

func (w *WaitQ) WakeAll() {
	for w.WakeOne() {
	}
}

// Point is a scheduling point for simulated system calls.
func Point(kind string) {
	if S.killing {
		runtime.Goexit()
	}
	S.opCheck(kind)
	S.point(kind)
}

// Killing tells whether the run is being unwound.
func Killing() bool { return S == nil || S.killing }

// Keys lists a map's keys in a fixed order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	return ks
}
