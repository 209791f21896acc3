// Package rt is a deterministic cooperative scheduler with virtual time. The
// instrumenter turns every goroutine, channel operation and loop of the code
// under test into calls of this package. Tasks are real goroutines, but exactly
// one holds the token at any time, and who gets it next is drawn from the SCHED
// choice stream.
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

const (
	stRunnable = iota
	stBlocked
	stQuiesce
	stDead
)

// G is a task.
type G struct {
	ID     int
	Name   string
	Host   string // simulated machine it runs on
	Group  string // process/owner on that machine, inherited
	wake   chan struct{}
	state  int
	why    string
	fired  int // index of select case that fired
	wseq   int // invalidates stale waiters
	killed bool
	qmark  int  // events fired when it began to wait for quiescence
	idle   bool // woken as nothing can happen anymore
}

type event struct {
	at   int64
	seq  uint64
	fn   func()
	dead bool
	idx  int
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eventHeap) Push(x any)   { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	return e
}

// Violation is a broken property seen in a run. Props lists the properties whose
// statement the observation contradicts.
type Violation struct {
	Props []string
	Key   string // stable class, used while minimising
	Msg   string
}

// Options are the per-run knobs of the scheduler.
type Options struct {
	Switch  int // per mille: switch task at a synchronisation point
	Preempt int // per mille: plan a preemption inside straight-line code
	Random  bool
}

// Sim is one run.
type Sim struct {
	Seed    uint64
	Opt     Options
	streams [NStreams]*Stream
	Ident   *Rng // source of simulated random bytes
	cur     *G
	gs      []*G
	run     []*G // runnable, FIFO
	nextID  int
	now     int64
	evseq   uint64
	events  eventHeap
	chans   map[uintptr]*chanState
	over    bool
	killing bool
	ctl     chan struct{}
	Viols   []Violation
	Harness string // machinery error
	Limit   int64  // virtual time limit
	ops     int    // operations since time last advanced
	Steps   int
	Hash    uint64
	SHash   uint64 // schedule hash (which task at which kind of operation)
	Stats   map[string]int
	Verbose bool
	Trace   []string
	frozen  map[string]bool
	Aux     any
	Also    func(props []string) []string              // further properties broken along with some
	OnPanic func(g *G, val any, stack string) []string // properties broken by a crash
	Ticks   int64
	Ended   string

	refills   int   // of the tick budget since the clock last advanced
	ticksLeft int64 // rest of the tick budget after a planned preemption
	idx       []int
	evCount   int
}

// S is the run in progress; one at a time per process.
var S *Sim

var tick int64

const tickBudget = 3000000
const opBudget = 100000

// Tick is called at function entries, loops and jump targets.
func Tick() {
	tick--
	if tick <= 0 {
		slowTick()
	}
}

func slowTick() {
	s := S
	if s == nil || s.cur == nil || s.killing {
		tick = 1 << 40
		return
	}
	if s.ticksLeft > 0 {
		// Planned preemption.
		n := s.ticksLeft
		s.ticksLeft = 0
		tick = n
		s.Stats["sched.preempt"]++
		s.yield("preempt")
		return
	}
	// Large inputs may rightly take a while, but not forever nor all memory.
	if s.refills++; s.refills < 40 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < 1<<30 {
			tick = tickBudget
			return
		}
	}
	tick = 1 << 40
	s.fail(s.crashProps("livelock"), "livelock", "task "+s.cur.Name+" keeps executing without end\n"+string(debug.Stack()))
	s.exitNow()
}

func (s *Sim) crashProps(kind string) []string {
	if s.OnPanic != nil {
		return s.OnPanic(s.cur, kind, "")
	}
	return []string{"C01"}
}

// New makes a run. replay is nil or holds the recorded streams.
func New(seed uint64, replay *[NStreams][]uint32) *Sim {
	s := &Sim{
		Seed:   seed,
		chans:  map[uintptr]*chanState{},
		ctl:    make(chan struct{}, 1),
		Stats:  map[string]int{},
		Hash:   14695981039346656037,
		SHash:  14695981039346656037,
		Limit:  int64(3600 * time.Second),
		frozen: map[string]bool{},
		Ident:  NewRng(seed, "ident"),
	}
	for i := range s.streams {
		st := &Stream{rng: NewRng(seed, StreamNames[i])}
		if replay != nil {
			st.isRep = true
			st.replay = replay[i]
		}
		s.streams[i] = st
	}
	return s
}

func (s *Sim) Recorded() (r [NStreams][]uint32) {
	for i := range s.streams {
		r[i] = s.streams[i].Rec
	}
	return
}

// Choose draws from [0,n); zero is benign.
func Choose(id StreamID, n int) int { return S.streams[id].Choose(n) }

// Flip is true with p per mille; the zero choice is false.
func Flip(id StreamID, p int) bool {
	if p <= 0 {
		return false
	}
	return S.streams[id].Choose(1000) >= 1000-p
}

func Stat(name string)         { S.Stats[name]++ }
func StatN(name string, n int) { S.Stats[name] += n }

func mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	return h
}

// Note adds to the event log (its text only if verbose) and the log's hash.
func Note(kind string, a, b int, text func() string) {
	s := S
	h := s.Hash
	for i := 0; i < len(kind); i++ {
		h = mix(h, uint64(kind[i]))
	}
	h = mix(h, uint64(a))
	h = mix(h, uint64(b))
	h = mix(h, uint64(s.now))
	s.Hash = h
	if s.Verbose {
		t := ""
		if text != nil {
			t = text()
		}
		s.Trace = append(s.Trace, fmt.Sprintf("%13.6fms %-6s %s", float64(s.now)/1e6, kind, t))
	}
}

func HashBytes(b []byte) int {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return int(h >> 1)
}

func Now() int64 { return S.now }

// VNow is the virtual time a run has reached.
func (s *Sim) VNow() int64 { return s.now }

// At schedules fn, which must not block, at an absolute virtual time.
func At(t int64, fn func()) *Timer {
	s := S
	if t < s.now {
		t = s.now
	}
	s.evseq++
	e := &event{at: t, seq: s.evseq, fn: fn}
	heap.Push(&s.events, e)
	return &Timer{e}
}

func After(d time.Duration, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	return At(S.now+int64(d), fn)
}

type Timer struct{ e *event }

func (t *Timer) Stop() bool {
	if t.e.dead || t.e.fn == nil {
		return false
	}
	t.e.dead = true
	return true
}

// Fail reports a violation and ends the run.
func Fail(props []string, key, format string, args ...any) {
	S.fail(props, key, fmt.Sprintf(format, args...))
}

func (s *Sim) fail(props []string, key, msg string) {
	if s.over {
		return
	}
	if s.Also != nil {
		props = s.Also(props)
	}
	s.Viols = append(s.Viols, Violation{Props: props, Key: key, Msg: msg})
	s.over = true
	s.Ended = "violation"
}

// Over tells whether the run has been decided.
func Over() bool { return S.over }

// Stop ends the run early without verdict.
func Stop(why string) {
	if !S.over {
		S.over = true
		S.Ended = why
	}
}

func HarnessError(format string, args ...any) {
	if S.Harness == "" {
		S.Harness = fmt.Sprintf(format, args...)
	}
	S.over = true
}

// Run executes main as first task and returns once it returned, or the run was
// decided, or nothing can happen anymore.
func (s *Sim) Run(main func()) {
	S = s
	tick = tickBudget
	g := s.newG("main", "harness", "harness", func() {
		main()
		if !s.over {
			s.over = true
			s.Ended = "done"
		}
	})
	_ = g
	s.dispatch(nil)
	<-s.ctl
	// Unwind whatever is left, one at a time.
	s.killing = true
	for _, g := range s.gs {
		if g.state != stDead {
			g.killed = true
			s.cur = g
			g.wake <- struct{}{}
			<-s.ctl
		}
	}
	s.cur = nil
	S = nil
}

func (s *Sim) newG(name, host, group string, fn func()) *G {
	s.nextID++
	g := &G{ID: s.nextID, Name: name, Host: host, Group: group, wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	s.run = append(s.run, g)
	go func() {
		<-g.wake
		defer func() {
			if r := recover(); r != nil && !s.killing {
				st := string(debug.Stack())
				if g.Host == "harness" {
					if s.Harness == "" {
						s.Harness = fmt.Sprintf("panic in harness: %v\n%s", r, st)
					}
					s.over = true
				} else {
					props := []string{"C01"}
					if s.OnPanic != nil {
						props = s.OnPanic(g, r, st)
					}
					if props != nil {
						s.fail(props, "panic:"+panicClass(r, st), fmt.Sprintf("task %s crashed: %v\n%s", g.Name, r, trimStack(st)))
					} else {
						s.over = true
						s.Ended = "expected panic"
					}
				}
			}
			g.state = stDead
			if s.killing {
				s.ctl <- struct{}{}
				return
			}
			s.dispatch(nil)
		}()
		if g.killed {
			return
		}
		fn()
	}()
	return g
}

// panicClass names the kind of crash and the function it happened in.
func panicClass(r any, st string) string {
	k := fmt.Sprint(r)
	if i := strings.IndexByte(k, '\n'); i >= 0 {
		k = k[:i]
	}
	for _, w := range []string{"nil pointer", "index out of range", "slice bounds", "send on closed", "close of closed", "close of nil", "stack overflow", "interface conversion", "divide"} {
		if strings.Contains(k, w) {
			k = w
		}
	}
	if len(k) > 60 {
		k = k[:60]
	}
	where := ""
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/jart/gosip/") {
			where = l
			if i := strings.LastIndexByte(where, '('); i > 0 {
				where = where[:i]
			}
			where = strings.TrimPrefix(where, "github.com/jart/gosip/")
			break
		}
	}
	return k + "@" + where
}

func trimStack(st string) string {
	l := strings.Split(st, "\n")
	for i := range l {
		if strings.HasPrefix(l[i], "panic(") {
			l = l[i:]
			break
		}
	}
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// Go starts a task on the host of the current one.
func Go(fn func()) {
	s := S
	if s.killing {
		return
	}
	c := s.cur
	s.opCheck("go")
	g := s.newG(fmt.Sprintf("%s/%d", c.Group, s.nextID+1), c.Host, c.Group, fn)
	if s.Verbose {
		Note("go", g.ID, 0, func() string { return "task " + g.Name })
	}
	s.point("go")
}

// GoOn starts a harness-side or system-side task on the given host.
func GoOn(name, host, group string, fn func()) *G {
	s := S
	g := s.newG(name, host, group, fn)
	return g
}

// Cur is the running task.
func Cur() *G { return S.cur }

// SetHost changes host and group of the current task; returns a restore func.
func SetHost(host, group string) func() {
	g := S.cur
	h, o := g.Host, g.Group
	g.Host, g.Group = host, group
	return func() { g.Host, g.Group = h, o }
}

// Alive lists tasks of the group that haven't finished.
func Alive(group string) []string {
	var r []string
	for _, g := range S.gs {
		if g.state != stDead && g.Group == group {
			r = append(r, g.Name+" ("+g.why+")")
		}
	}
	return r
}

func (s *Sim) opCheck(kind string) {
	s.ops++
	s.Steps++
	if s.cur != nil {
		h := s.SHash
		h = mix(h, uint64(s.cur.ID))
		for i := 0; i < len(kind); i++ {
			h = mix(h, uint64(kind[i]))
		}
		s.SHash = h
	}
	if s.ops > opBudget && !s.over {
		who := "?"
		if s.cur != nil {
			who = s.cur.Name
		}
		if s.cur != nil && s.cur.Host == "harness" {
			HarnessError("harness task %s spins", who)
		} else {
			s.fail(s.crashProps("livelock"), "livelock", "task "+who+" keeps synchronising without time passing ("+kind+")\n"+string(debug.Stack()))
		}
	}
	if s.over && s.cur != nil {
		s.exitNow()
	}
}

// exitNow hands control back to Run; the current task will be unwound.
func (s *Sim) exitNow() {
	if s.killing {
		runtime.Goexit()
	}
	g := s.cur
	g.state = stBlocked
	g.why = "run over"
	s.dispatch(g)
}

// point is a scheduling point: the current task may lose the token here.
func (s *Sim) point(kind string) {
	if s.killing || s.cur == nil {
		return
	}
	if len(s.run) > 0 && s.Opt.Switch > 0 && Flip(SCHED, s.Opt.Switch) {
		s.yield(kind)
		return
	}
	if s.Opt.Preempt > 0 && s.ticksLeft == 0 && Flip(SCHED, s.Opt.Preempt) {
		n := int64(1 + Choose(SCHED, 300))
		if n < tick {
			s.ticksLeft = tick - n
			tick = n
		}
	}
}

func (s *Sim) yield(kind string) {
	g := s.cur
	g.why = kind
	s.Stats["sched.switch"]++
	s.run = append(s.run, g)
	g.state = stRunnable
	s.dispatch(g)
}

// Yield lets other tasks run.
func Yield() {
	if S.killing {
		return
	}
	S.opCheck("yield")
	S.yield("yield")
}

// park blocks the current task until something readies it.
func (s *Sim) park(why string) {
	g := s.cur
	g.state = stBlocked
	g.why = why
	s.dispatch(g)
}

func (s *Sim) ready(g *G) {
	if g.state == stBlocked || g.state == stQuiesce {
		g.state = stRunnable
		s.run = append(s.run, g)
	}
}

// dispatch gives the token to the next task. self is the caller's task, to be
// resumed later, or nil if it is finished (or the caller is Run).
func (s *Sim) dispatch(self *G) {
	s.cur = nil
	next := s.pick()
	if next == nil {
		s.ctl <- struct{}{}
	} else {
		s.cur = next
		if next == self {
			return
		}
		next.wake <- struct{}{}
	}
	if self != nil {
		<-self.wake
		if self.killed {
			runtime.Goexit()
		}
	}
}

func (s *Sim) pick() *G {
	for {
		if s.over {
			return nil
		}
		if n := len(s.run); n > 0 {
			// Frozen hosts don't run.
			idx := s.idx[:0]
			if len(s.frozen) == 0 {
				for i := range s.run {
					idx = append(idx, i)
				}
			} else {
				for i, g := range s.run {
					if !s.frozen[g.Host] {
						idx = append(idx, i)
					}
				}
			}
			s.idx = idx
			if len(idx) > 0 {
				if s.Opt.Random && len(s.events) > 0 && s.events[0].at <= s.now && !s.events[0].dead && Flip(SCHED, 300) {
					s.fire()
					continue
				}
				k := idx[0]
				if len(idx) > 1 && s.Opt.Random {
					k = idx[Choose(SCHED, len(idx))]
				}
				g := s.run[k]
				s.run = append(s.run[:k], s.run[k+1:]...)
				return g
			}
		}
		// Events that are due now come before declaring quiescence.
		if len(s.events) > 0 && (s.events[0].dead || s.events[0].at <= s.now) {
			s.fire()
			continue
		}
		q := false
		for _, g := range s.gs {
			if g.state == stQuiesce && g.qmark != s.evCount {
				g.state = stRunnable
				s.run = append(s.run, g)
				q = true
				break
			}
		}
		if q {
			continue
		}
		if len(s.events) == 0 || s.events[0].at > s.Limit {
			for _, g := range s.gs {
				if g.state == stQuiesce && !g.idle {
					g.idle = true
					g.state = stRunnable
					s.run = append(s.run, g)
					q = true
					break
				}
			}
			if q {
				continue
			}
			s.over = true
			s.Ended = "idle"
			if len(s.events) > 0 {
				s.Ended = "limit"
			}
			continue
		}
		s.fire()
	}
}

func (s *Sim) fire() {
	e := heap.Pop(&s.events).(*event)
	if e.dead {
		return
	}
	if e.at > s.now {
		s.now = e.at
		s.ops = 0
		s.refills = 0
		if s.ticksLeft == 0 {
			tick = tickBudget
		}
	}
	s.evCount++
	if s.evCount > 400000 {
		HarnessError("too many events")
		return
	}
	fn := e.fn
	e.fn = nil
	e.dead = true
	defer func() {
		if r := recover(); r != nil {
			HarnessError("panic in event: %v\n%s", r, debug.Stack())
		}
	}()
	fn()
}

// Quiesce blocks until no other task can run without time passing, and
// something happened since the caller last waited. False means that nothing can
// happen anymore before the time limit.
func Quiesce() bool {
	s := S
	s.opCheck("quiesce")
	g := s.cur
	g.state = stQuiesce
	g.why = "quiesce"
	g.idle = false
	g.qmark = s.evCount
	s.dispatch(g)
	return !g.idle
}

// Settle is Quiesce without waiting for anything to happen first.
func Settle() {
	s := S
	s.opCheck("quiesce")
	g := s.cur
	g.state = stQuiesce
	g.why = "quiesce"
	g.idle = false
	g.qmark = -1
	s.dispatch(g)
}

// Sleep lets virtual time pass.
func Sleep(d time.Duration) {
	s := S
	if s.killing {
		runtime.Goexit()
	}
	s.opCheck("sleep")
	if d <= 0 {
		s.point("sleep")
		return
	}
	g := s.cur
	After(d, func() { s.ready(g) })
	s.park("sleep")
}

// Freeze stops all tasks of a host from running until Thaw.
func Freeze(host string) { S.frozen[host] = true; S.Stats["fault.freeze"]++ }
func Thaw(host string)   { delete(S.frozen, host) }

// NextEvent is the time of the next scheduled event or -1.
func NextEvent() int64 {
	s := S
	for len(s.events) > 0 && s.events[0].dead {
		heap.Pop(&s.events)
	}
	if len(s.events) == 0 {
		return -1
	}
	return s.events[0].at
}

// Dump describes the live tasks.
func Dump() string {
	var l []string
	for _, g := range S.gs {
		if g.state != stDead {
			l = append(l, fmt.Sprintf("%s@%s: %s", g.Name, g.Host, g.why))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}
