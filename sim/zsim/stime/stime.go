// Package stime stands in for package time.
package stime

import (
	"time"

	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

type Time = time.Time
type Duration = time.Duration

func Now() time.Time { return snet.Base.Add(time.Duration(rt.Now())) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { rt.Sleep(d) }

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *rt.Timer
}

func (t *Timer) start(d time.Duration) {
	host, group := rt.Cur().Host, rt.Cur().Group
	t.t = rt.After(d, func() {
		rt.Stat("timer.fired")
		rt.Note("timer", 0, 0, nil)
		if t.f != nil {
			rt.GoOn(group+"/timer", host, group, t.f)
			return
		}
		rt.TrySend(t.c, Now())
	})
}

func NewTimer(d time.Duration) *Timer {
	rt.Point("timer")
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	rt.Point("timer")
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool { return t.t.Stop() }

func (t *Timer) Reset(d time.Duration) bool {
	r := t.t.Stop()
	t.start(d)
	return r
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	t    *rt.Timer
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = rt.After(t.d, func() {
		rt.TrySend(t.c, Now())
		if !t.stop {
			t.arm()
		}
	})
}

func (t *Ticker) Stop() { t.stop = true; t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.t.Stop()
	t.d = d
	t.stop = false
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
